// expect E0515
use barc::{BarcFile, BarcWriter};
fn make() -> BarcWriter<'static> {
    let b = BarcFile::new("x");
    b.writer().unwrap() // HERE
}
fn main() {
    drop(make());
}
