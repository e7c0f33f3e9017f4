// expect E0505
use barc::BarcFile;
fn main() {
    let b = BarcFile::new("x");
    let mut w = b.writer().unwrap();
    drop(b); // HERE
    let _ = &mut w;
    drop(w);
}
