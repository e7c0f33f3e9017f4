// expect E0597
use barc::BarcFile;
fn main() {
    let w = {
        let b = BarcFile::new("x");
        b.writer().unwrap() // HERE
    };
    drop(w);
}
