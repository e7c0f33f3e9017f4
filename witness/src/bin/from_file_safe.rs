// expect E0133
use body_image::BodyImage;
fn main() {
    let f = std::fs::File::open("x").unwrap();
    let _ = BodyImage::from_file(f, 1); // HERE
}
