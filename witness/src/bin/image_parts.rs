// expect E0451
use body_image::BodyImage;
fn main() {
    let _ = BodyImage { ..BodyImage::empty() }; // HERE
}
