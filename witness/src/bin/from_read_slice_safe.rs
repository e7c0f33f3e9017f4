// expect E0133
use body_image::{BodyImage, ExplodedImage};
fn main() {
    if let ExplodedImage::FsRead(rs) = BodyImage::empty().explode() {
        let _ = BodyImage::from_read_slice(rs); // HERE
    }
}
