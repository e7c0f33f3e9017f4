// expect E0451
use body_image::BodySink;
fn main() {
    let _ = BodySink { ..BodySink::empty() }; // HERE
}
