// expect E0451
use body_image::Tuner;
fn main() {
    let _ = Tuner { ..Tuner::new() }; // HERE
}
