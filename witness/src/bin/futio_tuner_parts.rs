// expect E0451
use body_image_futio::FutioTuner;
fn main() {
    let _ = FutioTuner { ..FutioTuner::new() }; // HERE
}
