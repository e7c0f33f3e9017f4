// expect E0451
use body_image_futio::FutioTunables;
fn main() {
    let _ = FutioTunables { ..FutioTunables::new() }; // HERE
}
