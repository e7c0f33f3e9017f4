// expect E0451
use body_image::Tunables;
fn main() {
    let _ = Tunables { ..Tunables::new() }; // HERE
}
