#[path = "lib.rs"]
mod h;
fn main() { sym::replay_main(h::ENTRIES) }
