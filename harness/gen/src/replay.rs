include!("lib.rs");
fn main() { sym::replay_main(ENTRIES) }
