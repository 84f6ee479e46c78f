#!/usr/bin/env python3
"""mkharness.py AREA CRATE[=feat,..]... : (re)writes the boilerplate of a harness crate."""
import sys, os
area, crates = sys.argv[1], sys.argv[2:]
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', area)
os.makedirs(d + '/src', exist_ok=True)
deps = ''
for c in crates: 
    if ':' in c: deps += c.replace(':', ' = ', 1) + '\n'
    else: deps += f'{c} = {{ path = "/repo/crates/{c}" }}\n'
open(d + '/Cargo.toml', 'w').write(f'''[package]
name = "h-{area}"
version = "0.1.0"
edition = "2024"

[workspace]

[features]
native = ["sym/native"]

[lib]
name = "h"
crate-type = ["cdylib"]

[[bin]]
name = "replay"
path = "src/replay.rs"
required-features = ["native"]

[dependencies]
sym = {{ path = "../sym" }}
{deps}
[profile.release]
lto = "fat"
panic = "abort"
codegen-units = 1
opt-level = 2
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
''')
open(d + '/src/replay.rs', 'w').write('''#[path = "lib.rs"]
mod h;
fn main() { sym::replay_main(h::ENTRIES) }
''')
if not os.path.exists(d + '/src/lib.rs'): open(d + '/src/lib.rs', 'w').write('use sym::*;\nentries! {}\n')
os.system(f'cp /opt/vp/Cargo.lock {d}/Cargo.lock && cd {d} && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo metadata --offline --format-version 1 >/dev/null')
