#!/usr/bin/env python3
"""tools/mkseed.py ID PROP MAIN.rs "needs" "what it breaks": takes the uncommitted change of the scratch copy
/tmp/seed (a clone of /repo) as the patch and builds /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, main, needs, breaks = sys.argv[1:6]
d = os.path.join(V, "seeded", sid)
shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(d, "demo", "src"))
patch = subprocess.run(["git", "-C", "/tmp/seed", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert patch, "no change in /tmp/seed"
open(os.path.join(d, "patch.diff"), "w").write(patch)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.copytree(os.path.join(V, "harness", "stubs"), os.path.join(d, "demo", "stubs"))
shutil.copytree(os.path.join(V, "harness", ".cargo"), os.path.join(d, "demo", ".cargo"))
shutil.copy(os.path.join(V, "harness", "Cargo.lock"), os.path.join(d, "demo", "Cargo.lock"))
toml = open(os.path.join(V, "harness", "Cargo.toml")).read()
open(os.path.join(d, "demo", "Cargo.toml"), "w").write(toml)
shutil.copy(main, os.path.join(d, "demo", "src", "main.rs"))
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# Exit 0: the library behaves; non-zero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.83.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo"
cd "$work/demo" || exit 3
CARGO_TARGET_DIR="$work/target" cargo build --offline --locked -q --bin sds-verif || exit 3
timeout 60 "$work/target/debug/sds-verif"
''')
print("seeded", sid)
