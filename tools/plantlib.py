"""Helper to write seeded/<id>/ from a list of edits (used by hand)."""
import subprocess, os, json
R = os.environ.get("PLANT_REPO", "/repo")
def plant(id, prop, edits, crate, demo, needs, breaks):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        s = open(R + "/" + f).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(R + "/" + f, "w").write(s.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
    subprocess.check_call(["git", "-C", R, "checkout", "--", "."])
    open(d + "/demo.rs", "w").write(demo)
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# runs demo.rs as an integration test of {crate} in a scratch copy of the repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.79.0 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
tar -c --exclude=./target --exclude=./.git . | tar -x -C "$w" || exit 3
[ -f "$w/Cargo.lock" ] || cp /opt/vp/Cargo.lock "$w/Cargo.lock"
cp "$here/demo.rs" "$w/{crate}/tests/planted_demo.rs" || exit 3
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo test --offline -p {crate} --test planted_demo
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
