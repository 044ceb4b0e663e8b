#!/usr/bin/env python3
"""Makes a planted change: mkseed.py SPEC.py
SPEC defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (rust), optionally DEPS, RUSTFLAGS.
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, "seeded", ns["ID"])
os.makedirs(d, exist_ok=True)
diffs = []
for f in dict.fromkeys(e[0] for e in ns["EDITS"]):
    src = open(os.path.join("/repo", f)).read()
    new = src
    for g, a, b in ns["EDITS"]:
        if g == f:
            assert new.count(a) == 1, (f, a, new.count(a))
            new = new.replace(a, b)
    t = tempfile.mkdtemp(prefix="seed-")
    for side, text in (("a", src), ("b", new)):
        p = os.path.join(t, side, f)
        os.makedirs(os.path.dirname(p))
        open(p, "w").write(text)
    r = subprocess.run(["git", "diff", "--no-index", "--no-color", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines(keepends=True)]
    # paths as git apply wants them
    out = "".join(out).replace(f"a/a/{f}", f"a/{f}").replace(f"b/b/{f}", f"b/{f}")
    diffs.append(out)
    shutil.rmtree(t)
open(os.path.join(d, "patch.diff"), "w").write("".join(diffs))
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
for c in ns.get("COPY", []):
    to = os.path.join(d, os.path.basename(c))
    if os.path.isdir(c):
        shutil.copytree(c, to, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
    else:
        shutil.copy(c, to)
if "DEMO" in ns:
    if "MAIN" in ns:
        open(os.path.join(d, "main.rs"), "w").write(ns["MAIN"])
    open(os.path.join(d, "demo.sh"), "w").write(ns["DEMO"])
else:
    open(os.path.join(d, "main.rs"), "w").write(ns["MAIN"])
    deps = ns.get("DEPS", 'tp_client = { path = "/repo/client/rust", default-features = false }\narena = { path = "/repo/crates/datastructures/arena" }\n')
    flags = ns.get("RUSTFLAGS", "--cfg tp_verif -Awarnings")
    lock = ns.get("LOCK", os.path.join(V, "harness/core/Cargo.lock"))
    shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    open(os.path.join(d, "demo.sh"), "w").write(f"""#!/bin/bash
# Builds main.rs against /repo and runs it: exit 0 if the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<'EOF'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
{deps}[profile.dev]
opt-level = 0
debug = 0
EOF
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS='{flags}' CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 99
cargo build --offline -q || exit 98
timeout 120 "$d/target/debug/demo"
""")
os.chmod(os.path.join(d, "demo.sh"), 0o755)
print("made", ns["ID"])
