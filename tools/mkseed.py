#!/usr/bin/env python3
"""Builds and confirms planted bugs: mkseed.py ID...  (specs in tools/seeds.py)
Keeps /verif/seeded/ID/{patch.diff,demo.sh,meta.json,demo/} only after: the patch compiles, the stable tests pass with it, the
demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from seeds import SEEDS, PRELUDE
CARGO = open(os.path.join(H, "tools", "demo_Cargo.toml")).read()
WS_DEPS = 'hydra-websockets = { path = "@REPO@/hydra-websockets", default-features = false }\ntokio-tungstenite = { version = "0.26", default-features = false, features = ["handshake"] }\n'
DEMO_SH = """#!/bin/bash
# builds and runs the demonstration beside this file against the hydra crate in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/" && sed -i "s#@REPO@#$PWD#" "$d/Cargo.toml" || exit 1
cd "$d" && CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-A warnings --cfg hydra_verif" cargo build --offline --quiet 2>"$d/log" || { cat "$d/log"; exit 1; }
timeout 120 "$d/target/debug/demo"
"""
def run(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return p.returncode, p.stdout
for sid in sys.argv[1:]:
    s = SEEDS[sid]
    W = f"/tmp/seed-{sid}"
    shutil.rmtree(W, ignore_errors=True)
    run(f"cp -a /repo {W} && cd {W} && git checkout -q -- . ")
    out = os.path.join("/tmp", f"seedout-{sid}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/demo/src")
    open(out + "/demo/Cargo.toml", "w").write(CARGO.replace("\n[profile", WS_DEPS + "\n[profile") if "hydra_websockets" in s["demo"] else CARGO)
    shutil.copy(os.path.join(H, "replay", "Cargo.lock"), out + "/demo/Cargo.lock")
    lock = open(out + "/demo/Cargo.lock").read().replace('name = "replay"\nversion = "0.1.0"', 'name = "demo"\nversion = "0.1.0"')
    open(out + "/demo/Cargo.lock", "w").write(lock)
    open(out + "/demo/src/main.rs", "w").write(PRELUDE + s["demo"])
    open(out + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    rc, o = run(f"bash {out}/demo.sh", cwd=W)
    print(sid, "demo on the unchanged tree:", rc, o[-400:] if rc else "")
    ok = rc == 0
    for f, a, b in s["edits"]:
        p = os.path.join(W, "hydra/src", f)
        t = open(p).read()
        if t.count(a) != 1:
            print(sid, "EDIT does not match once:", f, t.count(a)); ok = False
        open(p, "w").write(t.replace(a, b))
    rc, o = run(f"git -C {W} diff > {out}/patch.diff; git -C /repo apply --check {out}/patch.diff")
    ok &= rc == 0
    rc, o = run(f"bash {out}/demo.sh", cwd=W)
    print(sid, "demo with the patch:", rc, o[-300:])
    ok &= rc != 0
    # the tests with the patch, in the scratch copy
    rc, o = run("cargo nextest run --workspace --all-features --no-fail-fast --offline --test-threads 8", cwd=W)
    print(sid, "tests:", rc, [l for l in o.splitlines() if "Summary" in l or " FAIL " in l])
    ok &= rc == 0
    shutil.rmtree(W, ignore_errors=True)
    if ok:
        dst = os.path.join(H, "seeded", sid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.move(out, dst)
        print(sid, "KEPT")
    else:
        print(sid, "NOT KEPT")
