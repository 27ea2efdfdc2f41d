#!/usr/bin/env python3
"""plant.py SPEC.py...   — turns a bug specification into /verif/seeded/<id>/ and validates it.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Rust main.rs text).
Validation runs in a private mount namespace in which a scratch copy of /repo is bind-mounted over
/repo: build, stable tests, demo on the unchanged and the changed tree, and the property's check.
"""
import json, os, pathlib, shutil, subprocess, sys, runpy

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEMO_SH = r'''#!/bin/bash
# Builds the program beside this script against /repo and runs it: 0 = behaviour as documented.
here=$(cd "$(dirname "$0")" && pwd)
W=/tmp/kogarashi-demo-@ID@
rm -rf "$W"; mkdir -p "$W/src"
trap 'rm -rf /tmp/kogarashi-demo-@ID@' EXIT
cp "$here/demo.rs" "$W/src/main.rs"
cp /repo/Cargo.lock "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
zkstd = { path = "/repo/zkstd" }
bn-254 = { path = "/repo/bn254" }
grumpkin = { path = "/repo/grumpkin" }
zkgroth16 = { path = "/repo/groth16" }
zknova = { path = "/repo/nova" }
ff = "0.13"
rand_core = { version = "0.6.4", default-features = false, features = ["getrandom"] }
parity-scale-codec = { version = "2", default-features = false, features = ["derive"] }
[profile.release]
debug = false
overflow-checks = false
TOML
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2022-11-14 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0 RUSTFLAGS='@FLAGS@ -Awarnings'
cd "$W" || exit 1
cargo build --release --offline \
  --config 'source.crates-io.replace-with="vp-vendor"' \
  --config 'source.vp-vendor.directory="/opt/vp/vendor"' >"$W/build.log" 2>&1 \
  || { tail -40 "$W/build.log"; exit 1; }
timeout 200 "$W/target/release/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

def ns(inner, work, timeout=1800):
    script = f"mount --bind {work}/repo /repo && mount --bind {work}/vp /opt/vp && cd /repo && ( {inner} )"
    return subprocess.run(["unshare", "-m", "bash", "-c", script], text=True, capture_output=True, timeout=timeout)

def run(spec_path, only_check=False):
    s = runpy.run_path(spec_path)
    i, prop = s["ID"], s["PROPERTY"]
    work = pathlib.Path(f"/tmp/plant-{i}")
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir()
    sh(f"cp -a /repo {work}/repo; cp -a /opt/vp {work}/vp; git -C {work}/repo checkout -q -- .")
    d = ROOT / "seeded" / i
    d.mkdir(parents=True, exist_ok=True)
    try:
        for f, old, new in s["EDITS"]:
            p = work / "repo" / f
            t = p.read_text()
            assert t.count(old) == 1, f"{f}: old text occurs {t.count(old)} times"
            p.write_text(t.replace(old, new))
        diff = sh(f"git -C {work}/repo diff").stdout
        (d / "patch.diff").write_text(diff)
        (d / "demo.rs").write_text(s["DEMO"])
        (d / "demo.sh").write_text(DEMO_SH.replace("@ID@", i).replace("@FLAGS@", s.get("FLAGS", "")))
        os.chmod(d / "demo.sh", 0o755)
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        ok = True
        dd = work / "demo"; shutil.copytree(d, dd)
        r = sh(f"cd /repo && bash {dd}/demo.sh", timeout=400)
        print(f"[{i}] demo unchanged rc={r.returncode} {r.stdout[-300:] if r.returncode else ''}{r.stderr[-300:] if r.returncode else ''}"); ok &= r.returncode == 0
        r = ns(f"bash {dd}/demo.sh", work)
        print(f"[{i}] demo patched rc={r.returncode} {(r.stdout+r.stderr)[-300:]}"); ok &= r.returncode != 0
        r = ns("bash /opt/vp/build.sh", work)
        print(f"[{i}] build rc={r.returncode} {r.stderr[-800:] if r.returncode else ''}"); ok &= r.returncode == 0
        r = ns(f"bash /opt/vp/test.sh {work}/o.json", work)
        o = json.loads((work / "o.json").read_text())
        base = json.load(open("/opt/vp/BASELINE.json"))
        print(f"[{i}] tests passed={len(o['passed'])} failed={o['failed'][:5]}"); ok &= len(o["passed"]) >= 133 and not o["failed"]
        print(f"[{i}] VALID={ok}")
        shutil.rmtree(work / "repo" / "target", ignore_errors=True)
        r = ns(f"VERIF_SEED=1 VERIF_TIER=quick VK_TARGET={work}/vt bash {ROOT}/check.sh {prop}", work)
        lines = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "KNOWN" in l or "ERROR" in l]
        print(f"[{i}] check rc={r.returncode} {lines[:3]}")
        print(f"[{i}] {'CAUGHT' if r.returncode == 1 else 'MISSED'}")
    finally:
        shutil.rmtree(work, ignore_errors=True)

for p in sys.argv[1:]:
    try:
        run(p)
    except Exception as e:
        print(p, "ERROR", repr(e))
