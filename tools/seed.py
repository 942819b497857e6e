#!/usr/bin/env python3
"""Builds and validates /verif/seeded/<id>/ from a spec file (not used by any check).
spec: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEPS={crate: toml}, MAIN=rust source."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh("git -C /repo checkout -- .")
PATHS = {"unreal_pak": "/repo/unreal_pak", "unreal_helpers": "/repo/unreal_helpers", "unreal_asset": "/repo/unreal_asset", "unreal_mod_metadata": "/repo/unreal_mod_metadata"}
for n in ["base", "properties", "exports", "kismet", "registry"]: PATHS[f"unreal_asset_{n}"] = f"/repo/unreal_asset/unreal_asset_{n}"
DEMO = '''#!/bin/bash
# exit 0: the property's demonstration holds; builds against /repo in a scratch directory
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/main.rs" "$T/src/main.rs"; cp "$D/Cargo.toml.in" "$T/Cargo.toml"; cp "$D/Cargo.lock.in" "$T/Cargo.lock"
cd "$T" || exit 3
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS="-Awarnings" RUSTC_WRAPPER=
cargo build --offline --quiet || exit 4
%s
'''
def main(spec, run_check=True):
    ns = {}; exec(open(spec).read(), ns)
    sid = os.path.splitext(os.path.basename(spec))[0]
    d = f"{V}/seeded/{sid}"
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    os.makedirs(d, exist_ok=True)
    deps = ns.get("DEPS", {})
    toml = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
    for k, f in deps.items():
        p = PATHS.get(k)
        toml += f'{k} = {{ path = "{p}"{", " + f if f else ""} }}\n' if p else f'{k} = {f}\n'
    toml += ns.get("TOML", "")
    toml += '[profile.dev]\ndebug = false\n' + ns.get("PROFILE", "")
    open(f"{d}/Cargo.toml.in", "w").write(toml)
    shutil.copy("/opt/vp/ws/Cargo.lock", f"{d}/Cargo.lock.in")
    open(f"{d}/main.rs", "w").write(ns["MAIN"])
    open(f"{d}/demo.sh", "w").write(DEMO % ns.get("RUN", '"$T/target/debug/demo"')); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    try:
        for f, old, new in ns["EDITS"]:
            s = open("/repo/" + f).read()
            if s.count(old) != 1: print(sid, "EDIT MISMATCH", f, s.count(old)); return
            open("/repo/" + f, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        restore()
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); c0 = r.returncode
        if c0: print(sid, "demo fails on clean tree:", c0, (r.stdout + r.stderr)[-1500:]); return
        a = sh(f"git -C /repo apply {d}/patch.diff")
        if a.returncode: print(sid, a.stderr); return
        r = sh(f"bash {d}/demo.sh", cwd="/repo"); c1 = r.returncode
        demo_out = (r.stdout + r.stderr)[-200:]
        b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        broken = [x for x in base if x not in o["passed"]]
        chk = {}
        for p in ns["PROP"].split() + ns.get("ALSO", []):
            r = sh(f"{V}/bin/check {p} quick", cwd=V); chk[p] = (r.returncode, r.stdout.count("VIOLATION"))
        print(sid, "demo with patch:", c1, "build", b.returncode, "tests broken:", broken[:3], "checks:", chk, "" if c1 in (1, 101) else demo_out)
    finally:
        restore()
for s in sys.argv[1:]: main(s)
