#!/usr/bin/env python3
"""Try out planted bugs. Usage: plant.py SPEC.py [ID ...]   (development tool, no check uses it)

SPEC.py defines BUGS: a list of dicts id, property, needs, breaks, edits [(file, old, new)], demo (body of main.rs).
For each: apply to /repo, build, run the stable tests, run the demo with and without, run the property's check, undo, and, if the
bug counts, write /verif/seeded/<id>/. Prints one line per bug.
"""
import json, os, pathlib, re, runpy, shutil, subprocess, sys, time

V = pathlib.Path(__file__).resolve().parent.parent
R = pathlib.Path("/repo")
FEATS = ["starttls", "ext_condstore_qresync", "ext_id", "ext_login_referrals", "ext_mailbox_referrals", "ext_metadata", "ext_namespace", "ext_utf8"]
DEMO = """#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is broken. Builds a small program against /repo in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" && cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/" || exit 2
cd "$work" || exit 2
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet%s || exit 2
timeout 120 ./target/%s/demo
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- .")


def write(bug, dest):
    dest.mkdir(parents=True)
    feats = bug.get("features", FEATS)
    quirk = bug.get("default_features", True)
    (dest / "Cargo.toml").write_text(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2024"
publish = false

[workspace]

[dependencies]
imap-codec = {{ path = "/repo/imap-codec", default-features = {str(quirk).lower()}, features = {json.dumps(feats + bug.get('more_features', []))} }}
imap-types = {{ path = "/repo/imap-types", default-features = false }}
bounded-static = {{ version = "0.8.0", default-features = false, features = ["alloc"] }}
chrono = {{ version = "0.4", default-features = false }}
serde = {{ version = "1.0.228" }}
serde_json = {{ version = "1.0.150" }}
arbitrary = {{ version = "1.4.2" }}
""")
    lock = (V / "harness/Cargo.lock").read_text().replace('name = "mon"', 'name = "demo"')
    (dest / "Cargo.lock").write_text(lock)
    body = bug["demo"]
    (dest / "main.rs").write_text(body)
    rel = bug.get("release")
    (dest / "demo.sh").write_text(DEMO % (" --release" if rel else "", "release" if rel else "debug"))
    os.chmod(dest / "demo.sh", 0o755)
    (dest / "meta.json").write_text(json.dumps({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")


def one(bug, keep=True, check=True):
    undo()
    tmp = pathlib.Path(f"/tmp/bugs/work{os.getpid()}") / bug["id"]
    if tmp.exists():
        shutil.rmtree(tmp)
    write(bug, tmp)
    base = sh(f"bash {tmp}/demo.sh", cwd=R)
    if base.returncode != 0:
        return "DEMO-FAILS-ON-BASE\n" + base.stdout[-2500:]
    try:
        for f, old, new in bug["edits"]:
            p = R / f
            s = p.read_text()
            n = s.count(old)
            if n != 1:
                return f"EDIT {f}: {n} matches of {old[:60]!r}"
            p.write_text(s.replace(old, new))
        (tmp / "patch.diff").write_text(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            return "NO BUILD\n" + "\n".join(l for l in b.stdout.splitlines() if "error" in l or "-->" in l)[:1500]
        sh("bash /opt/vp/test.sh /repo/target/t.json")
        passed = set(json.load(open("/repo/target/t.json"))["passed"])
        stable = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(stable["stable"])
        lost = stable - passed
        if lost:
            return f"TESTS FAIL {len(lost)}: {sorted(lost)[:3]}"
        d = sh(f"bash {tmp}/demo.sh", cwd=R)
        if d.returncode == 0:
            return "DEMO PASSES WITH BUG"
        res = "planted; demo: " + ([l for l in d.stdout.splitlines() if "panicked" in l or "Error" in l or "left" in l or "bort" in l] or [""])[-1][:150] + f" rc={d.returncode}"
        if check:
            t = time.time()
            props = [bug["property"]] + bug.get("also", [])
            for p in props:
                c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py run {p}", cwd=V)
                hit = c.returncode == 1 and f"VIOLATION property={p} " in c.stdout
                res += f"\n    {p} {'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode} {time.time() - t:.0f}s " + (c.stdout.strip()[-400:] if not hit else "")
        if keep:
            dest = V / "seeded" / bug["id"]
            if dest.exists():
                shutil.rmtree(dest)
            dest.parent.mkdir(exist_ok=True)
            shutil.copytree(tmp, dest)
        return res
    finally:
        undo()
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    spec = runpy.run_path(sys.argv[1])
    ids = sys.argv[2:]
    for bug in spec["BUGS"]:
        if ids and bug["id"] not in ids:
            continue
        print(f"== {bug['id']} ({bug['property']})", flush=True)
        print("   ", one(bug), flush=True)


main()
