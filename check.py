#!/usr/bin/env python3
"""Runs the monitors of one property against the code in /repo.

  check.py run C02 [--tier quick|thorough] [--seed N]
  check.py replay FILE          re-run one recorded violation
  check.py setup                build every configuration

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: violated. Anything else: no verdict.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import CONFIGS, PLAN  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
OUT = os.path.join(HERE, "out")
SHARDS = 8
FIXED = 2**64 - 1


def tree_hash():
    """Content of everything that goes into a build."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ("imap-codec", "imap-types")] + [HARNESS]
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "fuzz"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(cfg, stamp):
    c = CONFIGS[cfg]
    tdir = os.path.join(TARGET, cfg)
    os.makedirs(tdir, exist_ok=True)
    binary = os.path.join(tdir, *c.get("subdir", []), "release" if c.get("release") else "debug", "mon")
    stampfile = os.path.join(tdir, "stamp")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tdir)
    env.pop("RUSTFLAGS", None)
    env.update(c.get("env", {}))
    base = ["cargo"] + c.get("toolchain", [])
    old = open(stampfile).read() if os.path.exists(stampfile) else ""
    if old == stamp and os.path.exists(binary):
        return binary, None
    if os.path.exists(stampfile):
        os.unlink(stampfile)
        # File times need not follow content here, so do not rely on them.
        subprocess.run(base + ["clean", "--offline", "-p", "imap-codec", "-p", "imap-types", "-p", "mon"]
                       + (["--release"] if c.get("release") else []) + c.get("target_args", []),
                       cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = base + ["build", "--offline", "--locked", "-q"]
    if c["features"]:
        cmd += ["--features", ",".join(c["features"])]
    if c.get("release"):
        cmd.append("--release")
    cmd += c.get("target_args", [])
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout[-4000:]
    with open(stampfile, "w") as f:
        f.write(stamp)
    return binary, None


def build_all(cfgs):
    stamp = tree_hash()
    bins = {}
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        for cfg, (b, err) in zip(cfgs, ex.map(lambda c: build(c, stamp), cfgs)):
            if err is not None:
                print(f"BUILD FAILED ({cfg})\n{err}")
                sys.exit(2)
            bins[cfg] = b
    return bins


def limits(cpu=None, mem=6 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def run_cmd(binary, mode, prop, seed, shard, shards, tier, extra, cfg):
    return [binary, mode, prop, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--tier", tier] + extra


def replay_case(binary, prop, seed, shard, shards, tier, idx, cfg):
    """Run one case alone. Returns (violated, description)."""
    mem = None if CONFIGS[cfg].get("no_mem_limit") else 6 << 30
    env = dict(os.environ, **CONFIGS[cfg].get("run_env", {}))
    r = subprocess.run(run_cmd(binary, "replay", prop, seed, shard, shards, tier, ["--index", str(idx)], cfg),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits(cpu=600, mem=mem), env=env)
    if r.returncode == 0:
        return False, "case alone: no violation"
    if r.returncode == 1:
        return True, r.stdout.decode(errors="replace")[-6000:]
    if r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        if r.returncode == -signal.SIGKILL:
            return False, "killed"
        return True, "does not terminate: used more than 600 s of CPU time on one case"
    if r.returncode == 9:
        return True, "does not terminate: used more than 60 s of CPU time on one evaluation"
    return True, f"process died: exit {r.returncode} " + r.stderr.decode(errors="replace")[-3000:]


def load_known():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                known.append(json.loads(line[len("known:"):]))
    return known


def check(prop, tier, seed0):
    t0 = time.time()
    plan = PLAN[prop]
    cfgs = plan["configs"] if tier == "quick" else plan.get("thorough_configs", plan["configs"])
    bins = build_all(list(cfgs))
    built = time.time() - t0
    out = os.path.join(OUT, prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    known = [k for k in load_known() if k["property"] == prop]
    cov, samples, percfg, hashes = {}, [], {}, set()
    evals = 0
    violations, inconclusive, known_hit = [], [], {}
    for n_cfg, cfg in enumerate(cfgs):
        if violations:
            break
        opt = cfgs[cfg] or {}
        # Time for this configuration: normally far more than it needs; on a slow machine the rest is divided.
        secs = 900 if tier == "thorough" else max(20, min(150, (650 - (time.time() - t0)) / (len(cfgs) - n_cfg)))
        # Every configuration explores different cases.
        seed = seed0 * 64 + list(CONFIGS).index(cfg)
        binary = bins[cfg]
        env = dict(os.environ, **CONFIGS[cfg].get("run_env", {}))
        mem = None if CONFIGS[cfg].get("no_mem_limit") else 6 << 30
        procs = []
        shards = opt.get("shards", SHARDS)
        for s in range(shards):
            res = os.path.join(out, f"{cfg}.{s}.json")
            jr = os.path.join(out, f"{cfg}.{s}.journal")
            extra = ["--out", res, "--journal", jr, "--secs", str(int(opt.get("secs", secs)))]
            if "cases" in opt:
                extra += ["--cases", str(opt["cases"])]
            p = subprocess.Popen(run_cmd(binary, "run", prop, seed, s, shards, tier, extra, cfg), stdout=subprocess.DEVNULL,
                                 stderr=open(os.path.join(out, f"{cfg}.{s}.err"), "wb"), preexec_fn=limits(mem=mem), env=env)
            procs.append((s, p, res, jr))
        n_ev = 0
        for s, p, res, jr in procs:
            rc = p.wait()
            fails = []
            if rc in (0, 1) and os.path.exists(res):
                j = json.load(open(res))
                n_ev += j["evaluations"]
                for k, v in j["coverage"].items():
                    cov[k] = max(cov.get(k, 0), v) if k.startswith("max-") else cov.get(k, 0) + v
                samples += [x for x in j["samples"] if len(samples) < 6][:1]
                with open(res + ".hash", "rb") as f:
                    b = f.read()
                hashes.update(struct.unpack(f"<{len(b)//8}Q", b))
                os.unlink(res + ".hash")
                fails = [(f["sig"], f["detail"], f["input"], f["shown"], f["index"]) for f in j["fails"]]
            else:
                err = open(os.path.join(out, f"{cfg}.{s}.err"), "rb").read()[-3000:].decode(errors="replace")
                idx = None
                if os.path.exists(jr) and os.path.getsize(jr) == 8:
                    idx = struct.unpack("<Q", open(jr, "rb").read())[0]
                if idx is None or rc == -signal.SIGKILL:
                    inconclusive.append(f"{cfg} shard {s}: exit {rc} {err}")
                    continue
                if any(v["signature"] == "crash or hang" for v in violations):
                    continue
                bad, what = replay_case(binary, prop, seed, s, shards, tier, idx, cfg)
                if bad:
                    fails = [("crash or hang", f"exit {rc} on case {idx}\n{err}\nalone: {what}", "", "", idx)]
                else:
                    inconclusive.append(f"{cfg} shard {s}: exit {rc} on case {idx}, not reproduced ({what}) {err}")
            for sig, detail, inp, shown, idx in fails:
                k = next((k for k in known if k["sig"] == sig and k["input"] == inp), None)
                if k:
                    known_hit[k["what"]] = 1
                    continue
                violations.append({"property": prop, "config": cfg, "seed": seed, "shard": s, "shards": shards, "tier": tier,
                                   "index": idx, "signature": sig, "detail": detail, "input_hex": inp, "input": shown,
                                   "replay": f"python3 {HERE}/check.py replay <this file>"})
        percfg[cfg] = n_ev
        evals += n_ev
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    # Liveness of the monitor itself: what it must have seen for silence to mean something.
    missing = [m for m in plan.get("must_see", []) if cov.get(m, 0) == 0]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed0,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": plan["rule"],
            "samples": samples,
            "evaluations_per_configuration": percfg,
            "monitor_counters": dict(sorted(cov.items(), key=lambda kv: -kv[1])[:400]),
            "inconclusive": inconclusive,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed0}: {evals} evaluations, {len(hashes)} distinct, {len(violations)} violations, "
          f"build {built:.1f} s, total {time.time()-t0:.1f} s, per configuration {percfg}")
    if violations:
        for i, v in enumerate(violations[:10]):
            path = os.path.join(out, f"violation-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  [{v['config']}] {v['signature']}: {v['input'][:200]}\n    " + v["detail"][:600].replace("\n", "\n    "))
        print(f"VIOLATION property={prop} replay={os.path.join(out, 'violation-0.json')}")
        return 1
    if inconclusive:
        print("NO VERDICT: " + "; ".join(inconclusive))
        return 2
    if missing or not evals or not hashes:
        print(f"NO VERDICT: monitor saw nothing of {missing or 'anything'}")
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    b = build_all([v["config"]])[v["config"]]
    bad, what = replay_case(b, v["property"], v["seed"], v["shard"], v["shards"], v["tier"], v["index"], v["config"])
    print(what)
    print("violated" if bad else "not violated")
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build_all([c for c in CONFIGS if not CONFIGS[c].get("thorough_only")])
        return 0
    if a[0] == "replay":
        return replay(a[1])
    prop = a[1]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
