#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] : build the harness of a property from /repo and run it."""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
def build_dir(target):
    """harnesses named mt_* explore thread schedules and need their own flavour of the library"""
    return os.path.join(VERIF, "build", "mt" if target.startswith("mt_") else "main")
PROPS = json.load(open(os.path.join(VERIF, "harness", "checks.json")))

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

def configure(where):
    if not os.path.exists(os.path.join(where, "build.ninja")):
        os.makedirs(where, exist_ok=True)
        r = sh(["cmake", "-S", VERIF, "-B", where, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
                "-DCMAKE_CXX_COMPILER=g++-12", "-DMC_THREADS=" + ("ON" if os.path.basename(where) == "mt" else "OFF")],
               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout); sys.exit(2)

def build(targets):
    for where in sorted({build_dir(t) for t in targets}):
        os.makedirs(where, exist_ok=True)
        with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            guard_stale(where)
            configure(where)
            t_start = time.time_ns()
            r = sh(["ninja", "-C", where] + [t for t in targets if build_dir(t) == where], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-8000:]); print("BUILD FAILED"); sys.exit(2)
            json.dump(dict(t=t_start, files=tree_hashes()), open(os.path.join(where, "tree.json"), "w"))

def tree_hashes():
    out = {}
    for root, _, files in os.walk("/repo/cpp/lib_moment"):
        for f in files:
            p = os.path.join(root, f)
            out[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out

def guard_stale(where):
    """ninja trusts time stamps; if a source changed without its time stamp moving past the last build, start afresh."""
    p = os.path.join(where, "tree.json")
    if not os.path.exists(p): return
    old = json.load(open(p)); new = tree_hashes()
    for f, h in new.items():
        if old["files"].get(f) != h and os.stat(f).st_mtime_ns <= old["t"]:
            shutil.rmtree(where, ignore_errors=True); return

def known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) key=(.+?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    a = ap.parse_args()
    if a.prop == "setup":
        build(sorted({t for v in PROPS.values() for t in v["targets"]})); return 0
    t0 = time.time()
    spec = PROPS[a.prop]
    build(spec["targets"])
    only = a.case
    if a.replay:
        only = json.load(open(a.replay))["case"]
    viol, agg = [], dict(states=0, transitions=0, traces=0, counters={}, samples=[], cases=0, per_case={})
    for tgt in spec["targets"]:
        out = os.path.join(VERIF, "build", "out", f"{a.prop}-{tgt}")
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        cmd = [os.path.join(build_dir(tgt), tgt), "--tier", a.tier, "--out", out]
        if only: cmd += ["--case", only]
        r = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if only and "no such case" in r.stdout: continue
            print(r.stdout[-4000:]); print("HARNESS ERROR", r.returncode); return 2
        for f in glob.glob(out + "/case_*.json"):
            d = json.load(open(f))
            agg["cases"] += 1
            agg["per_case"][d["case"]] = dict(states=d["states"], transitions=d["transitions"], traces=d["traces"], wall=round(d["wall"], 2))
            for k in ("states", "transitions", "traces"): agg[k] += d[k]
            for k, v in d["counters"].items(): agg["counters"][k] = agg["counters"].get(k, 0) + v
            for s in d["samples"]:
                if len(agg["samples"]) < 12: agg["samples"].append(f"{d['case']}: {s}")
            for v in d["violations"]: viol.append((tgt, d["case"], v["key"], v["detail"]))
        if not a.replay: shutil.rmtree(out, ignore_errors=True)
    if agg["cases"] == 0:
        print("no case ran"); return 2
    kn = known(a.prop); fresh = []
    for tgt, case, key, detail in viol:
        if (case, key) in kn:
            print(f"KNOWN-FINDING: property={a.prop} {kn[(case, key)]} (case {case}, {key})")
        else:
            fresh.append((tgt, case, key, detail))
    cov = dict(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"],
               samples=agg["samples"], exhaustive="capped explorations" not in agg["counters"], cases=agg["cases"], counters=agg["counters"], per_case=agg["per_case"],
               bound=spec["bound"], oracle=spec["oracle"])
    ev = dict(property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking", coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{a.prop} [{a.tier}] cases={agg['cases']} states={agg['states']} transitions={agg['transitions']} traces={agg['traces']} "
          f"wall={time.time()-t0:.1f}s violations={len(fresh)}")
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        fresh.sort(key=lambda v: (v[1], v[2]))
        for n, (tgt, case, key, detail) in enumerate(fresh[:int(os.environ.get("VERIF_SHOW", "10"))]):
            h = hashlib.sha1(f"{case}|{key}".encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{a.prop}-{h}.json")
            with open(path, "w") as f:
                json.dump(dict(property=a.prop, target=tgt, case=case, key=key, detail=detail,
                               replay_cmd=f"python3 /verif/check.py {a.prop} --tier {a.tier} --replay {path}"), f, indent=1)
            print(f"VIOLATION property={a.prop} replay={path}")
            print(f"  case={case} key={key}: {detail[:900]}")
        return 1
    return 0

sys.exit(main())
