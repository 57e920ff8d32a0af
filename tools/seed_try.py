#!/usr/bin/env python3
"""seed_try.py ID [--nocheck]: apply seeded/ID/patch.diff in /repo, build, test, run its demo and the property's check, undo, run the demo again."""
import json, subprocess, sys, os
def sh(c, t=1500): 
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return r.returncode, r.stdout
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in ids:
    d = f"/verif/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain")[1].strip() == "", "repo not clean"
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    if rc: print(i, "PATCH FAILS", o); continue
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        if rc: print(i, "BUILD FAILS", o[-1500:]); continue
        o = sh("bash /opt/vp/test.sh /tmp/seed_o.json")[1].strip().split("\n")[-1]
        rc, od = sh(f"cd /repo && bash {d}/demo.sh")
        res = f"{i}: {prop} tests[{o}] demo-with-patch={rc} {od.strip()[-150:]!r}"
        if "--nocheck" not in sys.argv:
            c, oc = sh(f"cd /verif && python3 check.py {prop}")
            res += f"\n   check={c} {'CAUGHT' if c == 1 and f'VIOLATION property={prop} ' in oc else 'MISSED'} {oc.strip().splitlines()[0][:220] if oc.strip() else ''}"
        print(res)
    finally:
        sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh"); rc, od = sh(f"cd /repo && bash {d}/demo.sh"); print("   demo-without-patch=", rc, od.strip()[-150:] if rc else "", flush=True)
