#!/usr/bin/env python3
"""seed_new.py ID PROPERTY NEEDS BREAKS < demo.cpp : store the current diff of /repo as seeded/ID and undo it."""
import sys, os, subprocess, json, shutil
i, prop, needs, breaks = sys.argv[1:5]; d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout; assert diff.strip()
open(d + "/patch.diff", "w").write(diff); subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
open(d + "/demo.cpp", "w").write(sys.stdin.read()); shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh"); shutil.copytree("/verif/build_support", d, dirs_exist_ok=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
