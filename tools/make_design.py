#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written text from tools/design_notes.md, per-property bounds and oracles from harness/checks.json."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/harness/checks.json")); props = [json.loads(l) for l in open(V + "/properties.jsonl")]
manifest = json.load(open(V + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in manifest["not_applicable"]}
text = open(V + "/tools/design_notes.md").read()
notes = dict(re.findall(r"^@note (P\d\d) (.*)$", text, re.M)); text = re.sub(r"^@note .*\n", "", text, flags=re.M)
out = ["## Per property\n"]
for p in props:
    i = p["id"]; out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in checks:
        c = checks[i]; cost = ""
        try:
            e = json.load(open(f"{V}/tools/costs.json"))[i]; cost = f"- Cost of the quick check on 8 cores: {e}\n"
        except Exception: pass
        out.append(f"- Deciding method: {c['technique']}. Harness: {', '.join('harness/' + t + '.cpp' for t in c['targets'])}.\n- Enumerated (quick; thorough in brackets): {c['bound']}\n- Oracle: {c['oracle']}\n{cost}- Beyond the tests: {p['why_tests_cant']}\n")
        if i in notes: out.append(f"- Notes: {notes[i]}\n")
    else: out.append(f"Not applicable: {na.get(i, '')}\n")
seeds = ["## Planted bugs\n\nEach lies in `seeded/<id>` with a demonstration; \"caught by\" is the check that reports it.\n\n| id | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); seeds.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |\n")
kf = ["## Defects found\n\nFrom `known_findings.txt` (which the checks read):\n\n"] + ["- " + l.strip() + "\n" for l in open(V + "/known_findings.txt") if l.strip() and not l.startswith("#")]
text = text.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@SEEDS@@", "".join(seeds)).replace("@@FINDINGS@@", "".join(kf))
open(V + "/DESIGN.md", "w").write(text)
