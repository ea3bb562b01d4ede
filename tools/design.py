#!/usr/bin/env python3
"""Writes DESIGN.md. usage: design.py HARNESS   (a built checker, for the lists of scenarios)"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def scens(tier):
    d = {}
    for l in subprocess.run([sys.argv[1], "-list", "-tier", tier], capture_output=True, text=True).stdout.splitlines():
        p, n, s, f, a = l.split("\t", 4)
        d.setdefault(p, []).append((n, int(s), int(f), a))
    return d
q, t = scens("quick"), scens("thorough")
notes = {c["property"]: c for c in json.load(open(here + "/MANIFEST.json")).get("checks", [])} if os.path.exists(here + "/MANIFEST.json") else {}
o = open(here + "/tools/design_head.md").read() + "\n## The properties\n\n"
o += ("For each property: what is specified, what is enumerated, the oracle, the bounds, and why tests do not reach it. In the lists of "
      "scenarios `d2/3` means every schedule with up to 2 deviations in the quick check and 3 in the thorough one, before deepening; "
      "`f1` one injected fault at every possible point; no mark: inputs are enumerated on the default schedule. Every check costs "
      "about 7 s of building and at most 25 s of exploration in the quick tier, 25 min in the thorough one; what it covered is in its evidence file.\n\n")
for l in open(here + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; a = p["anchors"]
    o += f"### {i} — {p['title']}\n\n{p['statement']}\n\n"
    o += f"*Enumerated:* {p['quantifier']['text']}  \n"
    o += f"*Observed (oracle):* {', '.join(a.get('observe_at') or ['results of the calls'])}.  \n" if a.get("observe_at") else ""
    o += f"*Method:* {notes.get(i, {}).get('technique', 'stateless exploration')}  \n"
    o += f"*Code:* {'; '.join(m['name'] + ' (' + m['where'] + ')' for m in a['mechanism'])}  \n"
    o += f"*Why tests cannot:* {p['why_tests_cant']}\n\n"
    tt = {n: (s, f) for n, s, f, _ in t.get(i, [])}
    for n, s, f, about in q.get(i, []):
        ts, tf = tt.get(n, (s, f))
        b = [] 
        if s or ts: b.append(f"d{s}" + (f"/{ts}" if ts != s else ""))
        if f or tf: b.append(f"f{f}" + (f"/{tf}" if tf != f else ""))
        o += f"- `{n}`{' (' + ', '.join(b) + ')' if b else ''}: {about}\n"
    o += "\n"
o += open(here + "/tools/design_tail.md").read()
sd = here + "/seeded"
o += "\n## Planted bugs\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(here + "/tools/caught.json")) if os.path.exists(here + "/tools/caught.json") else {}
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f"{sd}/{d}/meta.json"))
    o += f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, m['property'])} |\n"
ex = here + "/tools/design_mutants.md"
if os.path.exists(ex): o += "\n" + open(ex).read()
open(here + "/DESIGN.md", "w").write(o)
