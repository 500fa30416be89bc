#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the entries of tools/props.py."""
import glob, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
from props import PROPS as props
props.sort(key=lambda p: p['id'])
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "Every check symbolically executes the real functions of /repo (Go SSA, rebuilt from the working tree on each run) with bin/gosym and discharges the assertions with z3. See DESIGN.md."}
with open(os.path.join(root, 'properties.jsonl'), 'w') as out:
    for p in props:
        m = p.pop('manifest')
        assert 'not_applicable' in m or os.path.exists(os.path.join(root, 'harness', p['id'], 'check.json')), p['id']
        assert len(p['title']) <= 80, p['id']
        out.write(json.dumps(p, ensure_ascii=False) + '\n')
        if 'not_applicable' in m:
            man['not_applicable'].append({"property": p['id'], "reason": m['not_applicable']})
            continue
        man['checks'].append({
            "property": p['id'],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "bounded symbolic execution of the real Go functions (SSA) with SMT (z3), counterexamples replayed on the compiled code",
            "level": "model_checking",
            "level_note": m['note']})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)

# DESIGN.md
import datetime
def chk(i): return json.load(open(os.path.join(root,'harness',i,'check.json')))
notes = {}
np = os.path.join(root,'tools','times.json')
times = json.load(open(np)) if os.path.exists(np) else {}
out = open(os.path.join(root,'tools','design_head.md')).read()
for p in props:
    i = p['id']
    out += f"\n### {i} {p['title']}\n\n{p['statement']}\n\n"
    na = [x for x in man['not_applicable'] if x['property'] == i]
    if na:
        out += f"*Not applicable*: {na[0]['reason']}\n"
        continue
    c = chk(i)
    out += "* **Encoded**: " + "; ".join(f"{m['name']} ({m['where']})" for m in p['anchors']['mechanism']) + "\n"
    out += "* **Symbolic**: " + p['quantifier']['text'] + "\n"
    out += "* **Harnesses**: " + ", ".join('`' + h['func'].split('VerifH_')[-1] + '`' for h in c['harnesses']) + f" in `harness/{i}`\n"
    out += "* **Bounds**: " + (c.get('bounds') or [m for m in man['checks'] if m['property']==i][0]['level_note']) + "\n"
    if c.get('assumptions'): out += "* **Assumptions**: " + "; ".join(c['assumptions']) + "\n"
    out += "* **Why beyond tests**: " + p['why_tests_cant'] + "\n"
    if i in times: out += f"* **Cost**: quick {times[i]}\n"
out += open(os.path.join(root,'tools','design_tail.md')).read()
out += "\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
rp = os.path.join(root,'tools','seedresults.json')
res = json.load(open(rp)) if os.path.exists(rp) else {}
for d in sorted(glob.glob(os.path.join(root,'seeded','*','meta.json'))):
    m = json.load(open(d)); s = os.path.basename(os.path.dirname(d))
    out += f"| {s} | {m['property']} | {m['needs']} | {res.get(s,'not run')} |\n"
open(os.path.join(root,'DESIGN.md'),'w').write(out)
