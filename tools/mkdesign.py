"""Write DESIGN.md from DESIGN.in.md, design_props.py, known-findings.txt, seeded/, catch.json and the last evidence."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from levels import LEVELS
from design_props import PROPS


def evidence(pid):
    p = os.path.join(HERE, 'evidence', pid + '.json')
    return json.load(open(p, encoding='utf-8')) if os.path.exists(p) else None


titles = {}
for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    d = json.loads(l)
    titles[d['id']] = d['title']
props, cost = [], ['| check | level | obligations discharged | bounded cases | wall (s, 8 cores) |', '|---|---|---|---|---|']
for pid, (proved, bounded, left) in PROPS.items():
    props.append(f'### {pid} {titles[pid]}\n\n* *Level*: {LEVELS[pid][0]}\n* *Deductive*: {proved}.\n* *Bounded stand-in*: {bounded}.' + (f'\n* *Left open or assumed*: {left}.' if left else '') + '\n')
    e = evidence(pid)
    if e:
        c = e['coverage']
        cost.append(f'| {pid} | {e["level"]} | {c.get("discharged", 0)} / {c.get("obligations", 0)} | {c.get("evaluations", 0)} | {e["wall_s"]:.0f} |')
fix = []
for l in open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fix.append(f'* {m[1]}: {m[3]} ({m[2][:10]})')
catch = {}
p = os.path.join(HERE, 'tools', 'catch.json')
if os.path.exists(p):
    catch = json.load(open(p))
seeds = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
    seeds.append(f'| {s} | {m["property"]} | {m["needs"]} | {catch.get(s, "?")} |')
t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md'), encoding='utf-8').read()
for k, v in (('PROPERTY-TABLE', '\n'.join(props)), ('FIX-TABLE', '\n'.join(fix)), ('SEED-TABLE', '\n'.join(seeds)), ('COST', '\n'.join(cost))):
    t = t.replace(f'({k})', v)
open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8').write(t)
