#!/usr/bin/env python3
"""check.py <property> [--replay <file>]

Decide one property on /repo's current tree: discharge the proof obligations generated from the current source
(proofs/<id>.py, engine in pyvc/), then evaluate the contracts of the property on the real code (harness/<id>.py, bounded).
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import hashlib, importlib, json, os, sys, time, traceback
os.environ.setdefault('LC_ALL', 'en_US.UTF-8')
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER') or 'quick'
if '--thorough' in sys.argv:
    TIER = 'thorough'
SEED = int(os.environ.get('VERIF_SEED') or 1)
BUDGET = {'quick': 120, 'thorough': 600}[TIER]


def known():
    """Entries 'finding: property=<id> key=<key> <what>' of the known-findings file."""
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8'):
        l = l.strip()
        if l.startswith(f'finding: property={PID} '):
            rest = l.split(' ', 2)[2]
            key, what = rest.split(' ', 1)
            out.append((key.split('=', 1)[1], what))
    return out


def save(rec):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    b = json.dumps(rec, ensure_ascii=False, indent=1, default=str, sort_keys=True)
    p = os.path.join(d, f'{PID}-{hashlib.sha1(b.encode("utf-8", "surrogatepass")).hexdigest()[:12]}.json')
    with open(p, 'w', encoding='utf-8', errors='surrogatepass') as f:
        f.write(b)
    return p


def do_replay(path):
    rec = json.load(open(path, encoding='utf-8'))
    if rec.get('kind') == 'proof':
        from pyvc import run as prun
        res = prun.prove(PID, TIER)
        bad = [o for o in res['obligations'] if o['name'] == rec['obligation']]
        print(json.dumps(bad, indent=1, ensure_ascii=False))
        return 1 if any(o['status'] == 'refuted' for o in bad) else 0
    from harness import run as hrun
    msg = hrun.replay(PID, path)
    print('fails: ' + msg if msg else 'passes')
    return 1 if msg else 0


def main():
    if '--replay' in sys.argv:
        return do_replay(sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    violations = []
    lines = []
    # ---------------------------------------------------------------- proof obligations
    proof = None
    if os.path.exists(os.path.join(HERE, 'proofs', PID.lower() + '.py')):
        try:
            from pyvc import run as prun
            proof = prun.prove(PID, TIER)
        except Exception as ex:
            proof = None
            lines.append(f'UNDECIDED property={PID} the generator failed: {type(ex).__name__}: {ex}')
        for o in (proof['obligations'] if proof else []):
            if o['status'] == 'refuted':
                rec = dict(o, kind='proof', obligation=o['name'], property=PID)
                violations.append((save(rec), o.get('replayed', False), f'{o["name"]}: {o.get("detail", "")}'))
            elif o['status'] != 'proved':
                lines.append(f'UNDECIDED property={PID} obligation={o["name"]} {o.get("detail", "")}'.replace('\n', ' ')[:400])
    # ---------------------------------------------------------------- bounded contract evaluation
    bounded = None
    undecided = lines or violations
    if os.path.exists(os.path.join(HERE, 'harness', PID.lower() + '.py')):
        from harness import run as hrun
        bounded, fails = hrun.run(PID, TIER, SEED, BUDGET, factor=3 if undecided and TIER == 'quick' else None)
        for f in fails:
            key = f['input'].get('key') if isinstance(f['input'], dict) else None
            hit = [w for k, w in known() if k == key]
            if hit:
                continue
            violations.append((save(dict(f, kind='bounded', property=PID)), True, f'{f["case"]}: {f["message"]}'))
    for l in lines:
        print(l)
    for key, what in known():
        print(f'KNOWN-FINDING: property={PID} {what}')
    # a violation with an input that fails on the real code stands for the failed obligations
    replayed = [v for v in violations if v[1]]
    failed = [v for v in violations if not v[1]]
    for path, _, msg in failed[:20]:
        print(f'OBLIGATION FAILED {msg[:600]} [{os.path.relpath(path, HERE)}]')
    if len(failed) > 20:
        print(f'... and {len(failed) - 20} more')
    for path, _, msg in replayed:
        print(msg[:1000])
        print(f'VIOLATION property={PID} replay={os.path.relpath(path, HERE)}')
    if failed and not replayed:
        print(f'VIOLATION property={PID} replay={os.path.relpath(failed[0][0], HERE)} no-failing-input-found')
    evidence(proof, bounded, violations, time.time() - t0)
    return 1 if violations else 0


def evidence(proof, bounded, violations, wall):
    cov = {}
    assumptions = []
    level = 'exploration'
    if proof:
        obs = proof['obligations']
        n, done = len(obs), sum(o['status'] == 'proved' for o in obs)
        cov.update(obligations=n, discharged=done, checker_cmd=f'python3-vt -m pyvc.run {PID}',
                   trusted_base=proof['trusted_base'], functions_under_contract=proof['functions'], vacuity_covers=proof['covers'],
                   backends=proof['backends'], solver_time_s=round(proof['solver_s'], 2),
                   obligation_list=[{k: o[k] for k in ('name', 'status', 'backend', 'time_s') if k in o} for o in obs])
        assumptions += proof['assumptions']
        level = proof['level'] if done == n else 'exploration'
    if bounded:
        cov.update(evaluations=bounded['evaluations'], distinct_nontrivial=bounded['distinct'],
                   rule='BOUNDED, not proved: pseudo-random cases per generator (seeded by VERIF_SEED), contract evaluated on the real code; '
                        'a case counts when its JSON form differs from all earlier ones of the run',
                   samples=bounded['samples'], bounded_cases=bounded['per_case'])
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=len(violations))
    os.makedirs('evidence', exist_ok=True)
    with open(f'evidence/{PID}.json', 'w', encoding='utf-8', errors='surrogatepass') as f:
        json.dump(ev, f, ensure_ascii=False, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
