"""Run the bounded stand-ins of one property: generated cases on the real code."""
import importlib, json, os, sys, time, traceback
from .common import *


MIN_WALL = 10    # quick tier: rounds are repeated until this many seconds have passed


def run(pid, tier='quick', seed=1, budget=None, stop_at_first=True, factor=None):
    """Return (results, failures). failures: list of dicts (case name, case, message)."""
    mod = importlib.import_module(f'.{pid.lower()}', __package__)
    out = {'evaluations': 0, 'distinct': 0, 'per_case': {}, 'samples': []}
    failures = []
    factor = factor or (1 if tier == 'quick' else 12)
    t0 = time.time()
    seen = set()
    rounds = 0
    todo = [(name, g, check, range(n * factor)) for name, g, check, n in mod.CASES]
    while todo:
        _round(todo, pid, seed, budget, stop_at_first, t0, seen, out, failures)
        rounds += 1
        wall = time.time() - t0
        if any(not (isinstance(f['input'], dict) and f['input'].get('key')) for f in failures) or tier != 'quick' or wall > MIN_WALL * factor / 2 or rounds > 40:
            break
        todo = [(name, g, check, range(n * factor * rounds, n * factor * (rounds + 1))) for name, g, check, n in mod.CASES if g]
    out['distinct'] = len(seen)
    return out, failures


def _round(todo, pid, seed, budget, stop_at_first, t0, seen, out, failures):
    for name, g, check, ks in todo:
        cnt = 0
        tc = time.time()
        for k in ks:
            if budget and time.time() - t0 > budget:
                break
            case = g(rnd(seed, pid, name, k)) if g else {}
            key = json.dumps(case, sort_keys=True, default=str)
            if key in seen and g:
                continue
            seen.add(key)
            cnt += 1
            msg = evaluate(check, case)
            if msg:
                failures.append({'case': name, 'input': case, 'message': msg, 'k': k})
                if stop_at_first:
                    break
            if g is None:
                break
        pc = out['per_case'].setdefault(name, {'evaluations': 0, 'wall_s': 0})
        pc['evaluations'] += cnt
        pc['wall_s'] = round(pc['wall_s'] + time.time() - tc, 2)
        out['evaluations'] += cnt
        if cnt and len(out['samples']) < 3 and g:
            s = json.dumps(case, ensure_ascii=False, default=str)
            out['samples'].append({'case': name, 'input': s[:600]})


def evaluate(check, case):
    try:
        with quiet():
            check(case)
    except Fail as ex:
        return str(ex)
    except Exception as ex:
        tb = traceback.format_exc().strip().splitlines()
        return f'unexpected {type(ex).__name__}: {ex} | ' + ' | '.join(x.strip() for x in tb[-5:])
    return None


def replay(pid, path):
    mod = importlib.import_module(f'.{pid.lower()}', __package__)
    rec = json.load(open(path, encoding='utf-8'))
    for name, g, check, n in mod.CASES:
        if name == rec['case']:
            return evaluate(check, rec['input'])
    return f'no such case: {rec["case"]}'


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    t = time.time()
    res, fails = run(pid, tier, seed, stop_at_first=True)
    print(json.dumps(res['per_case']), round(time.time() - t, 1))
    for f in fails:
        print('FAIL', f['case'], 'k=', f['k'], f['message'][:1500])
