"""Run the proof units of one property in parallel and collect the obligations."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE_TRUSTED = [
    'pyvc: the verification condition generator written for this task (symbolic execution of the parsed source; cross-checked against CPython by tools/selftest.py)',
    'the semantics of Python built-ins and string methods as stated in pyvc/lib.py',
    'Python integers are mathematical integers; strings are sequences of code points (z3 strings)',
]


class Unit:
    """Context of one proof unit (one function or one lemma)."""

    def __init__(self, name, tier):
        self.name, self.tier = name, tier
        self.engines = []
        self.extra = []
        self.assumptions = []

    def engine(self, mode='merge', timeout=None, **kw):
        from .engine import Engine
        e = Engine(mode=mode, timeout=timeout or (10000 if self.tier == 'quick' else 60000), **kw)
        self.engines.append(e)
        return e

    def lemma(self, name, hyps, goal, axioms=()):
        """A lemma over the contracts, discharged by the solver."""
        from .state import State
        e = self.engine()
        e.axioms += list(axioms)
        st = State()
        st.assume(*hyps)
        e.cover(name, st)
        e.prove('lemma: ' + name, st, goal)

    def fact(self, name, ok, detail='', status=None, replayed=False):
        """An obligation decided by evaluation (finite case analysis over the source)."""
        self.extra.append(dict(name=name, status=status or ('proved' if ok else 'refuted'), backend='evaluation', time_s=0.0, detail=detail, replayed=replayed and not ok))

    def shape(self, name, ok, detail=''):
        """A fact about how the argument is made; if it does not hold, nothing is decided."""
        self.fact(name, ok, detail, status=None if ok else 'unknown')

    def undecided(self, name, detail):
        self.extra.append(dict(name=name, status='unknown', backend='', time_s=0.0, detail=detail, replayed=False))


def _work(fn, name, tier, conn):
    t = time.time()
    u = Unit(name, tier)
    err = None
    from .values import Unsupported, Dead
    try:
        fn(u)
    except Unsupported as ex:
        err = f'not within reach of the generator: {ex}'
    except Dead:
        err = 'no state left'
    except Exception as ex:
        err = f'generator failed: {type(ex).__name__}: {ex} ' + ' | '.join(x.strip() for x in traceback.format_exc().strip().splitlines()[-6:])
    obs = list(u.extra)
    funcs, used, assumed, solver = set(), set(), set(u.assumptions), 0.0
    for e in u.engines:
        obs += [o.as_dict() for o in e.obligations]
        funcs |= e.functions
        used |= e.used_contracts
        assumed |= e.assumed
        solver += e.solver_s
    for o in obs:
        o['name'] = f'{name}: {o["name"]}'
    if err:
        obs.append(dict(name=f'{name}: all', status='unsupported', backend='', time_s=0.0, detail=err, replayed=False))
    if not obs:
        obs.append(dict(name=f'{name}: all', status='unsupported', backend='', time_s=0.0, detail='no obligation was generated', replayed=False))
    conn.send(dict(obligations=obs, functions=sorted(funcs), used=sorted(used), assumed=sorted(assumed), solver_s=solver, wall=time.time() - t))
    conn.close()


def prove(pid, tier='quick', only=None):
    sys.path.insert(0, HERE)
    mod = importlib.import_module(f'proofs.{pid.lower()}')
    units = [(n, f) for n, f in mod.UNITS if only is None or only in n]
    limit = getattr(mod, 'UNIT_LIMIT', 240) if tier == 'quick' else 780
    ctx = mp.get_context('fork')
    todo = list(units)
    running = []
    results = {}
    jobs = min(8, os.cpu_count() or 4)
    while todo or running:
        while todo and len(running) < jobs:
            n, f = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(f, n, tier, b))
            p.start()
            b.close()
            running.append((n, p, a, time.time()))
        for r in list(running):
            n, p, a, t = r
            if a.poll(0.02):
                try:
                    results[n] = a.recv()
                except EOFError:
                    results[n] = _fail(n, 'the generator ended without result')
                p.join()
                running.remove(r)
            elif not p.is_alive():
                results[n] = _fail(n, 'the generator ended without result')
                running.remove(r)
            elif time.time() - t > limit:
                p.kill()
                p.join()
                results[n] = _fail(n, f'not finished within {limit} s')
                running.remove(r)
    out = dict(obligations=[], functions=set(), used=set(), backends={}, solver_s=0.0, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
               trusted_base=BASE_TRUSTED + list(getattr(mod, 'TRUSTED', [])), covers=0, level=getattr(mod, 'LEVEL', 'exploration'), unit_wall={})
    for n, _ in units:
        r = results[n]
        out['obligations'] += r['obligations']
        out['functions'] |= set(r['functions'])
        out['used'] |= set(r['used'])
        out['assumptions'] += [x for x in r['assumed'] if x not in out['assumptions']]
        out['solver_s'] += r['solver_s']
        out['unit_wall'][n] = round(r['wall'], 2)
    for o in out['obligations']:
        if ': cover: ' in o['name']:
            out['covers'] += 1
        if o['status'] == 'proved':
            out['backends'][o['backend']] = out['backends'].get(o['backend'], 0) + 1
    out['functions'] = sorted(out['functions'])
    out['used'] = sorted(out['used'])
    return out


def _fail(n, why):
    return dict(obligations=[dict(name=f'{n}: all', status='unsupported', backend='', time_s=0.0, detail=why, replayed=False)],
                functions=[], used=[], assumed=[], solver_s=0.0, wall=0.0)


if __name__ == '__main__':
    pid = sys.argv[1]
    r = prove(pid, os.environ.get('VERIF_TIER') or 'quick', next((x for x in sys.argv[2:] if x != '-v'), None))
    for o in r['obligations']:
        if o['status'] == 'proved' and '-v' not in sys.argv:
            continue
        print(f'{o["status"]:12} {o["time_s"]:7.2f} {o["backend"]:14} {o["name"]}' + (f'  -- {o["detail"][:600]}' if o['status'] != 'proved' else ''))
    print(len(r['obligations']), 'obligations,', sum(o['status'] == 'proved' for o in r['obligations']), 'discharged; solver', round(r['solver_s'], 2), 's', r['unit_wall'])
    print('bodies verified:', r['functions'])
    print('by contract:', r['used'])
