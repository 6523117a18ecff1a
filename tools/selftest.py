"""Compare the generator with CPython: programs (tools/selftest/programs.py) and transducers.

usage: python3-vt tools/selftest.py [seed] [cases]

Each program is executed by the generator on values and on symbolic arguments that are assumed to be equal to these values;
the outcome (result or kind of exception) has to be the one of CPython. Each transducer is compared with the function it
stands for on random texts.
"""
import html
import importlib.util
import os
import random
import re
import sys
import xml.sax.saxutils

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import z3
from pyvc import engine, lib, rewrite as R
from pyvc.state import Obj
from pyvc.lib import Unsupported, item, zstr

SRC = os.path.join(HERE, 'selftest')


def value(rnd, kind):
    text = lambda: ''.join(rnd.choice('ab,x ') for _ in range(rnd.choice((0, 0, 1, 2, 3, 4))))
    if kind is int:
        return rnd.randint(-4, 6)
    if kind is bool:
        return rnd.random() < 0.5
    if kind is str:
        return rnd.choice([text(), text(), str(rnd.randint(-3, 99))])
    if kind == 'opt':
        return rnd.choice([None, '', text()])
    if kind == 'list':
        return [text() for _ in range(rnd.randint(0, 4))]
    if kind == 'dict':
        return {rnd.choice(['a', 'b', text()]): text() for _ in range(rnd.randint(0, 3))}
    raise ValueError(kind)


def symbol(eng, st, v, name):
    """A symbolic value that is assumed to be v."""
    if isinstance(v, bool):
        x = z3.Bool(name)
        st.assume(x == v)
    elif isinstance(v, int):
        x = z3.Int(name)
        st.assume(x == v)
    elif isinstance(v, str):
        x = z3.String(name)
        st.assume(x == z3.StringVal(zstr(v)))
    elif isinstance(v, list):
        return st.alloc(Obj('list', x=tuple(item(symbol(eng, st, e, f'{name}_{i}')) for i, e in enumerate(v))))
    elif isinstance(v, dict):
        return lib.from_host(st, v)
    else:
        return v
    return x


def compare(eng, st, got, want):
    """Condition under which the value is the one of CPython (True, False or a formula)."""
    if isinstance(want, (tuple, list)):
        if isinstance(want, tuple) != isinstance(got, tuple):
            return False
        if isinstance(want, tuple):
            parts = list(got)
            if len(parts) != len(want):
                return False
            return conj([compare(eng, st, g, w) for g, w in zip(parts, want)])
        o = st.get(got)
        if o.kind != 'list':
            return False
        if any(k != 'i' for k, g, v in o.x):
            raise Unsupported('run in a result')
        # guarded items: the items with a true guard are the result
        return guarded(eng, st, [(g, v) for _, g, v in o.x], want)
    r = eng.eq(st, got, want)
    return r


def guarded(eng, st, items, want):
    if not items:
        return not want
    (g, v), rest = items[0], items[1:]
    skip = guarded(eng, st, rest, want) if g is not True else False
    take = conj([compare(eng, st, v, want[0]), guarded(eng, st, rest, want[1:])]) if want else False
    if g is True:
        return take
    return z3.If(g, formula(take), formula(skip))


def formula(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def uninterpreted(terms):
    seen, todo = set(), [t for t in terms if z3.is_expr(t)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return True
            todo += t.children()
    return False


def conj(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    return z3.And(*cs) if cs else True


def run_one(prog, name, args, symbolic, mode, want):
    eng = engine.Engine(src=SRC, mode=mode, timeout=5000)
    f = eng.get_global('programs', name)
    st = eng.start()
    a = [symbol(eng, st, v, f'arg{i}') if symbolic else lib.from_host(st, v) for i, v in enumerate(args)]
    verdicts = []
    loose = [0]
    old = eng.prove

    def prove(nm, q, goal):
        before = len(eng.obligations)
        old(nm, q, goal)
        if any(o.status == 'refuted' for o in eng.obligations[before:]) and uninterpreted([goal, *q.pc]):
            del eng.obligations[before:]  # weaker than CPython on purpose
            loose[0] += 1

    eng.prove = prove

    def outcome(s):
        r, st1, raised = eng.run(s, lambda q: eng.call(q, f, a, {}))
        if want[0] == 'value':
            for q, x in raised:
                eng.prove('no exception', q, z3.BoolVal(False))
            if st1 is not None:
                eng.prove('result', st1, formula(compare(eng, st1, r, want[1])))
            elif not raised:
                verdicts.append('no outcome')
        else:
            if st1 is not None:
                eng.prove('an exception', st1, z3.BoolVal(False))
            for q, x in raised:
                c = q.get(x).meta
                n = c.__name__ if isinstance(c, type) else q.get(c).meta['name']
                if n != want[1]:
                    eng.prove('the kind of exception', q, z3.BoolVal(False))
    if mode == 'path':
        def path():
            nonlocal a, f
            st = eng.start()
            f = eng.get_global('programs', name)
            a = [symbol(eng, st, v, f'arg{i}') for i, v in enumerate(args)]
            outcome(st)
        eng.explore(path)
    else:
        outcome(st)
    bad = [v.name for v in eng.obligations if v.status == 'refuted'] + verdicts
    und = [v.name for v in eng.obligations if v.status == 'unknown']
    return bad, und + ['abstract'] * loose[0], len(eng.obligations)


def programs(seed, cases):
    spec = importlib.util.spec_from_file_location('programs', os.path.join(SRC, 'programs.py'))
    prog = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(prog)
    rnd = random.Random(seed)
    n = und = uns = bad = 0
    for name, f in vars(prog).items():
        if not callable(f) or isinstance(f, type) or getattr(f, '__module__', '') != 'programs':
            continue
        reasons = set()
        for _ in range(cases):
            args = [value(rnd, k) for k in f.__annotations__.values()]
            import copy
            try:
                want = ('value', f(*copy.deepcopy(args)))
            except Exception as ex:
                want = ('raise', type(ex).__name__)
            for symbolic, mode in ((False, 'merge'), (True, 'merge'), (True, 'path')):
                n += 1
                try:
                    b, u, k = run_one(prog, name, args, symbolic, mode, want)
                except Unsupported as ex:
                    uns += 1
                    reasons.add(f'{"symbolic" if symbolic else "concrete"}: {ex}')
                    continue
                und += bool(u)
                if b:
                    bad += 1
                    print(f'DIFFERS {name}{tuple(args)!r} {"symbolic" if symbolic else "concrete"} {mode}: {b}; CPython {want}')
        for r in sorted(reasons):
            print(f'not supported: {name} {r}')
    print(f'programs: {n} runs, {bad} different, {und} undecided, {uns} not supported')
    return bad


def transducers(seed):
    a = 'ab<>&;[]/ \n!C\u00e9\u2003'
    rnd = random.Random(seed)
    ident = R.identity(a)
    bad = n = 0

    def text():
        return ''.join(rnd.choice(a) for _ in range(rnd.randint(0, 12)))

    def chk(name, t, f, count=100, gen=text):
        nonlocal bad, n
        for _ in range(count):
            w = gen()
            n += 1
            r, e = t.run(w), f(w)
            if r != {e}:
                bad += 1
                print(f'DIFFERS {name} {w!r}: {r} instead of {e!r}')
                return

    for _ in range(30):
        p = ''.join(rnd.choice('ab<') for _ in range(rnd.randint(1, 4)))
        q = rnd.choice(['', 'x', 'aa', '<b>'])
        chk(f'replace {p} {q}', R.compose(ident, R.Replace(p, q)), lambda w: w.replace(p, q))
        chk(f'sub {p} {q}', R.compose(ident, R.ReSub(re.escape(p), 0, q, a)), lambda w: w.replace(p, q))
    chk('strip', R.compose(R.compose(ident, R.LStrip()), R.RStrip()), str.strip)
    chk('rstrip', R.compose(ident, R.RStrip()), str.rstrip)
    for p, fl, rep in [(r'<a>', 0, '[X]'), (r'\[\/*[ab]C*\]', 0, ''), (r'<a .+?/a>', 0, ''), (r'<.*?>', re.S, 'T'),
                       (r'\<\/a\>', 0, ']]></a>'), (r'[\s]', 0, '_'), (r'<[^>]+>', 0, '')]:
        chk('sub ' + p, R.compose(ident, R.ReSub(p, fl, rep, a)), lambda w: re.sub(p, rep, w, flags=fl), 300)
    g = R.compose(ident, R.Replace('a', '<b>'))
    chk('sub with a function', R.compose(ident, R.ReSub(r'(<!.*?)]]>', re.S, (R.affix('', g, '', '>>'), 1), a)),
        lambda w: re.sub(r'(<!.*?)]]>', lambda m: m[1].replace('a', '<b>') + '>>', w, flags=re.S), 300)
    chk('sub with a group', R.compose(ident, R.ReSub(r'<(.+?)>', 0, (g, 1), a)),
        lambda w: re.sub(r'<(.+?)>', lambda m: m[1].replace('a', '<b>'), w), 300)

    def entities():
        return ''.join(rnd.choice(['&amp;', '&lt;', '&gt;', '&quot;', 'a', 'b', ' ', '\n', ';']) for _ in range(rnd.randint(0, 8)))

    chk('unescape', R.compose(R.identity(a + 'mpltguoqs'), R.Unescape()), html.unescape, 300, entities)
    # the comparison of two transducers
    t1 = R.compose(R.compose(ident, R.Replace('a', 'b')), R.Replace('bb', 'c'))
    t2 = R.compose(R.compose(ident, R.Replace('bb', 'c')), R.Replace('a', 'b'))
    w = R.differ(t1, t2)
    n += 3
    if w is None or t1.run(w) == t2.run(w):
        bad += 1
        print('DIFFERS: a difference is not found')
    if R.differ(t1, R.compose(R.compose(ident, R.Replace('a', 'b')), R.Replace('bb', 'c'))) is not None:
        bad += 1
        print('DIFFERS: a difference of equal functions')
    rs = R.compose(ident, R.RStrip())
    if R.differ(rs, R.compose(rs, R.RStrip())) is not None or R.differ(rs, ident) is None:
        bad += 1
        print('DIFFERS: rstrip')
    print(f'transducers: {n} comparisons, {bad} different')
    return bad


if __name__ == '__main__':
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    cases = int(sys.argv[2]) if len(sys.argv) > 2 else 6
    sys.exit(1 if programs(seed, cases) + transducers(seed) else 0)
