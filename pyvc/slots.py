"""Dictionaries from strings to lists of strings (or to strings), given by an array term.

An object of kind 'slots' has x = Slots(term, sort). d[key] gives a view (kind 'slot') of the entry; appending to the view changes the
entry. A list that is put into a dictionary becomes a view of its entry. Facts about the entries of a term ('laws') are assumed for a key
when this key is looked up.
"""
import z3
from .values import *
from .state import *
from .lib import STR, SEQ, list_term
from .models import opt_of
from .loops import constants
from . import loops

LISTS = opt_of(SEQ)
TEXTS = opt_of(STR)


class Slots:

    def __init__(self, t, S):
        self.t, self.S = t, S

    def merge(self, g, o):
        if o.S is not self.S:
            raise Unsupported('merge of maps')
        return Slots(z3.If(tobool(g), self.t, o.t), self.S)


def sort_of(S):
    return z3.ArraySort(STR, S)


def empty(S):
    return Slots(z3.K(STR, S.absent), S)


def install(eng):
    M = eng.libs['%methods']
    eng.laws = {}  # name of an array constant -> [fn(key) -> fact]

    def entry(e, st, o, key):
        if kind(key) != 'str':
            raise Unsupported('key of a table')
        x = st.get(o).x
        know(e, st, x.t, term(key))
        return x, term(key), z3.Select(x.t, term(key))

    def getitem(e, st, o, a, kw):
        x, k, v = entry(e, st, o, a[0])
        e.raise_if(st, x.S.is_absent(v), KeyError, a[0])
        return x.S.val(v) if x.S is TEXTS else st.alloc(Obj('slot', {'d': o, 'k': k}))

    def view(st, o, k, l):
        """The list object l becomes a view."""
        st.heap[l.oid] = Obj('slot', {'d': o, 'k': k})

    def setitem(e, st, o, a, kw):
        x, k, v = entry(e, st, o, a[0])
        y = a[1]
        if isinstance(y, Union):
            y = e.narrow(st, y)
        if x.S is TEXTS:
            if kind(y) != 'str':
                raise Unsupported('value of a table')
            t = term(y)
        elif isinstance(y, Ref) and st.get(y).kind == 'list':
            t = list_term(e, st, y)
            view(st, o, k, y)
        elif isinstance(y, Ref) and st.get(y).kind == 'slot' and st.get(y).f['d'] == o and same(st.get(y).f['k'], k):
            return
        else:
            raise Unsupported('value of a table')
        st.edit(o).x = Slots(z3.Store(x.t, k, x.S.some(t)), x.S)

    def contains(e, st, o, a, kw):
        x, k, v = entry(e, st, o, a[0])
        return x.S.is_some(v)

    def get(e, st, o, a, kw):
        x, k, v = entry(e, st, o, a[0])
        d = a[1] if len(a) > 1 else None
        r = x.S.val(v) if x.S is TEXTS else st.alloc(Obj('slot', {'d': o, 'k': k}))
        return make_union([(x.S.is_some(v), r), (x.S.is_absent(v), d)])

    def setdefault(e, st, o, a, kw):
        x, k, v = entry(e, st, o, a[0])
        if x.S is not LISTS or len(a) != 2 or not isinstance(a[1], Ref) or st.get(a[1]).kind != 'list':
            raise Unsupported('setdefault of a table')
        t = list_term(e, st, a[1])
        st.edit(o).x = Slots(z3.If(x.S.is_some(v), x.t, z3.Store(x.t, k, x.S.some(t))), x.S)
        return st.alloc(Obj('slot', {'d': o, 'k': k}))

    def slot(st, o):
        f = st.get(o).f
        x = st.get(f['d']).x
        know(eng, st, x.t, f['k'])
        return f['d'], x, f['k'], seqof(z3.Select(x.t, f['k']))

    def append(e, st, o, a, kw):
        d, x, k, s = slot(st, o)
        if kind(a[0]) != 'str':
            raise Unsupported('element of a list in a table')
        st.edit(d).x = Slots(z3.Store(x.t, k, x.S.some(z3.Concat(s, z3.Unit(term(a[0]))))), x.S)

    M.update({('slots', '__getitem__'): getitem, ('slots', '__setitem__'): setitem, ('slots', '__contains__'): contains, ('slots', 'get'): get, ('slots', 'setdefault'): setdefault,
              ('slot', 'append'): append, ('slot', '__len__'): lambda e, st, o, a, kw: z3.Length(slot(st, o)[3]),
              ('slot', '__bool__'): lambda e, st, o, a=(), kw=None: z3.Length(slot(st, o)[3]) > 0,
              ('slot', '__contains__'): lambda e, st, o, a, kw: z3.Contains(slot(st, o)[3], z3.Unit(term(a[0])))})


def seqof(v):
    """An entry as a sequence; absent: empty."""
    return z3.If(LISTS.is_some(v), LISTS.val(v), z3.Empty(SEQ))


def know(eng, st, t, key):
    """Assume the laws of a term (and of the terms they mention) for a key."""
    done, todo = set(), [t]
    while todo:
        for c in constants(todo.pop()):
            n = c.decl().name()
            if n in done:
                continue
            done.add(n)
            for f in eng.laws.get(n, ()):
                x = f(key)
                st.assume(x)
                todo.append(x)


def pointwise(eng, st, node, t, env, mod, name):
    """Rule for a loop over a list t of distinct keys; an iteration changes the entries of its own key only.

    An arbitrary iteration is executed from arbitrary tables in which the entry of its key is the one before the loop.
    """
    def havoc(s, oid, k, old, new):
        if k == '.x' and isinstance(old, Slots):
            return Slots(eng.fresh('table', sort_of(old.S)), old.S)
        if s.heap[oid].kind == 'env':
            return HAVOC
        return None

    lp = loops.Loop(eng, st, node, env, mod, name, havoc)
    x = eng.fresh('key')

    def body(s):
        eng.assign(s, node.target, x, env, mod)
        alive, brk = eng.loop_body(s, node.body, env, mod)
        if brk:
            raise Unsupported(f'{name}: break')
        if not alive:
            raise Dead()

    P, R = eng.fresh('done', SEQ), eng.fresh('rest', SEQ)

    def start(s):
        s.assume(t == z3.Concat(P, z3.Unit(x), R))
        for f in eng.element_facts(t, x):
            s.assume(f)

    lp.probe(lambda s: (start(s), body(s)))
    places = [v for v in lp.vars if isinstance(lp.value(lp.st, v), Slots)]
    if any(v not in places and lp.st.heap[v[0]].kind != 'env' for v in lp.vars):
        raise Unsupported(f'{name}: the loop changes something else than tables')
    first = {v: lp.value(st, v).t for v in places}
    sel = eng.fresh('in_loop', z3.BoolSort())
    s = st.fork(sel)
    lp.havoc(s)
    start(s)
    cur = {}
    for v in places:
        cur[v] = lp.value(s, v).t
        know(eng, s, first[v], x)
        s.assume(z3.Select(cur[v], x) == z3.Select(first[v], x))
    eng.cover(f'{name}: an iteration is possible', s)
    pre = s.fork()
    body(s)
    lp.check_frame(pre, s)
    entry = {}
    for v in places:
        new = z3.Select(lp.value(s, v).t, x)
        eng.prove(f'{name}: an iteration changes the entry of its own key only', s, lp.value(s, v).t == z3.Store(cur[v], x, new))
        e = z3.simplify(new)
        for w in places:
            e = z3.substitute(e, (cur[w], first[w]))
        for c in constants(e):
            if any(c.eq(y) for y in cur.values()) or '!' in str(c) and not c.eq(x) and not loops.occurs_before(pre, lp, {k: first[k] for k in first}, type('T', (), {'t': t}), c):
                raise Unsupported(f'{name}: the new entry depends on {c}')
        entry[v] = e
    st.assume(z3.Not(sel))
    lp.havoc(st)
    for v in places:
        after = lp.value(st, v).t
        eng.laws[after.decl().name()] = [lambda k, v=v, after=after: z3.Select(after, k) == z3.If(z3.Contains(t, z3.Unit(k)), z3.substitute(entry[v], (x, k)), z3.Select(first[v], k))]
    return lp


def fold(eng, st, node, t, env, mod, name, spec, lists=None):
    """Rule for a loop over a list t of strings that extends the tables entry by entry.

    spec(place, key, old, done) -> fact about the entry: fn(new) -> formula, for the elements 'done' of t; None: no specification.
    lists(place, done) -> Seq term: what has been appended to a list for these elements.
    """
    P, R = eng.fresh('done', SEQ), eng.fresh('rest', SEQ)
    x = eng.fresh('x')
    cur = [P]
    first = {}

    def havoc(s, oid, k, old, new):
        if k == '.x' and isinstance(old, Slots):
            a = eng.fresh('table', sort_of(old.S))
            done, t0 = cur[0], lp.value(lp.st, (oid, k)).t
            eng.laws[a.decl().name()] = [lambda key: spec((oid, k), key, z3.Select(t0, key), done)(z3.Select(a, key))]
            return Slots(a, old.S)
        if k == '.x' and isinstance(old, tuple):
            return old + (run(lists((oid, k), cur[0])),)
        if s.heap[oid].kind == 'env':
            return HAVOC
        return None

    lp = loops.Loop(eng, st, node, env, mod, name, havoc)

    def body(s):
        eng.assign(s, node.target, x, env, mod)
        alive, brk = eng.loop_body(s, node.body, env, mod)
        if brk:
            raise Unsupported(f'{name}: break')
        if not alive:
            raise Dead()

    def start(s):
        s.assume(t == z3.Concat(P, z3.Unit(x), R))
        for f in eng.element_facts(t, x):
            s.assume(f)

    lp.probe(lambda s: (start(s), body(s)))
    sel = eng.fresh('in_loop', z3.BoolSort())
    s = st.fork(sel)
    start(s)
    lp.havoc(s)
    eng.cover(f'{name}: an iteration is possible', s)
    pre = s.fork()
    body(s)
    lp.check_frame(pre, s)
    nxt = z3.Concat(P, z3.Unit(x))
    y = z3.String('any key')
    for v in lp.vars:
        old, new = lp.value(lp.st, v), lp.value(s, v)
        if isinstance(old, Slots):
            # the invariant holds for no elements
            e = z3.Select(old.t, y)
            eng.prove(f'{name}: {eng.place_name(st, v)} before the loop', st, spec(v, y, e, z3.Empty(SEQ))(e))
            q = s.fork()
            know(eng, q, new.t, y)
            eng.prove(f'{name}: {eng.place_name(st, v)} after an element', q, spec(v, y, e, nxt)(z3.Select(new.t, y)))
        elif isinstance(old, tuple):
            r = s.alloc(Obj('list', x=new))
            b = s.alloc(Obj('list', x=old + (run(lists(v, nxt)),)))
            eng.prove(f'{name}: {eng.place_name(st, v)} after an element', s, list_term(eng, s, r) == list_term(eng, s, b))
    st.assume(z3.Not(sel))
    cur[0] = t
    lp.havoc(st)
    return lp
