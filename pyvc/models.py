"""Symbolic inputs and contracts of library modules shared by the proofs."""
import re
import z3
try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse
from .values import *
from .state import *
from .state import LAZY
from .lib import STR, SEQ, concrete

# ------------------------------------------------------------------ regular expressions


def regex_key(p):
    """Key of the language of a pattern: the parsed pattern and the flags that matter."""
    flags = p.flags & (re.I | re.M | re.S | re.A)
    return f'{sre_parse.parse(p.pattern, p.flags)!r}/{int(flags)}'


def re_sub_fn(p, repl):
    return z3.Function(f're_sub<{regex_key(p)}><{repl}>', STR, STR)


def re_found_fn(p):
    return z3.Function(f're_found<{regex_key(p)}>', STR, z3.BoolSort())


def re_group_fn(p, n):
    return z3.Function(f're_group{n}<{regex_key(p)}>', STR, STR)


def re_end_fn(p):
    return z3.Function(f're_end<{regex_key(p)}>', STR, z3.IntSort())


def install_re(eng):
    M = eng.libs['%methods']
    H = eng.libs['%host']
    eng.regexes = {}

    def note(p):
        eng.regexes[regex_key(p)] = p

    def sub(e, st, p, a, kw):
        repl, text = a[0], a[1]
        if len(a) > 2 or kw:
            raise Unsupported('re.sub with count')

        def f(s, t):
            if isinstance(t, str) and isinstance(repl, str):
                return p.sub(repl, t)
            if kind(t) != 'str':
                e.raise_new(s, TypeError, 'expected string or bytes-like object')
            if not isinstance(repl, str):
                raise Unsupported('re.sub with a function')
            note(p)
            return re_sub_fn(p, repl)(term(t))

        return e.lift(st, text, f)

    def findall(e, st, p, a, kw):
        def f(s, t):
            if isinstance(t, str):
                return s.alloc(Obj('list', x=tuple(item(x) for x in p.findall(t))))
            if kind(t) != 'str':
                e.raise_new(s, TypeError, 'expected string or bytes-like object')
            note(p)
            return s.alloc(Obj('list', x=(run(z3.Function(f're_findall<{regex_key(p)}>', STR, SEQ)(term(t))),)))

        return e.lift(st, a[0], f)

    def search(how):

        def g(e, st, p, a, kw):
            def f(s, t):
                if isinstance(t, str):
                    return getattr(p, how)(t)
                if kind(t) != 'str':
                    e.raise_new(s, TypeError, 'expected string or bytes-like object')
                note(p)
                pp = re.compile(p.pattern, p.flags)
                found = z3.Function(f're_{how}<{regex_key(p)}>', STR, z3.BoolSort())(t)
                m = s.alloc(Obj('match', {'text': t, 'pattern': p, 'how': how}))
                LAZY[m.oid] = s.get(m)
                s.assume(z3.Implies(found, z3.And(re_end_fn(p)(t) > 0, re_end_fn(p)(t) <= z3.Length(t))) if how == 'search' else z3.BoolVal(True))
                return make_union([(found, m), (z3.Not(found), None)])

            return e.lift(st, a[0], f)

        return g

    M[(re.Pattern, 'sub')] = sub
    M[(re.Pattern, 'findall')] = findall
    for how in ('search', 'match', 'fullmatch'):
        M[(re.Pattern, how)] = search(how)

    def m_group(e, st, o, a, kw):
        f = st.get(o).f
        if len(a) > 1:
            raise Unsupported('groups')
        return re_group_fn(f['pattern'], a[0] if a else 0)(f['text'])

    def m_span(e, st, o, a, kw):
        f = st.get(o).f
        end = re_end_fn(f['pattern'])(f['text'])
        start = z3.Function(f're_start<{regex_key(f["pattern"])}>', STR, z3.IntSort())(f['text'])
        return (start, end)

    M[('match', 'group')] = m_group
    M[('match', 'span')] = m_span
    M[('match', 'end')] = lambda e, s, o, a, k: m_span(e, s, o, a, k)[1]
    M[('match', 'start')] = lambda e, s, o, a, k: m_span(e, s, o, a, k)[0]

    def wrap(name):

        def f(e, st, args, kwargs):
            flags = kwargs.pop('flags', 0)
            p = args[0]
            if isinstance(p, str):
                p = re.compile(p, flags)
            elif not isinstance(p, re.Pattern):
                raise Unsupported('re with a symbolic pattern')
            return e.call_method(st, p, name, list(args[1:]), kwargs)

        return f

    for name in ('sub', 'findall', 'search', 'match', 'fullmatch'):
        H[getattr(re, name)] = wrap(name)


# ------------------------------------------------------------------ symbolic maps

def optstr_sort():
    global _KV
    try:
        return _KV
    except NameError:
        d = z3.Datatype('OptStr')
        d.declare('absent')
        d.declare('none')
        d.declare('str', ('val', STR))
        _KV = d.create()
        return _KV


class ArrMap:
    """A map from strings to optional strings given by an array term."""

    def __init__(self, t):
        self.t = t

    def lookup(self, eng, st, key):
        K = optstr_sort()
        e = z3.Select(self.t, term(key))
        return Union([(K.is_absent(e), UNBOUND), (K.is_none(e), None), (K.is_str(e), K.val(e))])

    def merge(self, g, o):
        raise Unsupported('merge of maps')


def arr_term(eng, st, store):
    """Array term of a map with updates."""
    K = optstr_sort()
    t = store.base.t
    for g, k, v in store.ups:
        e = None
        for h, x in alts(v):
            y = K.absent if x is UNBOUND else K.none if x is None else K.str(term(x))
            e = y if e is None else z3.If(tobool(h), y, e)
        n = z3.Store(t, term(k), e)
        t = n if g is True else z3.If(g, n, t)
    return t


_OPT = {}


def opt_of(sort):
    """Sort of the entries of a table with values of a sort."""
    n = f'Opt{sort.sexpr()}'
    if n not in _OPT:
        d = z3.Datatype(n)
        d.declare('absent')
        d.declare('some', ('val', sort))
        _OPT[n] = d.create()
    return _OPT[n]


class TabMap:
    """A map from strings to scalar values given by an array term; it can be iterated (see loops.pointwise)."""

    def __init__(self, t, S):
        self.t, self.S = t, S

    def lookup(self, eng, st, key):
        e = z3.Select(self.t, term(key))
        return Union([(self.S.is_absent(e), UNBOUND), (self.S.is_some(e), self.S.val(e))])

    def dom(self, key):
        return self.S.is_some(z3.Select(self.t, term(key)))

    has = dom

    def iterate(self, eng, st, ref, how='keys'):
        return [('m', True, (TabMap(tab_term(st.get(ref).x), self.S), how))]

    def truth(self, eng, st, ref):
        t = tab_term(st.get(ref).x)
        b = z3.Bool(f'not_empty<{t.sexpr()}>')
        for q in eng.focus:
            st.assume(z3.Implies(z3.Not(b), self.S.is_absent(z3.Select(t, q))))
        return b

    def merge_stores(self, g, a, b):
        if not isinstance(b.base, TabMap) or b.base.S is not self.S:
            raise Unsupported('merge of maps')
        return tab_store(z3.If(tobool(g), tab_term(a), tab_term(b)), self.S)


def tab_store(t, S):
    return Store(TabMap(t, S))


def tab_term(store):
    """Array term of a table with updates."""
    S, t = store.base.S, store.base.t
    for g, k, v in store.ups:
        e = None
        for h, x in alts(v):
            if x is UNBOUND:
                y = S.absent
            else:
                if term(x) is None or term(x).sort() != S.val.range():
                    raise Unsupported(f'value {x!r} in a table')
                y = S.some(term(x))
            e = y if e is None else z3.If(tobool(h), y, e)
        n = z3.Store(t, term(k), e)
        t = n if g is True else z3.If(g, n, t)
    return t


class SymMap:
    """A map from IDs to objects. The object of a key is made on first use; different keys have different objects."""

    def __init__(self, name, make, eng):
        self.name, self.make = name, make
        self.cache = []  # (key, ref)
        self.dom = z3.Function(f'in_{name}', STR, z3.BoolSort())

    def ref(self, st, key):
        for k, r in self.cache:
            if same(k, key):
                if r.oid not in st.heap:
                    st.heap[r.oid] = LAZY[r.oid]
                return r
        n = len(self.cache)
        o = self.make(f'{self.name}[{n}]', key, st)
        r = st.alloc(o)
        LAZY[r.oid] = o
        self.cache.append((key, r))
        return r

    def lookup(self, eng, st, key):
        if key is None:
            return UNBOUND  # the keys are strings
        out = []
        rest = self.dom(term(key))
        known = list(self.cache)
        for k, r in known:
            if same(k, key):
                if r.oid not in st.heap:
                    st.heap[r.oid] = LAZY[r.oid]
                out.append((rest, r))
                rest = False
                break
            c = eng.eq(st, k, key)
            if c is False:
                continue
            if r.oid not in st.heap:
                st.heap[r.oid] = LAZY[r.oid]
            out.append((And(rest, c), r))
            rest = And(rest, Not(c))
        if rest is not False:
            out.append((rest, self.ref(st, key)))
        out.append((Not(self.dom(term(key))), UNBOUND))
        return Union(out)

    def iterate(self, eng, st, ref, how='keys'):
        if st.get(ref).x.ups:
            raise Unsupported('iteration over a changed map')
        return [('m', True, (self, how))]

    def has(self, key):
        return False if key is None else self.dom(term(key))

    def truth(self, eng, st, ref):
        return z3.Bool(f'{self.name} is not empty')


def map_of(st, it):
    """(map, 'keys'|'values'|'items') if the iterable runs over a symbolic map."""
    if not isinstance(it, Ref):
        return None
    o = st.get(it)
    if o.kind == 'dict' and isinstance(o.x.base, TabMap):
        return (TabMap(tab_term(o.x), o.x.base.S), 'keys')
    if o.kind == 'dict' and isinstance(o.x.base, SymMap):
        return (o.x.base, 'keys') if not o.x.ups else None
    if o.kind in ('iter', 'list') and len(o.x) == 1 and o.x[0][0] == 'm':
        return o.x[0][2]
    return None


def seq_list(st, it):
    """The term if the iterable is a symbolic list of strings."""
    if isinstance(it, Ref):
        o = st.get(it)
        if o.kind in ('iter', 'list') and len(o.x) == 1 and o.x[0][0] == 's' and o.x[0][1] is True:
            return o.x[0][2]
    return None


def install(eng):
    install_re(eng)
    return eng
