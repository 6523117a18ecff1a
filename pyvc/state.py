"""Heap objects and states."""
import itertools
from .values import *

_oid = itertools.count(1)
LAZY = {}  # oid -> initial object of an input made on first use


class Obj:
    """kind: env, inst, class, list, dict, set or a library kind; f: fields (name -> value); the rest depends on the kind."""
    __slots__ = ('kind', 'f', 'meta', 'x')

    def __init__(self, kind, f=None, meta=None, x=None):
        self.kind = kind
        self.f = {} if f is None else f  # name -> value
        self.meta = meta  # immutable
        self.x = x  # list: tuple of items; dict: Store; library kinds: fields only

    def copy(self):
        return Obj(self.kind, dict(self.f), self.meta, self.x)

    def __repr__(self):
        return f'Obj({self.kind}, {self.f}, {self.x})'


# list items: ('i', guard, value) one element if guard; ('s', guard, z3 Seq term) a symbolic run of strings
def item(v, g=True):
    return ('i', g, v)


def run(t, g=True):
    return ('s', g, t)


class Store:
    """A finite map given by a base function and a list of updates: used for dicts, attribute regions and child elements.

    base: None (empty) or an object with methods lookup(eng, st, key) -> value or UNBOUND (guarded), and a name.
    ups: tuple of (guard, key, value); value UNBOUND: deleted.
    """
    __slots__ = ('base', 'ups')

    def __init__(self, base=None, ups=()):
        self.base, self.ups = base, ups

    def put(self, key, value, g=True):
        ups = self.ups
        if g is True and not isinstance(value, _Lazy):
            # replace an update with the same key if nothing later may alias
            for n in range(len(ups) - 1, -1, -1):
                if same(ups[n][1], key):
                    if ups[n][0] is True and ups[n][2] is UNBOUND:
                        return Store(self.base, ups[:n] + ups[n + 1:] + ((True, key, value),))
                    if ups[n][0] is True:
                        return Store(self.base, ups[:n] + ((True, key, value),) + ups[n + 1:])
                    break
                if not (isinstance(key, str) and isinstance(ups[n][1], str)):
                    break
        return Store(self.base, ups + ((g, key, value),))


class _Lazy:
    pass


class Heap(dict):

    def __missing__(self, k):
        v = self[k] = LAZY[k]
        return v


class State:

    def __init__(self, heap=None, pc=(), log=()):
        self.heap = heap if heap is not None else Heap()
        self.pc = tuple(pc)
        self.log = tuple(log)
        self.dead = False

    def fork(self, *conds):
        s = State(Heap(self.heap), self.pc, self.log)
        s.assume(*conds)
        return s

    def assume(self, *conds):
        for c in conds:
            for k in conjuncts(c):
                if k is True or k is False:
                    if k is False:
                        self.pc = self.pc + (z3.BoolVal(False),)
                    continue
                if not any(k.eq(o) for o in self.pc):
                    self.pc = self.pc + (k,)

    def assign(self, o):
        self.heap, self.pc, self.log, self.dead = o.heap, o.pc, o.log, o.dead

    def alloc(self, obj):
        oid = next(_oid)
        self.heap[oid] = obj
        return Ref(oid)

    def get(self, ref):
        return self.heap[ref.oid]

    def edit(self, ref):
        o = self.get(ref).copy()
        self.heap[ref.oid] = o
        return o

    def event(self, *ev):
        self.log = self.log + ((True,) + ev,)


def _suffix(pc, n):
    return And(*pc[n:])


def merge(states):
    """Join states that come from one state by exclusive conditions. Values of the guards are returned for merging results."""
    states = [s for s in states if s is not None]
    if not states:
        raise Dead()
    if len(states) == 1:
        return states[0], [True]
    n = 0
    shortest = min(len(s.pc) for s in states)
    while n < shortest and all(s.pc[n].eq(states[0].pc[n]) for s in states[1:]):
        n += 1
    guards = [_suffix(s.pc, n) for s in states]
    out = State({}, states[0].pc[:n], ())
    total = Or(*guards)
    if total is not True:
        simp = z3.simplify(total)
        if not z3.is_true(simp):
            out.assume(total)
    # logs
    m = 0
    shortest = min(len(s.log) for s in states)
    while m < shortest and all(s.log[m] is states[0].log[m] for s in states[1:]):
        m += 1
    log = list(states[0].log[:m])
    for s, g in zip(states, guards):
        for ev in s.log[m:]:
            log.append((And(g, ev[0]),) + ev[1:])
    out.log = tuple(log)
    heap = Heap(states[-1].heap)
    for s in states[:-1]:
        for oid, o in s.heap.items():
            if oid not in heap:
                heap[oid] = o
    for oid in list(heap):
        present = [(g, s.heap.get(oid) or LAZY[oid]) for s, g in zip(states, guards) if oid in s.heap or oid in LAZY]
        first = present[0][1]
        if all(o is first for _, o in present[1:]):
            heap[oid] = first
        else:
            heap[oid] = merge_obj(present)
    out.heap = heap
    return out, guards


def merge_obj(present):
    first = present[0][1]
    res = present[-1][1]
    for g, o in reversed(present[:-1]):
        res = _merge2(g, o, res)
    return res


def _merge2(g, a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        raise Unsupported(f'merge of {a.kind} and {b.kind}')
    f = {}
    for k in list(a.f) + [k for k in b.f if k not in a.f]:
        f[k] = ite(g, a.f.get(k, UNBOUND), b.f.get(k, UNBOUND))
    x = a.x
    if a.x is not b.x:
        if isinstance(a.x, tuple):
            x = merge_items(g, a.x, b.x)
        elif isinstance(a.x, Store):
            x = merge_store(g, a.x, b.x)
        elif same(a.x, b.x):
            x = a.x
        elif hasattr(a.x, 'merge'):
            x = a.x.merge(g, b.x)
        else:
            raise Unsupported(f'merge of {a.kind} contents')
    return Obj(a.kind, f, a.meta, x)


def _same_entry(p, q):
    return p is q or (p[0] == q[0] if isinstance(p[0], str) else same(p[0], q[0])) and same(p[1], q[1]) and same(p[2], q[2])


def merge_items(g, a, b):
    n = 0
    while n < min(len(a), len(b)) and _same_entry(a[n], b[n]):
        n += 1
    ra, rb = a[n:], b[n:]
    if len(ra) == len(rb) and all(p[0] == q[0] == 'i' and same(p[1], q[1]) for p, q in zip(ra, rb)):
        return a[:n] + tuple(('i', p[1], ite(g, p[2], q[2])) for p, q in zip(ra, rb))
    if len(ra) == len(rb) == 1 and ra[0][0] == rb[0][0] == 's' and ra[0][1] is True and rb[0][1] is True:
        return a[:n] + (('s', True, z3.If(g, ra[0][2], rb[0][2])),)
    ng = Not(g)
    return a[:n] + tuple((k, And(g, h), v) for k, h, v in ra) + tuple((k, And(ng, h), v) for k, h, v in rb)


def merge_store(g, a, b):
    if a.base is not b.base:
        m = getattr(a.base, 'merge_stores', None)
        if m:
            return m(g, a, b)
        raise Unsupported('merge of different maps')
    n = 0
    while n < min(len(a.ups), len(b.ups)) and _same_entry(a.ups[n], b.ups[n]):
        n += 1
    ra, rb = a.ups[n:], b.ups[n:]
    if len(ra) == len(rb) and all(same(p[1], q[1]) and same(p[0], q[0]) for p, q in zip(ra, rb)):
        return Store(a.base, a.ups[:n] + tuple((p[0], p[1], ite(g, p[2], q[2])) for p, q in zip(ra, rb)))
    ng = Not(g)
    return Store(a.base, a.ups[:n] + tuple((And(g, h), k, v) for h, k, v in ra) + tuple((And(ng, h), k, v) for h, k, v in rb))
