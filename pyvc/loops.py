"""Loop contracts: invariants checked by havoc, one arbitrary iteration, and exit."""
import ast
import z3
from .values import *
from .state import *
from .state import _oid

STR = z3.StringSort()
SEQ = z3.SeqSort(STR)


def changed(before, after):
    """(oid, field or '.x') of the objects of 'before' that differ in 'after'."""
    out = []
    todo = dict(before.heap)
    for oid in after.heap:
        if oid not in todo and oid in LAZY:
            todo[oid] = LAZY[oid]
    for oid, o in todo.items():
        p = after.heap.get(oid)
        if p is None or p is o:
            continue
        for k in list(o.f) + [k for k in p.f if k not in o.f]:
            a, b = o.f.get(k, UNBOUND), p.f.get(k, UNBOUND)
            if not same(a, b):
                out.append((oid, k))
        if o.x is not p.x and not (isinstance(o.x, tuple) and isinstance(p.x, tuple) and len(o.x) == len(p.x) and all(same(x[1], y[1]) and same(x[2], y[2]) for x, y in zip(o.x, p.x))):
            out.append((oid, '.x'))
    return out


def sort_of(*vals):
    ks = {kind(v) for v in vals if v is not UNBOUND}
    if len(ks) == 1:
        k = ks.pop()
        return {'str': STR, 'int': z3.IntSort(), 'bool': z3.BoolSort()}.get(k)
    return None


def is_strlist(x):
    for k, g, v in x:
        if k == 'i' and any(kind(y) != 'str' for _, y in alts(v)):
            return False
    return True


class Loop:
    """One application of the invariant rule."""

    def __init__(self, eng, st, node, env, mod, name, havoc=None):
        self.eng, self.st, self.node, self.env, self.mod, self.name = eng, st.fork(), node, env, mod, name
        self.custom = havoc  # fn(state, oid, field, old, new) -> value or None
        self.vars = []  # (oid, field)
        self.marker = None  # objects from this address on belong to the current element

    def probe(self, body):
        """Find what the body changes: run it on states with more and more havoc."""
        eng = self.eng
        for _ in range(6):
            s = self.st.fork()
            self.havoc(s)
            pre = s.fork()
            saved = (list(eng.obligations), eng.exact, list(eng.decisions), eng.dpos)
            eng.sinks.append([])
            eng.ret_sinks.append([])
            eng.loop_sinks.append(([], []))
            ends = []
            eng.probing += 1
            try:
                body(s)
                ends.append(s)
            except Dead:
                pass
            finally:
                eng.probing -= 1
                raised = eng.sinks.pop()
                eng.ret_sinks.pop()
                brk, cont = eng.loop_sinks.pop()
                eng.obligations[:] = saved[0]
            new = []
            for e in ends + cont:
                for oid, k in changed(pre, e):
                    if (oid, k) not in self.vars and (oid, k) not in new and not (self.marker and oid >= self.marker):
                        new.append((oid, k))
            if not new:
                return
            self.probe_ends = ends + cont
            for v in new:
                a = self.st.heap[v[0]]
                b = None
                for e in ends + cont:
                    o = e.heap[v[0]]
                    val = o.x if v[1] == '.x' else o.f.get(v[1], UNBOUND)
                    old = a.x if v[1] == '.x' else a.f.get(v[1], UNBOUND)
                    if val is not old:
                        b = val
                self.vars.append(v)
                self.new = getattr(self, 'new', {})
                self.new[v] = b
        raise Unsupported(f'{self.name}: the changes of the loop do not settle')

    def havoc(self, s):
        for v in self.vars:
            oid, k = v
            o = s.heap[oid].copy()
            s.heap[oid] = o
            old = self.st.heap[oid].x if k == '.x' else self.st.heap[oid].f.get(k, UNBOUND)
            new = self.new[v]
            val = None
            if self.custom:
                val = self.custom(s, oid, k, old, new)
            if val is None:
                if k == '.x':
                    if isinstance(old, tuple) and isinstance(new, tuple) and is_strlist(old) and is_strlist(new):
                        val = (run(self.eng.fresh('list', SEQ)),)
                    else:
                        raise Unsupported(f'{self.name}: the loop changes a collection outside its contract')
                elif o.kind == 'env' or o.kind == 'inst':
                    srt = sort_of(old, new) if old is not UNBOUND else None
                    val = self.eng.fresh(k.strip('%'), srt) if srt is not None else HAVOC
                else:
                    raise Unsupported(f'{self.name}: the loop changes {o.kind}.{k} outside its contract')
            if k == '.x':
                o.x = val
            else:
                o.f[k] = val

    def value(self, s, v):
        oid, k = v
        o = s.heap[oid]
        return o.x if k == '.x' else o.f.get(k, UNBOUND)

    def lists(self):
        """The lists of strings changed by the loop."""
        return [v for v in self.vars if v[1] == '.x' and self.st.heap[v[0]].kind in ('list', 'iter')]

    def scalars(self, srt):
        out = []
        for v in self.vars:
            if v[1] != '.x' and self.st.heap[v[0]].kind == 'env':
                old = self.value(self.st, v)
                if old is not UNBOUND and sort_of(old, self.new[v]) == srt:
                    out.append(v)
        return out

    def check_frame(self, pre, post):
        for v in changed(pre, post):
            if v not in self.vars:
                raise Unsupported(f'{self.name}: the loop changes {v} outside its contract')


def seq_of(eng, s, v):
    """Seq term of a list variable in state s."""
    from .lib import list_term
    return list_term(eng, s, Ref(v[0]))


def for_loop(eng, st, node, env, mod, name, elem, inv, step=None, havoc=None, length=None):
    """Invariant rule for a for loop over a symbolic sequence.

    elem(state, k) -> value of the k-th element; inv(loop, state, k) -> formula; k is the ghost number of elements processed.
    """
    lp = Loop(eng, st, node, env, mod, name, havoc)

    def body(s, k):
        eng.assign(s, node.target, elem(s, k), env, mod)
        eng.run_body(s, node.body, env, mod)

    k0 = eng.fresh('k', z3.IntSort())
    lp.probe(lambda s: body(s, k0))
    eng.prove(f'{name}: invariant holds before the loop', st, inv(lp, st, z3.IntVal(0)))
    # one arbitrary iteration; the selector keeps its ways out apart from the regular exit
    sel = eng.fresh('in_loop', z3.BoolSort())
    s = st.fork(sel)
    lp.havoc(s)
    k = eng.fresh('k', z3.IntSort())
    s.assume(k >= 0)
    if length is not None:
        s.assume(k < length)
    s.assume(tobool(inv(lp, s, k)))
    eng.cover(f'{name}: an iteration is possible', s)
    pre = s.fork()
    eng.loop_sinks.append(([], []))
    alive = True
    try:
        body(s, k)
    except Dead:
        alive = False
    finally:
        brk, cont = eng.loop_sinks.pop()
    ends = ([s] if alive else []) + cont
    if ends:
        m, _ = merge([e.fork() for e in ends])
        lp.check_frame(pre, m)
        eng.prove(f'{name}: invariant is kept', m, inv(lp, m, k + 1))
    # exit
    st.assume(z3.Not(sel))
    lp.havoc(st)
    n = length if length is not None else eng.fresh('n', z3.IntSort())
    st.assume(n >= 0)
    st.assume(tobool(inv(lp, st, n)))
    if node.orelse:
        eng.run_body(st, node.orelse, env, mod)
    if brk:
        m, _ = merge([st.fork()] + brk)
        st.assign(m)
    return lp


def while_loop(eng, st, node, env, mod, name, candidates, havoc=None, prove=True):
    """Invariant rule for a while loop; the invariant is the largest inductive subset of the candidates (Houdini)."""
    lp = Loop(eng, st, node, env, mod, name, havoc)

    def body(s):
        c = eng.truth(s, eng.ev(s, node.test, env, mod))
        s.assume(c)
        eng.run_body(s, node.body, env, mod)

    lp.probe(body)
    cands = candidates(lp)
    # initially true
    keep = []
    for nme, f in cands:
        r, _ = eng._check(list(st.pc) + [z3.Not(tobool(f(st)))], min(eng.timeout, 1500))
        if r == z3.unsat:
            keep.append((nme, f))
    sel = eng.fresh('in_loop', z3.BoolSort())
    while True:
        s = st.fork(sel)
        lp.havoc(s)
        for _, f in keep:
            s.assume(tobool(f(s)))
        pre = s.fork()
        saved = list(eng.obligations)
        rs = [list(x) for x in (eng.sinks[-1], eng.ret_sinks[-1])]
        eng.sinks.append([])
        eng.ret_sinks.append([])
        eng.loop_sinks.append(([], []))
        alive = True
        try:
            body(s)
        except Dead:
            alive = False
        finally:
            raised, rets = eng.sinks.pop(), eng.ret_sinks.pop()
            brk, cont = eng.loop_sinks.pop()
        bad = set()
        ends = ([s] if alive else []) + cont
        if ends:
            m, _ = merge([e.fork() for e in ends])
            lp.check_frame(pre, m)
            for nme, f in keep:
                r, _ = eng._check(list(m.pc) + [z3.Not(tobool(f(m)))], min(eng.timeout, 1500))
                if r != z3.unsat:
                    bad.add(nme)
        if not bad:
            break
        eng.obligations[:] = saved
        keep = [(nme, f) for nme, f in keep if nme not in bad]
    eng.sinks[-1].extend(raised)
    eng.ret_sinks[-1].extend(rets)
    from .engine import Obligation
    for nme, _ in keep:
        eng.obligations.append(Obligation(f'{name}: invariant "{nme}" holds initially and is kept', 'proved', 'z3 ' + z3.get_version_string()))
    st.assume(z3.Not(sel))
    lp.havoc(st)
    for _, f in keep:
        st.assume(tobool(f(st)))
    infinite = isinstance(node.test, ast.Constant) and node.test.value
    if not infinite:
        c = eng.truth(st, eng.ev(st, node.test, env, mod))
        st.assume(Not(c))
        if brk:
            m, _ = merge([st.fork()] + brk)
            st.assign(m)
    else:
        if not brk:
            raise Dead()
        m, _ = merge(brk)
        st.assign(m)
    return lp


def foreach(eng, st, node, it, env, mod, name, smap, accs, post, how='keys'):
    """Rule for a loop over all elements of a symbolic map.

    Each element is visited exactly once. One arbitrary iteration is verified from an arbitrary state of the accumulators;
    it may change accumulators (as allowed by post), locals, new objects and the objects of its own element only.
    accs(loop) -> called with the loop to check that the changed places are the expected accumulators.
    post(loop, pre, end, key, ref) generates the obligations of the iteration and returns nothing.
    """
    from .models import SymMap
    lp = Loop(eng, st, node, env, mod, name)
    seen = list(smap.cache)

    def bind(s, key):
        v = key
        if how != 'keys':
            r = smap.ref(s, key) if not seen else eng.narrow(s, make_union([(g, x) for g, x in alts(smap.lookup(eng, s, key)) if x is not UNBOUND]))
            v = r if how == 'values' else (key, r)
        eng.assign(s, node.target, v, env, mod)

    def body(s, key):
        bind(s, key)
        eng.run_body(s, node.body, env, mod)

    pk = eng.fresh('key')

    def probe(s):
        s.assume(smap.dom(pk))
        smap.ref(s, pk)
        body(s, pk)

    lp.marker = next(_oid)
    before_cache = len(smap.cache)
    lp.probe(probe)
    del smap.cache[before_cache:]
    accs(lp)
    sel = eng.fresh('in_loop', z3.BoolSort())
    s = st.fork(sel)
    lp.havoc(s)
    key = eng.fresh('key')
    s.assume(smap.dom(key))
    for k, _ in smap.cache:
        pass
    n0 = len(smap.cache)
    ref = smap.ref(s, key) if not any(True for _ in seen) else eng.narrow(s, make_union([(g, v) for g, v in alts(smap.lookup(eng, s, key)) if v is not UNBOUND]))
    eng.cover(f'{name}: an iteration is possible', s)
    pre = s.fork()
    eng.loop_sinks.append(([], []))
    alive = True
    try:
        body(s, key)
    except Dead:
        alive = False
    finally:
        brk, cont = eng.loop_sinks.pop()
    if brk:
        eng.prove(f'{name}: all elements are visited (no break)', merge([b.fork() for b in brk])[0], False)
    for k, r in smap.cache[n0:]:
        if not same(k, key) and s.heap.get(r.oid) is not LAZY.get(r.oid):
            raise Unsupported(f'{name}: an iteration changes another element')
    ends = ([s] if alive else []) + cont
    if ends:
        m, _ = merge([e.fork() for e in ends])
        for v in changed(pre, m):
            if v not in lp.vars and not (isinstance(ref, Ref) and v[0] in own_objects(pre, ref)):
                raise Unsupported(f'{name}: the loop changes {v} outside its contract')
        post(lp, pre, m, key, ref)
    st.assume(z3.Not(sel))
    lp.havoc(st)
    smap.sealed = True
    return lp


def own_objects(st, ref):
    out, todo = set(), [ref]
    while todo:
        r = todo.pop()
        if r.oid in out or r.oid not in st.heap:
            continue
        out.add(r.oid)
        for v in st.heap[r.oid].f.values():
            for _, x in alts(v):
                if isinstance(x, Ref) and st.heap.get(x.oid) is not None and st.heap[x.oid].kind in ('dict', 'list'):
                    todo.append(x)
    return out


def pointwise(eng, st, node, tab, how, env, mod, name):
    """Rule for a loop over the keys of a table whose iterations change the entries of their own key only.

    An arbitrary iteration is executed from arbitrary tables; that it changes (and uses) the entries of its key only is proved.
    The entry after the loop is then the one made by the iteration for that key; it is stated for the keys in eng.focus.
    """
    from .models import TabMap, tab_term, tab_store

    def is_tab(o):
        return isinstance(o.x, Store) and isinstance(o.x.base, TabMap)

    def havoc(s, oid, k, old, new):
        if k == '.x' and isinstance(old, Store) and isinstance(old.base, TabMap):
            return tab_store(eng.fresh('table', old.base.t.sort()), old.base.S)
        return None

    lp = Loop(eng, st, node, env, mod, name, havoc)

    def body(s, key):
        v = key
        if how != 'keys':
            x = tab.S.val(z3.Select(tab.t, key))
            v = x if how == 'values' else (key, x)
        eng.assign(s, node.target, v, env, mod)
        eng.run_body(s, node.body, env, mod)

    pk = eng.fresh('key')

    def probe(s):
        s.assume(tab.dom(pk))
        body(s, pk)

    lp.probe(probe)
    places = [v for v in lp.vars if v[1] == '.x' and is_tab(lp.st.heap[v[0]])]
    first = {v: tab_term(lp.st.heap[v[0]].x) for v in places}
    sel = eng.fresh('in_loop', z3.BoolSort())
    s = st.fork(sel)
    lp.havoc(s)
    key = eng.fresh('key')
    s.assume(tab.dom(key))
    cur = {}
    for v in places:
        cur[v] = tab_term(s.heap[v[0]].x)
        s.assume(z3.Select(cur[v], key) == z3.Select(first[v], key))
    eng.cover(f'{name}: an iteration is possible', s)
    pre = s.fork()
    n0 = eng.fresh_n
    eng.loop_sinks.append(([], []))
    alive = True
    try:
        body(s, key)
    except Dead:
        alive = False
    finally:
        brk, cont = eng.loop_sinks.pop()
    if brk:
        eng.prove(f'{name}: all keys are visited (no break)', merge([b.fork() for b in brk])[0], False)
    ends = ([s] if alive else []) + cont
    entry = {}
    if ends:
        m, _ = merge([e.fork() for e in ends])
        lp.check_frame(pre, m)
        for v in places:
            t = tab_term(m.heap[v[0]].x)
            new = z3.Select(t, key)
            eng.prove(f'{name}: an iteration changes the entry of its own key only', m, t == z3.Store(cur[v], key, new))
            e = new
            for w in places:
                e = z3.substitute(e, (cur[w], first[w]))
            entry[v] = e
            # the entry must be determined by the key and the tables before the loop
            for x in constants(e):
                if any(x.eq(c) for c in cur.values()) or '!' in str(x) and not x.eq(key) and not occurs_before(pre, lp, first, tab, x):
                    entry[v] = None
    st.assume(z3.Not(sel))
    lp.havoc(st)
    for v in places:
        after = tab_term(st.heap[v[0]].x)
        for q in eng.focus:
            old = z3.Select(first[v], q)
            if entry.get(v) is None:
                eng.exact = False
                st.assume(z3.Implies(z3.Not(tab.dom(q)), z3.Select(after, q) == old))
            else:
                st.assume(z3.Select(after, q) == z3.If(tab.dom(q), z3.substitute(entry[v], (key, q)), old))
    if node.orelse:
        eng.run_body(st, node.orelse, env, mod)
    return lp


def constants(e, seen=None):
    seen = {} if seen is None else seen
    out = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen[x.get_id()] = x
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def occurs_before(pre, lp, first, tab, x):
    """The constant belongs to the tables or the state before the loop (not to the iteration)."""
    for t in list(first.values()) + [tab.t] + list(lp.st.pc):
        if any(c.eq(x) for c in constants(tobool(t) if not z3.is_expr(t) else t)):
            return True
    return False
