"""Loops over a list of IDs that accumulate: numbers, flags, and lists of strings that are joined in the end.

The invariants are taken from candidates 'the variable is its first value plus F(elements done)', for the functions F of a specification;
the largest inductive subset is kept (Houdini). F is defined by recursion over the list: the definition is instantiated where it is used.
"""
import z3
from .values import *
from .state import *
from .lib import STR, SEQ, list_term
from . import loops
from .engine import Obligation

E = z3.Const('no elements', SEQ)  # [] and P + [x] as uninterpreted terms: no reasoning about sequences is needed
SNOC = z3.Function('and_then', SEQ, STR, SEQ)
NIL = z3.StringVal('')
INT, BOOL = z3.IntSort(), z3.BoolSort()
# the text of a list of strings: nothing, a text and one more string, a text and another text
TEXT = z3.DeclareSort('Text')
NONE = z3.Const('no text', TEXT)
APP = z3.Function('append', TEXT, STR, TEXT)
CAT = z3.Function('extend', TEXT, TEXT, TEXT)
OF = z3.Function('text_of', SEQ, TEXT)
STRING = z3.Function('joined', TEXT, STR)


def app(eng, t, s, g=True):
    """One more string; the empty string changes nothing."""
    s = term(s)
    if s.eq(NIL) or g is False:
        return t
    if z3.is_app_of(s, z3.Z3_OP_SEQ_CONCAT):
        for i in range(s.num_args()):
            t = app(eng, t, s.arg(i), g)
        return t
    r = APP(t, s)
    ax(eng, r, z3.Implies(s == NIL, r == t))
    return r if g is True else z3.If(g, r, t)


def cat(eng, a, b, g=True):
    if b.eq(NONE):
        return a
    if z3.is_app_of(b, z3.Z3_OP_ITE):
        r = z3.If(b.arg(0), cat(eng, a, b.arg(1)), cat(eng, a, b.arg(2)))
    elif b.decl().eq(APP):
        r = app(eng, cat(eng, a, b.arg(0)), b.arg(1))
    elif b.decl().eq(CAT):
        r = cat(eng, cat(eng, a, b.arg(0)), b.arg(1))
    elif a.eq(NONE):
        r = b
    else:
        r = CAT(a, b)
        ax(eng, r, z3.Implies(b == NONE, r == a))
        ax(eng, r, z3.Implies(a == NONE, r == b))
        if b.get_id() in eng.texts:
            d = eng.texts[b.get_id()]
            ax(eng, r, z3.Implies(b == d, r == cat(eng, a, d)))
    return r if g is True else z3.If(g, r, a)


def ax(eng, v, f):
    """A fact about the term v: used where v occurs."""
    l = eng.triggers.setdefault(v.get_id(), (v, []))[1]
    if not any(f.eq(g) for g in l):
        l.append(f)


def text_of(eng, st, x):
    """The text of a list of strings."""
    x = st.get(x).x
    t = NONE
    for k, g, v in x:
        if k == 's':
            t = cat(eng, t, OF(v), g)
        else:
            v = eng.narrow(st, v)
            if kind(v) != 'str':
                raise Unsupported('list of other than strings')
            t = app(eng, t, v, g)
    return t


def install(eng):
    """''.join by text."""
    eng.lost = []
    eng.texts = {}  # id of a text -> its definition
    eng.triggers = {}
    M = eng.libs['%methods']
    old = M[('str', 'join')]

    def join(e, st, o, a, kw):
        if o == '' and len(a) == 1 and isinstance(a[0], Ref) and st.get(a[0]).kind in ('list', 'iter') and loops.is_strlist(st.get(a[0]).x):
            return STRING(text_of(e, st, a[0]))
        return old(e, st, o, a, kw)

    M[('str', 'join')] = join


class Fold:
    """A function over the lists, by recursion: f(args, []) = zero, f(args, P + [x]) = step(args, f(args, P), x, P)."""

    def __init__(self, eng, name, args, sort, zero, step, facts=None):
        """facts(args, P): lemmas about the value, proved on their own."""
        self.eng, self.zero, self.step, self.known, self.facts = eng, zero, step, {}, facts
        self.f = z3.Function(name, *args, SEQ, sort)

    def __call__(self, *a):
        """The value; a Python list of terms is unrolled."""
        *args, P = a
        if isinstance(P, (list, tuple)):
            r = self.zero
            for n, x in enumerate(P):
                r = self.step(args, r, x, P[:n])
            return r
        v = self.f(*args, P)
        if v.get_id() not in self.known:
            self.known[v.get_id()] = v
            r = None
            if P.eq(E):
                r = self.zero
            elif P.decl().eq(SNOC):
                p, x = P.arg(0), P.arg(1)
                r = self.step(args, self(*args, p), x, p)
            if r is not None:
                ax(self.eng, v, v == r)
                if r.sort() == TEXT:
                    self.eng.texts[v.get_id()] = r
            elif self.facts:
                for f in self.facts(args, P):
                    ax(self.eng, v, f)
        return v


def first_plus(first, t):
    """The list and more; first is often empty."""
    return t if z3.simplify(z3.Length(first) == 0).eq(z3.BoolVal(True)) else z3.Concat(first, t)


def list_value(eng, st, ref, code=None, marker=0):
    """The list as a term; elements other than strings are encoded."""
    if code is None or loops.is_strlist(st.get(ref).x):
        return list_term(eng, st, ref)
    r = z3.Empty(SEQ)
    parts = []
    for k, g, v in st.get(ref).x:
        if k == 'i' and isinstance(v, Union):
            v = eng.narrow(st, v)
        if k == 'i' and isinstance(v, Ref) and v.oid < marker:
            raise Unsupported('a list that exists before the loop is added')
        t = v if k == 's' else z3.Unit(code(st, v))
        parts.append(t if g is True else z3.If(tobool(g), t, r))
    return r if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)


def accumulate(eng, st, node, t, env, mod, name, cands, enter=lambda P, x: None, leave=lambda: None, elem=None, each=None, stop=None, count=False, havoc=None, code=None, facts=None, allowed=None, rebind=False):
    """cands: {'int': [fn(P)], 'bool': [fn(P)], 'text': [fn(P)], 'list': [fn(P)], 'int=' and 'list=': not added to the first value;
    'fact': of the elements done alone; 'rel': fn(state, P); 'list~', 'str~', 'bool~', 'int~': fn(state, value, P)}.

    elem(state, x): value of the element; each(pre, state, P, x): obligations at the end of an iteration;
    stop(P): [fact] known for a loop left by break when P is done: the values do not change any more;
    count: t is a number, the elements are 0 .. t - 1; havoc(state, oid, field, old, new): value of a place that is arbitrary;
    allowed(pre, place): an iteration may change this place although it is not known after the loop;
    rebind: variables may be set to other lists of strings (no list is shared: this is checked).
    """
    for v in st.get(env).f.values():
        if isinstance(v, Union) and len(v.alts) > 1 and all(isinstance(x, Ref) and st.get(x).kind == 'list' for _, x in v.alts):
            # one of several lists: by cases
            def case(g, x, v=v):
                def f(q):
                    o = q.edit(env)
                    for k, w in o.f.items():
                        if w is v:
                            o.f[k] = x
                    accumulate(eng, q, node, t, env, mod, name, cands, enter, leave, elem, each, stop, count, havoc, code, facts, allowed, rebind)
                return f
            eng.split(st, [(g, case(g, x)) for g, x in v.alts])
            return
    if count:
        P = eng.fresh('done', INT)
        x, nxt, start0 = P, P + 1, z3.IntVal(0)
    else:
        P = eng.fresh('done', SEQ)
        x = eng.fresh('x')
        nxt, start0 = SNOC(P, x), E
    custom = havoc

    def havoc(s, oid, k, old, new):
        if custom:
            v = custom(s, oid, k, old, new)
            if v is not None:
                return v
        if s.heap[oid].kind == 'env' and (old is UNBOUND or old is HAVOC):
            return HAVOC
        if rebound((oid, k), old, new):
            return s.alloc(Obj('list', x=(run(eng.fresh(k, SEQ)),)))
        if k == '.x' and isinstance(old, tuple) and not (loops.is_strlist(old) and loops.is_strlist(new)):
            if code:
                return (run(eng.fresh('list', SEQ)),)
            raise Unsupported(f'{name}: a list of other than strings')
        return None

    def rebound(v, old, new):
        """A variable that is set to other lists of strings."""
        return rebind and st.heap[v[0]].kind == 'env' and isinstance(old, Ref) and st.get(old).kind == 'list' and new is not HAVOC and \
            all(isinstance(r, Ref) for _, r in alts(new))

    lp = loops.Loop(eng, st, node, env, mod, name, havoc)
    lp.marker = next(loops._oid)
    brks = []

    def body(s, probe=False):
        enter(P, x)
        try:
            eng.assign(s, node.target, elem(s, x) if elem else x, env, mod)
            alive, brk = eng.loop_body(s, node.body, env, mod)
        finally:
            leave()
        brks[:] = brk
        if brk and not stop:
            raise Unsupported(f'{name}: break')
        if brk and probe:
            m, _ = merge(([s.fork()] if alive else []) + brk)
            s.assign(m)
            s.dead = False
        elif not alive:
            raise Dead()

    def start(s):
        if count:
            s.assume(P >= 0, P < t)
        for f in (facts(t, x) if facts else () if count else eng.element_facts(t, x)):
            s.assume(f)

    before = list(eng.lost), eng.exact
    lp.probe(lambda s: (start(s), body(s, True)))
    eng.lost, eng.exact = before
    todo = []  # (place, text, fn(state, P))
    k_of = {}
    if eng.probing and rebind and not brks and not node.orelse:
        lp.havoc(st)  # only the places that an outer loop changes are looked for
        return lp
    gone = {lp.value(lp.st, v).oid for v in lp.vars if v[1] != '.x' and rebound(v, lp.value(lp.st, v), lp.new[v])}
    for v in lp.vars:
        old = lp.value(lp.st, v)
        if v[1] == '.x' and v[0] in gone:
            continue
        what = v[1] if v[1] != '.x' else 'list'
        if lp.st.heap[v[0]].kind == 'env' and (old is UNBOUND or old is HAVOC):
            continue
        if custom and custom(lp.st, *v, old, lp.new[v]) is not None:
            continue
        if v[1] == '.x':
            k = 'text' if 'text' in cands else 'list'
        else:
            k = {INT: 'int', BOOL: 'bool', STR: 'str' if 'str~' in cands else None}.get(loops.sort_of(old, lp.new[v]))
            if rebound(v, old, lp.new[v]):
                k = 'list'
        if k is None:
            continue

        def now(s, v=v):
            if k_of[v] == 'list' and v[1] != '.x':
                r = None
                for g, y in reversed(alts(lp.value(s, v))):
                    y = list_value(eng, s, y, code, lp.marker)
                    r = y if r is None else z3.If(tobool(g), y, r)
                return r
            if k_of[v] == 'list':
                return list_value(eng, s, Ref(v[0]), code, lp.marker)
            return text_of(eng, s, Ref(v[0])) if k_of[v] == 'text' else term(lp.value(s, v))

        k_of[v] = k
        first = now(lp.st)
        for n, f in enumerate(cands.get(k, ())):
            if k == 'int':
                todo.append((v, f'{what}: sum {n}', lambda s, Q, f=f, now=now, a=first: now(s) == a + f(Q)))
            elif k == 'list':
                todo.append((v, f'{what}: elements {n}', lambda s, Q, f=f, now=now, a=first: now(s) == first_plus(a, f(Q))))
            elif k == 'text':
                todo.append((v, f'{what}: text {n}', lambda s, Q, f=f, now=now, a=first: now(s) == cat(eng, a, f(Q))))
            else:
                todo.append((v, f'{what}: flag {n}', lambda s, Q, f=f, now=now, a=first: now(s) == z3.And(tobool(a), f(Q))))
                todo.append((v, f'{what}: other flag {n}', lambda s, Q, f=f, now=now, a=first: now(s) == z3.Or(tobool(a), z3.Not(f(Q)))))
        for n, f in enumerate(cands.get(k + '=', ())):
            todo.append((v, f'{what}: value {n}', lambda s, Q, f=f, now=now: now(s) == f(Q)))
        for n, f in enumerate(cands.get(k + '~', ())):
            todo.append((v, f'{what}: relation {n}', lambda s, Q, f=f, now=now: f(s, now(s), Q)))
    n0 = len(todo)
    for n, f in enumerate(cands.get('rel', ())):
        todo.append((None, f'relation {n}', f))
    for n, f in enumerate(cands.get('fact', ())):
        todo.append((None, f'fact {n}', lambda s, Q, f=f: f(Q)))
    def shared(s):
        """No list that is bound to a variable of the loop is known under another name."""
        for v in lp.vars:
            if k_of.get(v) != 'list':
                continue
            for g, r in alts(lp.value(s, v)) if v[1] != '.x' else [(True, Ref(v[0]))]:
                names = 0
                for oid, o in s.heap.items():
                    for k, y in list(o.f.items()) + [(n, i[2]) for n, i in enumerate(o.x) if i[0] == 'i'] if isinstance(o.x, tuple) else list(o.f.items()):
                        for h, z in alts(y):
                            if isinstance(z, Ref) and z == r and (oid, k) != v:
                                if v[1] == '.x' and o.kind == 'env' and not names:
                                    names = 1
                                    continue
                                if eng.feasible(s, And(g, h)):
                                    raise Unsupported(f'{name}: a list with two names ({v[1]}, {k})')

    keep = [c for c in todo if eng._check(list(st.pc) + [z3.Not(tobool(c[2](lp.st, start0)))], 1500)[0] == z3.unsat]
    sel = eng.fresh('in_loop', BOOL)
    while True:
        s = st.fork(sel)
        start(s)
        lp.havoc(s)
        for _, _, f in keep:
            s.assume(tobool(f(s, P)))
        saved = list(eng.obligations), list(eng.lost), eng.exact
        eng.cover(f'{name}: an iteration is possible', s)
        pre = s.fork()
        eng.sinks.append([])
        eng.ret_sinks.append([])
        alive = True
        try:
            body(s)
        except Dead:
            alive = False
        finally:
            raised, rets = eng.sinks.pop(), eng.ret_sinks.pop()
        brk = list(brks)
        bad = []
        for e in ([s] if alive else []) + brk:
            for v in loops.changed(pre, e):
                if v not in lp.vars and not (allowed and allowed(pre, v)):
                    raise Unsupported(f'{name}: the loop changes {v} outside its contract')
        if alive:
            for c in keep:
                if eng._check(list(s.pc) + [z3.Not(tobool(c[2](s, nxt)))], eng.timeout)[0] != z3.unsat:
                    bad.append(c)
        if not bad:
            break
        eng.obligations[:], eng.lost, eng.exact = saved
        keep = [c for c in keep if not any(c is b for b in bad)]
    if rebind:
        shared(st)
        if alive:
            shared(s)
    if each and alive:
        each(pre, s, P, x)
    eng.sinks[-1].extend(raised)
    eng.ret_sinks[-1].extend(rets)
    for v, txt, _ in keep:
        eng.obligations.append(Obligation(f'{name}: "{txt}" holds before the loop and is kept', 'proved', 'z3 ' + z3.get_version_string()))
    for v in k_of if n0 else ():
        if not any(c[0] == v for c in keep):
            eng.lost = eng.lost + [f'{name}: {v[1]}']
            eng.exact = False
    st.assume(z3.Not(sel))
    lp.havoc(st)
    for _, txt, f in keep:
        g = f(st, t)
        st.assume(tobool(g))
        if ': text' in txt and z3.is_expr(g) and g.arg(0).decl().eq(OF):
            eng.texts[g.arg(0).get_id()] = g.arg(1)
    if node.orelse:
        eng.run_body(st, node.orelse, env, mod)
    if brk:
        for b in brk:
            b.assume(*stop(P), *stop(nxt))
        m, _ = merge([st.fork()] + brk)
        st.assign(m)
    return lp
