"""C08: create_id under contract; creation sites use it on the collection they write to."""
import ast
import os
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, loops
from pyvc.engine import SRC

LEVEL = 'proof'
STR = z3.StringSort()
S = z3.Function('str_of_int', z3.IntSort(), STR)  # str() of an integer
TRUSTED = ['str() of integers is injective (decimal notation)', 'the parser of an imported document calls the handlers only (C12), one after the other']
ASSUMPTIONS = ['new projects are imported into an empty novel', 'create_id ends because the collection of existing IDs is finite (pigeonhole; argued, not machine-checked)']


def ids_engine(u):
    eng = u.engine()
    i, j = z3.Ints('i j')
    INV = z3.Function('int_of_str', STR, z3.IntSort())
    eng.axioms.append(z3.ForAll([i], INV(S(i)) == i, patterns=[S(i)]))
    old = eng.libs['%str']

    def to_str(e, st, v):
        if kind(v) == 'int' and (is_z3(v) or True) and not isinstance(v, bool):
            return S(term(v))
        return old(e, st, v)

    eng.libs['%str'] = to_str
    eng.libs['%host'][str] = lambda e, st, a, k: to_str(e, st, a[0])
    mem = z3.Function('is_id', STR, z3.BoolSort())
    eng.libs['%methods'][('idset', '__contains__')] = lambda e, st, o, a, k: mem(term(a[0])) if kind(a[0]) == 'str' else False
    return eng, mem


def int_candidates(mem):

    def cands(lp):
        out = []
        j = z3.Int('j')
        for v in lp.scalars(z3.IntSort()):
            get = lambda s, v=v: term(lp.value(s, v))
            for c in (0, 1):
                out.append((f'counter >= {c}', lambda s, g=get, c=c: g(s) >= c))
            for d in (-1, 0, 1):
                out.append((f'IDs 1 .. counter{d:+} are in use', lambda s, g=get, d=d: z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < g(s) + d), mem(S(j))), patterns=[S(j)])))
        for v in lp.scalars(STR):
            get = lambda s, v=v: term(lp.value(s, v))
            for w in lp.scalars(z3.IntSort()):
                gi = lambda s, w=w: term(lp.value(s, w))
                for d in (-1, 0, 1):
                    out.append((f'text is str(counter{d:+})', lambda s, g=get, gi=gi, d=d: g(s) == S(gi(s) + d)))
        return out

    return cands


def u_create_id(u):
    eng, mem = ids_engine(u)
    f = eng.get_global('pywriter.model.id_generator', 'create_id')

    def hook(e, st, node, env, mod):
        loops.while_loop(e, st, node, env, mod, 'create_id loop', int_candidates(mem))
        return True

    eng.while_hooks.append(hook)
    st = eng.start()
    coll = st.alloc(Obj('idset'))
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [coll], {}))
    eng.no_raise('create_id never raises', raised)
    eng.cover('create_id returns', st1)
    r = term(r)
    i, j = z3.Ints('i j')
    eng.prove('the ID is not in use', st1, z3.Not(mem(r)))
    n = z3.Int('n')
    # the ID is str(n) with n >= 1 and all smaller positive numbers in use
    INV = z3.Function('int_of_str', STR, z3.IntSort())
    eng.prove('the ID is a positive decimal number', st1, z3.And(r == S(INV(r)), INV(r) >= 1))
    eng.prove('the ID is the smallest free number', st1, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < INV(r)), mem(S(j))), patterns=[S(j)]))
    # frame: the collection is not changed
    u.shape('the collection of IDs is not changed', st1.get(coll) is st.get(coll) or st1.get(coll).f == {})


# ------------------------------------------------------------ the places where elements are made
def only(eng, *words):
    """The obligations about IDs; the others belong to other properties."""
    eng.obligations[:] = [o for o in eng.obligations if any(w in o.name for w in words)]


def u_split(u):
    """The splitter: an ID is asked for the collection that gets the element, and the element is stored under this ID."""
    from . import c09
    r = c09.Split(u)
    eng, st = r.eng, r.st
    me, st, _ = eng.run(st, lambda s: eng.call(s, r.func, [], {}))
    _, q, raised = eng.run(st, lambda s: eng.call_method(s, me, 'split_scenes', [r.file]))
    only(eng, 'IDs: ', 'with its new ID', 'are added for lines only')
    u.fact('elements are made in the loops', any('IDs: ' in o.name for o in eng.obligations), status=None if any('IDs: ' in o.name for o in eng.obligations) else 'unknown')


SMALLEST = z3.Function('smallest ID that is not in use', z3.SeqSort(STR), STR)


def u_vars(u, mode):
    """New project variables: the ID is made from exactly the IDs that are in use."""
    from . import c16, yw7

    class World(yw7.World):

        def new_var(self, name, st, e, T, I):
            i = term(self.var_text(st, e, 'ID'))
            self.eng.prove(f'{name}: IDs: no other variable has it', st, z3.Not(yw7.has(I, i)))
            self.eng.prove(f'{name}: IDs: it is the smallest that is not in use', st, i == SMALLEST(I))

    def new_id(e, st, a, kw):
        t = lib.list_term(e, st, a[0])
        r = SMALLEST(t)
        st.assume(z3.Not(z3.Contains(t, z3.Unit(r))), r != yw7.EMPTY)
        return r

    c16.u_vars(u, mode, World, new_id)
    only(u.engines[-1], 'IDs: ', 'the variables of the file come first')


COUNTING = {'OdtRImport': dict(mod='odt_r_import', path='/project'), 'OdtROutline': dict(mod='odt_r_outline', path='/project')}
INV = z3.Function('int_of_str', STR, z3.IntSort())


def u_counting(cname):
    """The importers of new projects count chapters and scenes. Invariant: the IDs in use are 1 .. counter (found among all counters)."""

    def f(u):
        from . import c12
        steps = []
        tag, name, value, data = z3.Strings('tag name value data')
        shapes = {'none': [()], 'one': [(name, value)], 'two': [(name, value), z3.Strings('name2 value2')]}
        todo = [('handle_starttag', s) for s in shapes] + [('handle_endtag', None), ('handle_data', None), ('handle_comment', None)]
        for h, shape in todo:
            r = c12.Reader(u, cname, COUNTING[cname])
            eng, st = r.eng, r.st
            i = z3.Int('i')
            eng.axioms.append(z3.ForAll([i], INV(S(i)) == i, patterns=[S(i)]))
            old = eng.libs['%str']
            to_str = lambda e, s, v, old=old: S(term(v)) if kind(v) == 'int' and not isinstance(v, bool) else old(e, s, v)
            eng.libs['%str'] = to_str
            eng.libs['%host'][str] = lambda e, s, a, k: to_str(e, s, a[0])
            args = [data] if shape is None and h != 'handle_endtag' else [tag]
            if shape:
                args.append(st.alloc(Obj('list', x=tuple(item(tuple(p)) for p in shapes[shape]))))
            before = st.fork()
            _, q, raised = eng.run(st, lambda s: eng.call_method(s, r.me, h, args))
            if q is None:
                raise Unsupported('the handler never returns')
            eng.cover(f'{h} ({shape}) returns', q)
            steps.append((f'{h} ({shape})', r, q, before))
        counters = steps[0][1].counters
        cands = [(c, a) for c in ('chapters', 'scenes') for a, v in counters.items() if v == 0]
        j, k = z3.Int('j'), z3.String('k')

        def used(r, s, c, n):
            """The IDs in use are 1 .. n; after a step: of the elements before, and those added."""
            dom = r.maps[c].dom
            store = s.get(r.nov[c]).x
            if store.base is not r.maps[c]:
                raise Unsupported('another map')
            if any(v is UNBOUND for g, key, v in store.ups):
                return z3.BoolVal(False)
            new = [(tobool(g), term(key)) for g, key, v in store.ups]
            has = lambda x: z3.Or(dom(x), *[z3.And(g, x == key) for g, key in new])
            return z3.And(n >= 0, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= n), has(S(j))), patterns=[S(j)]),
                          z3.ForAll([k], z3.Implies(dom(k), z3.And(k == S(INV(k)), 1 <= INV(k), INV(k) <= n)), patterns=[dom(k)]),
                          *[z3.Implies(g, z3.And(key == S(INV(key)), 1 <= INV(key), INV(key) <= n)) for g, key in new])

        def assume(r, s, b):
            for c, a in cands:
                s.assume(used(r, b, c, term(b.get(r.me).f[a])))

        while True:
            bad = []
            for n, r, q, b in steps:
                s = q.fork()
                assume(r, s, b)
                for c, a in cands:
                    if (c, a) in bad:
                        continue
                    v = s.get(r.me).f.get(a, UNBOUND)
                    if kind(v) != 'int' or r.eng._check(list(s.pc) + [z3.Not(used(r, s, c, term(v)))], 2000)[0] != z3.unsat:
                        bad.append((c, a))
            if not bad:
                break
            cands = [x for x in cands if x not in bad]
        for c in ('chapters', 'scenes'):
            u.fact(f'{cname}: the IDs of the {c} are 1 .. counter before and after each event', any(x == c for x, _ in cands), status=None if any(x == c for x, _ in cands) else 'unknown')
        made = set()
        for n, r, q, b in steps:
            eng = r.eng
            s = q.fork()
            assume(r, s, b)
            for c in r.maps:
                store = s.get(r.nov[c]).x
                dom = r.maps[c].dom
                for m, (g, key, v) in enumerate(store.ups):
                    if v is UNBOUND:
                        eng.prove(f'{n}: IDs: no element of {c} is removed', s, Not(g))
                        continue
                    x = s.fork(tobool(g))
                    if not eng.feasible(x):
                        continue
                    made.add(c)
                    key = term(key)
                    inuse = lambda y: z3.Or(dom(y), *[z3.And(tobool(g2), y == term(k2)) for g2, k2, _ in store.ups[:m]])
                    if cands_for(c, cands):
                        eng.prove(f'{n}: IDs: a new element of {c} replaces no element', x, z3.Not(inuse(key)))
                        eng.prove(f'{n}: IDs: a new element of {c} has a positive number', x, z3.And(key == S(INV(key)), INV(key) >= 1))
                        eng.prove(f'{n}: IDs: all smaller numbers are in use', x, z3.ForAll([j], z3.Implies(z3.And(1 <= j, j < INV(key)), inuse(S(j))), patterns=[S(j)]))
                    else:
                        u.undecided(f'{n}: IDs: no counter of {c} is known', '')
        u.fact(f'{cname}: chapters and scenes are made', made == {'chapters', 'scenes'}, status=None if made == {'chapters', 'scenes'} else 'unknown')
        for n, r, q, b in steps:
            only(r.eng, 'IDs: ', 'cover')

    return f


def cands_for(c, cands):
    return any(x == c for x, _ in cands)


UNITS = [('create_id', u_create_id), ('split_scenes', u_split)]
UNITS += [(f'project variables ({m})', lambda u, m=m: u_vars(u, m)) for m in ('stored', 'no container', 'new file')]
UNITS += [(f'{c}: chapters and scenes', u_counting(c)) for c in COUNTING]
