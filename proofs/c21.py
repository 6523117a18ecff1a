"""C21: list <-> text conversion. string_to_list is verified against a fold over the parts of the text."""
import ast
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, loops
from pyvc.lib import STR, SEQ, U_STRIP, U_SPLIT, U_JOIN

LEVEL = 'proof'
TRUSTED = ['str.split/str.join contract: splitting the join of divider-free entries at a non-empty divider gives the entries (non-empty list)',
           'str.strip contract: the result is a substring without white space at its ends; strip is idempotent']
ASSUMPTIONS = ['the text argument is a string, None, a number or a list; the divider a string']

EMPTY = z3.StringVal('')


def step(acc, x):
    """Spec of one entry: trimmed, dropped if empty or already there, else appended."""
    y = U_STRIP(x)
    return z3.If(z3.Or(y == EMPTY, z3.Contains(acc, z3.Unit(y))), acc, z3.Concat(acc, z3.Unit(y)))


def spec(parts):
    """D(k): the result for the first k parts."""
    D = z3.Function('D', z3.IntSort(), SEQ)
    return D


def u_string_to_list(u):
    eng = u.engine()
    f = eng.get_global('pywriter.pywriter_globals', 'string_to_list')
    text, div = z3.String('text'), z3.String('divider')
    parts = U_SPLIT(text, div)
    D = z3.Function('D', z3.IntSort(), SEQ)
    eng.axioms.append(D(0) == z3.Empty(SEQ))

    def hook(e, st, node, it, env, mod):
        if isinstance(it, Ref) and st.get(it).kind in ('list', 'iter'):
            x = st.get(it).x
            if len(x) == 1 and x[0][0] == 's':
                t = x[0][2]
                if isinstance(node.iter, ast.Name) and node.iter.id == '%it':
                    # a comprehension over the parts that keeps each of them in a converted form
                    if not isinstance(node.body[0], ast.Expr) or maps:
                        raise Unsupported('comprehension that selects parts')
                    M = z3.Function(f'M{len(maps)}', z3.IntSort(), SEQ)

                    def inv_map(lp, s, k):
                        ls = lp.lists()
                        if len(ls) != 1:
                            raise Unsupported('loop does not build one list')
                        return loops.seq_of(e, s, ls[0]) == M(k)

                    def elem_map(s, k):
                        s.assume(M(k + 1) == z3.Concat(M(k), z3.Unit(U_STRIP(t[k]))))
                        return t[k]

                    st.assume(M(0) == z3.Empty(SEQ))
                    n = z3.Length(t)
                    before = len(e.obligations)
                    loops.for_loop(e, st, node, env, mod, 'string_to_list trimming', elem_map, inv_map, length=n)
                    if any(o.status != 'proved' for o in e.obligations[before:]):
                        del e.obligations[before:]
                        raise Unsupported('comprehension that does not trim the parts')
                    # the definition of M: as many entries as parts, each of them trimmed
                    st.assume(z3.Length(M(n)) == n)
                    maps.append((M(n), t))
                    return True
                done = [o for m, o in maps if z3.eq(z3.simplify(m), z3.simplify(t)) or e.known(st, m == t) is True]

                def inv(lp, s, k):
                    ls = lp.lists()
                    if len(ls) != 1:
                        raise Unsupported('loop does not build one list')
                    return loops.seq_of(e, s, ls[0]) == D(k)

                def elem(s, k):
                    for o in done:
                        s.assume(t[k] == U_STRIP(o[k]))
                        s.assume(U_STRIP(U_STRIP(o[k])) == U_STRIP(o[k]))
                    s.assume(D(k + 1) == step(D(k), P[0][k]))
                    s.assume(U_STRIP(U_STRIP(t[k])) == U_STRIP(t[k]))
                    return t[k]

                loops.for_loop(e, st, node, env, mod, 'string_to_list loop', elem, inv, length=z3.Length(t))
                return True
        return False

    maps, P = [], [parts]
    eng.loop_hooks.append(hook)
    st = eng.start()
    st.assume(div != EMPTY)
    lines = {}
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [text, div], {}))
    eng.no_raise('never raises for a string', raised)
    eng.cover('string_to_list returns', st1)
    res = lib.list_term(eng, st1, r)
    eng.prove('string_to_list gives the trimmed non-empty parts, each once, in order of first occurrence', st1, res == D(z3.Length(parts)))
    # default divider
    maps.clear()
    P[0] = U_SPLIT(text, z3.StringVal(';'))
    st = eng.start()
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [text], {}))
    parts2 = U_SPLIT(text, z3.StringVal(';'))
    eng.prove('the default divider is the semicolon', st1, lib.list_term(eng, st1, r) == D(z3.Length(parts2)))


def u_unusable(u):
    for nme, bad in (('None', None), ('a number', 5), ('a list', 'list')):
        for fn, empty in (('string_to_list', 'list'), ('list_to_string', 'str')):
            if fn == 'list_to_string' and bad == 'list':
                continue
            eng = u.engine()
            f = eng.get_global('pywriter.pywriter_globals', fn)
            st = eng.start()
            arg = st.alloc(Obj('list', x=(item('a'),))) if bad == 'list' else bad
            r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [arg], {}))
            u.fact(f'{fn}({nme}) does not raise', st1 is not None and not raised)
            if st1 is not None:
                if empty == 'list':
                    u.fact(f'{fn}({nme}) is empty', isinstance(r, Ref) and st1.get(r).kind == 'list' and st1.get(r).x == ())
                else:
                    u.fact(f'{fn}({nme}) is empty', r == '')
    # a list with an entry that is not a string
    eng = u.engine()
    f = eng.get_global('pywriter.pywriter_globals', 'list_to_string')
    st = eng.start()
    a, b = z3.Bool('a_none'), z3.String('b')
    arg = st.alloc(Obj('list', x=(item(Union([(a, None), (z3.Not(a), z3.String('e'))])), item(b))))
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [arg], {}))
    eng.no_raise('never raises for a list with unusable entries', raised)
    eng.prove('an unusable entry gives the empty text', st1, Implies(a, eng.eq(st1, r, '')))


def u_list_to_string(u):
    eng = u.engine()
    f = eng.get_global('pywriter.pywriter_globals', 'list_to_string')
    st = eng.start()
    L = z3.Const('L', SEQ)
    div = z3.String('divider')
    arg = st.alloc(Obj('list', x=(run(L),)))
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [arg, div], {}))
    eng.no_raise('list_to_string never raises', raised)
    eng.prove('list_to_string joins the entries', st1, eng.eq(st1, r, U_JOIN(div, L)))
    st = eng.start()
    arg = st.alloc(Obj('list', x=(run(L),)))
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [arg], {}))
    eng.prove('the default divider is the semicolon', st1, eng.eq(st1, r, U_JOIN(z3.StringVal(';'), L)))


def u_lemmas(u):
    acc = z3.Const('acc', SEQ)
    x = z3.String('x')
    y, z = z3.String('y'), z3.String('z')
    strip_ax = [U_STRIP(U_STRIP(x)) == U_STRIP(x)]
    # invariant of the fold: entries trimmed, non-empty, each once (by induction over the parts)
    i, j = z3.Ints('i j')
    n = z3.Length(acc)

    def ok(s, a):
        return z3.Implies(z3.And(0 <= a, a < z3.Length(s)), z3.And(s[a] != EMPTY, U_STRIP(s[a]) == s[a]))

    def differ(s, a, b):
        return z3.Implies(z3.And(0 <= a, a < b, b < z3.Length(s)), s[a] != s[b])

    nxt = step(acc, x)
    u.lemma('each entry of the result is trimmed and not empty (step)', strip_ax + [ok(acc, i)], ok(nxt, i))
    u.lemma('the entries before the new one keep their places (step)', strip_ax + [0 <= i, i < n], nxt[i] == acc[i])
    u.lemma('a new entry goes to the end (step)', [z3.Length(nxt) != n], z3.And(z3.Length(nxt) == n + 1, nxt[n] == U_STRIP(x)))
    u.lemma('an entry at a place is a member', [0 <= i, i < n], z3.Contains(acc, z3.Unit(acc[i])))
    # with the three lemmas above: no two places of the result are equal
    u.lemma('each entry of the result occurs once (step)', [differ(acc, i, j), z3.Implies(z3.And(0 <= i, i < n), z3.And(nxt[i] == acc[i], z3.Contains(acc, z3.Unit(acc[i])))),
            z3.Implies(z3.And(0 <= j, j < n), nxt[j] == acc[j]), z3.Or(z3.Length(nxt) == n, z3.And(z3.Length(nxt) == n + 1, nxt[n] == U_STRIP(x), z3.Not(z3.Contains(acc, z3.Unit(U_STRIP(x))))))],
            differ(nxt, i, j))
    u.lemma('nothing but trimmed parts enters the result (step)', strip_ax + [z3.Contains(nxt, z3.Unit(y)), z3.Not(z3.Contains(acc, z3.Unit(y)))], y == U_STRIP(x))
    u.lemma('entries are never dropped again (step)', [], z3.PrefixOf(acc, nxt))
    u.lemma('each non-empty trimmed part is in the result (step)', strip_ax + [U_STRIP(x) != EMPTY], z3.Contains(nxt, z3.Unit(U_STRIP(x))))
    # round trip: L distinct, trimmed, non-empty: D(k) = first k entries of L, by induction
    L = z3.Const('L', SEQ)
    k = z3.Int('k')
    pre = z3.SubSeq(L, 0, k)
    hyp = [0 <= k, k < z3.Length(L), U_STRIP(L[k]) == L[k], L[k] != EMPTY, z3.Not(z3.Contains(pre, z3.Unit(L[k])))]
    u.lemma('splitting the joined list gives the list (step)', hyp, step(pre, L[k]) == z3.SubSeq(L, 0, k + 1))
    # distinct entries imply the freshness used above
    u.lemma('distinct entries: the k-th is not among the first k', [0 <= k, k < z3.Length(L), z3.Contains(pre, z3.Unit(L[k])), i == z3.IndexOf(pre, z3.Unit(L[k]), 0),
            z3.Implies(z3.And(0 <= i, i < k), L[i] != L[k]), pre[i] == L[i]], z3.Or(i < 0, i >= k))


UNITS = [('string_to_list', u_string_to_list), ('unusable input', u_unusable), ('list_to_string', u_list_to_string), ('lemmas', u_lemmas)]
