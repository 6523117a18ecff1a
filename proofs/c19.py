"""C19: purging. Both functions are verified for arbitrary projects: every element, every field."""
import re
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, loops
from pyvc.loops import seq_of
from pyvc.models import SymMap, ArrMap, arr_term, optstr_sort, re_sub_fn, regex_key, map_of, seq_list

LEVEL = 'proof'
STR, SEQ = lib.STR, lib.SEQ
TRUSTED = ['re.sub is a function of pattern, replacement and text (uninterpreted)', 'iteration over a dictionary visits each key once']
ASSUMPTIONS = ['kwVar values are strings or None', 'the language tag pattern is the one of the specification; a different pattern is left to the bounded part']
K = optstr_sort()
KW = z3.ArraySort(STR, K)
MAPS = {'chapters': 'CHP_KWVAR', 'scenes': 'SCN_KWVAR', 'characters': 'CRT_KWVAR', 'locations': 'LOC_KWVAR', 'items': 'ITM_KWVAR', 'projectNotes': 'PNT_KWVAR'}
TAG = re.compile(r'\[\/*?lang=.*?\]')


def truthy(e):
    return z3.And(K.is_str(e), K.val(e) != z3.StringVal(''))


def element(name, key, st, fields=()):
    """An arbitrary element with an arbitrary kwVar map and other attributes."""
    kw = st.alloc(Obj('dict', x=Store(ArrMap(z3.Const(f'{name}.kwVar', KW)))))
    LAZY[kw.oid] = st.get(kw)
    f = {'kwVar': kw}
    for a in fields:
        f[a] = z3.Const(f'{name}.{a}', PYOBJ)
    return f


def u_reset(u):
    eng = u.engine()
    fn = eng.get_global('pywriter.yw.yw7_purge', 'reset_custom_variables')
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    st = eng.start()
    nov = element('novel', None, st)
    maps = {}
    for m in MAPS:
        maps[m] = SymMap(m, lambda name, key, s: Obj('inst', element(name, key, s, ('title', 'desc', 'other')), base), eng)
        nov[m] = st.alloc(Obj('dict', x=Store(maps[m])))
    for a in ('srtChapters', 'srtCharacters', 'srtLocations', 'srtItems', 'srtPrjNotes'):
        nov[a] = st.alloc(Obj('list', x=(run(z3.Const(a, SEQ)),)))
    novel = st.alloc(Obj('inst', nov, base))
    fl = {}
    pf = {'novel': novel}
    for a in ['PRJ_KWVAR'] + list(MAPS.values()):
        fl[a] = z3.Const(a, SEQ)
        pf[a] = st.alloc(Obj('list', x=(run(fl[a]),)))
    prj = st.alloc(Obj('inst', pf, base))

    f = z3.String('f')

    def spec_kw(old, new, inn):
        return z3.ForAll([f], z3.Select(new, f) == z3.If(z3.And(inn(f), truthy(z3.Select(old, f))), K.str(z3.StringVal('')), z3.Select(old, f)))

    def custom(lp_holder):

        def h(s, oid, k, old, new):
            if k == '.x' and isinstance(old, Store) and isinstance(old.base, ArrMap):
                return Store(ArrMap(eng.fresh('kw', KW)))
            return None

        return h

    def inner(e, s, node, it, env, mod):
        """for field in <FIELDS>: clear the field of one kwVar map."""
        t = s.get(it).x[0][2]
        nme = f'loop over {t}'
        inn = z3.Function(f'in_prefix_{t}', z3.IntSort(), STR, z3.BoolSort())
        C = z3.Function(f'cleared_{t}!{e.fresh_n}', z3.IntSort(), z3.BoolSort())
        ctx = {}

        def kwv(lp):
            ks = [v for v in lp.vars if v[1] == '.x' and isinstance(lp.st.heap[v[0]].x, Store)]
            if len(ks) > 1:
                raise Unsupported('several maps')
            return ks[0] if ks else None

        def inv(lp, x, k):
            v = kwv(lp)
            flags = lp.scalars(z3.BoolSort())
            if v is None or len(flags) != 1:
                raise Unsupported('loop does not clear one map with one flag')
            old, new = arr_term(e, lp.st, lp.st.heap[v[0]].x), arr_term(e, x, x.heap[v[0]].x)
            flag0, flag = term(lp.value(lp.st, flags[0])), term(lp.value(x, flags[0]))
            ctx['v'], ctx['old'], ctx['flag0'], ctx['flag'] = v, old, flag0, flags[0]
            return z3.And(spec_kw(old, new, lambda y: inn(k, y)), flag == z3.Or(flag0, C(k)),
                          z3.ForAll([f], z3.Implies(z3.And(inn(k, f), truthy(z3.Select(old, f))), C(k))))

        def elem(x, k):
            # definitions of the ghost functions: names seen so far, and whether one of them had a value
            x.assume(z3.ForAll([f], inn(k + 1, f) == z3.Or(inn(k, f), f == t[k])))
            if 'old' in ctx:
                x.assume(C(k + 1) == z3.Or(C(k), truthy(z3.Select(ctx['old'], t[k]))))
            return t[k]

        s.assume(z3.ForAll([f], z3.Not(inn(0, f))), z3.Not(C(0)))
        loops.for_loop(e, s, node, env, mod, nme, elem, inv, havoc=custom(None), length=z3.Length(t))
        s.assume(z3.BoolVal(True))
        n = z3.Length(t)
        ghosts[str(t)] = (inn, C, n, ctx['old'])
        return True

    ghosts = {}
    visited = []

    def hook(e, s, node, it, env, mod):
        t = seq_list(s, it)
        if t is not None and any(t.eq(x) for x in fl.values()):
            return inner(e, s, node, it, env, mod)
        mo = map_of(s, it)
        if mo:
            sm, how = mo
            visited.append(sm.name)
            fields = MAPS[sm.name]

            def accs(lp):
                if not lp.scalars(z3.BoolSort()):
                    return

            def post(lp, pre, end, key, ref):
                kw = pre.get(ref).f['kwVar']
                old, new = arr_term(e, pre, pre.get(kw).x), arr_term(e, end, end.get(kw).x)
                if fields not in ghosts:
                    raise Unsupported('the iteration does not process the fields')
                inn, C, n, gold = ghosts[fields]
                if not gold.eq(old):
                    raise Unsupported(f'the iteration processes another map {gold} / {old}')
                e.prove(f'{sm.name}: exactly the listed fields with a value become empty', end, spec_kw(old, new, lambda y: inn(n, y)))
                flags = lp.scalars(z3.BoolSort())
                if len(flags) != 1:
                    raise Unsupported('one flag expected')
                a, b = term(lp.value(pre, flags[0])), term(lp.value(end, flags[0]))
                e.prove(f'{sm.name}: the flag tells whether something was cleared', end, b == z3.Or(a, C(n)))
                for k in ('title', 'desc', 'other', 'kwVar'):
                    e.prove(f'{sm.name}: frame: {k}', end, same(pre.get(ref).f[k], end.get(ref).f[k]))

            lp = loops.foreach(e, s, node, it, env, mod, f'loop over {sm.name}', sm, accs, post, how)
            return True
        return False

    eng.loop_hooks.append(hook)
    r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [prj], {}))
    eng.no_raise('reset_custom_variables never raises', raised)
    eng.cover('reset_custom_variables returns', st1)
    kw = nov['kwVar']
    if 'PRJ_KWVAR' not in ghosts:
        raise Unsupported('project fields are not processed by the loop contract')
    inn, C, n, old = ghosts['PRJ_KWVAR']
    eng.prove('project: exactly the listed fields with a value become empty', st1, spec_kw(old, arr_term(eng, st1, st1.get(kw).x), lambda y: inn(n, y)))
    eng.prove('project: the fields processed are those of the project', st1, old == z3.Const('novel.kwVar', KW))
    for m in MAPS:
        u.shape(f'all {m} are visited exactly once', visited.count(m) >= 1)
    for k, v in nov.items():
        eng.prove(f'frame: novel.{k} is the same object', st1, same(st1.get(novel).f[k], v))
    # the result is the flag after the last loop; the flag is monotone by the obligations above
    u.fact('the result is a truth value', kind(r) == 'bool', repr(r)[:200], status=None if kind(r) == 'bool' else 'unknown')


def u_flag(u):
    """The returned value: false at the start, returned unchanged at the end (the steps are covered above)."""
    eng = u.engine()
    fn = eng.get_global('pywriter.yw.yw7_purge', 'reset_custom_variables')
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    # finite instance: one field, one element of each kind, everything symbolic
    for which in ['novel'] + list(MAPS):
        st = eng.start()

        def elt(nme):
            kw = st.alloc(Obj('dict', x=Store().put('Field', eng.opt(f'{nme}.Field')).put('Foreign', eng.opt(f'{nme}.Foreign'))))
            return Obj('inst', {'kwVar': kw}, base)

        no = elt('novel')
        for m in MAPS:
            no.f[m] = st.alloc(Obj('dict', x=Store().put('1', st.alloc(elt(m)))))
        novel = st.alloc(no)
        pf = {'novel': novel}
        for a in ['PRJ_KWVAR'] + list(MAPS.values()):
            pf[a] = ('Field',)
        prj = st.alloc(Obj('inst', pf, base))
        r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [prj], {}))
        names = ['novel'] + list(MAPS)
        eng.prove('instance with one element per kind: the result tells whether a listed field had a value', st1,
                  tobool(eng.truth(st1, r)) == z3.Or(*[z3.And(z3.Not(z3.Bool(f'{n}.Field?none')), z3.String(f'{n}.Field') != z3.StringVal('')) for n in names]))
        break


def u_languages(u):
    eng = u.engine()
    fn = eng.get_global('pywriter.yw.yw7_purge', 'remove_language_tags')
    cls = eng.get_global('pywriter.model.scene', 'Scene')
    st = eng.start()
    attrs = [k for k in ('title', 'desc', 'notes', 'tags', 'scType')]

    def make(name, key, s):
        f = {a: z3.Const(f'{name}.{a}', PYOBJ) for a in attrs}
        f['_sceneContent'] = eng.opt(f'{name}.text')
        f['wordCount'] = z3.Int(f'{name}.words')
        f['letterCount'] = z3.Int(f'{name}.letters')
        return Obj('inst', f, cls)

    sm = SymMap('scenes', make, eng)
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    novel = st.alloc(Obj('inst', {'scenes': st.alloc(Obj('dict', x=Store(sm)))}, base))
    count = []

    def hook(e, s, node, it, env, mod):
        mo = map_of(s, it)
        if mo:
            count.append(1)

            def post(lp, pre, end, key, ref):
                old, new = pre.get(ref).f['_sceneContent'], end.get(ref).f['_sceneContent']
                name = 'scenes[0]'
                none, t = z3.Bool(f'{name}.text?none'), z3.String(f'{name}.text')
                # identify the constants of this element
                g = [x for x in alts(old)]
                none = [h for h, x in g if x is None][0]
                t = [x for h, x in g if x is not None][0]
                new_t = re_sub_fn(TAG, '')(t)
                if not set(e.regexes) <= {regex_key(TAG)} | spec15:
                    e.exact = False
                e.prove('a scene without text keeps it unset', end, Implies(none, e.is_(end, new, None)))
                e.prove('the text loses its language tags and nothing else', end, Implies(Not(none), e.eq(end, new, new_t)))
                flags = lp.scalars(z3.BoolSort())
                if len(flags) != 1:
                    raise Unsupported('one flag expected')
                a, b = term(lp.value(pre, flags[0])), term(lp.value(end, flags[0]))
                e.prove('the flag tells whether a text was changed', end, b == z3.Or(a, z3.And(z3.Not(none), new_t != t)))
                for k in attrs:
                    e.prove(f'frame: {k}', end, same(pre.get(ref).f[k], end.get(ref).f[k]))

            loops.foreach(e, s, node, it, env, mod, 'loop over scenes', mo[0], lambda lp: None, post, mo[1])
            return True
        return False

    from proofs.c15 import LIMITS, MARKUP, NON_LETTERS
    spec15 = {regex_key(p) for p in (LIMITS, MARKUP, NON_LETTERS)}
    eng.loop_hooks.append(hook)
    r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [novel], {}))
    eng.no_raise('remove_language_tags never raises', raised)
    eng.cover('remove_language_tags returns', st1)
    u.shape('all scenes are visited', len(count) >= 1)


UNITS = [('reset_custom_variables', u_reset), ('result flag', u_flag), ('remove_language_tags', u_languages)]
