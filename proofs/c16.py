"""C16: languages of the text (loop invariants over a fold of the tags) and the document locale."""
import re
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib, loops
from pyvc.lib import STR, SEQ
from pyvc.models import SymMap, map_of, seq_list, re_found_fn, re_group_fn, re_end_fn, regex_key

LEVEL = 'proof'
TRUSTED = ['regular expressions: search, group and end of a match of the language tag are functions of the text; findall is the sequence of the groups of the successive matches',
           'locale.getlocale and locale.getdefaultlocale return a name of the form ll_CC, another name, or None', 'iteration over a dictionary visits each key once']
ASSUMPTIONS = ['scene texts are strings or None; the language and country codes are None, strings or numbers', 'the language tag pattern is the one of the specification; a different pattern is left to the bounded part']
TAG = re.compile(r'\[lang=(.*?)\]')
LANGS = z3.Function(f're_findall<{regex_key(TAG)}>', STR, SEQ)
EMPTY = z3.StringVal('')
FOLD = z3.Function('fold_languages', SEQ, SEQ, SEQ)  # (list so far, new codes) -> list


def unfold(t):
    """Definition of LANGS at t: the group of the first match, then the codes of the rest."""
    rest = z3.SubString(t, re_end_fn(TAG)(t), z3.Length(t) - re_end_fn(TAG)(t))
    return LANGS(t) == z3.If(re_found_fn_(t), z3.Concat(z3.Unit(re_group_fn(TAG, 1)(t)), LANGS(rest)), z3.Empty(SEQ))


def re_found_fn_(t):
    return z3.Function(f're_search<{regex_key(TAG)}>', STR, z3.BoolSort())(t)


def step(acc, x):
    return z3.If(z3.Contains(acc, z3.Unit(x)), acc, z3.Concat(acc, z3.Unit(x)))


def match_refs(s, v):
    return [x for _, x in alts(v) if isinstance(x, Ref) and s.get(x).kind == 'match']


def while_rule(eng, s, node, env, mod, text0):
    """Loop over the matches: codes yielded so far, followed by those of the remaining text, are those of the text."""

    def custom(x, oid, k, old, new):
        ms = [r for v in (old, new) if v is not UNBOUND for r in match_refs(x, v)] if k != '.x' else []
        if ms:
            p = x.get(ms[0]).f['pattern']
            if any(x.get(r).f['pattern'] is not p for r in ms):
                raise Unsupported('matches of several patterns')
            t = eng.fresh('searched', STR)
            m = x.alloc(Obj('match', {'text': t, 'pattern': p, 'how': 'search'}))
            LAZY[m.oid] = x.get(m)
            f = z3.Function(f're_search<{regex_key(p)}>', STR, z3.BoolSort())(t)
            x.assume(z3.Implies(f, z3.And(re_end_fn(p)(t) > 0, re_end_fn(p)(t) <= z3.Length(t))))
            return make_union([(f, m), (z3.Not(f), None)])
        return None

    def cands(lp):
        out = []
        ls = lp.lists()
        strs = lp.scalars(STR)
        for a in ls:
            for v in strs:
                out.append((f'{v[1]}: the codes so far and those of the rest are those of the text',
                            lambda x, a=a, v=v: z3.Concat(loops.seq_of(eng, x, a), LANGS(term(lp.value(x, v)))) == z3.Concat(loops.seq_of(eng, lp.st, a), LANGS(text0))))
        for w in lp.vars:
            if w[1] != '.x' and any(match_refs(q, lp.value(q, w)) for q in (lp.st,)):
                for v in strs:
                    out.append((f'{w[1]} is the match of {v[1]}', lambda x, w=w, v=v: z3.And(*[z3.Implies(tobool(g), x.get(r).f['text'] == term(lp.value(x, v)))
                                                                                     for g, r in alts(lp.value(x, w)) if isinstance(r, Ref)],
                                                                                 *[z3.Implies(tobool(g), z3.Not(re_found_fn_(term(lp.value(x, v))))) for g, r in alts(lp.value(x, w)) if r is None])))
                    out.append((f'codes of {v[1]} by definition', lambda x, v=v: unfold(term(lp.value(x, v)))))
        return out

    # the definition of LANGS is assumed for each searched text
    loops.while_loop(eng, s, node, env, mod, 'language tags of a text', cands, havoc=custom)
    return True


def u_languages(u):
    eng = u.engine()
    cls = eng.get_global('pywriter.model.novel', 'Novel')
    scn = eng.get_global('pywriter.model.scene', 'Scene')
    f = eng.get_global('pywriter.model.novel', 'Novel', 'get_languages')
    M = eng.libs['%methods']
    base_search = M[(re.Pattern, 'search')]

    def search(e, st, p, a, kw):
        r = base_search(e, st, p, a, kw)
        for g, t in alts(a[0]):
            if kind(t) == 'str' and regex_key(p) == regex_key(TAG):
                st.assume(z3.Implies(tobool(g), unfold(term(t))))
        return r

    M[(re.Pattern, 'search')] = search
    st = eng.start()
    attrs = ['title', 'desc', 'tags', 'scType']

    def make(name, key, s):
        fl = {a: z3.Const(f'{name}.{a}', PYOBJ) for a in attrs}
        fl['_sceneContent'] = eng.opt(f'{name}.text')
        return Obj('inst', fl, scn)

    sm = SymMap('scenes', make, eng)
    fields = {'scenes': st.alloc(Obj('dict', x=Store(sm))), 'languages': eng.opt('old_languages')}
    for a in ('title', 'languageCode', 'countryCode', 'kwVar', 'srtChapters', 'chapters'):
        fields[a] = z3.Const(f'novel.{a}', PYOBJ)
    novel = st.alloc(Obj('inst', dict(fields), cls))
    visited = []
    texts = []

    def loop(e, s, node, it, env, mod):
        mo = map_of(s, it)
        if mo:
            visited.append(mo[0].name)
            cur = s.get(novel).f['languages']
            if isinstance(cur, Ref):
                e.prove('the list starts empty', s, lib.list_term(e, s, cur) == z3.Empty(SEQ))
            else:
                raise Unsupported('languages is not a list when the scenes are scanned')

            def post(lp, pre, end, key, ref):
                old = pre.get(ref).f['_sceneContent']
                a, b = pre.get(novel).f['languages'], end.get(novel).f['languages']
                A, B = lib.list_term(e, pre, a), lib.list_term(e, end, b)
                for g, t in alts(old):
                    if t is None:
                        e.prove('a scene without text adds nothing', end, Implies(g, B == A))
                    else:
                        check_patterns()
                        end.assume(unfold(EMPTY), z3.Not(re_found_fn_(EMPTY)), FOLD(A, z3.Empty(SEQ)) == A)
                        e.prove('a scene adds exactly the new codes of its tags, in order', end, Implies(g, B == FOLD(A, LANGS(t))))
                for k in attrs + ['_sceneContent']:
                    e.prove(f'frame: scene {k}', end, same(pre.get(ref).f[k], end.get(ref).f[k]))

            def accs(lp):
                pass

            loops.foreach(e, s, node, it, env, mod, 'loop over scenes', mo[0], accs, post, mo[1])
            return True
        t = seq_list(s, it)
        if t is None and isinstance(it, Ref) and len(s.get(it).x) == 2:
            return False
        if t is not None:
            D = z3.Function(f'D!{e.fresh_n}', z3.IntSort(), SEQ)
            acc0 = {}

            def inv(lp, x, k):
                ls = lp.lists()
                if len(ls) != 1:
                    raise Unsupported('loop does not build one list')
                a0 = loops.seq_of(e, lp.st, ls[0])
                x.assume(D(0) == a0, FOLD(a0, t) == D(z3.Length(t)))
                acc0['a'] = a0
                return loops.seq_of(e, x, ls[0]) == D(k)

            def elem(x, k):
                x.assume(D(k + 1) == step(D(k), t[k]))
                return t[k]

            loops.for_loop(e, s, node, env, mod, 'codes of a scene', elem, inv, length=z3.Length(t))
            s.assume(FOLD(acc0['a'], t) == D(z3.Length(t)))
            return True
        return False

    def check_patterns():
        if not set(eng.regexes) <= {regex_key(TAG)}:
            eng.exact = False

    def wh(e, s, node, env, mod):
        return while_rule(e, s, node, env, mod, text_arg(s, env))

    def text_arg(s, env):
        for n, v in s.get(env).f.items():
            if n.startswith('%') or v is UNBOUND or v is HAVOC:
                continue
            v = eng.narrow(s, v)
            if kind(v) == 'str' and z3.is_expr(v):
                s.edit(env).f[n] = v
                return v
        raise Unsupported('no text')

    eng.loop_hooks.append(loop)
    eng.while_hooks.append(wh)
    r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [novel], {}))
    eng.no_raise('get_languages never raises', raised)
    eng.cover('get_languages returns', st1)
    u.fact('all scenes are visited', visited.count('scenes') >= 1, status=None if visited else 'unknown')
    for k, v in fields.items():
        if k != 'languages':
            eng.prove(f'frame: novel.{k}', st1, same(st1.get(novel).f[k], v))


def u_lemmas(u):
    """Each code once, in order of first occurrence, and nothing else."""
    acc, t = z3.Const('acc', SEQ), z3.Const('t', SEQ)
    x, y = z3.String('x'), z3.String('y')
    i, j = z3.Ints('i j')
    n = z3.Length(acc)
    nxt = step(acc, x)

    def differ(s, a, b):
        return z3.Implies(z3.And(0 <= a, a < b, b < z3.Length(s)), s[a] != s[b])

    u.lemma('the codes before the new one keep their places (step)', [0 <= i, i < n], nxt[i] == acc[i])
    u.lemma('a new code goes to the end (step)', [z3.Length(nxt) != n], z3.And(z3.Length(nxt) == n + 1, nxt[n] == x))
    u.lemma('a code at a place is a member', [0 <= i, i < n], z3.Contains(acc, z3.Unit(acc[i])))
    u.lemma('each code occurs once (step)', [differ(acc, i, j), z3.Implies(z3.And(0 <= i, i < n), z3.And(nxt[i] == acc[i], z3.Contains(acc, z3.Unit(acc[i])))),
            z3.Implies(z3.And(0 <= j, j < n), nxt[j] == acc[j]), z3.Or(z3.Length(nxt) == n, z3.And(z3.Length(nxt) == n + 1, nxt[n] == x, z3.Not(z3.Contains(acc, z3.Unit(x)))))],
            differ(nxt, i, j))
    u.lemma('nothing but codes of tags enters the list (step)', [z3.Contains(nxt, z3.Unit(y)), z3.Not(z3.Contains(acc, z3.Unit(y)))], y == x)
    u.lemma('codes are never dropped again (step)', [], z3.PrefixOf(acc, nxt))
    u.lemma('each code of a tag is in the list (step)', [], z3.Contains(nxt, z3.Unit(x)))


def u_locale(u):
    cases = {'not set': None, 'a text': 'str', 'a number': 'int'}
    for nl, kl in cases.items():
        for nc, kc in cases.items():
            eng = u.engine()
            cls = eng.get_global('pywriter.model.novel', 'Novel')
            f = eng.get_global('pywriter.model.novel', 'Novel', 'check_locale')
            sl, sc = z3.String('sysLng'), z3.String('sysCtr')
            first, second = z3.Int('getlocale_kind'), z3.Int('getdefaultlocale_kind')  # 0: ll_CC, 1: other name, 2: None
            other = z3.String('other_name')
            eng.axioms += [z3.Not(z3.Contains(sl, z3.StringVal('_'))), z3.Not(z3.Contains(sc, z3.StringVal('_'))), z3.Not(z3.Contains(other, z3.StringVal('_'))),
                           z3.Length(sl) == 2, z3.Length(sc) == 2, 0 <= first, first <= 2, 0 <= second, second <= 2]

            def loc(which):

                def g(e, s, a, k):
                    full = z3.Concat(sl, z3.StringVal('_'), sc)
                    v = make_union([(which == 0, full), (which == 1, other), (which == 2, None)])
                    return (v, eng.opt('encoding'))

                return g

            def split(e, s, o, a, k):
                if len(a) != 1 or a[0] != '_' or k:
                    raise Unsupported('split of the locale')
                if z3.is_expr(o) and z3.is_app_of(o, z3.Z3_OP_ITE):
                    o = make_parts(o)
                    return make_union([(g, split(e, s, t, a, k)) for g, t in o])
                if same(o, z3.Concat(sl, z3.StringVal('_'), sc)):
                    return s.alloc(Obj('list', x=(item(sl), item(sc))))
                if same(o, other):
                    return s.alloc(Obj('list', x=(item(other),)))
                raise Unsupported('split of another text')

            def make_parts(t):
                c, a, b = t.children()
                return [(c, a), (z3.Not(c), b)]

            eng.libs['locale'] = {'getlocale': Native('getlocale', loc(first)), 'getdefaultlocale': Native('getdefaultlocale', loc(second))}
            eng.libs['%methods'][('str', 'split')] = split
            st = eng.start()
            lang = None if kl is None else z3.String('lang') if kl == 'str' else z3.Int('lang')
            ctr = None if kc is None else z3.String('ctr') if kc == 'str' else z3.Int('ctr')
            fields = {'languageCode': lang, 'countryCode': ctr}
            for a in ('title', 'languages', 'scenes', 'kwVar', 'authorName'):
                fields[a] = z3.Const(f'novel.{a}', PYOBJ)
            novel = st.alloc(Obj('inst', dict(fields), cls))
            r, st1, raised = eng.run(st, lambda s: eng.call(s, f, [novel], {}))
            nm = f'language {nl}, country {nc}'
            eng.no_raise(f'{nm}: never raises', raised)
            eng.cover(f'{nm}: returns', st1)
            L, C = st1.get(novel).f['languageCode'], st1.get(novel).f['countryCode']
            empty = z3.BoolVal(True) if kl is None else lang == EMPTY if kl == 'str' else lang == 0
            ok = z3.And(z3.Length(lang) == 2, z3.Length(ctr) == 2) if kl == 'str' and kc == 'str' else z3.BoolVal(False)

            def is_(a, b):
                return z3.And(tobool(eng.eq(st1, L, a)), tobool(eng.eq(st1, C, b)))

            hassys = z3.Or(first == 0, second == 0)
            eng.prove(f'{nm}: an empty locale becomes that of the system', st1, Implies(And(empty, hassys), is_(sl, sc)))
            eng.prove(f'{nm}: without system locale it becomes "no language"', st1, Implies(And(empty, z3.Not(hassys)), is_('zxx', 'none')))
            if kl == kc == 'str':
                eng.prove(f'{nm}: a valid locale is kept', st1, Implies(And(Not(empty), ok), is_(lang, ctr)))
            eng.prove(f'{nm}: an invalid locale becomes "no language"', st1, Implies(And(Not(empty), Not(ok)), is_('zxx', 'none')))
            for k, v in fields.items():
                if k not in ('languageCode', 'countryCode'):
                    eng.prove(f'{nm}: frame: {k}', st1, same(st1.get(novel).f[k], v))


# -------------------------------------------------------------------- project variables after writing
def u_vars(u, mode, world=None, new_id=None):
    """After writing a project that has a language or a locale: one variable for the language, one for the country, one pair for each language used."""
    from proofs import yw7
    w = (world or yw7.World)(u, 'vars', mode)
    eng = w.eng
    eng.exact = False  # the invariants of other code may be out of reach
    w.make_novel({})
    lc, cc = z3.String('language of the project'), z3.String('country of the project')
    f0 = dict(w.st.get(w.novel).f)
    calls = w.st.alloc(Obj('ghost', {'locale': False}))

    def check(e, st, a, kw):  # contract: see check_locale
        o = st.edit(w.novel)
        o.f['languageCode'], o.f['countryCode'] = lc, cc
        st.assume(lc != EMPTY, cc != EMPTY)
        st.edit(calls).f['locale'] = True

    def fresh_id(e, st, a, kw):  # contract: see C08
        t = lib.list_term(e, st, a[0])
        r = e.fresh('new ID')
        st.assume(z3.Not(z3.Contains(t, z3.Unit(r))), r != EMPTY)
        return r

    eng.contracts['pywriter.model.novel.Novel.check_locale'] = check
    eng.contracts['pywriter.model.id_generator.create_id'] = new_id or fresh_id
    st = w.write()
    needed = Or(w.langs != z3.Empty(yw7.SEQ), *[And(g, x != EMPTY) for a in ('languageCode', 'countryCode') for g, x in alts(f0[a]) if x is not None])
    eng.prove('the locale is checked if there is a language or a locale', st, z3.Implies(tobool(needed), tobool(st.get(calls).f['locale'])))
    c = yw7.kid(eng, st, w.root_now(st), 'PROJECTVARS')
    s = st.fork(needed)
    c = eng.narrow(s, c)
    eng.prove('the file has project variables', s, isinstance(c, Ref))
    V, I = w.varkeys, w.varids
    if mode != 'stored':
        V, I = z3.Empty(yw7.SEQ), z3.Empty(yw7.SEQ)
    items = s.get(yw7.the_list(s, c)).x
    ids = dict(w.var_ids)
    T = {}
    if mode == 'stored':
        eng.prove('the variables of the file come first', s, items[0][0] == 's' and items[0][2].eq(V))
    for n, (k, g, v) in enumerate(items):
        if k != 'i':
            continue
        q = s.fork(g)
        t0, i0 = w.var_sums(q, items[:n], ids)
        w.new_var(f'new variable {n}', q, v, t0, i0)
        t, d = term(w.var_text(q, v, 'Title')), term(w.var_text(q, v, 'Desc'))
        eng.prove(f'new variable {n} is the language or the country of the project', q, z3.Or(z3.And(t == z3.StringVal('Language'), d == lc), z3.And(t == z3.StringVal('Country'), d == cc)))
    T, I = w.var_sums(s, items, ids)
    for n in ('Language', 'Country'):
        eng.prove(f'there is a variable {n}', s, z3.Contains(T, z3.Unit(z3.StringVal(n))))
    eng.prove('each language used has its pair of variables', s, z3.Implies(z3.Contains(w.langs, z3.Unit(w.any_lang)), z3.And(*[z3.Contains(T, z3.Unit(t)) for t in w.tags_of(w.any_lang)])))
    if mode == 'stored':
        s = st.fork(Not(needed))
        c = eng.narrow(s, yw7.kid(eng, s, w.root_now(s), 'PROJECTVARS'))
        x = s.get(yw7.the_list(s, c)).x if isinstance(c, Ref) else ()
        ok = len(x) > 0 and x[0][0] == 's' and x[0][2].eq(V)
        eng.prove('without language and locale the variables stay as they are', s, And(ok, *[Not(g) for _, g, _ in x[1:]]))



UNITS = [(f'project variables ({mode})', lambda u, m=mode: u_vars(u, m)) for mode in ('stored', 'no container', 'new file')]
UNITS += [('check_locale', u_locale), ('get_languages', u_languages), ('lemmas', u_lemmas)]
