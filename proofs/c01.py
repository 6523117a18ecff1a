"""C01: what write() puts into the file, read() gives back."""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, xmlmodel
from proofs import yw7
from proofs.yw7 import *

LEVEL = 'proof'
TRUSTED = yw7.TRUSTED
ASSUMPTIONS = yw7.ASSUMPTIONS + ['scene start in an existing file: a specific date with its mode, or day, hour, and minute, not both (kept by write(): proved)']
WT = ['title', 'desc', 'image', 'aka']
BOOLS = z3.BoolSort()


def order(w, st, novel):
    eng = w.eng
    cont, coll, srt, cls = KINDS[w.kind]
    eng.prove(f'{w.kind}: the file has the elements of the project, in this order', st, w.container_ids(st) == w.D)
    if srt:
        eng.prove(f'{w.kind}: the elements are read in the same order', st, lib.list_term(eng, st, eng.narrow(st, st.get(novel).f[srt])) == w.D)


def u_world(u, kind_, mode, attrs, kwvar, tags=True, major=False):
    w = World(u, kind_, mode)
    eng = w.eng
    E = {a: eng.opt(f'{kind_}.{a}') for a in attrs}
    if tags:
        E['tags'] = w.tags(kind_)
    E['kwVar'] = w.kwvar(kind_)
    if major:
        b = z3.Bool('major?none')
        E['isMajor'] = make_union([(b, None), (z3.Not(b), z3.Bool('major'))])
    w.make_novel(E)
    kw0 = arr_term(eng, w.st, w.st.get(E['kwVar']).x)
    st = w.write()
    for a, v in E.items():
        eng.prove(f'{kind_}: frame: {a} in memory', st, same(st.get(w.obj).f[a], v))
    st, nv = w.read_back()
    order(w, st, nv)
    f = st.get(w.element_of(st, nv)).f
    for a in attrs:
        eng.prove(f'{kind_}: {a} is read as written', st, same_text(eng, st, f[a], E[a]))
    if tags:
        eng.prove(f'{kind_}: tags are read as written', st, seq_or_empty(eng, st, f['tags']) == seq_or_empty(eng, st, E['tags']))
    if major:
        eng.prove(f'{kind_}: major is read as written', st, truth_of(eng, st, f['isMajor']) == truth_of(eng, st, E['isMajor']))
    for k in kwvar:
        got = eng.store_get(st, st.get(f['kwVar']).x, k)
        eng.prove(f'{kind_}: custom field {k} is read as written', st, same_text(eng, st, got, kw_value(eng, kw0, k)))


def u_none(u, kind_, mode):
    """No elements of a kind."""
    w = World(u, kind_, mode, empty=True)
    w.make_novel({})
    w.write()
    st, nv = w.read_back()
    order(w, st, nv)


def u_project(u, mode):
    """The settings of the project."""
    w = World(u, 'project', mode)
    eng = w.eng
    stored = None
    if mode == 'stored':
        st, old = w.read_stored()
        stored = dict(st.get(old).f)
    w.make_novel({})
    g = w.given
    for a in ('wordCountStart', 'wordTarget'):
        for x in [y for _, y in alts(g[a]) if y is not None] + [y for v in ([stored[a]] if stored else []) for _, y in alts(v) if kind(y) == 'int']:
            number(eng, term(x))
    st = w.write()
    for a in PROJECT + ['wordCountStart', 'wordTarget']:
        eng.prove(f'project: frame: {a} in memory', st, same(st.get(w.novel).f[a], g[a]))
    st, nv = w.read_back()
    f = st.get(nv).f
    for a in PROJECT:
        eng.prove(f'project: {a} is read as written', st, same_text(eng, st, f[a], kept(g[a], stored[a] if stored else None)))
    for a in ('wordCountStart', 'wordTarget'):
        eng.prove(f'project: {a} is read as written', st, eng.eq(st, f[a], kept(g[a], stored[a] if stored else None)))


def boolean(name):
    b = z3.Bool(f'{name}?none')
    return make_union([(b, None), (z3.Not(b), z3.Bool(name))])


def one_of(name, *vals):
    """One of some constants."""
    n = z3.Int(f'{name}?')
    return Union([(n == i if i < len(vals) - 1 else Or(n < 0, n >= i), v) for i, v in enumerate(vals)])


def or_default(v, d):
    return make_union([(g, d if x is None else x) for g, x in alts(v)])


def chapter_fields(w):
    """An arbitrary chapter."""
    eng = w.eng
    E = {a: eng.opt(f'chapter.{a}') for a in ('title', 'desc')}
    E['chLevel'] = one_of('chapter.chLevel', None, 0, 1)
    E['chType'] = one_of('chapter.chType', None, 0, 1, 2, 3)
    for a in ('suppressChapterTitle', 'isTrash', 'suppressChapterBreak'):
        E[a] = boolean(f'chapter.{a}')
    E['kwVar'] = w.kwvar('chapter')
    t = z3.Const('chapter.srtScenes', SEQ)
    E['srtScenes'] = w.st.alloc(Obj('list', x=(run(t),)))
    w.facts[t.get_id()] = lambda x: w.others['scene'].dom(x)
    return E


def u_chapter(u, mode):
    w = World(u, 'chapter', mode)
    eng = w.eng
    stored = None
    if mode == 'stored':
        st, old = w.read_stored()
        stored = dict(st.get(w.element_of(st, old)).f)
    E = chapter_fields(w)
    t = lib.list_term(eng, w.st, E['srtScenes'])
    w.make_novel(E)
    st = w.write()
    for a, v in E.items():
        eng.prove(f'chapter: frame: {a} in memory', st, same(st.get(w.obj).f[a], v) if a != 'chType' else eng.eq(st, st.get(w.obj).f[a], or_default(v, 0)))
    st, nv = w.read_back()
    order(w, st, nv)
    f = st.get(w.element_of(st, nv)).f
    for a in ('title', 'desc'):
        eng.prove(f'chapter: {a} is read as written', st, same_text(eng, st, f[a], kept(E[a], stored[a] if stored else None)))
    eng.prove('chapter: type is read as written', st, eng.eq(st, f['chType'], or_default(E['chType'], 0)))
    eng.prove('chapter: level is read as written', st, eng.eq(st, f['chLevel'], or_default(kept(E['chLevel'], stored['chLevel'] if stored else None), 0)))
    at = Or(*[And(g, z3.PrefixOf(z3.StringVal('@'), term(x))) for g, x in alts(f['title']) if x is not None])
    eng.prove('chapter: suppressed title is read as written', st, truth_of(eng, st, f['suppressChapterTitle']) == tobool(Or(truth_of(eng, st, E['suppressChapterTitle']), at)))
    for a in ('isTrash', 'suppressChapterBreak'):
        eng.prove(f'chapter: {a} is read as written', st, truth_of(eng, st, f[a]) == truth_of(eng, st, E[a]))
    eng.prove('chapter: the scenes are read as written', st, lib.list_term(eng, st, eng.narrow(st, f['srtScenes'])) == t)


SC_TEXT = ['title', 'desc', 'notes', 'field1', 'field2', 'field3', 'field4', 'goal', 'conflict', 'outcome', 'lastsDays', 'lastsHours', 'lastsMinutes', 'image']
COLON, SPACE = z3.StringVal(':'), z3.StringVal(' ')


def scene_start(w):
    """An arbitrary date, time of day, and day: each not set, empty, or in its format (yyyy-mm-dd; hh:mm or hh:mm:ss; a number)."""
    eng = w.eng
    s = z3.StringVal
    D, H, M, S, Y = (z3.String(f'scene.{n}') for n in ('date', 'hour', 'minute', 'second', 'day'))
    short, full = z3.Concat(H, COLON, M), z3.Concat(H, COLON, M, COLON, S)
    midnight = s('00:00:00')
    COUNT = z3.Function('py_count', STR, STR, z3.IntSort())
    for x in (H, M, S):
        w.st.assume(z3.Length(x) == 2)
    w.st.assume(z3.Length(D) == 10, U_INTOK(Y), Y != EMPTY)
    ax = [U_SPLIT(short, COLON) == z3.Concat(z3.Unit(H), z3.Unit(M)), U_SPLIT(full, COLON) == z3.Concat(z3.Unit(H), z3.Unit(M), z3.Unit(S))]
    for t, n, f in ((short, 1, z3.Concat(short, s(':00'))), (full, 2, full), (midnight, 2, midnight)):
        v = z3.Concat(D, SPACE, t)
        ax += [COUNT(v, COLON) == n, w.ISO(v), w.DATE(v) == D, w.TIME(v) == f]
        if n == 1:
            v = z3.Concat(v, s(':00'))
            ax += [w.ISO(v), w.DATE(v) == D, w.TIME(v) == f]
    eng.axioms += ax
    i, j, k = z3.Int('date?'), z3.Int('time?'), z3.Int('day?')
    date = Union([(i == 0, None), (i == 1, ''), (Or(i < 0, i > 1), D)])
    time = Union([(j == 0, None), (j == 1, ''), (j == 2, short), (Or(j < 0, j > 2), full)])
    day = Union([(k == 0, None), (k == 1, ''), (Or(k < 0, k > 1), Y)])
    hasdate, notime, notime_, isshort = Or(i < 0, i > 1), j == 0, j == 1, j == 2
    anytime, anyday = j > 1, Or(k < 0, k > 1)
    w.st.assume(j >= 0, z3.Implies(tobool(hasdate), z3.Or(k == 0, k == 1)))

    def want(stored):
        """Scene start after reading: texts, '' stands for not set."""
        def sv(a, unless_date=False):
            if stored is None:
                return EMPTY
            n, t = null(eng, w.st, stored[a])
            t = z3.If(n, EMPTY, t)
            if unless_date:
                n, d = null(eng, w.st, stored['date'])
                t = z3.If(z3.Or(n, d == EMPTY), t, EMPTY)
            return t
        If = lambda c, a, b: z3.If(tobool(c), a, b)
        wt = If(isshort, z3.Concat(short, s(':00')), If(j > 2, full, midnight))
        unset = And(Not(hasdate), k == 0, j == 0)
        clear = And(Not(hasdate), Not(unset), Not(anytime), Not(anyday))
        hm = z3.Concat(short, s(':00'))
        return {'date': If(hasdate, D, If(unset, sv('date'), EMPTY)),
                'time': If(hasdate, wt, If(unset, sv('time'), If(clear, EMPTY, If(anytime, hm, If(notime_, EMPTY, sv('time', True)))))),
                'day': If(hasdate, EMPTY, If(unset, sv('day'), If(clear, EMPTY, If(anyday, Y, If(k == 1, EMPTY, sv('day', True))))))}

    return {'date': date, 'time': time, 'day': day}, want


def as_text(eng, st, v):
    n, t = null(eng, st, v)
    return z3.If(n, EMPTY, t)


def start_elements(has):
    """Invariant of the elements of a scene start: a specific date, with its mode, or an unspecific one."""
    d, m = has('SpecificDateTime'), has('SpecificDateMode')
    return z3.And(d == m, z3.Not(z3.And(d, z3.Or(*[has(t) for t in ('Day', 'Hour', 'Minute')]))))


def scene_fields(w):
    """An arbitrary scene."""
    eng = w.eng
    E = {a: eng.opt(f'scene.{a}') for a in SC_TEXT + ['_sceneContent', 'scnArcs']}
    start, want = scene_start(w)
    E.update(start)
    E['scType'] = one_of('scene.scType', None, 0, 1, 2, 3)
    E['status'], E['scnMode'] = eng.opt('scene.status', z3.IntSort()), eng.opt('scene.scnMode', z3.IntSort())
    for v in (E['status'], E['scnMode']):
        number(eng, [term(x) for _, x in alts(v) if x is not None][0])
    for a in ('wordCount', 'letterCount'):
        E[a] = z3.Int(f'scene.{a}')
    for a in ('doNotExport', 'appendToPrev', 'isReactionScene', 'isSubPlot'):
        E[a] = boolean(f'scene.{a}')
    E['tags'] = w.tags('scene')
    for a, k in (('characters', 'character'), ('locations', 'location'), ('items', 'item')):
        E[a] = w.id_list(f'scene.{a}', lambda x, k=k: z3.Contains(w.keys[k], z3.Unit(x)))
    E['kwVar'] = w.kwvar('scene')
    return E, want


def u_scene(u, mode):
    w = World(u, 'scene', mode)
    eng = w.eng
    stored = None
    if mode == 'stored':
        w.st.assume(start_elements(lambda t: z3.Bool(f'stored has {t}')))
        st, old = w.read_stored()
        stored = dict(st.get(w.element_of(st, old)).f)
        for _, n in alts(stored['status']):
            if kind(n) == 'int':
                number(eng, term(n))
    sv = lambda a: stored[a] if stored else None
    E, want = scene_fields(w)
    w.make_novel(E)
    kw0 = arr_term(eng, w.st, w.st.get(E['kwVar']).x)
    st = w.write()
    for a, v in E.items():
        eng.prove(f'scene: frame: {a} in memory', st, same(st.get(w.obj).f[a], v) if a != 'scType' else eng.eq(st, st.get(w.obj).f[a], or_default(v, 0)))
    x = w.written_element(st)
    eng.prove('scene: the file has a specific date or an unspecific one, not both', st, start_elements(lambda t: tobool(Not(Or(*[g for g, y in alts(kid(eng, st, x, t)) if y is UNBOUND])))))
    st, nv = w.read_back()
    order(w, st, nv)
    f = st.get(w.element_of(st, nv)).f
    for a in SC_TEXT + ['_sceneContent']:
        eng.prove(f'scene: {a} is read as written', st, same_text(eng, st, f[a], kept(E[a], sv(a))))
    eng.prove('scene: type is read as written', st, eng.eq(st, f['scType'], or_default(E['scType'], 0)))
    eng.prove('scene: status is read as written', st, eng.eq(st, f['status'], kept(E['status'], sv('status'))))
    eng.prove('scene: export flag is read as written', st, truth_of(eng, st, f['doNotExport']) == truth_of(eng, st, kept(E['doNotExport'], sv('doNotExport'))))
    for a in ('appendToPrev', 'isReactionScene', 'isSubPlot'):
        eng.prove(f'scene: {a} is read as written', st, truth_of(eng, st, f[a]) == truth_of(eng, st, E[a]))
    eng.prove('scene: tags are read as written', st, seq_or_empty(eng, st, f['tags']) == seq_or_empty(eng, st, kept(E['tags'], sv('tags'))))
    for a in ('characters', 'locations', 'items'):
        eng.prove(f'scene: {a} are read as written', st, seq_or_empty(eng, st, f[a]) == seq_or_empty(eng, st, E[a]))
    wanted = want(stored)
    i, j, k = z3.Int('date?'), z3.Int('time?'), z3.Int('day?')
    cases = [('date', z3.Or(i < 0, i > 1))] + [(f'no date, time of day {n}', z3.And(i >= 0, i <= 1, c)) for n, c in (('not set', j == 0), ('empty', j == 1), ('hh:mm', j == 2), ('hh:mm:ss', j > 2))]
    for name, c in cases:
        s = st.fork(c)
        for a in ('date', 'time', 'day'):
            eng.prove(f'scene: {a} is read as written ({name})', s, as_text(eng, s, f[a]) == wanted[a])
    eng.prove('scene: arcs are read as written', st, same_text(eng, st, f['scnArcs'], kept(E['scnArcs'], kw_value(eng, kw0, 'Field_SceneArcs'))))
    old = []
    for g, x in alts(kw_value(eng, kw0, 'Field_SceneMode')):
        old += [(g, None)] if x is None else [(And(g, U_INTOK(x), x != EMPTY), U_INT(x)), (And(g, Not(And(U_INTOK(x), x != EMPTY))), None)]
    mode_ = []
    for g, x in alts(E['scnMode']):
        mode_ += [(And(g, h), y) for h, y in old] if x is None else [(And(g, x == 0), None), (And(g, x != 0), x)]
    eng.prove('scene: mode of discourse is read as written', st, eng.eq(st, f['scnMode'], make_union(mode_)))


def number(eng, n):
    """int(str(n)) == n."""
    t = lib.to_str(eng, None, n)
    eng.axioms += [U_INTOK(t), U_INT(t) == n, t != EMPTY]


def kept(given, stored):
    """What is not set stays as stored in the file."""
    return make_union([(And(g, h), y) for g, x in alts(given) for h, y in (alts(stored) if x is None else [(True, x)])])


PROJECT = ['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4']
MODES = ('new file', 'stored', 'added')
UNITS = []
for kind_, attrs, kw, opts in (('location', WT, ['Field_Link'], {}), ('item', WT, ['Field_Link'], {}),
                               ('character', WT + ['notes', 'bio', 'goals', 'fullName'], ['Field_Link', 'Field_BirthDate', 'Field_DeathDate'], {'major': True}),
                               ('note', ['title', 'desc'], [], {'tags': False})):
    for mode in MODES + (('no container',) if kind_ == 'note' else ()):
        UNITS.append((f'{kind_} ({mode})', lambda u, k=kind_, m=mode, a=attrs, f=kw, o=opts: u_world(u, k, m, a, f, **o)))
    for mode in ('new file', 'added'):
        UNITS.append((f'no {kind_} ({mode})', lambda u, k=kind_, m=mode: u_none(u, k, m)))
for mode in ('new file', 'stored'):
    UNITS.append((f'project ({mode})', lambda u, m=mode: u_project(u, m)))
for mode in MODES:
    UNITS.append((f'chapter ({mode})', lambda u, m=mode: u_chapter(u, m)))
for mode in ('new file', 'added'):
    UNITS.append((f'no chapter ({mode})', lambda u, m=mode: u_none(u, 'chapter', m)))
for mode in MODES:
    UNITS.append((f'scene ({mode})', lambda u, m=mode: u_scene(u, m)))
for mode in ('new file', 'added'):
    UNITS.append((f'no scene ({mode})', lambda u, m=mode: u_none(u, 'scene', m)))
