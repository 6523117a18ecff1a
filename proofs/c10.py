"""C10: FileExport._get_text for an arbitrary project and arbitrary templates; the loops have no bound.

The specification is a function by recursion over the lists of chapters and scenes (class Spec). The text of the export is shown to be
the text of the specification, with Template.safe_substitute as an uninterpreted function of the template and the mapping. The mappings
are contracts here; they are verified on their own for each document class.

If the code cannot be shown to agree, projects with up to two chapters of two scenes are executed without invariants: only a
counterexample found there is reported.
"""
import re
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, accum
from pyvc.lib import STR, SEQ
from pyvc.accum import Fold, E, NIL, INT, BOOL, TEXT, NONE, STRING, app, cat

LEVEL = 'proof'
TRUSTED = ['string.Template.safe_substitute is a function of the template and the mapping; an empty template gives an empty text']
ASSUMPTIONS = ['the IDs in the sorted lists exist', 'a filter is a function of the ID']
COLLECTIONS = {'srtCharacters': ('characters', '_characterTemplate', '_characterFilter', '_characterSectionHeading', '_get_characterMapping'),
               'srtLocations': ('locations', '_locationTemplate', '_locationFilter', '_locationSectionHeading', '_get_locationMapping'),
               'srtItems': ('items', '_itemTemplate', '_itemFilter', '_itemSectionHeading', '_get_itemMapping'),
               'srtPrjNotes': ('projectNotes', '_projectNoteTemplate', None, None, '_get_prjNoteMapping')}
FILTERS = {'_sceneFilter': 'scenes', '_chapterFilter': 'chapters', '_characterFilter': 'characters', '_locationFilter': 'locations', '_itemFilter': 'items'}
HTML, TEX = z3.StringVal('<HTML>'), z3.StringVal('<TEX>')
OPT = {'scenes': {'scType': INT, 'doNotExport': BOOL, 'appendToPrev': BOOL, 'sceneContent': STR}, 'chapters': {'chLevel': INT, 'chType': INT}}
SUB_C = z3.Function('chapter_text', STR, STR, INT, STR)  # template, ID, number
SUB_S = z3.Function('scene_text', STR, STR, INT, INT, INT, STR)  # template, ID, number, words, letters
SUB_E = z3.Function('element_text', STR, STR, STR, STR)  # collection, template, ID
SUB_H = z3.Function('header_text', STR, STR)


def attr(coll, a, x):
    return z3.Function(f'{coll}.{a}?none', STR, BOOL)(x), z3.Function(f'{coll}.{a}', STR, OPT[coll][a])(x)


def equals(coll, a, x, v):
    n, t = attr(coll, a, x)
    return z3.And(z3.Not(n), t == v)


def truth(coll, a, x):
    n, t = attr(coll, a, x)
    return z3.And(z3.Not(n), t)


def count(coll, a, x):
    return z3.Function(f'{coll}.{a}', STR, INT)(x)


def scenes_of(c):
    return z3.Function('chapters.srtScenes', STR, SEQ)(c)


def accepted(coll, x):
    return z3.Function(f'{coll} accepted', STR, BOOL)(x)


class Spec:

    def __init__(self, eng, T, lists=None):
        """T: template name -> term; lists: chapter -> list of scenes, if the lists are unrolled."""
        self.eng, self.T = eng, T
        self.scenes = lists or scenes_of
        S = STR
        self.nexp = Fold(eng, 'not_exported', [], INT, z3.IntVal(0), lambda a, r, x, P: r + z3.If(truth('scenes', 'doNotExport', x), z3.IntVal(1), z3.IntVal(0)),
                         lambda a, P: [0 <= self.nexp.f(P), self.nexp.f(P) <= z3.Length(P), self.all_nexp(P) == (self.nexp.f(P) == z3.Length(P))])
        self.length = Fold(eng, 'number_of_scenes', [], INT, z3.IntVal(0), lambda a, r, x, P: r + 1, lambda a, P: [self.length.f(P) == z3.Length(P)])
        inc = lambda v: lambda a, r, x, P: r + z3.If(self.regular(a[0], x), v(x), z3.IntVal(0))
        self.number = Fold(eng, 'regular_scenes', [S], INT, z3.IntVal(0), inc(lambda x: z3.IntVal(1)))
        self.words = Fold(eng, 'words', [S], INT, z3.IntVal(0), inc(lambda x: count('scenes', 'wordCount', x)))
        self.letters = Fold(eng, 'letters', [S], INT, z3.IntVal(0), inc(lambda x: count('scenes', 'letterCount', x)))
        self.none = Fold(eng, 'no_scene_yet', [S], BOOL, z3.BoolVal(True), lambda a, r, x, P: z3.And(r, z3.Not(self.placed(a[0], x))))
        self.all_nexp = Fold(eng, 'all_not_exported', [], BOOL, z3.BoolVal(True), lambda a, r, x, P: z3.And(r, truth('scenes', 'doNotExport', x)),
                             lambda a, P: [self.all_nexp.f(P) == (self.nexp(P) == z3.Length(P))])
        self.text = Fold(eng, 'scenes_text', [S, INT, INT, INT], TEXT, NONE, self.scene_step)
        zero = z3.IntVal(0)
        self.ch_number = Fold(eng, 'regular_chapters', [], INT, zero, lambda a, r, c, P: r + z3.If(self.counted(c), z3.IntVal(1), zero))
        per = lambda f: lambda a, r, c, P: r + z3.If(accepted('chapters', c), f(c, self.scenes(c)), zero)
        self.t_number = Fold(eng, 'number_total', [], INT, zero, per(self.number))
        self.t_words = Fold(eng, 'words_total', [], INT, zero, per(self.words))
        self.t_letters = Fold(eng, 'letters_total', [], INT, zero, per(self.letters))
        self.chapters = Fold(eng, 'chapters_text', [], TEXT, NONE, self.chapter_step)
        self.elements = {}
        for l, (coll, tpl, flt, _, _) in COLLECTIONS.items():
            self.elements[l] = Fold(eng, f'{coll}_text', [], TEXT, NONE, lambda a, r, x, P, coll=coll, tpl=tpl, flt=flt:
                                    app(eng, r, self.sub_e(coll, T[tpl], x), accepted(coll, x) if flt else True))

    # substitution; nothing from an empty template
    def sub_c(self, t, *a):
        return self.nil(t, SUB_C(t, *a))

    def sub_s(self, t, *a):
        return self.nil(t, SUB_S(t, *a))

    def sub_e(self, coll, t, x):
        return self.nil(t, SUB_E(z3.StringVal(coll), t, x))

    def nil(self, t, r):
        accum.ax(self.eng, r, z3.Implies(t == NIL, r == NIL))
        return r

    # scenes
    def not_exported(self, c):
        """All scenes of the chapter are marked."""
        P = self.scenes(c)
        return z3.And(self.length(P) > 0, self.nexp(P) == self.length(P))

    def kind(self, c, x):
        T = self.T
        todo, notes = equals('scenes', 'scType', x, 2), equals('scenes', 'scType', x, 1)
        unused = z3.Or(equals('scenes', 'scType', x, 3), equals('chapters', 'chType', c, 3))
        nexp = z3.Or(truth('scenes', 'doNotExport', x), self.not_exported(c))
        n, t = attr('scenes', 'sceneContent', x)
        raw = z3.And(z3.Not(n), z3.Or(z3.PrefixOf(HTML, t), z3.PrefixOf(TEX, t)))
        return todo, notes, unused, nexp, raw

    def regular(self, c, x):
        return z3.And(accepted('scenes', x), z3.Not(z3.Or(*self.kind(c, x))))

    def template(self, c, x):
        """The template of the kind; none of a regular scene."""
        todo, notes, unused, nexp, raw = self.kind(c, x)
        T = self.T
        return z3.If(todo, T['_todoSceneTemplate'], z3.If(notes, T['_notesSceneTemplate'], z3.If(unused, T['_unusedSceneTemplate'], z3.If(nexp, T['_notExportedSceneTemplate'], NIL))))

    def placed(self, c, x):
        return z3.And(accepted('scenes', x), z3.Or(self.regular(c, x), self.template(c, x) != NIL))

    def scene_step(self, a, r, x, P):
        c, n, w, l = a
        T = self.T
        first = self.none(c, P)
        app_ = truth('scenes', 'appendToPrev', x)
        reg = self.regular(c, x)
        num = z3.If(reg, n + self.number(c, P) + 1, z3.IntVal(0))
        words = w + self.words(c, P) + z3.If(reg, count('scenes', 'wordCount', x), z3.IntVal(0))
        letters = l + self.letters(c, P) + z3.If(reg, count('scenes', 'letterCount', x), z3.IntVal(0))
        tpl = z3.If(z3.And(first, T['_firstSceneTemplate'] != NIL), T['_firstSceneTemplate'],
                    z3.If(reg, z3.If(z3.And(z3.Not(first), app_, T['_appendedSceneTemplate'] != NIL), T['_appendedSceneTemplate'], T['_sceneTemplate']), self.template(c, x)))
        return z3.If(self.placed(c, x), app(self.eng, app(self.eng, r, T['_sceneDivider'], z3.Not(z3.Or(first, app_))), self.sub_s(tpl, x, num, words, letters)), r)

    # chapters
    def ch_kind(self, c):
        todo, notes, unused = (equals('chapters', 'chType', c, v) for v in (2, 1, 3))
        return todo, z3.And(z3.Not(todo), notes), z3.And(z3.Not(z3.Or(todo, notes)), unused), z3.And(z3.Not(z3.Or(todo, notes, unused)), self.not_exported(c))

    def as_part(self, c):
        return z3.And(equals('chapters', 'chLevel', c, 1), self.T['_partTemplate'] != NIL)

    def counted(self, c):
        return z3.And(accepted('chapters', c), z3.Not(z3.Or(*self.ch_kind(c))), z3.Not(self.as_part(c)))

    def chapter_step(self, a, r, c, P):
        T = self.T
        todo, notes, unused, nexp = self.ch_kind(c)
        part = equals('chapters', 'chLevel', c, 1)
        num = z3.If(self.counted(c), self.ch_number(P) + 1, z3.IntVal(0))
        tpl = z3.If(todo, z3.If(part, T['_todoPartTemplate'], T['_todoChapterTemplate']), z3.If(notes, z3.If(part, T['_notesPartTemplate'], T['_notesChapterTemplate']),
                    z3.If(unused, T['_unusedChapterTemplate'], z3.If(nexp, T['_notExportedChapterTemplate'], z3.If(self.as_part(c), T['_partTemplate'], T['_chapterTemplate'])))))
        end = z3.If(todo, T['_todoChapterEndTemplate'], z3.If(notes, T['_notesChapterEndTemplate'], z3.If(unused, T['_unusedChapterEndTemplate'],
                    z3.If(nexp, T['_notExportedChapterEndTemplate'], T['_chapterEndTemplate']))))
        e = self.eng
        txt = cat(e, app(e, r, self.sub_c(tpl, c, num)), self.text(c, self.t_number(P), self.t_words(P), self.t_letters(P), self.scenes(c)))
        return z3.If(accepted('chapters', c), app(e, txt, self.sub_c(end, c, num)), r)

    def all(self, L):
        """The text of the document."""
        T, e = self.T, self.eng
        r = app(e, NONE, self.nil(T['_fileHeader'], SUB_H(T['_fileHeader'])))
        r = cat(e, r, self.chapters(L['srtChapters']))
        for l, (coll, _, _, heading, _) in COLLECTIONS.items():
            if heading:
                r = app(e, r, T[heading])
            r = cat(e, r, self.elements[l](L[l]))
        return STRING(app(e, r, T['_fileFooter']))


def attributes(mod):
    """Names of the attributes that a model class sets."""
    from pyvc.engine import SRC
    s = open(f'{SRC}/pywriter/model/{mod}.py', encoding='utf-8').read()
    return [a for a in re.findall(r'self\.(\w+)\s*=[^=]', s)]


def setup(u, size=None):
    """An export with arbitrary templates and filters of an arbitrary project; size: numbers of the scenes of the chapters."""
    eng = u.engine(timeout=None if size is None else 20000)
    M = eng.libs['%methods']
    accum.install(eng)
    eng.abstract = True
    host = {'eng': eng}
    cls = eng_lib(eng, host)
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    st = eng.start()
    spec_lists = {}
    f = {}
    T = {}
    for k, v in st.get(cls).f.items():
        if isinstance(v, str) and re.fullmatch(r'_\w*(Template|Heading|Divider|Footer|Header)', k):
            T[k] = z3.String(k)
            f[k] = T[k]
    others = {'scenes': attributes('scene') + attributes('basic_element'), 'chapters': attributes('chapter') + attributes('basic_element')}
    eng.src = {}
    cache = {}

    def list_of(owner, a, t, n):
        if n is None:
            s = State()
            l = s.alloc(Obj('list', x=(run(t),)))
            LAZY[l.oid] = s.get(l)
            eng.src[t.get_id()] = (t, owner, a)
            return l
        s = State()
        ids = [z3.String(f'{owner}.{a}[{i}]') for i in range(n)]
        l = s.alloc(Obj('list', x=tuple(item(i) for i in ids)))
        LAZY[l.oid] = s.get(l)
        return l, ids

    def make(coll, key):
        fl = {}
        for a in others.get(coll, ()):
            fl[a] = z3.Const(f'{coll}.{a}', PYOBJ)
        for a, S in OPT.get(coll, {}).items():
            n, t = attr(coll, a, key)
            fl[a] = Union([(n, None), (z3.Not(n), t)])
        if coll == 'scenes':
            for a in ('wordCount', 'letterCount'):
                fl[a] = count(coll, a, key)
        if coll == 'chapters':
            fl['srtScenes'] = host['lists'][key.get_id()] if size is not None else list_of(key, 'srtScenes', scenes_of(key), None)
        return Obj('inst', fl, base)

    def getitem(e, s, o, a, kw):
        coll = s.get(o).f['name']
        key = term(a[0])
        if kind(a[0]) != 'str':
            raise Unsupported('key of a collection')
        dom = z3.Function(f'in_{coll}', STR, BOOL)(key)
        e.raise_if(s, z3.Not(dom), KeyError, a[0])
        k = (coll, key.get_id())
        if k not in cache:
            q = State()
            r = q.alloc(make(coll, key))
            LAZY[r.oid] = q.get(r)
            cache[k] = (r, key)
        return cache[k][0]

    M[('elements', '__getitem__')] = getitem
    M[('elements', '__contains__')] = lambda e, s, o, a, kw: z3.Function(f'in_{s.get(o).f["name"]}', STR, BOOL)(term(a[0]))
    M[('filter', 'accept')] = lambda e, s, o, a, kw: accepted(s.get(o).f['name'], term(a[1]))
    nov = {}
    for c in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
        nov[c] = st.alloc(Obj('elements', {'name': c}))
    for a in attributes('novel') + attributes('basic_element'):
        nov.setdefault(a, z3.Const(f'novel.{a}', PYOBJ))
    L = {}
    sc = {}
    for l in ['srtChapters'] + list(COLLECTIONS):
        if size is None:
            L[l] = z3.Const(f'novel.{l}', SEQ)
            nov[l] = list_of('novel', l, L[l], None)
        else:
            nov[l], L[l] = list_of('novel', l, None, len(size) if l == 'srtChapters' else 2)
    if size is not None:
        host['lists'] = {}
        for c, n in zip(L['srtChapters'], size):
            host['lists'][c.get_id()], sc[c.get_id()] = list_of(c, 'srtScenes', None, n)
        doms = [(z3.Function(f'in_{coll}', STR, BOOL), ids) for coll, ids in
                [('chapters', L['srtChapters']), ('scenes', sum(sc.values(), []))] + [(COLLECTIONS[l][0], L[l]) for l in COLLECTIONS]]
        for d, ids in doms:
            st.assume(*[d(i) for i in ids])
            if len(ids) > 1:
                st.assume(z3.Distinct(*ids))
    novel = st.alloc(Obj('inst', nov, base))
    f['novel'] = novel
    for k, c in FILTERS.items():
        f[k] = st.alloc(Obj('filter', {'name': c}))
    for a in ('projectName', 'projectPath', '_filePath', 'scenesSplit'):
        f[a] = z3.Const(a, PYOBJ)
    me = st.alloc(Obj('inst', f, cls))
    spec = Spec(eng, T, (lambda c: sc[c.get_id()]) if size is not None else None)
    host['spec'] = spec

    def mapping(coll):
        def contract(e, s, args, kw):
            if kw or len(args) != {'chapters': 3, 'scenes': 5}.get(coll, 2) or args[0] != me:
                raise Unsupported('call of a mapping')
            a = [term(e.narrow(s, v)) for v in args[1:]]
            if kind(a[0]) != 'str' or any(kind(v) != 'int' for v in a[1:]):
                raise Unsupported('arguments of a mapping')
            dom = z3.Function(f'in_{coll}', STR, BOOL)(a[0])
            e.prove(f'precondition of the mapping of the {coll}: the ID exists', s, dom)
            return s.alloc(Obj('mapping', {'coll': coll, 'a': tuple(a)}))
        return contract

    q = 'pywriter.file.file_export.FileExport.'
    eng.contracts[q + '_get_chapterMapping'] = mapping('chapters')
    eng.contracts[q + '_get_sceneMapping'] = mapping('scenes')
    for coll, _, _, _, m in COLLECTIONS.values():
        eng.contracts[q + m] = mapping(coll)
    eng.contracts[q + '_get_fileHeaderMapping'] = lambda e, s, a, kw: s.alloc(Obj('mapping', {'coll': 'novel', 'a': ()}))

    def facts(t, x):
        _, owner, a = eng.src[t.get_id()]
        coll = 'scenes' if a == 'srtScenes' else 'chapters' if a == 'srtChapters' else COLLECTIONS[a][0]
        return [z3.Function(f'in_{coll}', STR, BOOL)(x)]

    eng.element_facts = facts
    stack = []

    def hook(e, s, node, it, env, mod):
        if not isinstance(it, Ref) or s.get(it).kind not in ('list', 'iter'):
            return False
        x = s.get(it).x
        if len(x) != 1 or x[0][0] != 's' or x[0][1] is not True:
            return False
        src = e.src.get(x[0][2].get_id())
        if src is None:
            return False
        t, owner, a = src
        name = f'loop at {e.where(node)}'
        if a == 'srtChapters':
            c = {'int': [spec.ch_number, spec.t_number, spec.t_words, spec.t_letters], 'text': [spec.chapters]}
        elif a == 'srtScenes':
            if len(stack) != 1 or not owner.eq(stack[0][1]):
                raise Unsupported(f'{name}: scenes of a chapter outside of the loop over the chapters')
            Q = stack[0][0]
            c = {'int': [spec.length, spec.nexp] + [lambda P, f=f: f(owner, P) for f in (spec.number, spec.words, spec.letters)],
                 'bool': [lambda P: spec.none(owner, P), spec.all_nexp],
                 'text': [lambda P: spec.text(owner, spec.t_number(Q), spec.t_words(Q), spec.t_letters(Q), P)]}
        else:
            c = {'text': [spec.elements[a]]}
        accum.accumulate(e, s, node, t, env, mod, name, c, lambda P, x: stack.append((P, x)), stack.pop)
        return True

    if size is None:
        eng.loop_hooks.append(hook)
    return eng, st, me, novel, nov, spec, L, cache


def eng_lib(eng, host):
    M = eng.libs['%methods']

    def template(e, s, a, kw):
        if len(a) != 1 or kw or kind(a[0]) != 'str':
            raise Unsupported('Template')
        return s.alloc(Obj('template', {'t': term(a[0])}))

    def substitute(e, s, o, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], Ref) or s.get(a[0]).kind != 'mapping':
            raise Unsupported('safe_substitute')
        m = s.get(a[0]).f
        sp = host['spec']
        t = s.get(o).f['t']
        if m['coll'] == 'chapters':
            return sp.sub_c(t, *m['a'])
        if m['coll'] == 'scenes':
            return sp.sub_s(t, *m['a'])
        if m['coll'] == 'novel':
            return sp.nil(t, SUB_H(t))
        return sp.sub_e(m['coll'], t, *m['a'])

    eng.libs['string'] = {'Template': Native('string.Template', template)}
    M[('template', 'safe_substitute')] = substitute
    return eng.get_global('pywriter.file.file_export', 'FileExport')


def run_text(u, size):
    eng, st, me, novel, nov, spec, L, cache = setup(u, size)
    fn = eng.get_global('pywriter.file.file_export', 'FileExport', '_get_text')
    r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [me], {}))
    eng.no_raise('_get_text never raises', raised)
    eng.cover('_get_text returns', st1)
    r = eng.narrow(st1, r)
    goal = spec.all(L)
    eng.prove('the text consists of the chapters, scenes and elements as specified, in order and numbered', st1, term(r) == goal if kind(r) == 'str' else False)
    for k, v in nov.items():
        eng.prove(f'frame: novel.{k}', st1, same(st1.get(novel).f[k], v) and (not isinstance(v, Ref) or st1.get(v) is (st.heap.get(v.oid) or LAZY[v.oid])))
    u.shape('frame: no element of the novel is changed', all(st1.heap.get(r.oid, LAZY[r.oid]) is LAZY[r.oid] for r, _ in cache.values()))
    return eng


def u_text(u):
    eng = None
    try:
        eng = run_text(u, None)
    finally:
        if not u.engines or any(o.status != 'proved' for o in u.engines[0].obligations) or eng is None:
            for o in u.engines[0].obligations:
                if o.status == 'refuted':
                    o.status, o.detail = 'unknown', 'not proved with these invariants; ' + o.detail
            u.extra[:] = [x for x in u.extra if x['status'] == 'proved']
            for size in ((), (1,), (2,), (1, 1)):
                n = len(u.engines)
                try:
                    run_text(u, size)
                finally:
                    e = u.engines[n]
                    e.obligations[:] = [o for o in e.obligations if o.status == 'refuted' and not o.name.startswith('cover')]
                    for o in e.obligations:
                        o.name = f'{o.name} (executed for chapters with {size} scenes)'
                if e.obligations:
                    break


CONV = z3.Function('converted', STR, BOOL, STR)
TITLES = z3.Function('titles', STR, SEQ)
# kind of mapping -> (method, collection, further arguments, numbers: key -> argument)
MAPPINGS = {'chapter': ('_get_chapterMapping', 'chapters', ('number',), {'ChapterNumber': 'number'}),
            'scene': ('_get_sceneMapping', 'scenes', ('number', 'words', 'letters'), {'SceneNumber': 'number', 'WordsTotal': 'words', 'LettersTotal': 'letters'}),
            'character': ('_get_characterMapping', 'characters', (), {}), 'location': ('_get_locationMapping', 'locations', (), {}),
            'item': ('_get_itemMapping', 'items', (), {}), 'project note': ('_get_prjNoteMapping', 'projectNotes', (), {})}
MODELS = {'chapters': 'chapter', 'scenes': 'scene', 'characters': 'character', 'locations': 'world_element', 'items': 'world_element', 'projectNotes': 'basic_element'}
PLAIN = {'chapter': ('Title', 'Desc'), 'scene': ('Title', 'Desc', 'SceneContent', 'Notes', 'Goal', 'Conflict', 'Outcome', 'Field1', 'Field2', 'Field3', 'Field4'),
         'character': ('Title', 'Desc', 'Bio', 'Goals', 'Notes', 'AKA', 'FullName'), 'location': ('Title', 'Desc', 'AKA'), 'item': ('Title', 'Desc', 'AKA'), 'project note': ('Title', 'Desc')}
FIELDS = {'Title': 'title', 'Desc': 'desc', 'SceneContent': 'sceneContent', 'Notes': 'notes', 'Goal': 'goal', 'Conflict': 'conflict', 'Outcome': 'outcome', 'Bio': 'bio', 'Goals': 'goals',
          'AKA': 'aka', 'FullName': 'fullName', 'Field1': 'field1', 'Field2': 'field2', 'Field3': 'field3', 'Field4': 'field4'}
STRINGS = {'title', 'desc', 'sceneContent', 'notes', 'goal', 'conflict', 'outcome', 'bio', 'goals', 'aka', 'fullName', 'image', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes',
           'field1', 'field2', 'field3', 'field4', 'languageCode', 'countryCode', 'projectName', 'projectPath', 'authorName', 'authorBio'} | {f'fieldTitle{i}' for i in range(1, 5)}
LISTS_OF = {'tags', 'characters', 'locations', 'items'}


def u_mapping(mod, cname):
    def unit(u):
        for what in MAPPINGS:
            mapping_of(u, mod, cname, what)
    return unit


def mapping_of(u, mod, cname, what):
    eng, st0, st1, r, me, novel, elem, ef = result_of(u, mod, cname, what, convert)
    method, coll, more, numbers = MAPPINGS[what]
    name, ID = f'{cname}, {what}', z3.String('ID')
    goals_of(eng, st0, st1, r, me, novel, elem, ef, cname, what, name, ID, coll, numbers)


def result_of(u, mod, cname, what, convert):
    """The mapping of an arbitrary element."""
    method, coll, more, numbers = MAPPINGS[what]
    eng = u.engine()
    M = eng.libs['%methods']
    cls = eng.get_global(mod, cname)
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    st = eng.start()
    name = f'{cname}, {what}'
    ID = z3.String('ID')

    def fields(pre, names):
        f = {}
        for a in names:
            if a in ('wordCount', 'letterCount'):
                f[a] = z3.Int(f'{pre}.{a}')
            elif a == 'status':
                f[a] = z3.Int(f'{pre}.status')
            elif a in ('isMajor', 'isReactionScene', 'suppressChapterTitle'):
                f[a] = eng.opt(f'{pre}.{a}', BOOL)
            elif a in LISTS_OF:
                l = st.alloc(Obj('list', x=(run(z3.Const(f'{pre}.{a}', SEQ)),)))
                f[a] = Union([(z3.Bool(f'{pre}.{a}?none'), None), (z3.Not(z3.Bool(f'{pre}.{a}?none')), l)])
            elif a in STRINGS:
                f[a] = eng.opt(f'{pre}.{a}')
            else:
                f[a] = z3.Const(f'{pre}.{a}', PYOBJ)
        return f

    names = attributes(MODELS[coll]) + attributes('basic_element') + (attributes('world_element') if coll == 'characters' else []) + (['sceneContent'] + [f'field{i}' for i in range(1, 5)] if coll == 'scenes' else [])
    ef = fields(what, dict.fromkeys(names))
    if coll == 'scenes':
        st.assume(ef['status'] >= 0, ef['status'] <= 5)
    elem = st.alloc(Obj('inst', ef, base))
    other = {}

    def getitem(e, s, o, a, kw):
        c = s.get(o).f['name']
        if c == coll and is_z3(a[0]) and a[0].eq(ID):
            return elem
        key = term(a[0])
        dom = z3.Function(f'in_{c}', STR, BOOL)(key)
        e.raise_if(s, z3.Not(dom), KeyError, a[0])
        k = (c, key.get_id())
        if k not in other:
            q = State()
            n, t = z3.Function(f'{c}.title?none', STR, BOOL)(key), z3.Function(f'{c}.title', STR, STR)(key)
            r = q.alloc(Obj('inst', {'title': t}, base))
            LAZY[r.oid] = q.get(r)
            other[k] = (r, key)
        return other[k][0]

    M[('elements', '__getitem__')] = getitem
    nov = {c: st.alloc(Obj('elements', {'name': c})) for c in MODELS}
    for k, v in fields('novel', attributes('novel') + attributes('basic_element')).items():
        nov.setdefault(k, v)
    novel = st.alloc(Obj('inst', nov, base))
    f = dict(fields('export', ['projectName', 'projectPath']), novel=novel)
    me = st.alloc(Obj('inst', f, cls))
    for c in ('pywriter.file.file.File', 'pywriter.file.file_export.FileExport', 'pywriter.odt_w.odt_writer.OdtWriter', 'pywriter.odt_w.odt_w_formatted.OdtWFormatted',
              'pywriter.odt_w.odt_w_export.OdtWExport', 'pywriter.odt_w.odt_w_proof.OdtWProof', 'pywriter.ods_w.ods_writer.OdsWriter'):
        eng.contracts[f'{c}._convert_from_yw'] = convert

    def hook(e, s, node, it, env, mod):
        """A loop that collects titles: the list is arbitrary afterwards (it is no part of what is proved here)."""
        if not isinstance(it, Ref) or s.get(it).kind != 'list' or len(s.get(it).x) != 1 or s.get(it).x[0][0] != 's':
            return False
        from pyvc import loops
        lst = next((a for a in LISTS_OF if same(s.get(it).x[0][2], z3.Const(f'{what}.{a}', SEQ))), None)
        if lst is None:
            return False
        lp = loops.Loop(e, s, node, env, mod, f'loop at {e.where(node)}')
        x = e.fresh('x')

        def body(q):
            if lst != 'characters':
                q.assume(z3.Function(f'in_{lst}', STR, BOOL)(x))
            e.assign(q, node.target, x, env, mod)
            alive, brk = e.loop_body(q, node.body, env, mod)
            if not alive or brk:
                raise Dead()

        lp.probe(body)
        sel = e.fresh('in_loop', BOOL)
        q = s.fork(sel)
        lp.havoc(q)
        pre = q.fork()
        try:
            body(q)
            lp.check_frame(pre, q)
        except Dead:
            pass
        s.assume(z3.Not(sel))
        lp.havoc(s)
        return True

    eng.loop_hooks.append(hook)
    args = [ID] + [z3.Int(n) for n in more]
    st0 = st.fork()
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, method, args))
    eng.no_raise(f'{name}: never raises', raised)
    eng.cover(f'{name}: returns', st1)
    return eng, st0, st1, r, me, novel, elem, ef


def goals_of(eng, st0, st1, r, me, novel, elem, ef, cname, what, name, ID, coll, numbers):
    get = lambda k: lib.getitem(eng, st1, r, k)
    goals = [('ID', 'the ID', lambda v: eng.eq(st1, v, ID))]
    for k, n in numbers.items():
        t = z3.Int(n)
        if n == 'number':
            goals.append((k, 'the number, or nothing', lambda v, t=t: z3.If(t == 0, tobool(eng.eq(st1, v, '')), tobool(eng.eq(st1, v, t)))))
        else:
            goals.append((k, 'the total', lambda v, t=t: eng.eq(st1, v, t)))
    if coll == 'scenes':
        for k, a in (('WordCount', 'wordCount'), ('LetterCount', 'letterCount')):
            goals.append((k, 'the count of the scene', lambda v, a=a: eng.eq(st1, v, lib.to_str(eng, st1, ef[a]))))
    if cname == 'FileExport':
        for k in PLAIN[what]:
            q = (what == 'project note' and k == 'Desc') or k in ('Title', 'AKA', 'FullName', 'Field1', 'Field2', 'Field3', 'Field4')
            goals.append((k, 'the converted text', lambda v, k=k: eng.eq(st1, v, convert(eng, st1, [me, ef[FIELDS[k]]], {'quick': True}))))
    for k, txt, goal in goals:
        v, q, bad = eng.run(st1, lambda s: get(k))
        eng.no_raise(f'{name}: there is {k}', bad)
        eng.prove(f'{name}: {k} is {txt}', st1, goal(v))
    for o in (me, novel, elem):
        eng.prove(f'{name}: frame: nothing is changed', st1, all(same(v, st1.get(o).f.get(k, UNBOUND)) for k, v in st0.get(o).f.items()) and len(st1.get(o).f) == len(st0.get(o).f))


def convert(e, s, args, kw):
    """Contract: a function of the text; None like the empty text."""
    v = e.narrow(s, args[1])
    t = None
    for g, x in reversed(alts(v)):
        y = z3.StringVal('') if x is None else term(x)
        if y is None or kind(y) != 'str':
            raise Unsupported('conversion of other than a text')
        t = y if t is None else z3.If(tobool(g), y, t)
    return CONV(t, z3.BoolVal(True))


def u_document(mod, cname):
    """Documents that consist of the header, the chapters, and the footer."""
    def unit(u):
        eng = u.engine()
        cls = eng.get_global(mod, cname)
        st = eng.start()
        H, C = z3.Consts('header chapters', SEQ)
        q = 'pywriter.file.file_export.FileExport.'
        eng.contracts[q + '_get_fileHeader'] = lambda e, s, a, kw: s.alloc(Obj('list', x=(run(H),)))
        eng.contracts[q + '_get_chapters'] = lambda e, s, a, kw: s.alloc(Obj('list', x=(run(C),)))
        foot = z3.String('footer')
        me = st.alloc(Obj('inst', {'_fileFooter': foot, 'novel': z3.Const('novel', PYOBJ)}, cls))
        fn = eng.get_global(mod, cname, '_get_text')
        r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [me], {}))
        eng.no_raise('_get_text never raises', raised)
        eng.cover('_get_text returns', st1)
        J = lib.U_JOIN
        e = z3.StringVal('')
        goal = z3.Concat(J(e, H), J(e, C), foot)
        r = eng.narrow(st1, r)
        if kind(r) != 'str':
            raise Unsupported('text')
        eng.prove('the text is the header, the chapters, and the footer (a text without quotations)', st1, z3.Implies(z3.Not(z3.Contains(goal, z3.StringVal('&gt; '))), term(r) == goal))
    return unit


CLASSES = [('file.file_export', 'FileExport'), ('odt_w.odt_w_export', 'OdtWExport'), ('odt_w.odt_w_manuscript', 'OdtWManuscript'), ('odt_w.odt_w_notes', 'OdtWNotes'), ('odt_w.odt_w_todo', 'OdtWTodo'),
           ('odt_w.odt_w_proof', 'OdtWProof'), ('odt_w.odt_w_scenedesc', 'OdtWSceneDesc'), ('odt_w.odt_w_chapterdesc', 'OdtWChapterDesc'), ('odt_w.odt_w_partdesc', 'OdtWPartDesc'),
           ('odt_w.odt_w_brief_synopsis', 'OdtWBriefSynopsis'), ('odt_w.odt_w_characters', 'OdtWCharacters'), ('odt_w.odt_w_locations', 'OdtWLocations'), ('odt_w.odt_w_items', 'OdtWItems'),
           ('ods_w.ods_w_scenelist', 'OdsWSceneList'), ('ods_w.ods_w_charlist', 'OdsWCharList'), ('ods_w.ods_w_loclist', 'OdsWLocList'), ('ods_w.ods_w_itemlist', 'OdsWItemList')]


def u_filter(u):
    """The filters that are set by default accept all."""
    eng = u.engine()
    cls = eng.get_global('pywriter.file.filter', 'Filter')
    st = eng.start()
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, eng.call(s, cls, [], {}), 'accept', [z3.Const('source', PYOBJ), z3.String('ID')]))
    eng.no_raise('accept never raises', raised)
    eng.prove('accept is true', st1, eng.truth(st1, r))


def u_lemmas(u):
    """The facts about the functions of the specification, by induction over the list (step; they are trivial for the empty list)."""
    n, k, a, d = z3.Int('number_of_scenes'), z3.Int('not_exported'), z3.Bool('all'), z3.Bool('x.doNotExport')
    hyp = [n >= 0, 0 <= k, k <= n, a == (k == n)]
    k1, a1 = k + z3.If(d, z3.IntVal(1), z3.IntVal(0)), z3.And(a, d)
    u.lemma('not more scenes are marked than there are', hyp, z3.And(0 <= k1, k1 <= n + 1))
    u.lemma('all scenes are marked if and only if their number is that of the marked', hyp, a1 == (k1 == n + 1))


UNITS = [('lemmas', u_lemmas), ('text', u_text), ('filter', u_filter)]
UNITS += [(f'document {c}', u_document(f'pywriter.odt_w.{m}', c)) for m, c in (('odt_w_proof', 'OdtWProof'), ('odt_w_formatted', 'OdtWFormatted'))]
UNITS += [(f'mappings of {c}', u_mapping('pywriter.' + m, c)) for m, c in CLASSES]
