"""C12: the importers. Each handler of each text document reader is a step: from an arbitrary state of the reader and an arbitrary novel
it changes the carried attributes of the elements that are marked in the document, and nothing else.
The list documents: see odslists.py (any row of any table).
"""
import ast
import re
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib, accum, loops, models, scan
from pyvc.lib import STR, SEQ
from . import odslists
from .odslists import attributes, COLLS, LISTS

LEVEL = 'proof'
TRUSTED = ['the parser of the document calls the handlers only (structural: class OdtParser), one after the other',
           'create_id, splitting of scenes at dividers: by contract (C08, C09)']
ASSUMPTIONS = ['the name of a section that starts with a marker is the marker, a colon, and the ID (digits)', 'text attributes are texts or unset, lists of IDs are lists of strings',
               'an import that ends with an exception changes no file (C07)']
BOOL, INT = z3.BoolSort(), z3.IntSort()
ID = z3.Function('ID named by the section', STR, STR)
DIGITS = z3.Plus(z3.Range('0', '9'))
CLASSES = {'scenes': ('scene', 'Scene'), 'chapters': ('chapter', 'Chapter'), 'characters': ('character', 'Character'), 'locations': ('world_element', 'WorldElement'), 'items': ('world_element', 'WorldElement')}
SRT = {'chapters': 'srtChapters', 'characters': 'srtCharacters', 'locations': 'srtLocations', 'items': 'srtItems'}
# kind of document: class, module, type given, markers (section name -> collection, section), carried attributes
TEXT = ('sceneContent', 'title')
DOCS = {
    'OdtRManuscript': dict(mod='odt_r_manuscript', type=0, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('sceneContent', 'title', 'scType'), 'chapters': ('title', 'chType')}),
    'OdtRNotes': dict(mod='odt_r_notes', type=1, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('sceneContent', 'title', 'scType'), 'chapters': ('title', 'chType')}),
    'OdtRTodo': dict(mod='odt_r_todo', type=2, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('sceneContent', 'title', 'scType'), 'chapters': ('title', 'chType')}),
    'OdtRProof': dict(mod='odt_r_proof', type=None, markers={}, carried={'scenes': ('sceneContent',)}),
    'OdtRSceneDesc': dict(mod='odt_r_scenedesc', type=0, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('desc', 'title', 'scType'), 'chapters': ('title', 'chType')}),
    'OdtRChapterDesc': dict(mod='odt_r_chapterdesc', type=0, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('scType',), 'chapters': ('desc', 'title', 'chType')}),
    'OdtRPartDesc': dict(mod='odt_r_partdesc', type=0, markers={'ScID': 'scenes', 'ChID': 'chapters'}, carried={'scenes': ('scType',), 'chapters': ('desc', 'title', 'chType')}),
    'OdtRCharacters': dict(mod='odt_r_characters', type=None, markers={'CrID_desc': 'characters', 'CrID_bio': 'characters', 'CrID_goals': 'characters', 'CrID_notes': 'characters'},
                           carried={'characters': ('desc', 'bio', 'goals', 'notes')}),
    'OdtRLocations': dict(mod='odt_r_locations', type=None, markers={'LcID': 'locations'}, carried={'locations': ('desc',)}),
    'OdtRItems': dict(mod='odt_r_items', type=None, markers={'ItID': 'items'}, carried={'items': ('desc',)}),
}
CURRENT = {'scenes': '_scId', 'chapters': '_chId', 'characters': '_crId', 'locations': '_lcId', 'items': '_itId'}
FIELDS = {'sceneContent': ('_sceneContent', 'wordCount', 'letterCount')}
SHAPES = ('none', 'one', 'two')


def any_list(eng, st, node, it, env, mod):
    """A loop over a list of texts, without an invariant: what it may change is arbitrary afterwards."""
    if not isinstance(it, Ref) or st.get(it).kind not in ('list', 'iter') or not any(k == 's' for k, _, _ in st.get(it).x):
        return False
    t = lib.list_term(eng, st, it)
    name = f'loop at {eng.where(node)}'
    loops.for_loop(eng, st, node, env, mod, name, lambda s, k: t[k], lambda lp, s, k: z3.BoolVal(True), length=z3.Length(t))
    return True


class Reader:
    """An arbitrary reader of a class, in an arbitrary state between two events, and an arbitrary novel."""

    def __init__(self, u, cname, doc=None):
        self.u, self.cname, self.doc = u, cname, doc or DOCS[cname]
        d = self.doc
        eng = self.eng = u.engine()
        models.install(eng)
        eng.loop_hooks.append(any_list)
        self.cls = eng.get_global(f'pywriter.odt_r.{d["mod"]}', cname)
        eng.get_global('pywriter.odt_r.odt_reader', 'OdtReader')
        base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
        self.novel_cls = eng.get_global('pywriter.model.novel', 'Novel')
        self.ecls = {c: eng.get_global(f'pywriter.model.{m}', k) for c, (m, k) in CLASSES.items()}
        st = eng.start()
        self.names = {c: attributes([m, 'basic_element'] + (['world_element'] if m == 'character' else [])) for c, (m, k) in CLASSES.items()}
        make = {c: self.maker(c) for c in CLASSES}
        make['projectNotes'] = lambda name, key, s: Obj('inst', {a: z3.Const(f'{name}.{a}', PYOBJ) for a in ('title', 'desc')}, base)
        self.maps = {c: models.SymMap(c, make[c], eng) for c in COLLS}
        nov = {c: st.alloc(Obj('dict', x=Store(self.maps[c]))) for c in COLLS}
        for a in LISTS + ('languages',):
            nov[a] = st.alloc(Obj('list', x=(run(z3.Const(a, SEQ)),)))
        for a in attributes(['novel', 'basic_element']):
            if a not in nov:
                nov[a] = eng.opt(f'novel.{a}') if a in ('languageCode', 'countryCode') else z3.Const(f'novel.{a}', PYOBJ)
        self.nov = nov
        self.novel = st.alloc(Obj('inst', dict(nov), self.novel_cls))
        path = d.get('path', '/project.odt')
        me, st, raised = eng.run(st, lambda s: eng.call(s, self.cls, [path], {}))
        eng.no_raise('a reader can be made', raised)
        self.me = me
        self.counters = {}
        f = st.edit(me).f
        f['novel'] = self.novel
        for k, v in list(f.items()):
            if k == 'novel' or k.startswith('_File') or k in ('_filePath', 'projectName', 'projectPath', 'scenesSplit'):
                continue
            if v is None:
                f[k] = eng.opt(f'self.{k}')
            elif isinstance(v, bool):
                f[k] = z3.Bool(f'self.{k}')
            elif isinstance(v, int):
                f[k] = z3.Int(f'self.{k}')
                st.assume(f[k] >= v)
                self.counters[k] = v
            elif v == '':
                f[k] = z3.String(f'self.{k}')
            elif isinstance(v, Ref) and st.get(v).kind == 'list' and not st.get(v).x:
                f[k] = st.alloc(Obj('list', x=(run(z3.Const(f'self.{k}', SEQ)),)))
        self.st = st

    def maker(self, c):
        eng = self.eng

        def make(name, key, s):
            fl = {}
            for a in self.names[c]:
                if a == 'srtScenes':
                    l = s.alloc(Obj('list', x=(run(z3.Const(f'{name}.{a}', SEQ)),)))
                    LAZY[l.oid] = s.get(l)
                    fl[a] = l
                elif a in ('title', 'desc', '_sceneContent', 'bio', 'goals', 'notes'):
                    fl[a] = eng.opt(f'{name}.{a}')
                elif a in ('scType', 'chType'):
                    fl[a] = eng.opt(f'{name}.{a}', INT)
                elif a in ('wordCount', 'letterCount'):
                    fl[a] = z3.Int(f'{name}.{a}')
                elif a == 'sceneContent':
                    continue
                else:
                    fl[a] = z3.Const(f'{name}.{a}', PYOBJ)
            return Obj('inst', fl, self.ecls[c])

        return make

    # ------------------------------------------------------------ comparison
    def equal(self, q, a, b):
        if same(a, b):
            return True
        try:
            return self.eng.eq(q, a, b)
        except Unsupported:
            return False

    def current(self, st, coll):
        """Optional text: ID of the current element of a kind."""
        f = st.get(self.me).f
        if CURRENT[coll] not in f:
            raise Unsupported(f'no attribute {CURRENT[coll]}')
        return f[CURRENT[coll]]

    def is_current(self, st, coll, key):
        if CURRENT[coll] not in self.st.get(self.me).f:
            return False
        v = self.current(st, coll)
        return Or(*[And(g, self.eng.eq(st, y, key)) for g, y in alts(v) if y is not None])


def step(u, cname, handler, args, what, hyps=lambda r: [], mention=None, more=None):
    """One event: 'mention' is (collection, ID) if the event marks an element."""
    r = Reader(u, cname)
    eng, d, me = r.eng, r.doc, r.me
    st = r.st
    a = args(r, st)
    st.assume(*hyps(r))
    before = st.fork()
    named = mention(r) if mention else (None, None, False)
    coll_m, key_m, cond_m = named
    _, q, raised = eng.run(st, lambda s: eng.call_method(s, me, handler, a))
    if q is None:
        raise Unsupported('the handler never returns')
    eng.cover(f'{what}: {handler} returns', q)
    carried = {c: {f for x in v for f in FIELDS.get(x, (x,))} for c, v in d['carried'].items()}
    for c in COLLS:
        eng.prove(f'{what}: frame: the novel keeps its {c}', q, q.get(r.novel).f.get(c) == r.nov[c])
        store = q.get(r.nov[c]).x
        if store.base is not r.maps[c]:
            raise Unsupported('another map')
        for g, k, v in store.ups:
            if v is UNBOUND:
                eng.prove(f'{what}: frame: no element of {c} is removed', q, Not(g))
                continue
            eng.prove(f'{what}: an element is added to {c} only if its ID is marked in the document, and was unknown', q, Implies(g, And(cond_m, eng.eq(q, k, key_m), Not(r.maps[c].dom(term(k)))) if c == coll_m else False))
            for h, y in alts(v):
                eng.prove(f'{what}: a new element of {c} has the class of its kind', q, Implies(And(g, h), isinstance(y, Ref) and q.get(y).meta == r.ecls[c]))
        if c == 'projectNotes':
            eng.prove(f'{what}: frame: no element of {c} is changed', q, all(q.heap.get(o.oid, LAZY[o.oid]) is LAZY[o.oid] for _, o in r.maps[c].cache))
            continue
        for k, o in r.maps[c].cache:
            old, new = LAZY[o.oid], q.heap.get(o.oid, LAZY[o.oid])
            marked = Or(r.is_current(before, c, k), And(cond_m, eng.eq(q, k, key_m)) if c == coll_m else False)
            for at in dict.fromkeys(list(old.f) + list(new.f)):
                x, y = old.f.get(at, UNBOUND), new.f.get(at, UNBOUND)
                if isinstance(x, Ref) and x == y:
                    l0, l1 = LAZY[x.oid], q.heap.get(x.oid, LAZY[x.oid])
                    if l0 is l1:
                        continue
                    if at == 'srtScenes' and coll_m == 'scenes':
                        got, was = lib.list_term(eng, q, x), l0.x[0][2]
                        eng.prove(f'{what}: a new scene is added to the end of the current chapter, no chapter else is changed', q,
                                  z3.Or(got == was, z3.And(tobool(cond_m), z3.Not(r.maps['scenes'].dom(key_m)), tobool(r.is_current(before, 'chapters', k)), got == z3.Concat(was, z3.Unit(key_m)))))
                    else:
                        eng.prove(f'{what}: frame: {c}: {at} is kept', q, False)
                    continue
                kept = r.equal(q, x, y)
                if kept is True:
                    continue
                if at not in carried.get(c, ()):
                    eng.prove(f'{what}: frame: {c}: {at} is kept', q, kept)
                    continue
                eng.prove(f'{what}: {c}: {at} is changed only for the element that is marked', q, Or(kept, marked))
                if more:
                    g = more(r, before, q, c, at, x, y, k)
                    if g is not None:
                        eng.prove(f'{what}: {c}: {at} is changed only if the document carries it', q, Or(kept, g))
    for at in dict.fromkeys(list(r.nov) + list(q.get(r.novel).f)):
        if at in COLLS or at == 'languages':
            continue
        x, y = r.nov.get(at, UNBOUND), q.get(r.novel).f.get(at, UNBOUND)
        if at in LISTS:
            was = z3.Const(at, SEQ)
            if not isinstance(y, Ref):
                eng.prove(f'{what}: frame: novel.{at}', q, False)
                continue
            if y == x and q.get(y) is before.get(x):
                continue
            got = lib.list_term(eng, q, y)
            new = z3.And(tobool(cond_m), z3.Not(r.maps[coll_m].dom(key_m))) if coll_m and SRT.get(coll_m) == at else z3.BoolVal(False)
            eng.prove(f'{what}: novel.{at}: a new element is added to the end, nothing else is changed', q, got == (z3.If(new, z3.Concat(was, z3.Unit(key_m)), was) if coll_m else was))
            continue
        kept = r.equal(q, x, y)
        if at in ('languageCode', 'countryCode') and what == 'body':
            kept = Or(kept, more(r, before, q, 'novel', at, x, y, None))
        if kept is not True:
            eng.prove(f'{what}: frame: novel.{at}', q, kept)
    # the reader
    eng.prove(f'{what}: the reader keeps its novel', q, q.get(me).f['novel'] == r.novel)
    for c, n in CURRENT.items():
        if n in before.get(me).f:
            now, was = r.current(q, c), r.current(before, c)
            ok = []
            for g, y in alts(now):
                if y is None:
                    continue
                ok.append(Implies(g, Or(r.is_current(before, c, y), And(cond_m, eng.eq(q, y, key_m)) if c == coll_m else False)))
            eng.prove(f'{what}: the current element of {c} is one that is marked', q, And(*ok))
    return r, before, q, raised


def section(marker):
    """The start of a section for an ID."""
    d = z3.String('digits')

    def args(r, st):
        v = z3.Concat(z3.StringVal(marker + ':'), d)
        r.key = d
        M = r.eng.libs['%methods']
        old = M[(re.Pattern, 'search')]

        def search(e, s, p, a, kw):
            if len(a) == 1 and is_z3(a[0]) and a[0].eq(v) and digits_pattern(p):
                m = s.alloc(Obj('idmatch', {}))
                LAZY[m.oid] = s.get(m)
                return m
            return old(e, s, p, a, kw)

        M[(re.Pattern, 'search')] = search
        M[('idmatch', 'group')] = lambda e, s, o, a, kw: d if a in ([], [0]) else (_ for _ in ()).throw(Unsupported('group'))
        M[('idmatch', '__getitem__')] = lambda e, s, o, a, kw: d if a == [0] else (_ for _ in ()).throw(Unsupported('group'))
        attrs = st.alloc(Obj('list', x=(item(('id', v)),)))
        return ['div', attrs]

    return args, lambda r: [z3.InRe(d, DIGITS)]


def digits_pattern(p):
    try:
        t = models.sre_parse.parse(p.pattern, p.flags)
    except Exception:
        return False
    return repr(t) in (repr(models.sre_parse.parse('[0-9]+')), repr(models.sre_parse.parse(r'\d+')))


def u_section(cname, marker):

    def f(u):
        coll = DOCS[cname]['markers'][marker]
        args, hyps = section(marker)
        typ = DOCS[cname]['type']
        what = f'section {marker}'

        def more(r, before, q, c, at, x, y, k):
            return at in ('scType', 'chType') and c == coll and r.equal(q, y, typ)

        r, before, q, raised = step(u, cname, 'handle_starttag', args, what, hyps, lambda r: (coll, r.key, True), more)
        eng = r.eng
        v = eng.store_get(q, q.get(r.nov[coll]).x, r.key)
        eng.prove(f'{what}: there is an element with the ID', q, Not(Or(*[g for g, y in alts(v) if y is UNBOUND])))
        if typ is not None:
            at = {'scenes': 'scType', 'chapters': 'chType'}[coll]
            eng.prove(f'{what}: the element has the type of the document', q, And(*[Implies(g, eng.eq(q, q.get(y).f.get(at), typ)) for g, y in alts(v) if y is not UNBOUND]))
        eng.prove(f'{what}: it is the current element', q, r.is_current(q, coll, r.key))
        if coll == 'chapters':
            dom = r.maps[coll].dom(r.key)
            eng.prove(f'{what}: a new chapter has no scenes', q, And(*[Implies(And(g, Not(dom)), isinstance(q.get(y).f.get('srtScenes'), Ref) and lib.list_term(eng, q, q.get(y).f['srtScenes']) == z3.Empty(SEQ)) for g, y in alts(v) if y is not UNBOUND]))
        if coll != 'scenes':
            eng.no_raise(f'{what}: no exception', raised)

    return f


UNITS = []
for _c, _d in DOCS.items():
    for _m in _d['markers']:
        UNITS.append((f'{_c}: section {_m}', u_section(_c, _m)))


def title_goal(r, before, q, c, at, x, y, k, comment=None):
    """Titles: of a chapter only if there is none, of a scene only from a title comment."""
    d = r.doc
    if at != 'title':
        return None
    if c == 'chapters':
        return Or(*[And(g, True if v is None else eq_empty(v)) for g, v in alts(x)])
    if c == 'scenes':
        if comment is not None:
            return z3.Contains(comment, z3.StringVal('~'))
        t = lib.U_JOIN(accum.NIL, lib.list_term(r.eng, before, before.get(r.me).f['_lines']))
        return z3.And(z3.PrefixOf(z3.StringVal('/*'), t), z3.Contains(t, z3.StringVal('*/')), z3.Contains(t, z3.StringVal('~')))
    return None


def eq_empty(v):
    return term(v) == z3.StringVal('')


def u_other_start(cname, shape):

    def f(u):
        tag, n, v, n2, v2 = z3.Strings('tag name value name2 value2')

        def args(r, st):
            val, val2 = r.eng.opt('value'), r.eng.opt('value2')
            r.vals = [(n, val), (n2, val2)]
            pairs = {'none': [()], 'one': [(n, val)], 'two': [(n, val), (n2, val2)]}[shape]
            return [tag, st.alloc(Obj('list', x=tuple(item(p) for p in pairs)))]

        def hyps(r):
            if shape == 'none':
                return [tag != z3.StringVal('div')]  # sections have names
            pre = [z3.PrefixOf(z3.StringVal(m), v) for m in DOCS[cname]['markers']]
            return [z3.Not(z3.And(tag == z3.StringVal('div'), n == z3.StringVal('id'), z3.Or(z3.Bool('value?none'), *pre)))] if pre else []

        def code(r, before, q, c, at, x, y, k):
            if c != 'novel':
                return title_goal(r, before, q, c, at, x, y, k)
            want = {'languageCode': 'language', 'countryCode': 'country'}[at]
            return And(tag == z3.StringVal('body'), Or(*[And(m == z3.StringVal(want), r.eng.eq(q, w, y), r.eng.truth(q, y)) for m, w in r.vals]))

        step(u, cname, 'handle_starttag', args, 'body', hyps, None, code)

    return f


def u_end(cname):

    def f(u):
        tag = z3.String('tag')
        step(u, cname, 'handle_endtag', lambda r, st: [tag], 'end of an element', more=title_goal)

    return f


def u_text(cname, handler, what):

    def f(u):
        data = z3.String('data')
        men = None
        if cname == 'OdtRProof':
            group = models.re_group_fn(re.compile('[0-9]+'), 0)
            men = lambda r: ('scenes', group(data), z3.Contains(data, z3.StringVal('[ScID')))

        def more(r, before, q, c, at, x, y, k):
            if cname == 'OdtRProof':
                return z3.Contains(data, z3.StringVal('[/ScID'))
            if handler == 'handle_comment':
                return title_goal(r, before, q, c, at, x, y, k, data)
            return False

        step(u, cname, handler, lambda r, st: [data], what, mention=men, more=more)

    return f


for _c in DOCS:
    for _s in ('none', 'one', 'two'):
        UNITS.append((f'{_c}: other elements ({_s})', u_other_start(_c, _s)))
    UNITS.append((f'{_c}: end of an element', u_end(_c)))
    UNITS.append((f'{_c}: text', u_text(_c, 'handle_data', 'text')))
    UNITS.append((f'{_c}: comment', u_text(_c, 'handle_comment', 'comment')))


def u_character_sections(u):
    """The end of a section changes the attribute of this section only."""
    for marker in DOCS['OdtRCharacters']['markers']:
        args, hyps = section(marker)
        what = f'section {marker}'
        r, before, q, raised = step(u, 'OdtRCharacters', 'handle_starttag', args, what, hyps, lambda r: ('characters', r.key, True))
        eng = r.eng
        data = z3.String('data')
        for h, a in (('handle_data', [data]), ('handle_endtag', ['div'])):
            mid = q
            _, q, raised = eng.run(q, lambda s: eng.call_method(s, r.me, h, a))
            eng.no_raise(f'{what}: {h} raises nothing', raised)
            for k, o in r.maps['characters'].cache:
                old, new = mid.heap.get(o.oid, LAZY[o.oid]), q.heap.get(o.oid, LAZY[o.oid])
                for at in dict.fromkeys(list(old.f) + list(new.f)):
                    if at != marker[5:]:
                        eng.prove(f'{what}: {h}: frame: {at} is kept', q, r.equal(q, old.f.get(at, UNBOUND), new.f.get(at, UNBOUND)))


def u_read(cname):

    def f(u):
        r = Reader(u, cname)
        eng, me, st = r.eng, r.me, r.st
        seen = {'feed': 0, 'split': 0, 'made': []}

        def parser(e, s, a, kw):
            p = s.alloc(Obj('parser', {'client': a[0]}))
            LAZY[p.oid] = s.get(p)
            return p

        def changed(s, base):
            return [x for x in loops.changed(base, s) if not (x[0] == me.oid and x[1] != 'novel') and x != (r.novel.oid, 'languages') and s.heap[x[0]].kind not in ('env', 'parser')
                    and x[0] not in [v.oid for k, v in base.get(me).f.items() if isinstance(v, Ref) and k != 'novel'] + [r.nov['languages'].oid]]

        def feed(e, s, o, a, kw):
            seen['feed'] += 1
            e.prove('the document is the one of the reader', s, And(o is not None and s.get(o).f['client'] == me, e.eq(s, a[0], before.get(me).f['_filePath'])))
            e.prove('before parsing, nothing of the novel is changed but the list of languages', s, not changed(s, before))
            e.raise_if(s, e.fresh('parsing fails', BOOL), e.get_global('pywriter.pywriter_globals', 'Error'), 'cannot read')
            return None

        def split(e, s, a, kw):
            seen['split'] += 1
            e.prove('the splitter gets the file', s, e.is_(s, a[1], me) if len(a) > 1 else kw.get('file') == me)
            return e.fresh('split', BOOL)

        eng.contracts['pywriter.odt_r.odt_parser.OdtParser'] = parser
        eng.libs['%methods'][('parser', 'feed_file')] = feed
        eng.contracts['pywriter.model.splitter.Splitter.split_scenes'] = split
        eng.assumed.add('OdtParser.feed_file calls the handlers of its client (structural)')
        before = st.fork()
        _, q, raised = eng.run(st, lambda s: eng.call_method(s, me, 'read', []))
        eng.cover('read returns', q)
        u.fact('the document is parsed', seen['feed'] >= 1, status=None if seen['feed'] else 'unknown')
        eng.prove('frame: nothing of the novel is changed but by the handlers and the splitter', q, not changed(q, before))

    return f


def u_parser(u):
    """The parser changes its client by calls of the handlers only."""
    import os
    from pyvc.engine import SRC
    path = f'{SRC}/pywriter/odt_r/odt_parser.py'
    tree = ast.parse(open(path, encoding='utf-8').read())
    ok = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('handle_starttag', 'handle_endtag', 'handle_data', 'handle_comment') and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == '_client':
            ok.add(n.func.value)
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '_client' for t in n.targets):
            ok |= {t for t in n.targets if isinstance(t, ast.Attribute)}
    rest = [n.lineno for n in ast.walk(tree) if isinstance(n, ast.Attribute) and n.attr == '_client' and n not in ok]
    u.fact('OdtParser uses its client for calls of the handlers only', not rest, f'lines {rest}', status=None if not rest else 'unknown')
    names = [n.lineno for n in ast.walk(tree) if isinstance(n, ast.Attribute) and n.attr in set(COLLS + LISTS + ('novel',)) - {'items'}]
    u.fact('OdtParser does not touch the novel', not names, f'lines {names}', status=None if not names else 'unknown')


UNITS.append(('OdtRCharacters: sections', u_character_sections))
for _c in DOCS:
    UNITS.append((f'{_c}.read', u_read(_c)))
UNITS.append(('OdtParser', u_parser))
UNITS += odslists.UNITS
