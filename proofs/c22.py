"""C22: a work in progress or an outline becomes a new project. Each handler of the two readers is a step from an arbitrary state of the reader
and an arbitrary novel: a heading adds exactly one chapter (or scene), text is collected, the end of a paragraph stores what was collected,
and nothing else of the novel changes. So the chapters, scenes and texts of the project are those of the document, in its order.
"""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib
from pyvc.lib import SEQ
from pyvc.models import tab_store, tab_term, opt_of
from pyvc import models
from .c12 import Reader
from .odslists import COLLS, LISTS

LEVEL = 'proof'
TRUSTED = ['the SAX parser of the standard library calls startElement, characters and endElement in document order; what OdtParser makes of each is proved here',
           'clean-up of redundant markup, word count: by contract (a function of the text; C13, C15)', 'splitting of scenes at dividers: by contract (C09)']
ASSUMPTIONS = ['open spans of a paragraph: the parser is proved for stacks of one and two entries, of which it uses the top only', 'the reader starts with counters of 0 and an empty novel, and all changes are made by the handlers']
STR, INT = z3.StringSort(), z3.IntSort()
MODS = {'OdtRImport': 'odt_r_import', 'OdtROutline': 'odt_r_outline'}
CLEAN = z3.Function('text without redundant markup', STR, STR)
S = z3.StringVal


def reader(u, cname):
    r = Reader(u, cname, dict(mod=MODS[cname], path='/document', markers={}, carried={}, type=0))
    eng = r.eng
    eng.contracts['pywriter.odt_r.odt_r_formatted.OdtRFormatted._cleanup_scene'] = lambda e, s, a, kw: CLEAN(term(a[-1] if a[-1:] else kw['text']))
    f = r.st.get(r.me).f
    r.st.assume(z3.Not(r.maps['chapters'].dom(z3.IntToStr(f['_chCount'] + 1))), z3.Not(r.maps['scenes'].dom(z3.IntToStr(f['_scCount'] + 1))))
    r.st.assume(f['_chCount'] >= 0, f['_scCount'] >= 0)
    for at, c in (('_chId', 'chapters'), ('_scId', 'scenes')):
        for g, v in alts(f[at]):
            if v is not None:
                r.st.assume(tobool(Implies(g, r.maps[c].dom(term(v)))))
    r.lines0 = lib.list_term(eng, r.st, f['_lines'])
    # a scene is open within a chapter only
    ch = Or(*[g for g, v in alts(f['_chId']) if v is not None])
    sc = Or(*[g for g, v in alts(f['_scId']) if v is not None])
    r.ch, r.sc = ch, sc
    r.st.assume(tobool(Implies(sc, ch)))
    return r


def run_(r, handler, args, what):
    r.before = r.st.fork()
    _, q, raised = r.eng.run(r.st, lambda s: r.eng.call_method(s, r.me, handler, args))
    if q is None:
        raise Unsupported('the handler never returns')
    r.eng.cover(f'{what}: returns', q)
    r.eng.no_raise(f'{what}: no exception', raised)
    return q


def lines(r, q):
    out = None
    for g, v in alts(q.get(r.me).f['_lines']):
        t = lib.list_term(r.eng, q, v)
        out = t if out is None else z3.If(tobool(g), t, out)
    return out


def new_elements(r, q, c):
    """[(guard, key, ref)] of what is added to a collection; removals and replacements are refused."""
    out = []
    store = q.get(r.nov[c]).x
    if store.base is not r.maps[c]:
        raise Unsupported('another map')
    for g, k, v in store.ups:
        if v is UNBOUND:
            r.eng.prove(f'frame: no element of {c} is removed', q, Not(g))
            continue
        for h, y in alts(v):
            if not isinstance(y, Ref):
                raise Unsupported('an element that is no object')
            out.append((And(g, h), k, y))
    return out


def frame(r, q, what, attrs=None, added=(), grow=None, heads=()):
    """Nothing of the novel changes, except the attributes of known elements in attrs {(collection, attribute): goal(key, old, new)},
    new elements of the collections in added, the list of scenes that grow(key, old, new) describes, and the attributes of the novel in heads."""
    eng = r.eng
    attrs = attrs or {}
    for c in COLLS:
        eng.prove(f'{what}: frame: the novel keeps its {c}', q, q.get(r.novel).f.get(c) == r.nov[c])
        if c not in added:
            new = new_elements(r, q, c)
            eng.prove(f'{what}: frame: no element is added to {c}', q, And(*[Not(g) for g, _, _ in new]))
        for k, o in r.maps[c].cache:
            old, new = LAZY[o.oid], q.heap.get(o.oid, LAZY[o.oid])
            for at in dict.fromkeys(list(old.f) + list(new.f)):
                x, y = old.f.get(at, UNBOUND), new.f.get(at, UNBOUND)
                if isinstance(x, Ref) and x == y:
                    l0, l1 = LAZY[x.oid], q.heap.get(x.oid, LAZY[x.oid])
                    if l0 is l1:
                        continue
                    was, got = l0.x[0][2], lib.list_term(eng, q, x)
                    eng.prove(f'{what}: {c}: {at} grows by a new scene only if this is the current chapter', q, grow(k, was, got) if grow and at == 'srtScenes' else got == was)
                    continue
                kept = r.equal(q, x, y)
                if kept is True:
                    continue
                goal = attrs.get((c, at))
                eng.prove(f'{what}: frame: {c}: {at} is kept', q, Or(kept, goal(k, x, y)) if goal else kept)
    for at in dict.fromkeys(list(r.nov) + list(q.get(r.novel).f)):
        if at in COLLS or at == 'languages' or at in heads:
            continue
        x, y = r.nov.get(at, UNBOUND), q.get(r.novel).f.get(at, UNBOUND)
        if at in LISTS:
            eng.prove(f'{what}: frame: novel.{at}', q, isinstance(y, Ref) and lib.list_term(eng, q, y) == z3.Const(at, SEQ))
            continue
        kept = r.equal(q, x, y)
        if kept is not True:
            eng.prove(f'{what}: frame: novel.{at}', q, kept)
    eng.prove(f'{what}: the reader keeps its novel', q, q.get(r.me).f['novel'] == r.novel)


def soft(eng, name, q, goal):
    """A goal about the private state of the reader: how the argument is made, so a failure decides nothing."""
    keep, eng.exact = eng.exact, False
    eng.prove(name, q, goal)
    eng.exact = keep


def join(seq):
    return lib.U_JOIN(S(''), seq)


def stored(r, q, coll, at, attr, want, what):
    """The current element has the value."""
    for g, v in alts(current(r, r.before, at)):
        if v is None:
            continue
        for h, e in alts(r.eng.store_get(q, q.get(r.nov[coll]).x, v)):
            if e is not UNBOUND:
                r.eng.prove(what, q, Implies(And(g, h), r.eng.eq(q, q.get(e).f[attr], want)))


def value(eng, q, v, want):
    return v is not UNBOUND and eng.eq(q, v, want)


def is_none(v):
    return Or(*[g for g, y in alts(v) if y is None])


def current(r, q, at):
    return q.get(r.me).f[at]


def is_key(r, v, key):
    return Or(*[And(g, r.eng.eq(r.before, y, key)) for g, y in alts(v) if y is not None])


def one_new(r, q, c, what, cond=True):
    """Exactly one element is added to a collection if cond holds: (key, ref)."""
    eng = r.eng
    new = [(g, k, y) for g, k, y in new_elements(r, q, c) if eng.known(q, Not(g)) is not True]
    refs = {y.oid for _, _, y in new}
    if len(refs) != 1:
        eng.prove(f'{what}: one element is added to {c}', q, Not(cond) if not new else False if not refs else z3.BoolVal(False))
        return None
    g, k, y = new[0]
    eng.prove(f'{what}: one element is added to {c}', q, And(Implies(cond, Or(*[h for h, _, _ in new])), Implies(Or(*[h for h, _, _ in new]), cond)))
    eng.prove(f'{what}: its ID is new', q, Implies(cond, z3.Not(r.maps[c].dom(term(k)))))
    return term(k), y


def u_heading(cname, tag, attrs=()):
    def f(u):
        r = reader(u, cname)
        eng = r.eng
        what = f'start of {tag}'
        q = run_(r, 'handle_starttag', [tag, r.st.alloc(Obj('list', x=(item(tuple(attrs)),)))], what)
        got = one_new(r, q, 'chapters', what)
        frame(r, q, what, added=('chapters',), heads=('srtChapters',))
        if got is None:
            return
        k, y = got
        o = q.get(y)
        l = q.get(r.novel).f['srtChapters']
        eng.prove(f'{what}: the chapter is the last one of the list', q, lib.list_term(eng, q, l) == z3.Concat(z3.Const('srtChapters', SEQ), z3.Unit(k)))
        eng.prove(f'{what}: it is a part if and only if the heading is of the first level', q, value(eng, q, o.f.get('chLevel', UNBOUND), 1 if tag == 'h1' else 0))
        eng.prove(f'{what}: it is a normal chapter', q, value(eng, q, o.f.get('chType', UNBOUND), 0))
        eng.prove(f'{what}: it has no scenes yet', q, isinstance(o.f.get('srtScenes'), Ref) and lib.list_term(eng, q, o.f['srtScenes']) == z3.Empty(SEQ))
        eng.prove(f'{what}: it is the current chapter', q, is_key(r, current(r, q, '_chId'), k))
        eng.prove(f'{what}: no scene is open', q, is_none(current(r, q, '_scId')))
        soft(eng, f'{what}: collecting of the title starts', q, z3.Length(lines(r, q)) == 0)
        f = q.get(r.me).f
        soft(eng, f'{what}: later IDs are new', q, And(f['_chCount'] > r.before.get(r.me).f['_chCount'], k == z3.IntToStr(f['_chCount'])))

    return f


def scene_added(r, q, what, cond):
    """A new scene at the end of the current chapter, if cond."""
    eng = r.eng
    got = one_new(r, q, 'scenes', what, cond)
    if got is None:
        return None
    k, y = got
    o = q.get(y)
    ch = current(r, r.before, '_chId')
    eng.prove(f'{what}: it is the current scene', q, Implies(cond, is_key(r, current(r, q, '_scId'), k)))
    eng.prove(f'{what}: it is a normal scene', q, value(eng, q, o.f.get('scType', UNBOUND), 0))
    eng.prove(f'{what}: it is an outline', q, value(eng, q, o.f.get('status', UNBOUND), 1))
    f = q.get(r.me).f
    soft(eng, f'{what}: later IDs are new', q, Implies(cond, And(f['_scCount'] > r.before.get(r.me).f['_scCount'], k == z3.IntToStr(f['_scCount']))))
    for g, v in alts(ch):
        if v is None:
            continue
        for h, c in alts(eng.store_get(q, q.get(r.nov['chapters']).x, v)):
            if c is UNBOUND:
                continue
            l = q.get(c).f['srtScenes']
            was = LAZY[LAZY[c.oid].f['srtScenes'].oid].x[0][2]
            eng.prove(f'{what}: the current chapter gets it as its last scene', q, Implies(And(g, h, cond), lib.list_term(eng, q, l) == z3.Concat(was, z3.Unit(k))))
    return k, lambda key, was, now: Or(And(Not(cond), now == was), And(cond, Or(And(is_key(r, ch, key), now == z3.Concat(was, z3.Unit(k))), And(Not(is_key(r, ch, key)), now == was))))


def u_par(tag, shape):
    def f(u):
        r = reader(u, 'OdtRImport')
        eng = r.eng
        lang = z3.String('language')
        what = f'start of {tag} ({shape})'
        attrs = [()] if shape == 'plain' else [('lang', lang)]
        q = run_(r, 'handle_starttag', [tag, r.st.alloc(Obj('list', x=tuple(item(a) for a in attrs)))], what)
        cond = And(r.ch, Not(r.sc))
        got = scene_added(r, q, what, cond)
        frame(r, q, what, added=('scenes',), grow=got and got[1])
        mark = {'p': '', 'li': '- ', 'blockquote': '> '}[tag]
        seq = [S(mark)] if mark else []
        if shape == 'lang' and tag != 'li':
            seq.append(z3.Concat(S('[lang='), lang, S(']')))
        new = z3.Concat(*[z3.Unit(x) for x in seq]) if len(seq) > 1 else z3.Unit(seq[0]) if seq else z3.Empty(SEQ)
        soft(eng, f'{what}: what is collected of a new scene starts here', q, Implies(cond, lines(r, q) == new))
        soft(eng, f'{what}: what was collected of the current scene is kept', q, Implies(r.sc, lines(r, q) == z3.Concat(r.lines0, new)))
        soft(eng, f'{what}: the current chapter stays', q, And(*[Implies(And(g, h), And((v is None) == (w is None), v is None or w is None or eng.eq(q, v, w)))
                  for at in ('_chId',) for g, v in alts(current(r, r.before, at)) for h, w in alts(current(r, q, at))]))

    return f


def u_outline_scene(u):
    r = reader(u, 'OdtROutline')
    eng = r.eng
    what = 'start of h3'
    r.st.assume(tobool(r.ch))
    q = run_(r, 'handle_starttag', ['h3', r.st.alloc(Obj('list', x=(item(()),)))], what)
    got = scene_added(r, q, what, True)
    frame(r, q, what, added=('scenes',), grow=got and got[1])
    soft(eng, f'{what}: collecting of the title starts', q, z3.Length(lines(r, q)) == 0)


def u_start_markup(tag, mark):
    """Formatting within the text of a scene."""
    def f(u):
        r = reader(u, 'OdtRImport')
        lang = z3.String('language')
        attrs = [('lang', lang)] if tag == 'lang' else [()]
        r.st.assume(z3.Not(r.st.get(r.me).f['_heading']))
        what = f'start of {tag}'
        q = run_(r, 'handle_starttag', [tag, r.st.alloc(Obj('list', x=tuple(item(a) for a in attrs)))], what)
        frame(r, q, what)
        soft(r.eng, f'{what}: the mark is collected', q, lines(r, q) == z3.Concat(r.lines0, z3.Unit(mark(lang))))

    return f


def u_end_markup(tag, mark):
    def f(u):
        r = reader(u, 'OdtRImport')
        r.st.assume(z3.Not(r.st.get(r.me).f['_heading']))
        what = f'end of {tag}'
        lang = r.st.get(r.me).f['_language']
        if tag == 'lang':
            r.st.assume(lang != S(''))
        q = run_(r, 'handle_endtag', [tag], what)
        frame(r, q, what)
        soft(r.eng, f'{what}: the mark is collected', q, lines(r, q) == z3.Concat(r.lines0, z3.Unit(mark(lang))))

    return f


def u_blank(cname):
    def f(u):
        r = reader(u, cname)
        q = run_(r, 'handle_starttag', ['s', r.st.alloc(Obj('list', x=(item(()),)))], 'blank')
        frame(r, q, 'blank')
        soft(r.eng, 'blank: a blank is collected', q, lines(r, q) == z3.Concat(r.lines0, z3.Unit(S(' '))))

    return f


def u_text(cname):
    def f(u):
        r = reader(u, cname)
        data = z3.String('data')
        what = 'text'
        if cname == 'OdtRImport':
            r.st.assume(z3.Not(z3.And(tobool(r.sc), z3.Contains(data, S('* * *')))))
        q = run_(r, 'handle_data', [data], what)
        frame(r, q, what)
        soft(r.eng, f'{what}: it is collected', q, lines(r, q) == z3.Concat(r.lines0, z3.Unit(data)))
        for at in ('_chId', '_scId'):
            soft(r.eng, f'{what}: {at} is kept', q, r.equal(q, current(r, r.before, at), current(r, q, at)))

    return f


def u_divider(u):
    r = reader(u, 'OdtRImport')
    data = z3.String('data')
    r.st.assume(tobool(r.sc), data == S('* * *'))
    q = run_(r, 'handle_data', [data], 'divider')
    frame(r, q, 'divider')
    r.eng.prove('divider: the scene is closed', q, is_none(current(r, q, '_scId')))
    r.eng.prove('divider: the chapter stays open', q, r.equal(q, current(r, r.before, '_chId'), current(r, q, '_chId')))


def u_comment(u):
    r = reader(u, 'OdtRImport')
    eng = r.eng
    data = z3.String('data')
    first = z3.Length(r.lines0) == 0
    q = run_(r, 'handle_comment', [data], 'comment')
    mine = lambda k: is_key(r, current(r, r.before, '_scId'), k)
    frame(r, q, 'comment', attrs={('scenes', 'title'): lambda k, x, y: And(first, mine(k), eng.eq(q, y, lib.U_STRIP(data)))})
    keep = lines(r, q) == r.lines0
    eng.prove('comment: at the beginning of a scene or out of scenes, the text is unchanged', q, Implies(Or(first, Not(r.sc)), keep))
    soft(eng, 'comment: within the text of a scene it is collected', q, Implies(And(Not(first), r.sc), lines(r, q) == z3.Concat(r.lines0, z3.Unit(z3.Concat(S('/*'), lib.U_STRIP(data), S('*/'))))))


def u_end_par(tag, inlang):
    def f(u):
        r = reader(u, 'OdtRImport')
        eng = r.eng
        eng.exact = False
        what = f'end of {tag}'
        lang = r.st.get(r.me).f['_language']
        r.st.assume(lang != S('') if inlang else lang == S(''))
        q = run_(r, 'handle_endtag', [tag], what)
        mine = lambda k: is_key(r, current(r, r.before, '_scId'), k)
        text = lines(r, q)
        frame(r, q, what, attrs={('scenes', '_sceneContent'): lambda k, x, y: mine(k), ('scenes', 'wordCount'): lambda k, x, y: mine(k), ('scenes', 'letterCount'): lambda k, x, y: mine(k),
                                 ('scenes', 'status'): lambda k, x, y: And(mine(k), Or(eng.eq(q, y, 1), eng.eq(q, y, 2)))})
        soft(eng, f'{what}: what is collected is kept, with the linebreak', q,
                  text == z3.If(lang == S(''), z3.Concat(r.lines0, z3.Unit(S('\n'))), z3.Concat(r.lines0, z3.Unit(z3.Concat(S('[/lang='), lang, S(']'))), z3.Unit(S('\n')))))
        stored(r, q, 'scenes', '_scId', '_sceneContent', CLEAN(lib.U_RSTRIP(z3.Concat(join(r.lines0), *([S('[/lang='), lang, S(']')] if inlang else []), S('\n')))), f'{what}: the collected text is the text of the scene')

    return f


def u_end_title(cname, tag):
    def f(u):
        r = reader(u, cname)
        eng = r.eng
        eng.exact = False
        what = f'end of {tag}'
        coll, at = ('scenes', '_scId') if tag == 'h3' else ('chapters', '_chId')
        r.st.assume(tobool(r.sc if tag == 'h3' else r.ch))
        q = run_(r, 'handle_endtag', [tag], what)
        mine = lambda k: is_key(r, current(r, r.before, at), k)
        frame(r, q, what, attrs={(coll, 'title'): lambda k, x, y: mine(k)})
        soft(eng, f'{what}: collecting starts again', q, z3.Length(lines(r, q)) == 0)
        t = join(r.lines0)
        stored(r, q, coll, at, 'title', lib.U_STRIP(t) if cname == 'OdtROutline' else t, f'{what}: the text of the heading is the title')

    return f


def u_end_desc(tag):
    def f(u):
        r = reader(u, 'OdtROutline')
        eng = r.eng
        eng.exact = False
        what = f'end of {tag} (outline)'
        q = run_(r, 'handle_endtag', [tag], what)
        sc = lambda k: is_key(r, current(r, r.before, '_scId'), k)
        ch = lambda k: And(Not(r.sc), is_key(r, current(r, r.before, '_chId'), k))
        frame(r, q, what, attrs={('scenes', 'desc'): lambda k, x, y: sc(k), ('chapters', 'desc'): lambda k, x, y: ch(k)})
        soft(eng, f'{what}: the text stays collected as one piece', q, z3.Length(lines(r, q)) == 1)
        for coll, at, cond in (('scenes', '_scId', r.sc), ('chapters', '_chId', And(r.ch, Not(r.sc)))):
            for g, v in alts(current(r, r.before, at)):
                if v is None:
                    continue
                for h, e in alts(eng.store_get(q, q.get(r.nov[coll]).x, v)):
                    if e is not UNBOUND:
                        soft(eng, f'{what}: the collected text is the description of the current element of {coll}', q, Implies(And(g, h, cond), eng.eq(q, q.get(e).f['desc'], lines(r, q)[0])))

    return f


def u_meta(cname):
    def f(u):
        for name, at in (('author', 'authorName'), ('description', 'desc')):
            r = reader(u, cname)
            v = z3.String('value')
            what = f'meta {name}'
            q = run_(r, 'handle_starttag', ['meta', r.st.alloc(Obj('list', x=(item(('', name)), item(('', v)))))], what)
            frame(r, q, what, heads=(at,))
            r.eng.prove(f'{what}: it is the {at} of the project', q, r.eng.eq(q, q.get(r.novel).f[at], v))

    return f


def u_ids(u):
    n, k = z3.Ints('n k')
    u.lemma('an ID above all numbers used is new', [k >= 1, k <= n], z3.IntToStr(k) != z3.IntToStr(n + 1))


UNITS = [('IDs', u_ids)]
for _c in MODS:
    for _t in ('h1', 'h2'):
        UNITS.append((f'{_c}: start of {_t}', u_heading(_c, _t)))
        UNITS.append((f'{_c}: end of {_t}', u_end_title(_c, _t)))
    UNITS.append((f'{_c}: text', u_text(_c)))
    UNITS.append((f'{_c}: blank', u_blank(_c)))
    UNITS.append((f'{_c}: meta data', u_meta(_c)))
for _t in ('p', 'li', 'blockquote'):
    for _s in ('plain', 'lang'):
        UNITS.append((f'OdtRImport: start of {_t} ({_s})', u_par(_t, _s)))
for _t in ('p', 'blockquote'):
    UNITS.append((f'OdtRImport: end of {_t}', u_end_par(_t, False)))
    UNITS.append((f'OdtRImport: end of {_t} (lang)', u_end_par(_t, True)))
    UNITS.append((f'OdtROutline: end of {_t}', u_end_desc(_t)))
for _t, _m in (('em', 'i'), ('strong', 'b')):
    UNITS.append((f'OdtRImport: start of {_t}', u_start_markup(_t, lambda l, m=_m: S(f'[{m}]'))))
    UNITS.append((f'OdtRImport: end of {_t}', u_end_markup(_t, lambda l, m=_m: S(f'[/{m}]'))))
UNITS.append(('OdtRImport: start of lang', u_start_markup('lang', lambda l: z3.Concat(S('[lang='), l, S(']')))))
UNITS.append(('OdtRImport: end of lang', u_end_markup('lang', lambda l: z3.Concat(S('[/lang='), l, S(']')))))
UNITS.append(('OdtRImport: comment', u_comment))
UNITS.append(('OdtRImport: divider', u_divider))
UNITS.append(('OdtROutline: start of h3', u_outline_scene))
UNITS.append(('OdtROutline: end of h3', u_end_title('OdtROutline', 'h3')))


# ------------------------------------------------------------ the parser that calls the handlers

OS = opt_of(STR)
TABS = ('_languageTags', '_headingTags')
SETS = ('_emTags', '_strongTags', '_blockquoteTags')


def parser(u, **state):
    """An arbitrary parser between two events, and a client that records the calls of its handlers as a text."""
    eng = u.engine()
    models.install(eng)
    cls = eng.get_global('pywriter.odt_r.odt_parser', 'OdtParser')
    ccls = eng.get_global('pywriter.odt_r.odt_r_import', 'OdtRImport')
    eng.exact = False       # the goals speak about the private state of the parser
    st = eng.start()

    def event(kind):
        def f(e, s, a, kw):
            me, a = a[0], list(a[1:])
            tag = a[0] if a else kw.get('tag', kw.get('data'))
            t = over(e, s, tag, term)
            if kind == 'start':
                t = z3.Concat(t, over(e, s, a[1], lambda l: attr(e, s, [v for _, g, v in s.get(l).x])))
            o = s.edit(me)
            o.f['trace'] = z3.Concat(term(o.f['trace']), S({'start': '<', 'end': '</', 'data': '"', 'comment': '#'}[kind]), t, S('>'))
            return None
        return f

    def over(e, s, v, f):
        *first, (_, last) = [(g, x) for g, x in alts(v) if e.feasible(s, g)]
        out = f(last)
        for g, x in reversed(first):
            out = z3.If(tobool(g), f(x), out)
        return out

    def attr(e, s, v):
        out = S('')
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, tuple) and len(x) == 2:
                out = z3.Concat(out, S(' '), term(x[0]), S('='), over(e, s, x[1], term))
        return out

    for k, n in (('start', 'handle_starttag'), ('end', 'handle_endtag'), ('data', 'handle_data'), ('comment', 'handle_comment')):
        eng.contracts[f'pywriter.odt_r.odt_r_import.OdtRImport.{n}'] = event(k)
    client = st.alloc(Obj('inst', {'trace': z3.String('trace')}, ccls))
    f = {k: st.alloc(Obj('list', x=(run(z3.Const(f'self.{k}', SEQ)),))) for k in SETS}
    for k in TABS:
        f[k] = st.alloc(Obj('dict', x=tab_store(z3.Const(f'self.{k}', z3.ArraySort(STR, OS)), OS)))
    f.update(_heading=eng.opt('self._heading'), _paragraph=z3.Bool('self._paragraph'), _commentParagraphCount=None, _blockquote=z3.Bool('self._blockquote'),
             _list=z3.Bool('self._list'), _comment=z3.String('self._comment'), _style=eng.opt('self._style'), _client=client)
    f['_span'] = st.alloc(Obj('list', x=()))
    f.update(state)
    if isinstance(f['_span'], list):
        f['_span'] = stack(st, f['_span'])
    me = st.alloc(Obj('inst', f, cls))
    return eng, st, me, client


def stack(st, spans):
    return st.alloc(Obj('list', x=tuple(item(st.alloc(Obj('list', x=tuple(item(t) for t in l)))) for l in spans)))


def step(eng, st, me, name, args, what):
    q = eng.run(st, lambda s: eng.call_method(s, me, name, args))
    eng.no_raise(f'{what}: no exception', q[2])
    if q[1] is None:
        raise Unsupported('never returns')
    return q[1]


def attributes_of(st, d):
    return st.alloc(Obj('dict', x=Store(None, tuple((True, k, v) for k, v in d.items()))))


def ifs(*cases):
    """Text by cases: (condition, text), ..., text"""
    out = cases[-1]
    for g, t in reversed(cases[:-1]):
        out = z3.If(tobool(g), t, out)
    return out


def cat(*t):
    t = [S(x) if isinstance(x, str) else x for x in t]
    return z3.Concat(*t) if len(t) > 1 else t[0]


class P:
    """What the parser knows about a style."""

    def __init__(self, style):
        has = lambda k: z3.Contains(z3.Const(f'self.{k}', SEQ), z3.Unit(style))
        tab = lambda k: z3.Select(z3.Const(f'self.{k}', z3.ArraySort(STR, OS)), style)
        self.em, self.strong, self.quote = (has(k) for k in SETS)
        self.lang, self.heading = OS.is_some(tab('_languageTags')), OS.is_some(tab('_headingTags'))
        self.locale, self.level = OS.val(tab('_languageTags')), OS.val(tab('_headingTags'))
        self.named = z3.PrefixOf(S('Heading'), style)
        self.last = z3.SubString(style, z3.Length(style) - 1, 1)

    def spans(self, lang):
        return cat(ifs((self.em, S('<em>')), S('')), ifs((self.strong, S('<strong>')), S('')),
                   ifs((lang, cat('<lang lang=', self.locale, '>')), S('')))


def u_parser_par(u):
    style, inlist = z3.String('style'), z3.Bool('self._list')
    eng, st, me, client = parser(u)
    p = P(style)
    q = step(eng, st, me, 'startElement', ['text:p', attributes_of(st, {'text:style-name': style})], 'start of a paragraph')
    with_lang = lambda tag: cat(f'<{tag}', ifs((p.lang, cat(' lang=', p.locale)), S('')), '>')
    head = Or(p.named, p.heading)
    want = cat('', ifs((p.quote, with_lang('blockquote')), (p.named, cat('<h', p.last, '>')), (p.heading, cat('<', p.level, '>')), (inlist, S('<li>')), with_lang('p')),
               p.spans(And(p.lang, inlist, Not(p.quote), Not(head))))
    eng.prove('start of a paragraph: the client is told its kind, its language, and the formatting of its style', q, q.get(client).f['trace'] == cat(z3.String('trace'), want))
    eng, st, me, client = parser(u, _commentParagraphCount=z3.Int('n'))
    q = step(eng, st, me, 'startElement', ['text:p', attributes_of(st, {'text:style-name': style})], 'paragraph of a comment')
    eng.prove('start of a paragraph of a comment: it is counted only', q, And(q.get(client).f['trace'] == z3.String('trace'), q.get(me).f['_commentParagraphCount'] == z3.Int('n') + 1))


def u_parser_span(u):
    style = z3.String('style')
    for below in ([], ['em'], ['em', 'strong']):
        eng, st, me, client = parser(u, _span=[below])
        p = P(style)
        what = f'span within {below}'
        q = step(eng, st, me, 'startElement', ['text:span', attributes_of(st, {'text:style-name': style})], what)
        eng.prove(f'{what}: the client is told the formatting of its style', q, q.get(client).f['trace'] == cat(z3.String('trace'), p.spans(p.lang)))
        q = step(eng, q, me, 'endElement', ['text:span'], what)
        ends = cat(ifs((p.lang, S('</lang>')), S('')), ifs((p.strong, S('</strong>')), S('')), ifs((p.em, S('</em>')), S('')))
        eng.prove(f'{what}: its end ends just this formatting, in reverse order', q, q.get(client).f['trace'] == cat(z3.String('trace'), p.spans(p.lang), ends))
        q = step(eng, q, me, 'endElement', ['text:p'], what)
        heads = alts(eng.opt('self._heading'))
        tail = [x for t in reversed(below) for x in (f'</{t}>',)]
        level = next(term(v) for g, v in heads if v is not None)
        end = ifs((z3.Bool('self._blockquote'), S('</blockquote>')), (And(Or(*[g for g, v in heads if v is not None]), z3.Length(level) > 0), cat('</', level, '>')), S('</p>'))
        eng.prove(f'{what}: the end of the paragraph ends what is left, and the paragraph', q, q.get(client).f['trace'] == cat(z3.String('trace'), p.spans(p.lang), ends, *(tail + [end])))
    eng, st, me, client = parser(u, _commentParagraphCount=z3.Int('n'), _span=[['em']])
    for name, args in (('startElement', ['text:span', attributes_of(st, {'text:style-name': style})]), ('endElement', ['text:span']), ('endElement', ['text:p'])):
        q = step(eng, st, me, name, args, f'{name} {args[0]} within a comment')
        eng.prove(f'{name} {args[0]} within a comment: the client is told nothing', q, q.get(client).f['trace'] == z3.String('trace'))


def u_parser_text(u):
    t, c0 = z3.String('content'), z3.String('self._comment')
    eng, st, me, client = parser(u)
    head = Or(*[g for g, v in alts(eng.opt('self._heading')) if v is not None])
    q = step(eng, st, me, 'characters', [t], 'text')
    eng.prove('text: the client is told all text of paragraphs and headings', q,
              q.get(client).f['trace'] == cat(z3.String('trace'), ifs((Or(z3.Bool('self._paragraph'), head), cat('"', t, '>')), S(''))))
    n = z3.Int('n')
    eng, st, me, client = parser(u, _commentParagraphCount=n)
    q = step(eng, st, me, 'characters', [t], 'text of a comment')
    eng.prove('text of a comment: collected, not told', q, And(q.get(client).f['trace'] == z3.String('trace'), Implies(n == 1, q.get(me).f['_comment'] == z3.Concat(c0, t))))
    q = step(eng, st, me, 'endElement', ['office:annotation'], 'end of a comment')
    eng.prove('end of a comment: the client is told the comment', q, q.get(client).f['trace'] == cat(z3.String('trace'), '#', ifs((n == 1, z3.Concat(c0, t)), c0), '>'))
    eng.prove('end of a comment: text counts again', q, q.get(me).f['_commentParagraphCount'] is None)
    eng, st, me, client = parser(u)
    q = step(eng, st, me, 'startElement', ['office:annotation', attributes_of(st, {})], 'start of a comment')
    eng.prove('start of a comment: no text yet', q, And(q.get(client).f['trace'] == z3.String('trace'), q.get(me).f['_commentParagraphCount'] == 0, term(q.get(me).f['_comment']) == S('')))


def u_parser_style(u):
    name, parent, other = z3.String('name'), z3.String('parent'), z3.String('other')
    eng, st, me, client = parser(u)
    q = step(eng, st, me, 'startElement', ['style:style', attributes_of(st, {'style:name': name, 'style:parent-style-name': parent})], 'style')
    eng.prove('style: the client is told nothing', q, q.get(client).f['trace'] == z3.String('trace'))
    for k in SETS:
        was = z3.Const(f'self.{k}', SEQ)
        now = lib.list_term(eng, q, q.get(me).f[k])
        grows = And(k == '_blockquoteTags', parent == S('Quotations'))
        eng.prove(f'style: {k}: known styles stay, quotations are added', q, now == z3.If(tobool(grows), z3.Concat(was, z3.Unit(name)), was))
    tab = tab_term(q.get(q.get(me).f['_headingTags']).x)
    was = z3.Const('self._headingTags', z3.ArraySort(STR, OS))
    level = z3.Concat(S('h'), z3.SubString(parent, z3.Length(parent) - 1, 1))
    eng.prove('style: headings are added', q, z3.Select(tab, other) == z3.If(z3.And(z3.PrefixOf(S('Heading'), parent), other == name), OS.some(level), z3.Select(was, other)))
    for italic in ('italic', 'normal', None):
        for bold in ('bold', 'normal', None):
            for lang in (None, 'country', 'none'):
                d = {'fo:font-style': italic, 'fo:font-weight': bold}
                l, c = z3.String('language'), S('none') if lang == 'none' else z3.String('country')
                if lang:
                    d.update({'fo:language': l, 'fo:country': c})
                d = {k: v for k, v in d.items() if v is not None}
                eng, st, me, client = parser(u, _style=name)
                if lang:
                    st.assume(z3.Length(l) > 0)
                what = f'text properties {italic}/{bold}/{lang}'
                q = step(eng, st, me, 'startElement', ['style:text-properties', attributes_of(st, d)], what)
                for k, on in (('_emTags', italic == 'italic'), ('_strongTags', bold == 'bold'), ('_blockquoteTags', False)):
                    was = z3.Const(f'self.{k}', SEQ)
                    eng.prove(f'{what}: {k}', q, lib.list_term(eng, q, q.get(me).f[k]) == (z3.Concat(was, z3.Unit(name)) if on else was))
                tab, was = tab_term(q.get(q.get(me).f['_languageTags']).x), z3.Const('self._languageTags', z3.ArraySort(STR, OS))
                loc = z3.If(c == S('none'), l, z3.Concat(l, S('-'), c))
                eng.prove(f'{what}: the language', q, z3.Select(tab, other) == (z3.If(other == name, OS.some(loc), z3.Select(was, other)) if lang else z3.Select(was, other)))


def u_parser_rest(u):
    trace, level, sid = z3.String('trace'), z3.String('level'), z3.String('id')
    for below in ([], ['em'], ['strong', 'lang']):
        for quote in (True, False):
            for heading in (None, level):
                eng, st, me, client = parser(u, _span=[below], _blockquote=quote, _heading=heading)
                if heading is not None:
                    st.assume(z3.Length(level) > 0)
                what = f'end of a paragraph ({below}, {"quotation" if quote else "no quotation"}, {"heading" if heading is not None else "no heading"})'
                q = step(eng, st, me, 'endElement', ['text:p'], what)
                f = q.get(me).f
                eng.prove(f'{what}: nothing stays open', q, And(Not(f['_paragraph']), Not(f['_blockquote']), Not(eng.truth(q, f['_span'])), True if quote else Not(eng.truth(q, f['_heading']))))
    sequence = [('text:h', {'text:outline-level': level}, cat('<h', level, '>'), cat('</h', level, '>')),
                ('text:section', {'text:name': sid}, cat('<div id=', sid, '>'), S('</div>')),
                ('text:s', {}, S('<s>'), S('')), ('text:list-item', {}, S(''), S('')), ('text:list', {}, S(''), S('')), ('office:text', {}, S(''), S(''))]
    for name, attrs, start, end in sequence:
        eng, st, me, client = parser(u)
        f0 = dict(st.get(me).f)
        q = step(eng, st, me, 'startElement', [name, attributes_of(st, attrs)], f'start of {name}')
        eng.prove(f'start of {name}: what the client is told', q, q.get(client).f['trace'] == cat(trace, start))
        if name == 'text:list-item':
            eng.prove('start of a list item: known', q, eng.truth(q, q.get(me).f['_list']))
        q = step(eng, q, me, 'endElement', [name], f'end of {name}')
        eng.prove(f'end of {name}: what the client is told', q, q.get(client).f['trace'] == cat(trace, start, end))
        f1 = q.get(me).f
        if name == 'text:list-item':
            eng.prove('end of a list item: known', q, Not(eng.truth(q, f1['_list'])))
            f0.pop('_list')
        if name == 'text:h':
            eng.prove('end of a heading: no heading is open', q, Not(eng.truth(q, f1['_heading'])))
            f0.pop('_heading')
        for k in ('_heading', '_paragraph', '_blockquote', '_list', '_comment', '_style', '_commentParagraphCount', '_client'):
            if k in f0:
                eng.prove(f'{name}: {k} is as it was', q, same_value(eng, q, f0[k], f1[k]))
    eng, st, me, client = parser(u, _style=sid)
    q = step(eng, st, me, 'endElement', ['style:style'], 'end of a style')
    eng.prove('end of a style: text properties that follow belong to no style', q, eng.is_(q, q.get(me).f['_style'], None))
    eng.prove('end of a style: the client is told nothing', q, q.get(client).f['trace'] == trace)


def same_value(eng, q, a, b):
    return a is b or a == b if isinstance(a, Ref) else eng.eq(q, a, b)


UNITS += [('OdtParser: other elements', u_parser_rest), ('OdtParser: paragraphs', u_parser_par), ('OdtParser: spans', u_parser_span), ('OdtParser: text and comments', u_parser_text), ('OdtParser: styles', u_parser_style)]
