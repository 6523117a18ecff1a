"""C02: types of scenes and chapters: encoding in the file, decoding of all documented encodings, inheritance from the chapter."""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, loops, xmlmodel
from pyvc.xmlmodel import kid
from proofs import yw7
from proofs.yw7 import *
from proofs.c01 import one_of, or_default

LEVEL = 'proof'
TRUSTED = yw7.TRUSTED
ASSUMPTIONS = yw7.ASSUMPTIONS + ['the types of two different elements do not depend on each other, except through the chapter of a scene', 'a scene belongs to one chapter at most; all scenes of a chapter exist']
INT = z3.IntSort()
# documented encodings: type -> texts of the elements (None: no element)
SCENE = {0: {'Unused': None, 'Fields/Field_SceneType': None}, 1: {'Unused': '-1', 'Fields/Field_SceneType': '1'},
         2: {'Unused': '-1', 'Fields/Field_SceneType': '2'}, 3: {'Unused': '-1', 'Fields/Field_SceneType': '0'}}
CHAPTER = {0: {'Unused': None, 'Type': '0', 'ChapterType': '0'}, 1: {'Unused': '-1', 'Type': '1', 'ChapterType': '1'},
           2: {'Unused': '-1', 'Type': '1', 'ChapterType': '2'}, 3: {'Unused': '-1', 'Type': '1', 'ChapterType': '0'}}


def text_at(eng, st, x, path):
    """Text of the element at a path: union of None (no such element) and texts; an empty element gives ''."""
    vals = [(True, x)]
    for tag in path.split('/'):
        vals = [(And(g, h), c) for g, v in vals for h, c in ([(True, UNBOUND)] if v is UNBOUND else alts(kid(eng, st, v, tag)))]
    out = []
    for g, v in vals:
        if v is UNBOUND:
            out.append((g, None))
        else:
            out += [(And(g, h), '' if t is None else t) for h, t in alts(st.get(v).f['text'])]
    return make_union(out)


def u_encode(u, kind_, mode):
    """Any type is written in the current encoding, over any old one, and read back."""
    w = World(u, kind_, mode)
    eng = w.eng
    a = 'scType' if kind_ == 'scene' else 'chType'
    if mode == 'stored':
        w.read_stored()
    T = one_of(a, None, 0, 1, 2, 3)
    init = w.st.alloc(Obj('inst', {}, w.classes[kind_]))
    _, st, raised = eng.run(w.st, lambda s: eng.call(s, eng.getattr(s, init, '__init__'), [], {}))
    eng.no_raise('a new element', raised)
    w.st = st
    E = dict(st.get(init).f)
    E[a] = T
    w.make_novel(E)
    st = w.write()
    x = w.written_element(st)
    for n, enc in (SCENE if kind_ == 'scene' else CHAPTER).items():
        c = eng.eq(st, or_default(T, 0), n)
        s = st.fork(c)
        for path, t in enc.items():
            eng.prove(f'{kind_} of type {n}: {path} is {t!r}', s, eng.eq(s, text_at(eng, s, x, path), t) if t != '-1' else Not(eng.is_(s, text_at(eng, s, x, path), None)))
    st, nv = w.read_back()
    f = st.get(w.element_of(st, nv)).f
    eng.prove(f'{kind_}: the type is read as written', st, eng.eq(st, f[a], or_default(T, 0)))


def u_decode(u, kind_):
    """Every encoding in a file is read as documented."""
    w = World(u, kind_, 'stored')
    eng = w.eng
    st0 = w.st
    get = lambda path: text_at(eng, st0, w.file_elem, path)
    if kind_ == 'scene':
        unused, t = get('Unused'), get('Fields/Field_SceneType')
    else:
        unused, ty, ct = get('Unused'), get('Type'), get('ChapterType')
    st, old = w.read_stored()
    f = st.get(w.element_of(st, old)).f
    U = Not(eng.is_(st, unused, None))
    # not written in place: texts of an element do not change by reading
    if kind_ == 'scene':
        is_ = lambda v: eng.eq(st, t, v)
        want = [(is_('1'), 1), (And(Not(is_('1')), is_('2')), 2), (And(Not(is_('1')), Not(is_('2')), U), 3), (And(Not(is_('1')), Not(is_('2')), Not(U)), 0)]
        eng.prove('scene: every encoding is read as documented', st, eng.eq(st, f['scType'], make_union(want)))
    else:
        new = Not(eng.is_(st, ct, None))
        is_, old_ = (lambda v: eng.eq(st, ct, v)), (lambda v: eng.eq(st, ty, v))
        want = [(And(new, is_('2')), 2), (And(new, is_('1')), 1), (And(new, Not(is_('1')), Not(is_('2')), U), 3), (And(new, Not(is_('1')), Not(is_('2')), Not(U)), 0),
                (And(Not(new), old_('1')), 1), (And(Not(new), Not(old_('1')), U), 3), (And(Not(new), Not(old_('1')), Not(U)), 0)]
        documented = Or(new, Not(eng.is_(st, ty, None)))
        eng.prove('chapter: every encoding is read as documented', st.fork(documented), eng.eq(st, f['chType'], make_union(want)))


# -------------------------------------------------------------------- inheritance
def u_applied(u, kind_):
    """read() lets the scenes inherit the types at last: after all chapters and scenes are there, and nothing changes the types afterwards."""
    w = World(u, kind_, 'stored')
    eng = w.eng
    g = w.st.alloc(Obj('ghost', {'done': False, 'chapters': z3.Empty(SEQ)}))
    new = z3.Int('inherited type')

    def adjust(e, st, a, kw):
        nv = e.narrow(st, st.get(a[0]).f['novel'])
        o = st.edit(g)
        o.f['done'] = True
        o.f['chapters'] = lib.list_term(e, st, e.narrow(st, st.get(nv).f['srtChapters']))
        if kind_ == 'scene':
            x = w.element_of(st, nv)
            st.edit(x).f['scType'] = new

    eng.contracts[f'{MOD}.Yw7File.adjust_scene_types'] = adjust
    st, nv = w.read_stored()
    o = st.get(g).f
    eng.prove('the scenes inherit the types', st, o['done'])
    eng.prove('all chapters are there then', st, o['chapters'] == lib.list_term(eng, st, eng.narrow(st, st.get(nv).f['srtChapters'])))
    if kind_ == 'scene':
        eng.prove('the types are final', st, eng.eq(st, st.get(w.element_of(st, nv)).f['scType'], new))


def u_adjust(u):
    """adjust_scene_types: invariant over the chapters and the scenes of a chapter; types as a map from scene ID to type."""
    eng = u.engine()
    M, A, S = eng.libs['%methods'], eng.libs['%attrs'], eng.libs['%setattrs']
    CT = z3.Function('chapter_type', STR, INT)
    CS = z3.Function('scenes_of_chapter', STR, SEQ)
    isch, issc = z3.Function('is_chapter', STR, z3.BoolSort()), z3.Function('is_scene', STR, z3.BoolSort())
    t = z3.Const('srtChapters', SEQ)
    T0 = z3.Const('types', z3.ArraySort(STR, INT))
    st = eng.start()
    cell = st.alloc(Obj('types', {'A': T0}))

    def member(dom, kind_):
        def get(e, s, o, a, kw):
            k = a[0]
            if kind(k) != 'str':
                e.raise_new(s, KeyError)
            e.raise_if(s, z3.Not(dom(term(k))), KeyError)
            return s.alloc(Obj(kind_, {'key': term(k)}))
        return get

    def values(e, s, o, a, kw):
        raise Unsupported('iteration over a map')

    M[('chmap', '__getitem__')] = member(isch, 'ch')
    M[('scmap', '__getitem__')] = member(issc, 'sc')
    A[('ch', 'chType')] = lambda e, s, o: CT(s.get(o).f['key'])
    A[('ch', 'srtScenes')] = lambda e, s, o: s.alloc(Obj('list', x=(run(CS(s.get(o).f['key'])),)))
    A[('sc', 'scType')] = lambda e, s, o: z3.Select(s.get(cell).f['A'], s.get(o).f['key'])

    # whatever else is asked for may be anything
    for k, names in (('ch', ('isTrash', 'suppressChapterTitle', 'suppressChapterBreak')), ('sc', ('doNotExport', 'appendToPrev', 'isSubPlot', 'isReactionScene'))):
        for n in names:
            A[(k, n)] = lambda e, s, o, F=z3.Function(f'{k}_{n}', STR, z3.BoolSort()): F(s.get(o).f['key'])
    A[('ch', 'chLevel')] = lambda e, s, o, F=z3.Function('chapter_level', STR, INT): F(s.get(o).f['key'])

    def set_type(e, s, o, v):
        if kind(v) != 'int':
            raise Unsupported('type of a scene')
        c = s.edit(cell)
        c.f['A'] = z3.Store(c.f['A'], s.get(o).f['key'], term(v))

    S[('sc', 'scType')] = set_type
    y, x = z3.String('scene'), z3.String('chapter')
    k = z3.Int('k')
    seq = z3.Const('seq', SEQ)
    pre = z3.Function('in_prefix', SEQ, INT, STR, z3.BoolSort())  # ghost: the first k elements contain the scene
    TY = z3.Function('type_after', INT, STR, INT)  # ghost: type after the first k chapters

    def arrays(lp):
        return [v for v in lp.vars if v[0] == cell.oid]

    def hook(e, s, node, it, env, mod):
        if not (isinstance(it, Ref) and s.get(it).kind == 'list' and len(s.get(it).x) == 1 and s.get(it).x[0][0] == 's'):
            return False
        q = s.get(it).x[0][2]
        outer = q.eq(t)
        if outer:
            s.assume(z3.ForAll([y], TY(0, y) == z3.Select(s.get(cell).f['A'], y)))
        else:
            if not (z3.is_app(q) and q.decl().eq(CS)):
                return False
            chid = q.arg(0)
            s.assume(z3.ForAll([y], z3.Not(pre(q, 0, y))), z3.ForAll([y], pre(q, z3.Length(q), y) == z3.Contains(q, z3.Unit(y)), patterns=[pre(q, z3.Length(q), y)]))
        before = s.get(cell).f['A']

        def elem(z, n):
            z.assume(q[n] != EMPTY)
            if outer:
                z.assume(isch(q[n]), z3.ForAll([y], TY(n + 1, y) == z3.If(z3.And(CT(q[n]) != 0, z3.Contains(CS(q[n]), z3.Unit(y))), CT(q[n]), TY(n, y))))
            else:
                z.assume(issc(q[n]), z3.ForAll([y], pre(q, n + 1, y) == z3.Or(pre(q, n, y), y == q[n])))
            return q[n]

        def inv(lp, z, n):
            now = z.get(cell).f['A']
            if outer:
                return z3.ForAll([y], z3.Select(now, y) == TY(n, y))
            return z3.ForAll([y], z3.Select(now, y) == z3.If(pre(q, n, y), CT(chid), z3.Select(before, y)))

        loops.for_loop(e, s, node, env, mod, 'chapters' if outer else 'scenes of a chapter', elem, inv,
                       havoc=lambda z, oid, f, old, new: e.fresh('types', z3.ArraySort(STR, INT)) if oid == cell.oid else None, length=z3.Length(q))
        return True

    eng.loop_hooks.insert(0, hook)
    novel = st.alloc(Obj('inst', {'srtChapters': st.alloc(Obj('list', x=(run(t),))), 'chapters': st.alloc(Obj('chmap')), 'scenes': st.alloc(Obj('scmap'))}, eng.get_global('pywriter.model.novel', 'Novel')))
    prj = st.alloc(Obj('inst', {'novel': novel}, eng.get_global(MOD, 'Yw7File')))
    f = eng.get_global(MOD, 'Yw7File', 'adjust_scene_types')
    _, st1, raised = eng.run(st, lambda s: eng.call(s, f, [prj], {}))
    eng.no_raise('adjust_scene_types never raises', raised)
    eng.cover('adjust_scene_types returns', st1)
    eng.prove('every scene has the type given by its chapter, or its own', st1, z3.ForAll([y], z3.Select(st1.get(cell).f['A'], y) == TY(z3.Length(t), y)))
    # the ghost type is the type of the (only) chapter, if it is not normal: induction over the chapters
    i0, n = z3.Ints('i0 n')
    a0, ty = z3.Int('own'), z3.Function('ty', INT, INT)
    ct = z3.Function('ct', INT, INT)
    P = lambda m: ty(m) == z3.If(z3.And(m > i0, i0 >= 0, ct(i0) != 0), ct(i0), a0)
    u.lemma('type by chapter: start', [ty(0) == a0, i0 >= -1], P(z3.IntVal(0)))
    u.lemma('type by chapter: step', [P(n), n >= 0, ty(n + 1) == z3.If(z3.And(ct(n) != 0, n == i0), ct(n), ty(n))], P(n + 1))


UNITS = []
for kind_ in ('scene', 'chapter'):
    for mode in ('new file', 'stored', 'added'):
        UNITS.append((f'{kind_} encoding ({mode})', lambda u, k=kind_, m=mode: u_encode(u, k, m)))
    UNITS.append((f'{kind_} decoding', lambda u, k=kind_: u_decode(u, k)))
for kind_ in ('scene', 'chapter'):
    UNITS.append((f'inheritance is applied ({kind_})', lambda u, k=kind_: u_applied(u, k)))
UNITS.append(('scenes inherit the type', u_adjust))
