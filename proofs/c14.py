"""C14: CrossReferences.generate_xref for an arbitrary project, with loop invariants over unbounded lists.

The specification is a fold: occurrences in the elements before, followed by the element at hand if it has the key. The tables are
described at an arbitrary key; what is proved for it holds for all keys.
"""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, loops, slots
from pyvc.lib import STR, SEQ
from pyvc.slots import LISTS, TEXTS, seqof, Slots
from proofs.yw7 import has

LEVEL = 'proof'
TRUSTED = ['dictionaries and lists of Python by contract (pyvc/slots.py)']
ASSUMPTIONS = ['the IDs in the sorted lists and in the scenes exist; a list of IDs or tags has no duplicates', 'a scene stands in one chapter']
E = z3.Empty(SEQ)
KINDS = {'Characters': ('characters', 'scnPerChr', 'chrPerTag'), 'Locations': ('locations', 'scnPerLoc', 'locPerTag'), 'Items': ('items', 'scnPerItm', 'itmPerTag')}
TABLES = ['scnPerChr', 'scnPerLoc', 'scnPerItm', 'scnPerTag', 'chrPerTag', 'locPerTag', 'itmPerTag', 'chpPerScn']


def of(kind_, attr):
    """The list attribute of an element: (not set, contents) as functions of the ID."""
    return z3.Function(f'{kind_}.{attr}?none', STR, z3.BoolSort()), z3.Function(f'{kind_}.{attr}', STR, SEQ)


def value(kind_, attr, x):
    n, f = of(kind_, attr)
    return z3.If(n(x), E, f(x))


SCENES = {'scnPerChr': 'characters', 'scnPerLoc': 'locations', 'scnPerItm': 'items', 'scnPerTag': 'tags'}
FS = {d: z3.Function(f'{d}_of_scenes', STR, SEQ, SEQ, SEQ) for d in SCENES}  # key, before, scenes
FC = {d: z3.Function(f'{d}_of_chapters', STR, SEQ, SEQ, SEQ) for d in SCENES}  # key, before, chapters
FT = {d: z3.Function(f'{d}_of_elements', STR, SEQ, SEQ, SEQ) for _, _, d in KINDS.values()}
CHS, CHC = z3.Function('chapter_of_scenes', STR, TEXTS, STR, SEQ, TEXTS), z3.Function('chapter_of_chapters', STR, TEXTS, SEQ, TEXTS)
ALL = z3.Function('scenes_of_chapters', SEQ, SEQ)


def unit_or(c, x):
    return z3.If(c, z3.Unit(x), E)


def define(fn, args, s, done, step):
    """Definition of a fold at 'done': nothing, or elements P and one more."""
    if done.eq(E):
        return fn(*args, s, E) == s
    if done.decl().kind() == z3.Z3_OP_SEQ_CONCAT and done.num_args() == 2 and done.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
        p, x = done.arg(0), done.arg(1).arg(0)
        return fn(*args, s, done) == step(fn(*args, s, p), x)
    return z3.BoolVal(True)


def u_xref(u):
    eng = u.engine()
    slots.install(eng)
    cls = eng.get_global('pywriter.model.cross_references', 'CrossReferences')
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    M = eng.libs['%methods']
    st = eng.start()
    made = []

    def make(kind_, attrs, key):
        f = {}
        for a in attrs:
            n, g = of(kind_, a)
            s = State()
            l = s.alloc(Obj('list', x=(run(g(key)),)))
            LAZY[l.oid] = s.get(l)
            eng.src[g(key).get_id()] = (g(key), kind_, a, key)
            f[a] = l if (kind_, a) == ('chapters', 'srtScenes') else Union([(n(key), None), (z3.Not(n(key)), l)])
        return Obj('inst', f, base)

    eng.src = {}
    known = set()

    def axiom(f):
        if f.get_id() not in known and not z3.is_true(f):
            known.add(f.get_id())
            eng.axioms.append(f)

    cache = {}

    def getitem(e, s, o, a, kw):
        x = s.get(o).f
        key = term(a[0])
        dom = z3.Function(f'in_{x["name"]}', STR, z3.BoolSort())
        e.raise_if(s, z3.Not(dom(key)), KeyError, a[0])
        k = (x['name'], key.get_id())
        if k not in cache:
            q = State()
            r = q.alloc(make(x['name'], x['attrs'], key))
            LAZY[r.oid] = q.get(r)
            cache[k] = (r, key)
        return cache[k][0]

    M[('elements', '__getitem__')] = getitem
    M[('elements', '__contains__')] = lambda e, s, o, a, kw: z3.Function(f'in_{s.get(o).f["name"]}', STR, z3.BoolSort())(term(a[0]))
    nov = {}
    top = {}
    for n, (coll, _, _) in KINDS.items():
        top[f'srt{n}'] = coll
        nov[coll] = st.alloc(Obj('elements', {'name': coll, 'attrs': ('tags',)}))
    top['srtChapters'] = 'chapters'
    nov['chapters'] = st.alloc(Obj('elements', {'name': 'chapters', 'attrs': ('srtScenes',)}))
    nov['scenes'] = st.alloc(Obj('elements', {'name': 'scenes', 'attrs': ('characters', 'locations', 'items', 'tags')}))
    T = {}
    for a, coll in top.items():
        T[a] = z3.Const(f'novel.{a}', SEQ)
        nov[a] = st.alloc(Obj('list', x=(run(T[a]),)))
        eng.src[T[a].get_id()] = (T[a], 'novel', a, None)
    novel = st.alloc(Obj('inst', nov, base))
    f = {'srtScenes': st.alloc(Obj('list', x=(run(z3.Const('scenes of the last run', SEQ)),)))}
    for d in TABLES:
        S = TEXTS if d == 'chpPerScn' else LISTS
        f[d] = st.alloc(Obj('slots', x=Slots(z3.Const(f'{d} of the last run', slots.sort_of(S)), S)))
    me = st.alloc(Obj('inst', f, cls))

    def facts(t, x):
        src = eng.src.get(t.get_id())
        if not src:
            return []
        _, k, a, key = src
        dom = lambda c: z3.Function(f'in_{c}', STR, z3.BoolSort())(x)
        if k == 'novel':
            return [dom(top[a]), has(t, x)]
        if a == 'srtScenes':
            return [dom('scenes'), has(t, x)]
        if k == 'scenes' and a != 'tags':
            return [dom(a), has(T['srt' + a.capitalize()], x), has(t, x)]
        return [has(t, x)]

    eng.element_facts = facts

    def names(s):
        out = {}
        for k, v in s.get(me).f.items():
            if isinstance(v, Ref):
                if v.oid in out:
                    raise Unsupported('one table under two names')
                out[v.oid] = k
        return out

    eng.place_name = lambda s, v: names(s).get(v[0], s.heap[v[0]].kind)

    def tables(s):
        """The empty dictionaries of the object become tables."""
        for k, v in s.get(me).f.items():
            if isinstance(v, Ref) and s.get(v).kind == 'dict' and k in TABLES:
                o = s.get(v)
                if o.x.base is not None or o.x.ups:
                    raise Unsupported('a table that is not empty')
                s.heap[v.oid] = Obj('slots', x=slots.empty(TEXTS if k == 'chpPerScn' else LISTS))

    def hook(e, s, node, it, env, mod):
        if not isinstance(it, Ref) or s.get(it).kind not in ('list', 'iter'):
            return False
        x = s.get(it).x
        if len(x) != 1 or x[0][0] != 's' or x[0][1] is not True:
            return False
        t = x[0][2]
        src = eng.src.get(t.get_id())
        if src is None:
            return False
        _, k, a, key = src
        tables(s)
        nm = names(s)
        name = f'loop at {e.where(node)}'

        def know_list(v, done):
            d = nm.get(v[0])
            if d != 'srtScenes':
                raise Unsupported(f'{name}: a list is changed')
            if k == 'chapters':
                return done
            if (k, a) == ('novel', 'srtChapters'):
                if not done.eq(E) and done.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                    p, c = done.arg(0), done.arg(1).arg(0)
                    axiom(ALL(done) == z3.Concat(ALL(p), of('chapters', 'srtScenes')[1](c)))
                return ALL(done)
            raise Unsupported(f'{name}: a list is changed')

        def spec(v, y, old, done):
            d = nm.get(v[0])
            if d == 'chpPerScn':
                if k == 'chapters':
                    axiom(define(lambda *z: CHS(y, z[0], key, z[1]), (), old, done, lambda r, x: z3.If(x == y, TEXTS.some(key), r)))
                    return lambda new: new == CHS(y, old, key, done)
                if (k, a) == ('novel', 'srtChapters'):
                    axiom(define(CHC, (y,), old, done, lambda r, c: CHS(y, r, c, of('chapters', 'srtScenes')[1](c))))
                    return lambda new: new == CHC(y, old, done)
                raise Unsupported(f'{name}: {d} is changed')
            so = seqof(old)
            if d in SCENES and k == 'chapters':
                axiom(define(FS[d], (y,), so, done, lambda r, x: z3.Concat(r, unit_or(has(value('scenes', SCENES[d], x), y), x))))
                w = FS[d](y, so, done)
            elif d in SCENES and (k, a) == ('novel', 'srtChapters'):
                axiom(define(FC[d], (y,), so, done, lambda r, c: FS[d](y, r, of('chapters', 'srtScenes')[1](c))))
                w = FC[d](y, so, done)
            elif k == 'novel' and a != 'srtChapters' and d == KINDS[a[3:]][1]:
                return lambda new: z3.And(seqof(new) == z3.If(has(done, y), E, so), LISTS.is_some(new) == z3.Or(LISTS.is_some(old), has(done, y)))
            elif k == 'novel' and a != 'srtChapters' and d == KINDS[a[3:]][2]:
                axiom(define(FT[d], (y,), so, done, lambda r, x: z3.Concat(r, unit_or(has(value(top[a], 'tags', x), y), x))))
                w = FT[d](y, so, done)
            else:
                raise Unsupported(f'{name}: {d} is changed')
            return lambda new: z3.And(seqof(new) == w, z3.Implies(LISTS.is_some(old), LISTS.is_some(new)))

        if k == 'novel' or k == 'chapters':
            slots.fold(e, s, node, t, env, mod, name, spec, know_list)
        else:
            slots.pointwise(e, s, node, t, env, mod, name)
        return True

    eng.loop_hooks.append(hook)
    fn = eng.get_global('pywriter.model.cross_references', 'CrossReferences', 'generate_xref')
    _, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [me, novel], {}))
    eng.no_raise('generate_xref never raises', raised)
    eng.cover('generate_xref returns', st1)
    tables(st1)
    y = z3.String('any key')
    g = st1.get(me).f
    C = T['srtChapters']

    def entry(d):
        v = eng.narrow(st1, g[d])
        if not isinstance(v, Ref) or st1.get(v).kind != 'slots':
            raise Unsupported(f'{d} is not a table')
        t = st1.get(v).x.t
        slots.know(eng, st1, t, y)
        return z3.Select(t, y)

    for n, (coll, per, tag) in KINDS.items():
        v = entry(per)
        eng.prove(f'{per}: each of the {coll} has an entry', st1, z3.Implies(has(T[f'srt{n}'], y), LISTS.is_some(v)))
        eng.prove(f'{per}: the scenes of an element are those it occurs in, in order', st1, seqof(v) == FC[per](y, E, C))
        eng.prove(f'{tag}: the {coll} of a tag are those that have it, in order', st1, seqof(entry(tag)) == FT[tag](y, E, T[f'srt{n}']))
    eng.prove('scnPerTag: the scenes of a tag are those that have it, in order', st1, seqof(entry('scnPerTag')) == FC['scnPerTag'](y, E, C))
    eng.prove('chpPerScn: the chapter of each scene', st1, entry('chpPerScn') == CHC(y, TEXTS.absent, C))
    l = eng.narrow(st1, g['srtScenes'])
    eng.prove('srtScenes: the scenes of the chapters in order', st1, isinstance(l, Ref) and st1.get(l).kind == 'list' and lib.list_term(eng, st1, l) == ALL(C))
    for k, v in nov.items():
        eng.prove(f'frame: novel.{k}', st1, same(st1.get(novel).f[k], v) and st1.get(v) is st.get(v))
    u.shape('frame: no element of the novel is changed', all(st1.heap.get(r.oid, LAZY[r.oid]) is LAZY[r.oid] for r, _ in cache.values()))


def u_lemmas(u):
    """Induction steps: what the folds mean."""
    y, x, z = z3.Strings('key element other')
    s, P = z3.Const('before', SEQ), z3.Const('done', SEQ)
    nxt = z3.Concat(P, z3.Unit(x))
    for d, a in SCENES.items():
        f = FS[d]
        occurs = lambda v: has(value('scenes', a, v), y)
        base = define(f, (y,), s, E, None)
        rec = define(f, (y,), s, nxt, lambda r, v: z3.Concat(r, unit_or(occurs(v), v)))
        inv = lambda p, v: z3.Contains(f(y, s, p), z3.Unit(v)) == z3.Or(z3.Contains(s, z3.Unit(v)), z3.And(has(p, v), occurs(v)))
        u.lemma(f'{d}: in the list are the scenes in which the key occurs (no scene)', [base], inv(E, z))
        new = z3.Concat(f(y, s, P), unit_or(occurs(x), x))
        u.lemma(f'{d}: in the list are the scenes in which the key occurs (induction step)', [rec, inv(P, z)], has(new, z) == z3.Or(z3.Contains(s, z3.Unit(z)), z3.And(has(nxt, z), occurs(z))))
        u.lemma(f'{d}: a scene is not yet in the list when it is appended', [inv(P, x), z3.Not(has(P, x)), z3.Not(z3.Contains(s, z3.Unit(x)))], z3.Not(z3.Contains(f(y, s, P), z3.Unit(x))))


UNITS = [('lemmas', u_lemmas), ('generate_xref', u_xref)]
