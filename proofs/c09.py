"""C09: splitting. split_scenes on an arbitrary novel, by a ghost document.

The ghost keeps what the document is made of while it is read: the current chapter and scene, the lines of the current scene that are not
yet written, the IDs of the scenes of the current chapter and of the chapters so far, and whether the current scene is still open. Each
text that is written must be that of the ghost; each line changes the ghost as documented. The loops are cut by invariants that tie the
variables of the function to the ghost (found Houdini-style: the variables are not named here).
"""

import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib, accum, loops, models
from pyvc.lib import STR, SEQ
from pyvc.accum import Fold, NIL, INT, BOOL
from .odslists import attributes, COLLS, LISTS

LEVEL = 'proof'
TRUSTED = ['create_id returns an ID that is not in the collection (C08)', "'\\n'.join(text.split('\\n')) is the text"]
ASSUMPTIONS = ['the chapters that are listed exist, and the scenes that chapters list exist', 'text attributes are texts or unset, the status is a number or unset']
EMPTY = z3.Empty(SEQ)
NL = z3.StringVal('\n')
INHERITED = ('scType', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes')
MARKED = ('desc', 'goal', 'conflict', 'outcome', 'status')
S = z3.StringVal


class Split:

    def __init__(self, u):
        self.u = u
        eng = self.eng = u.engine()
        join = eng.libs['%methods'][('str', 'join')]
        accum.install(eng)
        eng.libs['%methods'][('str', 'join')] = join
        models.install(eng)
        self.func = eng.get_global('pywriter.model.splitter', 'Splitter')
        base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
        self.ecls = {'scenes': eng.get_global('pywriter.model.scene', 'Scene'), 'chapters': eng.get_global('pywriter.model.chapter', 'Chapter')}
        st = eng.start()
        self.names = {'scenes': attributes(['scene', 'basic_element']), 'chapters': attributes(['chapter', 'basic_element'])}
        self.maps = {c: models.SymMap(c, self.maker(c), eng) for c in ('scenes', 'chapters')}
        nov = {c: st.alloc(Obj('dict', x=Store(self.maps[c]))) for c in self.maps}
        self.order = z3.Const('srtChapters', SEQ)
        nov['srtChapters'] = st.alloc(Obj('list', x=(run(self.order),)))
        for a in attributes(['novel', 'basic_element']):
            nov.setdefault(a, z3.Const(f'novel.{a}', PYOBJ))
        self.nov = nov
        self.novel = st.alloc(Obj('inst', dict(nov), base))
        self.file = st.alloc(Obj('inst', {'novel': self.novel}, base))
        self.ghost = st.alloc(Obj('ghost', {'chap': NIL, 'cur': NIL, 'scene': NIL, 'lines': EMPTY, 'ids': EMPTY, 'chs': EMPTY,
                                            'open': z3.BoolVal(False), 'closed': z3.BoolVal(True), 'split': z3.BoolVal(False)}))
        self.st = st
        self.level = 0
        text = lambda x: z3.Not(z3.PrefixOf(S('#'), x))
        self.plain = Fold(eng, 'no_divider', [], BOOL, z3.BoolVal(True), lambda a, v, x, P: z3.And(v, text(x)))
        keep = lambda v, x: z3.If(text(x), z3.Concat(v, z3.Unit(x)), v)
        self.lines_of = Fold(eng, 'text_lines', [], SEQ, EMPTY, lambda a, v, x, P: keep(v, x), lambda a, P: [z3.Implies(self.plain(P), self.lines_of.f(P) == P)])
        p, x, v, b = z3.Const('p', SEQ), z3.String('x'), z3.Const('v', SEQ), z3.Bool('b')
        u.lemma('without a divider all lines are text: one more line', [z3.Implies(b, v == p)], z3.Implies(z3.And(b, text(x)), keep(v, x) == z3.Concat(p, z3.Unit(x))))
        self.depth = {}
        eng.contracts['pywriter.model.id_generator.create_id'] = self.create_id
        eng.setattr_hooks = [self.on_set]
        eng.loop_hooks.append(self.loop)

    def value_of(self, name, a):
        eng = self.eng
        if a in ('title', 'desc', '_sceneContent', 'goal', 'conflict', 'outcome'):
            return eng.opt(f'{name}.{a}')
        if a == 'status':
            return eng.opt(f'{name}.{a}', INT)
        if a in ('wordCount', 'letterCount'):
            return z3.Int(f'{name}.{a}')
        return z3.Const(f'{name}.{a}', PYOBJ)

    def maker(self, c):

        def make(name, key, s):
            fl = {}
            for a in self.names[c]:
                if a == 'srtScenes':
                    l = s.alloc(Obj('list', x=(run(z3.Const(f'{name}.{a}', SEQ)),)))
                    LAZY[l.oid] = s.get(l)
                    fl[a] = l
                elif a != 'sceneContent':
                    fl[a] = self.value_of(name, a)
            return Obj('inst', fl, self.ecls[c])

        return make

    # ------------------------------------------------------------ the ghost
    def g(self, s):
        return s.get(self.ghost).f

    def has(self, s, c, key):
        v = self.eng.store_get(s, s.get(self.nov[c]).x, key)
        return Not(Or(*[g for g, y in alts(v) if y is UNBOUND]))

    def key_of(self, s, c, obj):
        """ID of an element of the novel, or None."""
        for k, r in self.maps[c].cache:
            if r == obj:
                return k
        for g, k, v in s.get(self.nov[c]).x.ups:
            if any(y == obj for _, y in alts(v)):
                return k
        return None

    def create_id(self, e, s, a, kw):
        coll = a[0] if a else next(iter(kw.values()))
        k = e.fresh('new ID', STR)
        for c in ('scenes', 'chapters'):
            if coll == self.nov[c]:
                s.assume(tobool(Not(self.has(s, c, k))))
                G = s.edit(self.ghost).f
                e.prove(f'a new element of {c} comes after the scene before is written', s, Not(G['open']))
                if c == 'scenes':
                    G['cur'], G['ids'], G['open'], G['closed'] = k, z3.Concat(G['ids'], z3.Unit(k)), z3.BoolVal(True), z3.BoolVal(False)
                else:
                    e.prove('a new chapter comes after the scenes of the chapter before are stored', s, G['closed'])
                    G['chap'], G['ids'], G['chs'], G['closed'] = k, EMPTY, z3.Concat(G['chs'], z3.Unit(k)), z3.BoolVal(False)
                G['split'] = z3.BoolVal(True)
                return k
        raise Unsupported('an ID for another collection')

    def on_set(self, e, s, obj, name, v):
        if self.level < 3 and name not in ('sceneContent', '_sceneContent', 'wordCount', 'letterCount', 'srtScenes') and isinstance(obj, Ref):
            for c in ('scenes', 'chapters'):
                if self.key_of(s, c, obj) is not None:
                    e.prove('frame: elements are changed for lines only', s, self.equal(s, s.get(obj).f.get(name, UNBOUND), v))
        if name == 'sceneContent' and isinstance(obj, Ref):
            k = self.key_of(s, 'scenes', obj)
            if k is not None:
                G = s.edit(self.ghost).f
                e.prove('a text is written to the current scene', s, And(e.eq(s, k, G['cur']), G['open']))
                if kind(v) != 'str':
                    raise Unsupported('text of a scene')
                e.prove('the text written is that of the lines behind the last divider', s, term(v) == lib.U_JOIN(NL, G['lines']))
                G['lines'], G['open'] = EMPTY, z3.BoolVal(False)
        if name == 'srtScenes' and isinstance(obj, Ref):
            k = self.key_of(s, 'chapters', obj)
            if k is not None:
                G = s.edit(self.ghost).f
                v = e.narrow(s, v)
                e.prove('the scenes of a chapter are stored in the current chapter', s, e.eq(s, k, G['chap']))
                e.prove('the scenes stored are those of the current chapter, in order', s, isinstance(v, Ref) and lib.list_term(e, s, v) == G['ids'])
                G['closed'] = z3.BoolVal(True)
        return False

    # ------------------------------------------------------------ the loops
    def own(self, oid):
        return any(r.oid == oid for m in self.maps.values() for _, r in m.cache)

    def havoc(self, s, oid, k, old, new):
        e = self.eng
        if oid == self.ghost.oid:
            return e.fresh(k, old.sort())
        for c in self.maps:
            if oid == self.nov[c].oid:
                return Store(self.maps[c])
            if any(r.oid == oid for _, r in self.maps[c].cache):
                if k == 'srtScenes':
                    return s.alloc(Obj('list', x=(run(e.fresh(k, SEQ)),)))
                e.n = getattr(e, 'n', 0) + 1
                return self.value_of(f'changed{e.n}', k)
        return None

    def loop(self, eng, st, node, it, env, mod):
        t = models.seq_list(st, it)
        if t is None:
            return False
        name = f'loop at {eng.where(node)}'
        level = self.level
        if level > 2:
            raise Unsupported('more loops')
        for c in self.maps:
            if st.get(self.nov[c]).x.ups:
                raise Unsupported('elements are added before the loop')
        start = {c: len(m.cache) for c, m in self.maps.items()}

        def enter(P, x):
            self.level = level + 1
            for c, m in self.maps.items():
                del m.cache[start[c]:]

        def leave():
            self.level = level

        rel = {'list~': [lambda s, v, P: v == self.g(s)['ids'], lambda s, v, P: v == self.g(s)['chs'], lambda s, v, P: v == self.g(s)['lines']],
               'str~': [lambda s, v, P: v == self.g(s)['cur'], lambda s, v, P: v == self.g(s)['chap'], lambda s, v, P: v == self.g(s)['scene']],
               'bool~': [lambda s, v, P: v == self.g(s)['open'], lambda s, v, P: v == self.g(s)['split']],
               'int~': [lambda s, v, P: z3.BoolVal(True)]}
        shut = lambda s, P: z3.And(z3.Not(self.g(s)['open']), self.g(s)['lines'] == EMPTY)
        if level == 0:
            elem, each, facts = self.chapter(name)
            rel['rel'] = [shut, lambda s, P: self.g(s)['closed']]
        elif level == 1:
            elem, each, facts = self.scene(name)
            rel['rel'] = [shut, lambda s, P: self.has(s, 'chapters', self.g(s)['chap'])]
        else:
            elem, each, facts = self.line(name)
            st.assume(z3.Implies(t == lib.U_SPLIT(self.text(st, self.content), NL), lib.U_JOIN(NL, t) == self.text(st, self.content)))
            parent = self.at(st, 'scenes', self.g(st)['scene'])
            same_ = lambda a: lambda s, P: z3.Implies(self.plain(P), tobool(And(*[Implies(h, self.equal(s, s.get(w).f.get(a), base.get(w).f.get(a))) for h, w in alts(parent)])))
            G0, base = dict(self.g(st)), st.fork()
            rel['rel'] = [same_(a) for a in MARKED] + [lambda s, P: z3.Implies(self.plain(P), z3.And(self.g(s)['lines'] == self.lines_of(P), self.g(s)['open'] == G0['open'], self.g(s)['cur'] == G0['cur']))] + [lambda s, P: z3.Implies(z3.Not(self.g(s)['open']), self.g(s)['lines'] == EMPTY)] + \
                [lambda s, P, c=c, a=a: self.has(s, c, self.g(s)[a]) for c, a in (('chapters', 'chap'), ('scenes', 'cur'), ('scenes', 'scene'))]
        first = next(loops._oid)  # elements of the novel that only the loop has seen, and lists made in it
        try:
            accum.accumulate(eng, st, node, t, env, mod, name, rel, enter, leave, elem=elem, each=each, havoc=self.havoc, facts=facts, rebind=True, allowed=lambda pre, v: v[0] > first)
        finally:
            self.level = level
            self.seen = max(getattr(self, 'seen', 0), level + 1)
        for c, m in self.maps.items():
            del m.cache[start[c]:]
        return True

    def chapter(self, name):

        def elem(s, x):
            G = s.edit(self.ghost).f
            G['chap'], G['chs'], G['ids'], G['closed'] = x, z3.Concat(G['chs'], z3.Unit(x)), EMPTY, z3.BoolVal(False)
            return x

        def each(pre, m, P, x):
            self.eng.prove(f'{name}: the scenes of the chapter are stored', m, self.g(m)['closed'])
            self.unchanged(name, m)

        return elem, each, lambda t, x: [self.maps['chapters'].dom(x)]

    def scene(self, name):

        def elem(s, x):
            c = self.eng.getattr(s, self.at(s, 'scenes', x), 'sceneContent')
            G = s.edit(self.ghost).f
            G['cur'], G['scene'], G['ids'], G['lines'], G['open'], G['closed'] = x, x, z3.Concat(G['ids'], z3.Unit(x)), EMPTY, tobool(self.eng.truth(s, c)), z3.BoolVal(False)
            self.content = c
            return x

        def each(pre, m, P, x):
            e = self.eng
            r = self.at(m, 'scenes', x)
            now, was = e.getattr(m, r, 'sceneContent'), self.content
            t = lib.U_SPLIT(self.text(m, was), NL)
            e.prove(f'{name}: a scene without divider keeps its text', m, Implies(Or(Not(e.truth(m, was)), self.plain(t)), self.equal(m, now, was)))
            for h, w in alts(self.at(pre, 'scenes', x)):
                for a in MARKED:
                    e.prove(f'{name}: {a} of a scene without divider is kept', m, Implies(And(h, Or(Not(e.truth(m, was)), self.plain(t))), self.equal(m, m.get(w).f.get(a), pre.heap.get(w.oid, LAZY[w.oid]).f.get(a))))
            self.eng.prove(f'{name}: all lines of the scene are written', m, z3.And(z3.Not(self.g(m)['open']), self.g(m)['lines'] == EMPTY))
            self.unchanged(name, m)

        return elem, each, lambda t, x: [self.maps['scenes'].dom(x)]

    def unchanged(self, name, m):
        for c in self.maps:
            self.eng.prove(f'{name}: {c} are added for lines only', m, not m.get(self.nov[c]).x.ups)

    def at(self, s, c, key):
        v = self.eng.store_get(s, s.get(self.nov[c]).x, key)
        return make_union([(g, y) for g, y in alts(v) if y is not UNBOUND])

    def line(self, name):
        eng = self.eng

        def kinds(x):
            p = [z3.PrefixOf(S('#' * n), x) for n in (1, 2, 3)]
            return p[2], z3.And(p[1], z3.Not(p[2])), z3.And(p[0], z3.Not(p[1])), z3.Not(p[0])  # scene, chapter, part, text

        def elem(s, x):
            G = s.edit(self.ghost).f
            G['lines'] = z3.If(kinds(x)[3], z3.Concat(G['lines'], z3.Unit(x)), G['lines'])
            return x

        def each(pre, m, P, x):
            G0, G1 = self.g(pre), self.g(m)
            sc, ch, part, text = kinds(x)
            newsc = z3.Or(sc, z3.And(text, z3.Not(G0['open'])))
            newch = z3.Or(ch, part)
            p = lambda n, f: eng.prove(f'{name}: {n}', m, f)
            p('text is kept, in order', z3.Implies(text, z3.And(G1['open'], G1['lines'] == z3.Concat(G0['lines'], z3.Unit(x)))))
            p('a divider ends the text before it', z3.Implies(z3.Not(text), G1['lines'] == EMPTY))
            p('a scene divider starts a scene', z3.Implies(sc, G1['open']))
            p('a chapter or part divider starts no scene', z3.Implies(newch, z3.Not(G1['open'])))
            p('a scene is added to the current chapter exactly for a scene divider, and for text behind a chapter divider',
              z3.And(z3.Implies(newsc, z3.And(G1['ids'] == z3.Concat(G0['ids'], z3.Unit(G1['cur'])), z3.Not(self.maps['scenes'].dom(G1['cur'])))),
                     z3.Implies(z3.Not(z3.Or(newsc, newch)), z3.And(G1['ids'] == G0['ids'], G1['cur'] == G0['cur']))))
            p('a chapter is added exactly for a chapter or part divider',
              z3.If(newch, z3.And(G1['chs'] == z3.Concat(G0['chs'], z3.Unit(G1['chap'])), G1['ids'] == EMPTY, z3.Not(self.maps['chapters'].dom(G1['chap']))),
                    z3.And(G1['chs'] == G0['chs'], G1['chap'] == G0['chap'])))
            p('the structure is changed exactly by a new chapter or scene', G1['split'] == z3.Or(G0['split'], newsc, newch))
            title, desc = self.heading(m, x)
            for c, cond, key in (('scenes', newsc, G1['cur']), ('chapters', newch, G1['chap'])):
                store = m.get(self.nov[c]).x
                if store.base is not self.maps[c]:
                    raise Unsupported('another map')
                for g, k, v in store.ups:
                    p(f'IDs: no element of {c} is replaced', Implies(g, Not(self.maps[c].dom(term(k)))))
                    p(f'an element is added to {c} with its new ID', Implies(g, And(v is not UNBOUND, cond, eng.eq(m, k, key))))
                p(f'the new element of {c} is there', Implies(cond, self.has(m, c, key)))
                now = m.fork()
                now.assume(cond)
                if not eng.feasible(now):
                    continue
                v = eng.store_get(now, store, key)
                for g, y in alts(v):
                    if y is UNBOUND or not eng.feasible(now, g):
                        continue
                    q = now.fork()
                    q.assume(tobool(g))
                    f = q.get(y).f
                    P = lambda n, goal: eng.prove(f'{name}: {n}', q, goal)
                    P(f'the new element of {c} has the class of its kind', q.get(y).meta == self.ecls[c])
                    if c == 'scenes':
                        P('a new scene has no text yet', eng.eq(q, f.get('_sceneContent'), None))
                        was = self.at(pre, 'scenes', G0['scene'])
                        for h, w in alts(was):
                            for a in INHERITED:
                                P(f'a new scene inherits {a}', Implies(h, self.equal(q, f.get(a), pre.get(w).f.get(a))))
                        P('a new scene has the title given', Implies(And(sc, eng.truth(q, title)), self.equal(q, f.get('title'), title)))
                        P('a new scene has the description given', Implies(And(sc, eng.truth(q, desc)), self.equal(q, f.get('desc'), desc)))
                        P('a new scene has no other description', Implies(Not(And(sc, eng.truth(q, desc))), Not(eng.truth(q, f.get('desc')))))
                    else:
                        P('a new chapter has the title given', Implies(eng.truth(q, title), self.equal(q, f.get('title'), title)))
                        P('a new chapter has the description given', Or(self.equal(q, f.get('desc'), desc), And(Not(eng.truth(q, desc)), Not(eng.truth(q, f.get('desc'))))))
                        P('a chapter divider starts a chapter, a part divider a part', eng.eq(q, f.get('chLevel'), z3.If(part, z3.IntVal(1), z3.IntVal(0))))
                        P('a new chapter is a normal one', eng.eq(q, f.get('chType'), 0))
                    P(f'a new element of {c} has a title', eng.truth(q, f.get('title')))
            # existing elements
            for c in self.maps:
                for k, r in self.maps[c].cache:
                    old, new = pre.heap.get(r.oid, LAZY[r.oid]), m.heap.get(r.oid, LAZY[r.oid])
                    for a in dict.fromkeys(list(old.f) + list(new.f)):
                        x0, x1 = old.f.get(a, UNBOUND), new.f.get(a, UNBOUND)
                        if isinstance(x0, Ref) and x0 == x1:
                            p(f'frame: the list of scenes of a chapter is not changed behind', m.heap.get(x0.oid, LAZY.get(x0.oid)) is pre.heap.get(x0.oid, LAZY.get(x0.oid)))
                            continue
                        if c == 'chapters' and a == 'srtScenes' or c == 'scenes' and a in ('_sceneContent', 'wordCount', 'letterCount'):
                            continue  # see on_set
                        kept = self.equal(m, x0, x1)
                        if kept is True:
                            continue
                        if c == 'scenes' and a in MARKED:
                            p(f'{a} of a scene is changed only if the scene is split', Or(kept, And(newsc, eng.eq(m, k, G0['scene']))))
                            if a == 'status':
                                mark = And(kind(x1) != 'none', eng.eq(m, x1, 2), self.above(m, x0))
                            else:
                                mark = And(eng.truth(m, x0), self.equal(m, x1, z3.Concat(S('(!)'), self.text(m, x0))))
                            p(f'{a} of a scene that is split is marked only', Or(kept, mark))
                        else:
                            p(f'frame: {c}: {a} is kept', kept)

        return elem, each, lambda t, x: []

    def text(self, s, v):
        r = NIL
        for g, y in alts(v):
            if kind(y) == 'str':
                r = z3.If(tobool(g), term(y), r)
        return r

    def above(self, s, v):
        return Or(*[And(g, term(y) > 2) for g, y in alts(v) if kind(y) == 'int'])

    def equal(self, q, a, b):
        if same(a, b):
            return True
        try:
            return self.eng.eq(q, a, b)
        except Unsupported:
            return False

    def heading(self, s, x):
        """Title and description of a divider line."""
        e = self.eng
        l = e.call_method(s, e.call_method(s, x, 'strip', ['# ']), 'split', ['|'])
        t = lib.list_term(e, s, l)
        return t[0], z3.If(z3.Length(t) > 1, t[1], NIL)


def u_split(u):
    r = Split(u)
    eng, st = r.eng, r.st
    before = st.fork()
    me, st, _ = eng.run(st, lambda s: eng.call(s, r.func, [], {}))
    res, q, raised = eng.run(st, lambda s: eng.call_method(s, me, 'split_scenes', [r.file]))
    eng.no_raise('split_scenes never raises', raised)
    eng.cover('split_scenes returns', q)
    u.fact('chapters, scenes, and lines are visited', getattr(r, 'seen', 0) == 3, status=None if getattr(r, 'seen', 0) == 3 else 'unknown')
    G = r.g(q)
    f = q.get(r.novel).f
    l = f['srtChapters']
    eng.prove('the chapters are those found, in order', q, isinstance(l, Ref) and lib.list_term(eng, q, l) == G['chs'])
    eng.prove('the last chapter is stored', q, z3.And(z3.Not(G['open']), G['lines'] == EMPTY))
    eng.prove('the result tells whether the structure changed', q, eng.eq(q, eng.truth(q, res), G['split']))
    for k, v in r.nov.items():
        if k != 'srtChapters':
            eng.prove(f'frame: novel.{k}', q, same(f.get(k), v))


UNITS = [('split_scenes', u_split)]
