"""Shared by the proofs about yw7 files (C01, C02, C04, C16): Yw7File.write and Yw7File.read on a symbolic element tree.

A unit looks at one kind of element ('focus kind') and one arbitrary element of this kind, with ID q. The loops over the elements
of this kind are executed once, for q, after an arbitrary number of other elements (their effect: appended IDs, entries under other keys)
and before an arbitrary number of others; that an iteration has no other effect is proved with the same execution, since q is arbitrary.
The loops over the elements of other kinds are skipped: their own units prove that they change their own containers and elements only.
"""
import ast
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib, loops, xmlmodel, models
from pyvc.lib import STR, SEQ, U_STRIP, U_SPLIT, U_JOIN, U_INT, U_INTOK
from pyvc.models import ArrMap, arr_term, optstr_sort
from pyvc.xmlmodel import SymKids, kid, kid_or_none, texts, ENTRIES, element, the_list

MOD = 'pywriter.yw.yw7_file'
EMPTY = z3.StringVal('')
KW = z3.ArraySort(STR, optstr_sort())
U_LIST = z3.Function('string_to_list', STR, STR, SEQ)  # contract: see C21
U_STRIPS = z3.Function('strip_each', SEQ, SEQ)
SEMI = z3.StringVal(';')
# kind -> container, collection, list of IDs, class
KINDS = {'location': ('LOCATIONS', 'locations', 'srtLocations', 'world'), 'item': ('ITEMS', 'items', 'srtItems', 'world'),
         'character': ('CHARACTERS', 'characters', 'srtCharacters', 'character'), 'note': ('PROJECTNOTES', 'projectNotes', 'srtPrjNotes', 'note'),
         'scene': ('SCENES', 'scenes', None, 'scene'), 'chapter': ('CHAPTERS', 'chapters', 'srtChapters', 'chapter')}
TRUSTED = ['ElementTree elements by contract (pyvc/xmlmodel.py): at most one child per tag, except the lists of entries and ID references',
           'a file keeps the tree and the text of each element; an empty text comes back as None (C03: what is written, re-parsed, and unescaped)',
           'xml_indent.indent changes white space between elements only', 'string_to_list and list_to_string by the contracts proved for C21',
           'iteration over a dictionary visits each key once']
ASSUMPTIONS = ['no element of the file has two children with the same tag (list entries excepted); the IDs of a file are unique per kind',
               'the sorted lists of IDs have no duplicates and agree with the collections', 'each kind of element is verified by its own unit; the loops over other kinds are skipped by their proved frames']


class Others:
    """The elements of a collection that are not looked at; reading one is not supported (membership is)."""

    def __init__(self, name, keys=None):
        self.name, self.keys = name, keys
        self.dom = z3.Function(f'in_{name}', STR, z3.BoolSort())

    def lookup(self, eng, st, key):
        if kind(key) != 'str':
            return UNBOUND
        d = self.dom(term(key))
        return Union([(d, HAVOC), (z3.Not(d), UNBOUND)])

    def truth(self, eng, st, ref):
        return self.keys != z3.Empty(SEQ) if self.keys is not None else z3.Bool(f'{self.name} is not empty')

    def iterate(self, eng, st, ref, how='keys'):
        if self.keys is None or any(not same(k, getattr(self, 'q', None)) for g, k, v in st.get(ref).x.ups):
            raise Unsupported('iteration over a collection')
        return [run(self.keys)] if how == 'keys' else [('m', True, (self, how))]


class FocusMap(Others):
    """A collection with one element that is looked at: ref (or UNBOUND) under the key q."""

    def __init__(self, name, q, ref, keys=None):
        super().__init__(name, keys)
        self.q, self.ref = q, ref

    def lookup(self, eng, st, key):
        if same(key, self.q):
            return self.ref
        if kind(key) != 'str':
            return UNBOUND
        c = eng.eq(st, key, self.q)
        d = self.dom(term(key))
        return Union([(c, self.ref), (And(Not(c), d), HAVOC), (And(Not(c), Not(d)), UNBOUND)])


def has(seq, x):
    """x is in a sequence of strings; z3 decides this better if the sequence is taken apart."""
    k = seq.decl().kind()
    if k == z3.Z3_OP_SEQ_CONCAT:
        return z3.Or(*[has(c, x) for c in seq.children()])
    if k == z3.Z3_OP_SEQ_UNIT:
        return seq.arg(0) == x
    if k == z3.Z3_OP_SEQ_EMPTY:
        return z3.BoolVal(False)
    if k == z3.Z3_OP_ITE:
        return z3.If(seq.arg(0), has(seq.arg(1), x), has(seq.arg(2), x))
    return z3.Contains(seq, z3.Unit(x))


class World:
    """A project, and a file tree or none (mode 'new file'); in mode 'stored', the tree has an element with ID q; in mode 'added', it has not."""

    def __init__(self, u, kind, mode, empty=False):
        self.u, self.kind, self.mode, self.empty = u, kind, mode, empty
        eng = self.eng = u.engine()
        xmlmodel.install(eng)
        models.install(eng)
        self.reading = False
        self.root = None
        self.facts = {}  # id of a sequence -> fn(x): fact about each element
        self.hooks()
        self.classes = {n: eng.get_global(f'pywriter.model.{m}', c) for n, m, c in (
            ('scene', 'scene', 'Scene'), ('chapter', 'chapter', 'Chapter'), ('character', 'character', 'Character'),
            ('world', 'world_element', 'WorldElement'), ('note', 'basic_element', 'BasicElement'), ('novel', 'novel', 'Novel'))}
        self.cls = eng.get_global(MOD, 'Yw7File')
        self.contracts()
        st = self.st = eng.start()
        self.q = z3.String('q')
        self.P, self.R = z3.Const('before', SEQ), z3.Const('after', SEQ)
        st.assume(self.q != EMPTY, z3.Not(z3.Contains(self.P, z3.Unit(self.q))), z3.Not(z3.Contains(self.R, z3.Unit(self.q))))
        self.D = z3.Concat(self.P, z3.Unit(self.q), self.R) if not empty else z3.Empty(SEQ)
        self.keys = {k: z3.Const(f'{k} IDs', SEQ) for k in KINDS if k != kind}
        self.keys[kind] = self.D
        self.filekeys = {k: z3.Const(f'{k} IDs in the file', SEQ) for k in KINDS}
        self.langs = z3.Const('novel.languages', SEQ)
        self.varkeys = z3.Const('project variables', SEQ)
        self.skipped = [t for k, t in self.keys.items() if k != kind] + [t for k, t in self.filekeys.items() if k != kind] + [self.langs, self.varkeys]
        if mode in ('added', 'no container') and kind in KINDS:
            st.assume(z3.Not(z3.Contains(self.filekeys[kind], z3.Unit(self.q))))
        self.novel = None
        if mode != 'new file':
            self.root = self.make_file()

    # -------------------------------------------------------------- input
    def focus_list(self, t=None):
        return () if self.empty else (run(self.P), item(self.q), run(self.R))

    def make_novel(self, fields, obj=None):
        """The project in memory; fields: of the element q."""
        st, eng = self.st, self.eng
        f = {}
        for a in ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4', 'languageCode', 'countryCode'):
            f[a] = eng.opt(f'novel.{a}')
        for a in ('wordCountStart', 'wordTarget'):
            f[a] = eng.opt(f'novel.{a}', z3.IntSort())
        f['languages'] = st.alloc(Obj('list', x=(run(self.langs),)))
        f['kwVar'] = self.kwvar('novel')
        self.obj = None
        if self.kind in KINDS and not self.empty:
            self.obj = st.alloc(Obj('inst', dict(fields), self.classes[KINDS[self.kind][3]]))
        for k, (cont, coll, srt, cls) in KINDS.items():
            if srt:
                f[srt] = st.alloc(Obj('list', x=self.focus_list() if k == self.kind else (run(self.keys[k]),)))
            if k == self.kind:
                b = FocusMap(coll, self.q, self.obj, self.keys[k]) if not self.empty else None
            else:
                b = Others(coll, self.keys[k])
            f[coll] = st.alloc(Obj('dict', x=Store(b)))
            if k != self.kind:
                self.others = getattr(self, 'others', {})
                self.others[k] = b
        self.novel = st.alloc(Obj('inst', f, self.classes['novel']))
        self.given = {k: v for k, v in (f if self.kind == 'project' else fields).items()}
        return self.novel

    def kwvar(self, name, st=None):
        st = st or self.st
        return st.alloc(Obj('dict', x=Store(ArrMap(z3.Const(f'{name}.kwVar', KW)))))

    def make_file(self):
        """The tree of an arbitrary file."""
        st, eng = self.st, self.eng
        root = element(st, 'YWRITER7', None, SymKids(eng, 'file', never=ENTRIES), 'file')
        project = element(st, 'PROJECT', None, SymKids(eng, 'project'), 'project')
        self.put(st, root, 'PROJECT', project)
        self.file_elem = None
        for k, (cont, coll, srt, cls) in KINDS.items():
            c = element(st, cont)
            if k == self.kind and self.mode == 'stored':
                e = element(st, ENTRIES[cont], None, SymKids(eng, 'stored', always={'ID'}, texts=dict(self.stored_texts(), ID=lambda n: self.q)), 'stored')
                self.file_elem = e
                x = (run(z3.Const('before in the file', SEQ)), item(e), run(z3.Const('after in the file', SEQ)))
            else:
                x = (run(self.filekeys[k]),)
            st.edit(the_list(st, c)).x = x
            if k == 'note':
                self.put(st, root, cont, c, z3.Bool('file has PROJECTNOTES') if self.kind != 'note' else self.mode != 'no container')
            else:
                self.put(st, root, cont, c)
        c = element(st, 'PROJECTVARS')
        st.edit(the_list(st, c)).x = (run(self.varkeys),)
        self.put(st, root, 'PROJECTVARS', c, z3.Bool('file has PROJECTVARS') if self.kind != 'vars' else self.mode != 'no container')
        return root

    def stored_texts(self):
        return {}

    def put(self, st, parent, tag, ref, cond=True):
        o = st.edit(parent)
        o.x = o.x.put(tag, ref if cond is True else UNBOUND if cond is False else Union([(cond, ref), (Not(cond), UNBOUND)]))

    def tags(self, name, st=None):
        """A tag list in normal form, or None."""
        st = st or self.st
        t = z3.Const(f'{name}.tags', SEQ)
        none = z3.Bool(f'{name}.tags?none')
        self.eng.axioms += [U_LIST(U_JOIN(SEMI, t), SEMI) == t, U_STRIPS(t) == t, U_SPLIT(U_JOIN(SEMI, t), SEMI) == t,
                            z3.Implies(z3.Length(t) == 0, U_JOIN(SEMI, t) == EMPTY), z3.Implies(z3.Length(t) > 0, U_JOIN(SEMI, t) != EMPTY)]
        return make_union([(none, None), (z3.Not(none), st.alloc(Obj('list', x=(run(t),))))])

    def id_list(self, name, dom, st=None):
        """An arbitrary list of IDs of existing elements, or None; dom: fn(x) -> fact."""
        st = st or self.st
        t = z3.Const(name, SEQ)
        none = z3.Bool(f'{name}?none')
        self.facts[t.get_id()] = dom
        return make_union([(none, None), (z3.Not(none), st.alloc(Obj('list', x=(run(t),))))])

    # -------------------------------------------------------------- contracts
    def hooks(self):
        eng = self.eng
        A, M = eng.libs['%attrs'], eng.libs['%methods']

        def text(e, s, o):
            v = s.get(o).f['text']
            return e.narrow(s, file_text(v)) if self.reading else v

        A[('xml', 'text')] = text

        def tree(e, st, a, kw):
            return st.alloc(Obj('tree', {'root': a[0]}))

        eng.libs[xmlmodel.ET]['ElementTree'] = Native('ET.ElementTree', tree)
        eng.libs[xmlmodel.ET]['fromstring'] = Native('ET.fromstring', lambda e, st, a, kw: self.parsed(st))
        M[('tree', 'getroot')] = lambda e, st, o, a, kw: st.get(o).f['root']

        def open_(e, st, a, kw):
            return st.alloc(Obj('file', {}))

        eng.libs['builtins']['open'] = Native('open', open_)
        M[('file', '__enter__')] = lambda e, st, o, a, kw: o
        M[('file', '__exit__')] = lambda e, st, o, a, kw: None
        M[('file', 'read')] = lambda e, st, o, a, kw: e.fresh('content')
        eng.loop_hooks.insert(0, self.loop)
        self.datetime()

    def datetime(self):
        eng = self.eng
        self.ISO = z3.Function('is_iso', STR, z3.BoolSort())
        self.DATE, self.TIME = z3.Function('iso_date', STR, STR), z3.Function('iso_time', STR, STR)

        def fromiso(e, st, o, a, kw):
            def f(s, v):
                if kind(v) != 'str':
                    e.raise_new(s, TypeError, 'fromisoformat: argument must be str')
                e.raise_if(s, z3.Not(self.ISO(term(v))), ValueError, 'Invalid isoformat string')
                return s.alloc(Obj('datetime', {'text': term(v)}))
            return e.lift(st, a[0], f)

        def iso(e, st, o, a, kw):
            v = st.get(o).f['text']
            d, t = self.DATE(v), self.TIME(v)
            r = z3.Concat(d, z3.StringVal('T'), t)
            st.assume(U_SPLIT(r, z3.StringVal('T')) == z3.Concat(z3.Unit(d), z3.Unit(t)), z3.Length(d) == 10)
            return r

        eng.libs['datetime'] = {'datetime': Native('datetime', None)}
        eng.libs['%attrs'][('native', 'datetime')] = None
        eng.libs['%methods'][('datetime', 'isoformat')] = iso

        class DT:
            pass

        eng.libs['datetime'] = {'datetime': ModuleVal('%datetime', None)}
        eng.libs['%datetime'] = {'fromisoformat': Native('fromisoformat', lambda e, st, a, kw: fromiso(e, st, None, a, kw))}

    def parsed(self, st):
        """The root of the parsed file: the tree that has been written, with the containers of the other kinds as verified by their units."""
        root = st.get(self.root_now(st)) and self.root_now(st)
        for k, (cont, coll, srt, cls) in KINDS.items():
            v = kid(self.eng, st, root, cont)
            for g, c in alts(v):
                if isinstance(c, Ref) and k != self.kind:
                    l = the_list(st, c)
                    st.edit(l).x = (run(self.keys[k] if self.written else self.filekeys[k]),)
        return root

    def root_now(self, st):
        if self.written:
            return st.get(self.narrow_ref(st, st.get(self.project).f['tree'])).f['root']
        return self.root

    def narrow_ref(self, st, v):
        v = self.eng.narrow(st, v)
        if not isinstance(v, Ref):
            raise Unsupported('no tree')
        return v

    def contracts(self):
        eng = self.eng
        C = eng.contracts

        def to_list(e, st, args, kw):
            if len(args) != 1 or kw:
                raise Unsupported('string_to_list with divider')
            return e.lift(st, args[0], lambda s, t: s.alloc(Obj('list', x=(run(U_LIST(term(t), SEMI)),) if kind(t) == 'str' else ())))

        def to_string(e, st, args, kw):
            if len(args) != 1 or kw:
                raise Unsupported('list_to_string with divider')
            return e.lift(st, args[0], lambda s, l: U_JOIN(SEMI, lib.list_term(e, s, l)) if isinstance(l, Ref) else '')

        def strips(e, st, args, kw):
            return e.lift(st, args[1], lambda s, l: s.alloc(Obj('list', x=(run(U_STRIPS(lib.list_term(e, s, l))),))))

        C['pywriter.pywriter_globals.string_to_list'] = to_list
        C['pywriter.pywriter_globals.list_to_string'] = to_string
        C[f'{MOD}.Yw7File._strip_spaces'] = strips
        C['pywriter.yw.xml_indent.indent'] = lambda e, st, a, k: None
        C[f'{MOD}.Yw7File.is_locked'] = lambda e, st, a, k: False
        C[f'{MOD}.Yw7File._write_element_tree'] = lambda e, st, a, k: False
        C[f'{MOD}.Yw7File._postprocess_xml_file'] = lambda e, st, a, k: None
        C[f'{MOD}.Yw7File.adjust_scene_types'] = lambda e, st, a, k: None
        C['pywriter.model.novel.Novel.get_languages'] = lambda e, st, a, k: None
        C['pywriter.model.novel.Novel.check_locale'] = lambda e, st, a, k: None
        C['pywriter.model.id_generator.create_id'] = lambda e, st, a, k: e.fresh('id')

    # -------------------------------------------------------------- loops
    def entry_tag(self):
        return ENTRIES[KINDS[self.kind][0]] if self.kind in KINDS else None

    def loop(self, eng, st, node, it, env, mod):
        live = None
        if isinstance(it, Ref) and st.get(it).kind == 'xml':
            live = it
            l = the_list(st, it)
            if l is None:
                return False
            x = st.get(l).x
        elif isinstance(it, Ref) and st.get(it).kind in ('list', 'iter', 'dict'):
            o = st.get(it)
            if o.kind == 'dict' and not isinstance(o.x.base, Others):
                return False
            x = tuple(eng.items(st, it))
        else:
            return False
        if not any(k != 'i' for k, g, v in x):
            return False
        if live is not None and st.get(live).f['tag'] in ENTRIES:
            k = [k for k in KINDS if KINDS[k][0] == st.get(live).f['tag']]
            if not k or k[0] != self.kind:
                return self.skip(st, node, env, k[0] if k else None, live)
        if any(k == 'i' and isinstance(v, Ref) and st.get(v).kind == 'xml' and st.get(v).f['tag'] == self.entry_tag() for k, g, v in x):
            self.focus(st, node, env, mod, x, live)
            return True
        if x == self.focus_list() or len(x) == 3 and all(same(a[2], b[2]) for a, b in zip(x, self.focus_list())) or len(x) == 1 and same(x[0][2], self.D):
            self.focus(st, node, env, mod, self.focus_list(), None)
            return True
        if self.kind == 'vars' and len(x) == 1 and not self.reading and x[0][0] == 's' and x[0][2].eq(self.varkeys):
            self.scan_vars(st, node, env, mod)
            return True
        if self.kind == 'vars' and len(x) == 1 and not self.reading and x[0][0] == 's' and x[0][2].eq(self.langs):
            self.add_vars(st, node, env, mod)
            return True
        if len(x) == 1 and any(same(x[0][2], t) for t in self.skipped):
            return self.skip(st, node, env, None, None)
        if len(x) == 1 and self.kind in KINDS and same(x[0][2], self.filekeys[self.kind]):
            if live is not None:
                raise Unsupported('reading the other elements of the file')
            return self.foreign(st, node, env, mod)
        if all(k == 's' or kind(v) == 'str' for k, g, v in x):
            self.gather(st, node, it, env, mod)
            return True
        return False

    def skip(self, st, node, env, k, live):
        """A loop over the elements of another kind."""
        e = st.edit(env)
        for n in assigned(node):
            srt = loops.sort_of(e.f[n]) if n in e.f and e.f[n] is not HAVOC and not isinstance(e.f[n], Union) else None
            e.f[n] = self.eng.fresh(n, srt) if srt is not None else HAVOC
        if live is not None and self.reading and k:
            cont, coll, srt, cls = KINDS[k]
            nv = st.edit(self.reader_novel)
            t = self.keys[k] if self.written else self.filekeys[k]
            if srt:
                nv.f[srt] = st.alloc(Obj('list', x=(run(t),)))
            nv.f[coll] = st.alloc(Obj('dict', x=Store(self.others[k] if self.written else Others(f'{coll} in the file', t))))
        return True

    def own(self, st, extra=()):
        """Addresses of the objects of the element q."""
        todo = list(extra)
        for oid, o in list(st.heap.items()):
            if o.kind == 'dict' and isinstance(o.x, Store) and isinstance(o.x.base, FocusMap):
                todo += [v for _, v in alts(self.eng.store_get(st, o.x, self.q)) if isinstance(v, Ref)]
            elif o.kind == 'list' and isinstance(o.x, tuple):
                for k, g, v in o.x:
                    for _, y in alts(v) if k == 'i' else ():
                        if isinstance(y, Ref) and st.heap[y.oid].kind == 'xml' and st.heap[y.oid].f['tag'] == self.entry_tag():
                            todo.append(y)
        out = set()
        while todo:
            r = todo.pop()
            if r.oid in out:
                continue
            if r.oid not in st.heap and r.oid not in LAZY:
                continue
            out.add(r.oid)
            o = st.heap[r.oid]
            vals = [v for v in o.f.values()]
            if isinstance(o.x, Store):
                vals += [v for _, _, v in o.x.ups]
                if isinstance(o.x.base, SymKids):
                    vals += list(o.x.base.cache.values())
            elif isinstance(o.x, tuple):
                vals += [v for k, g, v in o.x if k == 'i']
            for v in vals:
                todo += [y for _, y in alts(v) if isinstance(y, Ref) and (y.oid not in st.heap or st.heap[y.oid].kind in ('xml', 'dict', 'list', 'inst'))]
        return out

    def focus(self, st, node, env, mod, x, live):
        """Execute a loop for the element q, after and before others."""
        eng = self.eng
        name = f'loop at {eng.where(node)}'
        pos = [n for n, y in enumerate(x) if y[0] == 'i']
        if len(pos) != 1 or len(x) != 3 or pos[0] != 1 or x[1][1] is not True:
            raise Unsupported(f'{name}: elements in an unexpected order')
        pre, val, post = x[0][2], x[1][2], x[2][2]
        phase = ['before']

        def havoc(s, oid, k, old, new):
            o = s.heap[oid]
            if oid in self.own(s):
                return old
            if k == '.x' and o.kind == 'list':
                if any(isinstance(v, Ref) and same(v, val) for c, g, v in old if c == 'i'):
                    n = [n for n, y in enumerate(old) if same(y[2], val)][0]
                    return old[n:]
                return old + (run(pre),)
            if k == '.x' and o.kind == 'dict' and isinstance(old, Store):
                if old.base is None and not old.ups:
                    return Store(FocusMap(eng.fresh('entries').decl().name(), self.q, UNBOUND, self.D))
                return old
            if o.kind == 'env':
                return HAVOC
            raise Unsupported(f'{name}: an iteration changes {o.kind}.{k}')

        lp = loops.Loop(eng, st, node, env, mod, name, havoc)

        def body(s):
            eng.assign(s, node.target, val, env, mod)
            alive, brk = eng.loop_body(s, node.body, env, mod)
            if brk:
                raise Unsupported(f'{name}: break')
            if not alive:
                raise Dead()

        lp.probe(body)
        own = self.own(st)
        lp.vars = [v for v in lp.vars if v[0] not in own]
        lp.havoc(st)
        before = st.fork()
        eng.cover(f'{name}: an iteration is possible', st)
        body(st)
        own = self.own(before) | self.own(st)
        for v in loops.changed(before, st):
            if v not in lp.vars and v[0] not in own:
                raise Unsupported(f'{name}: an iteration changes {st.heap[v[0]].kind}.{v[1]}')
        for oid, k in lp.vars:
            o = st.heap[oid]
            b = before.heap[oid]
            if o.kind == 'env':
                st.edit(Ref(oid)).f[k] = HAVOC
            elif o.kind == 'list':
                if any(isinstance(v, Ref) and same(v, val) for c, g, v in b.x if c == 'i'):
                    if o.x != b.x[1:]:
                        raise Unsupported(f'{name}: an iteration does not just remove its element')
                    st.edit(Ref(oid)).x = b.x[2:] if len(b.x) > 1 and same(b.x[1][2], post) else b.x[1:]
                else:
                    if o.x[:len(b.x)] != b.x and not all(same(p[2], r[2]) for p, r in zip(o.x, b.x)):
                        raise Unsupported(f'{name}: an iteration changes the list of the elements before')
                    eng.prove(f'{name}: an iteration appends its own element to the list', st, texts(eng, st, Ref(oid)) == z3.Concat(texts(eng, before, Ref(oid)), z3.Unit(self.q)))
                    st.edit(Ref(oid)).x = o.x + (run(post),)
            elif o.kind == 'dict':
                if o.x.base is not b.x.base:
                    raise Unsupported(f'{name}: an iteration replaces a collection')
                for g, kk, v in o.x.ups:
                    eng.prove(f'{name}: an iteration makes an entry under its own ID only', st, Implies(g, eng.eq(st, kk, self.q)))
            else:
                raise Unsupported(f'{name}: an iteration changes {o.kind}')
        if live is not None:
            l = the_list(st, live)
            if not same_items(st.get(l).x, before.get(l).x):
                raise Unsupported(f'{name}: an iteration changes the list it runs over')

    def foreign(self, st, node, env, mod):
        """A loop over the elements of the file, none of which is q: each iteration takes its element out and keeps it under its own ID."""
        eng = self.eng
        name = f'loop at {eng.where(node)}'
        x = z3.String('other ID')
        probe = st.fork(x != self.q, x != EMPTY)
        e = element(probe, self.entry_tag(), None, SymKids(eng, 'other', always={'ID'}, texts={'ID': lambda n: x}), 'other')
        conts = [Ref(oid) for oid, o in list(probe.heap.items()) if o.kind == 'list' and isinstance(o.x, tuple) and len(o.x) == 1 and o.x[0][0] == 's' and same(o.x[0][2], self.filekeys[self.kind])
                 and any(p.kind == 'xml' and any(isinstance(v, Ref) and v.oid == oid for v in p.f.values()) for p in list(probe.heap.values()))]
        for c in conts:
            probe.edit(c).x = (item(e), run(z3.Const('others', SEQ)))
        before = probe.fork()
        eng.assign(probe, node.target, e, env, mod)
        eng.run_body(probe, node.body, env, mod)
        own = self.own(probe, [e])
        for oid, k in loops.changed(before, probe):
            o = probe.heap[oid]
            if oid == env.oid or oid in own:
                continue
            if Ref(oid) in conts:
                if o.x != before.heap[oid].x[1:]:
                    raise Unsupported(f'{name}: an iteration does not just remove its element')
                st.edit(Ref(oid)).x = ()
            elif o.kind == 'dict' and k == '.x' and o.x.base is None and len(o.x.ups) == 1:
                eng.prove(f'{name}: an iteration makes an entry under its own ID only', probe, eng.eq(probe, o.x.ups[0][1], x))
                st.edit(Ref(oid)).x = Store(FocusMap(eng.fresh('entries').decl().name(), self.q, UNBOUND, self.filekeys[self.kind]))
            else:
                raise Unsupported(f'{name}: an iteration changes {o.kind}.{k}')
        ev = st.edit(env)
        for n in assigned(node):
            ev.f[n] = HAVOC
        return True

    def gather(self, st, node, it, env, mod):
        """A loop over a list t of strings or leaves: every list it appends to is, after the elements P of t, its old contents ++ P."""
        eng = self.eng
        name = f'loop at {eng.where(node)}'
        leaves = st.get(it).meta == 'leaves'
        unknown = self.reading and not self.written  # the lists of the file before are not looked at
        t = texts(eng, st, it)
        cur = [z3.Empty(SEQ)]
        x = eng.fresh('x')

        def havoc(s, oid, k, old, new):
            o = s.heap[oid]
            if k == '.x' and isinstance(old, tuple):
                return old + (run(cur[0]),)
            if o.kind == 'env' and not (old is None and isinstance(new, Ref)):
                return HAVOC
            if old is None and o.kind in ('inst', 'env') and any(isinstance(v, Ref) for _, v in alts(new)):
                l = s.alloc(Obj('list', x=(run(cur[0]),)))
                c = cur[0] == z3.Empty(SEQ)
                return make_union([(c, None), (z3.Not(c), l)])
            raise Unsupported(f'{name}: an iteration changes {o.kind}.{k}')

        lp = loops.Loop(eng, st, node, env, mod, name, havoc)

        def body(s):
            v = x
            if leaves:
                v = element(s, 'leaf', x)
            eng.assign(s, node.target, v, env, mod)
            alive, brk = eng.loop_body(s, node.body, env, mod)
            if brk:
                raise Unsupported(f'{name}: break')
            if not alive:
                raise Dead()

        fact = self.facts.get(t.get_id(), lambda y: True)

        def assume(s):
            s.assume(fact(x))

        lp.probe(lambda s: (assume(s), body(s)))
        if unknown:
            cur[0] = eng.fresh('IDs in the file', SEQ)
            lp.havoc(st)
            return
        sel = eng.fresh('in_loop', z3.BoolSort())
        s = st.fork(sel)
        P, R = eng.fresh('done', SEQ), eng.fresh('rest', SEQ)
        s.assume(t == z3.Concat(P, z3.Unit(x), R), x != EMPTY)
        assume(s)
        cur[0] = P
        lp.havoc(s)
        pre = s.fork()
        eng.cover(f'{name}: an iteration is possible', s)
        body(s)
        for v in loops.changed(pre, s):
            if v not in lp.vars and s.heap[v[0]].kind != 'env':
                lv = lp.value(pre, v)
                if any(isinstance(y, Ref) and y.oid == v[0] for w in lp.vars for _, y in alts(lp.value(pre, w))):
                    continue
                raise Unsupported(f'{name}: an iteration changes {s.heap[v[0]].kind}.{v[1]}')
        for v in lp.vars:
            a, b = lp.value(pre, v), lp.value(s, v)
            if v[1] == '.x':
                eng.prove(f'{name}: an iteration appends its element', s, texts(eng, s, Ref(v[0])) == z3.Concat(texts(eng, pre, Ref(v[0])), z3.Unit(x)))
            elif a is not HAVOC:
                eng.prove(f'{name}: an iteration appends its element ({v[1]})', s, And(*[And(Not(g)) if not isinstance(y, Ref) else Implies(g, texts(eng, s, y) == z3.Concat(P, z3.Unit(x))) for g, y in alts(b)]))
        st.assume(z3.Not(sel))
        cur[0] = t
        lp.havoc(st)

    # -------------------------------------------------------------- project variables
    # The variables of the file are a sequence of titles (varkeys) and a parallel sequence of IDs (varids).
    # any_title and any_language are arbitrary: what is proved for them holds for all.
    varids = z3.Const('IDs of project variables', SEQ)
    any_title, any_lang = z3.String('any title'), z3.String('any language')

    @staticmethod
    def is_tag(t):
        return z3.Or(z3.PrefixOf(z3.StringVal('lang='), t), z3.PrefixOf(z3.StringVal('/lang='), t))

    @staticmethod
    def tags_of(lang):
        return z3.Concat(z3.StringVal('lang='), lang), z3.Concat(z3.StringVal('/lang='), lang)

    def var_text(self, st, e, tag):
        v = self.eng.narrow(st, kid(self.eng, st, e, tag))
        if v is UNBOUND:
            return None
        if not isinstance(v, Ref):
            raise Unsupported('an entry that may have no ' + tag)
        return self.eng.narrow(st, st.get(v).f['text'])

    def var_sums(self, st, items, ids):
        """(titles, IDs) of a list of entries; the IDs of runs are taken from ids."""
        T, I = z3.Empty(SEQ), z3.Empty(SEQ)
        for k, g, v in items:
            if k == 's':
                t, i = v, ids[v.get_id()]
            else:
                t, i = (z3.Unit(term(self.var_text(st, v, n))) for n in ('Title', 'ID'))
            if g is not True:
                t, i = z3.If(tobool(g), t, z3.Empty(SEQ)), z3.If(tobool(g), i, z3.Empty(SEQ))
            T, I = z3.Concat(T, t), z3.Concat(I, i)
        return T, I

    def houdini(self, lp, st, body, cands, before, after, name):
        """The largest subset of the candidates that holds before the loop and is kept. cands: (text, fn(state, at)); before/after: positions."""
        from pyvc.engine import Obligation
        eng = self.eng
        keep = [(n, f) for n, f in cands if eng._check(list(st.pc) + [z3.Not(tobool(f(st, 0)))], 1500)[0] == z3.unsat]
        while True:
            sel = eng.fresh('in_loop', z3.BoolSort())
            s = st.fork(sel)
            lp.havoc(s)
            for n, f in keep:
                s.assume(tobool(f(s, before)))
            saved = list(eng.obligations)
            sinks = [list(x) for x in (eng.sinks[-1], eng.ret_sinks[-1])]
            body(s, keep)
            bad = [n for n, f in keep if eng._check(list(s.pc) + [z3.Not(tobool(f(s, after)))], 3000)[0] != z3.unsat]
            if not bad:
                break
            eng.obligations[:] = saved
            eng.sinks[-1][:], eng.ret_sinks[-1][:] = sinks
            keep = [(n, f) for n, f in keep if n not in bad]
        for n, _ in keep:
            eng.obligations.append(Obligation(f'{name}: invariant "{n}" holds before the loop and is kept', 'proved', 'z3 ' + z3.get_version_string()))
        st.assume(z3.Not(sel))
        return keep

    def list_cands(self, lp, at):
        """Roles of the lists and flags of a loop; at(position) -> (titles, IDs) up to there."""
        eng = self.eng
        out = []
        y = self.any_title
        for v in lp.vars:
            o = lp.st.heap[v[0]]
            if v[1] == '.x' and o.kind == 'list' and not any(k == 'i' and any(isinstance(x, Ref) for _, x in alts(z)) for k, g, z in o.x) and o.meta != 'leaves':
                get = lambda s, v=v: lib.list_term(eng, s, Ref(v[0]))
                out.append((f'list {v[0]} has the IDs', lambda s, p, get=get: get(s) == at(p)[1]))
                out.append((f'list {v[0]} has the titles of language tags', lambda s, p, get=get: z3.And(*[has(get(s), t) == z3.And(has(at(p)[0], t), self.is_tag(t)) for t in [y] + self.instances])))
        for v in lp.scalars(z3.BoolSort()):
            for t in ('Language', 'Country'):
                out.append((f'{v[1]}: there is a variable {t}', lambda s, p, v=v, t=t: tobool(term(lp.value(s, v))) == has(at(p)[0], z3.StringVal(t))))
        return out

    one_lang = z3.String('a language')
    instances = [z3.Concat(z3.StringVal('lang='), one_lang), z3.Concat(z3.StringVal('/lang='), one_lang)]

    def scan_vars(self, st, node, env, mod):
        """The loop over the project variables of the file: an arbitrary one."""
        eng = self.eng
        name = f'loop at {eng.where(node)}'
        P, PI = z3.Const('titles before', SEQ), z3.Const('IDs before', SEQ)
        R, RI = z3.Const('titles after', SEQ), z3.Const('IDs after', SEQ)
        t, i = z3.String('title of a variable'), z3.String('ID of a variable')
        V, I = self.varkeys, self.varids
        at = {0: (z3.Empty(SEQ), z3.Empty(SEQ)), 1: (P, PI), 2: (z3.Concat(P, z3.Unit(t)), z3.Concat(PI, z3.Unit(i))), 3: (V, I)}

        def entry(s):
            e = element(s, 'PROJECTVAR', None, SymKids(eng, 'variable', always={'ID', 'Title'}, texts={'ID': lambda n: i, 'Title': lambda n: t, 'Desc': lambda n: z3.String('Desc of a variable')}), 'variable')
            s.assume(i != EMPTY, V == z3.Concat(P, z3.Unit(t), R), I == z3.Concat(PI, z3.Unit(i), RI), z3.Length(P) == z3.Length(PI), z3.Length(R) == z3.Length(RI))
            return e

        def havoc(s, oid, k, old, new):
            o = s.heap[oid]
            if o.kind == 'env' and loops.sort_of(old, new) is None:
                return HAVOC
            return None

        lp = loops.Loop(eng, st, node, env, mod, name, havoc)
        lp.marker = State().alloc(Obj('mark')).oid

        def run_(s):
            e = entry(s)
            pre = s.fork()
            eng.assign(s, node.target, e, env, mod)
            alive, brk = eng.loop_body(s, node.body, env, mod)
            if brk:
                raise Unsupported(f'{name}: break')
            if not alive:
                raise Dead()
            return e, pre

        lp.probe(lambda s: run_(s))

        def body(s, keep):
            e, pre = run_(s)
            for v in loops.changed(pre, s):
                if v not in lp.vars and v[0] < lp.marker:
                    raise Unsupported(f'{name}: an iteration changes {s.heap[v[0]].kind}.{v[1]}')
            nv = s.get(self.novel).f
            want = z3.If(t == z3.StringVal('Language'), term(nv['languageCode']), z3.If(t == z3.StringVal('Country'), term(nv['countryCode']), z3.String('Desc of a variable')))
            had = z3.Bool('variable has Desc')
            have = False
            loc = z3.Or(t == z3.StringVal('Language'), t == z3.StringVal('Country'))
            for g, v in alts(kid(eng, s, e, 'Desc')):
                if v is UNBOUND:
                    eng.prove(f'{name}: the language and the country are stored', s, Implies(g, And(Not(loc), Not(had))))
                else:
                    have = Or(have, g)
                    eng.prove(f'{name}: a variable keeps its contents, the language and the country are those of the project', s, Implies(g, eng.eq(s, s.get(v).f['text'], want)))
            eng.prove(f'{name}: no description is added to another variable', s, Implies(And(have, Not(loc)), had))
            eng.prove(f'{name}: a variable keeps its title and ID', s, And(eng.eq(s, self.var_text(s, e, 'Title'), t), eng.eq(s, self.var_text(s, e, 'ID'), i)))
            eng.prove(f'{name}: a variable gets or loses no other element', s, all(k == 'Desc' for _, k, _v in s.get(e).x.ups))

        keep = self.houdini(lp, st, body, self.list_cands(lp, lambda p: at[p]), 1, 2, name)
        lp.havoc(st)
        for n, f in keep:
            st.assume(tobool(f(st, 3)))
        self.scan_keep = (keep, lp)

    def add_vars(self, st, node, env, mod):
        """The loop over the languages of the project."""
        eng = self.eng
        name = f'loop at {eng.where(node)}'
        Q, L, S = z3.Const('languages before', SEQ), self.one_lang, z3.Const('languages after', SEQ)
        x = self.any_lang
        c = eng.narrow(st, kid(eng, st, self.root_now0(st), 'PROJECTVARS'))
        cl = the_list(st, c)
        ids = {self.varkeys.get_id(): self.varids}
        pre_items = st.get(cl).x
        N, NI = eng.fresh('new titles', SEQ), eng.fresh('new IDs', SEQ)
        ids[N.get_id()] = NI
        T0, I0 = self.var_sums(st, pre_items, ids)
        T1, I1 = z3.Concat(T0, N), z3.Concat(I0, NI)
        at = {0: (T0, I0), 1: (T1, I1), 3: (T1, I1)}

        def havoc(s, oid, k, old, new):
            o = s.heap[oid]
            if oid == cl.oid and k == '.x':
                return old + (run(N),)
            if o.kind == 'env':
                return HAVOC
            return None

        lp = loops.Loop(eng, st, node, env, mod, name, havoc)

        def run_(s):
            s.assume(self.langs == z3.Concat(Q, z3.Unit(L), S), L != EMPTY)
            eng.assign(s, node.target, L, env, mod)
            alive, brk = eng.loop_body(s, node.body, env, mod)
            if brk or not alive:
                raise Unsupported(f'{name}: break')

        lp.probe(run_)

        def pair(T, l):
            return z3.And(*[has(T, t) for t in self.tags_of(l)])

        def body(s, keep):
            s.assume(z3.Implies(z3.Contains(Q, z3.Unit(x)), pair(T1, x)))
            pre = s.fork()
            run_(s)
            for v in loops.changed(pre, s):
                if v not in lp.vars:
                    raise Unsupported(f'{name}: an iteration changes {s.heap[v[0]].kind}.{v[1]}')
            items = s.get(cl).x
            n = len(pre_items) + 1
            if len(items) < n or not all(same(a[2], b[2]) for a, b in zip(items, pre_items + (run(N),))):
                raise Unsupported(f'{name}: an iteration changes the entries before')
            done, dids = T1, I1
            for k, g, v in items[n:]:
                q = s.fork(g)
                t, i = (term(self.var_text(q, v, a)) for a in ('Title', 'ID'))
                self.new_var(f'{name}: a new variable', q, v, done, dids)
                desc = term(self.var_text(q, v, 'Desc'))
                a, b = self.tags_of(L)
                s_ = z3.StringVal
                eng.prove(f'{name}: a new variable is one of the pair of the language', q, z3.Or(z3.And(t == a, desc == z3.Concat(s_('<HTM <SPAN LANG="'), L, s_('"> /HTM>'))), z3.And(t == b, desc == s_('<HTM </SPAN> /HTM>'))))
                done, dids = z3.Concat(done, z3.If(tobool(g), z3.Unit(t), z3.Empty(SEQ))), z3.Concat(dids, z3.If(tobool(g), z3.Unit(i), z3.Empty(SEQ)))
            at[2] = (done, dids)
            eng.prove(f'{name}: the language has its pair of variables', s, pair(done, L))
            eng.prove(f'{name}: the languages before have their pairs', s, z3.Implies(has(z3.Concat(Q, z3.Unit(L)), x), pair(done, x)))

        keep = self.houdini(lp, st, body, self.list_cands(lp, lambda p: at[p]), 1, 2, name)
        lp.havoc(st)
        for n, f in keep:
            st.assume(tobool(f(st, 3)))
        st.assume(z3.Implies(z3.Contains(self.langs, z3.Unit(x)), pair(T1, x)))
        self.var_ids = ids

    def new_var(self, name, st, e, T, I):
        """A new project variable: neither title nor ID is in use."""
        eng = self.eng
        t, i = (self.var_text(st, e, a) for a in ('Title', 'ID'))
        eng.prove(f'{name} has a title that no other has', st, z3.Not(has(T, term(t))))
        eng.prove(f'{name} has an ID that no other has', st, z3.Not(has(I, term(i))))

    def root_now0(self, st):
        """The root while the tree is written."""
        if self.root is not None:
            return self.root
        r = [oid for oid, o in st.heap.items() if o.kind == 'xml' and o.f['tag'] == 'YWRITER7']
        if len(r) != 1:
            raise Unsupported('the root is not unique')
        return Ref(r[0])

    # -------------------------------------------------------------- running
    def read(self, label):
        """Read the file into a new novel by the real read(); returns (state, novel) of the normal end."""
        eng, st = self.eng, self.st.fork()
        r, st, raised = eng.run(st, lambda s: eng.call(s, self.classes['novel'], [], {}))
        if st is None:
            raise Unsupported('Novel() raises')
        self.reader_novel = r
        reader = st.alloc(Obj('inst', {'novel': r, 'tree': None, '_filePath': z3.String('file'), 'projectName': z3.String('projectName'), 'projectPath': z3.String('projectPath')}, self.cls))
        self.reading = True
        f = eng.get_global(MOD, 'Yw7File', 'read')
        _, st1, raised = eng.run(st, lambda s: eng.call(s, f, [reader], {}))
        self.reading = False
        return reader, r, st1, raised

    written = False

    def read_stored(self):
        """What the file gives before writing; assumes that the file is readable."""
        reader, r, st1, raised = self.read('stored')
        if st1 is None:
            raise Unsupported('the file is not readable')
        self.st = st1
        self.project = reader
        return st1, r

    def write(self):
        eng, st = self.eng, self.st
        if not hasattr(self, 'project'):
            self.project = st.alloc(Obj('inst', {'tree': None, '_filePath': z3.String('file'), 'projectName': z3.String('projectName'), 'projectPath': z3.String('projectPath')}, self.cls))
            if self.root is not None:
                st.edit(self.project).f['tree'] = st.alloc(Obj('tree', {'root': self.root}))
        st.edit(self.project).f['novel'] = self.novel
        f = eng.get_global(MOD, 'Yw7File', 'write')
        _, st1, raised = eng.run(st, lambda s: eng.call(s, f, [self.project], {}))
        eng.no_raise('write() never raises', raised)
        eng.cover('write() returns', st1)
        self.written = True
        self.st = st1
        return st1

    def read_back(self):
        eng = self.eng
        reader, r, st1, raised = self.read('read')
        eng.no_raise('read() never raises on the written file', raised)
        eng.cover('read() returns', st1)
        self.st = st1
        return st1, r

    def element_of(self, st, novel):
        """The element q of a novel."""
        coll = KINDS[self.kind][1]
        d = self.eng.narrow(st, st.get(novel).f[coll])
        v = self.eng.narrow(st, self.eng.store_get(st, st.get(d).x, self.q))
        if not isinstance(v, Ref):
            self.eng.prove(f'the {self.kind} is read', st, Not(Or(*[g for g, x in alts(v) if not isinstance(x, Ref)])))
            raise Unsupported(f'the {self.kind} that was read is not unique')
        return v

    def container_ids(self, st):
        """IDs of the elements of the focus kind in the written tree."""
        root = self.root_now(st)
        v = kid(self.eng, st, root, KINDS[self.kind][0])
        out = z3.Empty(SEQ)
        for g, c in alts(v):
            if isinstance(c, Ref):
                t = texts(self.eng, st, the_list(st, c))
                out = t if g is True else z3.If(tobool(g), t, out)
        return out


    def written_element(self, st):
        """The element q of the written tree."""
        root = self.root_now(st)
        c = self.eng.narrow(st, kid(self.eng, st, root, KINDS[self.kind][0]))
        v = [v for k, g, v in st.get(the_list(st, c)).x if k == 'i']
        if len(v) != 1 or not isinstance(v[0], Ref):
            raise Unsupported('the written element is not unique')
        return v[0]


def same_items(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and same(x[1], y[1]) and same(x[2], y[2]) for x, y in zip(a, b))


def file_text(v):
    out = []
    for g, t in alts(v):
        if kind(t) == 'str':
            if isinstance(t, str):
                out.append((g, t or None))
            else:
                e = term(t) == EMPTY
                out += [(And(g, e), None), (And(g, Not(e)), t)]
        else:
            out.append((g, t))
    return make_union(out)


def assigned(node):
    out = set()
    for b in node.body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    for x in ast.walk(node.target):
        if isinstance(x, ast.Name):
            out.add(x.id)
    return out


def null(eng, st, v):
    """(not set or empty, text) of a text value."""
    cond, t = [], []
    for g, x in alts(v):
        if x is None or x is UNBOUND:
            cond.append(g)
        elif kind(x) == 'str':
            cond.append(And(g, term(x) == EMPTY))
            t.append((g, term(x)))
        else:
            raise Unsupported(f'{x!r} is not a text')
    val = EMPTY
    for g, x in t:
        val = x if g is True else z3.If(tobool(g), x, val)
    return tobool(Or(*cond)), val


def same_text(eng, st, a, b):
    """Equal up to empty = not set."""
    na, ta = null(eng, st, a)
    nb, tb = null(eng, st, b)
    return z3.And(na == nb, z3.Implies(z3.Not(na), ta == tb))


def seq_or_empty(eng, st, v):
    """Seq term of a list or None (None: empty)."""
    out = z3.Empty(SEQ)
    for g, x in alts(v):
        t = lib.list_term(eng, st, x) if isinstance(x, Ref) else z3.Empty(SEQ)
        out = t if g is True else z3.If(tobool(g), t, out)
    return out


def truth_of(eng, st, v):
    return tobool(eng.truth(st, v))


def kw_value(eng, before, key):
    """Value of a key of the custom fields before."""
    K = optstr_sort()
    w = z3.Select(before, z3.StringVal(key))
    return Union([(K.is_absent(w), None), (K.is_none(w), None), (K.is_str(w), K.val(w))])
