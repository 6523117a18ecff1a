"""The row loops of the list documents (OdsR*List.read): an arbitrary row of an arbitrary table, and an arbitrary novel.

The novel is arbitrary at the start of each row: what is shown for one row holds for each row of the table, in sequence.
"""
import re
try:
    from re import _parser as sre, _constants as src_
except ImportError:
    import sre_parse as sre, sre_constants as src_
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc import lib, accum, loops, models
from pyvc.lib import STR, SEQ, U_RSTRIP, U_LOWER
from pyvc.accum import Fold, E, NIL, INT, BOOL

CELL = z3.Function('cell of the row read', STR, z3.IntSort(), STR)
SPLIT = z3.Function('string_to_list', STR, STR, SEQ)
EMPTY = z3.Empty(SEQ)
ASSUMED = ['digits follow the marker of an ID in a cell', 'text attributes are texts or unset, tags are lists of strings or unset']


def is_marker(p, marker):
    """The pattern is the marker followed by a group of digits."""
    try:
        t = list(sre.parse(p.pattern, p.flags))
    except Exception:
        return False
    lit = ''
    while t and t[0][0] == src_.LITERAL:
        lit += chr(t.pop(0)[1])
    if lit != marker or len(t) != 1 or t[0][0] != src_.SUBPATTERN:
        return False
    n, _, _, body = t[0][1]
    body = list(body)
    if n != 1 or len(body) != 1 or body[0][0] != src_.MAX_REPEAT:
        return False
    lo, hi, what = body[0][1]
    return lo == 1 and hi == src_.MAXREPEAT and list(what) in ([(src_.IN, [(src_.RANGE, (48, 57))])], [(src_.IN, [(src_.CATEGORY, src_.CATEGORY_DIGIT)])])


def cell(x, i):
    return CELL(x, z3.IntVal(i))


class Poison:

    def lookup(self, eng, st, key):
        raise Unsupported('elements after the loop over the rows')

    def merge_stores(self, g, a, b):
        return Store(self)


TEXT = 'text'  # the text of the cell, apart from white space at the end
DOCS = {
    'OdsRCharList': dict(mod='ods_r_charlist', coll='characters', srt='srtCharacters', marker='CrID:', cls=('character', 'Character'), n=10,
                         attrs={'title': 1, 'fullName': 2, 'aka': 3, 'desc': 4, 'bio': 5, 'goals': 6, 'isMajor': 7, 'tags': 8, 'notes': 9}),
    'OdsRLocList': dict(mod='ods_r_loclist', coll='locations', srt='srtLocations', marker='LcID:', cls=('world_element', 'WorldElement'), n=5, attrs={'title': 1, 'desc': 2, 'aka': 3, 'tags': 4}),
    'OdsRItemList': dict(mod='ods_r_itemlist', coll='items', srt='srtItems', marker='ItID:', cls=('world_element', 'WorldElement'), n=5, attrs={'title': 1, 'desc': 2, 'aka': 3, 'tags': 4}),
    'OdsRSceneList': dict(mod='ods_r_scenelist', coll='scenes', srt=None, marker='ScID:', cls=('scene', 'Scene'), n=21,
                          attrs={'title': 1, 'desc': 2, 'tags': 3, 'notes': 4, 'isReactionScene': 5, 'goal': 6, 'conflict': 7, 'outcome': 8, 'field1': 11, 'field2': 12, 'field3': 13, 'field4': 14, 'status': 17}),
}
COLLS = ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes')
LISTS = ('srtChapters', 'srtCharacters', 'srtLocations', 'srtItems', 'srtPrjNotes')


def attributes(mods):
    from pyvc.engine import SRC
    out = []
    for m in mods:
        s = open(f'{SRC}/pywriter/model/{m}.py', encoding='utf-8').read()
        out += re.findall(r'self\.(\w+)\s*=[^=]', s)
    return list(dict.fromkeys(out))


def unit(cname):
    d = DOCS[cname]

    def f(u):
        list_document(u, cname, **d)
    return f


def list_document(u, cname, mod, coll, srt, marker, cls, n, attrs):
    eng = u.engine()
    eng.assumed |= set(ASSUMED)
    accum.install(eng)
    M = eng.libs['%methods']
    models.install(eng)
    M[('str', 'join')] = lambda e, s, o, a, kw: (_ for _ in ()).throw(Unsupported('join'))
    ID = z3.Function(f'ID after {marker}', STR, STR)
    rc = eng.get_global(f'pywriter.ods_r.{mod}', cname)
    eng.get_global('pywriter.ods_r.ods_reader', 'OdsReader')
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    ecls = eng.get_global(f'pywriter.model.{cls[0]}', cls[1])
    divider = eng.get_global('pywriter.file.file_export', 'FileExport', '_DIVIDER')
    st = eng.start()
    old_search = M[(re.Pattern, 'search')]

    def search(e, s, p, a, kw):
        if is_marker(p, marker) and len(a) == 1 and kind(a[0]) == 'str':
            t = term(a[0])
            m = s.alloc(Obj('idmatch', {'text': t}))
            LAZY[m.oid] = s.get(m)
            found = z3.Contains(t, z3.StringVal(marker))
            return make_union([(found, m), (z3.Not(found), None)])
        return old_search(e, s, p, a, kw)

    M[(re.Pattern, 'search')] = search

    def group(e, s, o, a, kw):
        t = s.get(o).f['text']
        if a != [1]:
            raise Unsupported('group')
        return ID(t)

    M[('idmatch', 'group')] = group
    M[('idmatch', '__getitem__')] = group

    def to_list(e, s, a, kw):
        div = a[1] if len(a) > 1 else kw.get('divider', ';')
        if kind(a[0]) != 'str' or kind(div) != 'str':
            raise Unsupported('string_to_list')
        t = SPLIT(term(a[0]), term(div))
        s.assume(z3.Implies(term(a[0]) == NIL, t == EMPTY))
        return s.alloc(Obj('list', x=(run(t),)))

    eng.contracts['pywriter.pywriter_globals.string_to_list'] = to_list
    names = attributes([cls[0], 'basic_element'] + (['world_element'] if cls[0] == 'character' else []))

    def make(name, key, s):
        fl = {}
        for a in names:
            if a == 'tags':
                l = s.alloc(Obj('list', x=(run(z3.Const(f'{name}.tags', SEQ)),)))
                LAZY[l.oid] = s.get(l)
                b = z3.Bool(f'{name}.tags?none')
                fl[a] = Union([(b, None), (z3.Not(b), l)])
            elif a in ('isMajor', 'isReactionScene'):
                fl[a] = eng.opt(f'{name}.{a}', BOOL)
            elif a == 'status':
                fl[a] = eng.opt(f'{name}.{a}', INT)
            elif a in attrs:
                fl[a] = eng.opt(f'{name}.{a}')
            elif a == 'kwVar':
                k = s.alloc(Obj('dict', x=Store(models.ArrMap(z3.Const(f'{name}.kwVar', z3.ArraySort(STR, models.optstr_sort()))))))
                LAZY[k.oid] = s.get(k)
                fl[a] = k
            else:
                fl[a] = z3.Const(f'{name}.{a}', PYOBJ)
        return Obj('inst', fl, ecls)

    maps = {c: models.SymMap(c, make if c == coll else (lambda name, key, s: Obj('inst', {a: z3.Const(f'{name}.{a}', PYOBJ) for a in ('title', 'desc')}, base)), eng) for c in COLLS}
    nov = {c: st.alloc(Obj('dict', x=Store(maps[c]))) for c in COLLS}
    for a in LISTS:
        nov[a] = st.alloc(Obj('list', x=(run(z3.Const(a, SEQ)),)))
    for a in attributes(['novel', 'basic_element']):
        nov.setdefault(a, z3.Const(f'novel.{a}', PYOBJ))
    novel = st.alloc(Obj('inst', nov, base))
    path = z3.String('filePath')
    me = st.alloc(Obj('inst', {'novel': novel, '_filePath': path, '_rows': st.alloc(Obj('list', x=()))}, rc))
    ROWS = z3.Const('rows read', SEQ)
    MARK = z3.StringVal(marker)
    rows_of = []

    def read(e, s, a, kw):
        """Contract of OdsReader.read: the rows of the table, each with the number of cells of the title row."""
        titles = e.getattr(s, me, '_rowTitles')
        if not isinstance(titles, (list, tuple)) and not (isinstance(titles, Ref) and all(k == 'i' and g is True for k, g, _ in s.get(titles).x)):
            raise Unsupported('row titles')
        rows_of.append(len(titles) if isinstance(titles, (list, tuple)) else len(s.get(titles).x))
        e.raise_if(s, e.fresh('reading fails', BOOL), e.get_global('pywriter.pywriter_globals', 'Error'), 'cannot read')
        s.edit(me).f['_rows'] = s.alloc(Obj('list', x=(run(ROWS),)))
        return None

    eng.contracts['pywriter.ods_r.ods_reader.OdsReader.read'] = read
    order = Fold(eng, 'IDs', [], SEQ, EMPTY, lambda a, r, x, P: z3.If(z3.Contains(cell(x, 0), MARK), z3.Concat(r, z3.Unit(ID(cell(x, 0)))), r))
    before = st.fork()
    state = {'loops': 0}

    def hook(e, s, node, it, env, mod_):
        t = models.seq_list(s, it)
        if t is None or not t.eq(ROWS):
            return False
        name = f'loop at {e.where(node)}'
        state['loops'] += 1
        # the novel is still arbitrary (apart from the list of IDs, which is built)
        for oid, k in loops.changed(before, s):
            ok = (oid, k) in ((me.oid, '_rows'), (novel.oid, srt)) or s.heap[oid].kind == 'env'
            e.prove(f'{name}: frame: before the rows nothing of the novel is changed but the order of the {coll}', s, ok)
        for c in COLLS:
            e.prove(f'{name}: frame: novel.{c} is kept', s, s.get(novel).f[c] == nov[c])
        mapref = nov[coll]

        def elem(q, x):
            return q.alloc(Obj('list', x=tuple(item(cell(x, i)) for i in range(rows_of[-1]))))

        def own(oid):
            return oid == mapref.oid or any(r.oid == oid for _, r in maps[coll].cache)

        def havoc(q, oid, k, old, new):
            return old if own(oid) else None

        def each(pre, m, P, x):
            cells = [cell(x, i) for i in range(n)]
            one_row(e, name, pre, m, cells, x)

        def one_row(e, name, pre, m, cells, x):
            c0 = cells[0]
            has = z3.Contains(c0, MARK)
            key = ID(c0)
            dom = maps[coll].dom(key)
            # the map: the element with the ID, nothing else
            ups = m.get(mapref).x.ups
            if m.get(mapref).x.base is not maps[coll]:
                raise Unsupported('another map')
            for g, k, v in ups:
                e.prove(f'{name}: a row adds an element with its ID only, and only if there was none', m, Implies(g if v is not UNBOUND else True, And(has, eng.eq(m, k, key), Not(dom), v is not UNBOUND)))
            for k, r in maps[coll].cache:
                if m.heap.get(r.oid, LAZY[r.oid]) is not LAZY[r.oid]:
                    diff = Or(*[Not(same(LAZY[r.oid].f[a], v) or equal(m, LAZY[r.oid].f[a], v)) for a, v in m.heap[r.oid].f.items()])
                    e.prove(f'{name}: a row changes no element with another ID', m, Implies(And(has, diff), eng.eq(m, k, key)))
                    e.prove(f'{name}: a row without ID changes nothing', m, Implies(diff, has))
            now = m.fork()
            now.assume(has)
            if e.feasible(now):
                v = eng.store_get(now, now.get(mapref).x, key)
                e.prove(f'{name}: the element is there', now, Not(Or(*[g for g, y in alts(v) if y is UNBOUND])))
                was = pre.fork()
                w = eng.store_get(was, was.get(mapref).x, key)
                olds = {}
                for g, y in alts(w):
                    if y is not UNBOUND:
                        olds = {a: was.get(y).f.get(a) for a in names}
                        olds['%ref'] = y
                for g, y in alts(v):
                    if y is UNBOUND:
                        continue
                    q = now.fork()
                    q.assume(tobool(g) if g is not True else z3.BoolVal(True))
                    if not e.feasible(q):
                        continue
                    new = y != olds.get('%ref')
                    q2 = q.fork()
                    q2.assume(z3.Not(dom) if new else dom)
                    if new:
                        e.prove(f'{name}: an element with an unknown ID is a new one', q, z3.Not(dom))
                        u.shape(f'{name}: the new element has the class of its kind', q.get(y).meta == ecls or e.subclass(q, q.get(y).meta, ecls))
                    for a in names:
                        val = q.get(y).f.get(a, UNBOUND)
                        old = None if new else olds[a]
                        if a in attrs:
                            e.prove(f'{name}: {a} is taken from its column', q2, attr_goal(q2, a, cells[attrs[a]], old, val))
                        elif not new:
                            if isinstance(val, Ref) and isinstance(old, Ref):
                                e.prove(f'{name}: frame: {a} is kept', q2, val == old and q2.heap.get(val.oid, LAZY.get(val.oid)) is LAZY.get(val.oid))
                            else:
                                e.prove(f'{name}: frame: {a} is kept', q2, same(val, old) or equal(q2, val, old))
            # nothing else
            for c in COLLS:
                if c != coll:
                    e.prove(f'{name}: frame: no element of {c} is changed', m, all(m.heap.get(r.oid, LAZY[r.oid]) is LAZY[r.oid] for _, r in maps[c].cache))

        def allowed(pre, v):
            return own(v[0])

        accum.accumulate(e, s, node, ROWS, env, mod_, name, {'list': [order]}, elem=elem, each=each, havoc=havoc, allowed=allowed, facts=lambda t, x: [])
        s.edit(mapref).x = Store(Poison())
        return True

    def equal(q, a, b):
        try:
            return eng.eq(q, a, b)
        except Unsupported:
            return False

    def texts(q, v):
        r = NIL
        for g, y in reversed(alts(v)):
            t = NIL if y is None else term(y)
            if t is None or t.sort() != STR:
                return None
            r = z3.If(tobool(g), t, r) if g is not True else t
        return r

    def attr_goal(q, a, cell, old, val):
        if val is UNBOUND or val is None and a in ('isMajor', 'isReactionScene'):
            return False
        if a == 'tags':
            want = SPLIT(cell, term(divider))
            q.assume(z3.Implies(cell == NIL, want == EMPTY))
            ok = []
            for g, y in alts(val):
                if y is None:
                    ok.append(Implies(g, want == EMPTY))
                elif isinstance(y, Ref) and q.get(y).kind == 'list':
                    ok.append(Implies(g, lib.list_term(eng, q, y) == want))
                else:
                    ok.append(Not(g))
            return And(*ok)
        if a == 'isMajor':
            return eng.eq(q, val, z3.Contains(cell, z3.StringVal('Major')))
        if a == 'isReactionScene':
            return eng.eq(q, val, z3.Contains(U_LOWER(cell), z3.StringVal('r')))
        if a == 'status':
            r = old
            for i, t in enumerate(('Outline', 'Draft', '1st Edit', '2nd Edit', 'Done')):
                r = ite(cell == z3.StringVal(t), i + 1, r)
            return And(*[Implies(g, equal(q, val, y)) for g, y in alts(r)])
        t = texts(q, val)
        if t is None:
            return False
        q.assume(U_RSTRIP(U_RSTRIP(cell)) == U_RSTRIP(cell), U_RSTRIP(NIL) == NIL)
        if a.startswith('field'):
            rating = z3.Or(*[cell == z3.StringVal(str(i)) for i in range(2, 11)])
            return z3.And(z3.Implies(rating, U_RSTRIP(t) == U_RSTRIP(cell)), z3.Implies(z3.Not(rating), t == z3.StringVal('1')))
        return U_RSTRIP(t) == U_RSTRIP(cell)

    eng.loop_hooks.append(hook)
    error = eng.get_global('pywriter.pywriter_globals', 'Error')
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, 'read', []))
    eng.no_raise('read raises nothing but Error', raised, (error,))
    eng.cover('read returns', st1)
    u.fact('the rows are read, and visited in one loop', state['loops'] >= 1, status=None if state['loops'] else 'unknown')
    u.shape(f'the table has {n} columns', bool(rows_of) and all(x == n for x in rows_of))
    for k, v in nov.items():
        if k == srt:
            x = st1.get(novel).f[k]
            eng.prove(f'{k} has the IDs of the rows in their order', st1, isinstance(x, Ref) and lib.list_term(eng, st1, x) == order(ROWS))
        elif k != coll:
            x = st1.get(novel).f.get(k, UNBOUND)
            eng.prove(f'frame: novel.{k}', st1, same(v, x) and (not isinstance(v, Ref) or st1.get(v) is before.get(v)))
    eng.prove(f'frame: novel.{coll} is the same map', st1, st1.get(novel).f[coll] == nov[coll])


UNITS = [(f'rows of {c}', unit(c)) for c in DOCS]
