"""C18: spreadsheet tables. OdsParser.get_rows for any table, OdsReader.read, and the row loops of the list documents.

A table is a list of rows, a row a list of cells, a cell has a list of paragraphs and perhaps a number of repetitions. The specification is
defined by recursion over these lists (class Table); the loops are cut by invariants, there is no bound.
"""
import os
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, accum, loops, models
from pyvc.lib import STR, SEQ, U_JOIN
from pyvc.accum import Fold, E, NIL, INT, BOOL

LEVEL = 'proof'
TRUSTED = ['xml.etree.ElementTree and zipfile: find gives the first child with the tag, findall all of them in order, itertext the texts of an element and its descendants in order',
           'a cell without paragraphs is an empty cell; rows that are marked as repeated are not repeated']
ASSUMPTIONS = ['the file is an ODS document with a spreadsheet and a table; a number of repeated columns is a number']
NS = {'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0', 'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0', 'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0'}
Q = {f'{{{u}}}': p for p, u in NS.items()}
EMPTY = z3.Empty(SEQ)
ROWS = z3.Const('rows of the table', SEQ)
CELLS = z3.Function('cells of the row', STR, SEQ)
PARS = z3.Function('paragraphs of the cell', STR, SEQ)
PIECES = z3.Function('texts of the paragraph', STR, SEQ)
REP = z3.Function('number-columns-repeated', STR, STR)
HAS_REP = z3.Function('has number-columns-repeated', STR, BOOL)
VALUE = z3.Function('row', SEQ, STR)  # a row as an element of the list of rows
ADD = z3.Function('add', SEQ, STR, INT, SEQ)  # row, text, number of copies: at most n cells


class Table:

    def __init__(self, eng, n):
        self.eng, self.n = eng, n
        self.paragraphs = Fold(eng, 'texts of the paragraphs', [], SEQ, EMPTY, lambda a, r, p, P: z3.Concat(r, z3.Unit(U_JOIN(NIL, PIECES(p)))))
        self.first = Fold(eng, 'no cell yet', [], BOOL, z3.BoolVal(True), lambda a, r, c, P: z3.BoolVal(False))
        self.live = Fold(eng, 'the first cell is not empty', [], BOOL, z3.BoolVal(True), lambda a, r, c, P: z3.If(self.first(P), self.filled(c), r))
        self.row = Fold(eng, 'cells', [], SEQ, EMPTY, lambda a, r, c, P: z3.If(self.live(accum.SNOC(P, c)), self.add(r, self.text(c), self.copies(c)), r), lambda a, P: [self.n >= z3.Length(self.row.f(P)),
                        (z3.Length(self.row.f(P)) > 0) == z3.And(z3.Not(self.first(P)), self.live(P))])
        self.rows = Fold(eng, 'rows', [], SEQ, EMPTY, lambda a, r, x, P: z3.If(z3.Length(self.row(CELLS(x))) > 0, z3.Concat(r, z3.Unit(VALUE(self.row(CELLS(x))))), r))

    def filled(self, c):
        return z3.Length(PARS(c)) > 0

    def text(self, c):
        t = U_JOIN(z3.StringVal('\n'), self.paragraphs(PARS(c)))
        return z3.If(self.filled(c), t, NIL)

    def copies(self, c):
        k = lib.U_INT(REP(c))
        return z3.If(z3.And(HAS_REP(c), REP(c) != NIL, k > 1), k, z3.IntVal(1))

    def add(self, r, t, m):
        v = ADD(r, t, m)
        base = [ADD(r, t, z3.IntVal(0)) == r, self.grow(r, t, z3.IntVal(0)), z3.Implies(z3.Length(r) <= self.n, z3.Length(v) <= self.n)]
        if z3.is_app_of(m, z3.Z3_OP_ADD):
            base.append(self.grow(r, t, z3.simplify(m - 1)))
        for f in base:
            accum.ax(self.eng, v, f)
        return v

    def grow(self, r, t, m):
        """The definition of add for m + 1 copies."""
        v = ADD(r, t, m)
        return ADD(r, t, z3.simplify(m + 1)) == z3.If(z3.Length(v) < self.n, z3.Concat(v, z3.Unit(t)), v)


def setup(u):
    eng = u.engine()
    eng.exact = False  # the functions of the specification are uninterpreted: what is not proved is left open
    accum.install(eng)
    M = eng.libs['%methods']
    n = z3.Int('cellsPerRow')
    T = Table(eng, n)
    eng.libs['%host'][os.path.normpath] = lambda e, s, a, kw: e.fresh('normpath')
    eng.get_global('pywriter.ods_r.ods_parser', 'OdsParser')
    content = z3.Const('content.xml', PYOBJ)

    def zfile(e, s, a, kw):
        fails = e.fresh('ZipFile fails', BOOL)
        s.log = s.log + ((True, 'unzip', a[0]),)
        e.raise_if(s, fails, OSError, 'cannot read')
        return s.alloc(Obj('zipfile'))

    eng.libs['zipfile'] = {'ZipFile': Native('zipfile.ZipFile', zfile)}
    M[('zipfile', '__enter__')] = lambda e, s, o, a, kw: o
    M[('zipfile', '__exit__')] = lambda e, s, o, a, kw: None
    M[('zipfile', 'close')] = lambda e, s, o, a, kw: None

    def zread(e, s, o, a, kw):
        if a[0] != 'content.xml':
            raise Unsupported('part of the document')
        e.raise_if(s, e.fresh('no content', BOOL), KeyError, 'content.xml')
        return content

    M[('zipfile', 'read')] = zread

    def node(s, what, i=None):
        return s.alloc(Obj('node', {'what': what, 'id': i}))

    def root(e, s, a, kw):
        if not same(a[0], content):
            raise Unsupported('XML from another text')
        return node(s, 'root')

    eng.libs['xml.etree.ElementTree'] = {'fromstring': Native('ET.fromstring', root)}

    def name(s, a, kw):
        path = a[0]
        if not isinstance(path, str):
            raise Unsupported('path')
        ns = a[1] if len(a) > 1 else kw.get('namespaces')
        for q, p in Q.items():
            if path.startswith(q):
                return f'{p}:{path[len(q):]}'
        pre, _, tag = path.partition(':')
        if not tag or ns is None:
            raise Unsupported('path')
        uri = lib.getitem(eng, s, ns, pre)
        if not isinstance(uri, str) or f'{{{uri}}}' not in Q:
            raise Unsupported('path')
        return Q[f'{{{uri}}}'] + ':' + tag

    ONE = {('root', 'office:body'): 'body', ('body', 'office:spreadsheet'): 'spreadsheet', ('spreadsheet', 'table:table'): 'table'}
    MANY = {('table', 'table:table-row'): ('row', lambda i: ROWS), ('row', 'table:table-cell'): ('cell', CELLS), ('cell', 'text:p'): ('par', PARS)}
    eng.lists = {}

    def find(e, s, o, a, kw):
        f = s.get(o).f
        k = (f['what'], name(s, a, kw))
        if k in ONE:
            return node(s, ONE[k])
        if k == ('cell', 'text:p'):
            return make_union([(z3.Length(PARS(f['id'])) > 0, node(s, 'par', PARS(f['id'])[0])), (z3.Not(z3.Length(PARS(f['id'])) > 0), None)])
        raise Unsupported(f'{k} of the document')

    def findall(e, s, o, a, kw):
        f = s.get(o).f
        k = (f['what'], name(s, a, kw))
        if k not in MANY:
            raise Unsupported(f'{k} of the document')
        what, fn = MANY[k]
        t = fn(f['id'])
        e.lists[t.get_id()] = (what, t)
        return s.alloc(Obj('list', x=(run(t),)))

    M[('node', 'find')] = find
    M[('node', 'findall')] = findall
    M[('node', '__bool__')] = lambda e, s, o, a, kw: (_ for _ in ()).throw(Unsupported('truth of an element'))

    def get(e, s, o, a, kw):
        f = s.get(o).f
        if f['what'] != 'cell' or name(s, a, kw) != 'table:number-columns-repeated':
            raise Unsupported('attribute of an element')
        c = f['id']
        d = a[1] if len(a) > 1 else kw.get('default')
        s.assume(z3.Implies(z3.And(HAS_REP(c), REP(c) != NIL), lib.U_INTOK(REP(c))))
        return make_union([(HAS_REP(c), REP(c)), (z3.Not(HAS_REP(c)), d)])

    def itertext(e, s, o, a, kw):
        f = s.get(o).f
        if f['what'] != 'par' or a or kw:
            raise Unsupported('itertext')
        return s.alloc(Obj('iter', x=(run(PIECES(f['id'])),)))

    M[('node', 'get')] = get
    M[('node', 'itertext')] = itertext
    # the text of a paragraph is kept as it is: no join by parts
    M[('str', 'join')] = lambda e, s, o, a, kw: U_JOIN(term(o), lib.list_term(e, s, a[0])) if isinstance(a[0], Ref) and s.get(a[0]).kind in ('list', 'iter') else (_ for _ in ()).throw(Unsupported('join'))
    eng.element_facts = lambda t, x: []
    return eng, n, T, node


def u_parser(u):
    eng, n, T, node = setup(u)
    st = eng.start()
    st.assume(n >= 1)
    stack = {}

    def hook(e, s, nd, it, env, mod):
        if not isinstance(it, Ref):
            return False
        o = s.get(it)
        where = f'loop at {e.where(nd)}'
        if o.kind == 'range' and len(o.f['args']) < 3 and 'cell' in stack:
            P, c = stack['cell']
            R, t = T.row(P), T.text(c)
            lo, hi = [term(a) for a in ((0,) + tuple(o.f['args']))[-2:]]
            k = hi - lo
            k = z3.If(k > 0, k, z3.IntVal(0))
            val = lambda d: lambda j: T.add(R, t, d + j)
            num = lambda d: lambda j: z3.Length(T.add(R, t, d + j))

            def stop(j):
                fs = []
                for d in (0, 1):
                    a = T.add(R, t, z3.IntVal(d) + j)
                    fs += [z3.Implies(z3.Length(a) >= n, z3.And(T.add(R, t, z3.IntVal(e2) + k) == a)) for e2 in (0, 1) if e2 >= d]
                return fs

            one, zero = z3.IntVal(1), z3.IntVal(0)
            accum.accumulate(e, s, nd, k, env, mod, where, {'int=': [num(one), num(zero)], 'list=': [val(one), val(zero)]}, stop=stop, count=True, elem=lambda q, j: lo + j)
            return True
        if o.kind not in ('list', 'iter') or len(o.x) != 1 or o.x[0][0] != 's':
            return False
        src = e.lists.get(o.x[0][2].get_id())
        if src is None:
            return False
        what, t = src
        elem = lambda q, x: node(q, what, x)
        if what == 'par':
            accum.accumulate(e, s, nd, t, env, mod, where, {'list': [T.paragraphs]}, elem=elem)
        elif what == 'cell':
            def stop(P):
                a = T.row(P)
                return [z3.Implies(z3.Or(z3.Length(a) >= n, z3.Not(z3.Or(T.first(P), T.live(P)))), T.row(t) == a)]

            def enter(P, x):
                stack['cell'] = (P, x)

            accum.accumulate(e, s, nd, t, env, mod, where, {'int': [lambda P: z3.Length(T.row(P))], 'bool': [T.first, T.live], 'list': [T.row], 'fact': [lambda P: z3.Or(T.first(P), T.live(P))]}, enter, lambda: stack.pop('cell'), elem=elem, stop=stop, facts=lambda t, x: [])
        else:
            accum.accumulate(e, s, nd, t, env, mod, where, {'list': [T.rows]}, elem=elem, code=lambda q, v: VALUE(lib.list_term(e, q, v)))
        return True

    eng.loop_hooks.append(hook)
    cls = eng.get_global('pywriter.ods_r.ods_parser', 'OdsParser')
    path = z3.String('filePath')
    error = eng.get_global('pywriter.pywriter_globals', 'Error')
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, eng.call(s, cls, [], {}), 'get_rows', [path, n]))
    eng.no_raise('get_rows raises nothing but Error', raised, (error,))
    eng.cover('get_rows returns', st1)
    eng.prove('the rows are those of the table whose first cell is not empty, in order, each with its cells, repeated cells repeated, cut after the number of cells', st1, accum.list_value(eng, st1, r, lambda q, v: VALUE(lib.list_term(eng, q, v))) == T.rows(ROWS))
    eng.prove('the file with the given path is read', st1, all(same(ev[2], path) for ev in st1.log if ev[1] == 'unzip') and any(ev[1] == 'unzip' for ev in st1.log))


def u_lemmas(u):
    n, m, k, c = z3.Ints('n copies k cells')
    R, t = z3.Const('row', SEQ), z3.String('text')
    a = z3.Const('add', SEQ)
    nxt = z3.If(z3.Length(a) < n, z3.Concat(a, z3.Unit(t)), a)
    L = z3.Length
    u.lemma('adding copies: a full row does not change (step)', [L(a) >= n], nxt == a)
    u.lemma('adding copies: not more than n cells (step)', [L(a) <= n], L(nxt) <= n)
    low = lambda x, y: z3.If(x < y, x, y)
    u.lemma('adding copies: the row has the smaller number of n and its cells and copies (step)', [L(R) <= n, m >= 0, L(a) == low(n, L(R) + m)], L(nxt) == low(n, L(R) + m + 1))
    u.lemma('adding copies: the row is kept (step)', [z3.PrefixOf(R, a)], z3.PrefixOf(R, nxt))
    u.lemma('adding copies: all new cells have the text (step)', [z3.Implies(z3.And(L(R) <= k, k < L(a)), a[k] == t), z3.Implies(L(nxt) != L(a), nxt[L(a)] == t), z3.Implies(k < L(a), nxt[k] == a[k]), L(R) <= k, k < L(nxt), L(nxt) <= L(a) + 1], nxt[k] == t)
    u.lemma('adding copies: the new cell', [L(a) < n], z3.And(nxt[L(a)] == t, L(nxt) == L(a) + 1))
    u.lemma('adding copies: the other cells', [k >= 0, k < L(a)], nxt[k] == a[k])
    # a row: after the end of the row (full, or empty first cell) nothing changes
    first, live, filled = z3.Bools('first live filled')
    live1 = z3.If(first, filled, live)
    u.lemma('a row whose first cell is empty stays empty (step)', [z3.Not(z3.Or(first, live))], z3.Not(live1))
    u.lemma('a row is left out if and only if it has no cell or the first is empty (step)', [(L(R) > 0) == z3.And(z3.Not(first), live), n >= 1, L(R) <= n, L(a) == low(n, L(R) + m), m >= 1],
            (L(z3.If(live1, a, R)) > 0) == live1)


def u_reader(u):
    """OdsReader.read: the rows of the file; a row with another number of cells is refused."""
    eng = u.engine()
    accum.install(eng)
    eng.get_global('pywriter.ods_r.ods_reader', 'OdsReader')
    cls = eng.get_global('pywriter.ods_r.ods_reader', 'OdsReader')
    error = eng.get_global('pywriter.pywriter_globals', 'Error')
    st = eng.start()
    TITLES, READ = z3.Consts('titles rows', SEQ)
    LEN = z3.Function('number of cells', STR, INT)
    BAD = z3.Bool('parser fails')
    calls = []
    ok = Fold(eng, 'all rows complete', [], BOOL, z3.BoolVal(True), lambda a, r, x, P: z3.And(r, LEN(x) == z3.Length(TITLES)))

    def get_rows(e, s, a, kw):
        calls.append((a[1:], kw))
        e.raise_if(s, BAD, error, 'cannot read')
        return s.alloc(Obj('list', x=(run(READ),)))

    eng.contracts['pywriter.ods_r.ods_parser.OdsParser.get_rows'] = get_rows
    M = eng.libs['%methods']
    M[('row', '__len__')] = lambda e, s, o, a, kw: LEN(s.get(o).f['x'])
    M[('row', '__str__')] = lambda e, s, o, a, kw: e.fresh('text')
    eng.libs['builtins']['print'] = Native('print', lambda e, s, a, kw: None)
    eng.element_facts = lambda t, x: []
    seen = []

    def hook(e, s, nd, it, env, mod):
        t = models.seq_list(s, it)
        if t is None or not t.eq(READ):
            return False
        accum.accumulate(e, s, nd, t, env, mod, f'loop at {e.where(nd)}', {'bool': [ok], 'fact': [ok]}, lambda P, x: seen.append(x), elem=lambda q, x: q.alloc(Obj('row', {'x': x})),
                         each=lambda pre, m, P, x: e.prove('a row with a wrong number of cells is not accepted', m, LEN(x) == z3.Length(TITLES)))
        return True

    eng.loop_hooks.append(hook)
    path = z3.String('filePath')
    titles = st.alloc(Obj('list', x=(run(TITLES),)))
    me = st.alloc(Obj('inst', {'_filePath': path, '_rows': st.alloc(Obj('list', x=())), '_rowTitles': titles}, cls))
    fn = eng.get_global('pywriter.ods_r.ods_reader', 'OdsReader', 'read')
    r, st1, raised = eng.run(st, lambda s: eng.call(s, fn, [me], {}))
    eng.no_raise('read raises nothing but Error', raised, (error,))
    eng.cover('read returns', st1)
    args = [dict(zip(('filePath', 'cellsPerRow'), a), **kw) for a, kw in calls]
    u.shape('the parser is asked for the rows of this file, with the number of cells of the title row', len(args) >= 1 and all(set(x) == {'filePath', 'cellsPerRow'} and same(x['filePath'], path) for x in args))
    for x in args:
        eng.prove('the number of cells is that of the titles', st, term(x.get('cellsPerRow', 0)) == z3.Length(TITLES))
    x = st1.get(me).f['_rows']
    eng.prove('the rows are kept', st1, isinstance(x, Ref) and st1.get(x).kind == 'list' and lib.list_term(eng, st1, x) == READ)
    eng.prove('all rows have the number of cells', st1, ok(READ))
    for s, exc in raised:
        eng.prove('a table is refused only if it cannot be read, or if a row has another number of cells', s, z3.Or(BAD, *[LEN(x) != z3.Length(TITLES) for x in seen]))


from .odslists import UNITS as LISTS
UNITS = [('get_rows', u_parser), ('read', u_reader), ('lemmas', u_lemmas)] + LISTS
