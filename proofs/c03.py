"""C03: what the XML writer puts down and what is read back are the same texts, whatever they are.

The text operations between the serialised tree and the file, and between the file and the parser, are translated to
transducers (pyvc/rewrite.py) and compared with the identity up to the XML contract, over all serialised trees.
"""
import os
import sys
import tempfile
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, rewrite as rw
from pyvc.engine import SRC

LEVEL = 'proof'
TRUSTED = rw.TRUSTED + [
    'ElementTree.write: the serialised tree is a sequence of tags and of character data in which "&", "<" and ">" are predefined entities; the parser gives the character data of entities and CDATA sections (both as transducers in proofs/c03.py)',
    'the file system gives back what was written (C05, C06 for failures); universal newlines do not matter without carriage returns']
ASSUMPTIONS = ['elements that hold texts have no attributes and no child elements (yWriter never writes any)',
               'reading a tree gives the texts in its leaves (C01)']

# elements that hold a text, and containers; other names that begin with a small letter may be either
LEAVES = '''Title AuthorName Bio Desc FieldTitle1 FieldTitle2 FieldTitle3 FieldTitle4 LaTeXHeaderFile Tags AKA ImageFile FullName Goals Notes RTFFile SceneContent
Outcome Goal Conflict ID Field1 Field2 Field3 Field4 Status Language Country Field_SceneArcs Field_Link Field_CustomGoal'''.split()
CONTAINERS = 'YWRITER7 PROJECT CHAPTERS CHAPTER SCENES SCENE Fields LOCATIONS PROJECTNOTE Characters'.split()
CHARS = r'(?:[^<>&\r]|&amp;|&lt;|&gt;)'
NB = r'(?:[^<>&\r\n]|&amp;|&lt;|&gt;)'  # not a line break
# a text whose first and last lines are not blank, if there are several lines
TEXT = rf'(?:{NB}*|[ \t]*(?:[^<>&\r\s]|&amp;|&lt;|&gt;){CHARS}*(?:[^<>&\r\s]|&amp;|&lt;|&gt;)[ \t]*)'


def leaf(tags, text=TEXT):
    return '|'.join(f'<{t}>{text}</{t}>' for t in tags)


NAMES = f'(?:{"|".join(CONTAINERS)}|[a-z_\u00e9][a-z0-9_.\u00e9-]*)'
ATTR = ' [a-z]+="(?:[^<>&\r\n"]|&amp;|&lt;|&gt;|&quot;)*"'
WS = '[ \n]'
DOC = rf'(?:{leaf(LEAVES)}|<(?:{"|".join(LEAVES)}) />|<{NAMES}(?:{ATTR})* />|<{NAMES}(?:{ATTR})*>|</{NAMES}>|{CHARS})*'


class Parse(rw.Partial):
    """The XML parser: tags become ‹name› and ‹/name›, everything else is character data. An empty element is one without data.

    States: ('text',), ('lt', read so far), ('tag', name so far, what of it is remembered), ...
    """
    KEEP = 'CHAPTERS'

    def init(self):
        return (('', ('prolog',)),)

    def step(self, s, c):
        k = s[0]
        if k == 'error':
            return (('', s),)
        if k in ('prolog', 'text'):
            if c == '<':
                return (('', ('lt', '', k)),)
            if k == 'prolog':
                return (('', s),) if c.isspace() else self.bad()
            if c == '&':
                return (('', ('ent', '&')),)
            n = s[1] if len(s) > 1 else 0
            if c == '>' and n == 2:  # "]]>" must not appear in character data
                return self.bad()
            return ((c, ('text', min(2, n + 1) if c == ']' else 0)),)
        if k == 'ent':
            w = s[1] + c
            if w in rw.Unescape.ENT:
                return ((rw.Unescape.ENT[w], ('text', 0)),)
            return (('', ('ent', w)),) if any(e.startswith(w) for e in rw.Unescape.ENT) else self.bad()
        if k == 'lt':
            w, back = s[1] + c, s[2]
            if w == '?':
                return (('', ('pi', 0, back)),)
            if w == '/':
                return (('‹/', ('close', 0)),)
            if w == '![CDATA[':
                return (('', ('cdata', 0)),)
            if '![CDATA['.startswith(w):
                return (('', ('lt', w, back)),)
            if len(w) == 1 and (c.isalpha() or c == '_'):
                return (('‹' + c, ('tag', c if self.KEEP.startswith(c) else None)),)
            return self.bad()
        if k == 'pi':
            n = s[1]
            if c == '>' and n:
                return (('', (s[2],)),)
            return (('', ('pi', 1 if c == '?' else 0, s[2])),)
        if k == 'cdata':
            n = s[1]
            if c == ']':
                return ((']' if n == 2 else '', ('cdata', min(2, n + 1))),)
            if c == '>' and n == 2:
                return (('', ('text', 0)),)
            return ((']' * n + c, ('cdata', 0)),)
        if k == 'tag':
            m = s[1]
            if c == '>':
                return (('›', ('text', 0)),)
            if c == '/':
                return (('', ('empty', m)),)
            if c.isspace():
                return (('', ('attr', m if m == self.KEEP else None, True)),)
            if c.isalnum() or c in '_.-:':
                m = m + c if m is not None and self.KEEP.startswith(m + c) else None
                return ((c, ('tag', m)),)
            return self.bad()
        if k == 'attr':
            m, blank = s[1], s[2]
            if c == '>':
                return (('›', ('text', 0)),)
            if c == '/':
                return (('', ('empty', m)),)
            if c.isspace():
                return (('', ('attr', m, True)),)
            if c == '<':
                return self.bad()
            if c == '"':
                return ((c, ('value',)),)
            return (((' ' if blank else '') + c, ('attr', None, False)),)
        if k == 'value':
            if c == '<':
                return self.bad()
            return ((c, ('attr', None, False) if c == '"' else s),)
        if k == 'empty':
            if c != '>':
                return self.bad()
            m = s[1]
            return ((f'›‹/{m if m == self.KEEP else ""}›', ('text', 0)),)
        if k == 'close':
            if c == '>':
                return (('›', ('text', 0)),)
            if c.isspace():
                return (('', s),)
            return ((c, s),) if c != '<' else self.bad()

    def bad(self):
        return ((rw.ERROR, ('error',)),)

    def final(self, s):
        return ('',) if s[0] in ('text', 'prolog', 'error') else (rw.ERROR,)


def events(t):
    """The result of Parse for a text, for the comparison by the real code."""
    return rw.compose(rw.identity(sorted(set(t) | {'x'})), Parse()).run(t)


def setup(eng, st, doc):
    """Yw7File over a ghost file system; the tree serialises to doc."""
    files = st.alloc(Obj('ghostfiles', {'p': doc}))
    M, H, L = eng.libs['%methods'], eng.libs['%host'], eng.libs

    def open_(e, s, a, kw):
        mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
        enc = kw.get('encoding', a[3] if len(a) > 3 else None)
        if enc not in ('utf-8', 'utf8', 'UTF-8') or mode not in ('r', 'w') or set(kw) - {'encoding', 'mode', 'newline'} or kw.get('newline') is not None:
            raise Unsupported(f'open with mode {mode} and encoding {enc}')
        if a[0] != PATH:
            raise Unsupported('another file')
        if mode == 'w':
            s.edit(files).f['p'] = ''
        return s.alloc(Obj('ghostfile', {'mode': mode, 'pos': 0}))

    L['builtins']['open'] = Native('open', open_)
    M[('ghostfile', '__enter__')] = lambda e, s, o, a, kw: o
    M[('ghostfile', '__exit__')] = lambda e, s, o, a, kw: None
    M[('ghostfile', 'close')] = lambda e, s, o, a, kw: None

    def read(e, s, o, a, kw):
        if s.get(o).f['pos'] or a:
            raise Unsupported('reading in parts')
        s.edit(o).f['pos'] = 1
        return s.get(files).f['p']

    def write(e, s, o, a, kw):
        s.edit(files).f['p'] = e.concat(s, s.get(files).f['p'], a[0])
        return 0

    M[('ghostfile', 'read')] = read
    M[('ghostfile', 'write')] = write

    def tree_write(e, s, o, a, kw):
        if a[0] != PATH or set(kw) - {'xml_declaration', 'encoding'} or len(a) > 1 and a[1:] != ['utf-8']:
            raise Unsupported('ElementTree.write with other arguments')
        enc = a[1] if len(a) > 1 else kw.get('encoding')
        if enc not in ('utf-8', 'unicode'):
            raise Unsupported('ElementTree.write with another encoding')
        decl = kw.get('xml_declaration')
        if decl not in (None, False, True):
            raise Unsupported('ElementTree.write')
        s.edit(files).f['p'] = z3.Concat(z3.StringVal("<?xml version='1.0' encoding='utf-8'?>\n"), DOCVAR) if decl else DOCVAR
        return None

    M[('ghosttree', 'write')] = tree_write
    return files


PATH = '/x/project.yw7'
DOCVAR = z3.String('doc')


def run_write(u, chapters):
    """The content of the file after Yw7File.write, as a term over the serialised tree."""
    eng = u.engine()
    rw.install(eng)
    q = eng.get_global('pywriter.yw.yw7_file', 'Yw7File')
    novel_cls = eng.get_global('pywriter.model.novel', 'Novel')
    st = eng.start()
    files = setup(eng, st, '')
    novel = eng.call(st, novel_cls, [], {})
    st.edit(novel).f['languages'] = st.alloc(Obj('list', x=()))
    if chapters:
        d = st.get(novel).f['chapters']
        st.edit(d).x = st.get(d).x.put('1', st.alloc(Obj('opaque', {})))
    tree = st.alloc(Obj('ghosttree', {}))
    y = st.alloc(Obj('inst', {'novel': novel, '_filePath': PATH, 'filePath': PATH, 'tree': tree, 'projectName': 'p', 'projectPath': '/x'}, q))
    n = 'pywriter.yw.yw7_file.Yw7File.'
    eng.contracts[n + '_build_element_tree'] = lambda e, s, a, kw: None
    eng.contracts[n + 'is_locked'] = lambda e, s, a, kw: False
    eng.libs['%host'][os.path.isfile] = lambda e, s, a, kw: False
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, y, 'write', [], {}))
    eng.no_raise('writing does not fail by itself', raised)
    u.extra_engine = eng
    return st1.get(files).f['p']


def real_write(text, chapters):
    """The real code on a tree that serialises to the text: a message if the file does not say the same."""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    from pywriter.model.chapter import Chapter
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'project.yw7')
        y = Yw7File(p)
        y.novel = Novel()
        y.novel.languages = []
        if chapters:
            y.novel.chapters['1'] = Chapter()
        y._build_element_tree = lambda: None

        class Tree:

            def write(self, path, *a, **kw):
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(("<?xml version='1.0' encoding='utf-8'?>\n" if kw.get('xml_declaration') else '') + text)

        y.tree = Tree()
        y.write()
        with open(p, 'r', encoding='utf-8', newline='') as f:
            out = f.read()
    a, b = events(out), events(text)
    if a != b:
        return f'the tree serialised as {text!r} is written as {out!r}: {a} instead of {b}'
    return None


def u_post(u, chapters):
    out = run_write(u, chapters)
    if not is_z3(out):
        raise Unsupported('the file is not made from the tree')
    al = rw.alphabet(out, more=''.join(LEAVES + CONTAINERS) + '<>&;"=[]!?/-_ \n')
    ctx = rw.Ctx(al)
    dom = rw.domain(r'<YWRITER7>' + DOC, al)
    rw.cover(u, 'serialised trees', dom)
    code = rw.compose(rw.build(out, DOCVAR, dom, ctx), Parse())
    spec = rw.compose(dom, Parse())
    bad = rw.some(rw.compose(spec, rw.contains(rw.ERROR)))
    u.shape('every serialised tree is well-formed', bad is None, repr(bad))
    rw.check(u, 'the file says the same as the tree, and is well-formed', code, spec, dom, ctx, lambda t: real_write(t, chapters))


def u_read(u):
    """What is read is handed to the parser as it is."""
    eng = u.engine()
    rw.install(eng)
    q = eng.get_global('pywriter.yw.yw7_file', 'Yw7File')
    novel_cls = eng.get_global('pywriter.model.novel', 'Novel')
    got = []

    def parse(e, s, a, kw):
        got.append(a[0])
        return s.alloc(Obj('opaque', {}))

    eng.libs.setdefault('xml.etree.ElementTree', {})['fromstring'] = Native('ET.fromstring', parse)
    eng.libs['xml.etree.ElementTree']['ElementTree'] = Native('ET.ElementTree', lambda e, s, a, kw: s.alloc(Obj('opaque', {})))
    st = eng.start()
    setup(eng, st, DOCVAR)
    novel = eng.call(st, novel_cls, [], {})
    y = st.alloc(Obj('inst', {'novel': novel, '_filePath': PATH, 'filePath': PATH, 'tree': None}, q))
    n = 'pywriter.yw.yw7_file.Yw7File.'
    for m in 'project locations items characters projectvars projectnotes scenes chapters'.split():
        eng.contracts[f'{n}_read_{m}'] = lambda e, s, a, kw: None
    eng.contracts[n + 'adjust_scene_types'] = lambda e, s, a, kw: None
    eng.contracts[n + 'is_locked'] = lambda e, s, a, kw: False
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, y, 'read', [], {}))
    eng.no_raise('reading does not fail by itself', raised)
    if len(got) != 1:
        raise Unsupported(f'{len(got)} calls of ET.fromstring')
    t = term(got[0])
    al = rw.alphabet(t)
    al = ''.join(c for c in al if c >= ' ' or c in '\t\n')
    ctx = rw.Ctx(al)
    dom = rw.identity(al)
    rw.cover(u, 'contents of a file', dom)
    rw.check(u, 'the parser gets what is in the file', rw.build(t, DOCVAR, dom, ctx), dom, dom, ctx, real_read)


def real_read(text):
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import pywriter.yw.yw7_file as m
    from pywriter.model.novel import Novel
    got = []

    class Stop(BaseException):
        pass

    def parse(t):
        got.append(t)
        raise Stop()

    old = m.ET.fromstring
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'project.yw7')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        y = m.Yw7File(p)
        y.novel = Novel()
        m.ET.fromstring = parse
        try:
            y.read()
        except Stop:
            pass
        finally:
            m.ET.fromstring = old
    return None if got == [text] else f'the file contains {text!r}, the parser gets {got!r}'


def blank_term(v):
    """Does the value consist of white space?"""
    if isinstance(v, str):
        return not v.strip()
    if v.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return all(blank_term(x) for x in v.children())
    if v.decl().eq(lib.U_REPEAT):
        return blank_term(v.arg(0))
    return z3.is_string_value(v) and not rw.text_value(v).strip()


def u_indent(u, leafy):
    """indent changes white space between tags only: the texts of leaves, and other texts that are not blank, stay."""
    eng = u.engine()
    f = eng.get_global('pywriter.yw.xml_indent', 'indent')
    st = eng.start()
    A, S, M = eng.libs['%attrs'], eng.libs['%setattrs'], eng.libs['%methods']
    made = []

    def elem(s, name, kids):
        made.append(name)
        return s.alloc(Obj('xelem', {'name': name, 'kids': kids, 'text': eng.opt(f'{name}.text'), 'tail': eng.opt(f'{name}.tail')}))

    for a in ('text', 'tail'):
        A[('xelem', a)] = lambda e, s, o, a=a: s.get(o).f[a]

        def put(e, s, o, v, a=a):
            x = s.get(o).f
            old = x[a]
            ok = Or(*[And(g, True if w is None else z3.Or(term(w) == z3.StringVal(''), lib.U_STRIP(term(w)) == z3.StringVal(''))) for g, w in alts(old)])
            e.prove(f'{x["name"]}: only a blank {a} is replaced', s, ok)
            if a == 'text':
                e.prove(f'{x["name"]}: the text of a leaf is not set', s, bool(x['kids']))
            for g, w in alts(v):
                u.fact(f'{x["name"]}: the new {a} is blank', w is None or blank_term(w), repr(w), status=None if w is None or blank_term(w) else 'unknown')
            s.edit(o).f[a] = v

        S[('xelem', a)] = put
    M[('xelem', '__len__')] = lambda e, s, o, a, kw: z3.Int('children') if s.get(o).f['kids'] else 0
    M[('xelem', '__bool__')] = lambda e, s, o, a, kw: z3.Int('children') != 0 if s.get(o).f['kids'] else False
    eng.contracts['pywriter.yw.xml_indent.indent'] = lambda e, s, a, kw: eng.prove('only children are visited', s, isinstance(a[0], Ref) and s.get(a[0]).f.get('name') in ('a child', 'the last child'))

    def over(e, s, node, it, env, mod):
        if not isinstance(it, Ref) or s.get(it).kind != 'xelem':
            return False
        import ast
        names = {t.id for b in node.body for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        if names:
            raise Unsupported('loop over elements that sets variables')
        for n in ('a child', 'the last child'):
            c = elem(s, n, None)
            s.edit(c).f['kids'] = z3.Bool(f'{n} has children')
            e.assign(s, node.target, c, env, mod)
            alive, brk = e.loop_body(s, node.body, env, mod)
            if brk or not alive:
                raise Unsupported('loop over elements with break')
        return True

    eng.loop_hooks.insert(0, over)
    e0 = elem(st, 'the element', not leafy)
    lv = z3.Int('level')
    st.assume(lv >= 0, z3.Int('children') > 0)
    before = st.fork()
    r, st1, raised = eng.run(st, lambda s: eng.call_body(s, f, [e0, lv], {}))
    eng.no_raise('indent does not fail', raised)
    eng.cover('indent', st1)
    if leafy:
        eng.prove('the text of a leaf is unchanged', st1, same(st1.get(e0).f['text'], before.get(e0).f['text']))


UNITS = [('Yw7File.write (chapters)', lambda u: u_post(u, True)), ('Yw7File.write (no chapters)', lambda u: u_post(u, False)),
         ('Yw7File.read', u_read), ('indent (leaf)', lambda u: u_indent(u, True)), ('indent (container)', lambda u: u_indent(u, False))]
