"""C11: exported ODF documents are well-formed and carry the text unchanged.

The conversions of texts are translated to transducers (pyvc/rewrite.py) and compared with the reading of the document:
XML reader, paragraphs and spans. Mappings and templates: which converted value stands in which place.
"""
import os
import re
import sys
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, scan, rewrite as rw
from pyvc.engine import SRC

LEVEL = 'proof'
UNIT_LIMIT = 600
TRUSTED = rw.TRUSTED + ['the reader of the documents (transducer Reader in proofs/c11.py): entities, tags, paragraphs']
ASSUMPTIONS = ['IDs, dates, times and durations contain no markup characters; the path of the project is percent-encoded', 'one language tag stands for all',
               'texts without carriage returns (yWriter projects are read with universal newlines) and without characters that XML forbids']
BREAK = '¶'
ENTITIES = {**rw.Unescape.ENT, '&#47;': '/', '&#42;': '*'}
CODES = ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg')


class Reader(rw.Partial):
    """Content of paragraphs in ODF: a paragraph that begins is a BREAK, entities are resolved, between paragraphs is white space.

    States: ('text',), ('gap',), ('lt', read so far, in a paragraph), ('tag', name so far, inside), ('attr', name, inside, quote),
    ('close', name so far), ('empty', inside).
    """
    TAGS = ('text:p',)

    def init(self):
        return (('', ('text',)),)

    def bad(self):
        return ((rw.ERROR, ('error',)),)

    def step(self, s, c):
        k = s[0]
        if k == 'error':
            return (('', s),)
        if k == 'text':
            if c == '<':
                return (('', ('lt', True)),)
            if c == '&':
                return (('', ('ent', '&')),)
            return ((c, s),) if c != '>' else self.bad()
        if k == 'gap':
            if c == '<':
                return (('', ('lt', False)),)
            return (('', s),) if c in ' \t\n\r' else self.bad()
        if k == 'ent':
            w = s[1] + c
            if w in ENTITIES:
                return ((ENTITIES[w], ('text',)),)
            return (('', ('ent', w)),) if any(e.startswith(w) for e in ENTITIES) else self.bad()
        if k == 'lt':
            if c == '/':
                return (('', ('close', '')),) if s[1] else self.bad()
            return self.step(('tag', '', s[1]), c)
        if k == 'tag':
            w = s[1] + c
            if s[1] in self.TAGS and c in ' >/':
                return self.step(('attr', s[1], s[2], False, False), c)
            return (('', ('tag', w, s[2])),) if any(t.startswith(w) for t in self.TAGS) else self.bad()
        if k == 'attr':
            _, name, inside, quoted, eq = s
            if quoted:
                if c in '<&':
                    return self.bad()
                return (('', ('attr', name, inside, c != '"', False)),)
            if c == '>':
                return self.bad() if inside else ((BREAK, ('text',)),)
            if c == '/':
                return self.bad() if inside else (('', ('empty',)),)
            if c == '"':
                return (('', ('attr', name, inside, True, False)),) if eq else self.bad()
            if c in '<&':
                return self.bad()
            return (('', ('attr', name, inside, False, c == '=')),)
        if k == 'empty':
            return ((BREAK, ('gap',)),) if c == '>' else self.bad()
        if k == 'close':
            w = s[1] + c
            if s[1] in self.TAGS and c == '>':
                return (('', ('gap',)),)
            return (('', ('close', w)),) if any(t.startswith(w) for t in self.TAGS) else self.bad()

    def final(self, s):
        return ('',) if s[0] in ('text', 'error') else (rw.ERROR,)


def reading(t):
    return rw.compose(rw.identity(sorted(set(t) | {'x'})), Reader()).run(t)


TEXT = z3.String('text')


def classes():
    odf = scan.subclasses('OdfFile')
    return [tuple(q.rsplit('.', 1)) for q in sorted(odf) if q.rsplit('.', 1)[1] not in ('OdfFile',)]


def convert_groups():
    """One representative per conversion method: (module, class, owner, classes)."""
    from pyvc.engine import Engine
    eng = Engine()
    out = {}
    for m, c in classes():
        cls = eng.get_global(m, c)
        v = eng.class_lookup(eng.global_state, cls, '_convert_from_yw')
        r = eng.class_lookup(eng.global_state, cls, '_get_replacements') if v.qualname.endswith(('Formatted._convert_from_yw', 'Export._convert_from_yw')) else None
        out.setdefault((v.qualname, r and r.qualname), (m, c, v.qualname, []))[3].append(c)
    return list(out.values())


def real_class(mod, name):
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    import importlib
    return getattr(importlib.import_module(mod), name)


def real_convert(mod, cname, text, quick, languages=()):
    from types import SimpleNamespace
    cls = real_class(mod, cname)
    o = cls.__new__(cls)
    o._tempDir = ''
    o.novel = SimpleNamespace(languages=list(languages), authorName='Author')
    return o._convert_from_yw(text, quick)


def u_convert(mod, cname, quick):
    """Reading the converted text gives the text, for every text."""
    def unit(u):
        eng = u.engine()
        rw.install(eng)
        cls = eng.get_global(mod, cname)
        base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
        st = eng.start()
        novel = st.alloc(Obj('inst', {'languages': st.alloc(Obj('list', x=())), 'authorName': 'Author'}, base))
        me = st.alloc(Obj('inst', {'novel': novel}, cls))
        ods = cname.startswith('Ods')
        st0 = st.fork()
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, '_convert_from_yw', [TEXT, quick], {}))
        eng.no_raise('the conversion never raises', raised)
        eng.cover('returns', st1)
        none, st2, bad = eng.run(st0, lambda s: eng.call_method(s, me, '_convert_from_yw', [None, quick], {}))
        eng.no_raise('the conversion of nothing never raises', bad)
        eng.prove('nothing becomes the empty text', st2, eng.eq(st2, none, ''))
        out = term(eng.narrow(st1, r))
        al = rw.alphabet(out, more='<>&;"\'[]/*=:.# \nxyhcrsu' + ''.join(Reader.TAGS))
        al = ''.join(c for c in al if c >= ' ' or c in '\t\n')
        ctx = rw.Ctx(al)
        formatted = not ods and 'OdtWriter' not in cls_owner(eng, cls)
        dom = rw.identity(al)
        rw.cover(u, 'texts', dom)
        code = rw.build(out, TEXT, dom, ctx)
        want = dom
        if ods:
            want = rw.compose(want, rw.RStrip())
        if ods or not quick:
            want = rw.compose(want, rw.CharMap(lambda c: BREAK if c == '\n' else c))
        if formatted:  # marks for highlighting, alignment, strike and underline are never visible
            want = rw.compose(want, rw.ReSub(r'\[/*[hcrsu]\d*\]', 0, '', al))

        def replay(t):
            got = real_convert(mod, cname, t, quick)
            w = want.run(t)
            if reading(got) != w:
                return f'the text {t!r} becomes {got!r}, which reads {sorted(reading(got))} instead of {sorted(w)}'

        rw.check(u, 'reading the document gives the text', rw.compose(code, Reader()), want, dom, ctx, replay)

    return unit


SIGNS = ''.join(chr(0x2460 + i) for i in range(16))  # names of formatting
NOTE = '«»'
KINDS = 'ibL'


def flags(stack):
    """The name of the formatting of what is open (within the innermost comment)."""
    return SIGNS[sum(1 << i for i, x in enumerate(KINDS) if x in stack.rpartition('(')[2])]


def write(text, fl, named):
    """The text with the formatting named before the first character for which it has changed."""
    r = ''
    for x in text:
        if x == '\n':
            r += BREAK
            continue
        if fl != named:
            r, named = r + fl, fl
        r += x
    return r, named


class Marks(rw.Op):
    """What the text means: marks switch formatting; comments are notes, formatted on their own; "> " at the start of a line is not formatted.

    Defined for texts whose marks are balanced and properly nested. States: (read so far, open marks, formatting named last, at the start of a line)
    """

    def __init__(self, marks, comments=False, invisible=(), only='[*'):
        self.only = only
        self.tags = {f'[{e}{x}]': (e, k) for e in ('', '/') for x, k in marks.items()}
        self.tags.update({x: ('', '') for x in invisible})
        if comments:
            self.tags.update({'/*': ('', '('), '*/': ('/', '(')})

    def init(self):
        return (('', ('', '', flags(''), True)),)

    def step(self, st, c):
        w, s, named, start = st
        r = ''
        if w == '>':
            if c == ' ':
                r, named = write('> ', flags(''), named)
                return ((r, ('', s, named, False)),)
            r, named = write('>', flags(s), named)
            w, start = '', False
        elif start and not w and c == '>':
            return (('', ('>', s, named, True)),)
        v = w + c
        while v and not any(t.startswith(v) for t in self.tags):
            if v[0] in self.only:
                return ()  # only in marks
            x, named = write(v[0], flags(s), named)
            start = v[0] == '\n'
            r, v = r + x, v[1:]
        if v in self.tags:
            e, x = self.tags[v]
            if x == '(':
                r += NOTE[1 if e else 0]
            if e and x and s[-1:] == x:
                s = s[:-1]
            elif not e and x not in s:
                s += x
            elif x:
                return ()
            v, start = '', False
        return ((r, (v, s, named, start)),)

    def final(self, st):
        w, s, named, start = st
        return () if s or any(x in w for x in self.only) else (write(w, flags(''), named)[0],)


class Runs(rw.Partial):
    """What the document shows: the same output from paragraphs, spans and annotations.

    States: (what is read, progress, open elements, formatting named last)
    """
    NOTE_START = '<office:annotation><dc:creator>Author</dc:creator><text:p>'
    NOTE_END = '</text:p></office:annotation>'

    def __init__(self, styles, textual=False):
        self.textual = textual
        self.tags = {f'<text:span text:style-name="{k}">': ('', v) for k, v in styles.items()}
        self.tags['</text:span>'] = ('/', '')
        self.tags[self.NOTE_START] = ('', '(')
        self.tags[self.NOTE_END] = ('/', '(')
        self.tags['</text:p>'] = None

    def init(self):
        return (('', ('text', '', '', flags(''))),)

    def bad(self):
        return ((rw.ERROR, ('error',)),)

    def step(self, st, c):
        k = st[0]
        if k == 'error':
            return (('', st),)
        k, w, s, named = st
        if k == 'text':
            if w + c == '/*':
                return ((NOTE[0], ('text', '', s + '(', named)),) if '(' not in s else self.bad()
            if w + c == '*/':
                return ((NOTE[1], ('text', '', s[:-1], named)),) if s[-1:] == '(' else self.bad()
            if w:
                r, named = write(w, flags(s), named)
                return tuple((r + o, q) for o, q in self.step(('text', '', s, named), c))
            if self.textual and c in '/*':
                return (('', ('text', c, s, named)),)
            if c == '<':
                return (('', ('lt', c, s, named)),)
            if c == '&':
                return (('', ('ent', '&', s, named)),)
            if c == '>':
                return self.bad()
            r, named = write(c, flags(s), named) if c != '\n' else (c, named)
            return ((r, ('text', '', s, named)),)
        if k == 'ent':
            w += c
            if w in ENTITIES:
                r, named = write(ENTITIES[w], flags(s), named)
                return ((r, ('text', '', s, named)),)
            return (('', ('ent', w, s, named)),) if any(e.startswith(w) for e in ENTITIES) else self.bad()
        if k == 'lt':
            if w == '</text:p>' and c != '<':
                return self.step(('gap', '', s, named), c) if s[-1:] in ('', '(') else self.bad()
            w += c
            if w == '</text:p>' or w not in self.tags:
                if w.startswith('</text:p><text:p'):
                    return (('', ('par', '', s, named)),) if s[-1:] in ('', '(') else self.bad()
                return (('', ('lt', w, s, named)),) if any(t.startswith(w) for t in (*self.tags, '</text:p><text:p')) else self.bad()
            e, x = self.tags[w]
            r = ''
            if x == '(':
                r = NOTE[1 if e else 0]
            if e and s and (x == s[-1] or not x and s[-1] != '('):
                s = s[:-1]
            elif not e and x not in s:
                s += x
            else:
                return self.bad()
            return ((r, ('text', '', s, named)),)
        if k == 'gap':
            w += c
            if not w.strip(' \n\t'):
                return (('', ('gap', '', s, named)),)
            if w == '<text:p':
                return (('', ('par', '', s, named)),)
            return (('', ('gap', w, s, named)),) if '<text:p'.startswith(w) else self.bad()
        if k == 'par':
            if w == '"':
                return (('', ('par', '' if c == '"' else w, s, named)),) if c not in '<&' else self.bad()
            if c == '>':
                return ((BREAK, ('text' if w != '/' else 'gap', '', s, named)),)
            if w == '/' or c in '<&':
                return self.bad()
            return (('', ('par', c if c in '"/' else '', s, named)),)

    def final(self, st):
        if st[0] == 'error':
            return ('',)
        return (write(st[1], flags(''), st[3])[0],) if st[0] == 'text' and not st[2] else (rw.ERROR,)


class Tail(rw.RStrip):
    """White space at the end of the text, breaks and names of formatting do not count."""

    def ws(self, c):
        return c.isspace() or c in SIGNS + BREAK


def shown(t, styles, textual=False):
    return rw.compose(rw.compose(rw.identity(sorted(set(t) | {'x'})), Runs(styles, textual)), Tail()).run(t)


def lines_of(dom, sep='\n'):
    """The lines of the texts of the domain."""
    ini = {q for _, q in dom.init} | {r for d in dom.trans for c, v in d.items() if c == sep for _, r in v}
    fin = {q for q, d in enumerate(dom.trans) if sep in d and d[sep]} | set(dom.fin)
    n = len(dom.trans)
    trans = [{c: tuple((c, r) for _, r in v) for c, v in d.items() if c != sep} for d in dom.trans]
    table, good = rw.dfa(rw.T(tuple(('', q) for q in ini), trans, {q: ('',) for q in fin}), [c for c in sorted({c for d in trans for c in d} | {sep}) if c != sep])
    al = [c for c in sorted({c for d in dom.trans for c in d}) if c != sep]
    return rw.restrict(rw.identity(al), table, good)


class Apart(rw.Op):
    """Reads a text with marked comments whose line breaks are carriage returns; gives it as it was."""

    def init(self):
        return (('', False),)

    def step(self, st, c):
        if c == ('\n' if st else '\r'):
            return ()
        if c in '\x02\x03':
            return (('/*' if c == '\x02' else '*/', c == '\x02'),) if st == (c == '\x03') else ()
        return (('\n' if c == '\r' else c, st),)


def joined(dom, al):
    """The texts of the domain, with the comments marked and their line breaks replaced by carriage returns."""
    table, good = rw.dfa(rw.compose(rw.compose(rw.identity(al), Apart()), rw.AsOp(dom)), al)
    return rw.restrict(rw.identity(al), table, good)


VARIANTS = {
    'bold and italics': dict(marks={'i': 'i', 'b': 'b'}),
    'languages': dict(marks={'i': 'i', 'lang=de-DE': 'L'}, languages=['de-DE']),
    'comments': dict(marks={'i': 'i'}, comments=True),
    'single comment marks': dict(marks={'b': 'b'}, single=True),
    'invisible marks': dict(marks={'b': 'b'}, invisible=[f'[{e}{x}{n}]' for e in ('', '/') for x in 'hcrsu' for n in ('', '2', '7')]),
}


def u_formatted(mod, cname, variant, marks, languages=(), comments=False, invisible=(), quick=False, single=False):
    """Formatting of texts with balanced and properly nested marks."""
    def unit(u):
        eng = u.engine()
        rw.install(eng)
        cls = eng.get_global(mod, cname)
        base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
        st = eng.start()
        novel = st.alloc(Obj('inst', {'languages': st.alloc(Obj('list', x=tuple(item(l) for l in languages))), 'authorName': 'Author'}, base))
        me = st.alloc(Obj('inst', {'novel': novel}, cls))
        n = len(languages)
        proof, export = (x in cls_owner(eng, cls) for x in ('Proof', 'Export'))
        if export:  # verified in its own unit; TEXT is its result here
            eng.contracts['pywriter.file.file_export.FileExport._remove_inline_code'] = lambda e, s, args, kw: args[-1]
        styles = {f'T{n + 1}': 'i', f'T{n + 2}': 'b'} if proof else {'Emphasis': 'i', 'Strong_20_Emphasis': 'b'}
        styles.update({f'T{i}': 'L' for i in range(1, n + 1)})
        al = list(rw.alphabet(z3.StringVal('x'), more='<>&;"\'[]/*=:.# \nyz-_201347AENPSTDF'  + 'abcdefghilmnopqrstuvwxyz' + ('\r\x02\x03' if comments else '')))
        ctx = rw.Ctx(al)
        meaning = Marks(marks, comments, invisible, '[' if quick or single else '[*')
        plain = rw.domain(r'[^\r\n\x02\x03]*' if quick else r'[^\r\x02\x03]*', al)
        table, good = rw.dfa(rw.compose(plain, meaning), al)
        more = [TEXT != z3.StringVal('')]
        if comments:
            more += [z3.Not(z3.Contains(TEXT, z3.StringVal(x))) for x in ('/*/', '*/*', *(f'[{x}][/{x}]' for x in marks))]
        dom = rw.restrict_all(rw.restrict(plain, table, good), more, TEXT, ctx)
        if single:  # there is no comment, so the comment marks are text
            table, good = rw.dfa(rw.domain(r'.*/\*.*\*/.*', al), al)
            dom = rw.restrict(dom, table, set(range(len(table))) - good)
        lines = lines_of(dom)
        if comments:
            lines = rw.union(lines, lines_of(joined(dom, al)))
        eng.rw['path'] = (lines, ctx)
        eng.rw['texts'] = [(TEXT, dom)]
        st0 = st.fork()
        st.assume(TEXT != z3.StringVal(''))
        none, st2, bad = eng.run(st0, lambda s: eng.call_method(s, me, '_convert_from_yw', ['', quick], {}))
        eng.no_raise('the conversion of the empty text never raises', bad)
        eng.prove('the empty text stays empty', st2, eng.eq(st2, none, ''))
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, '_convert_from_yw', [TEXT, quick], {}))
        eng.no_raise('the conversion never raises', raised)
        out = term(eng.narrow(st1, r))
        missing = set()
        rw.chars_in(out, missing)
        missing -= set(al) | set('\r\x02\x03')
        if missing:
            raise Unsupported(f'characters that are not in the alphabet: {sorted(missing)}')
        rw.cover(u, 'texts', dom)
        code = rw.build(out, TEXT, dom, ctx)
        want = rw.compose(rw.compose(dom, meaning), Tail())

        def replay(t):
            if export and real_inline(t) != t:
                return None
            got = real_convert(mod, cname, t, quick, languages)
            if shown(got, styles, export) != want.run(t):
                return f'the text {t!r} becomes {got!r}, which shows {sorted(shown(got, styles, export))} instead of {sorted(want.run(t))}'

        rw.check(u, 'the document shows the text with its formatting', rw.compose(rw.compose(code, Runs(styles, export)), Tail()), want, dom, ctx, replay)

    return unit


class NoCodes(rw.Op):
    """Leaves out what stands between "<" and ">"."""

    def step(self, s, c):
        return (('', int(c != '>')),) if s or c == '<' else ((c, 0),)


def real_inline(text):
    cls = real_class('pywriter.file.file_export', 'FileExport')
    return cls._remove_inline_code(cls.__new__(cls), text)


def u_inline(u):
    """Raw code is removed; texts without raw code come back unchanged."""
    eng = u.engine()
    rw.install(eng)
    f = eng.get_global('pywriter.file.file_export', 'FileExport', '_remove_inline_code')
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    st = eng.start()
    me = st.alloc(Obj('inst', {}, base))
    st0, st2 = st.fork(), st.fork()
    for s, v in ((st0, None), (st2, '')):
        r, s1, bad = eng.run(s, lambda q: eng.call(q, f, [me, v], {}))
        eng.no_raise(f'no exception for {v!r}', bad)
        eng.prove(f'{v!r} becomes the empty text', s1, eng.eq(s1, r, ''))
    st.assume(TEXT != z3.StringVal(''))
    r, st1, raised = eng.run(st, lambda q: eng.call(q, f, [me, TEXT], {}))
    eng.no_raise('never raises', raised)
    out = term(eng.narrow(st1, r))
    al = rw.alphabet(out, more='<>/ x\n')
    ctx = rw.Ctx(al)
    plain = rw.restrict_all(rw.identity(al), [TEXT != z3.StringVal(''), *(z3.Not(z3.Contains(TEXT, z3.StringVal(x))) for x in ('<RTFBRK>', *(f'<{c} ' for c in CODES)))], TEXT, ctx)

    def replay(t):
        got = real_inline(t)
        if got != t:
            return f'the text {t!r} becomes {got!r}'

    rw.check(u, 'texts without raw code come back unchanged', rw.build(out, TEXT, plain, ctx), plain, plain, ctx, replay)
    for c in CODES:
        dom = rw.restrict_all(rw.domain(fr'([^<>]|<RTFBRK>|<{c} [^<>\n]+/{c}>)*', al), [TEXT != z3.StringVal('')], TEXT, ctx)
        rw.cover(u, c, dom)
        want = rw.compose(dom, NoCodes())

        def replay(t):
            got = real_inline(t)
            if {got} != want.run(t):
                return f'the text {t!r} becomes {got!r}'

        rw.check(u, f'raw code is removed ({c})', rw.build(out, TEXT, dom, ctx), want, dom, ctx, replay)


# ------------------------------------------------------------------ templates and mappings

CONVERTED = z3.Function('converted_text', lib.STR, z3.BoolSort(), lib.STR)
LINES = {'Desc', 'SceneContent', 'Notes', 'Goal', 'Conflict', 'Outcome', 'Bio', 'Goals'}  # texts that may have several lines
# kind of mapping -> templates it is substituted in
TEMPLATES = {'scene': lambda t: 'cene' in t, 'chapter': lambda t: 'hapterT' in t or 'artT' in t or 'hapterEnd' in t or 'artEnd' in t,
             'character': lambda t: t == '_characterTemplate', 'location': lambda t: t == '_locationTemplate', 'item': lambda t: t == '_itemTemplate', 'project note': lambda t: t == '_projectNoteTemplate'}
RAW = ('ID', 'export.projectPath', 'scene.date', 'scene.time', 'scene.day', 'scene.lastsDays', 'scene.lastsHours', 'scene.lastsMinutes', 'novel.languageCode', 'novel.countryCode',
       'number', 'words', 'letters')


def leaves(eng, st, v):
    """What a value of a mapping is made of: ('multi' or 'inline' converted text, 'raw' harmless, 'text' literal, 'unknown')."""
    out = set()
    for g, x in alts(v):
        if x is None or isinstance(x, (int, bool)):
            out.add(('raw', ''))
        elif isinstance(x, str):
            out.add(('text', x))
        elif is_z3(x):
            out |= of_term(x)
        else:
            out.add(('unknown', str(x)[:80]))
    return out


def of_term(t):
    k = t.decl().kind()
    if t.sort() == z3.IntSort() or k == z3.Z3_OP_INT_TO_STR or t.sort() == z3.BoolSort():
        return {('raw', '')}
    if k == z3.Z3_OP_ITE:
        return of_term(t.arg(1)) | of_term(t.arg(2))
    if k == z3.Z3_OP_SEQ_CONCAT:
        return set().union(*(of_term(x) for x in t.children()))
    if rw.text_value(t) is not None:
        return {('text', rw.text_value(t))}
    if t.decl().eq(CONVERTED):
        return {('inline' if z3.is_true(t.arg(1)) else 'multi' if z3.is_false(t.arg(1)) else 'unknown', '')}
    if t.decl().name() in ('lines', 'titles') or not t.children() and t.decl().name() in RAW:
        return {('raw', t.decl().name())}
    names = {x.decl().name() for x in constants(t)}
    if names and all(n in RAW for n in names):
        return {('raw', '')}
    return {('unknown', str(t)[:80])}


def constants(t):
    todo, out = [t], []
    while todo:
        x = todo.pop()
        if not x.children() and x.sort() == lib.STR and rw.text_value(x) is None:
            out.append(x)
        todo += x.children()
    return out


NAMESPACES = ' '.join(f'xmlns:{p}="urn:{p}"' for p in ('office', 'text', 'table', 'style', 'fo', 'dc', 'meta', 'xlink', 'draw', 'svg', 'number', 'config', 'calcext', 'loext', 'form', 'script'))
MARKS = 0xE000


def placeholders(template, whole=False):
    """(name, where it stands) of a template; where: 'paragraph', 'text', 'attribute', or None if the template is not well-formed."""
    import string
    import xml.etree.ElementTree as ET
    names = []

    def mark(m):
        n = m['named'] or m['braced']
        if not n:
            return '$' if m['escaped'] else m[0]
        names.append(n)
        return chr(MARKS + len(names) - 1)

    text = string.Template.pattern.sub(mark, template)
    try:
        root = ET.fromstring(text if whole else f'<root {NAMESPACES}>{text}</root>')
    except ET.ParseError as ex:
        return None, f'{ex}: {template[:60]!r}'
    found = {}
    for e in root.iter():
        para = e.tag.rsplit('}')[-1] == 'p' and 'text' in e.tag
        for x, where in [(e.text, 'paragraph' if para else 'text')] + [(c.tail, 'paragraph' if para else 'text') for c in e] + [(v, 'attribute') for v in e.attrib.values()]:
            for c in x or '':
                if MARKS <= ord(c) < MARKS + len(names):
                    found[ord(c) - MARKS] = where if e is not root or where == 'attribute' else 'outside'
    return [(n, found.get(i)) for i, n in enumerate(names)], ''


def harmless(x, where):
    import xml.etree.ElementTree as ET
    try:
        return not len(ET.fromstring(f'<r>{x}</r>')) and not (where == 'attribute' and '"' in x)
    except ET.ParseError:
        return False


FITS = {'multi': ('paragraph',), 'inline': ('paragraph', 'text', 'attribute'), 'raw': ('paragraph', 'text', 'attribute'), 'text': ('paragraph', 'text', 'attribute')}


def conv(e, s, args, kw):
    """Contract of the conversion: its result is a function of the text and the kind."""
    q = args[2] if len(args) > 2 else kw.get('quick', False)
    v = e.narrow(s, args[1])
    t = None
    for g, x in reversed(alts(v)):
        y = z3.StringVal('') if x is None else term(x)
        if y is None or kind(y) != 'str':
            raise Unsupported('conversion of other than a text')
        t = y if t is None else z3.If(tobool(g), y, t)
    return CONVERTED(t, z3.BoolVal(bool(q)) if isinstance(q, bool) else q)


def template_values(cls):
    return {a: v for a in dir(cls) if isinstance(v := getattr(cls, a), str) and (a.endswith(('Template', 'template')) or a.endswith(('Divider', 'Heading')))}


def u_templates(mod, cname):
    """Every value stands where its conversion fits: one-liners in texts, texts with paragraphs directly in a paragraph."""
    def unit(u):
        from proofs import c10
        real = real_class(mod, cname)
        tpl = template_values(real)
        used = set()

        for what, fits in TEMPLATES.items():
            mine = {n: t for n, t in tpl.items() if fits(n) and t}
            used |= set(mine)
            for n in list(mine):  # a chapter or part with its end
                end = re.sub('(?i)(part|chapter)Template$', lambda m: f'{"c" if m[1].islower() else "C"}hapterEndTemplate', n)
                if what == 'chapter' and end != n:
                    mine[n] = mine[n] + '<text:p/>' + (tpl.get(end) or '')
            if what == 'chapter':
                mine = {n: t for n, t in mine.items() if not n.endswith('EndTemplate')}
            if not mine:
                continue
            eng, st0, st1, r, me, novel, elem, ef = c10.result_of(u, mod, cname, what, conv)
            for n, t in sorted(mine.items()):
                ps, why = placeholders(t)
                if ps is None:
                    u.fact(f'{n} is well-formed', False, why, status='unknown')
                    continue
                u.fact(f'{n} is well-formed', True)
                for p, where in dict.fromkeys(ps):
                    v, q, bad = eng.run(st1.fork(), lambda s: lib.getitem(eng, s, r, p))
                    if bad:
                        u.fact(f'{n}: there is {p}', False, status='unknown')
                        continue
                    kinds = leaves(eng, q, v)
                    ok = all(where in FITS.get(k, ()) and (k != 'text' or harmless(x, where)) for k, x in kinds)
                    u.fact(f'{n}: {p} stands where its conversion fits ({where})', ok, f'{sorted(kinds)}', status=None if ok else 'unknown')
            for k in sorted(set(c10.PLAIN[what]) & LINES - ({'Desc'} if what == 'project note' else set())):
                v, q, bad = eng.run(st1.fork(), lambda s: lib.getitem(eng, s, r, k))
                src = ef[c10.FIELDS[k]]
                eng.prove(f'{what}: {k} is the converted text with its paragraphs', q, eng.eq(q, v, conv(eng, q, [me, src, False], {})))
        for n in sorted(set(tpl) - used):
            ps, why = placeholders(tpl[n])
            ok = ps == []
            u.fact(f'{n} is well-formed and has no placeholder', ok, why or str(ps), status=None if ok else 'unknown')

    return unit


CONVERTERS = ('file.file_export.FileExport', 'odt_w.odt_writer.OdtWriter', 'odt_w.odt_w_formatted.OdtWFormatted', 'odt_w.odt_w_export.OdtWExport', 'odt_w.odt_w_proof.OdtWProof', 'ods_w.ods_writer.OdsWriter')


def u_header(mod, cname):
    """Header and footer make a document; every value of the header stands where its conversion fits (documents of up to two languages)."""
    def unit(u):
        import string
        real = real_class(mod, cname)
        for languages in ([], ['de-DE'], ['de-DE', 'en']):
            eng = u.engine()
            eng.libs['string'] = {'Template': Native('Template', lambda e, s, a, k: s.alloc(Obj('template', {'text': a[0]})))}
            eng.libs['%methods'][('template', 'safe_substitute')] = eng.libs['%methods'][('template', 'substitute')] = substitute
            cls = eng.get_global(mod, cname)
            base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
            for c in CONVERTERS:
                eng.contracts[f'pywriter.{c}._convert_from_yw'] = conv
            st = eng.start()
            nf = {a: eng.opt(f'novel.{a}') for a in ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4', 'languageCode', 'countryCode')}
            nf['languages'] = st.alloc(Obj('list', x=tuple(item(l) for l in languages)))
            novel = st.alloc(Obj('inst', nf, base))
            me = st.alloc(Obj('inst', {'novel': novel, 'projectName': z3.String('export.projectName'), 'projectPath': z3.String('export.projectPath')}, cls))
            n = f'{len(languages)} languages'
            r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, '_get_fileHeaderMapping', []))
            eng.no_raise(f'{n}: the mapping of the header never raises', raised)
            header = real._fileHeader
            if '$ContentHeader' in header:
                v, st1, bad = eng.run(st1, lambda s: lib.getitem(eng, s, r, 'ContentHeader'))
                v = eng.narrow(st1, v)
                if not isinstance(v, str):
                    raise Unsupported('header')
                header = header.replace('$ContentHeader', v)
            ps, why = placeholders(header + '<text:p/>' * cname.startswith('Odt') + real._fileFooter, True)
            ok = ps is not None
            u.fact(f'{n}: header and footer are well-formed', ok, why, status=None if ok else 'unknown')
            for p, where in dict.fromkeys(ps or ()):
                v, q, bad = eng.run(st1.fork(), lambda s: lib.getitem(eng, s, r, p))
                kinds = leaves(eng, q, v) if not bad else {('missing', p)}
                ok = all(where in FITS.get(k, ()) and (k != 'text' or harmless(x, where)) for k, x in kinds)
                u.fact(f'{n}: {p} stands where its conversion fits ({where})', ok, f'{sorted(kinds)}', status=None if ok else 'unknown')

    return unit


# ------------------------------------------------------------------ packing

WORK, TARGET = '/tmp/odf.tmp', '/work/doc'
TYPES = {'odt': 'application/vnd.oasis.opendocument.text', 'ods': 'application/vnd.oasis.opendocument.spreadsheet'}


def join_path(cwd, p):
    import posixpath
    return posixpath.normpath(posixpath.join(cwd, p))


def ghost(eng, fresh):
    """Contracts of the file operations on a ghost directory: files with their contents, and the archive; nothing fails (failures: C05)."""
    L, M = eng.libs, eng.libs['%methods']
    N = Native

    def concrete(s, v):
        v = eng.narrow(s, v)
        if not isinstance(v, str):
            raise Unsupported('unknown file name')
        return join_path(s.get(fresh).f['cwd'], v)

    def files(s):
        return {k[2:]: v for k, v in s.get(fresh).f.items() if k.startswith('f ')}

    def rmtree(e, s, a, k):
        p = concrete(s, a[0])
        o = s.edit(fresh)
        for x in [x for x in o.f if x[2:].startswith(p) and x[:2] in ('f ', 'd ')]:
            del o.f[x]

    def mkdir(e, s, a, k):
        s.edit(fresh).f['d ' + concrete(s, a[0])] = True

    def open_(e, s, a, k):
        m = a[1] if len(a) > 1 else k.get('mode', 'r')
        if m not in ('w', 'wt') or k.get('newline') not in (None, '', '\n'):
            raise Unsupported('mode of a file')
        if str(k.get('encoding')).lower().replace('-', '') not in ('utf8',):
            raise Unsupported('encoding of a file')
        p = concrete(s, a[0])
        s.edit(fresh).f['f ' + p] = ''
        return s.alloc(Obj('ghostfile', {'path': p}))

    def write(e, s, o, a, k):
        p = 'f ' + s.get(o).f['path']
        s.edit(fresh).f[p] = e.concat(s, s.get(fresh).f[p], a[0])

    M[('ghostfile', 'write')] = write
    M[('ghostfile', '__enter__')] = M[('ghostzip', '__enter__')] = lambda e, s, o, a, k: o
    M[('ghostfile', '__exit__')] = M[('ghostzip', '__exit__')] = lambda e, s, o, a, k: False
    M[('ghostfile', 'close')] = M[('ghostzip', 'close')] = lambda e, s, o, a, k: None

    def zip_(e, s, a, k):
        if (a[1] if len(a) > 1 else k.get('mode', 'r')) not in ('w', 'x'):
            raise Unsupported('mode of an archive')
        s.edit(fresh).f['target'] = concrete(s, a[0])
        return s.alloc(Obj('ghostzip', {}))

    def zip_write(e, s, o, a, k):
        n = a[0]
        p = 'f ' + concrete(s, n)
        if 'd ' + p[2:] in s.get(fresh).f:
            g = s.edit(fresh)
            g.f['z ' + n + '/'] = ''
            g.f['order'] = g.f['order'] + (n + '/',)
            return None
        if p not in s.get(fresh).f:
            e.raise_new(s, FileNotFoundError, str(n))
        n = a[1] if len(a) > 1 else k.get('arcname') or n
        g = s.edit(fresh)
        g.f['z ' + n.lstrip('/')] = g.f[p]
        g.f['order'] = g.f['order'] + (n,)

    M[('ghostzip', 'write')] = zip_write

    def zip_writestr(e, s, o, a, k):
        g = s.edit(fresh)
        g.f['z ' + a[0]] = a[1]
        g.f['order'] = g.f['order'] + (a[0],)

    M[('ghostzip', 'writestr')] = zip_writestr

    def chdir(e, s, a, k):
        s.edit(fresh).f['cwd'] = concrete(s, a[0])

    import zipfile
    P = L.setdefault('os.path', {})
    P.update({'isfile': N('isfile', lambda e, s, a, k: 'f ' + concrete(s, a[0]) in s.get(fresh).f), 'isdir': N('isdir', lambda e, s, a, k: 'd ' + concrete(s, a[0]) in s.get(fresh).f),
              'exists': N('exists', lambda e, s, a, k: any(x + concrete(s, a[0]) in s.get(fresh).f for x in ('f ', 'd ')))})
    L.setdefault('os', {}).update({'mkdir': N('mkdir', mkdir), 'makedirs': N('makedirs', mkdir), 'chdir': N('chdir', chdir), 'getcwd': N('getcwd', lambda e, s, a, k: s.get(fresh).f['cwd'])})
    L.setdefault('shutil', {})['rmtree'] = N('rmtree', rmtree)
    L['zipfile'] = {'ZipFile': N('ZipFile', zip_), 'ZIP_DEFLATED': zipfile.ZIP_DEFLATED, 'ZIP_STORED': zipfile.ZIP_STORED}
    L['builtins']['open'] = N('open', open_)


def substitute(e, s, o, a, kw):
    """string.Template.safe_substitute of a known template."""
    import string
    t = e.narrow(s, s.get(o).f['text'])
    if not isinstance(t, str) or kw:
        raise Unsupported('template')
    out, pos = '', 0
    for m in string.Template.pattern.finditer(t):
        n = m['named'] or m['braced']
        v = m[0] if not m['escaped'] else '$'
        if n and tobool(e.truth(s, e.contains(s, a[0], n))) is not False:
            x = lib.getitem(e, s, a[0], n)
            v = lib.to_str(e, s, x)
        out = e.concat(s, e.concat(s, out, t[pos:m.start()]), v)
        pos = m.end()
    return e.concat(s, out, t[pos:])


META = {'title': 'title', 'authorName': 'initial-creator', 'desc': 'description'}


def pack(u, mod, cname, values):
    """Execute write on a ghost directory; values: attributes of the novel."""
    from pyvc.state import Store
    eng = u.engine(mode='path')
    rw.install(eng)
    L, M = eng.libs, eng.libs['%methods']
    L['string'] = {'Template': Native('Template', lambda e, s, a, k: s.alloc(Obj('template', {'text': a[0]})))}
    M[('template', 'safe_substitute')] = M[('template', 'substitute')] = substitute
    L['datetime'] = {'datetime': Native('datetime', None), 'date': Native('date', None)}
    eng.attr_hooks.append(lambda e, s, o, n: Native('now', lambda e2, s2, a, k: s2.alloc(Obj('moment'))) if isinstance(o, Native) and o.name in ('datetime', 'date') and n in ('now', 'today') else NotImplemented)
    M[('moment', 'replace')] = lambda e, s, o, a, k: o
    M[('moment', 'isoformat')] = M[('moment', 'strftime')] = lambda e, s, o, a, k: '2023-01-02T03:04:05'
    g = eng.global_state
    fresh = g.alloc(Obj('ghost', {'cwd': '/home', 'order': (), 'target': None}))
    ghost(eng, fresh)
    cls = eng.get_global(mod, cname)
    novel_class = eng.get_global('pywriter.model.novel', 'Novel')
    v = eng.class_lookup(g, cls, '_get_text')
    body = z3.String('document')
    eng.contracts[v.qualname] = lambda e, s, a, k: body
    eng.contracts['pywriter.pywriter_globals.norm_path'] = lambda e, s, a, k: 'path'
    ext = eng.narrow(g, eng.class_lookup(g, cls, 'EXTENSION'))
    st = eng.start()
    empty = lambda: st.alloc(Obj('dict', x=Store()))
    novel = st.alloc(Obj('inst', {'languageCode': 'de', 'countryCode': 'AT', 'languages': st.alloc(Obj('list', x=())), 'scenes': empty(), 'chapters': empty(), 'characters': empty(), 'locations': empty(),
                                  'items': empty(), **values}, novel_class))
    me = st.alloc(Obj('inst', {'novel': novel, '_tempDir': WORK, '_filePath': TARGET + ext, '_originalPath': TARGET + ext, 'projectName': 'p', 'projectPath': '/work'}, cls))
    n = eng.contracts
    n['pywriter.model.novel.Novel.check_locale'] = lambda e, s, a, k: None
    n['pywriter.model.novel.Novel.get_languages'] = lambda e, s, a, k: None
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, me, 'write', []))
    if st1 is None or raised:
        try:
            real_pack(mod, cname, {k: v if isinstance(v, str) else 'x' for k, v in values.items()})
        except Exception as ex:
            u.fact('the document can be written', False, f'{cname}: {type(ex).__name__}: {ex}', replayed=True)
            return None
        raise Unsupported('writing fails on the ghost directory: ' + str([s.get(e).f for s, e in raised])[:200])
    f = st1.get(fresh).f
    return eng, st1, {k[2:]: v for k, v in f.items() if k.startswith('z ')}, f, body, ext


def real_pack(mod, cname, values):
    """The parts of a document written by the real code in a scratch directory."""
    import tempfile, zipfile, shutil
    from types import SimpleNamespace
    cls = real_class(mod, cname)
    from pywriter.model.novel import Novel
    d = tempfile.mkdtemp()
    try:
        o = cls(f'{d}/doc{cls.SUFFIX or ""}{cls.EXTENSION}')
        o.novel = Novel()
        for k, v in dict(values, languages=[], languageCode='de', countryCode='AT').items():
            setattr(o.novel, k, v)
        o.novel.check_locale = lambda: None
        o._get_text = lambda: '<x/>'
        cwd = os.getcwd()
        try:
            o.write()
        finally:
            os.chdir(cwd)
        with zipfile.ZipFile(f'{d}/doc{cls.SUFFIX or ""}{cls.EXTENSION}') as z:
            return {n: z.read(n).decode('utf-8') for n in z.namelist()}
    finally:
        shutil.rmtree(d)


def meta_of(xml, name):
    import xml.etree.ElementTree as ET
    try:
        return [e.text or '' for e in ET.fromstring(xml).iter() if e.tag.rsplit('}')[-1] == name]
    except ET.ParseError as ex:
        return f'not well-formed: {ex}'


class Meta(rw.Partial):
    """Reads a text between what stands before and after it in an XML document; anything else is an error."""

    def __init__(self, pre, post):
        self.pre, self.post = pre, post

    def init(self):
        return (('', ('pre', 0)),)

    def step(self, s, c):
        k, n = s
        bad = ((rw.ERROR, ('error', 0)),)
        if k == 'error':
            return (('', s),)
        if k == 'pre':
            if c != self.pre[n]:
                return bad
            return (('', ('pre', n + 1) if n + 1 < len(self.pre) else ('text', '')),)
        if k == 'text':
            w = n + c
            if not n and c == '<':
                return self.step(('post', 0), c)
            if not n and c != '&':
                return ((c, s),)
            if w in ENTITIES:
                return ((ENTITIES[w], ('text', '')),)
            return (('', ('text', w)),) if any(e.startswith(w) for e in ENTITIES) else bad
        if n == len(self.post) or c != self.post[n]:
            return bad
        return (('', ('post', n + 1)),)

    def final(self, s):
        return ('',) if s == ('post', len(self.post)) or s[0] == 'error' else (rw.ERROR,)


def u_pack(mod, cname):
    def unit(u):
        import xml.etree.ElementTree as ET
        base = {'title': 'A', 'authorName': 'B', 'desc': 'C'}
        for a, tag in META.items():
            got = pack(u, mod, cname, dict(base, **{a: TEXT}))
            if got is None:
                continue
            eng, st1, zip_, f, body, ext = got
            out = zip_.get('meta.xml')
            if not is_z3(out):
                u.fact(f'{a} stands in meta.xml', False, str(out)[:80], status='unknown')
                continue
            al = rw.alphabet(out, more='<>&;#"\' x\n')
            dom = rw.domain(r'[^\r]*', al)
            ctx = rw.Ctx(al)
            code = rw.build(out, TEXT, dom, ctx)
            probe = code.run('x')
            where = next(iter(probe), '').replace('>x<', '>\ue000<')

            def replay(t):
                xml = real_pack(mod, cname, dict(base, **{a: t}))['meta.xml']
                m = meta_of(xml, tag)
                if m != [t]:
                    return f'with the {a} {t!r} the element {tag} of meta.xml is {m!r}'

            if where.count('\ue000') != 1 or meta_of(where, tag) != ['\ue000']:
                why = replay('x & <y>')
                u.fact(f'{a} is the text of the element {tag}', False, why or 'not found', status=None if why else 'unknown', replayed=bool(why))
                continue
            rw.check(u, f'{a} is the text of the element {tag} of meta.xml', rw.compose(code, Meta(*where.split('\ue000'))), dom, dom, ctx, replay)
        got = pack(u, mod, cname, {'title': None, 'authorName': None, 'desc': None})
        if got is None:
            return
        eng, st1, zip_, f, body, ext = got
        real = real_pack(mod, cname, {'title': None, 'authorName': None, 'desc': None})
        same_parts = {k: v for k, v in zip_.items() if isinstance(v, str) and k != 'meta.xml'} == {k: v for k, v in real.items() if k not in ('meta.xml', 'content.xml')}
        u.fact('the ghost archive has the parts of the real one', same_parts, f'{sorted(zip_)} {sorted(real)}', status=None if same_parts else 'unknown')
        if not same_parts:
            return
        for a, tag in META.items():
            m = meta_of(real.get('meta.xml', ''), tag)
            ok = meta_of(zip_.get('meta.xml', ''), tag) == ['']
            u.fact(f'no {a} is an empty element {tag}', ok, f'without {a}, {tag} is {m!r}', status=None if ok or m != [''] else 'unknown', replayed=True)
        doc = f'the document of {cname}'
        u.fact('the archive is the target file', f['target'] == TARGET + ext, str(f['target']), status=None if f['target'] == TARGET + ext else 'unknown')
        u.fact('the archive names its type', zip_.get('mimetype') == TYPES[ext[1:]], f'{doc} has the mimetype {real.get("mimetype")!r}', replayed=True)
        u.fact('no part twice', len(set(f['order'])) == len(f['order']), str(f['order']))
        eng.prove('content.xml is the generated text', st1, eng.eq(st1, zip_.get('content.xml', ''), body))
        bad = []
        for n, v in zip_.items():
            if isinstance(v, str) and n.endswith(('.xml', '.rdf')):
                try:
                    ET.fromstring(v)
                except ET.ParseError as ex:
                    bad.append(f'{n}: {ex}')
        u.fact('the constant parts are well-formed', not bad, f'{doc}: {bad}', replayed=True)
        man = real.get('META-INF/manifest.xml', '')
        try:
            entries = [e.get(k) for e in ET.fromstring(man).iter() for k in e.keys() if k.rsplit('}')[-1] == 'full-path']
            types = [e.get(k) for e in ET.fromstring(man).iter() if any(e.get(k) == '/' for k in e.keys()) for k in e.keys() if k.rsplit('}')[-1] == 'media-type']
        except ET.ParseError as ex:
            entries, types = ['?'], [str(ex)]
        missing = [p for p in entries if p != '/' and not (p in zip_ or p.endswith('/') and any(n.startswith(p) for n in zip_))]
        u.fact('the entries of the manifest exist', entries and not missing, f'{doc} has no {missing}', replayed=True)
        u.fact('the manifest names the type', types == [TYPES[ext[1:]]], f'{doc}: {types}', replayed=True)

    return unit


def cls_owner(eng, cls):
    return eng.class_lookup(eng.global_state, cls, '_convert_from_yw').qualname


def units():
    out = []
    for m, c, owner, cs in convert_groups():
        o = owner.split('.')[-2]
        full = o in ('OdtWFormatted', 'OdtWExport', 'OdtWProof')
        if o != 'OdtWProof':
            out.append((f'{o}._convert_from_yw of {c} (one-liners)', u_convert(m, c, True)))
        if full:
            for v, kw in VARIANTS.items():
                out.append((f'{o}._convert_from_yw of {c} ({v})', u_formatted(m, c, v, **kw)))
        if o == 'OdtWProof':
            out.append((f'{o}._convert_from_yw of {c} (one-liners)', u_formatted(m, c, 'one-liners', {'b': 'b'}, quick=True)))
        if not full:
            out.append((f'{o}._convert_from_yw of {c} (texts)', u_convert(m, c, False)))
    for m, c in classes():
        if c not in ('OdtWriter', 'OdsWriter', 'OdtWFormatted', 'OdtWXref'):
            out.append((f'templates of {c}', u_templates(m, c)))
            out.append((f'header of {c}', u_header(m, c)))
        if c not in ('OdtWriter', 'OdsWriter', 'OdtWFormatted'):
            out.append((f'packing of {c}', u_pack(m, c)))
    out.append(('FileExport._remove_inline_code', u_inline))
    return out


UNITS = units()
