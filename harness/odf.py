"""Reading ODF documents independently of the code under test; raw yWriter markup semantics."""
import re, zipfile
import xml.etree.ElementTree as ET
from .common import *

NS = dict(text='urn:oasis:names:tc:opendocument:xmlns:text:1.0', style='urn:oasis:names:tc:opendocument:xmlns:style:1.0',
          fo='urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0', office='urn:oasis:names:tc:opendocument:xmlns:office:1.0',
          table='urn:oasis:names:tc:opendocument:xmlns:table:1.0', dc='http://purl.org/dc/elements/1.1/',
          meta='urn:oasis:names:tc:opendocument:xmlns:meta:1.0', manifest='urn:oasis:names:tc:opendocument:xmlns:manifest:1.0')


def q(n):
    p, t = n.split(':')
    return f'{{{NS[p]}}}{t}'


def parts(path):
    """Check the package; return {name: bytes}."""
    need(zipfile.is_zipfile(path), f'{path} is no zip archive')
    with zipfile.ZipFile(path) as z:
        need(z.testzip() is None, 'damaged archive')
        names = z.namelist()
        out = {n: z.read(n) for n in names}
    need(len(set(names)) == len(names), f'duplicate entries {names}')
    ext = {'odt': b'application/vnd.oasis.opendocument.text', 'ods': b'application/vnd.oasis.opendocument.spreadsheet'}[path[-3:]]
    need(out.get('mimetype') == ext, f'mimetype entry is {out.get("mimetype")!r}')
    need('META-INF/manifest.xml' in out, 'no manifest')
    for n, b in out.items():
        if n.endswith(('.xml', '.rdf')):
            try:
                ET.fromstring(b)
            except ET.ParseError as ex:
                raise Fail(f'{n} is not well-formed: {ex}; {context(b, ex)}')
    for e in ET.fromstring(out['META-INF/manifest.xml']).iter(q('manifest:file-entry')):
        p = e.get(q('manifest:full-path'))
        need(p == '/' or p in out or any(n.startswith(p) for n in names if p.endswith('/')), f'manifest entry {p} is not in the archive')
        if p == '/':
            need(e.get(q('manifest:media-type')).encode() == ext, 'media type of the document')
    return out


def context(b, ex):
    try:
        l, c = ex.position
        ln = b.decode('utf-8').split('\n')[l - 1]
        return repr(ln[max(0, c - 60):c + 40])
    except Exception:
        return ''


class Doc:
    """Visible text of content.xml: a list of runs (char, frozenset of formats); paragraphs end with newline."""

    def __init__(self, path):
        self.parts = parts(path)
        root = ET.fromstring(self.parts['content.xml'])
        self.styles = {'Emphasis': {'i'}, 'Strong_20_Emphasis': {'b'}}
        for s in root.iter(q('style:style')):
            f = set()
            for p in s.iter(q('style:text-properties')):
                if p.get(q('fo:font-style')) == 'italic':
                    f.add('i')
                if p.get(q('fo:font-weight')) == 'bold':
                    f.add('b')
                if p.get(q('fo:language')):
                    c = p.get(q('fo:country'))
                    f.add('lang=' + p.get(q('fo:language')) + ('' if c == 'none' else '-' + c))
            self.styles[s.get(q('style:name'))] = f
        self.notes = []
        self.comments = []
        self.out = []
        self.cellrow = []
        body = root.find(q('office:body'))
        self.walk(body, frozenset(), False)
        self.text = ''.join(c for c, __ in self.out)

    def chars(self, t, fmt, para):
        if t and para:
            self.out.extend((c, fmt) for c in t)

    def walk(self, e, fmt, para):
        if e.tag in (q('office:annotation'), q('text:note')):
            save, self.out = self.out, []
            for p in (e.iter(q('text:p'))):
                self.walk1(p, frozenset(), True)
                self.out.append(('\n', frozenset()))
            t = ''.join(c for c, __ in self.out)[:-1]
            self.out = save
            (self.comments if e.tag == q('office:annotation') else self.notes).append(t)
            return
        if e.tag in (q('text:p'), q('text:h')):
            need(not para, f'{e.tag} inside of a paragraph')
            quoted = e.get(q('text:style-name')) == 'Quotations'
            if quoted:
                self.out.extend((c, fmt) for c in '> ')
            self.walk1(e, fmt, True)
            self.out.append(('\n', fmt))
            return
        if e.tag == q('text:span'):
            st = e.get(q('text:style-name'))
            need(st in self.styles, f'unknown text style {st}')
            fmt = fmt | frozenset(self.styles[st])
        self.walk1(e, fmt, para)

    def walk1(self, e, fmt, para):
        self.chars(e.text, fmt, para)
        for k in e:
            self.walk(k, fmt, para)
            self.chars(k.tail, fmt, para)


TOKEN = re.compile(r'\[(/?)(i|b|lang=[a-zA-Z-]+)\]|/\*(.*?)\*/', re.S)


def runs(raw, langs=True, comments=True, drop=True):
    """Semantics of yWriter raw markup: list of (char, formats), list of comments."""
    if drop:
        raw = re.sub(r'\[/?[hcrsu]\d*\]', '', raw)
    out, com, fmt, pos = [], [], [], 0
    for m in TOKEN.finditer(raw):
        out.extend((c, frozenset(fmt)) for c in raw[pos:m.start()])
        pos = m.end()
        if m.group(3) is not None:
            com.append(m.group(3))
            if not comments:
                out.extend((c, frozenset(fmt)) for c in m.group(0))
            continue
        t = m.group(2)
        if m.group(1):
            if t in fmt:
                fmt.remove(t)
        else:
            fmt.append(t)
    out.extend((c, frozenset(fmt)) for c in raw[pos:])
    return out, com


def visible(rs):
    """Formats of white space do not show."""
    out = [(c, f if not c.isspace() else None) for c, f in rs]
    for i, (c, f) in enumerate(out):
        if c == '>' and (i == 0 or out[i - 1][0] == '\n'):
            out[i] = (c, None)
    return out


def show(rs):
    s, last = '', frozenset()
    for c, f in rs:
        f = f or frozenset()
        if c == '\n':
            f = last
        if f != last:
            s += '{' + ','.join(sorted(f)) + '}'
            last = f
        s += c
    return s


def same_runs(a, b, what):
    va, vb = visible(a), visible(b)
    need(va == vb, f'{what}: {show(a)!r} became {show(b)!r}')


# ------------------------------------------------- generation of marked-up text
LANGS = ['de-DE', 'fr-FR', 'en-AU', 'eo']


def marked(r, line, depth=2, comments=True, notes=False, highlights=True, quotes=True, langs=True, open_=(), breaks=False):
    """Nested, balanced markup; spans may reach across line breaks."""
    parts_ = []
    for __ in range(r.randint(1, 4)):
        k = r.random()
        if k < 0.45 or depth == 0:
            parts_.append(line(r))
        elif k < 0.65:
            t = r.choice([x for x in ['i', 'b'] + (LANGS if langs else []) if x not in open_ and not (x in LANGS and any(o in LANGS for o in open_))] or [''])
            inner = marked(r, line, depth - 1, comments, notes, highlights, quotes, langs, open_ + (t,), breaks)
            if t:
                t = 'lang=' + t if t in LANGS else t
                parts_.append(f'[{t}]{inner}[/{t}]')
            else:
                parts_.append(inner)
        elif k < 0.75 and comments:
            c = line(r).replace('*', '').replace('/', '').replace('~', '').strip() or 'c'
            if breaks and r.random() < 0.3:
                c += '\n' + (line(r).replace('*', '').replace('/', '').replace('~', '').strip() or 'c')
            if r.random() < 0.4:
                c = r.choice(['', '', '', '!', '!! ', '(', '"', '- ', '...']) + c + r.choice(['!', '?', '.', ')', '"', ',', ';', ' !!', '...', '-'])
            if notes and r.random() < 0.5:
                c = r.choice(['@fn ', '@fn* ', '@en ']) + c
            parts_.append(f'/*{c}*/')
        elif k < 0.82 and highlights:
            t = r.choice(['u', 's', 'h3', 'c', 'r'])
            parts_.append(f'[{t}]{line(r)}[/{t}]')
        else:
            parts_.append(line(r))
    s = parts_[0]
    for p in parts_[1:]:
        j = r.choice([' ', ' ', '\n', '\n', '\n\n', '\n> ' if quotes else '\n', ''])
        if j == '' and (s[-1] in '/*[' or p[0] in '/*]' or s[-1].isalnum()):
            j = ' '
        if s.endswith('*/') and j == '\n> ':
            j = '\n'
        if s.endswith('*/') and quotes and s.rsplit('\n', 1)[-1].count('/*') >= 2 and r.random() < 0.7:
            j = '> '        # not at the start of a paragraph: plain text
        s += j + p
    return s
