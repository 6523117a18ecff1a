"""C22: a new project made from a text document has all of its chapters, scenes and text, in order."""
import re, zipfile, zlib
from xml.sax.saxutils import escape
from .common import *
from . import gen
from .odf import runs, same_runs

LANGS = {'T3': 'de-DE', 'T4': 'eo'}
FORMATS = [None, None, None, None, 'T1', 'T5', 'Emphasis', 'T2', 'T6', 'Strong_20_Emphasis', 'T3', 'T4', 'T7', 'T8', 'T9', 'T9']
MARK = {'P8': 'i b', 'T8': 'i b', 'T9': '', 'P5': 'i', 'P6': 'b', 'P7': 'lang=de-DE', 'T5': 'i', 'T6': 'b', 'T7': 'lang=fr-FR', 'T1': 'i', 'Emphasis': 'i', 'T2': 'b', 'Strong_20_Emphasis': 'b', 'T3': 'lang=de-DE', 'T4': 'lang=eo'}
BODY = ['Text_20_body', 'First_20_line_20_indent', 'Standard', 'P9']


def marked(style, t):
    """The text with the markup that belongs to a style."""
    marks = MARK[style].split()
    return ''.join(f'[{m}]' for m in marks) + t + ''.join(f'[/{m}]' for m in reversed(marks))


def txt(r):
    s = gen.odd_blanks(r, gen.line(r, 0.15))
    for x in '#*/[]~':
        s = s.replace(x, '')
    while s.startswith(('>', '-', '<')):
        s = s[1:].strip()
    return re.sub(' +', ' ', s).strip() or 'x'


def par(r, first, notes=True):
    p = {'p': r.choice(['p', 'p', 'p', 'p', 'quote', 'quote2', 'quote3', 'li']), 'style': r.choice(BODY), 'runs': []}
    if r.random() < 0.1:
        p['p'] = 'p'
        return p        # an empty paragraph
    if p['p'] in ('p', 'li') and r.random() < 0.1:      # the whole paragraph is formatted
        p['style'] = r.choice(['P5', 'P6', 'P7', 'P8'])
        p['runs'].append([r.choice([None, 'T9']), txt(r)])
        if r.random() < 0.5:
            p['runs'].append([r.choice([None, 'T9']), ' ' + txt(r)])
        if notes and r.random() < 0.2:
            p['runs'].append(['comment', txt(r)])
        return p
    n = r.randint(1, 3)
    for k in range(n):
        t = txt(r) + r.choice(['', '  y', ''])
        p['runs'].append([r.choice(FORMATS), (' ' if k and r.random() < 0.7 else '') + t])
        if notes and r.random() < 0.1:
            p['runs'].append(['comment', txt(r) + r.choice(['', '', '.', '!', '...', '?'])])
    if first and p['p'] == 'p' and r.random() < 0.3:
        p['runs'].insert(0, ['comment', txt(r) + r.choice(['', '', '.', '!'])])
    return p


def g(r):
    kind = r.choice(['import', 'import', 'outline'])
    blocks = []
    for c in range(r.randint(1, 4)):
        blocks.append({'h': r.choice([1, 2, 2, 2]), 't': txt(r) if r.random() < 0.9 else '', 'as': r.choice(['h', 'h', 'h', 'p', 'auto']), 'alt': r.random() < 0.5, 'note': r.random() < 0.1, 'fmt': r.choice([None, None, 'T1'])})
        if kind == 'outline':
            for __ in range(r.randint(0, 2)):
                blocks.append(par(r, False, False))
            for __ in range(r.randint(0, 3)):
                blocks.append({'h': 3, 't': txt(r), 'as': 'h', 'note': False, 'fmt': None})
                for __ in range(r.randint(0, 3)):
                    blocks.append(par(r, False, False))
        else:
            for s in range(r.randint(0, 3)):
                if s:
                    blocks.append({'div': True, 'fmt': r.choice([None, None, 'T1'])})
                for k in range(r.randint(1, 4)):
                    blocks.append(par(r, k == 0))
    if kind == 'outline' and not any(b.get('h') == 3 for b in blocks):
        blocks.append({'h': 3, 't': txt(r), 'as': 'h', 'note': False, 'fmt': None})
    return {'kind': kind, 'blocks': blocks, 'title': r.choice([None, txt(r)]), 'author': r.choice([None, txt(r)]), 'desc': r.choice([None, txt(r)]),
            'meta': r.random() < 0.9, 'lng': r.choice(['en', 'de']), 'ctr': r.choice(['US', 'DE', 'none']), 'convert': r.random() < 0.3}


def sp(t):
    return escape(t).replace('  ', ' <text:s/>')


def remark(t):
    """The paragraph of a comment, formatted or not (which makes no difference)."""
    k = zlib.crc32(t.encode()) % 5
    return [f'<text:p>{t}</text:p>', f'<text:p text:style-name="P5">{t}</text:p>', f'<text:p><text:span text:style-name="T9">{t}</text:span></text:p>',
            f'<text:p text:style-name="P9"><text:span text:style-name="T7">{t}</text:span></text:p>', f'<text:p><text:span text:style-name="T8">{t}</text:span></text:p>'][k]


def inline(rs):
    out = []
    for f, t in rs:
        if f == 'comment':
            out.append(f'<office:annotation><dc:creator>me</dc:creator><dc:date>2023-01-01T00:00:00</dc:date>{remark(sp(t))}</office:annotation>')
        elif f:
            out.append(f'<text:span text:style-name="{f}">{sp(t)}</text:span>')
        else:
            out.append(sp(t))
    return ''.join(out)


def xml(case):
    out = ['''<?xml version="1.0" encoding="UTF-8"?>
<office:document-content xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:style="urn:oasis:names:tc:opendocument:xmlns:style:1.0" xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" xmlns:fo="urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0" xmlns:dc="http://purl.org/dc/elements/1.1/" office:version="1.2">
<office:automatic-styles>
<style:style style:name="T1" style:family="text"><style:text-properties fo:font-style="italic"/></style:style>
<style:style style:name="T2" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style>
<style:style style:name="T3" style:family="text"><style:text-properties fo:language="de" fo:country="DE"/></style:style>
<style:style style:name="T4" style:family="text"><style:text-properties fo:language="eo" fo:country="none"/></style:style>
<style:style style:name="P1" style:family="paragraph" style:parent-style-name="Quotations"/>
<style:style style:name="P4" style:family="paragraph" style:parent-style-name="Quotations"/>
<style:style style:name="P5" style:family="paragraph" style:parent-style-name="Standard"><style:text-properties fo:font-style="italic"/></style:style>
<style:style style:name="P6" style:family="paragraph" style:parent-style-name="Standard"><style:text-properties fo:font-weight="bold"/></style:style>
<style:style style:name="P7" style:family="paragraph" style:parent-style-name="Standard"><style:text-properties fo:language="de" fo:country="DE"/></style:style>
<style:style style:name="P8" style:family="paragraph" style:parent-style-name="Standard"><style:text-properties fo:font-style="italic" fo:font-weight="bold"/></style:style>
<style:style style:name="T8" style:family="text"><style:text-properties fo:font-style="italic" fo:font-weight="bold"/></style:style>
<style:style style:name="T9" style:family="text"><style:text-properties fo:font-size="10pt"/></style:style>
<style:style style:name="T5" style:family="text"><style:text-properties fo:font-style="italic"/></style:style>
<style:style style:name="T6" style:family="text"><style:text-properties fo:font-weight="bold"/></style:style>
<style:style style:name="T7" style:family="text"><style:text-properties fo:language="fr" fo:country="FR"/></style:style>
<style:style style:name="P10" style:family="paragraph" style:parent-style-name="Heading_20_1"/>
<style:style style:name="P11" style:family="paragraph" style:parent-style-name="Heading_20_2"/>
<style:style style:name="P2" style:family="paragraph" style:parent-style-name="Heading_20_1"/>
<style:style style:name="P3" style:family="paragraph" style:parent-style-name="Heading_20_2"/>
<style:style style:name="P9" style:family="paragraph" style:parent-style-name="Standard"/>
<text:list-style style:name="L1"><text:list-level-style-bullet text:level="1" text:bullet-char="-"><style:text-properties fo:font-style="italic" fo:language="fi" fo:country="FI"/></text:list-level-style-bullet></text:list-style>
</office:automatic-styles><office:body><office:text>
''']
    for b in case['blocks']:
        if 'h' in b:
            t = inline([[b['fmt'], b['t']]] + ([['comment', 'remark']] if b['note'] else []))
            n = b['h']
            if b['as'] == 'h':
                out.append(f'<text:h text:style-name="Heading_20_{n}" text:outline-level="{n}">{t}</text:h>\n')
            else:
                s = f'Heading_20_{n}' if b['as'] == 'p' else f'P{n + (9 if b.get("alt") else 1)}'
                out.append(f'<text:p text:style-name="{s}">{t}</text:p>\n')
        elif 'div' in b:
            out.append(f'<text:p text:style-name="Heading_20_4">* * *</text:p>\n' if False else f'<text:p text:style-name="Text_20_body">{inline([[b["fmt"], "* * *"]])}</text:p>\n')
        else:
            t = inline(b['runs'])
            if b['p'] == 'li':
                out.append(f'<text:list><text:list-item><text:p text:style-name="{b["style"]}">{t}</text:p></text:list-item></text:list>\n')
            else:
                s = {'p': b['style'], 'quote': 'Quotations', 'quote2': 'P1', 'quote3': 'P4'}[b['p']]
                out.append(f'<text:p text:style-name="{s}">{t}</text:p>\n')
    out.append('</office:text></office:body></office:document-content>')
    return ''.join(out)


def make(case, path):
    styles = f'''<?xml version="1.0" encoding="UTF-8"?>
<office:document-styles xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:style="urn:oasis:names:tc:opendocument:xmlns:style:1.0" xmlns:fo="urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0"><office:styles><style:default-style style:family="graphic"><style:text-properties fo:language="fi" fo:country="FI"/></style:default-style><style:default-style style:family="paragraph"><style:text-properties fo:language="{case['lng']}" fo:country="{case['ctr']}"/></style:default-style></office:styles></office:document-styles>'''
    meta = '''<?xml version="1.0" encoding="UTF-8"?>
<office:document-meta xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:meta="urn:oasis:names:tc:opendocument:xmlns:meta:1.0" xmlns:dc="http://purl.org/dc/elements/1.1/"><office:meta>'''
    for k, t in (('title', 'dc:title'), ('author', 'meta:initial-creator'), ('desc', 'dc:description')):
        if case[k] is not None:
            meta += f'<{t}>{escape(case[k])}</{t}>'
    meta += '</office:meta></office:document-meta>'
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('mimetype', 'application/vnd.oasis.opendocument.text')
        z.writestr('content.xml', xml(case))
        z.writestr('styles.xml', styles)
        if case['meta']:
            z.writestr('meta.xml', meta)


def plain(b):
    return ''.join(t for f, t in b['runs'] if f != 'comment').strip()


def raw(b, first, title):
    """Raw markup of a paragraph; a comment at the very beginning of a scene is its title."""
    s = {'p': '', 'li': '- '}.get(b['p'], '> ')
    for k, (f, t) in enumerate(b['runs']):
        if f == 'comment':
            if first and not s:
                title.append(t)
            else:
                s += f'/*{t}*/'
        elif f:
            s += marked(f, t)
        else:
            s += t
    if b['p'] == 'p' and b['style'] in MARK:
        s = marked(b['style'], s)
    elif b['p'] == 'li' and b['style'] in MARK:
        s = '- ' + marked(b['style'], s[2:])
    return s


def expected(case):
    """[(title, level, [(title or None, [paragraph])], description)]"""
    out = []
    scene = None
    for b in case['blocks']:
        if b.get('h') in (1, 2):
            out.append({'title': b['t'], 'level': 1 if b['h'] == 1 else 0, 'scenes': [], 'desc': []})
            scene = None
        elif 'h' in b:
            scene = {'title': b['t'], 'desc': []}
            out[-1]['scenes'].append(scene)
        elif 'div' in b:
            scene = None
        elif case['kind'] == 'outline':
            (scene or out[-1])['desc'].append(plain(b))
        else:
            if scene is None:
                scene = {'title': [], 'text': []}
                out[-1]['scenes'].append(scene)
            scene['text'].append(raw(b, not scene['text'], scene['title']))
    return out


def nested(t):
    stack = []
    for m in re.finditer(r'\[(/?)(i|b|lang=[a-zA-Z-]+)\]', t):
        if not m[1]:
            stack.append(m[2])
        elif not stack or stack.pop() != m[2]:
            return False
    return not stack


def one(s):
    return re.sub(' +', ' ', s or '')


def lines(s):
    return [one(x).strip() for x in (s or '').split('\n') if x.strip()]


def check(case):
    from pywriter.model.novel import Novel
    from pywriter.odt_r.odt_r_import import OdtRImport
    from pywriter.odt_r.odt_r_outline import OdtROutline
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.converter.yw7_converter import Yw7Converter
    with scratch() as d:
        p = f'{d}/doc.odt'
        make(case, p)
        if case['convert']:
            c = Yw7Converter()
            msgs = []
            c.ui.set_info_how = msgs.append
            c.run(p)
            need(msgs and not msgs[-1].startswith('!'), f'import failed: {msgs}')
            f = Yw7File(f'{d}/doc.yw7')
        else:
            f = {'import': OdtRImport, 'outline': OdtROutline}[case['kind']](p)
        f.novel = Novel()
        f.read()
    nv = f.novel
    exp = expected(case)
    need(len(set(nv.srtChapters)) == len(nv.srtChapters) and set(nv.srtChapters) == set(nv.chapters), f'list of chapters {nv.srtChapters}, chapters {list(nv.chapters)}')
    used = [i for c in nv.srtChapters for i in nv.chapters[c].srtScenes]
    need(len(set(used)) == len(used) and set(used) == set(nv.scenes), f'scenes of the chapters {used}, scenes {list(nv.scenes)}')
    got = [(one(nv.chapters[c].title), nv.chapters[c].chLevel, nv.chapters[c].chType or 0) for c in nv.srtChapters]
    want = [(one(e['title']), e['level'], 0) for e in exp]
    need(got == want, f'chapters {got}, headings {want}')
    for c, e in zip(nv.srtChapters, exp):
        ch = nv.chapters[c]
        need(len(ch.srtScenes) == len(e['scenes']), f'chapter {e["title"]!r} has {len(ch.srtScenes)} scenes, the document {len(e["scenes"])}')
        if case['kind'] == 'outline':
            need(lines(ch.desc) == lines('\n'.join(e['desc'])), f'description of chapter {e["title"]!r}: {ch.desc!r}, document {e["desc"]}')
        for n, (i, s) in enumerate(zip(ch.srtScenes, e['scenes'])):
            sc = nv.scenes[i]
            what = f'scene {n + 1} of chapter {e["title"]!r}'
            need((sc.scType or 0) == 0, f'{what}: type {sc.scType}')
            if case['kind'] == 'outline':
                need(one(sc.title) == one(s['title']), f'{what}: title {sc.title!r}, heading {s["title"]!r}')
                need(lines(sc.desc) == lines('\n'.join(s['desc'])), f'description of {what}: {sc.desc!r}, document {s["desc"]}')
                need(not sc.sceneContent, f'{what} has a text')
                need(sc.status == 1, f'{what}: status {sc.status}')
                continue
            if s['title']:
                need(one(sc.title) == one(s['title'][0]) if len(s['title']) == 1 else sc.title in s['title'], f'{what}: title {sc.title!r}, comment {s["title"]}')
            else:
                need(re.fullmatch(r'\w+ \d+', sc.title), f'{what}: title {sc.title!r}')
            a, b = '\n'.join(s['text']).rstrip(), (sc.sceneContent or '')
            same_runs(runs(one(a), drop=False)[0], runs(one(b), drop=False)[0], what)
            need(nested(b), f'{what}: the markup is not nested')
            need(runs(one(a))[1] == runs(one(b))[1], f'{what}: comments {runs(one(b))[1]}, document {runs(one(a))[1]}')
            need(sc.status == (1 if sc.wordCount < 10 else 2), f'{what}: status {sc.status} with {sc.wordCount} words')
    M = case['meta']
    for a, k in (('title', 'title'), ('authorName', 'author'), ('desc', 'desc')):
        w = case[k] if M else None
        need((getattr(nv, a) or '') == (w or ''), f'{k} {getattr(nv, a)!r}, document {w!r}')
    if not case['convert']:
        need((nv.languageCode, nv.countryCode) == (case['lng'], case['ctr']), f'locale {(nv.languageCode, nv.countryCode)}')


CASES = [('new project', g, check, 300)]
