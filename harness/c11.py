"""C11: exported ODF documents are well-formed and carry the text unchanged."""
import re
from .common import *
from . import gen
from .odf import *

QUICK = {'title', 'aka', 'fullName', 'tags', 'field1', 'image'}
FORMATTED = {'', '_proof', '_manuscript', '_notes', '_todo'}


def txt(r):
    s = gen.line(r, 0.4)
    for x in ('[', ']', '/', '*', '~', '`'):
        s = s.replace(x, '')
    s = ' '.join(s.split())
    while s.startswith(('<HTML>', '<TEX>', '>')):
        s = s[1:].strip()
    return gen.odd_blanks(r, s or 'x')


def title(r):
    s = txt(r)
    return s if r.random() > 0.1 else s + r.choice([' /* x', ' */', '/*', ' /* x */ y', ' /'])


def mtxt(r):
    return '\n'.join([txt(r)] + [r.choice(['', txt(r), '> ' + txt(r)]) for __ in range(r.randint(0, 2))] + [txt(r)])


def content(r):
    def line(r):
        s = txt(r)
        if r.random() < 0.1:
            s += r.choice([' <HTM <b>x</b> /HTM>', ' <TEX \\x /TEX>', ' <RTFBRK>', ' <rtfimg i.png /rtfimg>'])
        return s
    if r.random() < 0.08:
        return f'/*{txt(r)}*/ {line(r)} /*{txt(r)}*/> {txt(r)}'
    return marked(r, line, notes=True, breaks=True)


def g(r):
    spec = gen.novel(r, n_ch=r.randint(1, 4), content=content, nasty=0.4, all_set=r.random() < 0.7)
    kind = r.choice(['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations',
                     '_charlist', '_loclist', '_itemlist', '_scenelist', '_xref', '_notes', '_todo'])
    n = 0
    tag = lambda s: None if s is None else (f'Qa{n}z{s}Qe{n}z' if s else s)
    for coll in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
        for e in spec[coll]:
            for a in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'aka', 'fullName', 'bio', 'goals', 'sceneContent'):
                if e.get(a):
                    n += 1
                    v = e[a] if a == 'sceneContent' else (title(r) if a in QUICK else mtxt(r))
                    e[a] = tag(v) if not (a == 'sceneContent' and r.random() < 0.2) else '> ' + tag(v)
                    if a == 'sceneContent' and v.startswith('/*') and v[v.index('*/') + 2:].strip():
                        e[a] = v[:v.index('*/') + 2] + tag(v[v.index('*/') + 2:])
            if e.get('tags'):
                e['tags'] = [tag(txt(r).replace(',', '').replace(';', '') + str(k)) for k, __ in enumerate(e['tags']) if [n := n + 1]]
            for a in ('characters', 'locations', 'items'):
                if coll == 'scenes' and e.get(a):
                    e[a] = [i for i in e[a] if [x for x in spec[a] if x['id'] == i][0]['title'] is not None]
    for a in ('title', 'authorName', 'desc', 'fieldTitle1'):
        if spec['novel'].get(a):
            n += 1
            spec['novel'][a] = tag(title(r) if a != 'desc' else mtxt(r))
    return {'spec': spec, 'kind': kind, 'dir': r.choice(['d', 'a & b', "it's", 'x<y>'])}


def carried(kind, spec):
    """Values that must stand in the document."""
    nv = spec['novel']
    sc = {s['id']: s for s in spec['scenes']}
    must = []
    ods = kind.endswith('list')
    if not ods:
        must += [nv['title'], nv['authorName']]
    reg = [c for c in spec['chapters'] if c['chType'] == 0]
    normal = [sc[i] for c in reg for i in c['srtScenes'] if sc[i]['scType'] == 0 and not sc[i]['doNotExport']
              and not (sc[i]['sceneContent'] or '').startswith(('<HTML>', '<TEX>'))]
    hidden = [c for c in reg if c['srtScenes'] and all(sc[i]['doNotExport'] for i in c['srtScenes'])]
    if kind in ('_manuscript', ''):
        must += [s['sceneContent'] for s in normal]
        must += [c['title'] for c in reg if c not in hidden and not c['suppressChapterTitle']]
        if kind:
            must += [s['title'] for s in normal]
    elif kind == '_proof':
        must += [s[a] for s in normal for a in ('sceneContent', 'title')] + [c['title'] for c in reg if c not in hidden]
    elif kind == '_scenes':
        must += [s[a] for s in normal for a in ('desc', 'title')]
    elif kind == '_brf_synopsis':
        must += [s['title'] for s in normal]
    elif kind in ('_notes', '_todo'):
        t = 1 if kind == '_notes' else 2
        must += [sc[i][a] for c in spec['chapters'] if c['chType'] == t for i in c['srtScenes'] for a in ('sceneContent', 'title')]
    elif kind == '_chapters':
        must += [c[a] for c in reg if c not in hidden and c['chLevel'] == 0 for a in ('title', 'desc')]
    elif kind == '_parts':
        must += [c[a] for c in reg if c not in hidden and c['chLevel'] == 1 for a in ('title', 'desc')]
    elif kind == '_characters':
        must += [e[a] for e in spec['characters'] for a in ('title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'notes')]
    elif kind in ('_items', '_locations'):
        must += [e[a] for e in spec[kind[1:]] for a in ('title', 'aka', 'desc')]
    elif kind == '_charlist':
        must += [e[a] for e in spec['characters'] for a in ('title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'notes')]
        must += [t for e in spec['characters'] for t in e['tags'] or []]
    elif kind in ('_loclist', '_itemlist'):
        k = 'locations' if kind == '_loclist' else 'items'
        must += [e[a] for e in spec[k] for a in ('title', 'aka', 'desc')] + [t for e in spec[k] for t in e['tags'] or []]
    elif kind == '_scenelist':
        must += [s[a] for s in normal for a in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome')] + [t for s in normal for t in s['tags'] or []]
    return [m for m in must if m]


def c(case):
    from pywriter.converter.yw7_converter import Yw7Converter
    spec, kind = case['spec'], case['kind']
    cls = [x for x in Yw7Converter.EXPORT_TARGET_CLASSES if (x.SUFFIX or '') == kind][0]
    with scratch() as d:
        os.mkdir(f'{d}/{case["dir"]}')
        path = f'{d}/{case["dir"]}/p{kind}{cls.EXTENSION}'
        f = cls(path)
        f.novel = build_novel(spec)
        f.write()
        need(os.listdir(f'{d}/{case["dir"]}') == [os.path.basename(path)], f'files written: {os.listdir(d)}')
        doc = Doc(path)
    nv = spec['novel']
    meta = ET.fromstring(doc.parts['meta.xml'])
    for tag, v in (('dc:title', nv['title']), ('dc:description', nv['desc']), ('meta:initial-creator', nv['authorName'])):
        e = meta.find('.//' + q(tag))
        need(e is not None and (e.text or '') == (v or ''), f'{tag} is {e.text!r}, expected {v!r}')
    values, lead = {}, {}
    mention(spec, values, lead)
    rs = doc.out
    text = doc.text
    found = set()
    ncom = []
    for m in re.finditer(r'Qa(\d+)z', text):
        n = m.group(1)
        end = text.find(f'Qe{n}z', m.end())
        need(end >= 0, f'truncated text: {text[m.start():m.start() + 100]!r}')
        attr, raw = values[n]
        found.add(n)
        got = rs[m.end():end]
        exp, com = expected(kind, attr, raw)
        if n in lead:
            com = expected(kind, attr, lead[n])[1] + com
        same_runs(exp, got, f'{kind or "export"} {attr}')
        ncom += com
    for v in carried(kind, spec):
        n = re.search(r'Qa(\d+)z', v).group(1)
        need(n in found, f'{kind or "export"}: {values[n]} is missing')
    if kind in FORMATTED:
        com = [x for x in ncom if not (kind == '' and re.match(r' *@[ef]n\**  *', x))]
        note = [x for x in ncom if x not in com]
        if kind != '':
            note, com = [], ncom
        need([x.strip() for x in doc.comments] == [x.strip() for x in com], f'comments {doc.comments}, expected {com}')
        note = [re.sub(r'^ *@[ef]n\** ', '', x) for x in note]
        need([x.strip() for x in doc.notes] == [x.strip() for x in note], f'notes {doc.notes}, expected {note}')
    else:
        need(not re.search(r'&(amp|lt|gt|quot|apos);', text) or any(re.search(r'&(amp|lt|gt|quot|apos);', v[1]) for v in values.values()), 'escaped twice')


def expected(kind, attr, raw):
    if attr == 'sceneContent':
        if kind == '':
            for code in ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg'):
                raw = re.sub(fr'<{code} .+?/{code}>', '', raw)
            raw = raw.replace('<RTFBRK>', '')
        return runs(raw)
    rs = [(ch, frozenset()) for ch in raw]
    return rs, []


def mention(o, values, lead, attr=None):
    if isinstance(o, dict):
        for k, v in o.items():
            mention(v, values, lead, k)
    elif isinstance(o, list):
        for v in o:
            mention(v, values, lead, attr)
    elif isinstance(o, str):
        m = re.search(r'(/\*.*?\*/)?Qa(\d+)z(.*)Qe\2z', o, re.S)
        if m:
            values[m.group(2)] = (attr, m.group(3))
            if m.group(1):
                lead[m.group(2)] = m.group(1)


SOUP = ['[i]', '[/i]', '[b]', '[/b]', '[lang=de-DE]', '[/lang=de-DE]', '[lang=eo]', '[/lang=eo]', '[lang=x"y-z]', '[/lang=x"y-z]', '[lang=a&b]', '[lang=a[b]', '[lang=]',
        '/*', '*/', '/*', '*/', '/', '*', '[u]', '[/h3]', '\n', '\n\n', '\n> ', '&', '<b>', '"', "'", 'foo', 'bar', ' ', 'x']


def stray(raw):
    """A mark is closed before it is opened in the same line (known finding "stray-closing-mark")."""
    for t in ('i', 'b', 'lang=de-DE', 'lang=eo'):
        for part in (re.sub(r'/\*.*?\*/', '', raw, flags=re.S), *re.findall(r'/\*(.*?)\*/', raw, re.S)):
            depth = 0
            for line in part.split('\n'):
                low = depth
                for m in re.finditer(fr'\[(/?){t}\]', line):
                    depth += -1 if m.group(1) else 1
                    low = min(low, depth)
                    if low < 0 and not m.group(1):
                        return True
                depth = max(depth, 0)
    return False


def soup(r):
    while True:
        s = 'x' + ''.join(r.choice(SOUP) for __ in range(r.randint(1, 14))) + 'x'
        if not stray(s):
            return s


def g_soup(r):
    spec = gen.novel(r, n_ch=r.randint(1, 3), content=soup, nasty=0.1, all_set=True)
    for n, e in enumerate(spec['scenes']):
        if e.get('sceneContent'):
            e['sceneContent'] = f'Qa{n}z{e["sceneContent"]}Qe{n}z'
    return {'spec': spec, 'kind': r.choice(['', '_proof', '_manuscript', '_notes', '_todo'])}


def c_soup(case):
    """Whatever marks stand in the scenes: the document is well-formed and shows every character that is not part of a mark or a comment."""
    from pywriter.converter.yw7_converter import Yw7Converter
    spec, kind = case['spec'], case['kind']
    cls = [x for x in Yw7Converter.EXPORT_TARGET_CLASSES if (x.SUFFIX or '') == kind][0]
    with scratch() as d:
        path = f'{d}/p{kind}{cls.EXTENSION}'
        f = cls(path)
        f.novel = build_novel(spec)
        f.novel.languages = None
        f.write()
        doc = Doc(path)
    codes = {x for e in spec['scenes'] for x in re.findall(r'\[lang=(.*?)\]', e['sceneContent'] or '') if re.fullmatch('[A-Za-z-]+', x)}
    tag = '|'.join(['i', 'b', 'u', 'h3', *(f'lang={x}' for x in sorted(codes))])
    plain = lambda s: re.sub(fr'\[/?({tag})\]', '', s)
    for n, e in enumerate(spec['scenes']):
        m = re.search(f'Qa{n}z(.*)Qe{n}z', doc.text, re.S)
        if m:
            raw = re.search(f'Qa{n}z(.*)Qe{n}z', e['sceneContent'], re.S).group(1)
            want = plain(re.sub(r'/\*.*?\*/', '', raw, flags=re.S))
            need(m.group(1) == want, f'{kind or "export"}: the text {raw!r} reads {m.group(1)!r}, expected {want!r}')


def g_stray(r):
    """The known finding: one scene with this text, as a manuscript."""
    spec = gen.novel(r, n_ch=1, content=lambda r: 'x', nasty=0, all_set=True)
    for ch in spec['chapters']:
        ch['chType'] = 0
    for e in spec['scenes']:
        e.update(scType=0, doNotExport=False, sceneContent='x[/i][i]x')
    return {'spec': spec, 'kind': '_manuscript', 'key': 'stray-closing-mark'}


CASES = [('export', g, c, 260), ('any marks', g_soup, c_soup, 260), ('known finding', g_stray, c_soup, 1)]
