"""C12: importing a document changes only what that kind of document carries.

The document is exported from one novel (B) and imported into another one (A) that shares some IDs with it."""
import re
from .common import *
from . import c13
from .c13 import KINDS, same_runs, runs

EMPTY = (None, '', [])


def g(r):
    a, b = c13.g(r), c13.g(r)
    # make the ID sets overlap
    for coll in ('scenes', 'chapters', 'characters', 'locations', 'items'):
        ids = [e['id'] for e in a['spec'][coll]]
        free = [i for i in ids if i not in [e['id'] for e in b['spec'][coll]]]
        r.shuffle(free)
        for e in b['spec'][coll]:
            if free and r.random() < 0.7:
                old, new = e['id'], free.pop()
                e['id'] = new
                if coll == 'scenes':
                    for c in b['spec']['chapters']:
                        c['srtScenes'] = [new if i == old else i for i in c['srtScenes']]
                elif coll != 'chapters':
                    for s in b['spec']['scenes']:
                        if s.get(coll):
                            s[coll] = [new if i == old else i for i in s[coll]]
    kind = a['kind']
    if kind in ('_scenes', '_manuscript'):
        for s in b['spec']['scenes']:
            if r.random() < 0.3:
                s['retitle'] = c13.txt(r)       # a title comment at the start of the text
            if kind == '_scenes' and s['desc'] and r.random() < 0.3:
                s['desc'] = c13.txt(r) + ' /*' + c13.txt(r) + '*/ ' + s['desc']
    return {'a': a['spec'], 'b': b['spec'], 'kind': kind}


def retitled(kind, b):
    b = copy.deepcopy(b)
    for s in b['scenes']:
        t = s.pop('retitle', None)
        if t and kind == '_scenes' and s['desc']:
            s['desc'] = f'/*~{t}~*/{s["desc"]}'
        elif t and kind == '_manuscript' and s['sceneContent'] and not s['sceneContent'].startswith(('>', '/*', '<HTML>', '<TEX>')):
            s['sceneContent'] = f'/*~ {t} ~*/{s["sceneContent"]}'
    return b


def exported(kind, b):
    """Yield ('ch', chapter, title shown) and ('sc', scene) in document order; ('end',) closes a chapter."""
    sc = {s['id']: s for s in b['scenes']}
    T = {'_notes': 1, '_todo': 2}.get(kind, 0)
    for c in b['chapters']:
        hidden = c['chType'] == 0 and c['srtScenes'] and all(sc[i]['doNotExport'] for i in c['srtScenes'])
        part = c['chLevel'] == 1
        shown = c['chType'] == T and not hidden
        if kind in ('_manuscript', '_notes', '_todo', '_scenes') and shown:
            t = c['title'] or ''
            if c['suppressChapterTitle'] and kind != '_scenes':
                t = ''
            yield 'ch', c, t
        if kind == '_chapters' and shown and not part or kind == '_parts' and shown and part:
            yield 'ch', c, c['title'] or ''
        if kind in ('_manuscript', '_notes', '_todo', '_scenes', '_proof', '_scenelist'):
            for i in c['srtScenes']:
                s = sc[i]
                if T:
                    ok = s['scType'] == T and not (c['chType'] == 3)
                else:
                    ok = s['scType'] == 0 and c['chType'] != 3 and not s['doNotExport'] and not hidden and not (s['sceneContent'] or '').startswith(('<HTML>', '<TEX>'))
                if ok:
                    yield 'sc', s
        if kind in ('_manuscript', '_notes', '_todo', '_scenes') and shown:
            yield 'end',


def expected(kind, a, b):
    """The novel A after the import, or None if the import may be refused."""
    e = copy.deepcopy(a)
    for coll in ('scenes', 'characters', 'locations', 'items', 'chapters'):
        e[coll] = {x['id']: x for x in e[coll]}
    order = {c: list(e[c]) for c in e if c != 'novel' and c != 'projectNotes'}
    T = {'_notes': 1, '_todo': 2}.get(kind, 0)
    if kind in ('_manuscript', '_notes', '_todo', '_proof'):
        nv = build_novel(retitled(kind, b))
        nv.check_locale()
        e['novel']['languageCode'], e['novel']['countryCode'] = nv.languageCode, nv.countryCode
    cur = None
    for x in exported(kind, b):
        if x[0] == 'ch':
            i = cur = x[1]['id']
            if i not in e['chapters']:
                e['chapters'][i] = {'id': i, 'srtScenes': [], 'new': True, 'title': None}
                order['chapters'].append(i)
            c = e['chapters'][i]
            c['chType'] = T
            if kind in ('_manuscript', '_notes', '_todo'):
                if c['title'] is None and x[2]:
                    c['title'] = x[2]
            elif not c['title']:
                c['title'] = x[2]
            if kind in ('_chapters', '_parts'):
                c['desc'] = x[1]['desc'] or ''
        elif x[0] == 'end':
            cur = None
        else:
            s, i = x[1], x[1]['id']
            if kind == '_proof':
                if i in e['scenes']:
                    e['scenes'][i]['sceneContent'] = s['sceneContent'] or ''
                continue
            if i not in e['scenes']:
                if kind != '_scenelist':
                    if cur is None:
                        return None
                    e['chapters'][cur]['srtScenes'].append(i)
                e['scenes'][i] = {'id': i, 'new': True}
                order['scenes'].append(i)
            t = e['scenes'][i]
            if kind == '_scenelist':
                for k in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'tags'):
                    t[k] = s[k] or None
                t['isReactionScene'] = bool(s['isReactionScene'])
                t['status'] = s['status']
                for k in ('field1', 'field2', 'field3', 'field4'):
                    t[k] = s[k] if s[k] in [str(n) for n in range(2, 11)] else '1'
                continue
            t['scType'] = T
            if s.get('retitle') and (s['desc'] if kind == '_scenes' else
                                     s['sceneContent'] and not s['sceneContent'].startswith(('>', '/*', '<HTML>', '<TEX>'))):
                t['title'] = s['retitle']
            if kind == '_scenes':
                t['desc'] = s['desc'] or ''
            else:
                t['sceneContent'] = s['sceneContent'] or ''
    coll = {'_characters': 'characters', '_charlist': 'characters', '_items': 'items', '_itemlist': 'items',
            '_locations': 'locations', '_loclist': 'locations'}.get(kind)
    if coll:
        lst = kind.endswith('list')
        attrs = {'characters': ['desc', 'bio', 'goals', 'notes'], 'items': ['desc'], 'locations': ['desc']}[coll]
        if lst:
            attrs = attrs + ['title', 'aka', 'tags'] + (['fullName', 'isMajor'] if coll == 'characters' else [])
            order[coll] = []
        for x in b[coll]:
            i = x['id']
            if i not in e[coll]:
                e[coll][i] = {'id': i, 'new': True}
            if i not in order[coll]:
                order[coll].append(i)
            for k in attrs:
                e[coll][i][k] = x[k]
    return e, order


def c(case):
    from pywriter.converter.yw7_converter import Yw7Converter
    a, b, kind = case['a'], case['b'], case['kind']
    W = [x for x in Yw7Converter.EXPORT_TARGET_CLASSES if (x.SUFFIX or '') == kind][0]
    R = [x for x in Yw7Converter.IMPORT_SOURCE_CLASSES if (x.SUFFIX or '') == kind][0]
    exp = expected(kind, a, b)
    with scratch() as d:
        path = f'{d}/p{kind}{W.EXTENSION}'
        w = W(path)
        w.novel = build_novel(retitled(kind, b))
        w.write()
        nv = build_novel(a)
        before = dump_novel(nv)
        r = R(path)
        r.novel = nv
        try:
            r.read()
        except KeyError:
            need(exp is None, 'import failed')
            return
        if exp is None:
            return
        after = dump_novel(r.novel)
    check(kind, before, after, *exp)


def check(kind, before, after, e, order):
    for k, v in before['novel'].items():
        if k != 'languages':
            v = e['novel'][k] if k in ('languageCode', 'countryCode') else v
            need(after['novel'][k] == v, f'{kind}: project {k}: {v!r} became {after["novel"][k]!r}')
    need(before['projectNotes'] == after['projectNotes'], f'{kind}: project notes')
    for coll in ('chapters', 'scenes', 'characters', 'locations', 'items'):
        got = [x['id'] for x in after[coll]]
        need(sorted(got) == sorted(order[coll]) if coll == 'scenes' else got == order[coll], f'{kind}: {coll}: {got}, expected {order[coll]}')
        if coll in ('chapters', 'characters', 'locations', 'items') and coll + '_all' in after:
            need(set(after[coll + '_all']) == set(e[coll]), f'{kind}: {coll}: {after[coll + "_all"]} != {sorted(e[coll])}')
        old = {x['id']: x for x in before[coll]}
        for x in after[coll]:
            y = e[coll][x['id']]
            full = dict(old.get(x['id'], {}), **y)
            for k, v in full.items():
                if k in ('wordCount', 'letterCount', 'new', 'kwVar'):
                    continue
                if k == 'sceneContent' and x['id'] in old and (v or '') != (old[x['id']][k] or ''):
                    same_runs(runs(v or '', drop=False)[0], runs(x[k] or '', drop=False)[0], f'{kind}: scene {x["id"]}')
                    continue
                if k == 'sceneContent':
                    same_runs(runs(v or '', drop=False)[0], runs(x[k] or '', drop=False)[0], f'{kind}: scene {x["id"]}')
                    continue
                need(x[k] == v or (v in EMPTY and x[k] in EMPTY), f'{kind}: {coll} {x["id"]} {k}: {x[k]!r}, expected {v!r} (before: {old.get(x["id"], {}).get(k)!r})')
            if not y.get('new'):
                need(x['kwVar'] == old[x['id']]['kwVar'], f'{kind}: {coll} {x["id"]}: custom fields')


CASES = [('import', g, c, 260)]


def g_edit(r):
    while True:
        x = g(r)
        if x['kind'] in ('_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_notes', '_todo', '_proof'):
            break
    x['edit'] = r.choice(['blank', 'note', 'both', 'styles', 'styles'])
    return x


AUTO = {'Quotations': ('paragraph', 'Quotations', ''), 'Emphasis': ('text', None, 'fo:font-style="italic"'),
        'Strong_20_Emphasis': ('text', None, 'fo:font-weight="bold"'), 'Text_20_body': ('paragraph', 'Text_20_body', ''),
        'Heading_20_1': ('paragraph', 'Heading_20_1', ''), 'Heading_20_2': ('paragraph', 'Heading_20_2', '')}


def restyled(text):
    """The document as a word processor saves it: automatic styles (two of each kind) in place of the named ones."""
    new = []
    # a paragraph that consists of one formatted span becomes a formatted paragraph
    for k, (span, prop) in enumerate((('Emphasis', 'fo:font-style="italic"'), ('Strong_20_Emphasis', 'fo:font-weight="bold"'))):
        text = re.sub(rf'<text:p text:style-name="(?:Text_20_body|First_20_line_20_indent)"><text:span text:style-name="{span}">([^<]+)</text:span></text:p>',
                      rf'<text:p text:style-name="WP{k}">\1</text:p>', text)
        new.append(f'<style:style style:name="WP{k}" style:family="paragraph" style:parent-style-name="Standard"><style:text-properties {prop}/></style:style>')
    for n, (name, (family, parent, prop)) in enumerate(AUTO.items()):
        count = [0]

        def one(m):
            count[0] += 1
            return f'{m[1]}"W{n}{"abc"[count[0] % 3]}"' if count[0] % 4 else m[0]

        text = re.sub(rf'(<text:(?:p|h|span) text:style-name=)"{name}"', one, text)
        for x in 'abc':
            up = f' style:parent-style-name="{parent}"' if parent else ''
            new.append(f'<style:style style:name="W{n}{x}" style:family="{family}"{up}>' + (f'<style:text-properties {prop}/>' if prop else '') + '</style:style>')
    # spans without any meaning, and formatted remarks
    text = re.sub(r'(<text:(?:p|h|span) [^>]*[^/]>)([^<& ]+)( [^<]*)(?=<)', r'\1<text:span text:style-name="WN">\2</text:span>\3', text)
    text = re.sub(r'(<office:annotation>.*?)<text:p>([^<]*)</text:p>', r'\1<text:p text:style-name="WP0"><text:span text:style-name="WL">\2</text:span></text:p>', text, flags=re.S)
    new.append('<style:style style:name="WN" style:family="text"><style:text-properties fo:font-size="10pt"/></style:style>')
    new.append('<style:style style:name="WL" style:family="text"><style:text-properties fo:font-weight="bold" fo:language="de" fo:country="DE"/></style:style>')
    if '<office:automatic-styles/>' in text:
        return text.replace('<office:automatic-styles/>', '<office:automatic-styles>' + ''.join(new) + '</office:automatic-styles>')
    return text.replace('</office:automatic-styles>', ''.join(new) + '</office:automatic-styles>')


def c_edit(case):
    """As above, but with additional blanks and an annotation in the headings, which are no part of any element of A."""
    import zipfile
    from pywriter.converter.yw7_converter import Yw7Converter
    a, b, kind = copy.deepcopy(case['a']), case['b'], case['kind']
    for x in a['chapters']:
        x['title'] = x['title'] or 'title'
    known = {x['id'] for x in a['chapters']}
    b = copy.deepcopy(b)
    b['chapters'] = [x for x in b['chapters'] if x['id'] in known]
    used = {i for x in b['chapters'] for i in x['srtScenes']}
    b['scenes'] = [x for x in b['scenes'] if x['id'] in used]
    W = [x for x in Yw7Converter.EXPORT_TARGET_CLASSES if (x.SUFFIX or '') == kind][0]
    R = [x for x in Yw7Converter.IMPORT_SOURCE_CLASSES if (x.SUFFIX or '') == kind][0]
    exp = expected(kind, a, b)
    with scratch() as d:
        path = f'{d}/p{kind}{W.EXTENSION}'
        w = W(path)
        w.novel = build_novel(retitled(kind, b))
        w.write()
        with zipfile.ZipFile(path) as z:
            parts = {n: z.read(n) for n in z.namelist()}
        add = b''
        if case['edit'] in ('blank', 'both'):
            add += b' <text:s text:c="1"/>'
        if case['edit'] in ('note', 'both'):
            add += b'<office:annotation><text:p>remark</text:p></office:annotation>'
        parts['content.xml'] = parts['content.xml'].replace(b'</text:h>', add + b'</text:h>')
        if case['edit'] == 'styles':
            parts['content.xml'] = restyled(parts['content.xml'].decode('utf-8')).encode('utf-8')
        with zipfile.ZipFile(path, 'w') as z:
            for n in parts:
                z.writestr(n, parts[n])
        nv = build_novel(a)
        before = dump_novel(nv)
        r = R(path)
        r.novel = nv
        try:
            r.read()
        except KeyError:
            need(exp is None, 'import failed')
            return
        if exp is None:
            return
        after = dump_novel(r.novel)
    check(kind, before, after, *exp)


CASES.append(('edited headings', g_edit, c_edit, 100))


def g_cut(r):
    x = g(r)
    while x['kind'] != '_characters' or not x['b']['characters']:
        x = g(r)
    cuts = []
    for e in x['b']['characters']:
        cuts += [[e['id'], s] for s in ('desc', 'bio', 'goals', 'notes') if r.random() < 0.35]
    x['cut'] = cuts
    return x


def c_cut(case):
    """Sections of characters are left out: the attributes keep their values."""
    import zipfile
    from pywriter.odt_w.odt_w_characters import OdtWCharacters
    from pywriter.odt_r.odt_r_characters import OdtRCharacters
    a, b, kind = case['a'], case['b'], case['kind']
    e, order = expected(kind, a, b)
    old = {x['id']: x for x in a['characters']}
    with scratch() as d:
        path = f'{d}/p{kind}.odt'
        w = OdtWCharacters(path)
        w.novel = build_novel(b)
        w.write()
        with zipfile.ZipFile(path) as z:
            parts = {n: z.read(n) for n in z.namelist()}
        text = parts['content.xml'].decode('utf-8')
        for i, s in case['cut']:
            text, n = re.subn(rf'<text:section [^>]*text:name="CrID_{s}:{i}".*?</text:section>', '', text, flags=re.S)
            need(n == 1, f'section {s} of character {i} is not in the document')
            e['characters'][i][s] = old[i][s] if i in old else None
        for i in [x['id'] for x in b['characters'] if x['id'] not in old]:
            if all([i, s] in case['cut'] for s in ('desc', 'bio', 'goals', 'notes')):
                del e['characters'][i]
                order['characters'].remove(i)
        parts['content.xml'] = text.encode('utf-8')
        with zipfile.ZipFile(path, 'w') as z:
            for n in parts:
                z.writestr(n, parts[n])
        nv = build_novel(a)
        before = dump_novel(nv)
        r = OdtRCharacters(path)
        r.novel = nv
        r.read()
        after = dump_novel(r.novel)
    check(kind, before, after, e, order)


CASES.append(('missing sections', g_cut, c_cut, 60))
