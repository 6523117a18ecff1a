"""C18: spreadsheet tables."""
import zipfile
from xml.sax.saxutils import escape
from .common import *
from . import gen

NS = ('xmlns:office="urn:oasis:names:tc:opendocument:xmlns:office:1.0" xmlns:text="urn:oasis:names:tc:opendocument:xmlns:text:1.0" '
      'xmlns:table="urn:oasis:names:tc:opendocument:xmlns:table:1.0" xmlns:dc="http://purl.org/dc/elements/1.1/"')


def cell(r):
    x = r.random()
    if x < 0.3:
        return ''
    if x < 0.5:
        return r.choice(['a', 'b'])
    if x < 0.65:
        return '\n'.join(gen.line(r, 0.3) if r.random() < 0.8 else '' for __ in range(r.randint(2, 3)))
    if x < 0.7:
        return gen.line(r, 0.3) + r.choice([' ', '  ', '\xa0'])
    return gen.odd_blanks(r, gen.line(r, 0.4), 0.2)


def g(r):
    n = r.randint(1, 8) if r.random() < 0.9 else r.randint(20, 40)
    rows = []
    for __ in range(r.randint(0, 6)):
        row = [cell(r) for __ in range(n + r.choice([0, 0, 0, 1, 3]))]
        if r.random() < 0.85:
            row[0] = row[0] or 'ID:1'
        if r.random() < 0.5:
            for k in range(1, len(row)):
                if r.random() < (0.6 if n < 20 else 0.97):
                    row[k] = row[k - 1]
        rows.append(row)
    return {'n': n, 'rows': rows, 'seed': r.randint(0, 10**6), 'tail': r.choice([0, 0, 1003, 5]), 'style': r.choice(['runs', 'single', 'span'])}


def paragraph(t, r):
    """Text in a paragraph, perhaps with spans."""
    if t and r.random() < 0.3:
        k = r.randint(0, len(t))
        return f'<text:p>{escape(t[:k])}<text:span>{escape(t[k:])}</text:span></text:p>'
    return f'<text:p>{escape(t)}</text:p>'


def xml_cell(t, rep, r):
    a = f' table:number-columns-repeated="{rep}"' if rep > 1 or r.random() < 0.05 else ''
    if t == '':
        return r.choice([f'<table:table-cell{a}/>', f'<table:table-cell{a}></table:table-cell>'])
    return f'<table:table-cell{a} office:value-type="string">' + ''.join(paragraph(p, r) for p in t.split('\n')) + '</table:table-cell>'


def table(rows, r, tail, style):
    out = ['<table:table-column/>']
    for row in rows:
        x = '<table:table-row>'
        k = 0
        while k < len(row):
            j = k + 1
            if style != 'single':
                while j < len(row) and row[j] == row[k] and (k > 0 or row[k] != '') and r.random() < 0.9:
                    j += 1
            x += xml_cell(row[k], j - k, r)
            k = j
        if tail:
            x += f'<table:table-cell table:number-columns-repeated="{tail}"/>'
        out.append(x + '</table:table-row>')
    return ''.join(out)


def ods(path, tab, extra=''):
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('mimetype', 'application/vnd.oasis.opendocument.spreadsheet')
        z.writestr('content.xml', f'<?xml version="1.0" encoding="UTF-8"?>\n<office:document-content {NS}><office:body><office:spreadsheet>'
                   f'<table:table table:name="T1">{tab}</table:table>{extra}</office:spreadsheet></office:body></office:document-content>')


def c(case):
    from pywriter.ods_r.ods_parser import OdsParser
    r = rnd(case['seed'])
    n = case['n']
    with scratch() as d:
        p = f'{d}/t.ods'
        ods(p, table(case['rows'], r, case['tail'], case['style']), '<table:table table:name="T2"><table:table-row><table:table-cell><text:p>other</text:p></table:table-cell></table:table-row></table:table>')
        got = OdsParser().get_rows(p, n)
    exp = [row[:n] for row in case['rows'] if row[0] != '']
    d = diff(exp, got, 'rows')
    need(d is None, f'table: {d}')


LISTS = {
    'charlist': ('characters', 'CrID', ['title', 'fullName', 'aka', 'desc', 'bio', 'goals', None, 'tags', 'notes']),
    'loclist': ('locations', 'LcID', ['title', 'desc', 'aka', 'tags']),
    'itemlist': ('items', 'ItID', ['title', 'desc', 'aka', 'tags']),
}
CLS = {'charlist': 'OdsRCharList', 'loclist': 'OdsRLocList', 'itemlist': 'OdsRItemList', 'scenelist': 'OdsRSceneList'}


def g_list(r):
    spec = gen.novel(r, nasty=0.1, n_ch=2)
    k = r.choice(list(LISTS))
    coll, pre, cols = LISTS[k]
    ids = [e['id'] for e in spec[coll]]
    r.shuffle(ids)
    ids = ids[:r.randint(0, len(ids))]
    while r.random() < 0.3:
        new = str(r.randint(200, 300))
        if new not in ids:
            ids.insert(r.randint(0, len(ids)), new)
    rows = []
    for i in ids:
        row = [f'{pre}:{i}']
        for c_ in cols:
            if c_ is None:
                row.append(r.choice(['Major', 'Minor', '']))
            elif c_ == 'tags':
                row.append(', '.join(r.sample(['t1', 't2', 'u & v'], r.randint(0, 3))))
            else:
                row.append(r.choice(['', gen.odd_blanks(r, gen.line(r, 0.3))]))
        rows.append(row)
    junk = r.choice([None, 'head', 'foreign', 'blank', 'all'])
    return {'spec': spec, 'kind': k, 'rows': rows, 'junk': junk, 'seed': r.randint(0, 10**6)}


def norm(v):
    return v or None


def c_list(case):
    import importlib
    k = case['kind']
    coll, pre, cols = LISTS[k]
    r = rnd(case['seed'])
    nv = build_novel(case['spec'])
    before = dump_novel(nv)
    objs = dict(getattr(nv, coll))
    rows = [list(x) for x in case['rows']]
    n = len(cols) + 1
    if case['junk'] in ('head', 'all'):
        rows.insert(0, ['ID'] + ['deviating'] * (n - 1))
    if case['junk'] in ('foreign', 'all'):
        rows.insert(len(rows) // 2, ['ScID:1'] + ['foreign'] * (n - 1))
        rows.append(['remark'] + [''] * (n - 1))
    if case['junk'] in ('blank', 'all'):
        rows.insert(len(rows) // 2, [''] * n)
    with scratch() as d:
        p = f'{d}/p_{k}.ods'
        ods(p, table(rows, r, 1003, 'runs'))
        mod = importlib.import_module(f'pywriter.ods_r.ods_r_{k}')
        o = getattr(mod, CLS[k])(p)
        o.novel = nv
        o.read()
    srt = dict(characters='srtCharacters', locations='srtLocations', items='srtItems')[coll]
    ids = [x[0].split(':')[1] for x in case['rows']]
    need(getattr(nv, srt) == ids, f'order {getattr(nv, srt)}, table has {ids}')
    el = getattr(nv, coll)
    for i, o in objs.items():
        need(el.get(i) is o, f'{coll} {i} was replaced')
    need(set(el) == set(objs) | set(ids), f'{coll}: {sorted(el)}, expected {sorted(set(objs) | set(ids))}')
    after = {i: dump_obj(e, CR_ATTRS if coll == 'characters' else WE_ATTRS, i) for i, e in el.items()}
    old = {e['id']: e for e in before[coll]}
    for row in case['rows']:
        i = row[0].split(':')[1]
        got = after[i]
        for a, v in zip(cols, row[1:]):
            if a is None:
                need(got['isMajor'] is (v == 'Major'), f'{coll} {i}: isMajor {got["isMajor"]}, cell {v!r}')
                got.pop('isMajor')
                continue
            if a == 'tags':
                exp = [t for t in v.split(', ') if t]
                need((got[a] or []) == exp, f'{coll} {i}: tags {got[a]}, cell {v!r}')
            else:
                need((got[a] or '') == v, f'{coll} {i}: {a} {got[a]!r}, cell {v!r}')
            got.pop(a)
        if i in old:
            for a in got:
                need(got[a] == old[i][a], f'{coll} {i}: {a} changed to {got[a]!r}')
    for i in old:
        if i not in ids:
            d = diff(old[i], after[i])
            need(d is None, f'{coll} {i}, which is not in the table, changed{d}')
    now = dump_novel(nv)
    for key in before:
        if not key.startswith(coll):
            d = diff(before[key], now[key], key)
            need(d is None, f'{d} changed')


SCOLS = ['title', 'desc', 'tags', 'notes', 'isReactionScene', 'goal', 'conflict', 'outcome', None, None, 'field1', 'field2', 'field3', 'field4', None, None, 'status', None, None, None]


def g_sc(r):
    spec = gen.novel(r, nasty=0.1, n_ch=2)
    ids = [e['id'] for e in spec['scenes']]
    r.shuffle(ids)
    ids = ids[:r.randint(0, len(ids))]
    rows = []
    for i in ids:
        row = [f'ScID:{i}']
        for c_ in SCOLS:
            row.append({'tags': lambda: ', '.join(r.sample(['t1', 't2', 'u & v'], r.randint(0, 3))),
                        'isReactionScene': lambda: r.choice(['A', 'R', '']),
                        'status': lambda: r.choice(['Outline', 'Draft', '1st Edit', '2nd Edit', 'Done', 'unknown', ''])}.get(c_, lambda: str(r.randint(1, 12)) if c_ and c_.startswith('field') and r.random() < 0.8 else r.choice(['', gen.odd_blanks(r, gen.line(r, 0.3))]))())
        rows.append(row)
    return {'spec': spec, 'rows': rows, 'seed': r.randint(0, 10**6)}


def c_sc(case):
    from pywriter.ods_r.ods_r_scenelist import OdsRSceneList
    r = rnd(case['seed'])
    nv = build_novel(case['spec'])
    before = dump_novel(nv)
    rows = [['Scene link'] + ['x'] * 20] + case['rows']
    with scratch() as d:
        p = f'{d}/p_scenelist.ods'
        ods(p, table(rows, r, 1003, 'runs'))
        o = OdsRSceneList(p)
        o.novel = nv
        o.read()
    exp = copy.deepcopy(before)
    sc = {s['id']: s for s in exp['scenes']}
    for row in case['rows']:
        s = sc[row[0][5:]]
        for a, v in zip(SCOLS, row[1:]):
            if a is None:
                continue
            if a == 'tags':
                s[a] = [t for t in v.split(', ') if t] if v or s[a] else s[a]
            elif a == 'isReactionScene':
                s[a] = v == 'R'
            elif a.startswith('field'):
                s[a] = v if v in [str(k) for k in range(2, 11)] else '1'
            elif a == 'status':
                if v in ('Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'):
                    s[a] = ['Outline', 'Draft', '1st Edit', '2nd Edit', 'Done'].index(v) + 1
            else:
                s[a] = v if v or s[a] or a in ('title', 'desc') else s[a]
    d = diff(exp, dump_novel(nv))
    need(d is None, f'scene list: {d}')


def g_short(r):
    k = r.choice(list(LISTS) + ['scenelist'])
    return {'kind': k, 'short': r.randint(1, 3), 'spec': gen.novel(r, nasty=0, n_ch=1)}


def c_short(case):
    """A table with missing columns is refused and changes nothing."""
    import importlib
    from pywriter.pywriter_globals import Error
    k = case['kind']
    n = {'charlist': 10, 'loclist': 5, 'itemlist': 5, 'scenelist': 21}[k]
    pre = {'charlist': 'CrID', 'loclist': 'LcID', 'itemlist': 'ItID', 'scenelist': 'ScID'}[k]
    nv = build_novel(case['spec'])
    before = dump_novel(nv)
    with scratch() as d:
        p = f'{d}/p_{k}.ods'
        ods(p, table([[f'{pre}:1'] + [str(j) for j in range(1, n - case['short'])]], rnd(1), 0, 'runs'))
        mod = importlib.import_module(f'pywriter.ods_r.ods_r_{k}')
        o = getattr(mod, CLS[k])(p)
        o.novel = nv
        try:
            o.read()
        except Error:
            pass
        else:
            raise Fail(f'{k}: a row with {n - case["short"]} of {n} cells is accepted')
    x = diff(before, dump_novel(nv))
    need(x is None, f'{k}: a refused table changed the novel{x}')


CASES = [('tables', g, c, 400), ('lists', g_list, c_list, 200), ('scene list', g_sc, c_sc, 100), ('short rows', g_short, c_short, 30)]
