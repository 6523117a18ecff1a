"""C13: exporting a document and importing it unchanged leaves the project as it was."""
import re
from .common import *
from . import gen
from .odf import marked, runs, same_runs, show
from .c11 import txt as _txt

KINDS = ['_manuscript', '_manuscript', '_proof', '_proof', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations',
         '_notes', '_todo', '_charlist', '_loclist', '_itemlist', '_scenelist']


LEAD = ['\n', '\n\n', ' ', '\n ']


def txt(r):
    s = _txt(r)
    s = s.replace('#', '')
    while s.startswith(('<HTML>', '<TEX>', '>', '- ', '/*')):
        s = s[1:].strip()
    return (s.strip() or 'x') + (r.choice([' ScID:5', ' ChID:1', ' ScID:', ' s ScID:12 x']) if r.random() < 0.05 else '')


def mtxt(r):
    return r.choice(LEAD if r.random() < 0.2 else ['']) + '\n'.join([txt(r)] + [r.choice(['', txt(r)]) for __ in range(r.randint(0, 2))] + [txt(r)])


def content(r):
    if r.random() < 0.08:
        return f'/*{txt(r)}*/ {txt(r)} /*{txt(r)}*/> {txt(r)}'
    s = marked(r, txt, highlights=False, notes=True)
    if r.random() < 0.1:
        return r.choice(LEAD) + s
    return s if r.random() < 0.8 else '> ' + s


def g(r):
    spec = gen.novel(r, n_ch=r.randint(1, 4), content=content, nasty=0.4)
    nv = spec['novel']
    for a in ('title', 'authorName'):
        nv[a] = nv[a] and txt(r)
    for coll in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
        for e in spec[coll]:
            for a in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'aka', 'fullName', 'bio', 'goals'):
                if e.get(a):
                    e[a] = txt(r) if a in ('title', 'aka', 'fullName') else mtxt(r)
            if e.get('tags'):
                e['tags'] = [t for t in [txt(r).replace(', ', ',').strip() + r.choice(['', '', ',', ';']) + str(k) for k, __ in enumerate(e['tags'])] if t]
            for a in ('characters', 'locations', 'items'):
                if coll == 'scenes' and e.get(a):
                    e[a] = [i for i in e[a] if [x for x in spec[a] if x['id'] == i][0]['title'] is not None]
    return {'spec': spec, 'kind': r.choice(KINDS)}


LOOSE = {'scenes': ['title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'tags', 'sceneContent', 'field1', 'field2', 'field3', 'field4',
                    'isReactionScene'],
         'chapters': ['title', 'desc'],
         'characters': ['title', 'fullName', 'aka', 'desc', 'bio', 'goals', 'tags', 'notes'],
         'locations': ['title', 'aka', 'desc', 'tags'], 'items': ['title', 'aka', 'desc', 'tags']}


def same(before, after, kind):
    for coll in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
        need([e['id'] for e in before[coll]] == [e['id'] for e in after[coll]],
             f'{coll}: {[e["id"] for e in before[coll]]} became {[e["id"] for e in after[coll]]}')
        for b, a in zip(before[coll], after[coll]):
            for k in b:
                x, y = b[k], a[k]
                if k == 'sceneContent':
                    same_runs(runs(x or '', drop=False)[0], runs(y or '', drop=False)[0], f'{kind}: scene {b["id"]}')
                    need(runs(x or '')[1] == runs(y or '')[1], f'{kind}: comments {runs(x or "")[1]} became {runs(y or "")[1]}')
                elif k in ('wordCount', 'letterCount'):
                    pass
                elif x != y:
                    free = k in LOOSE.get(coll, [])
                    ok = free and not x and not y
                    ok = ok or (kind == '_scenelist' and coll == 'scenes' and k.startswith('field') and (x in (None, '', '1')) and y == '1')
                    ok = ok or (kind in ('_notes', '_todo') and k in ('chType', 'scType') and False)
                    need(ok, f'{kind}: {coll} {b["id"]} {k}: {x!r} became {y!r}')
    for k in before['novel']:
        if k != 'languages':
            need(before['novel'][k] == after['novel'][k], f'{kind}: project {k}: {before["novel"][k]!r} became {after["novel"][k]!r}')
    for k in before:
        if k.endswith('_all'):
            need(before[k] == after[k], f'{kind}: {k}: {before[k]} became {after[k]}')


def trip(d, spec, kind, k):
    from pywriter.converter.yw7_converter import Yw7Converter
    W = [x for x in Yw7Converter.EXPORT_TARGET_CLASSES if (x.SUFFIX or '') == kind][0]
    R = [x for x in Yw7Converter.IMPORT_SOURCE_CLASSES if (x.SUFFIX or '') == kind][0]
    need(W.EXTENSION == R.EXTENSION, 'extensions')
    path = f'{d}/p{kind}{W.EXTENSION}'
    w = W(path)
    w.novel = build_novel(spec)
    w.write()
    nv = build_novel(spec)
    r = R(path)
    r.novel = nv
    r.read()
    need(not getattr(r, 'scenesSplit', False), 'import of an unchanged document reports split scenes')
    out = dump_novel(r.novel)
    out2 = {k: ([{a: v for a, v in e.items() if a not in ('wordCount', 'letterCount')} for e in o] if isinstance(o, list) and o and isinstance(o[0], dict) else o)
            for k, o in out.items()}
    return out, {k: v for k, v in out2.items() if not k.endswith('_all')}


def c(case):
    spec, kind = case['spec'], case['kind']
    before = dump_novel(build_novel(spec))
    with scratch() as d:
        a1, spec1 = trip(d, spec, kind, 1)
        same(before, a1, kind)
        spec1 = copy.deepcopy(spec1)
        a2, __ = trip(d, spec1, kind, 2)
        a1['novel'].pop('languages')
        a2['novel'].pop('languages')
        need(a1 == a2, f'{kind}: second round trip: {diff(a1, a2)}')


CASES = [('round trip', g, c, 260)]
