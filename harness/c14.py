"""C14: cross references against an independent oracle."""
import re
from .common import *
from . import gen


def g(r):
    spec = gen.novel(r, nasty=0.1, n_ch=r.randint(0, 4))
    pool = ['A', 'b b', 'x&y', 'Tag'] + r.choice([[], ['a', 'A ', ' b b', 'TAG', 'b  b', '']])
    for coll in ('characters', 'locations', 'items', 'scenes'):
        for e in spec[coll]:
            if r.random() < 0.7:
                e['tags'] = r.sample(pool, r.randint(0, 4))
    for c in spec['chapters']:
        # also check that foreign type settings do not matter
        c['chType'] = r.choice([0, c['chType']])
    if spec['scenes'] and r.random() < 0.3:
        i = spec['scenes'][0]['id']
        for c in spec['chapters']:
            if i in c['srtScenes']:
                c['srtScenes'].remove(i)
    return {'spec': spec}


def expected(spec):
    order = [(i, c['id']) for c in spec['chapters'] for i in c['srtScenes']]
    sc = {s['id']: s for s in spec['scenes']}
    x = {'srtScenes': [i for i, __ in order], 'chpPerScn': dict(order)}
    for att, coll in (('scnPerChr', 'characters'), ('scnPerLoc', 'locations'), ('scnPerItm', 'items')):
        x[att] = {e['id']: [i for i, __ in order if e['id'] in (sc[i][coll] or [])] for e in spec[coll]}
    x['scnPerTag'] = {}
    for i, __ in order:
        for t in sc[i]['tags'] or []:
            x['scnPerTag'].setdefault(t, []).append(i)
    for att, coll in (('chrPerTag', 'characters'), ('locPerTag', 'locations'), ('itmPerTag', 'items')):
        x[att] = {}
        for e in spec[coll]:
            for t in e['tags'] or []:
                x[att].setdefault(t, []).append(e['id'])
    return x


def c(case):
    from pywriter.model.cross_references import CrossReferences
    nv = build_novel(case['spec'])
    before = dump_novel(nv)
    xr = CrossReferences()
    for k in (1, 2):
        xr.generate_xref(nv)
        for a, v in expected(case['spec']).items():
            got = getattr(xr, a)
            if isinstance(v, dict):
                got = {i: z for i, z in got.items() if z or i in v}
            d = diff(v, got, a)
            need(d is None, f'run {k}: {d}')
    d = diff(before, dump_novel(nv))
    need(d is None, f'generating cross references changed the novel{d}')
    # another novel: no remains of the first one
    nv2 = build_novel({'novel': {}, 'scenes': [], 'chapters': []})
    xr.generate_xref(nv2)
    for a in expected(case['spec']):
        need(not getattr(xr, a), f'{a} keeps entries of another novel')


def c_doc(case):
    """The cross reference document shows the scenes of each entry, in order."""
    import zipfile
    import xml.etree.ElementTree as ET
    from pywriter.odt_w.odt_w_xref import OdtWXref
    spec = case['spec']
    nv = build_novel(spec)
    x = expected(spec)
    with scratch() as d:
        o = OdtWXref(f'{d}/p_xref.odt')
        o.novel = nv
        o.write()
        with zipfile.ZipFile(f'{d}/p_xref.odt') as z:
            root = ET.fromstring(z.read('content.xml'))
    T = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
    text = root.find('.//{urn:oasis:names:tc:opendocument:xmlns:office:1.0}text')
    secs = []
    for e in text:
        s = ' '.join(''.join(e.itertext()).split())
        if e.tag == T + 'h':
            secs.append((s, []))
        elif e.tag == T + 'p' and secs:
            secs[-1][1].append(s)
    exp = []
    sc = {s['id']: s for s in spec['scenes']}
    chn = {c['id']: k for k, c in enumerate(spec['chapters'], 1)}

    def scl(ids):
        out = []
        for i in ids:
            t = sc[i]
            out.append(' '.join(f"{x['srtScenes'].index(i) + 1} (Ch {chn[x['chpPerScn'][i]]}) {t['title'] or ''} "
                                f"{ {1: '(Notes)', 2: '(ToDo)', 3: '(Unused)'}.get(t['scType'], '')}".split()))
        return out
    n = lambda s: ' '.join(s.split())
    for att, coll, lab in (('scnPerChr', 'characters', 'Character'), ('scnPerLoc', 'locations', 'Location'), ('scnPerItm', 'items', 'Item')):
        for e in spec[coll]:
            if x[att][e['id']]:
                exp.append((n(f"Scenes with {lab} {e['title'] or ''}:"), scl(x[att][e['id']])))
    for t, ids in x['scnPerTag'].items():
        exp.append((n(f'Scenes tagged {t}:'), scl(ids)))
    for att, coll, lab in (('chrPerTag', 'characters', 'Characters'), ('locPerTag', 'locations', 'Locations'), ('itmPerTag', 'items', 'Items')):
        el = {e['id']: e for e in spec[coll]}
        for t, ids in x[att].items():
            exp.append((n(f'{lab} tagged {t}:'), [n(f"{el[i]['title'] or ''} {(el[i].get('fullName') or '') if coll == 'characters' else ''}") for i in ids]))
    k = lambda l: sorted(([a.replace(' :', ':'), b] for a, b in l), key=str)
    dd = diff(k(exp), k(secs), 'document')
    need(dd is None, f'cross reference document: {dd}')


CASES = [('generate_xref', g, c, 250), ('document', g, c_doc, 80)]
