"""C04: rewriting a project keeps what PyWriter does not manage."""
import os, copy
import xml.etree.ElementTree as ET
from .common import *
from . import gen
from .c01 import read_new, write_spec, mutate, apply_spec, spec_of, compare

UNKNOWN = ['XVersion', 'Viewpoint', 'Prologue', 'ExportCond', 'TimeStamp', 'SceneLink', 'Pinned', 'Color', 'Zz', 'DateFmt', 'Locked', 'Plot', 'DescX', 'TitleX', 'StatusX', 'Daytime', 'Typ', 'Scene', 'Tag', 'Goalz', 'CharIDs']


def gen_case(r):
    spec = gen.novel(r, n_ch=r.randint(1, 4), n_sc=r.randint(1, 6), nasty=0.15)
    inj = []

    def ext():
        k = r.randint(0, 2)
        e = {'tag': r.choice(UNKNOWN), 'text': gen.line(r, 0.3) if k != 1 else None, 'kids': []}
        if k:
            e['kids'] = [{'tag': r.choice(UNKNOWN), 'text': gen.line(r, 0.3), 'kids': []} for __ in range(r.randint(1, 2))]
        return e
    targets = [['PROJECT', None]] + [['SCENE', s['id']] for s in spec['scenes']] + [['CHAPTER', c['id']] for c in spec['chapters']]
    for t in targets:
        if r.random() < 0.7:
            es = []
            for __ in range(r.randint(1, 3)):
                e = ext()
                if e['tag'] not in [x['tag'] for x in es] or r.random() < 0.3:
                    es.append(e)
            inj.append({'kind': t[0], 'id': t[1], 'where': 'self', 'pos': r.randint(0, 30), 'els': es})
        if r.random() < 0.5:
            inj.append({'kind': t[0], 'id': t[1], 'where': 'Fields', 'pos': r.randint(0, 3), 'els': [{'tag': 'Field_X' + r.choice('abc'), 'text': gen.line(r, 0.2), 'kids': []}]})
    pv = [{'title': r.choice(['MyVar', 'foo', 'Languages', 'lang', 'XCountry', '', None, gen.line(r, 0.2)]), 'desc': r.choice([gen.line(r, 0.2), gen.line(r, 0.2), '', None])} for __ in range(r.randint(0, 3))]
    root = [ext() for __ in range(r.randint(0, 2))]
    return {'spec': spec, 'inject': inj, 'pvars': pv, 'root': [e for e in root], 'mseed': r.randint(0, 10**9), 'unset': r.random() < 0.5}


def mk(e):
    x = ET.Element(e['tag'])
    x.text = e['text']
    for k in e['kids']:
        x.append(mk(k))
    return x


def canon(x):
    return (x.tag, (x.text or '').strip(), tuple(canon(k) for k in x))


def inject(case, p):
    tree = ET.parse(p)
    root = tree.getroot()
    for j in case['inject']:
        el = find(root, j['kind'], j['id'])
        if j['where'] == 'Fields':
            f = el.find('Fields')
            if f is None:
                f = ET.SubElement(el, 'Fields')
            el = f
        for e in j['els']:
            el.insert(min(j['pos'], len(el)) if j['kind'] == 'PROJECT' else max(1, min(j['pos'], len(el))) if j['where'] == 'self' else min(j['pos'], len(el)), mk(e))
    if case['pvars']:
        pv = root.find('PROJECTVARS')
        if pv is None:
            pv = ET.SubElement(root, 'PROJECTVARS')
        used = [x.find('ID').text for x in pv]
        n = 1
        for k, v in enumerate(case['pvars']):
            while str(n) in used:
                n += 2
            used.append(str(n))
            x = ET.Element('PROJECTVAR')
            ET.SubElement(x, 'ID').text = str(n)
            if v['title'] is not None:
                ET.SubElement(x, 'Title').text = v['title']
            if v['desc'] is not None:
                ET.SubElement(x, 'Desc').text = v['desc']
            if (k + len(v['title'] or '')) % 2 == 0:
                ET.SubElement(x, 'Tags').text = '0'
            pv.insert(k, x)
    for e in case['root']:
        root.append(mk(e))
    tree.write(p, encoding='utf-8', xml_declaration=True)


def find(root, kind, i):
    if kind == 'PROJECT':
        return root.find('PROJECT')
    for x in root.find(kind + 'S'):
        if x.find('ID').text == i:
            return x
    return None


SINGLE = {'SCENE': ['ID', 'Title', 'Desc', 'SceneContent', 'Unused', 'Fields', 'ExportCondSpecific', 'ExportWhenRTF', 'Status', 'Notes', 'Tags', 'Field1', 'Field2', 'Field3', 'Field4',
                    'AppendToPrev', 'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute', 'LastsDays', 'LastsHours', 'LastsMinutes', 'ReactionScene', 'SubPlot', 'Goal', 'Conflict',
                    'Outcome', 'ImageFile', 'Characters', 'Locations', 'Items'],
          'CHAPTER': ['ID', 'Title', 'Desc', 'Unused', 'Fields', 'SectionStart', 'Type', 'ChapterType', 'Scenes'],
          'PROJECT': ['Ver', 'Title', 'Desc', 'AuthorName', 'Bio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordCountStart', 'WordTarget', 'Fields']}


def check_case(case):
    with scratch() as d:
        p = os.path.join(d, 'p.yw7')
        write_spec(case['spec'], p)
        inject(case, p)
        before = ET.parse(p).getroot()
        f = read_new(p)
        stored = spec_of(f.novel)
        m = mutate(rnd(case['mseed']), stored)
        if case['unset']:
            for e in m['scenes']:
                for a in SC_TEXT + ['doNotExport', 'status', 'tags', 'date', 'time', 'day', 'sceneContent', 'scnArcs', 'scnMode']:
                    e[a] = None
            for e in m['chapters']:
                e['title'] = e['desc'] = None
            for a in NV_ATTRS:
                if a not in ('languageCode', 'countryCode'):
                    m['novel'][a] = None
        apply_spec(f.novel, m)
        if case['unset']:
            for sc in f.novel.scenes.values():
                sc.kwVar['Field_SceneArcs'] = sc.kwVar.get('Field_SceneArcs')
        f.write()
        after = ET.parse(p).getroot()
        need(after.tag == 'YWRITER7', 'root tag')
        for e in case['root']:
            need(canon(mk(e)) in [canon(x) for x in after], f'root element {e} lost')
        for sec in ('PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'SCENES', 'CHAPTERS'):
            need(len(after.findall(sec)) == 1, f'section {sec} occurs {len(after.findall(sec))} times')
        need(len(after.findall('PROJECTNOTES')) <= 1 and len(after.findall('PROJECTVARS')) <= 1, 'double section')
        alive = {('SCENE', e['id']) for e in m['scenes']} | {('CHAPTER', e['id']) for e in m['chapters']} | {('PROJECT', None)}
        for j in case['inject']:
            if (j['kind'], j['id']) not in alive:
                continue
            el = find(after, j['kind'], j['id'])
            need(el is not None, f'{j["kind"]} {j["id"]} lost')
            if j['where'] == 'Fields':
                el = el.find('Fields')
                need(el is not None, f'{j["kind"]} {j["id"]}: <Fields> lost')
            have = [canon(x) for x in el]
            for e in j['els']:
                need(have.count(canon(mk(e))) >= 1, f'{j["kind"]} {j["id"]}/{j["where"]}: element {e} lost; have {have}')
            want = sorted(canon(mk(e)) for k in case['inject'] if (k['kind'], k['id'], k['where']) == (j['kind'], j['id'], j['where']) for e in k['els'])
            got = sorted(c for c in have if c[0] in UNKNOWN or c[0].startswith('Field_X'))
            need(want == got, f'{j["kind"]} {j["id"]}: unmanaged elements {got}, want {want}')
        for kind, tags in SINGLE.items():
            els = [after.find('PROJECT')] if kind == 'PROJECT' else list(after.find(kind + 'S'))
            for x in els:
                for t in tags:
                    need(len(x.findall(t)) <= 1, f'{kind}: <{t}> occurs {len(x.findall(t))} times')
                fx = x.find('Fields')
                if fx is not None:
                    ts = [c.tag for c in fx]
                    need(len(ts) == len(set(ts)), f'{kind}: double custom field {ts}')
        pv = after.find('PROJECTVARS')
        have = [tuple(x.findtext(t) for t in ('Title', 'Desc', 'ID')) for x in (pv if pv is not None else [])]
        bids = {tuple(x.findtext(t) for t in ('Title', 'Desc', 'ID')) for x in (before.find('PROJECTVARS') if before.find('PROJECTVARS') is not None else [])}
        for t, dsc, i in bids:
            if t in ('Language', 'Country'):
                need([1 for h in have if h[0] == t and h[2] == i], f'project variable {t} lost')
            else:
                need((t, dsc, i) in have, f'project variable {t!r} lost or changed; have {have}')
        need(len({h[2] for h in have}) == len(have), f'double project variable IDs {have}')
        compare(m, read_new(p).novel, stored, order=False)


CASES = [('foreign content', gen_case, check_case, 80)]
