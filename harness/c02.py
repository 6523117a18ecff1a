"""C02: scene and chapter types keep their meaning in the .yw7 encoding."""
import os, itertools
import xml.etree.ElementTree as ET
from .common import *
from . import gen
from .c01 import read_new, write_spec

# documented decoding tables
def dec_scene(unused, fields):
    """fields: list of Field_SceneType texts (None: absent), one per <Fields>."""
    t = 0
    for f in fields:
        if f == '1':
            t = 1
        elif f == '2':
            t = 2
    if unused and t == 0:
        t = 3
    return t


def dec_chapter(unused, typ, chtyp):
    if chtyp is not None:
        if chtyp == '2':
            return 2
        if chtyp == '1':
            return 1
        return 3 if unused else 0
    if typ is not None:
        if typ == '1':
            return 1
        return 3 if unused else 0
    return None  # not documented for files without <Type>


ENC_SC = {0: (False, None), 1: (True, '1'), 2: (True, '2'), 3: (True, '0')}
ENC_CH = {0: (False, '0', '0'), 1: (True, '1', '1'), 2: (True, '1', '2'), 3: (True, '1', '0')}


def gen_file(r):
    chs, scs = [], []
    n = r.randint(1, 4)
    sid = 0
    for c in range(n):
        sc = []
        for k in range(r.randint(0, 3)):
            sid += 1
            nf = r.randint(0, 2)
            fields = [r.choice([None, '0', '1', '2']) for __ in range(nf if r.random() < 0.1 else min(nf, 1))]
            scs.append({'id': str(sid), 'unused': r.choice([True, False]), 'fields': fields,
                        'extra': r.choice([True, False])})
            sc.append(str(sid))
        typ = r.choice(['0', '1'])
        chtyp = r.choice([None, '0', '1', '2'])
        chs.append({'id': str(c + 1), 'unused': r.choice([True, False]), 'typ': typ, 'chtyp': chtyp, 'scenes': sc,
                    'section': r.choice([True, False]), 'more': r.choice([[], [], ['Field_IsTrash'], ['Field_SuppressChapterTitle'], ['Field_SuppressChapterBreak', 'Field_IsTrash']])})
    new = {'sc': {s['id']: r.choice([None, 0, 1, 2, 3]) for s in scs}, 'ch': {c['id']: r.choice([None, 0, 0, 1, 2, 3]) for c in chs}}
    return {'chapters': chs, 'scenes': scs, 'new': new}


def make_xml(case, path):
    root = ET.Element('YWRITER7')
    ET.SubElement(ET.SubElement(root, 'PROJECT'), 'Ver').text = '7'
    for t in ('LOCATIONS', 'ITEMS', 'CHARACTERS'):
        ET.SubElement(root, t)
    xs = ET.SubElement(root, 'SCENES')
    for s in case['scenes']:
        x = ET.SubElement(xs, 'SCENE')
        ET.SubElement(x, 'ID').text = s['id']
        if s['unused']:
            ET.SubElement(x, 'Unused').text = '-1'
        for f in s['fields']:
            fx = ET.SubElement(x, 'Fields')
            if s['extra']:
                ET.SubElement(fx, 'Field_Other').text = 'keep'
            if f is not None:
                ET.SubElement(fx, 'Field_SceneType').text = f
        ET.SubElement(x, 'SceneContent').text = 'text'
    xc = ET.SubElement(root, 'CHAPTERS')
    for c in case['chapters']:
        x = ET.SubElement(xc, 'CHAPTER')
        ET.SubElement(x, 'ID').text = c['id']
        if c['unused']:
            ET.SubElement(x, 'Unused').text = '-1'
        if c['more']:
            fx = ET.SubElement(x, 'Fields')
            for t in c['more']:
                ET.SubElement(fx, t).text = '1'
        if c['section']:
            ET.SubElement(x, 'SectionStart').text = '-1'
        if c['typ'] is not None:
            ET.SubElement(x, 'Type').text = c['typ']
        if c['chtyp'] is not None:
            ET.SubElement(x, 'ChapterType').text = c['chtyp']
        l = ET.SubElement(x, 'Scenes')
        for s in c['scenes']:
            ET.SubElement(l, 'ScID').text = s
    ET.ElementTree(root).write(path, encoding='utf-8', xml_declaration=True)


def check_file(case):
    with scratch() as d:
        p = os.path.join(d, 'p.yw7')
        make_xml(case, p)
        f = read_new(p)
        scs = {s['id']: s for s in case['scenes']}
        for c in case['chapters']:
            ct = dec_chapter(c['unused'], c['typ'], c['chtyp'])
            need(f.novel.chapters[c['id']].chType == ct, f'chapter {c} read as {f.novel.chapters[c["id"]].chType}, want {ct}')
            for s in c['scenes']:
                st = ct if ct else dec_scene(scs[s]['unused'], scs[s]['fields'])
                need(f.novel.scenes[s].scType == st, f'scene {scs[s]} in chapter type {ct} read as {f.novel.scenes[s].scType}, want {st}')
        if any(len(s['fields']) > 1 for s in case['scenes']):
            return
        # change the types, write, inspect the encoding, read again
        for i, t in case['new']['sc'].items():
            f.novel.scenes[i].scType = t
        for i, t in case['new']['ch'].items():
            f.novel.chapters[i].chType = t
        f.write()
        root = ET.parse(p).getroot()
        for x in root.find('SCENES'):
            i = x.find('ID').text
            t = case['new']['sc'][i] or 0
            u, ft = ENC_SC[t]
            need(len(x.findall('Unused')) == int(u), f'scene {i} type {t}: <Unused> occurs {len(x.findall("Unused"))} times')
            fl = [e.text for g in x.findall('Fields') for e in g.findall('Field_SceneType')]
            need(fl == ([ft] if ft else []), f'scene {i} type {t}: Field_SceneType {fl}')
            if scs[i]['fields'] and scs[i]['extra']:
                need([e.text for g in x.findall('Fields') for e in g.findall('Field_Other')] == ['keep'], f'scene {i}: other field lost')
        for x in root.find('CHAPTERS'):
            i = x.find('ID').text
            t = case['new']['ch'][i] or 0
            got = (x.find('Unused') is not None, x.find('Type').text, x.find('ChapterType').text)
            need(got == ENC_CH[t], f'chapter {i} type {t}: encoding {got}')
            for tag in ('Unused', 'Type', 'ChapterType'):
                need(len(x.findall(tag)) <= 1, f'chapter {i}: double <{tag}>')
        g = read_new(p)
        for c in case['chapters']:
            ct = case['new']['ch'][c['id']] or 0
            need(g.novel.chapters[c['id']].chType == ct, f'chapter {c["id"]} reread as {g.novel.chapters[c["id"]].chType}, want {ct}')
            for s in c['scenes']:
                st = ct if ct else (case['new']['sc'][s] or 0)
                need(g.novel.scenes[s].scType == st, f'scene {s} reread as {g.novel.scenes[s].scType}, want {st}')


CASES = [('type encodings', gen_file, check_file, 150)]
