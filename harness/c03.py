"""C03: any text survives the .yw7 file, and the file stays well-formed."""
import os, copy
import xml.etree.ElementTree as ET
from .common import *
from . import gen
from .c01 import read_new, write_spec, want_scene

PIECES = gen.NASTY + ['a', 'B c', ' ', '  ', '\n', '\n\n', '&#x26;', '&nbsp', '&notit;', '&ampamp;', '&amp;amp;', 'x|y', ']]', '[[', ']]>', 'a]]>b', ']]&gt;', '<i', '/>', '<!--', '-->', '<?', '?>',
                      '[i]', '[/i]', '[b]x[/b]', '/*', '*/', '<HTM <b> /HTM>', '<RTFBRK>', '\u2028', '\x85', '\x7f', 'é', '\ufeff', '\U0001f600', '<Conflict>', '<SceneContent>', '</SceneContent>', '<CHAPTERS />', '[CDATA[', '<![CDATA[ ', '&lt', '&gt;', '&apos;', '&lang=', '<Desc />']


def text(r):
    s = ''.join(r.choice(PIECES) for __ in range(r.randint(1, 8)))
    s = s 
    lines = s.split('\n')
    while lines and not lines[0].strip():
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    s = '\n'.join(lines)
    s = s.strip('\n')
    return s if s.strip() else 'x'


PRJ = ['title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4']
SCT = ['title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'image', 'sceneContent', 'field1', 'field2', 'field3', 'field4', 'scnArcs']


def gen_texts(r):
    c = {'prj': {a: text(r) for a in PRJ}, 'sc': {a: text(r) for a in SCT}, 'ch': {a: text(r) for a in BE},
         'cr': {a: text(r) for a in ['title', 'desc', 'image', 'aka', 'notes', 'bio', 'goals', 'fullName']},
         'lc': {a: text(r) for a in ['title', 'desc', 'image', 'aka']}, 'it': {a: text(r) for a in ['title', 'desc', 'image', 'aka']},
         'pn': {a: text(r) for a in BE},
         'kw': {a: text(r) for a in ['Field_Link', 'Field_BirthDate', 'Field_DeathDate']},
         'tags': [t for t in {text(r).replace(';', '').strip() for __ in range(3)} if t], 'cycles': r.randint(1, 3)}
    c['tags'].sort()
    if c['ch']['title'].startswith('@'):
        c['ch']['title'] = 'x' + c['ch']['title']
    return c


def check_texts(case):
    from pywriter.yw.yw7_file import Yw7File
    n0 = {a: None for a in NV_ATTRS}
    n0.update(case['prj'])
    n0['languageCode'], n0['countryCode'] = 'en', 'US'
    kw = case['kw']
    spec = {'novel': n0,
            'scenes': [dict(case['sc'], id='1', scType=0, status=2, tags=case['tags'])],
            'chapters': [dict(case['ch'], id='1', chLevel=0, chType=0, srtScenes=['1'])],
            'characters': [dict(case['cr'], id='1', tags=case['tags'], kwVar=dict(kw))],
            'locations': [dict(case['lc'], id='1', tags=case['tags'], kwVar={'Field_Link': kw['Field_Link']})],
            'items': [dict(case['it'], id='1', tags=case['tags'], kwVar={'Field_Link': kw['Field_Link']})],
            'projectNotes': [dict(case['pn'], id='1')]}
    with scratch() as d:
        p = os.path.join(d, 'p.yw7')
        write_spec(spec, p)
        first = None
        for k in range(case['cycles'] + 1):
            raw = read_bytes(p)
            try:
                ET.fromstring(raw)
            except ET.ParseError as ex:
                raise Fail(f'cycle {k}: file not well-formed: {ex}')
            f = read_new(p)
            nv = f.novel
            for o, ref, nm in [(nv, case['prj'], 'project'), (nv.scenes['1'], case['sc'], 'scene'), (nv.chapters['1'], case['ch'], 'chapter'),
                               (nv.characters['1'], case['cr'], 'character'), (nv.locations['1'], case['lc'], 'location'),
                               (nv.items['1'], case['it'], 'item'), (nv.projectNotes['1'], case['pn'], 'project note')]:
                for a, v in ref.items():
                    need(getattr(o, a) == v, f'cycle {k}: {nm}.{a}: wrote {v!r}, read {getattr(o, a)!r}')
                if nm in ('scene', 'character', 'location', 'item'):
                    need((o.tags or []) == case['tags'], f'cycle {k}: {nm}.tags {o.tags!r} != {case["tags"]!r}')
            for o, keys in ((nv.characters['1'], kw), (nv.locations['1'], ['Field_Link']), (nv.items['1'], ['Field_Link'])):
                for x in keys:
                    need(o.kwVar[x] == kw[x], f'cycle {k}: custom field {x}: {o.kwVar[x]!r} != {kw[x]!r}')
            if k == 1:
                first = raw
            if k > 1:
                need(raw == first, f'cycle {k}: the file changes although nothing was changed')
            f.write()


CTRL = ['\x00', '\x01', '\x08', '\x0b', '\x0c', '\x0e', '\x1f', '\x07']


def gen_ctrl(r):
    return {'text': ''.join(r.choice(CTRL + ['|', 'a', ' ', 'b', '-', '\t', 'é', '\x7f']) for __ in range(r.randint(1, 12))), 'utf16': r.random() < 0.3}


def check_ctrl(case):
    """Files with control characters can be read; only the control characters vanish."""
    t = 'x' + case['text'] + 'x'
    xml = ('<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7><PROJECT><Ver>7</Ver><Title>t</Title></PROJECT><LOCATIONS></LOCATIONS><ITEMS></ITEMS><CHARACTERS></CHARACTERS>'
           f'<SCENES><SCENE><ID>1</ID><SceneContent><![CDATA[{t}]]></SceneContent></SCENE></SCENES><CHAPTERS></CHAPTERS></YWRITER7>')
    with scratch() as d:
        p = os.path.join(d, 'p.yw7')
        with open(p, 'wb') as f:
            f.write(xml.encode('utf-16' if case['utf16'] else 'utf-8'))
        f = read_new(p)
        want = ''.join(c for c in t if c >= ' ' or c in '\t\n')
        got = f.novel.scenes['1'].sceneContent
        need(got == want, f'read {got!r}, want {want!r}')


CASES = [('all text attributes', gen_texts, check_texts, 120), ('control characters', gen_ctrl, check_ctrl, 80)]
