"""C16: languages in the text, the document locale, and the project variables."""
import re
from .common import *
from . import gen

LT = ['[lang=en-AU]', '[/lang=en-AU]', '[lang=de]', '[/lang=de]', '[lang=]', '[lang=fr-CA]', 'x', ' ', '\n', '[i]', '[/i]', 'lang=xx', '[lang', '[lang=es', ']', '[[lang=pt-BR]]', '[LANG=en]', '[lang=zxx]', '[lang=DE]', '[lang=fr-ca]', '[lang=de-DE]', '[b][lang=en-GB]']


def g(r):
    return {'texts': [r.choice([None, '', ''.join(r.choice(LT) for __ in range(r.randint(0, 8)))]) for __ in range(r.randint(0, 4))], 'loc': r.choice([None, ('en', 'AU'), ('de', None), ('fr', 'CA'), ('zxx', 'none')])}


def langs(text):
    out = []
    i = 0
    while True:
        i = text.find('[lang=', i)
        if i < 0:
            return out
        j = i + 6
        while j < len(text) and text[j] not in ']\n':
            j += 1
        if j < len(text) and text[j] == ']':
            out.append(text[i + 6:j])
            i = j + 1
        else:
            i += 1


def c(case):
    from pywriter.model.novel import Novel
    from pywriter.model.scene import Scene
    nv = Novel()
    if case.get('loc'):
        nv.languageCode, nv.countryCode = case['loc']
    exp = []
    for k, t in enumerate(case['texts']):
        s = Scene()
        if t is not None:
            s.sceneContent = t
        nv.scenes[str(k)] = s
        for l in langs(t or ''):
            if l not in exp:
                exp.append(l)
    for prev in (None, ['old'], list(exp)):
        nv.languages = prev
        nv.get_languages()
        need(nv.languages == exp, f'languages {nv.languages}, expected {exp}')


CODES = ['en', 'de', 'EN', 'zxx', 'none', '', None, 'e', 'eng', 'US', 'us', 'D', 12, 'xx', '??']


def g_loc(r):
    return {'lng': r.choice(CODES), 'ctr': r.choice(CODES), 'sys': r.choice(['', '', 'de_AT', 'C', 'none'])}


def c_loc(case):
    import locale
    from pywriter.model.novel import Novel
    nv = Novel()
    nv.languageCode, nv.countryCode = case['lng'], case['ctr']
    other = [k for k in vars(nv)]
    before = {k: copy.deepcopy(v) for k, v in vars(nv).items()}
    sysl = tuple(locale.getlocale()[0].split('_'))
    keep = locale.getlocale, locale.getdefaultlocale
    try:
        if case.get('sys'):
            loc = (None, None) if case['sys'] == 'none' else (case['sys'], 'UTF-8')
            locale.getlocale = lambda *a: loc
            locale.getdefaultlocale = lambda *a: loc
            sysl = tuple(case['sys'].split('_')) if '_' in case['sys'] else ('zxx', 'none')
        nv.check_locale()
    finally:
        locale.getlocale, locale.getdefaultlocale = keep
    l, ct = case['lng'], case['ctr']
    if not l:
        exp = sysl
    elif isinstance(l, str) and isinstance(ct, str) and len(l) == 2 and len(ct) == 2:
        exp = (l, ct)
    else:
        exp = ('zxx', 'none')
    need((nv.languageCode, nv.countryCode) == exp, f'locale {(l, ct)} became {(nv.languageCode, nv.countryCode)}, expected {exp}')
    for k in before:
        if k not in ('languageCode', 'countryCode'):
            need(getattr(nv, k) == before[k], f'check_locale changed {k}')
    nv.check_locale()
    need((nv.languageCode, nv.countryCode) == exp, 'checking the locale twice changes it')


def g_vars(r):
    return {'old': [[r.choice(['Language', 'Country', 'lang=de-DE', '/lang=de-DE', 'foreign', 'lang=xx']), r.choice(['a', 'de', 'DE', 'US', '', None])] for __ in range(r.randint(0, 5))],
            'lng': r.choice(['en', 'de', None, 'eng']), 'ctr': r.choice(['US', 'none', None]),
            'texts': [r.choice(['x', '[lang=de-DE]x[/lang=de-DE] [lang=fr-FR]y[/lang=fr-FR]', '[lang=de-DE]x[/lang=de-DE][lang=de-DE]x[/lang=de-DE]', '[lang=ru]y[/lang=ru]'])],
            'preset': r.choice([True, False]), 'twice': r.choice([True, False])}


def c_vars(case):
    import locale
    import xml.etree.ElementTree as ET
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    seen = []
    old = [o for o in case['old'] if not (o[0] in seen or seen.append(o[0]))]
    with scratch() as d:
        p = f'{d}/p.yw7'
        pv = ''.join(f'<PROJECTVAR><ID>{i}</ID><Title>{t}</Title>{"" if v is None else f"<Desc>{v}</Desc>"}</PROJECTVAR>' for i, (t, v) in enumerate(old, 3))
        with open(p, 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7><PROJECT><Title>t</Title></PROJECT><LOCATIONS/><ITEMS/><CHARACTERS/>'
                    + (f'<PROJECTVARS>{pv}</PROJECTVARS>' if old else '') +
                    f'<SCENES><SCENE><ID>1</ID><Title>s</Title><SceneContent><![CDATA[{case["texts"][0]}]]></SceneContent></SCENE></SCENES>'
                    '<CHAPTERS><CHAPTER><ID>1</ID><Title>c</Title><Scenes><ScID>1</ScID></Scenes></CHAPTER></CHAPTERS></YWRITER7>')
        y = Yw7File(p)
        y.novel = Novel()
        y.read()
        od = dict(old)
        need((y.novel.languageCode or '') == (od.get('Language') or ''), f"language read as {y.novel.languageCode!r}, file has {od.get('Language')!r}")
        need((y.novel.countryCode or '') == (od.get('Country') or ''), f"country read as {y.novel.countryCode!r}, file has {od.get('Country')!r}")
        if case['preset']:
            y.novel.languageCode, y.novel.countryCode = case['lng'], case['ctr']
        y.novel.check_locale()
        y.novel.get_languages()
        l, ct = y.novel.languageCode, y.novel.countryCode
        lg = list(y.novel.languages)
        y.write()
        if case['twice']:
            y.write()
        root = ET.parse(p).getroot()
        got = [(v.findtext('Title'), v.findtext('Desc') or '') for v in root.find('PROJECTVARS')]
        cnt = {}
        for t, v in got:
            cnt.setdefault(t, []).append(v)
        need(cnt.get('Language') == [l], f"language variables {cnt.get('Language')}, expected exactly {l!r}")
        need(cnt.get('Country') == [ct], f"country variables {cnt.get('Country')}, expected exactly {ct!r}")
        for x in lg:
            need(len(cnt.get(f'lang={x}', [])) == 1 and len(cnt.get(f'/lang={x}', [])) == 1, f'language {x}: variables {sorted(cnt)}')
            if f'lang={x}' not in od:
                need(cnt[f'lang={x}'] == [f'<HTM <SPAN LANG="{x}"> /HTM>'], f"variable lang={x} is {cnt[f'lang={x}']}")
            if f'/lang={x}' not in od:
                need(cnt[f'/lang={x}'] == ['<HTM </SPAN> /HTM>'], f"variable /lang={x} is {cnt[f'/lang={x}']}")
        allowed = {'Language', 'Country'} | set(od) | {f'lang={x}' for x in lg} | {f'/lang={x}' for x in lg}
        need(set(cnt) <= allowed, f'unexpected project variables {set(cnt) - allowed}')
        for t, v in old:
            if t == 'foreign':
                need(cnt.get(t) == [v or ''], f'foreign variable {t} changed to {cnt.get(t)}')


CASES = [('get_languages', g, c, 400), ('check_locale', g_loc, c_loc, 150), ('project variables', g_vars, c_vars, 80)]
