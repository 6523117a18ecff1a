"""C08: newly generated IDs are unused and minimal; nothing is replaced."""
from .common import *
from . import gen


def g_ids(r):
    n = r.randint(0, 60)
    mode = r.choice(['dense', 'gap', 'sparse', 'odd', 'big'])
    if mode == 'dense':
        ids = [str(i) for i in range(1, n + 1)]
    elif mode == 'gap':
        ids = [str(i) for i in range(1, n + 1) if r.random() < 0.85]
    elif mode == 'sparse':
        ids = [str(r.randint(1, 400)) for __ in range(n)]
    elif mode == 'big':
        ids = [str(i) for i in range(1, 300 + n) if i != 255 + n // 2 or r.random() < 0.5]
    else:
        ids = [str(i) for i in range(0, n)] + ['01', '002', ' 1', 'x', '', '1.0', '-1']
    r.shuffle(ids)
    return {'ids': ids, 'kind': r.choice(['dict', 'list', 'set', 'keys'])}


def c_ids(case):
    from pywriter.model.id_generator import create_id
    ids = case['ids']
    objs = {i: object() for i in ids}
    arg = {'dict': objs, 'list': list(ids), 'set': set(ids), 'keys': objs.keys()}[case['kind']]
    before = dict(objs)
    res = create_id(arg)
    i = 1
    while str(i) in set(ids):
        i += 1
    need(res == str(i), f'create_id returned {res!r}, smallest unused is {str(i)!r}')
    need(isinstance(res, str), f'create_id returned {type(res)}')
    need(dict(objs) == before and list(objs) == list(before), 'create_id changed its argument')


def g_split(r):
    spec = gen.novel(r, n_ch=r.randint(1, 4), n_sc=r.randint(1, 8), nasty=0.1, content=lambda r: '\n'.join(
        r.choice(['text', '### s', '## c', '# p', 'more', '']) for __ in range(r.randint(0, 6))))
    return {'spec': spec, 'unsorted': r.choice([[], [], [0], [1], [2], [1, 2]])}


class F:
    pass


def c_split(case):
    from pywriter.model.splitter import Splitter
    from pywriter.model.scene import Scene
    nv = build_novel(case['spec'])
    f = F()
    f.novel = nv
    # Chapters and scenes that belong to no sorted list have their IDs, too.
    for k, i in enumerate(list(nv.srtChapters)):
        if k % 3 in case.get('unsorted', []):
            nv.srtChapters.remove(i)
    for i in nv.srtChapters:
        srt = nv.chapters[i].srtScenes
        for k, s in enumerate(list(srt)):
            if k % 3 in case.get('unsorted', []):
                srt.remove(s)
    for s in case['spec'].get('empty_scenes', []):
        nv.scenes[s] = Scene()
    sc, ch = dict(nv.scenes), dict(nv.chapters)
    Splitter().split_scenes(f)
    check_added(sc, nv.scenes, 'scene')
    check_added(ch, nv.chapters, 'chapter')


def check_added(before, after, what):
    for i, o in before.items():
        need(after.get(i) is o, f'existing {what} {i} was replaced or removed')
    new = [i for i in after if i not in before]
    used = set(before)
    for i in new:
        k = 1
        while str(k) in used:
            k += 1
        need(i == str(k), f'new {what} has the ID {i!r}, smallest unused is {str(k)!r}')
        used.add(i)


def g_prjvars(r):
    used = sorted({r.randint(1, 12) for __ in range(r.randint(0, 9))})
    return {'ids': used, 'locale': r.choice([['en', 'US'], ['de', 'DE']]), 'langs': r.sample(['fr-FR', 'es-ES', 'ru', 'it-IT'], r.randint(0, 3))}


def c_prjvars(case):
    """Variables added to the project get unused IDs and replace no foreign variable."""
    import xml.etree.ElementTree as ET
    from pywriter.yw.yw7_file import Yw7File
    with scratch() as d:
        p = f'{d}/p.yw7'
        pv = ''.join(f'<PROJECTVAR><ID>{i}</ID><Title>v{i}</Title><Desc>d{i}</Desc></PROJECTVAR>' for i in case['ids'])
        txt = ' '.join(f'[lang={l}]x[/lang={l}]' for l in case['langs']) or 'x'
        xml = ('<YWRITER7><PROJECT><Title>t</Title></PROJECT><LOCATIONS/><ITEMS/><CHARACTERS/>'
               + (f'<PROJECTVARS>{pv}</PROJECTVARS>' if pv else '')
               + f'<SCENES><SCENE><ID>1</ID><Title>s</Title><SceneContent>{txt}</SceneContent></SCENE></SCENES>'
               '<CHAPTERS><CHAPTER><ID>1</ID><Title>c</Title><Scenes><ScID>1</ScID></Scenes></CHAPTER></CHAPTERS></YWRITER7>')
        with open(p, 'w', encoding='utf-8') as f:
            f.write('<?xml version="1.0" encoding="utf-8"?>\n' + xml)
        from pywriter.model.novel import Novel
        y = Yw7File(p)
        y.novel = Novel()
        y.read()
        y.novel.languageCode, y.novel.countryCode = case['locale']
        y.novel.get_languages()
        y.write()
        root = ET.parse(p).getroot()
        ids, titles = [], {}
        for v in root.find('PROJECTVARS'):
            i = v.find('ID').text
            need(i not in ids, f'project variable ID {i} used twice')
            ids.append(i)
            titles[i] = v.find('Title').text
        for i in case['ids']:
            need(titles.get(str(i)) == f'v{i}', f'foreign project variable {i} was replaced by {titles.get(str(i))!r}')
        used = set(str(i) for i in case['ids'])
        for i in ids:
            if i in used and titles[i].startswith('v'):
                continue
            k = 1
            while str(k) in used:
                k += 1
            need(i == str(k), f'new project variable {titles[i]!r} has the ID {i}, smallest unused is {k}')
            used.add(i)
        need(len(ids) == len(case['ids']) + 2 + 2 * len(case['langs']), f'wrong number of project variables {titles}')


def g_count(r):
    """Events of an imported text document: [(tag or None, text)]."""
    ev = []
    for __ in range(r.randint(1, 25)):
        ev.append([r.choice(['h1', 'h2', 'h2', 'h3', 'p', 'p', 'p', 'blockquote', 'div', 'em', 'title', 'li', 'ul', 'divider', 'comment']), r.choice(['text', 'T', '', ' ', '1', 'a b'])])
    return {'cls': r.choice(['OdtRImport', 'OdtROutline']), 'ev': ev}


def c_count(case):
    """Importers of new projects: each new chapter or scene has the smallest unused ID."""
    from pywriter.odt_r.odt_r_import import OdtRImport
    from pywriter.odt_r.odt_r_outline import OdtROutline
    from pywriter.model.novel import Novel
    o = {'OdtRImport': OdtRImport, 'OdtROutline': OdtROutline}[case['cls']]('/nowhere/x.odt')
    nv = o.novel = Novel()

    def do(f, *a):
        sc, ch = dict(nv.scenes), dict(nv.chapters)
        ls = list(nv.srtChapters)
        try:
            f(*a)
        except Exception:
            return False  # the import fails as a whole: see C07
        check_added(sc, nv.scenes, 'scene')
        check_added(ch, nv.chapters, 'chapter')
        need(nv.srtChapters[:len(ls)] == ls, f'chapters {ls} became {nv.srtChapters}')
        return True

    for tag, text in case['ev']:
        if tag == 'comment':
            ok = do(o.handle_comment, text)
        elif tag == 'divider':
            ok = do(o.handle_data, '* * *')
        else:
            ok = do(o.handle_starttag, tag, [('', '')]) and do(o.handle_data, text) and do(o.handle_endtag, tag)
        if not ok:
            return
    ids = [s for c in nv.srtChapters for s in nv.chapters[c].srtScenes]
    need(sorted(ids) == sorted(nv.scenes) and len(set(ids)) == len(ids), f'scenes {sorted(nv.scenes)}, listed are {ids}')
    need(sorted(nv.srtChapters) == sorted(nv.chapters), f'chapters {sorted(nv.chapters)}, listed are {nv.srtChapters}')


CASES = [('create_id', g_ids, c_ids, 300), ('splitting', g_split, c_split, 120), ('project variables', g_prjvars, c_prjvars, 60), ('importers of new projects', g_count, c_count, 300)]
