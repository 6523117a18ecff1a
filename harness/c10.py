"""C10: which chapters, scenes and elements an export contains, in order, and how they are numbered."""
from .common import *
from . import gen

CH_KINDS = ['part', 'chapter', 'notesPart', 'notesChapter', 'todoPart', 'todoChapter', 'unusedChapter', 'notExportedChapter']
SC_KINDS = ['scene', 'notesScene', 'todoScene', 'unusedScene', 'notExportedScene']
END_KINDS = ['chapterEnd', 'notesChapterEnd', 'todoChapterEnd', 'unusedChapterEnd', 'notExportedChapterEnd']


def g(r):
    spec = gen.novel(r, nasty=0.05, n_ch=r.randint(0, 6), content=lambda r: r.choice(
        ['one two', 'three', '<HTML>x', '<TEX> y', 'a -- b', ' <HTML>kept', '<HTM x /HTM>', 'word ' * 3]))
    for s in spec['scenes']:
        if r.random() < 0.3:
            s['doNotExport'] = True
        if r.random() < 0.4:
            s['appendToPrev'] = True
    for c in spec['chapters']:
        if r.random() < 0.15:
            for s in spec['scenes']:
                if s['id'] in c['srtScenes']:
                    s['doNotExport'] = True
        elif r.random() < 0.15:
            # scenes of other types than the chapter
            for s in spec['scenes']:
                if s['id'] in c['srtScenes']:
                    s['scType'] = r.choice([0, 0, 1, 2, 3])
    t = {k: r.random() < 0.6 for k in CH_KINDS + SC_KINDS + END_KINDS + ['first', 'appended', 'divider', 'heading', 'character', 'location', 'item', 'note']}
    t['scene'] = True
    t['chapter'] = r.random() < 0.9
    f = {k: r.random() < 0.25 for k in ('sc', 'ch', 'cr', 'lc', 'it')}
    return {'spec': spec, 'tpl': t, 'filter': f}


def ch_kind(c, sc, tpl):
    """-> (kind or None, counted)"""
    part = c['chLevel'] == 1
    if c['chType'] == 2:
        return ('todoPart' if part else 'todoChapter'), False, 'todoChapterEnd'
    if c['chType'] == 1:
        return ('notesPart' if part else 'notesChapter'), False, 'notesChapterEnd'
    if c['chType'] == 3:
        return 'unusedChapter', False, 'unusedChapterEnd'
    if c['srtScenes'] and all(sc[i]['doNotExport'] for i in c['srtScenes']):
        return 'notExportedChapter', False, 'notExportedChapterEnd'
    if part and tpl['part']:
        return 'part', False, 'chapterEnd'
    return 'chapter', True, 'chapterEnd'


def sc_kind(s, c, chkind):
    if s['scType'] == 2:
        return 'todoScene'
    if s['scType'] == 1:
        return 'notesScene'
    if s['scType'] == 3 or c['chType'] == 3:
        return 'unusedScene'
    if s['doNotExport'] or chkind == 'notExportedChapter':
        return 'notExportedScene'
    if (s['sceneContent'] or '').startswith(('<HTML>', '<TEX>')):
        return None
    return 'scene'


def odd(i):
    return int(i) % 2 == 1


def c(case):
    from pywriter.file.file_export import FileExport
    from pywriter.file.filter import Filter
    spec, tpl, flt = case['spec'], case['tpl'], case['filter']

    class X(FileExport):
        SUFFIX = '_x'
        EXTENSION = '.txt'
        DESCRIPTION = 'x'
    for k in CH_KINDS:
        if tpl[k]:
            setattr(X, f'_{k}Template', f'C|{k}|$ID|$ChapterNumber|$Title\n')
    for k in SC_KINDS:
        if tpl[k]:
            setattr(X, f'_{k}Template', f'S|{k}|$ID|$SceneNumber|$WordCount|$WordsTotal|$LetterCount|$LettersTotal|$Title\n')
    for k in END_KINDS:
        if tpl[k]:
            setattr(X, f'_{k}Template', f'E|{k}|$ID\n')
    if tpl['first']:
        X._firstSceneTemplate = 'S|first|$ID|$SceneNumber|$WordCount|$WordsTotal|$LetterCount|$LettersTotal|$Title\n'
    if tpl['appended']:
        X._appendedSceneTemplate = 'S|appended|$ID|$SceneNumber|$WordCount|$WordsTotal|$LetterCount|$LettersTotal|$Title\n'
    if tpl['divider']:
        X._sceneDivider = 'D\n'
    for k in ('character', 'location', 'item'):
        if tpl[k]:
            setattr(X, f'_{k}Template', f'X|{k}|$ID|$Title\n')
        if tpl['heading']:
            setattr(X, f'_{k}SectionHeading', f'H|{k}\n')
    if tpl['note']:
        X._projectNoteTemplate = 'X|note|$ID|$Title\n'
    X._fileHeader = 'BEGIN|$Title\n'
    X._fileFooter = 'END\n'

    class Odd(Filter):
        def accept(self, source, eId):
            return odd(eId)
    nv = build_novel(spec)
    before = dump_novel(nv)
    with scratch() as d:
        x = X(f'{d}/p_x.txt')
        x.novel = nv
        for k, a in (('sc', '_sceneFilter'), ('ch', '_chapterFilter'), ('cr', '_characterFilter'), ('lc', '_locationFilter'), ('it', '_itemFilter')):
            if flt[k]:
                setattr(x, a, Odd())
        x.write()
        with open(f'{d}/p_x.txt', encoding='utf-8') as f:
            got = f.read().split('\n')
    dd = diff(before, dump_novel(nv))
    need(dd is None, f'the export changed the novel{dd}')
    sc = {s['id']: s for s in spec['scenes']}
    T = lambda e: e['title'] or ''
    exp = [f"BEGIN|{spec['novel']['title'] or ''}"]
    cn = sn = wt = lt = 0
    for ch in spec['chapters']:
        if flt['ch'] and not odd(ch['id']):
            continue
        k, counted, end = ch_kind(ch, sc, tpl)
        if counted:
            cn += 1
        if tpl[k]:
            exp.append(f"C|{k}|{ch['id']}|{cn if counted else ''}|{T(ch)}")
        first = True
        for i in ch['srtScenes']:
            if flt['sc'] and not odd(i):
                continue
            s = sc[i]
            sk = sc_kind(s, ch, k)
            if sk is None or not tpl[sk]:
                continue
            num = ''
            o = nv.scenes[i]
            if sk == 'scene':
                sn += 1
                num = sn
                wt += o.wordCount
                lt += o.letterCount
            if not first and not s['appendToPrev'] and tpl['divider']:
                exp.append('D')
            name = sk
            if sk == 'scene' and not first and s['appendToPrev'] and tpl['appended']:
                name = 'appended'
            if first and tpl['first']:
                name = 'first'
            exp.append(f"S|{name}|{i}|{num}|{o.wordCount}|{wt}|{o.letterCount}|{lt}|{T(s)}")
            first = False
        if tpl[end]:
            exp.append(f"E|{end}|{ch['id']}")
    for coll, k, fl in (('characters', 'character', 'cr'), ('locations', 'location', 'lc'), ('items', 'item', 'it')):
        if tpl['heading']:
            exp.append(f'H|{k}')
        for e in spec[coll]:
            if flt[fl] and not odd(e['id']):
                continue
            if tpl[k]:
                exp.append(f"X|{k}|{e['id']}|{T(e)}")
    for e in spec['projectNotes']:
        if tpl['note']:
            exp.append(f"X|note|{e['id']}|{T(e)}")
    exp += ['END', '']
    dd = diff(exp, got, 'line')
    need(dd is None, f'export: {dd}')


def g_doc(r):
    return {'spec': g(r)['spec'], 'cls': r.choice(list(DOCS))}


DOCS = {
    'odt_w.odt_w_manuscript.OdtWManuscript': dict(ch={'chapter', 'part'}, sc={'scene'}),
    'odt_w.odt_w_scenedesc.OdtWSceneDesc': dict(ch={'chapter', 'part'}, sc={'scene'}),
    'odt_w.odt_w_chapterdesc.OdtWChapterDesc': dict(ch={'chapter'}, sc=set()),
    'odt_w.odt_w_partdesc.OdtWPartDesc': dict(ch={'part'}, sc=set()),
    'odt_w.odt_w_notes.OdtWNotes': dict(ch={'notesPart', 'notesChapter'}, sc={'notesScene'}),
    'odt_w.odt_w_todo.OdtWTodo': dict(ch={'todoPart', 'todoChapter'}, sc={'todoScene'}),
    'odt_w.odt_w_proof.OdtWProof': dict(ch=None, sc={'scene'}),
    'ods_w.ods_w_scenelist.OdsWSceneList': dict(ch=None, sc={'scene'}),
    'odt_w.odt_w_characters.OdtWCharacters': dict(el=('characters', 'CrID_desc:')),
    'odt_w.odt_w_locations.OdtWLocations': dict(el=('locations', 'LcID:')),
    'odt_w.odt_w_items.OdtWItems': dict(el=('items', 'ItID:')),
    'ods_w.ods_w_charlist.OdsWCharList': dict(el=('characters', 'CrID:')),
    'ods_w.ods_w_loclist.OdsWLocList': dict(el=('locations', 'LcID:')),
    'ods_w.ods_w_itemlist.OdsWItemList': dict(el=('items', 'ItID:')),
}


def c_doc(case):
    import importlib, re, zipfile
    import xml.etree.ElementTree as ET
    mod, cn = case['cls'].rsplit('.', 1)
    cls = getattr(importlib.import_module(f'pywriter.{mod}'), cn)
    k = DOCS[case['cls']]
    spec = case['spec']
    nv = build_novel(spec)
    with scratch() as d:
        p = f'{d}/p{cls.SUFFIX}{cls.EXTENSION}'
        o = cls(p)
        o.novel = nv
        o.write()
        with zipfile.ZipFile(p) as z:
            root = ET.fromstring(z.read('content.xml'))
    N = '{urn:oasis:names:tc:opendocument:xmlns:text:1.0}'
    TB = '{urn:oasis:names:tc:opendocument:xmlns:table:1.0}'
    secs = [e.get(N + 'name') for e in root.iter(N + 'section')]
    paras = [''.join(e.itertext()) for e in root.iter(N + 'p')]
    sc = {s['id']: s for s in spec['scenes']}
    if 'el' in k:
        coll, pre = k['el']
        ids = [e['id'] for e in spec[coll]]
        if cls.EXTENSION == '.ods':
            got = [t[len(pre):] for t in paras if re.fullmatch(pre + r'\d+', t)]
        else:
            got = [t[len(pre):] for t in secs if t.startswith(pre)]
        need(got == ids, f'{cn}: elements {got}, expected {ids}')
        return
    tpl = {'part': 'Chapter' not in cn or cn == 'OdtWChapterDesc'}
    tpl['part'] = bool(cls._partTemplate)
    exp = []
    num = 0
    wt = 0
    rows = []
    for ch in spec['chapters']:
        kind, counted, end = ch_kind(ch, sc, tpl)
        if k['ch'] and kind in k['ch'] and getattr(cls, f'_{kind}Template'):
            exp.append(f"ChID:{ch['id']}")
        for i in ch['srtScenes']:
            if sc_kind(sc[i], ch, kind) in k['sc']:
                exp.append(f'ScID:{i}')
                num += 1
                wt += nv.scenes[i].wordCount
                rows.append((i, str(num), str(wt)))
    if cn == 'OdtWProof':
        got = [m.group(1) for t in paras for m in [re.fullmatch(r'\[(ScID:\d+)\]', t)] if m]
    elif cls.EXTENSION == '.ods':
        got = []
        r2 = []
        for row in root.iter(TB + 'table-row'):
            cells = [''.join(c.itertext()).strip() for c in row.iter(TB + 'table-cell')]
            if cells and cells[0].startswith('ScID:'):
                got.append(cells[0])
                r2.append((cells[0][5:], cells[9], cells[10]))
        need(r2 == rows, f'{cn}: numbering {r2}, expected {rows}')
    else:
        got = [t for t in secs if t.startswith(('ChID', 'ScID'))]
    need(got == exp, f'{cn}: contains {got}, expected {exp}')


CASES = [('templates', g, c, 300), ('documents', g_doc, c_doc, 140)]
