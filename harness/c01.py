"""C01: a project written to a .yw7 file reads back with the same data."""
import os, copy
from .common import *
from . import gen


def norm_text(v):
    return None if v in (None, '') else v


def norm_list(v):
    return None if not v else list(v)


def want_scene(e, stored=None):
    """Expected attributes after writing scene spec e (over `stored`) and reading it back."""
    st = stored or {}
    w = {}
    for a in SC_TEXT:
        v = e.get(a)
        w[a] = norm_text(st.get(a)) if v is None else norm_text(v)
    w['scType'] = e['scType'] if e.get('scType') is not None else 0
    if e.get('doNotExport') is None:
        w['doNotExport'] = bool(st.get('doNotExport'))
    else:
        w['doNotExport'] = e['doNotExport']
    w['status'] = e['status'] if e.get('status') is not None else st.get('status')
    w['tags'] = norm_list(st.get('tags')) if e.get('tags') is None else norm_list(e['tags'])
    for a in ('appendToPrev', 'isReactionScene', 'isSubPlot'):
        w[a] = bool(e.get(a))
    for a in ('characters', 'locations', 'items'):
        w[a] = norm_list(e.get(a))
    w['sceneContent'] = norm_text(st.get('sceneContent')) if e.get('sceneContent') is None else norm_text(e['sceneContent'])
    # date / time / day
    d, t, y = e.get('date'), e.get('time'), e.get('day')
    if d:
        # a date without a time of day means midnight
        t = t or '00:00:00'
        w['date'], w['time'], w['day'] = d, t if t.count(':') == 2 else f'{t}:00', None
    elif y is not None or t is not None:
        if not y and not t:
            w['date'] = w['time'] = w['day'] = None
        else:
            # the specific date is dropped; what is not set stays stored
            w['date'] = None
            w['day'] = (y or None) if y is not None else (st.get('day') if not st.get('date') else None)
            if t is not None:
                w['time'] = t[:5] + ':00' if t else None
            else:
                w['time'] = st.get('time') if not st.get('date') else None
    else:
        w['date'], w['time'], w['day'] = norm_text(st.get('date')), norm_text(st.get('time')), norm_text(st.get('day'))
    m = e.get('scnMode')
    arcs = e.get('scnArcs')
    w['scnArcs'] = norm_text(arcs) if arcs is not None else norm_text(st.get('scnArcs'))
    if m is None:
        w['scnMode'] = st.get('scnMode')
    else:
        w['scnMode'] = m or None
    return w


def got_scene(o):
    g = dump_obj(o, SC_ATTRS)
    g.pop('kwVar')
    for a in SC_TEXT + ['sceneContent', 'date', 'time', 'day', 'scnArcs']:
        g[a] = norm_text(g[a])
    for a in ('tags', 'characters', 'locations', 'items'):
        g[a] = norm_list(g[a])
    return g


def want_chapter(e, stored=None):
    st = stored or {}
    w = {}
    for a in BE:
        w[a] = norm_text(st.get(a)) if e.get(a) is None else norm_text(e[a])
    w['chLevel'] = e['chLevel'] if e.get('chLevel') is not None else st.get('chLevel', 0)
    w['chType'] = e['chType'] or 0
    for a in ('suppressChapterTitle', 'isTrash', 'suppressChapterBreak'):
        w[a] = bool(e.get(a))
    w['srtScenes'] = list(e.get('srtScenes') or [])
    return w


def got_chapter(o):
    g = dump_obj(o, CH_ATTRS)
    g.pop('kwVar')
    for a in BE:
        g[a] = norm_text(g[a])
    for a in ('suppressChapterTitle', 'isTrash', 'suppressChapterBreak'):
        g[a] = bool(g[a])
    return g


def want_el(e, attrs, kw):
    w = {'id': e['id']}
    for a in attrs:
        if a == 'isMajor':
            w[a] = bool(e.get(a))
        elif a == 'tags':
            w[a] = norm_list(e.get(a))
        else:
            w[a] = norm_text(e.get(a))
    for k in kw:
        w[k] = norm_text((e.get('kwVar') or {}).get(k))
    return w


def got_el(o, i, attrs, kw):
    w = {'id': i}
    for a in attrs:
        v = getattr(o, a)
        w[a] = v if a == 'isMajor' else (norm_list(v) if a == 'tags' else norm_text(v))
    for k in kw:
        w[k] = norm_text(o.kwVar.get(k))
    return w


def compare(spec, nv, stored=None, wordcounts=True, order=True):
    from pywriter.yw.yw7_file import Yw7File
    st = stored or {'novel': {}, 'scenes': [], 'chapters': []}
    w, g = {}, {}
    for a in NV_ATTRS:
        v = spec['novel'].get(a)
        if a in ('wordTarget', 'wordCountStart'):
            w[a] = st['novel'].get(a, 0) if v is None else v
            g[a] = getattr(nv, a) or 0
            w[a] = w[a] or 0
        else:
            w[a] = norm_text(st['novel'].get(a)) if v is None else norm_text(v)
            g[a] = norm_text(getattr(nv, a))
    d = diff(w, g, 'project')
    need(d is None, d)
    kws = dict(characters=Yw7File.CRT_KWVAR, locations=Yw7File.LOC_KWVAR, items=Yw7File.ITM_KWVAR, projectNotes=[])
    for coll, srt, attrs in COLLS:
        want = [want_el(e, attrs, kws[coll]) for e in spec[coll]]
        got = [got_el(getattr(nv, coll)[i], i, attrs, kws[coll]) for i in getattr(nv, srt)]
        d = diff(want, got, coll)
        need(d is None, d)
        need(sorted(getattr(nv, coll)) == sorted(e['id'] for e in spec[coll]), f'{coll}: stray elements {sorted(getattr(nv, coll))}')
    sts = {e['id']: e for e in st['scenes']}
    want = {e['id']: want_scene(e, sts.get(e['id'])) for e in spec['scenes']}
    got = {i: got_scene(o) for i, o in nv.scenes.items()}
    d = diff(want, got, 'scenes')
    need(d is None, d)
    need(not order or list(nv.scenes) == [e['id'] for e in spec['scenes']], f'scene order {list(nv.scenes)}')
    stc = {e['id']: e for e in st['chapters']}
    want = {e['id']: want_chapter(e, stc.get(e['id'])) for e in spec['chapters']}
    got = {i: got_chapter(o) for i, o in nv.chapters.items()}
    d = diff(want, got, 'chapters')
    need(d is None, d)
    need(nv.srtChapters == [e['id'] for e in spec['chapters']], f'chapter order {nv.srtChapters}')
    if wordcounts:
        from pywriter.model.scene import Scene
        for i, o in nv.scenes.items():
            s = Scene()
            if o.sceneContent is not None:
                s.sceneContent = o.sceneContent
            need((s.wordCount, s.letterCount) == (o.wordCount, o.letterCount), f'scene {i}: counts not recomputed')


def write_spec(spec, path, tree=None):
    from pywriter.yw.yw7_file import Yw7File
    f = Yw7File(path)
    f.novel = build_novel(spec)
    f.write()


def read_new(path):
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    return f


def gen_new(r):
    return {'spec': gen.novel(r)}


def check_new(case):
    with scratch() as d:
        p = os.path.join(d, 'prj.yw7')
        write_spec(case['spec'], p)
        f = read_new(p)
        compare(case['spec'], f.novel)


def spec_of(nv):
    """JSON spec of a novel as read from a file."""
    s = dump_novel(nv)
    return s


def mutate(r, spec):
    """Change attributes, order, membership; return the new spec."""
    s = copy.deepcopy(spec)
    fresh = gen.novel(r, n_ch=max(1, len(s['chapters'])), n_sc=len(s['scenes']) + 2)
    for a in NV_ATTRS:
        if a in ('languageCode', 'countryCode'):
            continue
        if r.random() < 0.3:
            s['novel'][a] = fresh['novel'][a]
    if r.random() < 0.5:
        s['novel']['languageCode'], s['novel']['countryCode'] = fresh['novel']['languageCode'], fresh['novel']['countryCode']
    for coll, srt, attrs in COLLS:
        lst = s[coll]
        r.shuffle(lst)
        for e in lst:
            src = r.choice(fresh[coll]) if fresh[coll] else None
            if src and r.random() < 0.5:
                for a in attrs:
                    if r.random() < 0.4:
                        e[a] = copy.deepcopy(src[a])
                for k, v in src.get('kwVar', {}).items():
                    if v is not None:
                        e['kwVar'][k] = v
        if r.random() < 0.3 and fresh[coll]:
            e = copy.deepcopy(r.choice(fresh[coll]))
            if e['id'] not in [x['id'] for x in lst]:
                lst.append(e)
        if coll == 'projectNotes' and r.random() < 0.3:
            lst.clear()
    for e in s['scenes']:
        src = r.choice(fresh['scenes'])
        for a in SC_ATTRS:
            if a in ('scType', 'characters', 'locations', 'items', 'date', 'time', 'day'):
                continue
            if r.random() < 0.25:
                e[a] = copy.deepcopy(src[a])
        if r.random() < 0.4:
            for a in ('date', 'time', 'day'):
                e[a] = src[a]
        elif r.random() < 0.15:
            if e.get('date'):
                e['date'], e['time'] = '', ''
            else:
                e['day'], e['time'] = '', ''
        for a, coll in (('characters', 'characters'), ('locations', 'locations'), ('items', 'items')):
            if r.random() < 0.4:
                e[a] = gen.subset(r, [x['id'] for x in s[coll]])
    # structure: move scenes, add chapter, delete scene
    used = [x for c in s['chapters'] for x in c['srtScenes']]
    chs = s['chapters']
    if chs:
        if r.random() < 0.4:
            r.shuffle(chs)
        for c in chs:
            src = r.choice(fresh['chapters'])
            for a in CH_ATTRS:
                if a != 'srtScenes' and r.random() < 0.3:
                    c[a] = src[a]
        if used and r.random() < 0.5:
            m = r.choice(used)
            for c in chs:
                if m in c['srtScenes']:
                    c['srtScenes'].remove(m)
            r.choice(chs)['srtScenes'].insert(0, m)
        if r.random() < 0.3 and len(chs) > 1:
            gone = chs.pop(r.randrange(len(chs)))
            s['scenes'] = [e for e in s['scenes'] if e['id'] not in gone['srtScenes']]
        if r.random() < 0.3:
            n = copy.deepcopy(r.choice(fresh['chapters']))
            if n['id'] not in [c['id'] for c in chs]:
                n['srtScenes'] = []
                chs.insert(r.randint(0, len(chs)), n)
                e = copy.deepcopy(r.choice(fresh['scenes']))
                if e['id'] not in [x['id'] for x in s['scenes']]:
                    for a in ('characters', 'locations', 'items'):
                        e[a] = gen.subset(r, [x['id'] for x in s[a]])
                    s['scenes'].append(e)
                    n['srtScenes'].append(e['id'])
    typ = {x: c['chType'] for c in chs for x in c['srtScenes'] if c['chType']}
    for e in s['scenes']:
        if e['id'] in typ:
            e['scType'] = typ[e['id']]
        elif r.random() < 0.3:
            e['scType'] = r.choice([0, 0, 1, 2, 3])
        for a in ('wordCount', 'letterCount'):
            e.pop(a, None)
    for e in s['scenes']:
        e['kwVar'] = {}
    return s


def gen_rmw(r):
    spec = gen.novel(r)
    return {'spec': spec, 'mseed': r.randint(0, 10**9), 'steps': r.randint(1, 2)}


def check_rmw(case):
    """read-modify-write histories through the real classes."""
    r = rnd(case['mseed'])
    with scratch() as d:
        p = os.path.join(d, 'prj.yw7')
        write_spec(case['spec'], p)
        for __ in range(case['steps']):
            f = read_new(p)
            stored = spec_of(f.novel)
            m = mutate(r, stored)
            langs = f.novel.languages
            from pywriter.model.novel import Novel
            apply_spec(f.novel, m)
            f.write()
            g = read_new(p)
            compare(m, g.novel, stored, order=False)


def apply_spec(nv, spec):
    """Bring an existing novel (objects kept where the ID is kept) to the state of spec."""
    from pywriter.model.novel import Novel
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    cls = dict(characters=Character, locations=WorldElement, items=WorldElement, projectNotes=BasicElement)
    for a in NV_ATTRS:
        setattr(nv, a, spec['novel'][a])
    for coll, srt, attrs in COLLS:
        c = getattr(nv, coll)
        keep = {e['id'] for e in spec[coll]}
        for i in [i for i in c if i not in keep]:
            del c[i]
        getattr(nv, srt)[:] = [e['id'] for e in spec[coll]]
        for e in spec[coll]:
            if e['id'] not in c:
                c[e['id']] = cls[coll]()
            for a in attrs:
                setattr(c[e['id']], a, copy.deepcopy(e[a]))
            c[e['id']].kwVar.update(e.get('kwVar', {}))
    keep = {e['id'] for e in spec['scenes']}
    for i in [i for i in nv.scenes if i not in keep]:
        del nv.scenes[i]
    for e in spec['scenes']:
        if e['id'] not in nv.scenes:
            nv.scenes[e['id']] = Scene()
        o = nv.scenes[e['id']]
        for a in SC_ATTRS:
            if a == 'sceneContent' and e[a] is None:
                continue
            setattr(o, a, copy.deepcopy(e[a]))
        if e['sceneContent'] is None:
            o._sceneContent = None
    keep = {e['id'] for e in spec['chapters']}
    for i in [i for i in nv.chapters if i not in keep]:
        del nv.chapters[i]
    nv.srtChapters[:] = [e['id'] for e in spec['chapters']]
    for e in spec['chapters']:
        if e['id'] not in nv.chapters:
            nv.chapters[e['id']] = Chapter()
        for a in CH_ATTRS:
            setattr(nv.chapters[e['id']], a, copy.deepcopy(e[a]))


CASES = [('new file', gen_new, check_new, 60), ('read-modify-write', gen_rmw, check_rmw, 60)]
