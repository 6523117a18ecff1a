"""C09: scene splitting against an independent model of the documented behaviour."""
from .common import *
from . import gen


def line(r):
    x = r.random()
    if x < 0.45:
        return gen.line(r, 0.2).lstrip('#') or 'x'
    if x < 0.55:
        return ''
    if x < 0.6:
        return r.choice([' ## no divider', 'a # b', ' #', 'x ### y', ' '])
    h = r.choice(['#', '##', '###', '###', '##', '#', '####', '#####'])
    t = r.choice(['', ' ', ' T', ' Title two', 'T', ' T|D', ' T | D ', '|D', ' |D', ' T|', ' T|D|E', ' C#', ' T ##', ' ##', ' #', ' [i]x[/i]'])
    return h + t


def content(r):
    return '\n'.join(line(r) for __ in range(r.randint(1, 9)))


def g(r):
    spec = gen.novel(r, nasty=0.1, n_ch=r.choice([0, 1, 1, 1, 2, 2, 3, 4]), content=content)
    if r.random() < 0.4:
        # only one scene has dividers
        ss = [s for s in spec['scenes'] if s.get('sceneContent')]
        keep = r.choice(ss) if ss else None
        for s in ss:
            if s is not keep:
                s['sceneContent'] = s['sceneContent'].replace('#', '')
        if keep and r.random() < 0.6:
            h = r.choice(['#', '##', '###']) + r.choice([' T', '', ' T|D'])
            keep['sceneContent'] = r.choice(['{}\n{}', '{}\n\n{}']).format(keep['sceneContent'].replace('#', ''), h)
    for s in spec['scenes']:
        if r.random() < 0.1:
            s['status'] = None
        if r.random() < 0.1 and s['date']:
            s['day'] = '7'
    if spec['scenes'] and r.random() < 0.2:
        # a scene that belongs to no chapter
        i = spec['scenes'][0]['id']
        for c in spec['chapters']:
            if i in c['srtScenes']:
                c['srtScenes'].remove(i)
    return {'spec': spec}


class F:
    pass


INH = ['scType', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes']


def kind(l):
    if l.startswith('###'):
        return 's'
    if l.startswith('##'):
        return 'c'
    if l.startswith('#'):
        return 'p'
    return None


def model(spec):
    """Expected chapter list: [(old id or None, level, title, desc, [(old id or None, parent id, lines or None, title, desc)])]"""
    sc = {s['id']: s for s in spec['scenes']}
    out = []
    split = False
    for c in spec['chapters']:
        cur = (c['id'], c['chLevel'], None, None, [])
        out.append(cur)
        for i in c['srtScenes']:
            text = sc[i].get('sceneContent')
            scene = [i, i, [], None, None]
            cur[4].append(scene)
            if not text:
                scene[2] = None
                continue
            for l in text.split('\n'):
                k = kind(l)
                if k is None:
                    if scene is None:
                        scene = [None, i, [], None, None]
                        cur[4].append(scene)
                    scene[2].append(l)
                    continue
                split = True
                parts = l.strip('# ').split('|')
                t, dsc = parts[0], parts[1] if len(parts) > 1 else ''
                if k == 's':
                    scene = [None, i, [], t, dsc]
                    cur[4].append(scene)
                else:
                    cur = (None, 0 if k == 'c' else 1, t, dsc, [])
                    out.append(cur)
                    scene = None
    return out, split


def c(case):
    from pywriter.model.splitter import Splitter
    spec = case['spec']
    nv = build_novel(spec)
    old = copy.deepcopy(dump_novel(nv))
    f = F()
    f.novel = nv
    objs = {i: o for i, o in nv.scenes.items()}
    res = Splitter().split_scenes(f)
    exp, split = model(spec)
    need(res == split, f'split_scenes returned {res!r}, structure changed: {split}')
    sc = {s['id']: s for s in spec['scenes']}
    oldsc = {s['id']: s for s in old['scenes']}
    oldch = {s['id']: s for s in old['chapters']}
    need(len(nv.srtChapters) == len(exp) == len(set(nv.srtChapters)), f'{len(exp)} chapters expected, got {nv.srtChapters}')
    need(set(nv.srtChapters) == set(nv.chapters), 'chapter list and chapters differ')
    listed = []
    touched = set()
    for got, (cid, lvl, t, d, scs) in zip(nv.srtChapters, exp):
        ch = nv.chapters[got]
        if cid is not None:
            need(got == cid, f'chapter {cid} expected, got {got}')
            dd = dump_obj(ch, CH_ATTRS, got)
            o = dict(oldch[cid])
            dd.pop('srtScenes'), o.pop('srtScenes')
            x = diff(o, dd)
            need(x is None, f'existing chapter {cid} changed{x}')
        else:
            need(got not in oldch, f'a new chapter was expected, got {got}')
            need(ch.chLevel == lvl, f'new chapter {got}: level {ch.chLevel}, expected {lvl}')
            need(ch.chType == 0, f'new chapter {got}: type {ch.chType}')
            need(ch.title == t if t else bool(ch.title), f'new chapter {got}: title {ch.title!r}, expected {t!r}')
            need(ch.desc == d, f'new chapter {got}: description {ch.desc!r}, expected {d!r}')
        need(len(ch.srtScenes) == len(scs), f'chapter {got}: {len(scs)} scenes expected, got {ch.srtScenes}')
        for gs, (sid, parent, lines, st, sd) in zip(ch.srtScenes, scs):
            listed.append(gs)
            s = nv.scenes[gs]
            if sid is not None:
                need(gs == sid, f'scene {sid} expected, got {gs}')
                need(s is objs[sid], f'existing scene {sid} was replaced')
                dd = dump_obj(s, SC_ATTRS, gs)
                o = dict(oldsc[sid])
                o.pop('wordCount'), o.pop('letterCount')
                isSplit = any(q[1] == sid and q[0] is None for z in exp for q in z[4])
                cut = lines is not None and '\n'.join(lines) != o['sceneContent']
                if not cut and not isSplit:
                    x = diff(o, dd)
                    need(x is None, f'undivided scene {sid} changed{x}')
                else:
                    touched.add(sid)
                    for a in ('desc', 'goal', 'conflict', 'outcome', 'status', 'sceneContent'):
                        v = dd.pop(a)
                        ov = o.pop(a)
                        if a in ('desc', 'goal', 'conflict', 'outcome'):
                            need(v == ov or (ov and v == f'(!){ov}'), f'split scene {sid}: {a} {ov!r} -> {v!r}')
                        elif a == 'status':
                            need(v == ov or (ov is not None and ov > 2 and v == 2), f'split scene {sid}: status {ov!r} -> {v!r}')
                    x = diff(o, dd)
                    need(x is None, f'split scene {sid} changed{x}')
            else:
                need(gs not in oldsc, f'a new scene was expected, got {gs}')
                p = sc[parent]
                for a in INH:
                    need(getattr(s, a) == p.get(a), f'new scene {gs}: {a} {getattr(s, a)!r}, parent has {p.get(a)!r}')
                if st:
                    need(s.title == st, f'new scene {gs}: title {s.title!r}, expected {st!r}')
                if sd:
                    need(s.desc == sd, f'new scene {gs}: description {s.desc!r}, expected {sd!r}')
            if lines is not None:
                need((s.sceneContent or '') == '\n'.join(lines), f'scene {gs}: text {s.sceneContent!r}, expected {chr(10).join(lines)!r}')
    need(len(listed) == len(set(listed)), f'a scene is listed twice: {listed}')
    loose = [i for i in oldsc if not any(i in z['srtScenes'] for z in spec['chapters'])]
    need(set(nv.scenes) == set(listed) | set(loose), 'scenes and chapter scene lists differ')
    for i in loose:
        dd = dump_obj(nv.scenes[i], SC_ATTRS, i)
        o = dict(oldsc[i])
        o.pop('wordCount'), o.pop('letterCount')
        x = diff(o, dd)
        need(x is None, f'unattached scene {i} changed{x}')
    for coll in ('novel', 'characters', 'locations', 'items', 'projectNotes'):
        x = diff(old[coll], dump_novel(nv)[coll], coll)
        need(x is None, f'splitting changed {x}')
    # the second run changes nothing unless a divider remained
    again = Splitter().split_scenes(f)
    need(again is False or not again, 'splitting again reports a change')


CASES = [('split', g, c, 400)]
