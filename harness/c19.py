"""C19: purging custom variables and language tags."""
import re
from .common import *
from . import gen
from .c16 import LT

FIELDS = {'PRJ_KWVAR': 'novel', 'CHP_KWVAR': 'chapters', 'SCN_KWVAR': 'scenes', 'CRT_KWVAR': 'characters', 'LOC_KWVAR': 'locations', 'ITM_KWVAR': 'items', 'PNT_KWVAR': 'projectNotes'}
VAL = ['x', 'y z', '', None, '0', '<', 'None']


def kw(r):
    out = {}
    for k in ('Field_A', 'Field_B', 'Field_SceneArcs', 'Field_Foreign', 'Field_Link'):
        if r.random() < 0.5:
            out[k] = r.choice(VAL)
    return out


def g(r):
    spec = gen.novel(r, nasty=0.1, n_ch=r.randint(0, 3))
    spec['novel']['kwVar'] = kw(r)
    for coll in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
        for e in spec[coll]:
            e['kwVar'] = kw(r)
    if spec['chapters'] and r.random() < 0.5:
        spec['loose_chapter'] = True
    if r.random() < 0.15:
        for coll in ('chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'):
            for e in spec[coll]:
                e['kwVar'] = {}
        spec['novel']['kwVar'] = {}
        if r.random() < 0.5:
            c = r.choice(['chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes'])
            if spec[c]:
                spec[c][-1]['kwVar'] = {'Field_B': 'only'}
    fields = {k: r.sample(['Field_A', 'Field_B', 'Field_SceneArcs', 'Field_Link'], r.randint(0, 4)) for k in FIELDS}
    return {'spec': spec, 'fields': fields}


class F:
    pass


def c(case):
    from pywriter.yw import yw7_purge
    spec = case['spec']
    nv = build_novel(spec)
    if spec.get('loose_chapter'):
        # elements that are not listed
        nv.srtChapters.pop()
    f = F()
    f.novel = nv
    for k, v in case['fields'].items():
        setattr(f, k, v)

    def state():
        d = {'novel': dump_obj(nv, NV_ATTRS)}
        for coll, at in (('chapters', CH_ATTRS), ('scenes', SC_ATTRS), ('characters', CR_ATTRS), ('locations', WE_ATTRS), ('items', WE_ATTRS), ('projectNotes', PN_ATTRS)):
            d[coll] = {i: dump_obj(o, at) for i, o in getattr(nv, coll).items()}
        d['lists'] = [list(getattr(nv, a)) for a in ('srtChapters', 'srtCharacters', 'srtLocations', 'srtItems', 'srtPrjNotes')]
        d['languages'] = copy.deepcopy(nv.languages)
        return d
    exp = state()
    changed = False
    for k, coll in FIELDS.items():
        for o in ([exp['novel']] if coll == 'novel' else exp[coll].values()):
            for fld in case['fields'][k]:
                if o['kwVar'].get(fld):
                    o['kwVar'][fld] = ''
                    changed = True
    res = yw7_purge.reset_custom_variables(f)
    got = state()
    d = diff(exp, got)
    need(d is None, f'reset_custom_variables: {d}')
    need(bool(res) == changed, f'reset_custom_variables returned {res!r}, something cleared: {changed}')
    res = yw7_purge.reset_custom_variables(f)
    need(not res, 'a second reset reports a change')


def g_lang(r):
    spec = gen.novel(r, nasty=0.2, n_ch=r.randint(0, 3), content=lambda r: ''.join(r.choice(LT + ['[/lang]', '[//lang=x]', 'langlang=', '[/i]']) for __ in range(r.randint(0, 8))))
    return {'spec': spec, 'loose': r.random() < 0.3}


def strip(t):
    out = ''
    i = 0
    while i < len(t):
        j = i + 1
        if t[i] == '[':
            while j < len(t) and t[j] == '/':
                j += 1
            if t.startswith('lang=', j):
                k = j + 5
                while k < len(t) and t[k] not in ']\n':
                    k += 1
                if k < len(t) and t[k] == ']':
                    i = k + 1
                    continue
        out += t[i]
        i += 1
    return out


def c_lang(case):
    from pywriter.yw import yw7_purge
    nv = build_novel(case['spec'])
    if case['loose'] and nv.srtChapters:
        nv.srtChapters.pop()
    nv.get_languages()
    before = dump_novel(nv)
    exp = copy.deepcopy(before)
    changed = False
    for s in exp['scenes']:
        if s['sceneContent']:
            t = strip(s['sceneContent'])
            changed |= t != s['sceneContent']
            s['sceneContent'] = t
    res = yw7_purge.remove_language_tags(nv)
    got = dump_novel(nv)
    for d_ in (exp, got):
        for s in d_['scenes']:
            s.pop('wordCount'), s.pop('letterCount')
        d_['novel'].pop('languages')
    d = diff(exp, got)
    need(d is None, f'remove_language_tags: {d}')
    need(bool(res) == changed, f'remove_language_tags returned {res!r}, tags removed: {changed}')
    need(not yw7_purge.remove_language_tags(nv), 'a second removal reports a change')


CASES = [('custom variables', g, c, 200), ('language tags', g_lang, c_lang, 200)]
