"""C17: configuration settings and options."""
from .common import *
from . import gen

KEYS = ['yw_last_open', 'root_geometry', 'width', 'a', 'b2', 'color_x', 'language', 'x_1']
VALS = ['', '100%', '%(x)s', '#FFF', '; x', 'x ; y', 'a # b', '//', 'a=b', 'a: b', '[SETTINGS]', 'Ä ö', '日本', 'C:\\Users\\x', '/home/x y', '$HOME', 'yes', '0', "it's", '"q"', '1x2+3+4', '%', '%%', 'a  b', 'None', '😀']


def trim(v):
    return v.strip()


def g(r):
    ks = r.sample(KEYS, r.randint(0, len(KEYS)))
    cut = r.randint(0, len(ks))
    s = {k: trim(r.choice(VALS + [gen.line(r, 0.4)])) for k in ks[:cut]}
    o = {k: r.choice([True, False]) for k in ks[cut:]}
    if r.random() < 0.2 and s:
        o[list(s)[0]] = r.choice([True, False])
    return {'settings': s, 'options': o}


def c(case):
    from pywriter.config.configuration import Configuration
    s, o = case['settings'], case['options']
    with scratch() as d:
        p = f'{d}/x.ini'
        a = Configuration(dict(s), dict(o))
        a.write(p)
        need((a.settings, a.options) == (s, o), f'writing changed the configuration')
        b = Configuration({k: 'other' for k in s}, {k: not v for k, v in o.items()})
        b.read(p)
        x = diff(s, b.settings, 'settings') or diff(o, b.options, 'options')
        need(x is None, f'read back: {x}')
        need(list(b.settings) == list(s) and all(type(v) is bool for v in b.options.values()), 'keys or types changed')
        b.write(p)
        e = Configuration({k: '' for k in s}, {k: v for k, v in o.items()})
        e.read(p)
        x = diff(s, e.settings, 'settings') or diff(o, e.options, 'options')
        need(x is None, f'second round trip: {x}')


def g_part(r):
    c0 = g(r)
    mode = r.choice(['missing', 'empty', 'nosec', 'partial', 'foreign', 'both', 'nooptions', 'nosettings'])
    keep = [k for k in dict.fromkeys(list(c0['settings']) + list(c0['options'])) if r.random() < 0.5]
    return dict(c0, mode=mode, keep=keep, new={k: r.choice(['v', '7', '50%']) for k in KEYS}, newo={k: r.choice(['Yes', 'No', 'on', 'off', '1', '0', 'true', 'FALSE']) for k in KEYS})


def c_part(case):
    from pywriter.config.configuration import Configuration
    s, o, mode, keep = case['settings'], case['options'], case['mode'], case['keep']
    ls, lo = [], []
    es, eo = dict(s), dict(o)
    with scratch() as d:
        p = f'{d}/x.ini'
        if mode != 'missing':
            if mode in ('partial', 'both', 'nooptions'):
                for k in keep:
                    if k in s:
                        ls.append(f"{k} = {case['new'][k]}")
                        es[k] = case['new'][k]
            if mode in ('partial', 'both', 'nosettings'):
                for k in keep:
                    if k in o:
                        lo.append(f"{k} = {case['newo'][k]}")
                        eo[k] = case['newo'][k].lower() in ('yes', 'on', '1', 'true')
            if mode in ('foreign', 'both'):
                ls.append('foreign_setting = x')
                lo.append('foreign_option = Yes')
            t = ''
            if mode not in ('empty', 'nosec', 'nosettings'):
                t += '[SETTINGS]\n' + '\n'.join(ls) + '\n'
            if mode not in ('empty', 'nosec', 'nooptions'):
                t += '[OPTIONS]\n' + '\n'.join(lo) + '\n'
            if mode in ('nosec', 'both', 'foreign'):
                t += '[OTHER]\n' + '\n'.join(f'{k} = zzz' for k in KEYS) + '\n'
            with open(p, 'w', encoding='utf-8') as f:
                f.write(t)
        a = Configuration(dict(s), dict(o))
        before = read_bytes(p)
        a.read(p)
        x = diff(es, a.settings, 'settings') or diff(eo, a.options, 'options')
        need(x is None, f'{mode}: {x}')
        need(read_bytes(p) == before, 'reading changed the file')


def g_def(r):
    return g(r)


def c_def(case):
    from pywriter.config.configuration import Configuration
    s, o = dict(case['settings']), dict(case['options'])
    a = Configuration(s, o)
    need((a.settings, a.options) == (s, o), 'an untouched configuration has no defaults')
    b = Configuration(s, o)
    for k in list(b.settings):
        b.settings[k] = 'changed'
    b.settings['new'] = 'x'
    b.options['new'] = True
    need(a.settings == case['settings'] and a.options == case['options'] and s == case['settings'] and o == case['options'],
         'two configurations share their settings')
    e, e2 = Configuration(), Configuration()
    e.settings['x'] = '1'
    e.options['y'] = True
    need(e2.settings == {} and e2.options == {} and Configuration().settings == {} and Configuration().options == {}, 'default settings are shared between objects')
    a.set({'q': '1'})
    need(a.settings == {'q': '1'} and a.options == o, 'set() with settings only')
    a.set(None, {'z': False})
    need(a.settings == {'q': '1'} and a.options == {'z': False}, 'set() with options only')


CASES = [('round trip', g, c, 200), ('partial files', g_part, c_part, 200), ('defaults', g_def, c_def, 50)]
