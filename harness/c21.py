"""C21: tag lists."""
from .common import *
from . import gen

TOK = ['a', 'b', 'A', ' ', '  ', ';', ';;', ',', ', ', '; ', 'ä', '\t', '\n', '&', 'foo bar', '', '\xa0', '|', '<', 'a ', ' a']


def g(r):
    return {'text': ''.join(r.choice(TOK) for __ in range(r.randint(0, 12))), 'div': r.choice([None, ';', ',', ', ', '|', '; '])}


def oracle(t, div):
    out = []
    cur = ''
    parts = []
    i = 0
    while i < len(t):
        if t.startswith(div, i):
            parts.append(cur)
            cur = ''
            i += len(div)
        else:
            cur += t[i]
            i += 1
    parts.append(cur)
    for p in parts:
        while p and p[0].isspace():
            p = p[1:]
        while p and p[-1].isspace():
            p = p[:-1]
        if p and p not in out:
            out.append(p)
    return out


def c(case):
    from pywriter.pywriter_globals import string_to_list, list_to_string
    kw = {} if case['div'] is None else {'divider': case['div']}
    div = case['div'] or ';'
    l = string_to_list(case['text'], **kw)
    need(l == oracle(case['text'], div), f"{case['text']!r} / {div!r} -> {l}, expected {oracle(case['text'], div)}")
    t = list_to_string(l, **kw)
    need(string_to_list(t, **kw) == l or div != div.strip(), f'not idempotent: {l} -> {t!r} -> {string_to_list(t, **kw)}')
    need(list_to_string(string_to_list(t, **kw), **kw) == t or div != div.strip(), 'text form is not stable')


def g_list(r):
    div = r.choice([None, ';', ',', ', ', '|'])
    out = []
    for __ in range(r.randint(0, 6)):
        e = gen.line(r, 0.4, 1, 3).replace((div or ';').strip(), '').strip()
        if e and e not in out:
            out.append(e)
    return {'list': out, 'div': div}


def c_list(case):
    from pywriter.pywriter_globals import string_to_list, list_to_string
    kw = {} if case['div'] is None else {'divider': case['div']}
    l = list(case['list'])
    t = list_to_string(l, **kw)
    need(l == case['list'], 'list_to_string changed its argument')
    need(isinstance(t, str) and string_to_list(t, **kw) == l, f'{l} -> {t!r} -> {string_to_list(t, **kw)}')


def g_bad(r):
    return {'x': r.choice(['None', '12', '1.5', 'object()', '[]', '{}', 'b"x"', '["a", None]', '[1, 2]', '["a", "b"]', 'True', '()', '""'])}


def c_bad(case):
    from pywriter.pywriter_globals import string_to_list, list_to_string
    x = eval(case['x'])
    a = string_to_list(x)
    need(a == ([] if not isinstance(x, str) else oracle(x, ';')), f'string_to_list({case["x"]}) returned {a!r}')
    b = list_to_string(x)
    good = isinstance(x, (list, tuple, dict)) and all(isinstance(i, str) for i in x)
    need(b == (';'.join(x) if good else x if isinstance(x, str) else ''), f'list_to_string({case["x"]}) returned {b!r}')


CASES = [('string_to_list', g, c, 800), ('round trip', g_list, c_list, 300), ('unusable input', g_bad, c_bad, 40)]
