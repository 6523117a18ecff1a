"""C15: word and letter counts against a hand-written scanner."""
from .common import *
from . import gen

TOK = ['a', 'word', ' ', ' ', '  ', '\n', '\n', '--', '—', '–', '-', '---', '[i]', '[/i]', '[lang=en-US]', '[', ']', '[]', '[[x]]', '/*', '*/', '/**/', '/* c */', '> ', '>', '\n>',
       'Ä', '日本', '😀', ',', '.', "'", '…', '\t', '\xa0', '&', '<HTM x /HTM>', '/', '*', '[x\ny]', '/*x\ny*/', '\r', '^', '\\', '[i', 'co-op', '\u2028', '\x0b']


def g(r):
    return {'text': ''.join(r.choice(TOK) for __ in range(r.randint(0, 14)))}


def strip_markup(t, start):
    """Length of a piece of markup or comment at position start, or 0."""
    if t.startswith('[', start):
        j = start + 2
        if j <= len(t) and t[start + 1:start + 2] not in ('', '\n'):
            while j < len(t) and t[j] not in ']\n':
                j += 1
            if j < len(t) and t[j] == ']':
                return j + 1 - start
    if t.startswith('/*', start):
        j = start + 3
        if t[start + 2:start + 3] not in ('', '\n'):
            while j < len(t) and t[j] != '\n' and not t.startswith('*/', j):
                j += 1
            if t.startswith('*/', j):
                return j + 2 - start
    return 0


def words(text):
    t = ''
    i = 0
    while i < len(text):
        if text.startswith('--', i):
            t += ' '
            i += 2
        elif text[i] in '—–':
            t += ' '
            i += 1
        else:
            t += text[i]
            i += 1
    out = ''
    i = 0
    while i < len(t):
        n = strip_markup(t, i)
        if n:
            i += n
        elif t[i] == '-':
            i += 1
        elif t[i] == '>' and (i == 0 or t[i - 1] == '\n'):
            i += 1
        else:
            out += t[i]
            i += 1
    return len(out.split())


def letters(t):
    n = i = 0
    while i < len(t):
        k = strip_markup(t, i)
        if k:
            i += k
        else:
            n += t[i] not in '\n\r'
            i += 1
    return n


def c(case):
    from pywriter.model.scene import Scene
    s = Scene()
    need((s.wordCount, s.letterCount) == (0, 0), 'counts of a new scene are not zero')
    for t in ('some other text', case['text'], case['text']):
        s.sceneContent = t
        need(s.sceneContent == t, 'the setter changed the text')
        need(type(s.wordCount) is int and s.wordCount == words(t), f'word count {s.wordCount!r}, expected {words(t)} for {t!r}')
        need(type(s.letterCount) is int and s.letterCount == letters(t), f'letter count {s.letterCount!r}, expected {letters(t)} for {t!r}')
    s.sceneContent = ''
    need((s.wordCount, s.letterCount) == (0, 0), 'counts of an empty text are not zero')


def g_plain(r):
    return {'words': [r.choice(gen.WORDS) for __ in range(r.randint(0, 12))], 'sep': r.choice([' ', '\n', '  ', ' -- ', '—'])}


def c_plain(case):
    from pywriter.model.scene import Scene
    s = Scene()
    s.sceneContent = case['sep'].join(case['words'])
    need(s.wordCount == len(case['words']), f"{len(case['words'])} plain words counted as {s.wordCount}")
    if case['sep'] == ' ':
        need(s.letterCount == len(s.sceneContent), 'letters of a plain text')
    if case['words'] and case['sep'] == '\n':
        need(s.letterCount == sum(map(len, case['words'])), 'letters without line breaks')


def g_hist(r):
    return {'spec': gen.novel(r, nasty=0.4, n_ch=2, n_sc=3, content=lambda r: ''.join(r.choice(TOK) for __ in range(8)).replace('\r', '').replace('\x0b', '').strip())}


def c_hist(case):
    """Counts match the text after writing, reading, splitting, importing, and purging."""
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.yw import yw7_purge
    from pywriter.model.novel import Novel
    from pywriter.model.splitter import Splitter
    from pywriter.odt_w.odt_w_manuscript import OdtWManuscript
    from pywriter.odt_r.odt_r_manuscript import OdtRManuscript

    def ok(nv, where):
        for i, s in nv.scenes.items():
            t = s.sceneContent or ''
            need((s.wordCount, s.letterCount) == (words(t), letters(t)),
                 f'{where}: counts of scene {i} are {(s.wordCount, s.letterCount)}, text {t!r} has {(words(t), letters(t))}')
    with scratch() as d:
        y = Yw7File(f'{d}/p.yw7')
        y.novel = build_novel(case['spec'])
        ok(y.novel, 'assignment')
        y.write()
        ok(y.novel, 'write')
        y = Yw7File(f'{d}/p.yw7')
        y.novel = Novel()
        y.read()
        ok(y.novel, 'read')
        Splitter().split_scenes(y)
        ok(y.novel, 'split')
        yw7_purge.remove_language_tags(y.novel)
        ok(y.novel, 'purge')


CASES = [('setter', g, c, 1500), ('plain words', g_plain, c_plain, 150), ('history', g_hist, c_hist, 40)]
