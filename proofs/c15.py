"""C15: the counts are a function of the current text: setter contract plus a frame argument over the whole package."""
import re
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import lib, scan
from pyvc.models import re_sub_fn, regex_key

LEVEL = 'proof'
TRUSTED = ['re.sub is a function of pattern, replacement and text (uninterpreted); str.split() without divider likewise']
ASSUMPTIONS = ['the meaning of the three patterns (what counts as markup) is the documented one: it is part of the specification here and checked on samples by the bounded part',
               'Python code outside the package may write the counts directly']

# the specification: word limits become blanks, markup and hyphens vanish, words are what white space divides
LIMITS = re.compile(r'--|—|–')
MARKUP = re.compile(r'\[.+?\]|\/\*.+?\*\/|-|^\>', re.MULTILINE)
NON_LETTERS = re.compile(r'\[.+?\]|\/\*.+?\*\/|\n|\r')


def words(t):
    return z3.Length(lib.U_SPLITWS(re_sub_fn(MARKUP, '')(re_sub_fn(LIMITS, ' ')(t))))


def letters(t):
    return z3.Length(re_sub_fn(NON_LETTERS, '')(t))


def u_setter(u):
    eng = u.engine()
    cls = eng.get_global('pywriter.model.scene', 'Scene')
    st = eng.start()
    inst, st, raised = eng.run(st, lambda s: eng.call(s, cls, [], {}))
    eng.no_raise('a new scene can be made', raised)
    u.shape('a new scene has no text and both counts are zero', st.get(inst).f.get('_sceneContent') is None and st.get(inst).f.get('wordCount') == 0 and st.get(inst).f.get('letterCount') == 0)
    # arbitrary earlier state in which the counts are those of its text (the invariant, established above and by every assignment)
    o = st.edit(inst)
    o.f['_sceneContent'] = eng.opt('old_text')
    o.f['wordCount'], o.f['letterCount'] = z3.Int('old_words'), z3.Int('old_letters')
    no, old = z3.Bool('old_text?none'), z3.String('old_text')
    st.assume(z3.If(no, z3.And(z3.Int('old_words') == 0, z3.Int('old_letters') == 0), z3.And(z3.Int('old_words') == words(old), z3.Int('old_letters') == letters(old))))
    for k in list(o.f):
        if k not in ('_sceneContent', 'wordCount', 'letterCount', 'kwVar'):
            o.f[k] = z3.Const('old_' + k, PYOBJ)
    before = dict(o.f)
    t = z3.String('text')
    _, st1, raised = eng.run(st, lambda s: eng.setattr(s, inst, 'sceneContent', t))
    eng.no_raise('assigning a text never raises', raised)
    eng.cover('assigning a text', st1)
    spec_keys = {regex_key(p) for p in (LIMITS, MARKUP, NON_LETTERS)}
    if not set(eng.regexes) <= spec_keys:
        eng.exact = False
    f = st1.get(inst).f
    eng.prove('the text is stored', st1, eng.eq(st1, f['_sceneContent'], t))
    eng.prove('the word count is that of the current text', st1, eng.eq(st1, f['wordCount'], words(t)))
    eng.prove('the letter count is that of the current text', st1, eng.eq(st1, f['letterCount'], letters(t)))
    eng.prove('the counts are not negative', st1, And(term(f['wordCount']) >= 0, term(f['letterCount']) >= 0))
    for k, v in before.items():
        if k not in ('_sceneContent', 'wordCount', 'letterCount'):
            eng.prove(f'frame: {k} is not changed', st1, same(f.get(k), v))
    u.shape('frame: no other attribute appears', set(f) == set(before), str(set(f) ^ set(before)))
    # the getter
    r, st2, raised = eng.run(st1, lambda s: eng.getattr(s, inst, 'sceneContent'))
    eng.no_raise('reading the text never raises', raised)
    eng.prove('reading gives the assigned text', st2, eng.eq(st2, r, t))
    # the empty text (evaluated)
    eng2 = u.engine()
    cls = eng2.get_global('pywriter.model.scene', 'Scene')
    st = eng2.start()
    inst = eng2.call(st, cls, [], {})
    st.edit(inst).f['_sceneContent'] = 'seven words in a text of old'
    st.edit(inst).f['wordCount'], st.edit(inst).f['letterCount'] = 7, 7
    _, st1, raised = eng2.run(st, lambda s: eng2.setattr(s, inst, 'sceneContent', ''))
    u.shape('both counts are zero for the empty text', st1 is not None and st1.get(inst).f['wordCount'] == 0 and st1.get(inst).f['letterCount'] == 0)


def u_frame(u):
    """Only the setter and the constructor write the text and the counts: so the invariant text/counts holds in every state."""
    eng = u.engine()
    cls = eng.get_global('pywriter.model.scene', 'Scene')
    prop = eng.global_state.get(cls).f.get('sceneContent')
    ok = {'pywriter.model.scene.Scene.__init__', 'pywriter.model.scene.Scene.sceneContent'}
    for s in scan.stores({'_sceneContent', 'wordCount', 'letterCount'}):
        if s[1] == 'setattr' and s[3].startswith('setattr(self,') and s[0].rsplit('.', 1)[0] not in scan.subclasses('Scene'):
            u.fact(f'{s[0]}: the computed attribute is one of an object that is no scene', True)
            continue
        u.fact(f'{s[0]} may write {s[1]}', s[0] in ok, f'line {s[2]}: {s[3]}', status=None if s[0] in ok else 'unknown')
    u.fact('sceneContent is a property with setter', isinstance(prop, PropVal) and prop.fset is not None)


def u_plain(u):
    """Plain text without markup: the substitutions do nothing, so exactly the words and characters are counted."""
    t = z3.String('text')
    a, b, c = re_sub_fn(LIMITS, ' '), re_sub_fn(MARKUP, ''), re_sub_fn(NON_LETTERS, '')
    u.lemma('plain text is counted exactly', [a(t) == t, b(t) == t, c(t) == t], z3.And(words(t) == z3.Length(lib.U_SPLITWS(t)), letters(t) == z3.Length(t)))


UNITS = [('Scene.sceneContent', u_setter), ('frame', u_frame), ('plain text', u_plain)]
