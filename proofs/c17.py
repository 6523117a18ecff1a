"""C17: Configuration. read() and write() for arbitrary tables of settings and options; configparser by contract."""
import codecs
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import loops, lib
from pyvc.models import TabMap, tab_store, tab_term, opt_of, map_of

LEVEL = 'proof'
STR = lib.STR
TRUSTED = ['configparser: options of a section are a table; what write() puts into a file is what read() finds in it if both use the same encoding, options are lower-case identifiers, '
           'and values are trimmed single lines; interpolation refuses "%"; getboolean accepts the documented words']
ASSUMPTIONS = ['settings are texts, options truth values', 'the INI file is valid (ConfigParser raises for other files)', 'the file operations do not fail']
OS, OB = opt_of(STR), opt_of(z3.BoolSort())
TS, TB = z3.ArraySort(STR, OS), z3.ArraySort(STR, OB)
IS_BOOL = z3.Function('is_boolean', STR, z3.BoolSort())
AS_BOOL = z3.Function('as_boolean', STR, z3.BoolSort())
WORDS = {'1': True, 'yes': True, 'true': True, 'on': True, '0': False, 'no': False, 'false': False, 'off': False}


def axioms():
    out = []
    for w, v in WORDS.items():
        for x in (w, w.capitalize(), w.upper()):
            out += [IS_BOOL(z3.StringVal(x)), AS_BOOL(z3.StringVal(x)) == v]
    return out


def has_const(e, s, label, init):
    return z3.Const(f'{init}_has<{label}>', z3.BoolSort())


class Ini:
    """Contracts of configparser on ghost files: path -> (has section, options) per label, for each encoding."""

    def __init__(self, eng):
        self.eng = eng
        self.path = z3.String('iniFile')
        eng.axioms += axioms()
        M, L = eng.libs['%methods'], eng.libs
        L['configparser'] = {n: Native(n, self.new(n)) for n in ('ConfigParser', 'RawConfigParser', 'SafeConfigParser')}
        L['builtins']['open'] = Native('open', self.open)
        for n in ('add_section', 'has_section', 'has_option', 'set', 'get', 'getboolean', 'read', 'read_file', 'write', 'sections', '__getitem__', '__contains__', '__setitem__'):
            if hasattr(self, 'm_' + n.strip('_')):
                M[('ini', n)] = getattr(self, 'm_' + n.strip('_'))
        for n in ('get', 'getboolean', '__getitem__', '__setitem__', '__contains__'):
            M[('section', n)] = getattr(self, 's_' + n.strip('_'))
        M[('inifile', '__enter__')] = lambda e, s, o, a, k: o
        M[('inifile', '__exit__')] = lambda e, s, o, a, k: None
        M[('inifile', 'close')] = lambda e, s, o, a, k: None

    def install_file(self, st, exists, data):
        """data: label -> (has, table term)."""
        self.file = st.alloc(Obj('disk', {'exists': exists, 'enc': 'utf-8', **{f'has:{l}': h for l, (h, t) in data.items()}}))
        for l, (h, t) in data.items():
            st.get(self.file).f[f'tab:{l}'] = st.alloc(Obj('dict', x=tab_store(t, OS)))

    def new(self, name):

        def f(e, st, a, k):
            for x in k:
                if x not in ('interpolation', 'strict', 'allow_no_value', 'default_section'):
                    raise Unsupported(f'ConfigParser({x})')
            if a:
                raise Unsupported('ConfigParser with defaults')
            raw = name == 'RawConfigParser' or k.get('interpolation', 1) is None
            o = st.alloc(Obj('ini', {'raw': raw}))
            for l in ('SETTINGS', 'OPTIONS', 'FOREIGN'):
                self.sec(st, o, l)
            return o

        return f

    def enc(self, v):
        if v is None:
            return 'locale'
        if not isinstance(v, str):
            raise Unsupported('encoding')
        return codecs.lookup(v).name

    def open(self, e, st, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if not same(term(a[0]), self.path):
            raise Unsupported('another file')
        enc = self.enc(k.get('encoding', a[3] if len(a) > 3 else None))
        if mode == 'w':
            f = st.edit(self.file).f
            for x in list(f):
                if x.startswith(('has:', 'tab:')):
                    del f[x]
            f['exists'], f['enc'] = True, enc
        elif mode == 'r':
            e.raise_if(st, Not(tobool(st.get(self.file).f['exists'])), FileNotFoundError, 'open')
        else:
            raise Unsupported(f'mode {mode}')
        return st.alloc(Obj('inifile', {'mode': mode, 'enc': enc}))

    # ---- sections of a parser
    def sec(self, st, o, label, create=False):
        if not isinstance(label, str):
            raise Unsupported('symbolic section')
        f = st.get(o).f
        if f'has:{label}' not in f:
            f = st.edit(o).f
            f[f'has:{label}'] = False
            f[f'tab:{label}'] = st.alloc(Obj('dict', x=tab_store(z3.K(STR, OS.absent), OS)))
        return f[f'has:{label}'], f[f'tab:{label}']

    def need(self, e, st, o, label, exc):
        h, t = self.sec(st, o, label)
        e.raise_if(st, Not(tobool(h)) if not isinstance(h, bool) else not h, exc, label)
        return t

    def m_add_section(self, e, st, o, a, k):
        import configparser
        h, t = self.sec(st, o, a[0])
        e.raise_if(st, h, configparser.DuplicateSectionError, a[0])
        st.edit(o).f[f'has:{a[0]}'] = True

    def m_has_section(self, e, st, o, a, k):
        return self.sec(st, o, a[0])[0]

    def m_contains(self, e, st, o, a, k):
        return self.sec(st, o, a[0])[0]

    def m_getitem(self, e, st, o, a, k):
        self.need(e, st, o, a[0], KeyError)
        return st.alloc(Obj('section', {'ini': o, 'label': a[0]}))

    def m_has_option(self, e, st, o, a, k):
        h, t = self.sec(st, o, a[0])
        v = e.store_get(st, st.get(t).x, a[1])
        return And(h, Not(tobool(e.is_(st, v, UNBOUND))))

    def put(self, e, st, o, t, key, value):
        if kind(key) != 'str':
            raise Unsupported('option')
        if isinstance(value, Union) or kind(value) != 'str':
            e.raise_new(st, TypeError, 'option values must be strings')
        if not st.get(o).f['raw']:
            e.raise_if(st, z3.Contains(term(value), z3.StringVal('%')), ValueError, 'interpolation')
        st.edit(t).x = st.get(t).x.put(key, value)

    def m_set(self, e, st, o, a, k):
        import configparser
        t = self.need(e, st, o, a[0], configparser.NoSectionError)
        self.put(e, st, o, t, a[1], a[2])

    def look(self, e, st, t, key, k, exc, present=True, conv=None):
        v = e.store_get(st, st.get(t).x, key)
        out = []
        missing = []
        for g, x in alts(v):
            if x is UNBOUND:
                missing.append(And(g) if present is True else g)
            else:
                out.append((And(g, present), x))
        gone = Or(Not(present), *missing)
        if conv:
            conv_out = []
            for g, x in out:
                e.raise_if(st, And(g, Not(IS_BOOL(term(x)))), ValueError, 'not a boolean')
                conv_out.append((g, AS_BOOL(term(x))))
            out = conv_out
        if 'fallback' in k:
            return make_union(out + [(And(gone, h), y) for h, y in alts(k['fallback'])])
        e.raise_if(st, gone, exc, 'no option')
        return make_union(out)

    def m_get(self, e, st, o, a, k, conv=None):
        import configparser
        if not st.get(o).f['raw'] and not k.get('raw'):
            raise Unsupported('get with interpolation')
        h, t = self.sec(st, o, a[0])
        if 'fallback' not in k:
            e.raise_if(st, Not(tobool(h)), configparser.NoSectionError, a[0])
        return self.look(e, st, t, a[1], {x: y for x, y in k.items() if x == 'fallback'}, configparser.NoOptionError, h, conv)

    def m_getboolean(self, e, st, o, a, k):
        return self.m_get(e, st, o, a, k, True)

    def s_get(self, e, st, o, a, k, conv=None):
        f = st.get(o).f
        if not st.get(f['ini']).f['raw']:
            raise Unsupported('get with interpolation')
        h, t = self.sec(st, f['ini'], f['label'])
        fb = a[1] if len(a) > 1 else k.get('fallback')
        return self.look(e, st, t, a[0], {'fallback': fb}, KeyError, True, conv)

    def s_getboolean(self, e, st, o, a, k):
        return self.s_get(e, st, o, a, k, True)

    def s_getitem(self, e, st, o, a, k):
        f = st.get(o).f
        return self.look(e, st, self.sec(st, f['ini'], f['label'])[1], a[0], {}, KeyError)

    def s_setitem(self, e, st, o, a, k):
        f = st.get(o).f
        self.put(e, st, f['ini'], self.sec(st, f['ini'], f['label'])[1], a[0], a[1])

    def s_contains(self, e, st, o, a, k):
        f = st.get(o).f
        v = e.store_get(st, st.get(self.sec(st, f['ini'], f['label'])[1]).x, a[0])
        return Not(tobool(e.is_(st, v, UNBOUND)))

    # ---- files
    def load(self, e, st, o, enc, exists):
        """The parser (without sections so far) takes the sections of the file over."""
        d = st.get(self.file).f
        if any(x.startswith('has:') and v is not False for x, v in st.get(o).f.items()):
            raise Unsupported('reading into a parser with sections')
        for x in list(d):
            if x.startswith('has:') and d[x] is not False:
                l = x[4:]
                same_enc = d['enc'] == enc
                t = tab_term(st.get(d[f'tab:{l}']).x)
                h = d[x]
                if not same_enc:
                    t = e.fresh('misread', TS)
                st.edit(o).f[x] = And(exists, h)
                st.get(o).f[f'tab:{l}'] = st.alloc(Obj('dict', x=tab_store(t if exists is True else z3.If(tobool(exists), t, z3.K(STR, OS.absent)), OS)))

    def m_read(self, e, st, o, a, k):
        if not same(term(a[0]), self.path) if not isinstance(a[0], Ref) else True:
            raise Unsupported('another file')
        self.load(e, st, o, self.enc(k.get('encoding', a[1] if len(a) > 1 else None)), st.get(self.file).f['exists'])

    def m_read_file(self, e, st, o, a, k):
        self.load(e, st, o, st.get(a[0]).f['enc'], True)

    def m_write(self, e, st, o, a, k):
        if st.get(a[0]).f['mode'] != 'w':
            raise Unsupported('writing to a file opened for reading')
        for x, v in list(st.get(o).f.items()):
            if x.startswith('has:'):
                st.edit(self.file).f[x] = v
                st.get(self.file).f['tab:' + x[4:]] = st.alloc(Obj('dict', x=st.get(st.get(o).f['tab:' + x[4:]]).x))


def hook(names):

    def h(e, s, node, it, env, mod):
        m = map_of(s, it)
        if m is None or not isinstance(m[0], TabMap):
            return False
        names.append(str(m[0].t))
        loops.pointwise(e, s, node, m[0], m[1], env, mod, f'loop over {names[-1]}'[:60])
        return True

    return h


def setting(u):
    eng = u.engine()
    ini = Ini(eng)
    cls = eng.get_global('pywriter.config.configuration', 'Configuration')
    st = eng.start()
    eng.loop_hooks.append(hook([]))
    q = z3.String('q')
    eng.focus = [q]
    return eng, ini, cls, st, q


def config(eng, st, cls, s, o):
    """A configuration made by the constructor from tables."""
    a, b = (st.alloc(Obj('dict', x=tab_store(t, S))) for t, S in ((s, OS), (o, OB)))
    inst, st1, raised = eng.run(st, lambda x: eng.call(x, cls, [a, b], {}))
    eng.no_raise('the constructor never raises', raised)
    return inst, st1, a, b


def table(st, inst, name):
    v = st.get(inst).f[name]
    if not isinstance(v, Ref) or st.get(v).kind != 'dict':
        raise Unsupported(f'{name} is no dictionary')
    return tab_term(st.get(v).x)


def u_read(u):
    eng, ini, cls, st, q = setting(u)
    s0, o0 = z3.Const('settings', TS), z3.Const('options', TB)
    fs, fo = z3.Const('file_settings', TS), z3.Const('file_options', TS)
    exists, hs, ho = z3.Bools('exists has_SETTINGS has_OPTIONS')
    inst, st, a, b = config(eng, st, cls, s0, o0)
    ini.install_file(st, exists, {'SETTINGS': (hs, fs), 'OPTIONS': (ho, fo)})
    st.assume(z3.Implies(z3.And(exists, ho, OS.is_some(fo[q])), IS_BOOL(OS.val(fo[q]))))
    before = dict(st.get(ini.file).f)
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'read', [ini.path]))
    # an option that is no truth value raises; no other exception
    eng.no_raise('read raises for options that are no truth values only', raised, (ValueError,))
    eng.cover('read returns', st1)
    s1, o1 = table(st1, inst, 'settings'), table(st1, inst, 'options')
    want = z3.If(z3.And(OS.is_some(s0[q]), exists, hs, OS.is_some(fs[q])), fs[q], s0[q])
    eng.prove('each setting has the value of the file if it defines it, else the previous one; unknown settings are not added', st1, s1[q] == want)
    want = z3.If(z3.And(OB.is_some(o0[q]), exists, ho, OS.is_some(fo[q])), OB.some(AS_BOOL(OS.val(fo[q]))), o0[q])
    eng.prove('each option has the truth value of the file if it defines it, else the previous one; unknown options are not added', st1, o1[q] == want)
    eng.prove('reading does not change the file', st1, all(same(st1.get(ini.file).f.get(k), v) for k, v in before.items()))
    eng.prove('reading does not change the default tables', st1, z3.And(tab_term(st1.get(a).x)[q] == s0[q], tab_term(st1.get(b).x)[q] == o0[q]))


def u_roundtrip(u):
    eng, ini, cls, st, q = setting(u)
    s0, o0 = z3.Const('settings', TS), z3.Const('options', TB)
    s9, o9 = z3.Const('other_settings', TS), z3.Const('other_options', TB)
    inst, st, _, _ = config(eng, st, cls, s0, o0)
    other, st, _, _ = config(eng, st, cls, s9, o9)
    st.assume(OS.is_some(s0[q]) == OS.is_some(s9[q]), OB.is_some(o0[q]) == OB.is_some(o9[q]))
    ini.install_file(st, z3.Bool('exists'), {l: (z3.Bool(f'has_{l}'), z3.Const(f'file_{l}', TS)) for l in ('SETTINGS', 'OPTIONS', 'FOREIGN')})
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'write', [ini.path]))
    eng.no_raise('write never raises', raised)
    eng.cover('write returns', st1)
    eng.prove('writing does not change the settings', st1, table(st1, inst, 'settings')[q] == s0[q])
    eng.prove('writing does not change the options', st1, table(st1, inst, 'options')[q] == o0[q])
    r, st2, raised = eng.run(st1, lambda s: eng.call_method(s, other, 'read', [ini.path]))
    # the loop rule knows the entries of the focus key only: getboolean of another key is not bounded by it
    for s, e in raised:
        eng.prove('reading what was written raises for no option', s, False) if s.get(e).meta is not ValueError else None
    eng.cover('reading what was written returns', st2)
    eng.prove('each setting is restored', st2, table(st2, other, 'settings')[q] == s0[q])
    eng.prove('each option is restored as a truth value', st2, table(st2, other, 'options')[q] == o0[q])


def u_written_words(u):
    """What write() puts into the options section is a truth value for getboolean."""
    eng, ini, cls, st, q = setting(u)
    s0, o0 = z3.Const('settings', TS), z3.Const('options', TB)
    inst, st, _, _ = config(eng, st, cls, s0, o0)
    ini.install_file(st, True, {})
    r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'write', [ini.path]))
    f = st1.get(ini.file).f
    h = f.get('has:OPTIONS', False)
    t = tab_term(st1.get(f['tab:OPTIONS']).x)
    eng.prove('each option written is a word for its truth value', st1, z3.Implies(OB.is_some(o0[q]), z3.And(tobool(h), OS.is_some(t[q]), IS_BOOL(OS.val(t[q])), AS_BOOL(OS.val(t[q])) == OB.val(o0[q]))))
    eng.prove('nothing but the options is written to their section', st1, z3.Implies(z3.Not(OB.is_some(o0[q])), z3.Not(OS.is_some(t[q]))))


def u_set(u):
    for a, b in ((True, True), (True, False), (False, True), (False, False)):
        eng, ini, cls, st, q = setting(u)
        s0, o0 = z3.Const('settings', TS), z3.Const('options', TB)
        s9, o9 = z3.Const('new_settings', TS), z3.Const('new_options', TB)
        inst, st, da, db = config(eng, st, cls, s0, o0)
        eng.prove('a new configuration has the given settings and options', st, z3.And(table(st, inst, 'settings')[q] == s0[q], table(st, inst, 'options')[q] == o0[q]))
        eng.prove('a new configuration has tables of its own', st, not same(st.get(inst).f['settings'], da) and not same(st.get(inst).f['options'], db))
        na, nb = (st.alloc(Obj('dict', x=tab_store(t, S))) for t, S in ((s9, OS), (o9, OB)))
        kw = {}
        if a:
            kw['settings'] = na
        if b:
            kw['options'] = nb
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'set', [], kw))
        eng.no_raise('set never raises', raised)
        eng.prove(f'set replaces what is given ({a}, {b})', st1, z3.And(table(st1, inst, 'settings')[q] == (s9 if a else s0)[q], table(st1, inst, 'options')[q] == (o9 if b else o0)[q]))
        eng.prove('set makes copies', st1, not same(st1.get(inst).f['settings'], na) and not same(st1.get(inst).f['options'], nb))
    eng, ini, cls, st, q = setting(u)
    one, st1, _ = eng.run(st, lambda s: eng.call(s, cls, [], {}))
    two, st2, _ = eng.run(st1, lambda s: eng.call(s, cls, [], {}))
    for x in ('settings', 'options'):
        p, r = st2.get(one).f[x], st2.get(two).f[x]
        eng.prove(f'two configurations do not share their {x}', st2, isinstance(p, Ref) and isinstance(r, Ref) and not same(p, r))
        eng.prove(f'a configuration without defaults has no {x}', st2, Not(tobool(eng.truth(st2, p))))


UNITS = [('read', u_read), ('write and read', u_roundtrip), ('words for options', u_written_words), ('set and defaults', u_set)]
