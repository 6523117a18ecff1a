"""C07: the conversion protocol, for arbitrary sources, targets, answers and failures."""
import os
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import paths, scan, lib
from pyvc.lib import STR, U_STRIP

LEVEL = 'proof'
TRUSTED = ['reading and writing as stated by C05/C06: a write that raises leaves the target as it was, a write that ends normally has written it; reading changes no file',
           'the methods of the user interface do not raise', 'os.path.isfile tells whether the file exists']
ASSUMPTIONS = ['no other program changes the files during the conversion', 'the translated success message does not start with "!"', 'KeyboardInterrupt and SystemExit are not failures of reading or writing',
               'a subclass does not replace the protocol methods']
FILES = z3.ArraySort(STR, z3.BoolSort())
NORM = z3.Function('normpath', STR, STR)
BANG = z3.StringVal('!')


class World:
    """Ghost state: the files, what was written, the messages, the consent."""

    def __init__(self, eng, st, ui=True):
        self.eng = eng
        self.files0 = z3.Const('files', FILES)
        self.ref = st.alloc(Obj('world', {'files': self.files0, 'changed': False, 'agreed': False, 'asked': '', 'messages': 0, 'last': '', 'unasked': False, 'delegated': 0}))
        L, M = eng.libs, eng.libs['%methods']
        N = Native
        L['os.path'] = {'isfile': N('isfile', lambda e, s, a, k: e.lift(s, a[0], lambda x, v: z3.Select(x.get(self.ref).f['files'], term(v)) if kind(v) == 'str' else e.raise_new(x, TypeError, 'path')))}
        L['os.path']['exists'] = L['os.path']['isfile']
        eng.libs['%host'][os.path.normpath] = lambda e, s, a, k: e.lift(s, a[0], lambda x, v: NORM(term(v)) if kind(v) == 'str' else e.raise_new(x, TypeError, 'path'))

        def how(e, s, o, a, k):
            def f(x, v):
                if kind(v) != 'str':
                    raise Unsupported('message that is no text')
                return v
            m = e.lift(s, a[0], f)
            w = s.edit(self.ref)
            n = w.f['messages']
            w.f['messages'] = n + 1 if isinstance(n, int) else z3.simplify(term(n) + 1)
            w.f['last'] = m

        def ask(e, s, o, a, k):
            b = e.fresh('answer', z3.BoolSort())
            s.edit(self.ref).f['agreed'] = b
            s.edit(self.ref).f['asked'] = a[0]
            return b

        M[('ui', 'set_info_how')] = how
        M[('ui', 'ask_yes_no')] = ask
        M[('ui', 'set_info_what')] = lambda e, s, o, a, k: None
        M[('ui', 'show_warning')] = lambda e, s, o, a, k: None
        L['%attrs'][('ui', 'infoHowText')] = lambda e, s, o: e.fresh('info')

        def failing(e, s, what):
            # any exception, or Error with any text
            e.raise_if(s, e.fresh(f'{what}_fails', z3.BoolSort()), Exception, e.fresh(f'{what}_text'))

        def read(e, s, o, a, k):
            failing(e, s, 'read')

        def write(e, s, o, a, k):
            f = s.get(o).f
            failing(e, s, 'write')
            p = f['filePath']
            if isinstance(p, Union):
                p = e.narrow(s, p)
            for g, v in alts(p):
                if v is None:
                    e.raise_if(s, g, TypeError, 'path')
            p = e.narrow(s, p) if isinstance(p, Union) else p
            w = s.edit(self.ref)
            t = term(p)
            there = z3.Select(self.files0, t)
            w.f['unasked'] = Or(w.f['unasked'], And(there, Not(And(w.f['agreed'], z3.Contains(term(w.f['asked']), NORM(t))))))
            w.f['files'] = z3.Store(w.f['files'], t, True)
            w.f['changed'] = True
            return e.opt('result of write')

        M[('doc', 'read')] = read
        M[('doc', 'write')] = write
        for a in ('filePath', 'DESCRIPTION', 'EXTENSION', 'SUFFIX', 'scenesSplit', 'novel'):
            L['%attrs'][('doc', a)] = (lambda n: lambda e, s, o: s.get(o).f[n])(a)

        def setter(e, s, o, v):
            s.edit(o).f['novel'] = v

        eng.setattr_hooks = getattr(eng, 'setattr_hooks', [])
        def sh(e, s, o, n, v):
            if isinstance(o, Ref) and s.get(o).kind == 'doc':
                if n != 'novel':
                    raise Unsupported(f'{n} of a document is changed')
                s.edit(o).f['novel'] = v
                return True
            return False
        eng.setattr_hooks.append(sh)

    def doc(self, st, name):
        b = z3.Bool(f'{name}.path?none')
        return st.alloc(Obj('doc', {'filePath': Union([(b, None), (z3.Not(b), z3.String(f'{name}.path'))]), 'DESCRIPTION': z3.String(f'{name}.desc'), 'EXTENSION': z3.String(f'{name}.ext'),
                                    'SUFFIX': self.eng.opt(f'{name}.suffix'), 'scenesSplit': z3.Bool(f'{name}.split'), 'novel': None}))


def setup(u, mod='pywriter.converter.yw_cnv_ui', name='YwCnvUi'):
    eng = u.engine()
    w = World(eng, eng.global_state)
    cls = eng.get_global(mod, name)
    eng.get_global('pywriter.pywriter_globals', 'Error')
    eng.get_global('pywriter.model.novel', 'Novel')
    st = eng.start()
    inst = st.alloc(Obj('inst', {'ui': st.alloc(Obj('ui')), 'newFile': eng.opt('newFile')}, cls))
    src, tgt = w.doc(st, 'source'), w.doc(st, 'target')
    return eng, w, st, inst, src, tgt


def verdict(eng, w, st, inst, tgt, what, target=True):
    f = st.get(w.ref).f
    m = f['last']
    fails = eng.lift_pure(m, lambda v: z3.PrefixOf(BANG, term(v))) if hasattr(eng, 'lift_pure') else Or(*[And(g, z3.PrefixOf(BANG, term(v))) for g, v in alts(m)])
    nf = eng.getattr(st, inst, 'newFile')
    none = eng.is_(st, nf, None)
    eng.prove(f'{what}: exactly one result message', st, eng.eq(st, f['messages'], 1))
    eng.prove(f'{what}: a failure leaves the new-file path unset', st, Implies(fails, none))
    eng.prove(f'{what}: success sets the new-file path', st, Implies(Not(fails), Not(none)))
    eng.prove(f'{what}: a failure leaves the target as it was', st, Implies(fails, Not(f['changed'])))
    eng.prove(f'{what}: no existing file is overwritten unasked', st, Not(f['unasked']))
    for g, p in alts(nf):
        if p is None:
            continue
        ok = And(Not(fails), g)
        if tgt is not None:
            eng.prove(f'{what}: the new file is the target', st, Implies(ok, eng.eq(st, p, st.get(tgt).f['filePath'])))
        eng.prove(f'{what}: the new file exists', st, Implies(ok, z3.Select(f['files'], term(p))))
        eng.prove(f'{what}: the message names the new file', st, Implies(ok, Or(*[And(h, z3.Contains(term(v), NORM(term(p)))) for h, v in alts(m)])))


def u_protocol(method, fresh):

    def f(u):
        eng, w, st, inst, src, tgt = setup(u)
        if fresh:
            st.edit(inst).f['newFile'] = None
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, method, [src, tgt]))
        eng.no_raise(f'{method} never raises', raised)
        if st1 is None:
            u.undecided(method, 'no normal end')
            return
        eng.cover(f'{method} ends', st1)
        eng.cover(f'{method} may succeed', st1, Not(eng.is_(st1, eng.getattr(st1, inst, 'newFile'), None)))
        verdict(eng, w, st1, inst, tgt, method)
        if method == 'create_yw7':
            t = st1.get(tgt).f['filePath']
            for g, p in alts(t):
                if p is not None:
                    eng.prove('create_yw7: an existing project is never touched', st1, Implies(And(g, z3.Select(w.files0, term(p))), Not(st1.get(w.ref).f['changed'])))

    return f


CONVERTERS = [('pywriter.converter.yw7_converter', 'Yw7Converter'), ('pywriter.converter.yw7_exporter', 'Yw7Exporter'), ('pywriter.converter.yw7_importer', 'Yw7Importer')]


def u_run(mod, name):

    def f(u):
        eng, w, st, inst, src, tgt = setup(u, mod, name)
        # factories by contract: Error, or the objects
        err = eng.get_global('pywriter.pywriter_globals', 'Error')

        sfx = eng.opt('suffix')

        def make(which):
            def g(e, s, o, a, k):
                fac = s.get(o).kind
                e.prove(f'{fac} gets the path of the source file', s, e.eq(s, a[0], z3.String('sourcePath')))
                if fac == 'importTargetFactory':
                    e.prove('importTargetFactory gets the suffix of the document', s, e.eq(s, k.get('suffix'), s.get(src).f['SUFFIX']))
                if fac == 'exportTargetFactory':
                    e.prove('exportTargetFactory gets the given suffix', s, e.eq(s, k.get('suffix'), sfx))
                e.raise_if(s, e.fresh(f'{which}_error', z3.BoolSort()), err, e.fresh(f'{which}_text'))
                return {'source': (src, None), 'target': (None, tgt), 'new': (src, tgt)}[which]
            return g

        M = eng.libs['%methods']
        for fac, which in (('exportSourceFactory', 'source'), ('importSourceFactory', 'source'), ('exportTargetFactory', 'target'), ('importTargetFactory', 'target'), ('newProjectFactory', 'new')):
            M[(fac, 'make_file_objects')] = make(which)
        st = st.fork()
        # which factories there are: as the constructor leaves them
        made, s0, raised = eng.run(st.fork(), lambda s: eng.call(s, st.get(inst).meta, [], {}))
        eng.no_raise('a converter can be made', raised)
        for fac in ('exportSourceFactory', 'importSourceFactory', 'exportTargetFactory', 'importTargetFactory', 'newProjectFactory'):
            v = s0.get(made).f.get(fac)
            st.edit(inst).f[fac] = None if v is None else st.alloc(Obj(fac))
        # the three protocols by their contracts
        for m in ('export_from_yw', 'import_to_yw', 'create_yw7'):

            def contract(e, s, a, k, m=m):
                me, so, ta = a
                if not (same(so, src) and same(ta, tgt)):
                    raise Unsupported('other arguments')
                if m == 'create_yw7':
                    e.prove('precondition of create_yw7: the new-file path is unset', s, e.is_(s, e.getattr(s, me, 'newFile'), None))
                o = s.edit(w.ref)
                n = o.f['messages']
                o.f['messages'] = n + 1 if isinstance(n, int) else z3.simplify(term(n) + 1)
                msg = e.fresh('message')
                o.f['last'] = msg
                ok = Not(z3.PrefixOf(BANG, msg))
                p = z3.String('target.path')
                b = z3.Bool('target.path?none')
                s.assume(Implies(ok, And(z3.Not(b), z3.Contains(msg, NORM(p)))))
                o.f['files'] = z3.If(ok, z3.Store(o.f['files'], p, True), o.f['files'])
                o.f['changed'] = ok
                s.edit(me).f['newFile'] = Union([(Not(ok), None), (ok, p)])

            eng.contracts[f'pywriter.converter.yw_cnv_ui.YwCnvUi.{m}'] = contract
        P = z3.String('sourcePath')
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'run', [P], {'suffix': sfx}))
        eng.no_raise(f'{name}.run never raises', raised)
        if st1 is None:
            u.undecided('run', 'no normal end')
            return
        eng.cover('run ends', st1)
        eng.cover('run may succeed', st1, Not(eng.is_(st1, eng.getattr(st1, inst, 'newFile'), None)))
        verdict(eng, w, st1, inst, tgt, f'{name}.run')
        eng.prove(f'{name}.run: a missing source file is a failure', st1, Implies(Not(z3.Select(w.files0, P)), eng.is_(st1, eng.getattr(st1, inst, 'newFile'), None)))

    return f


def u_frame(u):
    """The package calls the protocol methods and the file operations as specified: converters themselves change no file."""
    bad = [x for x in scan.effect_calls() if x[0].startswith('pywriter.converter.')]
    for q, what, line in bad:
        ok = what in ('zipfile.ZipFile', 'ZipFile') and q.endswith('NewProjectFactory.make_file_objects')
        u.fact(f'{q}: {what} only reads', ok, f'line {line}', status=None if ok else 'unknown')
    u.fact('file operations of the converters looked at', True)
    for c in sorted(scan.subclasses('YwCnvUi') - {'pywriter.converter.yw_cnv_ui.YwCnvUi'}):
        m, n = c.rsplit('.', 1)
        eng = u.engine()
        cls = eng.get_global(m, n)
        own = set(eng.global_state.get(cls).f) & {'export_from_yw', 'import_to_yw', 'create_yw7', 'check', '_confirm_overwrite'}
        u.fact(f'{c} keeps the protocol methods', not own, str(own), status=None if not own else 'unknown')


def u_factories(mod, name):
    """The contract of the factories used above: the objects, or Error (also if no temporary directory can be made)."""

    def f(u):
        from . import c20
        eng, st, _ = c20.setup(u, None, mod, name)
        eng.libs['tempfile'] = {'mkdtemp': Native('mkdtemp', lambda e, s, a, k: (e.raise_if(s, e.fresh('mkdtemp_fails', z3.BoolSort()), OSError, 'mkdtemp'), e.fresh('tempdir'))[1])}
        err = eng.get_global('pywriter.pywriter_globals', 'Error')
        eng.libs['%methods'][('str', 'endswith')] = lambda e, s, o, a, k: e.fresh('endswith', z3.BoolSort())  # any name
        eng.exact = False
        P = z3.String('path')
        for fac in ('exportSourceFactory', 'importSourceFactory', 'exportTargetFactory', 'importTargetFactory', 'newProjectFactory'):
            v = st.get(eng.converter).f.get(fac)
            if v is None:
                continue
            sfx = [None] if fac == 'newProjectFactory' else [None, 'x'] if fac != 'importTargetFactory' else list(c20.IMPORT)
            for x in sfx:
                s0 = st.fork()
                x = eng.opt('suffix') if x == 'x' else x
                r, st1, raised = eng.run(s0, lambda s: eng.call_method(s, v, 'make_file_objects', [z3.Concat(P, z3.StringVal(x + c20.IMPORT[x])) if fac == 'importTargetFactory' else z3.Concat(P, z3.StringVal('.yw7')) if fac == 'exportTargetFactory' else P], {'suffix': x}))
                eng.no_raise(f'{name}.{fac} raises nothing but Error' + (f' ({x})' if isinstance(x, str) else ''), raised, [err])

    return f


# ------------------------------------------------------------------ user interfaces
UIS = [('pywriter.ui.ui', 'Ui'), ('pywriter.ui.ui_cmd', 'UiCmd'), ('pywriter.ui.ui_mb', 'UiMb'), ('pywriter.ui.ui_tk', 'UiTk'), ('pywriter.ui.main_tk', 'MainTk')]


def u_ui(mod, name):

    def f(u):
        eng = u.engine()
        L = eng.libs

        class Box:
            pass

        def rec(channel):
            def g(e, s, a, k):
                o = s.edit(eng.log)
                o.f['calls'] = o.f['calls'] + ((channel, tuple(a), tuple(sorted(k.items(), key=lambda x: x[0]))),)
            return Native(channel, g)

        eng.log = eng.global_state.alloc(Obj('log', {'calls': ()}))
        L['builtins']['print'] = rec('print')
        L['%host'][print] = rec('print').fn
        err = eng.global_state.alloc(Obj('stream'))
        L['%methods'][('stream', 'write')] = lambda e, s, o, a, k: rec('stderr').fn(e, s, a, k)
        L['sys']['stderr'] = err
        box = {n: rec(n) for n in ('showerror', 'showinfo', 'showwarning')}
        box['askyesno'] = rec('askyesno')
        L['tkinter.messagebox'] = box
        tk = {n: Native(n, lambda e, s, a, k: s.alloc(Obj('widget'))) for n in ('Tk', 'Label', 'Button', 'Frame', 'Menu', 'Toplevel')}
        L['tkinter'] = tk
        for n in ('config', 'configure'):
            L['%methods'][('widget', n)] = lambda e, s, o, a, k: rec('config').fn(e, s, a, k)
        try:
            cls = eng.get_global(mod, name)
        except Unsupported:
            raise
        st = eng.start()
        inst = st.alloc(Obj('inst', {'infoHowText': eng.opt('oldHow'), 'infoWhatText': '', 'title': z3.String('title'), 'statusBar': st.alloc(Obj('widget')),
                                     '_processInfo': st.alloc(Obj('widget')), '_appInfo': st.alloc(Obj('widget'))}, cls))
        msg = z3.String('message')
        core = U_STRIP(z3.SubString(msg, 1, z3.Length(msg)))
        for fail in (True, False):
            s0 = st.fork()
            s0.assume(z3.PrefixOf(BANG, msg) if fail else z3.Not(z3.PrefixOf(BANG, msg)))
            what = f'{name}: {"failure" if fail else "success"}'
            r, st1, raised = eng.run(s0, lambda s: eng.call_method(s, inst, 'set_info_how', [msg]))
            eng.no_raise(f'{what}: never raises', raised)
            if st1 is None:
                continue
            calls = st1.get(eng.log).f['calls']
            info = eng.getattr(st1, inst, 'infoHowText')
            shown = core if fail else msg
            texts = []
            if name in ('Ui', 'UiCmd'):
                want = z3.Concat(z3.StringVal('FAIL: '), core) if fail else msg
                eng.prove(f'{what}: the message is kept as failure' if fail else f'{what}: the message is kept as it is', st1, eng.eq(st1, info, want))
                if name == 'Ui':
                    out = [c for c in calls if c[0] == 'stderr']
                    if fail:
                        u.shape(f'{what}: one error output', len(out) == 1 and len(calls) == 1)
                        for c in out:
                            eng.prove(f'{what}: shown as error', st1, z3.Contains(term(c[1][0]), term(want)))
                    else:
                        u.shape(f'{what}: no error output', not out)
                else:
                    u.shape(f'{what}: one line is printed', len(calls) == 1 and calls[0][0] == 'print' and len(calls[0][1]) == 1)
                    for c in calls:
                        eng.prove(f'{what}: printed', st1, eng.eq(st1, c[1][0], want))
            elif name == 'UiMb':
                u.shape(f'{what}: one box of the right kind', [c[0] for c in calls] == ['showerror' if fail else 'showinfo'])
                for c in calls:
                    eng.prove(f'{what}: the text without the marker' if fail else f'{what}: the text', st1, eng.eq(st1, c[1][-1], shown))
            else:
                eng.prove(f'{what}: the message is kept', st1, eng.eq(st1, info, shown))
                t = [v for c in calls for k, v in c[2] if k == 'text']
                b = [v for c in calls for k, v in c[2] if k in ('bg', 'background')]
                u.shape(f'{what}: the text and the colour are set', bool(t) and bool(b))
                if t and b:
                    eng.prove(f'{what}: the text is shown', st1, eng.eq(st1, t[-1], shown))
                    eng.prove(f'{what}: the colour', st1, eng.eq(st1, b[-1], 'red' if fail else 'green'))

    return f


UNITS = [(m, u_protocol(m, m == 'create_yw7')) for m in ('export_from_yw', 'import_to_yw', 'create_yw7')] + [(f'{n}.run', u_run(m, n)) for m, n in CONVERTERS] + [(f'factories of {n}', u_factories(m, n)) for m, n in CONVERTERS] + [('frame', u_frame)] + \
    [(f'{n}.set_info_how', u_ui(m, n)) for m, n in UIS]
