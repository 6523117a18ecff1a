"""C20: the factories and the path setter, for arbitrary file names."""
import os
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import paths
from . import c07
from pyvc.lib import STR
from pyvc.paths import cat, parts

LEVEL = 'proof'
TRUSTED = paths.TRUSTED + ['os.path.isfile is a function of the path while the factory runs', 'zipfile: reading a document gives its content or raises']
ASSUMPTIONS = ['projects and documents have a name before suffix and extension', 'what follows the last suffix is looked at case-sensitively, as documented']
ISFILE = z3.Function('isfile', STR, z3.BoolSort())
# the documented kinds
EXPORT = {'': '.odt', '_proof': '.odt', '_manuscript': '.odt', '_brf_synopsis': '.odt', '_scenes': '.odt', '_chapters': '.odt', '_parts': '.odt',
          '_characters': '.odt', '_items': '.odt', '_locations': '.odt', '_charlist': '.ods', '_loclist': '.ods', '_itemlist': '.ods', '_scenelist': '.ods',
          '_xref': '.odt', '_notes': '.odt', '_todo': '.odt'}
IMPORT = {k: v for k, v in EXPORT.items() if k not in ('', '_xref', '_brf_synopsis')}
NO_IMPORT = ['_xref', '_brf_synopsis']


def S(x):
    return z3.StringVal(x)


def norm(t):
    """The path with slashes only."""
    out = []
    for p in parts(t):
        l = paths.lit(p)
        out.append(z3.StringVal(l.replace('\\', '/')) if l is not None else paths.U_REPL(p, S('\\'), S('/')))
    return cat(out)


def setup(u, attr, mod='pywriter.converter.yw7_converter', name='Yw7Converter'):
    """A converter with its factories, as its constructor makes it."""
    eng = u.engine()
    paths.install(eng)
    eng.libs['os.path'] = {n: Native(f'os.path.{n}', lambda e, s, a, k: e.lift(s, a[0], lambda x, v: ISFILE(term(v)) if kind(v) == 'str' else e.raise_new(x, TypeError, 'path'))) for n in ('isfile', 'exists')}
    HEAD = z3.Bool('content has the outline mark')

    def zip_(e, st, a, k):
        e.raise_if(st, e.fresh('zip_fails', z3.BoolSort()), OSError)
        return st.alloc(Obj('zip'))

    M = eng.libs['%methods']
    M[('zip', '__enter__')] = lambda e, s, o, a, k: o
    M[('zip', '__exit__')] = lambda e, s, o, a, k: None
    M[('zip', 'close')] = lambda e, s, o, a, k: None

    def zread(e, st, o, a, k):
        e.raise_if(st, e.fresh('zip_fails', z3.BoolSort()), KeyError)
        return st.alloc(Obj('bytes'))

    def has(e, st, o, a, k):
        if a[0] != b'Heading_20_3':
            raise Unsupported('other mark in the document')
        return HEAD

    M[('zip', 'read')] = zread
    M[('bytes', '__contains__')] = has
    eng.libs['tempfile'] = {'mkdtemp': Native('mkdtemp', lambda e, s, a, k: e.fresh('tempdir'))}
    eng.libs['zipfile'] = {'ZipFile': Native('ZipFile', zip_)}
    cls = eng.get_global(mod, name)
    eng.HEAD = HEAD
    st = eng.start()
    ui = z3.Const('ui', PYOBJ)
    inst, st, raised = eng.run(st, lambda s: eng.call(s, cls, [], {}))
    eng.no_raise('a converter can be made', raised)
    eng.converter = inst
    if attr is None:
        return eng, st, None
    fac = eng.getattr(st, inst, attr)
    return eng, st, fac


def classes(eng, st, fac):
    return [v for _, _, v in st.get(st.get(fac).f['_fileClasses']).x]


def attr(eng, st, cls, name):
    return eng.class_lookup(st, cls, name)


def result(eng, st, r, n):
    """The file object in the result (the other place must be None)."""
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported('other kind of result')
    return r[n], r[1 - n]


def is_kind(eng, u, st, v, cls, path, what):
    """v is an object of exactly this class with this path."""
    for g, x in alts(v):
        if not (isinstance(x, Ref) and st.get(x).kind == 'inst'):
            eng.prove(f'{what}: there is a file object', st, Not(g))
            continue
        m = st.get(x).meta
        eng.prove(f'{what}: the kind is the one of the name', st, Implies(g, same(m, cls)))
        eng.prove(f'{what}: the path', st, Implies(g, eng.eq(st, eng.getattr(st, x, 'filePath'), path)))


def by_name(eng, st, fac, suffix, ext):
    got = [c for c in classes(eng, st, fac) if attr(eng, st, c, 'SUFFIX') == suffix and attr(eng, st, c, 'EXTENSION') == ext]
    return got[0] if len(got) == 1 else None


def run(eng, st, fac, path, **kw):
    return eng.run(st, lambda s: eng.call_method(s, fac, 'make_file_objects', [path], kw))


def u_lists(u):
    """The class lists of the converter contain the documented kinds, each once."""
    for a, spec in (('exportTargetFactory', EXPORT), ('importSourceFactory', IMPORT)):
        eng, st, fac = setup(u, a)
        got = sorted((attr(eng, st, c, 'SUFFIX'), attr(eng, st, c, 'EXTENSION')) for c in classes(eng, st, fac))
        u.fact(f'{a}: the documented kinds, each once', got == sorted(spec.items()), f'{got}')
    for a in ('exportSourceFactory', 'importTargetFactory'):
        eng, st, fac = setup(u, a)
        got = [(attr(eng, st, c, 'SUFFIX') or '', attr(eng, st, c, 'EXTENSION')) for c in classes(eng, st, fac)]
        u.fact(f'{a}: yw7 projects', got == [('', '.yw7')], f'{got}')


def u_export_target(u):
    eng, st, fac = setup(u, 'exportTargetFactory')
    B = z3.String('base')
    err = eng.get_global('pywriter.pywriter_globals', 'Error')
    for suffix, ext in EXPORT.items():
        cls = by_name(eng, st, fac, suffix, ext)
        if cls is None:
            u.undecided(f'export {suffix!r}', 'no such class')
            continue
        s0 = st.fork()
        r, st1, raised = run(eng, s0, fac, z3.Concat(B, S('.yw7')), suffix=suffix)
        eng.no_raise(f'export {suffix!r} is supported', raised)
        if st1 is None:
            continue
        v, o = result(eng, st1, r, 1)
        u.fact(f'export {suffix!r}: no source is made', o is None)
        is_kind(eng, u, st1, v, cls, norm(z3.Concat(B, S(suffix + ext))), f'export {suffix!r}')
    x = z3.String('suffix')
    s0 = st.fork()
    s0.assume(*[x != S(k) for k in EXPORT])
    eng.cover('unknown suffix', s0)
    r, st1, raised = run(eng, s0, fac, z3.Concat(B, S('.yw7')), suffix=x)
    if st1 is not None:
        eng.prove('an unknown suffix is refused', st1, False)
    u.fact('an unknown suffix raises', bool(raised), status=None if raised else 'unknown')
    eng.no_raise('an unknown suffix raises nothing but Error', raised, [err])


def u_export_source(u):
    eng, st, fac = setup(u, 'exportSourceFactory')
    err = eng.get_global('pywriter.pywriter_globals', 'Error')
    B, P = z3.String('base'), z3.String('path')
    cls = classes(eng, st, fac)[0]
    r, st1, raised = run(eng, st.fork(), fac, z3.Concat(B, S('.yw7')))
    eng.no_raise('a project is recognised', raised)
    v, o = result(eng, st1, r, 0)
    is_kind(eng, u, st1, v, cls, norm(z3.Concat(B, S('.yw7'))), 'project')
    s0 = st.fork()
    s0.assume(z3.Not(z3.SuffixOf(S('.yw7'), P)))
    r, st1, raised = run(eng, s0, fac, P)
    if st1 is not None:
        eng.prove('nothing else is taken for a project', st1, False)
    eng.no_raise('another file raises nothing but Error', raised, [err])


def u_import_source(u):
    eng, st, fac = setup(u, 'importSourceFactory')
    err = eng.get_global('pywriter.pywriter_globals', 'Error')
    B, P = z3.String('base'), z3.String('path')
    for suffix, ext in IMPORT.items():
        u.fact(f'{suffix}: no other kind ends with it', not any((a + b).endswith(suffix + ext) for a, b in IMPORT.items() if a != suffix))
        cls = by_name(eng, st, fac, suffix, ext)
        if cls is None:
            u.undecided(f'import {suffix!r}', 'no such class')
            continue
        p = z3.Concat(B, S(suffix + ext))
        r, st1, raised = run(eng, st.fork(), fac, p)
        eng.no_raise(f'a name that ends with {suffix}{ext} is recognised', raised)
        if st1 is None:
            continue
        v, o = result(eng, st1, r, 0)
        u.fact(f'import {suffix!r}: no target is made', o is None)
        is_kind(eng, u, st1, v, cls, norm(p), f'import {suffix!r}')
    s0 = st.fork()
    s0.assume(*[z3.Not(z3.SuffixOf(S(a + b), P)) for a, b in IMPORT.items()])
    eng.cover('other name', s0)
    r, st1, raised = run(eng, s0, fac, P)
    if st1 is not None:
        eng.prove('any other name is refused', st1, False)
    eng.no_raise('another name raises nothing but Error', raised, [err])


def u_import_target(u):
    eng, st, fac = setup(u, 'importTargetFactory')
    err = eng.get_global('pywriter.pywriter_globals', 'Error')
    B = z3.String('base')
    cls = classes(eng, st, fac)[0]
    for suffix, ext in list(IMPORT.items()) + [('', '.odt')]:
        project = z3.Concat(B, S('.yw7'))
        for there in (True, False):
            s0 = st.fork()
            s0.assume(ISFILE(project) if there else z3.Not(ISFILE(project)))
            r, st1, raised = run(eng, s0, fac, z3.Concat(B, S(suffix + ext)), suffix=suffix)
            if there:
                eng.no_raise(f'{suffix!r}: the project is found', raised)
                if st1 is None:
                    continue
                v, o = result(eng, st1, r, 1)
                u.fact(f'{suffix!r}: no source is made', o is None)
                is_kind(eng, u, st1, v, cls, norm(project), f'target of {suffix!r}')
            else:
                if st1 is not None:
                    eng.prove(f'{suffix!r}: refused without the project', st1, False)
                eng.no_raise(f'{suffix!r}: nothing but Error', raised, [err])


def u_new(u):
    eng, st, fac = setup(u, 'newProjectFactory')
    err = eng.get_global('pywriter.pywriter_globals', 'Error')
    B, P = z3.String('base'), z3.String('path')
    yw = eng.get_global('pywriter.yw.yw7_file', 'Yw7File')
    outline = eng.get_global('pywriter.odt_r.odt_r_outline', 'OdtROutline')
    wip = eng.get_global('pywriter.odt_r.odt_r_import', 'OdtRImport')
    st = st.fork()
    for c in (yw, outline, wip):
        for oid, o in eng.start().heap.items():
            st.heap.setdefault(oid, o)
    # documents not meant to be written back
    for n in NO_IMPORT:
        for ext in ('.odt', '.ods', '.txt'):
            r, st1, raised = run(eng, st.fork(), fac, z3.Concat(B, S(n + ext)))
            if st1 is not None:
                eng.prove(f'{n}{ext} is refused', st1, False)
            eng.no_raise(f'{n}{ext}: nothing but Error', raised, [err])
    # other text documents
    s0 = st.fork()
    s0.assume(*[z3.Not(z3.SuffixOf(S(n), B)) for n in NO_IMPORT])
    r, st1, raised = run(eng, s0, fac, z3.Concat(B, S('.odt')))
    eng.no_raise('a text document is accepted or Error is raised', raised, [err])
    if st1 is not None:
        eng.cover('new project', st1)
        src, tgt = result(eng, st1, r, 0)
        is_kind(eng, u, st1, tgt, yw, norm(z3.Concat(B, S('.yw7'))), 'new project')
        for g, x in alts(src):
            m = st1.get(x).meta
            eng.prove('outline or work in progress', st1, Implies(g, Or(And(eng.HEAD, same(m, outline)), And(Not(eng.HEAD), same(m, wip)))))
            eng.prove('source path', st1, Implies(g, eng.eq(st1, eng.getattr(st1, x, 'filePath'), norm(z3.Concat(B, S('.odt'))))))
    # a kind in the list of the factory is taken for its own ending; without such an ending the file is refused
    kinds = [((attr(eng, st, c, 'SUFFIX')), attr(eng, st, c, 'EXTENSION'), c) for c in classes(eng, st, fac)]
    for suffix, ext, c in kinds:
        if suffix is None or ext == '.odt':
            continue
        s0 = st.fork()
        s0.assume(*[z3.Not(z3.SuffixOf(S(n), z3.Concat(B, S(suffix)))) for n in NO_IMPORT])
        r, st1, raised = run(eng, s0, fac, z3.Concat(B, S(suffix + ext)))
        eng.no_raise(f'new project from {suffix}{ext}', raised)
        src, tgt = result(eng, st1, r, 0)
        is_kind(eng, u, st1, src, c, norm(z3.Concat(B, S(suffix + ext))), f'new project from {suffix}{ext}')
        is_kind(eng, u, st1, tgt, yw, norm(z3.Concat(B, S(suffix + '.yw7'))), f'new project from {suffix}{ext}')
    s0 = st.fork()
    s0.assume(z3.Not(z3.SuffixOf(S('.odt'), P)), *[z3.Not(z3.SuffixOf(S(a + b), P)) for a, b, _ in kinds if a is not None])
    r, st1, raised = run(eng, s0, fac, P)
    if st1 is not None:
        eng.prove('another file is refused', st1, False)
    eng.no_raise('another file: nothing but Error', raised, [err])


def u_setter(u):
    """A file object accepts the paths of its kind only; a refused path changes nothing."""
    for a in ('exportTargetFactory', 'importSourceFactory', 'importTargetFactory'):
        eng, st, fac = setup(u, a)
        P = z3.String('path')
        for c in classes(eng, st, fac):
            suf, ext = attr(eng, st, c, 'SUFFIX') or '', attr(eng, st, c, 'EXTENSION')
            s0 = st.fork()
            old = {'_filePath': z3.String('old'), 'projectName': z3.String('pn'), 'projectPath': z3.String('pp')}
            inst = s0.alloc(Obj('inst', dict(old), c))
            nm = attr(eng, st, c, '__name__') if False else f'{suf}{ext} ({a})'
            r, st1, raised = eng.run(s0, lambda s: eng.setattr(s, inst, 'filePath', P))
            eng.no_raise(f'{nm}: setting the path never raises', raised)
            own = z3.SuffixOf(S((suf + ext).lower()), paths.U_LOWER(norm(P)))
            f = st1.get(inst).f
            eng.prove(f'{nm}: a path of the own kind is stored', st1, Implies(own, eng.eq(st1, f['_filePath'], norm(P))))
            for k, v in old.items():
                eng.prove(f'{nm}: another path changes nothing ({k})', st1, Implies(Not(own), eng.eq(st1, f[k], v)))


UNITS = [('kinds', u_lists), ('export target', u_export_target), ('export source', u_export_source), ('import source', u_import_source), ('import target', u_import_target),
         ('new project', u_new), ('path setter', u_setter),
         ('run', c07.u_run('pywriter.converter.yw7_converter', 'Yw7Converter'))]
