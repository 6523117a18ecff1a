"""C05: the write protocols, with a failure possible at every file operation and an obligation at every crash point."""
import ast
import os
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import scan, loops, fs as fsm
from pyvc.fs import FS, Content, COMPLETE, arbitrary_strings
from pyvc.models import map_of

LEVEL = 'proof'
UNIT_LIMIT = 200
TRUSTED = fsm.TRUSTED + ['the failure of an operation raises a subclass of Exception at that operation; renaming the backup back, and changing back to the working directory, do not fail',
                         'ElementTree.write and the zipfile module change no file but the one they write']
ASSUMPTIONS = ['generating the text or the element tree may raise any exception but has no effect on files (checked by the frame unit over names of the functions)',
               'the object of an export is released after the export, so that __del__ runs (CPython)']
GENERATORS = {'_get_text', '_build_element_tree', 'get_languages', 'check_locale'}


class AnyFailure(Exception):
    pass


def writer_classes():
    """Concrete classes with a write method for existing targets: (module, class, kind)."""
    out = []
    odf = scan.subclasses('OdfFile')
    for q in sorted(scan.subclasses('FileExport')):
        out.append(tuple(q.rsplit('.', 1)) + ('odf' if q in odf else 'text',))
    out.append(('pywriter.yw.yw7_file', 'Yw7File', 'yw7'))
    return out


RELEVANT = ['write', '_set_up', '_tear_down', 'write_content_xml', 'filePath', '__del__', '_write_element_tree', '_postprocess_xml_file', 'is_locked', '_CDATA_TAGS', '_ODF_COMPONENTS']


def groups():
    """One representative per combination of methods."""
    from pyvc.engine import Engine
    eng = Engine()
    from pyvc.state import State
    FS(eng, eng.global_state)
    out = {}
    for m, c, kind_ in writer_classes():
        cls = eng.get_global(m, c)
        st = eng.global_state
        sig = []
        for a in RELEVANT:
            v = eng.class_lookup(st, cls, a)
            if isinstance(v, PropVal):
                v = v.fget
            if isinstance(v, Ref):
                v = tuple(str(x[2]) for x in st.get(v).x)
            sig.append(v.qualname if isinstance(v, FuncVal) else repr(v))
        out.setdefault(tuple(sig), (m, c, kind_, []))[3].append(f'{m}.{c}')
    return list(out.values())


def u_write(mod, name, kind_, existing):

    def f(u):
        eng, fs, st, cls, inst = setting(u, mod, name)
        p = z3.String('filePath')
        kp = fs.target(st, p)
        kb = fs.target(st, z3.Concat(p, z3.StringVal('.bak')))
        kt = fs.K(st, fs.cwd0, fs.tmp)
        old = z3.Select(fs.init, kp)
        st.assume(Content.is_data(old) if existing else Content.is_absent(old))
        if kind_ == 'odf':
            eng.contracts[resolve(eng, st, cls, '_set_up').qualname] = inside_contract(fs)
            eng.contracts[resolve(eng, st, cls, 'write_content_xml').qualname] = inside_contract(fs)
        # the restoring rename is assumed to work
        fs.never_fails = lambda s, op, k: k == kb if op == 'replace' and existing else k == fs.K(s, fs.cwd0, fs.cwd0) if op == 'chdir' else False

        def monitor(s, what):
            if existing:
                eng.prove(f'crash point "{what}" in {eng.cur_func[-1].split(".")[-1] if eng.cur_func else ""} (line {getattr(getattr(eng, "call_node", None), "lineno", "?")}): the previous content is complete under one of the two names',
                          s, z3.Or(z3.Select(s.get(fs.ref).f['t'], kp) == old, z3.Select(s.get(fs.ref).f['t'], kb) == old))

        fs.monitor = monitor
        t = f'{name}.write, target ' + ('exists' if existing else 'is new')
        seen = dict(ok=0, fail=0)

        def one():
            # the write operations fail with an operating system error, or with another exception
            fs.exc = (None, AnyFailure)[eng.choose(2)]
            s0 = st.fork()
            r, st1, raised = eng.run(s0, lambda s: eng.call_method(s, inst, 'write', []))
            if os.environ.get('PYVC_SHOW'):
                print([(e, s.get(e).f, what_failed(s)) for s, e in raised], st1 is not None)
            for s, e in raised:
                seen['fail'] += 1
                if existing:
                    eng.prove(f'{t}: after failure {seen["fail"]} ({what_failed(s)}) the previous file is in place with unchanged content', s, z3.Select(s.get(fs.ref).f['t'], kp) == old)
            if st1 is None:
                return
            seen['ok'] += 1
            if seen['ok'] == 1:
                eng.cover(f'{t}: may succeed', st1)
            now = st1.get(fs.ref).f
            new = z3.Select(now['t'], kp)
            eng.prove(f'{t}: on success {seen["ok"]} the file is complete', st1, z3.And(Content.is_data(new), COMPLETE(Content.id(new))))
            if existing:
                eng.prove(f'{t}: on success {seen["ok"]} the .bak file has the previous content', st1, z3.Select(now['t'], kb) == old)
            eng.prove(f'{t}: on success {seen["ok"]} the file name of the object is as before', st1, eng.eq(st1, st1.get(inst).f['_filePath'], p))
            if kind_ == 'odf':
                eng.prove(f'{t}: on success {seen["ok"]} the temporary directory is gone unless it cannot be deleted', st1, z3.Or(Content.is_absent(z3.Select(now['t'], kt)), *cannot_delete(st1)))

        paths = eng.explore(one)
        u.fact(f'{t}: failures are reported', seen['fail'] > 0, status=None if seen['fail'] else 'unknown')
        u.fact(f'{t}: may succeed', seen['ok'] > 0, f'{paths} paths', status=None if seen['ok'] else 'unknown')

    return f


def what_failed(s):
    x = [str(b).split('!')[0] for b in s.pc if z3.is_const(b) and ('fails' in str(b))]
    return x[-1] if x else '?'


def _now(e, o, n):
    if isinstance(o, Native) and o.name in ('datetime', 'date') and n in ('now', 'today'):
        return Native('now', lambda e2, s, a, k: s.alloc(Obj('moment')))
    if isinstance(o, Ref) and e.global_state is not None:
        pass
    return NotImplemented


def any_loop(eng, st, node, it, env, mod):
    """Loop over a symbolic list of lines: everything it may change is arbitrary; file operations are not among it."""
    from pyvc.models import seq_list
    t = seq_list(st, it)
    if t is None:
        return False

    def havoc(s, oid, k, old, new):
        if k == '.x':
            return (run(eng.fresh('list', loops.SEQ)),)
        srt = loops.sort_of(old, new) if old is not UNBOUND else None
        return eng.fresh(k, srt) if srt is not None else HAVOC

    loops.for_loop(eng, st, node, env, mod, 'loop over lines', lambda s, k: t[k], lambda lp, s, k: z3.BoolVal(True), havoc=havoc, length=z3.Length(t))
    return True


def generator_functions():
    out = {}
    for mod, tree in scan.modules():
        for q, fn, cls in scan.functions(tree, mod):
            if cls and fn.name in GENERATORS:
                out[q] = (cls, fn.name)
    return out


def resolve(eng, st, cls, name):
    v = eng.class_lookup(st, cls, name)
    if not isinstance(v, FuncVal):
        raise Unsupported(f'no method {name}')
    return v


def inside_contract(fs):
    """Proved by the "preparing" units: may fail; changes files in the temporary directory only; keeps the working directory."""

    def c(e, s, a, k):
        fs.change_inside(s)
        e.raise_if(s, e.fresh('preparing_fails', z3.BoolSort()), AnyFailure, 'preparing fails')

    return c


def u_inside(mod, name, method):
    """Contract of _set_up and write_content_xml: they work in the temporary directory."""

    def f(u):
        eng, fs, st, cls, inst = setting(u, mod, name)
        kp, kb, kq = (fs.target(st, x) for x in (z3.String('filePath'), z3.Concat(z3.String('filePath'), z3.StringVal('.bak')), z3.String('other')))
        if method == 'write_content_xml':
            st.edit(inst).f['_filePath'] = z3.Concat(fs.tmp, z3.StringVal('/content.xml'))
        n = [0, 0]

        def check(s, how):
            n[0] += 1
            t = s.get(fs.ref).f['t']
            eng.prove(f'{name}.{method} {how} {n[0]}: no file outside the temporary directory is changed', s, z3.And(*[z3.Select(t, k) == z3.Select(fs.init, k) for k in (kp, kb, kq)]))
            eng.prove(f'{name}.{method} {how} {n[0]}: the working directory is kept', s, s.get(fs.ref).f['cwd'] == fs.cwd0)
            eng.prove(f'{name}.{method} {how} {n[0]}: the file name and the temporary directory of the object are kept', s,
                      z3.And(*[tobool(eng.eq(s, s.get(inst).f[x], st.get(inst).f[x])) for x in ('_filePath', '_tempDir', '_originalPath')]) if how == 'success' else
                      tobool(eng.eq(s, s.get(inst).f['_tempDir'], st.get(inst).f['_tempDir'])))

        def one():
            r, st1, raised = eng.run(st.fork(), lambda s: eng.call_method(s, inst, method, []))
            for s, e in raised:
                check(s, 'failure')
            if st1 is not None:
                n[1] += 1
                check(st1, 'success')

        eng.explore(one)
        u.fact('may succeed', n[1] > 0, status=None if n[1] else 'unknown')

    return f


def setting(u, mod, name):
    eng = u.engine(mode='path')
    fs = FS(eng, eng.global_state)
    fs.content = False
    arbitrary_strings(eng)
    eng.libs['string'] = {'Template': Native('Template', lambda e, s, a, k: s.alloc(Obj('template')))}
    M = eng.libs['%methods']
    M[('template', 'safe_substitute')] = lambda e, s, o, a, k: e.fresh('text')
    M[('template', 'substitute')] = lambda e, s, o, a, k: (e.raise_if(s, e.fresh('bad', z3.BoolSort()), ValueError, 'template'), e.fresh('text'))[1]
    M[('moment', 'replace')] = lambda e, s, o, a, k: o
    M[('moment', 'isoformat')] = M[('moment', 'strftime')] = lambda e, s, o, a, k: e.fresh('text')
    eng.libs['datetime'] = {'datetime': Native('datetime', None), 'date': Native('date', None)}
    eng.attr_hooks.append(lambda e, s, o, n: _now(e, o, n))
    import html
    from xml.sax import saxutils
    for h in (html.unescape, saxutils.escape, html.escape):
        eng.libs['%host'][h] = lambda e, s, a, k: e.fresh('text')
    eng.loop_hooks.append(any_loop)  # a loop over the lines of the text: no effect on files
    cls = eng.get_global(mod, name)
    novel_class = eng.get_global('pywriter.model.novel', 'Novel')
    st = eng.start()
    p = z3.String('filePath')
    novel = st.alloc(Obj('inst', {'authorName': eng.opt('author'), 'title': eng.opt('title'), 'desc': eng.opt('desc'), 'languageCode': z3.String('lang'), 'countryCode': z3.String('ctry'),
                                  'languages': None, 'scenes': st.alloc(Obj('dict', x=Store())), 'chapters': st.alloc(Obj('dict', x=Store()))}, novel_class))
    fields = {'_filePath': p, 'novel': novel, 'projectName': z3.String('pn'), 'projectPath': z3.String('pp'), '_tempDir': fs.tmp, '_originalPath': p,
              'tree': st.alloc(Obj('tree', {'root': None}))}
    inst = st.alloc(Obj('inst', fields, cls))

    def generator(result):
        def g(e, s, a, k):
            e.raise_if(s, e.fresh('generation_fails', z3.BoolSort()), AnyFailure, 'generation fails')
            return result(e, s)
        return g

    for q, (owner, nme) in generator_functions().items():
        eng.contracts[q] = generator((lambda e, s: e.fresh('text')) if nme == '_get_text' else lambda e, s: None)
    eng.contracts['pywriter.yw.yw7_file.Yw7File.is_locked'] = lambda e, s, a, k: False
    return eng, fs, st, cls, inst


def u_del(mod, name):

    def f(u):
        eng = u.engine(mode='path')
        fs = FS(eng, eng.global_state)
        cls = eng.get_global(mod, name)
        st = eng.start()
        q = fs.target(st, z3.String('other'))
        kt = fs.K(st, fs.cwd0, fs.tmp)
        inst = st.alloc(Obj('inst', {'_tempDir': fs.tmp, '_filePath': z3.String('p'), '_originalPath': z3.String('p')}, cls))
        seen = [0]

        def one():
            r, st1, raised = eng.run(st.fork(), lambda s: eng.call_method(s, inst, '__del__', []))
            eng.no_raise('releasing the object never raises', raised)
            if st1 is None:
                return
            seen[0] += 1
            now = st1.get(fs.ref).f['t']
            eng.prove(f'releasing the object removes the temporary directory unless it cannot be deleted ({seen[0]})', st1, z3.Or(Content.is_absent(z3.Select(now, kt)), *cannot_delete(st1)))
            eng.prove(f'releasing the object removes nothing else ({seen[0]})', st1, z3.Select(now, q) == z3.Select(fs.init, q))

        eng.explore(one)
        u.fact('the object can be released', seen[0] > 0, status=None if seen[0] else 'unknown')

    return f


def cannot_delete(st):
    return [b for b in st.pc if z3.is_const(b) and str(b).startswith('fails_rmtree')]


def u_frame(u):
    """File operations occur in the functions verified here only; generators do not reach them."""
    verified = {'write', '_set_up', '_tear_down', '_write_element_tree', '_postprocess_xml_file', 'read', '__init__'}
    readers = {'get_rows', 'feed_file', 'make_file_objects'}
    other = {'pywriter.config.configuration.Configuration.write', 'pywriter.file.doc_open.open_document'}
    effects = set()
    for q, what, line in scan.effect_calls():
        nme = q.rsplit('.', 1)[1]
        ok = nme in verified or nme in readers and what == 'zipfile.ZipFile' or q in other
        u.fact(f'{q}: {what} stands in a function under contract', ok, f'line {line}', status=None if ok else 'unknown')
        if nme not in readers:
            effects.add(nme)
    # closure of the calls from the generators, by name
    calls = scan.call_names()
    for g in sorted(GENERATORS):
        reach, todo = set(), [g]
        while todo:
            x = todo.pop()
            if x in reach:
                continue
            reach.add(x)
            todo += [y for y in calls.get(x, ()) if y in calls]
        hit = reach & (effects - {'__init__'})
        u.fact(f'{g} reaches no function with file operations', not hit, str(hit), status=None if not hit else 'unknown')
    for s in scan.stores({'_tempDir'}):
        ok = s[0].endswith('.OdfFile.__init__') or s[1] == 'setattr'
        u.fact(f'{s[0]}: the temporary directory is set by the constructor only', ok, str(s), status=None if ok else 'unknown')


def _units():
    out = []
    for m, c, k, members in groups():
        for existing in (True, False):
            out.append((f'{c}.write ({"overwriting" if existing else "new file"}; for {len(members)} classes)', u_write(m, c, k, existing)))
        if k == 'odf':
            out.append((f'{c}.__del__', u_del(m, c)))
            for x in ('_set_up', 'write_content_xml'):
                out.append((f'{c}.{x} (preparing)', u_inside(m, c, x)))
    return out + [('frame', u_frame)]


UNITS = _units()
