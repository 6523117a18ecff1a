"""Ghost file system: the contracts of the file operations used by the repository.

The state of the files is an array from resolved paths to contents. Every operation may fail (raise OSError); what it
leaves behind when it fails is stated with the operation. After every change the monitor (if any) generates an obligation
for the state of the files at that moment (crash point).
"""
import os
import zipfile
import z3
from .values import *
from .state import *
from .lib import STR

Content = z3.Datatype('FileContent')
Content.declare('absent')
Content.declare('dir')
Content.declare('data', ('id', z3.IntSort()))
Content = Content.create()
PATH = z3.DeclareSort('Path')  # resolved path
FILES = z3.ArraySort(PATH, Content)
COMPLETE = z3.Function('complete', z3.IntSort(), z3.BoolSort())
TEXT = z3.Function('file_of_text', STR, z3.IntSort())  # content of a file with this text

TRUSTED = [
    'os.replace/os.rename change the files atomically or fail without effect; other file operations may fail, and a file opened for writing or being written has unspecified content until it is closed without error',
    'resolving paths: a path with another ending is another file, the target is not within the temporary directory made by tempfile.mkdtemp, and relative paths depend on the working directory',
]

WRITE_CALLS = {'open', 'os.replace', 'os.rename', 'os.renames', 'os.remove', 'os.unlink', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.truncate', 'os.link', 'os.symlink',
               'os.open', 'os.system', 'os.popen', 'os.chdir', 'os.utime', 'os.chmod'}


def _parts(t):
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in _parts(x)]
    return [t]


class FS:

    def __init__(self, eng, st, nofail=False):
        self.eng = eng
        self.nofail = nofail
        self.monitor = None  # fn(st, name): obligation at a crash point
        self.never_fails = None  # fn(st, operation, path) -> condition under which the operation does not fail
        self.exc = None  # an exception class that write operations raise in place of OSError
        self.events = 0
        self.content = True  # keep the texts written to files
        self.keys, self.info = {}, []
        self.cwd0 = z3.String('cwd')
        self.init = z3.Const('files', FILES)
        self.tmp = z3.String('tempdir')
        self.ref = st.alloc(Obj('fs', {'t': self.init, 'cwd': self.cwd0, 'faults': False, 'touched': False, 'read': False}))
        eng.fs = self
        self.install()

    # ------------------------------------------------------------ access
    def K(self, st, cwd, t):
        """The resolved path of a path term in a working directory, with the facts known about it."""
        t = z3.simplify(t)
        parts = _parts(t)
        absolute = any(parts[0].eq(a) for a in (self.tmp, self.cwd0)) or (z3.is_string_value(parts[0]) and parts[0].as_string().startswith('/'))
        name = t.sexpr() if absolute else f'{cwd.sexpr()} : {t.sexpr()}'
        k = self.keys.get(name)
        if k is None:
            k = self.keys[name] = z3.Const(f'path<{name}>', PATH)
            info = dict(key=k, cwd=None if absolute else cwd, parts=parts, inside=absolute and parts[0].eq(self.tmp) or not absolute and cwd.eq(self.tmp) and z3.is_string_value(parts[0]) and not parts[0].as_string().startswith('.'))
            for o in self.info:
                if self.apart(info, o):
                    self.eng.axioms.append(k != o['key'])
            self.info.append(info)
        return k

    def apart(self, a, b):
        """The two paths are known to be different."""
        if a['inside'] != b['inside']:
            return (b if a['inside'] else a).get('target', False)
        if (a['cwd'] is None) != (b['cwd'] is None) or a['cwd'] is not None and not a['cwd'].eq(b['cwd']):
            return False
        p, q = a['parts'], b['parts']
        n = 0
        while n < min(len(p), len(q)) and p[n].eq(q[n]):
            n += 1
        if n == 0:
            return False
        rest = [x for x in (p[n:], q[n:])]
        if not all(all(z3.is_string_value(y) for y in x) for x in rest):
            return False
        x, y = (''.join(z.as_string() for z in r) for r in rest)
        return x != y

    def target(self, st, t):
        """Declare a path as target: it is not within the temporary directory."""
        k = self.K(st, self.cwd0, t)
        i = [x for x in self.info if x['key'].eq(k)][0]
        i['target'] = True
        for o in self.info:
            if o is not i and self.apart(i, o):
                self.eng.axioms.append(k != o['key'])
        return k

    def key(self, st, path):
        if isinstance(path, Union):
            path = self.eng.narrow(st, path)
        if isinstance(path, Union):
            raise Unsupported('one of several paths')
        if path is None or kind(path) != 'str':
            self.eng.raise_new(st, TypeError, 'path')
        return self.K(st, st.get(self.ref).f['cwd'], term(path))

    def get(self, st, k):
        return z3.Select(st.get(self.ref).f['t'], k)

    def put(self, st, k, c, what):
        o = st.edit(self.ref)
        o.f['t'] = z3.Store(o.f['t'], k, c)
        o.f['touched'] = True
        self.point(st, what)

    def point(self, st, what):
        if self.monitor:
            self.monitor(st, what)

    def partial(self):
        self.events += 1
        i = self.eng.fresh('partial', z3.IntSort())
        return Content.data(i), z3.Not(COMPLETE(i))

    def may_fail(self, st, op, k=None, exc=OSError):
        if self.nofail:
            return
        ok = self.never_fails(st, op, k) if self.never_fails else False
        if ok is True:
            return
        if self.exc and op in ('write', 'zip', 'zipwrite', 'zipclose', 'close', 'treewrite'):
            exc = self.exc
        b = self.eng.fresh(f'fails_{op}', z3.BoolSort())
        self.eng.raise_if(st, And(b, Not(ok)), exc, f'{op} fails')

    def change_inside(self, st):
        """Everything but the declared targets may have changed (used for contracts of functions that work in the temporary directory)."""
        o = st.edit(self.ref)
        t = self.eng.fresh('files', FILES)
        for i in self.info:
            if i.get('target'):
                t = z3.Store(t, i['key'], z3.Select(o.f['t'], i['key']))
        o.f['t'] = t
        o.f['touched'] = True

    # ------------------------------------------------------------ operations
    def install(self):
        E = self.eng
        L = E.libs
        M = L['%methods']

        def N(name, f):
            return Native(name, f)

        def isfile(e, st, a, k):
            return Content.is_data(self.get(st, self.key(st, a[0])))

        def exists(e, st, a, k):
            return z3.Not(Content.is_absent(self.get(st, self.key(st, a[0]))))

        def isdir(e, st, a, k):
            return Content.is_dir(self.get(st, self.key(st, a[0])))

        def replace(e, st, a, k):
            s, d = self.key(st, a[0]), self.key(st, a[1])
            self.may_fail(st, 'replace', s)
            c = self.get(st, s)
            e.raise_if(st, Content.is_absent(c), FileNotFoundError, 'replace')
            o = st.edit(self.ref)
            o.f['t'] = z3.Store(z3.Store(o.f['t'], s, Content.absent), d, c)
            o.f['touched'] = True
            self.point(st, 'renaming')

        def remove(e, st, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'remove', s)
            e.raise_if(st, Content.is_absent(self.get(st, s)), FileNotFoundError, 'remove')
            self.put(st, s, Content.absent, 'removing')

        def mkdir(e, st, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'mkdir', s)
            e.raise_if(st, z3.Not(Content.is_absent(self.get(st, s))), FileExistsError, 'mkdir')
            self.put(st, s, Content.dir, 'making a directory')

        def makedirs(e, st, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'makedirs', s)
            self.put(st, s, Content.dir, 'making a directory')

        def rmtree(e, st, a, k):
            s = self.key(st, a[0])
            o = st.edit(self.ref)
            new = e.fresh('files', FILES)
            old = o.f['t']
            ign = k.get('ignore_errors') or len(a) > 1 and a[1]
            top = [i for i in self.info if i['key'].eq(s)][0]

            def under(i):
                if i is top:
                    return True
                n = len(top['parts'])
                if top['cwd'] is None and i['cwd'] is not None and len(top['parts']) == 1 and i['cwd'].eq(top['parts'][0]) and i['inside']:
                    return True
                if len(i['parts']) > n and all(x.eq(y) for x, y in zip(i['parts'], top['parts'])):
                    c = i['parts'][n]
                    if z3.is_string_value(c):
                        return c.as_string().startswith('/')
                if top['inside'] and i.get('target'):
                    return False
                return z3.Bool(f'{i["key"]} is under {s}')

            us = sorted([(i['key'], under(i)) for i in self.info], key=lambda x: 2 if x[1] is False else 1 if x[1] is True else 0)
            part = new
            for x, c in us:
                if c is not True:
                    part = z3.Store(part, x, z3.Select(old, x) if c is False else z3.If(c, z3.Select(new, x), z3.Select(old, x)))
            o.f['t'] = part
            o.f['touched'] = True
            self.point(st, 'removing a directory')
            if not ign:
                self.may_fail(st, 'rmtree', s)
            for x, c in us:
                part = z3.Store(part, x, Content.absent if c is True else z3.Select(old, x) if c is False else z3.If(c, Content.absent, z3.Select(old, x)))
            st.edit(self.ref).f['t'] = part
            self.point(st, 'directory removed')

        def chdir(e, st, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'chdir', s)
            t = term(a[0])
            if not any(t.eq(x) for x in (self.cwd0, self.tmp)):
                t = z3.Function('absolute', STR, STR, STR)(st.get(self.ref).f['cwd'], t)
            st.edit(self.ref).f['cwd'] = t

        def getcwd(e, st, a, k):
            return st.get(self.ref).f['cwd']

        def copy(e, st, a, k):
            s, d = self.key(st, a[0]), self.key(st, a[1])
            self.may_fail(st, 'copy', s)
            c = self.get(st, s)
            e.raise_if(st, Not(Content.is_data(c)), FileNotFoundError, 'copy')
            p, ax = self.partial()
            st.assume(ax)
            self.put(st, d, p, 'copying')
            self.may_fail(st, 'copy', s)
            self.put(st, d, c, 'copied')

        def open_(e, st, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            s = self.key(st, a[0])
            if not isinstance(mode, str):
                raise Unsupported('open with symbolic mode')
            self.may_fail(st, 'open', s)
            if any(c in mode for c in 'wax+'):
                if 'r' in mode or 'a' in mode:
                    p, ax = self.partial()
                else:
                    if 'x' in mode:
                        e.raise_if(st, z3.Not(Content.is_absent(self.get(st, s))), FileExistsError, 'open')
                    p, ax = self.partial()
                e.raise_if(st, Content.is_dir(self.get(st, s)), IsADirectoryError, 'open')
                st.assume(ax)
                self.put(st, s, p, 'opening for writing')
                return st.alloc(Obj('file', {'key': s, 'text': '', 'write': True, 'open': True, 'binary': 'b' in mode}))
            e.raise_if(st, Not(Content.is_data(self.get(st, s))), FileNotFoundError, 'open')
            st.edit(self.ref).f['read'] = True
            return st.alloc(Obj('file', {'key': s, 'write': False, 'open': True, 'content': self.get(st, s), 'binary': 'b' in mode, 'enc': k.get('encoding')}))

        def f_write(e, st, o, a, k):
            f = st.get(o).f
            if not f['write']:
                e.raise_new(st, OSError, 'not writable')
            e.raise_if(st, Not(tobool(f['open'])), ValueError, 'closed')
            p, ax = self.partial()
            st.assume(ax)
            self.put(st, f['key'], p, 'writing')
            self.may_fail(st, 'write', f['key'])
            if not self.content:
                e.lift(st, a[0], lambda s, v: None if kind(v) == 'str' else e.raise_new(s, TypeError, 'write'))
                st.edit(o).f['text'] = e.fresh('written')
                return e.fresh('n', z3.IntSort())
            try:
                txt = e.lift(st, a[0], lambda s, v: v if kind(v) == 'str' else e.raise_new(s, TypeError, 'write'))
                st.edit(o).f['text'] = e.concat(st, f['text'], txt)
            except Unsupported:
                st.edit(o).f['text'] = e.fresh('written')
            return e.fresh('n', z3.IntSort())

        def f_writelines(e, st, o, a, k):
            f_write(e, st, o, [e.fresh('lines')], {})

        def f_read(e, st, o, a, k):
            f = st.get(o).f
            self.may_fail(st, 'read', f['key'])
            fn = z3.Function(f'text_of_file<{f.get("enc")}>', Content, STR)
            return fn(f['content'])

        def f_close(e, st, o, a, k):
            f = st.get(o).f
            if f['write'] and f['open'] is not False:
                p, ax = self.partial()
                st.assume(ax)
                self.put(st, f['key'], p, 'closing')
                st.edit(o).f['open'] = False
                self.may_fail(st, 'close', f['key'])
                t = f['text']
                i = TEXT(term(t)) if not isinstance(t, Union) else e.fresh('content', z3.IntSort())
                st.assume(COMPLETE(i))
                self.put(st, f['key'], Content.data(i), 'closed')

        M[('file', 'write')] = f_write
        M[('file', 'writelines')] = f_writelines
        M[('file', 'read')] = f_read
        M[('file', 'close')] = f_close
        M[('file', '__enter__')] = lambda e, s, o, a, k: o
        M[('file', '__exit__')] = f_close
        M[('file', 'flush')] = lambda e, s, o, a, k: self.may_fail(s, 'flush')
        M[('file', 'fileno')] = lambda e, s, o, a, k: 3

        def zip_(e, st, a, k):
            mode = a[1] if len(a) > 1 else k.get('mode', 'r')
            s = self.key(st, a[0])
            self.may_fail(st, 'zip', s)
            if mode in ('w', 'x', 'a'):
                if mode == 'x':
                    e.raise_if(st, z3.Not(Content.is_absent(self.get(st, s))), FileExistsError, 'zip')
                e.raise_if(st, Content.is_dir(self.get(st, s)), IsADirectoryError, 'zip')
                p, ax = self.partial()
                st.assume(ax)
                self.put(st, s, p, 'opening the archive')
                return st.alloc(Obj('zip', {'key': s, 'write': True, 'open': True, 'n': 0}))
            e.raise_if(st, Not(Content.is_data(self.get(st, s))), FileNotFoundError, 'zip')
            st.edit(self.ref).f['read'] = True
            self.may_fail(st, 'unzip', s, zipfile.BadZipFile)
            return st.alloc(Obj('zip', {'key': s, 'write': False, 'open': True, 'n': 0, 'content': self.get(st, s)}))

        def z_write(e, st, o, a, k):
            f = st.get(o).f
            p, ax = self.partial()
            st.assume(ax)
            src = self.key(st, a[0])
            self.may_fail(st, 'zipread', src)
            e.raise_if(st, Content.is_absent(self.get(st, src)), FileNotFoundError, 'zip member')
            self.put(st, f['key'], p, 'packing')
            self.may_fail(st, 'zipwrite', f['key'])

        def z_close(e, st, o, a, k):
            f = st.get(o).f
            if f['write'] and f['open'] is not False:
                p, ax = self.partial()
                st.assume(ax)
                self.put(st, f['key'], p, 'closing the archive')
                st.edit(o).f['open'] = False
                self.may_fail(st, 'zipclose', f['key'])
                i = e.fresh('archive', z3.IntSort())
                st.assume(COMPLETE(i))
                self.put(st, f['key'], Content.data(i), 'archive closed')

        def z_read(e, st, o, a, k):
            self.may_fail(st, 'zipread', st.get(o).f['key'], KeyError)
            return e.fresh('member')

        M[('zip', 'write')] = z_write
        M[('zip', 'writestr')] = z_write_str = lambda e, s, o, a, k: self.zip_put(s, o)
        M[('zip', 'close')] = z_close
        M[('zip', 'read')] = z_read
        M[('zip', '__enter__')] = lambda e, s, o, a, k: o
        M[('zip', '__exit__')] = z_close

        def tree_write(e, st, o, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'treewrite', s)
            e.raise_if(st, Content.is_dir(self.get(st, s)), IsADirectoryError, 'write')
            p, ax = self.partial()
            st.assume(ax)
            self.put(st, s, p, 'writing the tree')
            self.may_fail(st, 'treewrite', s, ValueError)
            i = e.fresh('tree_file', z3.IntSort())
            st.assume(COMPLETE(i))
            self.put(st, s, Content.data(i), 'tree written')

        M[('tree', 'write')] = tree_write
        M[('tree', 'getroot')] = lambda e, s, o, a, k: s.get(o).f.get('root')

        def et_parse(e, st, a, k):
            s = self.key(st, a[0])
            self.may_fail(st, 'parse', s)
            e.raise_if(st, Not(Content.is_data(self.get(st, s))), FileNotFoundError, 'parse')
            st.edit(self.ref).f['read'] = True
            return st.alloc(Obj('tree', {'root': st.alloc(Obj('xmlroot'))}))

        def et_fromstring(e, st, a, k):
            self.may_fail(st, 'fromstring', None, SyntaxError)
            return st.alloc(Obj('xmlroot'))

        def mkdtemp(e, st, a, k):
            self.may_fail(st, 'mkdtemp')
            o = st.edit(self.ref)
            o.f['t'] = z3.Store(o.f['t'], self.K(st, self.cwd0, self.tmp), Content.dir)
            return self.tmp

        L['os.path'] = {'isfile': N('os.path.isfile', isfile), 'exists': N('os.path.exists', exists), 'isdir': N('os.path.isdir', isdir),
                        'normpath': N('os.path.normpath', lambda e, s, a, k: e.lift(s, a[0], lambda x, p: z3.Function('normpath', STR, STR)(term(p)) if kind(p) == 'str' else e.raise_new(x, TypeError, 'path')) if not isinstance(a[0], str) else os.path.normpath(a[0])),
                        }
        L['os'] = {'replace': N('os.replace', replace), 'rename': N('os.rename', replace), 'remove': N('os.remove', remove), 'unlink': N('os.unlink', remove),
                   'mkdir': N('os.mkdir', mkdir), 'makedirs': N('os.makedirs', makedirs), 'chdir': N('os.chdir', chdir), 'getcwd': N('os.getcwd', getcwd)}
        L['shutil'] = {'rmtree': N('shutil.rmtree', rmtree), 'copy': N('shutil.copy', copy), 'copy2': N('shutil.copy2', copy), 'copyfile': N('shutil.copyfile', copy), 'move': N('shutil.move', replace)}
        L['tempfile'] = {'mkdtemp': N('tempfile.mkdtemp', mkdtemp)}
        L['zipfile'] = {'ZipFile': N('zipfile.ZipFile', zip_)}
        L['xml.etree.ElementTree'] = {'parse': N('ET.parse', et_parse), 'fromstring': N('ET.fromstring', et_fromstring),
                                      'ElementTree': N('ET.ElementTree', lambda e, s, a, k: s.alloc(Obj('tree', {'root': a[0] if a else None})))}
        L['builtins']['open'] = N('open', open_)

    def zip_put(self, st, o):
        f = st.get(o).f
        p, ax = self.partial()
        st.assume(ax)
        self.put(st, f['key'], p, 'packing')
        self.may_fail(st, 'zipwrite', f['key'])


def arbitrary_strings(eng):
    """For proofs in which the content of the texts does not matter: string functions give arbitrary strings."""
    import re
    H, M = eng.libs['%host'], eng.libs['%methods']

    def some(e, st, a, k):
        return e.fresh('text')

    H[re.sub] = some
    M[('str', 'replace')] = lambda e, s, o, a, k: e.fresh('text')
    M[('str', 'join')] = lambda e, s, o, a, k: e.fresh('text')
