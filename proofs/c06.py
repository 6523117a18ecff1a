"""C06: the lock protocol of Yw7File.read and Yw7File.write, for an arbitrary state of the files and of the novel."""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc import scan, fs as fsm
from pyvc.fs import FS, Content

LEVEL = 'proof'
TRUSTED = fsm.TRUSTED
ASSUMPTIONS = ['the lock file does not appear or vanish while read() or write() runs']
YW = 'pywriter.yw.yw7_file.Yw7File'


def yw_classes(eng):
    """Yw7File and all its subclasses in the package."""
    out = [('pywriter.yw.yw7_file', 'Yw7File')]
    for q in sorted(scan.subclasses('Yw7File')):
        m, c = q.rsplit('.', 1)
        if (m, c) not in out:
            out.append((m, c))
    return out


def setup(u, mod, name, locked, nofail):
    eng = u.engine()
    st0 = eng.global_state
    fs = FS(eng, st0, nofail=nofail)
    cls = eng.get_global(mod, name)
    st = eng.start()
    p = z3.String('filePath')
    lock = fs.K(st, fs.cwd0, z3.Concat(p, z3.StringVal('.lock')))
    is_locked = Content.is_data(z3.Select(fs.init, lock))
    st.assume(is_locked if locked else z3.Not(is_locked))
    base = eng.get_global('pywriter.model.basic_element', 'BasicElement')
    fields = {a: z3.Const('novel.' + a, PYOBJ) for a in ('title', 'desc', 'chapters', 'scenes', 'characters', 'locations', 'items', 'projectNotes', 'srtChapters', 'srtCharacters', 'srtLocations', 'srtItems',
                                                       'srtPrjNotes', 'languages', 'languageCode', 'countryCode', 'authorName', 'wordTarget')}
    fields['kwVar'] = st.alloc(Obj('dict', x=Store().put('Field_LanguageCode', eng.opt('kw1')).put('Field_CountryCode', eng.opt('kw2')).put('Field_Other', eng.opt('kw3'))))
    nov = st.alloc(Obj('inst', fields, base))
    tree = st.alloc(Obj('tree', {'root': None}))
    inst = st.alloc(Obj('inst', {'_filePath': p, 'novel': nov, 'tree': tree, 'projectName': z3.String('pn'), 'projectPath': z3.String('pp')}, cls))
    return eng, st, fs, inst, nov, p


def stub(eng, *names):
    """Contracts of the callees that come after the lock check."""
    def effect(what):
        def f(e, st, a, k):
            st.event('callee', what)
            st.edit(e.ghost).f['called'] = True
            return False if what == '_write_element_tree' else None
        return f
    for m, c in yw_classes(eng):
        for n in names:
            eng.contracts[f'{m}.{c}.{n}'] = effect(n)


def unchanged(eng, fs, st0, s, nov, inst, what, name):
    f = s.get(fs.ref).f
    eng.prove(f'{name}: no file is read', s, Not(tobool(f['read'])))
    eng.prove(f'{name}: no file operation with effect', s, Not(tobool(f['touched'])))
    eng.prove(f'{name}: nothing behind the lock check is called', s, Not(tobool(s.get(eng.ghost).f['called'])))
    if what != 'read':
        return
    a, b = st0.get(nov).f, s.get(nov).f
    for k in a:
        if k != 'kwVar':
            eng.prove(f'{name}: frame: novel.{k}', s, same(a[k], b.get(k)))
    kw0, kw1 = st0.get(a['kwVar']), s.get(b['kwVar'])
    for k in ('Field_LanguageCode', 'Field_CountryCode', 'Field_Other'):
        v0, v1 = eng.store_get(s, kw0.x, k), eng.store_get(s, kw1.x, k)
        eng.prove(f'{name}: frame: the project variable {k} is kept or unset, not taken from the file', s, Or(And(eng.eq(s, v0, v1)), eng.is_(s, v1, None)))
    eng.prove(f'{name}: frame: the XML tree is the same', s, same(st0.get(inst).f['tree'], s.get(inst).f['tree']))


STUBS = ['_read_project', '_read_locations', '_read_items', '_read_characters', '_read_projectvars', '_read_projectnotes', '_read_scenes', '_read_chapters', 'adjust_scene_types',
         '_build_element_tree', '_write_element_tree', '_postprocess_xml_file']


def u_op(op, mod, name):

    def f(u):
        # locked
        eng, st, fs, inst, nov, p = setup(u, mod, name, True, False)
        eng.ghost = st.alloc(Obj('ghost', {'called': False}))
        stub(eng, *STUBS)
        err = eng.get_global('pywriter.pywriter_globals', 'Error')
        start = st.fork()
        eng.cover('the project may be locked', st)
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, op, []))
        if st1 is not None:
            eng.prove(f'{name}.{op} never ends normally while the project is locked', st1, False)
        else:
            u.fact(f'{name}.{op} never ends normally while the project is locked', True)
        eng.no_raise(f'{name}.{op} raises nothing but Error', raised, [err])
        u.fact(f'{name}.{op} raises', bool(raised), status=None if raised else 'unknown')
        for n, (s, e) in enumerate(raised):
            unchanged(eng, fs, start, s, nov, inst, op, f'{name}.{op} while locked, end {n + 1}')
        # not locked: the check does not prevent the operation
        eng, st, fs, inst, nov, p = setup(u, mod, name, False, True)
        eng.ghost = st.alloc(Obj('ghost', {'called': False}))
        stub(eng, *STUBS)
        st.assume(Content.is_data(z3.Select(fs.init, fs.K(st, fs.cwd0, p))))
        empty = st.alloc(Obj('dict', x=Store()))
        st.edit(nov).f['scenes'] = empty
        st.edit(nov).f['languages'] = st.alloc(Obj('list', x=()))
        r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, op, []))
        eng.no_raise(f'{name}.{op} is not refused without a lock file', raised)
        if st1 is not None:
            eng.cover(f'{name}.{op} without lock file', st1)
            eng.prove(f'{name}.{op} goes on without a lock file', st1, tobool(st1.get(eng.ghost).f['called']))
        # is_locked agrees with the file system
        for locked in (True, False):
            eng, st, fs, inst, nov, p = setup(u, mod, name, locked, True)
            r, st1, raised = eng.run(st, lambda s: eng.call_method(s, inst, 'is_locked', []))
            eng.no_raise('is_locked never raises', raised)
            eng.prove(f'is_locked tells whether the lock file exists ({locked})', st1, eng.eq(st1, r, locked))

    return f


def u_frame(u):
    """Project files are read and written by these functions only."""
    behind = {'read', 'write', '_write_element_tree', '_postprocess_xml_file'}
    for q, what, line in scan.effect_calls():
        if q.startswith('pywriter.yw.'):
            ok = q.rsplit('.', 1)[1] in behind
            u.fact(f'{q}: {what} stands in a method behind the lock check', ok, f'line {line}', status=None if ok else 'unknown')
    # the methods behind the check are called by read() and write() only
    calls = scan.method_calls(behind - {'read', 'write'})
    for q, what, line in calls:
        ok = q.rsplit('.', 1)[1] in behind
        u.fact(f'{q}: call of {what} comes from behind the lock check', ok, f'line {line}', status=None if ok else 'unknown')


def _units():
    out = []
    for m, c in yw_classes(None):
        for op in ('read', 'write'):
            out.append((f'{c}.{op}', u_op(op, m, c)))
    return out


UNITS = _units() + [('frame', u_frame)]
