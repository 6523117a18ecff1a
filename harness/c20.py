"""C20: file names select the document kind and the project."""
from .common import *
from . import gen
import itertools

EXP = {'': '.odt', '_proof': '.odt', '_manuscript': '.odt', '_brf_synopsis': '.odt', '_scenes': '.odt', '_chapters': '.odt', '_parts': '.odt',
       '_characters': '.odt', '_items': '.odt', '_locations': '.odt', '_charlist': '.ods', '_loclist': '.ods', '_itemlist': '.ods', '_scenelist': '.ods',
       '_xref': '.odt', '_notes': '.odt', '_todo': '.odt'}
IMP = {k: v for k, v in EXP.items() if k not in ('', '_xref', '_brf_synopsis')}
PARTS = ['novel', 'my book', 'Ärger', '.', '_', '_notes', '_scenes', '_items', '_manuscript', '1', 'a.b', '_xref', '.odt', '.yw7', '_brf_synopsis', '-', '_proof', "it's", '%20', '&']
NAMES = {'_proof': 'OdtRProof', '_manuscript': 'OdtRManuscript', '_scenes': 'OdtRSceneDesc', '_chapters': 'OdtRChapterDesc', '_parts': 'OdtRPartDesc', '_characters': 'OdtRCharacters',
         '_items': 'OdtRItems', '_locations': 'OdtRLocations', '_notes': 'OdtRNotes', '_todo': 'OdtRTodo', '_charlist': 'OdsRCharList', '_loclist': 'OdsRLocList', '_itemlist': 'OdsRItemList', '_scenelist': 'OdsRSceneList'}


def name(r):
    n = r.choice(['novel', 'a', 'Book 1', 'x']) + ''.join(r.choice(PARTS) for __ in range(r.randint(0, 3)))
    return n


def g(r):
    n = name(r)
    return {'name': n, 'suffix': r.choice(list(EXP) + ['_unknown', '_Notes']), 'dir': r.choice(['d', 'd e', 'x_notes', 'p.yw7', 'q_scenes.odt', 'ü']), 'other': r.choice([True, False])}


def converter():
    from pywriter.converter.yw7_converter import Yw7Converter
    return Yw7Converter()


def c_export(case):
    from pywriter.pywriter_globals import Error
    cv = converter()
    with scratch() as base:
        d = f"{base}/{case['dir']}"
        os.mkdir(d)
        p = f"{d}/{case['name']}.yw7"
        open(p, 'w').close()
        src, __ = cv.exportSourceFactory.make_file_objects(p)
        need(type(src).__name__ == 'Yw7File' and src.filePath == p, f'source {p}: {type(src).__name__} {src.filePath}')
        try:
            __, t = cv.exportTargetFactory.make_file_objects(p, suffix=case['suffix'])
        except Error:
            need(case['suffix'] not in EXP, f"suffix {case['suffix']!r} not supported")
            return
        need(case['suffix'] in EXP, f"unknown suffix {case['suffix']!r} is exported as {type(t).__name__}")
        exp = f"{d}/{case['name']}{case['suffix']}{EXP[case['suffix']]}"
        need(t.filePath == exp, f'target path {t.filePath!r}, expected {exp!r}')
        need(t.SUFFIX == case['suffix'] and t.EXTENSION == EXP[case['suffix']], f"target kind {type(t).__name__} for {case['suffix']!r}")


def kind(fn):
    """Expected document kind of a file name."""
    for s, e in IMP.items():
        if fn.endswith(s + e):
            return s
    return None


def c_import(case):
    """The chosen source class and project for any document name."""
    from pywriter.pywriter_globals import Error
    cv = converter()
    with scratch() as base:
        d = f"{base}/{case['dir']}"
        os.mkdir(d)
        s = case['suffix']
        for ext in ('.odt', '.ods', '.ODT', '.html'):
            fn = f"{case['name']}{s}{ext}"
            p = f'{d}/{fn}'
            k = kind(fn)
            try:
                src, __ = cv.importSourceFactory.make_file_objects(p)
            except Error:
                need(k is None, f'{fn} is not recognised as {k}')
                continue
            need(k is not None, f'{fn} is taken for {type(src).__name__}')
            need(type(src).__name__ == NAMES[k] and src.SUFFIX == k and src.filePath == p, f'{fn}: {type(src).__name__} {src.filePath}, expected {NAMES[k]}')
            prj = f'{d}/{fn[:-len(k + ext)]}.yw7'
            if case['other']:
                for o in (f"{d}/{fn[:-len(ext)]}.yw7", f"{d}/{case['name'].replace(k, '')}.yw7"):
                    if o != prj and os.path.basename(o) != '.yw7':
                        open(o, 'w').close()
            for exists in (False, True):
                if exists:
                    open(prj, 'w').close()
                try:
                    __, t = cv.importTargetFactory.make_file_objects(p, suffix=k)
                except Error:
                    need(not exists, f'project {prj} is not found for {fn}')
                else:
                    need(exists, f'{fn}: target {t.filePath}, but {prj} does not exist')
                    need(t.filePath == prj and type(t).__name__ == 'Yw7File', f'{fn}: target {t.filePath}, expected {prj}')


def c_new(case):
    """Creation of new projects."""
    import zipfile
    from pywriter.pywriter_globals import Error
    cv = converter()
    with scratch() as base:
        d = f"{base}/{case['dir']}"
        os.mkdir(d)
        for fn, outline in ((f"{case['name']}.odt", False), (f"{case['name']}.odt", True), (f"{case['name']}_xref.odt", False), (f"{case['name']}_brf_synopsis.odt", True), (f"{case['name']}.txt", False)):
            p = f'{d}/{fn}'
            with zipfile.ZipFile(p, 'w') as z:
                z.writestr('content.xml', '<x>Heading_20_3</x>' if outline else '<x/>')
            bad = fn.endswith(('_xref.odt', '_brf_synopsis.odt', '.txt')) or fn.endswith(('_xref.txt', '_brf_synopsis.txt'))
            try:
                s, t = cv.newProjectFactory.make_file_objects(p)
            except Error:
                need(bad, f'{fn} is refused')
                continue
            need(not bad, f'{fn} is not meant to be imported, but accepted as {type(s).__name__}')
            need(t.filePath == f"{d}/{fn[:-4]}.yw7" and s.filePath == p, f'{fn}: {s.filePath} -> {t.filePath}')
            need(type(s).__name__ == ('OdtROutline' if outline else 'OdtRImport'), f'{fn}: {type(s).__name__}')


def c_path(case):
    """The path setter accepts only its own kind; project name and path are those of the file."""
    from urllib.parse import quote, unquote
    from pywriter.converter.yw7_converter import Yw7Converter as Y
    with scratch() as base:
        d = os.path.realpath(base)
        for cls in Y.EXPORT_TARGET_CLASSES + Y.IMPORT_SOURCE_CLASSES + Y.IMPORT_TARGET_CLASSES:
            suf = cls.SUFFIX or ''
            good = f"{d}/n1{suf}{cls.EXTENSION}"
            o = cls(good)
            need(o.filePath == good, f'{cls.__name__}: path {o.filePath}')
            need(unquote(o.projectName) == 'n1' and unquote(o.projectPath) == d, f'{cls.__name__}: project {o.projectPath} / {o.projectName}')
            q = cls(f'{d}/{case["name"]}.xyz')
            need(q.filePath is None, f'{cls.__name__} accepts {q.filePath}')
            o.filePath = f'{d}/other.xyz'
            need(o.filePath == good, f'{cls.__name__}: path changed to {o.filePath}')
            if suf:
                w = cls(f'{d}/n1{cls.EXTENSION}')
                need(w.filePath is None, f'{cls.__name__} accepts a name without suffix')


def c_run(case):
    """Which documents and projects a conversion works on, whatever suffix is requested for the target."""
    from pywriter.converter.yw7_converter import Yw7Converter

    class Rec(Yw7Converter):
        def export_from_yw(self, s, t):
            self.seen.append(('export', s, t))

        def import_to_yw(self, s, t):
            self.seen.append(('import', s, t))

        def create_yw7(self, s, t):
            self.seen.append(('create', s, t))

    class Ui:
        how = None

        def set_info_how(self, m):
            self.how = m

        def set_info_what(self, m):
            pass

    with scratch() as base:
        d = f"{base}/{case['dir']}"
        os.mkdir(d)
        s = case['suffix']
        for ext in ('.odt', '.ods', '.yw7'):
            for exists in (False, True):
                for req in ('', '_notes', None, s, '_unknown'):
                    fn = f"{case['name']}{s}{ext}"
                    p = f'{d}/{fn}'
                    k = kind(fn)
                    if k is None and ext == '.odt':
                        continue
                    cv = Rec()
                    cv.seen, cv.ui = [], Ui()
                    open(p, 'w').close()
                    prj = f'{d}/{fn[:-len(k + ext)]}.yw7' if k else None
                    if prj:
                        if exists:
                            open(prj, 'w').close()
                        elif os.path.isfile(prj):
                            os.remove(prj)
                    cv.run(p, suffix=req)
                    got = [(a, x.filePath, type(y).__name__, y.filePath) for a, x, y in cv.seen]
                    if ext == '.yw7':
                        exp = [('export', p, None, f'{d}/{fn[:-4]}{req}{EXP[req]}')] if req in EXP else []
                    else:
                        exp = [('import', p, None, prj)] if k and exists else []
                    need([(a, b, None, e) for a, b, c_, e in got] == exp, f'{fn} with target suffix {req!r}: {got}, expected {exp}')
                    need(bool(exp) == (cv.ui.how is None), f'{fn} with target suffix {req!r}: message {cv.ui.how}')


CASES = [('run', g, c_run, 40), ('export', g, c_export, 250), ('import', g, c_import, 250), ('new project', g, c_new, 60), ('path', g, c_path, 10)]
