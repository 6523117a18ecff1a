"""Shared plumbing: the code under test, scratch directories, novel specs."""
import os, sys, random, tempfile, shutil, json, copy, contextlib, io, locale

os.environ.setdefault('LC_ALL', 'en_US.UTF-8')
REPO = os.environ.get('PYWRITER_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
try:
    locale.setlocale(locale.LC_ALL, 'en_US.UTF-8')
except locale.Error:
    pass

_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix='pwv_')
        import atexit
        atexit.register(lambda p=_scratch_root, pid=os.getpid(): shutil.rmtree(p, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch_root


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=scratch_root())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Fail(Exception):
    """A contract of a property is violated by a concrete case."""


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def diff(a, b, path=''):
    """First difference between two JSON-like values, or None."""
    if type(a) != type(b):
        return f'{path}: {a!r} != {b!r}'
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f'{path}.{k}: missing on the right (left {a[k]!r})'
            d = diff(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        for k in b:
            if k not in a:
                return f'{path}.{k}: missing on the left (right {b[k]!r})'
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        if len(a) != len(b):
            return f'{path}: length {len(a)} != {len(b)} ({a!r} / {b!r})'
        return None
    return None if a == b else f'{path}: {a!r} != {b!r}'


# ---------------------------------------------------------------- novel specs
BE = ['title', 'desc']
SC_TEXT = ['title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'image', 'field1', 'field2', 'field3', 'field4',
           'lastsDays', 'lastsHours', 'lastsMinutes']
SC_ATTRS = SC_TEXT + ['scType', 'doNotExport', 'status', 'tags', 'appendToPrev', 'isReactionScene', 'isSubPlot',
                      'characters', 'locations', 'items', 'date', 'time', 'day', 'scnArcs', 'scnMode', 'sceneContent']
CH_ATTRS = BE + ['chLevel', 'chType', 'suppressChapterTitle', 'isTrash', 'suppressChapterBreak', 'srtScenes']
CR_ATTRS = BE + ['image', 'aka', 'tags', 'notes', 'bio', 'goals', 'fullName', 'isMajor']
WE_ATTRS = BE + ['image', 'aka', 'tags']
NV_ATTRS = BE + ['authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4',
                 'wordTarget', 'wordCountStart', 'languageCode', 'countryCode']
PN_ATTRS = BE
COLLS = [('characters', 'srtCharacters', CR_ATTRS), ('locations', 'srtLocations', WE_ATTRS),
         ('items', 'srtItems', WE_ATTRS), ('projectNotes', 'srtPrjNotes', PN_ATTRS)]


def build_novel(spec):
    """Return a real Novel made from a JSON spec."""
    from pywriter.model.novel import Novel
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    nv = Novel()
    fill_novel(nv, spec)
    return nv


def fill_novel(nv, spec):
    from pywriter.model.chapter import Chapter
    from pywriter.model.scene import Scene
    from pywriter.model.character import Character
    from pywriter.model.world_element import WorldElement
    from pywriter.model.basic_element import BasicElement
    cls = dict(characters=Character, locations=WorldElement, items=WorldElement, projectNotes=BasicElement)
    _set(nv, spec['novel'])
    for coll, srt, __ in COLLS:
        getattr(nv, coll).clear()
        getattr(nv, srt)[:] = []
        for e in spec.get(coll, []):
            o = cls[coll]()
            _set(o, e)
            getattr(nv, coll)[e['id']] = o
            getattr(nv, srt).append(e['id'])
    nv.scenes.clear()
    for e in spec['scenes']:
        o = Scene()
        _set(o, e)
        nv.scenes[e['id']] = o
    nv.chapters.clear()
    nv.srtChapters[:] = []
    for e in spec['chapters']:
        o = Chapter()
        _set(o, e)
        nv.chapters[e['id']] = o
        nv.srtChapters.append(e['id'])
    return nv


def _set(o, e):
    for k, v in e.items():
        if k == 'id':
            continue
        if k == 'kwVar':
            o.kwVar.update(v)
        else:
            if k == 'sceneContent' and v is None:
                continue
            setattr(o, k, copy.deepcopy(v))


def dump_obj(o, attrs, i=None):
    d = {}
    if i is not None:
        d['id'] = i
    for a in attrs:
        d[a] = copy.deepcopy(getattr(o, a))
    d['kwVar'] = {k: v for k, v in o.kwVar.items()}
    return d


def dump_novel(nv):
    """JSON-like dump of everything a Novel holds."""
    s = {'novel': dump_obj(nv, NV_ATTRS)}
    s['novel']['languages'] = copy.deepcopy(nv.languages)
    for coll, srt, attrs in COLLS:
        c = getattr(nv, coll)
        s[coll] = [dump_obj(c[i], attrs, i) for i in getattr(nv, srt)]
        s[coll + '_all'] = sorted(c)
    s['scenes'] = [dump_obj(nv.scenes[i], SC_ATTRS + ['wordCount', 'letterCount'], i) for i in nv.scenes]
    s['chapters'] = [dump_obj(nv.chapters[i], CH_ATTRS, i) for i in nv.srtChapters]
    s['chapters_all'] = sorted(nv.chapters)
    return s


def rnd(seed, *salt):
    return random.Random(f'{seed}/' + '/'.join(map(str, salt)))


def read_bytes(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def tree_state(d):
    """Every path below d with its content (None for directories)."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), d)] = None
        for n in files:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = read_bytes(p)
    return out
