"""C04: write() changes managed elements only; what is not set keeps the stored value; nothing appears twice.

The elements of the file tree are arbitrary. An operation of the code under proof names the tag it works on (anything else is not
supported by the contracts of ElementTree, see pyvc/xmlmodel.py), so that the tags that are touched are known: all others keep their content.
"""
import z3
from pyvc.values import *
from pyvc.state import *
from pyvc.state import LAZY
from pyvc.xmlmodel import kid, the_list, SymKids
from proofs.yw7 import *
from proofs import yw7, c01, c16

LEVEL = 'proof'
TRUSTED = yw7.TRUSTED
ASSUMPTIONS = yw7.ASSUMPTIONS + ['XML attributes, comments and processing instructions are not looked at (yWriter does not use them)']

MANAGED = {
    'scene': {'ID', 'Title', 'Desc', 'SceneContent', 'WordCount', 'LetterCount', 'Unused', 'Fields', 'ExportCondSpecific', 'ExportWhenRTF', 'Status', 'Notes', 'Tags',
              'Field1', 'Field2', 'Field3', 'Field4', 'AppendToPrev', 'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute', 'LastsDays', 'LastsHours', 'LastsMinutes',
              'ReactionScene', 'SubPlot', 'Goal', 'Conflict', 'Outcome', 'ImageFile', 'Characters', 'Locations', 'Items', 'RTFFile', 'BelongsToChID'},
    'chapter': {'ID', 'Title', 'Desc', 'Unused', 'Fields', 'SectionStart', 'Type', 'ChapterType', 'Scenes', 'SortOrder'},
    'project': {'Ver', 'Title', 'Desc', 'AuthorName', 'Bio', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordCountStart', 'WordTarget', 'Fields', 'SavedWith', 'SavedOn'},
}
FIELDS = {
    'scene': {'Field_SceneType', 'Field_SceneArcs', 'Field_SceneMode', 'Field_CustomAR', 'Field_SceneStyle'},
    'chapter': {'Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash', 'Field_ArcDefinition', 'Field_Arc_Definition'},
    'project': {'Field_LanguageCode', 'Field_CountryCode', 'Field_WorkPhase', 'Field_RenumberChapters', 'Field_RenumberParts', 'Field_RenumberWithinParts', 'Field_RomanChapterNumbers',
                'Field_RomanPartNumbers', 'Field_ChapterHeadingPrefix', 'Field_ChapterHeadingSuffix', 'Field_PartHeadingPrefix', 'Field_PartHeadingSuffix', 'Field_CustomGoal',
                'Field_CustomConflict', 'Field_CustomOutcome', 'Field_CustomChrBio', 'Field_CustomChrGoals', 'Field_SaveWordCount', 'Field_ReferenceDate'},
}
# attribute -> element that holds it as a text
TEXTS = {
    'scene': {'title': 'Title', 'desc': 'Desc', 'notes': 'Notes', '_sceneContent': 'SceneContent', 'tags': 'Tags', 'status': 'Status', 'field1': 'Field1', 'field2': 'Field2', 'field3': 'Field3',
              'field4': 'Field4', 'lastsDays': 'LastsDays', 'lastsHours': 'LastsHours', 'lastsMinutes': 'LastsMinutes', 'goal': 'Goal', 'conflict': 'Conflict', 'outcome': 'Outcome', 'image': 'ImageFile'},
    'chapter': {'title': 'Title', 'desc': 'Desc'},
    'project': {'title': 'Title', 'desc': 'Desc', 'authorName': 'AuthorName', 'authorBio': 'Bio', 'fieldTitle1': 'FieldTitle1', 'fieldTitle2': 'FieldTitle2', 'fieldTitle3': 'FieldTitle3',
                'fieldTitle4': 'FieldTitle4', 'wordCountStart': 'WordCountStart', 'wordTarget': 'WordTarget'},
}
ROOT = {'PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'PROJECTVARS', 'SCENES', 'CHAPTERS'}


def children(st, ref):
    """Tags of an element that have been touched or looked at."""
    x = st.get(ref).x
    tags = [k for g, k, v in x.ups]
    if isinstance(x.base, SymKids):
        tags += list(x.base.cache)
    if any(not isinstance(t, str) for t in tags):
        raise Unsupported('symbolic tag')
    return sorted(set(tags))


def untouched(eng, st, before, ref):
    """The element has the text and the children it had before."""
    a, b = st.get(ref), before.get(ref)
    if a is b and not isinstance(a.x.base, SymKids):
        return True
    out = [eng.eq(st, a.f['text'], b.f['text'])]
    for k in a.f:
        if k.startswith('kids:'):
            out.append(same(a.f[k], b.f[k]) and same_items(st.get(a.f[k]).x, before.get(b.f[k]).x))
    for t in children(st, ref):
        out.append(same_child(eng, st, before, ref, t))
    return And(*out)


def same_child(eng, st, before, ref, tag):
    """The child with a tag is the one of before, with its contents, or absent as before."""
    a, b = kid(eng, st, ref, tag), kid(eng, before, ref, tag)
    out = []
    for g, x in alts(a):
        for h, y in alts(b):
            if x is UNBOUND or y is UNBOUND or not same(x, y):
                if not (x is UNBOUND and y is UNBOUND):
                    out.append(Not(And(g, h)))
            else:
                out.append(Implies(And(g, h), untouched(eng, st, before, x)))
    return And(*out)


def frame(eng, w, st, before, ref, managed, name):
    """Nothing but the managed children is touched."""
    u = w.u
    if not isinstance(before.get(ref).x.base, SymKids):
        raise Unsupported('the element is not of the file')
    u.shape(f'{name}: the element still has the children of the file', st.get(ref).x.base is before.get(ref).x.base)
    for t in children(st, ref):
        if t not in managed:
            eng.prove(f'{name}: <{t}> is as before', st, same_child(eng, st, before, ref, t))


def same_value(eng, st, before, ref, tag):
    """The child with a tag is as before; an empty one may have been added."""
    out = []
    for g, x in alts(kid(eng, st, ref, tag)):
        for h, y in alts(kid(eng, before, ref, tag)):
            if x is UNBOUND or y is not UNBOUND:
                out.append(True if x is y or same(x, y) else Not(And(g, h)))
            else:
                out.append(Implies(And(g, h), And(null(eng, st, st.get(x).f['text'])[0], not children(st, x))))
            if x is not UNBOUND and y is not UNBOUND and same(x, y):
                out.append(Implies(And(g, h), untouched(eng, st, before, x)))
    return And(*out)


def texts_kept(eng, st, before, ref, kind_, given, name):
    for a, t in TEXTS[kind_].items():
        for g, x in alts(given[a]):
            if x is None:
                s = st.fork(g)
                eng.prove(f'{name}: <{t}> is as before if {a.strip("_")} is not set', s, same_value(eng, s, before, ref, t))


def ref_of(eng, st, v, what):
    v = eng.narrow(st, v)
    if not isinstance(v, Ref):
        raise Unsupported(f'no unique {what}')
    return v


def fields_frame(eng, w, st, before, ref, managed, name):
    a, b = kid(eng, st, ref, 'Fields'), kid(eng, before, ref, 'Fields')
    old = [(h, y) for h, y in alts(b) if y is not UNBOUND]
    if len(old) != 1:
        raise Unsupported('Fields of the file')
    h, y = old[0]
    eng.prove(f'{name}: <Fields> is still there if it was', st, Implies(h, Or(*[g for g, x in alts(a) if same(x, y)])))
    frame(eng, w, st, before, y, managed, f'{name}/Fields')


def u_element(u, kind_):
    w = World(u, kind_, 'stored')
    eng = w.eng
    if kind_ == 'scene':
        w.st.assume(c01.start_elements(lambda t: z3.Bool(f'stored has {t}')))
        E, _ = c01.scene_fields(w)
    else:
        E = c01.chapter_fields(w)
    w.make_novel(E)
    before = w.st.fork()
    managed_fields = FIELDS[kind_] | set(const_list(w, {'scene': 'SCN_KWVAR', 'chapter': 'CHP_KWVAR'}[kind_]))
    st = w.write()
    x = w.written_element(st)
    eng.prove(f'{kind_}: the element of the file is kept in its place', st, same(x, w.file_elem))
    frame(eng, w, st, before, w.file_elem, MANAGED[kind_], kind_)
    fields_frame(eng, w, st, before, w.file_elem, managed_fields, kind_)
    texts_kept(eng, st, before, w.file_elem, kind_, E, kind_)
    eng.prove(f'{kind_}: the ID is as before', st, same_child(eng, st, before, w.file_elem, 'ID'))
    if kind_ == 'scene':
        i, j, k = z3.Int('date?'), z3.Int('time?'), z3.Int('day?')
        s = st.fork(z3.And(i >= 0, i <= 1, j == 0, k == 0))
        for t in ('SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute'):
            eng.prove(f'scene: <{t}> is as before if date, time and day are not set', s, same_child(eng, s, before, w.file_elem, t))
    root_frame(eng, w, st, before)


def const_list(w, name):
    """A tuple of field names of the class of the file."""
    st = w.st
    v = w.eng.getattr(st, w.cls, name)
    out = w.eng.narrow(st, v)
    if isinstance(out, tuple):
        return out
    if isinstance(out, Ref):
        return tuple(v for k, g, v in st.get(out).x)
    raise Unsupported(f'{name}')


def root_frame(eng, w, st, before):
    root = w.root
    r = w.root_now(st)
    eng.prove('the root of the file is kept', st, same(r, root))
    frame(eng, w, st, before, root, ROOT, 'file')
    for t in sorted(ROOT - {'PROJECTNOTES', 'PROJECTVARS', 'PROJECT'}):
        a = ref_of(eng, before, kid(eng, before, root, t), t)
        v = kid(eng, st, root, t)
        eng.prove(f'there is one section <{t}>', st, Not(Or(*[g for g, x in alts(v) if not isinstance(x, Ref)])))
    p = ref_of(eng, before, kid(eng, before, root, 'PROJECT'), 'PROJECT')
    eng.prove('the project element of the file is kept', st, same(eng.narrow(st, kid(eng, st, root, 'PROJECT')), p))
    for t in ('SCENES', 'CHAPTERS'):
        a = ref_of(eng, before, kid(eng, before, root, t), t)
        eng.prove(f'the section <{t}> of the file is kept', st, same(eng.narrow(st, kid(eng, st, root, t)), a))


def u_project(u):
    w = World(u, 'project', 'stored')
    eng = w.eng
    w.make_novel({})
    g = w.given
    before = w.st.fork()
    managed_fields = FIELDS['project'] | set(const_list(w, 'PRJ_KWVAR'))
    st = w.write()
    p = ref_of(eng, before, kid(eng, before, w.root, 'PROJECT'), 'PROJECT')
    frame(eng, w, st, before, p, MANAGED['project'], 'project')
    fields_frame(eng, w, st, before, p, managed_fields, 'project')
    texts_kept(eng, st, before, p, 'project', g, 'project')
    root_frame(eng, w, st, before)


def u_read(u, kind_):
    """read() leaves the tree of the file as it is."""
    w = World(u, kind_, 'stored')
    eng = w.eng
    before = w.st.fork()
    st, nv = w.read_stored()
    eng.cover('read() returns', st)
    eng.prove('the root is kept', st, same(w.root_now(st), w.root))
    for t in children(st, w.root):
        eng.prove(f'reading leaves <{t}> as it is', st, same_child(eng, st, before, w.root, t))
    if kind_ != 'project':
        eng.prove(f'reading leaves the element of the {kind_} as it is', st, untouched(eng, st, before, w.file_elem))


UNITS = [('scene', lambda u: u_element(u, 'scene')), ('chapter', lambda u: u_element(u, 'chapter')), ('project', u_project),
         ('project variables', lambda u: c16.u_vars(u, 'stored'))]
UNITS += [(f'read ({k})', lambda u, k=k: u_read(u, k)) for k in ('project', 'chapter', 'scene')]
