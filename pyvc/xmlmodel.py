"""Contracts of xml.etree.ElementTree elements: tag, text, and at most one child per tag; some parents have a list of children of one tag.

An element is an object of kind 'xml': fields tag and text; x maps each tag to the child with this tag (or nothing).
The children of the tags in LISTS form a list of leaves instead (field 'kids:<tag>', in document order).
A second child with the same tag violates the obligation 'no element twice'. The order of children with different tags is not kept.
"""
import z3
from .values import *
from .state import *
from .state import LAZY
from .lib import STR, SEQ

LISTS = {'Characters': ('CharID',), 'Locations': ('LocID',), 'Items': ('ItemID',), 'Scenes': ('ScID',)}
ENTRIES = {'LOCATIONS': 'LOCATION', 'ITEMS': 'ITEM', 'CHARACTERS': 'CHARACTER', 'PROJECTNOTES': 'PROJECTNOTE', 'PROJECTVARS': 'PROJECTVAR', 'SCENES': 'SCENE', 'CHAPTERS': 'CHAPTER'}
LISTS.update({k: (v,) for k, v in ENTRIES.items()})
ET = 'xml.etree.ElementTree'


class SymKids:
    """The children of an element read from an arbitrary file; made on first use."""

    def __init__(self, eng, name, always=(), never=(), texts=None):
        self.eng, self.name, self.always, self.never, self.cache, self.texts = eng, name, set(always), set(never), {}, texts or {}

    def child(self, tag):
        if tag not in self.cache:
            n = f'{self.name}/{tag}'
            if tag in self.texts:
                text = self.texts[tag](n)
            else:
                text = z3.String(f'{n}.text') if tag in self.always else self.eng.opt(f'{n}.text')
            st = State()
            o = element(st, tag, text, SymKids(self.eng, n), n)
            LAZY.update(st.heap)
            self.cache[tag] = o
        return self.cache[tag]

    def present(self, tag):
        if tag in self.always:
            return True
        if tag in self.never:
            return False
        return z3.Bool(f'{self.name} has {tag}')

    def lookup(self, eng, st, key):
        if not isinstance(key, str):
            raise Unsupported('symbolic tag')
        r = self.child(key)
        for oid in [r.oid] + [v.oid for v in LAZY[r.oid].f.values() if isinstance(v, Ref)]:
            if oid not in st.heap:
                st.heap[oid] = LAZY[oid]
        p = self.present(key)
        return r if p is True else UNBOUND if p is False else Union([(p, r), (Not(p), UNBOUND)])


def element(st, tag, text=None, kids=None, name=None):
    f = {'tag': tag, 'text': text}
    for t in LISTS.get(tag, ()):
        f[f'kids:{t}'] = st.alloc(Obj('list', x=(run(z3.Const(f'{name}/{t}*', SEQ)),) if kids is not None else (), meta='leaves'))
    return st.alloc(Obj('xml', f, x=Store(kids)))


def kid(eng, st, ref, tag):
    """Child with a tag: Ref, UNBOUND or a union of these."""
    return eng.store_get(st, st.get(ref).x, tag)


def kid_or_none(v):
    return make_union([(g, None if x is UNBOUND else x) for g, x in alts(v)])


def leaf_list(eng, st, ref, tag):
    return st.get(ref).f.get(f'kids:{tag}')


def put(eng, st, parent, tag, ref, what):
    v = kid(eng, st, parent, tag)
    for g, x in alts(v):
        if x is not UNBOUND:
            eng.prove(f'no element twice: {st.get(parent).f["tag"]}/{tag}', st, Not(g))
    o = st.edit(parent)
    o.x = o.x.put(tag, ref)


def install(eng):
    M, A, S = eng.libs['%methods'], eng.libs['%attrs'], eng.libs['%setattrs']

    def tag_of(st, v):
        if isinstance(v, Ref) and st.get(v).kind == 'xml' and isinstance(st.get(v).f['tag'], str):
            return st.get(v).f['tag']
        raise Unsupported('an element with a symbolic tag')

    def name(a):
        if not a or not isinstance(a[0], str) or not a[0].replace('_', '').isalnum():
            raise Unsupported(f'XML path {a!r}')
        return a[0]

    def find(e, st, o, a, kw):
        t = name(a)
        if leaf_list(e, st, o, t) is not None:
            raise Unsupported('find in a list of elements')
        return kid_or_none(kid(e, st, o, t))

    def findtext(e, st, o, a, kw):
        r = find(e, st, o, a[:1], kw)
        d = a[1] if len(a) > 1 else kw.get('default')

        def f(s, x):
            if x is None:
                return d
            t = s.get(x).f['text']
            return make_union([(g, '' if y is None else y) for g, y in alts(t)])

        return e.lift(st, r, f)

    def leaves(st, lst):
        out = []
        for k, g, v in st.get(lst).x:
            out.append((k, g, v if k == 's' else v))
        return tuple(out)

    def findall(e, st, o, a, kw):
        t = name(a)
        l = leaf_list(e, st, o, t)
        if l is not None:
            return st.alloc(Obj('list', x=leaves(st, l), meta='leaves'))
        v = kid(e, st, o, t)
        return st.alloc(Obj('list', x=tuple(item(x, g) for g, x in alts(v) if x is not UNBOUND)))

    def append(e, st, o, a, kw):
        x = a[0]
        if isinstance(x, Union):
            return e.lift(st, x, lambda s, y: append(e, s, o, [y], kw))
        if not isinstance(x, Ref):
            e.raise_new(st, TypeError, 'append')
        t = tag_of(st, x)
        l = leaf_list(e, st, o, t)
        if l is not None:
            st.edit(l).x += (item(x),)
        else:
            put(e, st, o, t, x, 'append')

    def insert(e, st, o, a, kw):
        if len(a) == 2 and isinstance(a[1], Ref) and leaf_list(e, st, o, tag_of(st, a[1])) is not None:
            raise Unsupported('insertion into a list of elements')
        return append(e, st, o, [a[1]], kw)

    def remove(e, st, o, a, kw):
        x = a[0]
        if isinstance(x, Union):
            return e.lift(st, x, lambda s, y: remove(e, s, o, [y], kw))
        if x is None:
            e.raise_new(st, TypeError, 'remove() argument must be an element')
        t = tag_of(st, x)
        l = leaf_list(e, st, o, t)
        if l is not None:
            its = st.get(l).x
            for n, (k, g, v) in enumerate(its):
                if k == 'i' and same(v, x):
                    e.raise_if(st, Not(g), ValueError, 'list.remove(x): x not in list')
                    st.edit(l).x = its[:n] + its[n + 1:]
                    return
            if all(k == 'i' for k, g, v in its):
                e.raise_new(st, ValueError, 'list.remove(x): x not in list')
            raise Unsupported('removal of an element from a symbolic list')
        v = kid(e, st, o, t)
        e.raise_if(st, Not(Or(*[g for g, y in alts(v) if y is not UNBOUND and same(y, x)])), ValueError, 'list.remove(x): x not in list')
        p = st.edit(o)
        p.x = p.x.put(t, UNBOUND)

    M.update({('xml', 'find'): find, ('xml', 'findtext'): findtext, ('xml', 'findall'): findall, ('xml', 'append'): append,
              ('xml', 'insert'): insert, ('xml', 'remove'): remove})

    def iter_(e, st, o, a, kw):
        t = name(a)
        if leaf_list(e, st, o, t) is None:
            raise Unsupported('iter() of an element')
        return findall(e, st, o, a, kw)

    def children(e, st, o, a=(), kw=None):
        l = the_list(st, o)
        if l is None:
            raise Unsupported('iteration over the children of an element')
        return list(st.get(l).x)

    M[('xml', '__iter__')] = children
    M[('xml', 'iter')] = iter_
    A[('xml', 'text')] = lambda e, s, o: s.get(o).f['text']
    A[('xml', 'tag')] = lambda e, s, o: s.get(o).f['tag']

    def set_text(e, st, o, v):
        st.edit(o).f['text'] = v

    S[('xml', 'text')] = set_text

    def new(e, st, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], str):
            raise Unsupported('element with attributes')
        return element(st, a[0])

    def sub(e, st, a, kw):
        p = a[0]
        if isinstance(p, Union):
            return e.lift(st, p, lambda s, x: sub(e, s, [x] + list(a[1:]), kw))
        if p is None:
            e.raise_new(st, TypeError, 'SubElement() argument 1 must be an element')
        r = new(e, st, a[1:], kw)
        append(e, st, p, [r], {})
        return r

    eng.libs[ET] = {'Element': Native('ET.Element', new), 'SubElement': Native('ET.SubElement', sub)}
    return eng


def the_list(st, o):
    """The list object of an element that has one list of children only."""
    ls = [v for k, v in st.get(o).f.items() if k.startswith('kids:')]
    return ls[0] if len(ls) == 1 else None


def label(eng, st, ref):
    """The text of a leaf, the ID of an entry."""
    if st.get(ref).f['tag'] in ENTRIES.values():
        v = eng.narrow(st, kid_or_none(kid(eng, st, ref, 'ID')))
        if not isinstance(v, Ref):
            raise Unsupported('entry without ID')
        ref = v
    t = eng.narrow(st, st.get(ref).f['text'])
    if kind(t) != 'str':
        raise Unsupported('leaf without text')
    return t


def text_items(eng, st, ref):
    """The list of leaves as a list of their texts."""
    out = []
    for k, g, v in st.get(ref).x:
        if k == 'i' and any(isinstance(x, Ref) for _, x in alts(v)):
            out += [(k, And(g, h), label(eng, st if g is True and h is True else st.fork(g, h), x)) for h, x in alts(v)]
        else:
            out.append((k, g, v))
    return tuple(out)


def texts(eng, st, ref):
    """Seq term of the texts of a list of leaves."""
    from .lib import list_term
    s = st.fork()
    r = s.alloc(Obj('list', x=text_items(eng, st, ref)))
    return list_term(eng, s, r)
