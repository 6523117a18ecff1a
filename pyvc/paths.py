"""Contracts of the string and path functions used for file names, exact on names with a known ending."""
import os
import urllib.parse
import z3
from .values import *
from .state import *
from .lib import STR, SEQ, U_SPLIT, U_JOIN, U_LOWER, U_REPL

TRUSTED = [
    'os.path.splitext: for a path with a name that ends with a known extension gives the path without it and the extension; else root + extension = path',
    'str.split: splitting x + d at d gives the parts of x and an empty last part, if no proper beginning of d is also an end of d; joining the parts with the divider restores the text',
    'urllib.parse.quote: raises for texts that cannot be encoded unless errors is given',
    'str.lower: the result of a text with an ASCII ending ends with that ending in lower case; str.replace of one character works character by character',
]


def parts(t):
    t = z3.simplify(t) if is_z3(t) else term(t)
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in parts(x)]
    return [t]


def cat(ps):
    ps = [p for p in ps if not (z3.is_string_value(p) and p.as_string() == '')]
    return z3.StringVal('') if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def lit(p):
    return p.as_string() if z3.is_string_value(p) else None


def unbordered(d):
    return len(d) > 0 and not any(d[:n] == d[-n:] for n in range(1, len(d)))


def install(eng):
    H, M = eng.libs['%host'], eng.libs['%methods']

    def strs(f):
        def g(e, st, a, k):
            return e.lift(st, a[0], lambda s, v: f(e, s, v, a[1:], k) if kind(v) == 'str' else e.raise_new(s, TypeError, 'path'))
        return g

    def splitext(e, st, v, a, k):
        if isinstance(v, str):
            return os.path.splitext(v)
        ps = parts(v)
        l = lit(ps[-1])
        if l and '.' in l and '/' not in l[l.rindex('.'):]:
            n = l.rindex('.')
            return cat(ps[:-1] + [z3.StringVal(l[:n])]), l[n:]
        t = cat(ps)
        r, x = z3.Function('splitext_root', STR, STR)(t), z3.Function('splitext_ext', STR, STR)(t)
        st.assume(t == z3.Concat(r, x))
        return r, x

    def fn(name):
        return lambda e, s, v, a, k: z3.Function(name, STR, STR)(term(v))

    def split(e, st, v, a, k):
        t = term(v)
        h, b = z3.Function('path_head', STR, STR)(t), z3.Function('path_tail', STR, STR)(t)
        return h, b

    H[os.path.splitext] = strs(splitext)
    H[os.path.realpath] = strs(fn('realpath'))
    H[os.path.abspath] = strs(fn('abspath'))
    H[os.path.basename] = strs(lambda e, s, v, a, k: split(e, s, v, a, k)[1])
    H[os.path.dirname] = strs(lambda e, s, v, a, k: split(e, s, v, a, k)[0])
    H[os.path.normpath] = strs(fn('normpath'))
    H[os.path.split] = strs(split)

    def quote(e, st, v, a, k):
        if k.get('errors', 'strict') == 'strict' and not isinstance(v, str):
            e.raise_if(st, z3.Not(z3.Function('encodable', STR, z3.BoolSort())(term(v))), UnicodeEncodeError, 'surrogates not allowed')
        return z3.Function('quote', STR, STR)(term(v))

    H[urllib.parse.quote] = strs(quote)
    old = dict(M)

    def s_split(e, st, o, a, k):
        if is_z3(o) and len(a) == 1 and isinstance(a[0], str) and unbordered(a[0]) and not k:
            ps = parts(o)
            l = lit(ps[-1])
            d = z3.StringVal(a[0])
            if l and l.endswith(a[0]):
                b = cat(ps[:-1] + [z3.StringVal(l[:-len(a[0])])])
                t = U_SPLIT(b, d)
                st.assume(z3.Length(t) >= 1, U_JOIN(d, t) == b)
                return st.alloc(Obj('list', x=(run(t), item(''))))
            t = U_SPLIT(cat(ps), d)
            st.assume(z3.Length(t) >= 1, U_JOIN(d, t) == cat(ps))
            return st.alloc(Obj('list', x=(run(t),)))
        return old[('str', 'split')](e, st, o, a, k)

    def s_lower(e, st, o, a, k):
        if not is_z3(o):
            return o.lower()
        ps = parts(o)
        r = U_LOWER(cat(ps))
        l = lit(ps[-1])
        if l and l.isascii():
            st.assume(z3.SuffixOf(z3.StringVal(l.lower()), r))
        return r

    def s_replace(e, st, o, a, k):
        if is_z3(o) and len(a) == 2 and isinstance(a[0], str) and len(a[0]) == 1 and isinstance(a[1], str):
            out = []
            for p in parts(o):
                l = lit(p)
                out.append(z3.StringVal(l.replace(a[0], a[1])) if l is not None else U_REPL(p, z3.StringVal(a[0]), z3.StringVal(a[1])))
            return cat(out)
        return old[('str', 'replace')](e, st, o, a, k)

    def s_rsplit(e, st, o, a, k):
        mx = a[1] if len(a) > 1 else k.get('maxsplit')
        if is_z3(o) and a and isinstance(a[0], str) and mx == 1 and a[0]:
            h, s, t = s_rpartition(e, st, o, a, k)
            c = z3.Contains(term(o), z3.StringVal(a[0]))
            return st.alloc(Obj('list', x=(item(h, c), item(t))))
        if isinstance(o, str):
            from .lib import from_host, concrete
            return from_host(st, o.rsplit(*[concrete(e, st, x) for x in a]))
        raise Unsupported('rsplit')

    def s_rpartition(e, st, o, a, k):
        d = a[0]
        if isinstance(o, str):
            return o.rpartition(d)
        ps = parts(o)
        l = lit(ps[-1])
        if l and d in l:
            n = l.rindex(d)
            return cat(ps[:-1] + [z3.StringVal(l[:n])]), d, l[n + len(d):]
        t, p = term(o), z3.StringVal(d)
        h, b = z3.Function(f'rpart_head<{d}>', STR, STR)(t), z3.Function(f'rpart_tail<{d}>', STR, STR)(t)
        c = z3.Contains(t, p)
        st.assume(z3.If(c, z3.And(t == z3.Concat(h, p, b), z3.Not(z3.Contains(b, p))), z3.And(h == z3.StringVal(''), b == t)))
        return h, z3.If(c, p, z3.StringVal('')), b

    M[('str', 'split')] = s_split
    M[('str', 'lower')] = s_lower
    M[('str', 'replace')] = s_replace
    M[('str', 'rsplit')] = s_rsplit
    M[('str', 'rpartition')] = s_rpartition
    return eng
