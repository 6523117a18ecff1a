"""Built-in functions, methods of the built-in types, and the default treatment of library functions.

Everything here is a trusted contract on Python itself (listed in the evidence as trusted base).
Functions of the standard library that are not modelled are evaluated natively when all arguments are concrete
and are uninterpreted functions (or unsupported) otherwise.
"""
import ast
import builtins
import locale
import re
import datetime
import z3
from .values import *
from .state import *

STR = z3.StringSort()
SEQ = z3.SeqSort(STR)

# uninterpreted functions of the string library
U_STRIP = z3.Function('py_strip', STR, STR)
U_REPEAT = z3.Function('py_repeat', STR, z3.IntSort(), STR)
U_LSTRIP = z3.Function('py_lstrip', STR, STR)
U_RSTRIP = z3.Function('py_rstrip', STR, STR)
U_LOWER = z3.Function('py_lower', STR, STR)
U_SPLIT = z3.Function('py_split', STR, STR, SEQ)
U_SPLITWS = z3.Function('py_split_ws', STR, SEQ)
U_SPLIT1 = z3.Function('py_split_max', STR, STR, z3.IntSort(), SEQ)
U_JOIN = z3.Function('py_join', STR, SEQ, STR)
U_REPL = z3.Function('py_replace', STR, STR, STR, STR)
U_INTOK = z3.Function('py_int_ok', STR, z3.BoolSort())
U_INT = z3.Function('py_int', STR, z3.IntSort())
U_SPLITLINES = z3.Function('py_splitlines', STR, SEQ)

MAX_REAL = None


def concrete(eng, st, v):
    """Python object of a value, or raises ValueError if it is symbolic."""
    if is_z3(v):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_string_value(s) and s.sort() == STR:
            return unz(s)
        raise ValueError
    if isinstance(v, Union):
        raise ValueError
    if isinstance(v, tuple):
        return tuple(concrete(eng, st, x) for x in v)
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ('list', 'iter'):
            if all(k == 'i' and g is True for k, g, _ in o.x):
                return [concrete(eng, st, x) for _, _, x in o.x]
        elif o.kind == 'set':
            return {concrete(eng, st, x) for _, _, x in o.x}
        elif o.kind == 'dict' and o.x.base is None:
            out = {}
            for k, g, (kk, vv) in eng.dict_items(o, lambda a, b: (a, b)):
                if g is not True:
                    raise ValueError
                out[concrete(eng, st, kk)] = concrete(eng, st, vv)
            return out
        raise ValueError
    if isinstance(v, (FuncVal, BoundMethod, Native, ModuleVal, Super, PropVal, StaticVal)):
        raise ValueError
    return v


def unz(t):
    s = t.as_string() if not hasattr(t, 'py_value') else t.py_value()
    return s


def from_host(st, v):
    if isinstance(v, list):
        return st.alloc(Obj('list', x=tuple(item(from_host(st, x)) for x in v)))
    if isinstance(v, dict):
        s = Store()
        for k, x in v.items():
            s = s.put(k, from_host(st, x))
        return st.alloc(Obj('dict', x=s))
    if isinstance(v, set):
        return st.alloc(Obj('set', x=tuple(item(x) for x in sorted(v, key=repr))))
    if isinstance(v, tuple):
        return tuple(from_host(st, x) for x in v)
    return v


def hostcall(eng, st, f, args, kwargs):
    name = getattr(f, '__module__', None)
    name = f'{name}.{getattr(f, "__qualname__", f)}'
    h = eng.libs['%host'].get(f) if _hashable(f) else None
    if h:
        return h(eng, st, args, kwargs)
    try:
        a = [concrete(eng, st, x) for x in args]
        k = {n: concrete(eng, st, x) for n, x in kwargs.items()}
    except ValueError:
        raise Unsupported(f'{name} with symbolic arguments')
    self_ = getattr(f, '__self__', None)
    pure = (isinstance(self_, (str, bytes, int, float, tuple, datetime.date, datetime.time, datetime.datetime, datetime.timedelta, re.Pattern, re.Match))
            or (getattr(f, '__module__', '') or '').split('.')[0] in ('re', 'posixpath', 'os.path', 'ntpath', 'datetime', 'genericpath', 'string', 'html', 'xml', 'json')
            or getattr(f, '__name__', '') in ('fsdecode', 'fspath')
            or f in (datetime.date, datetime.time, datetime.datetime, datetime.timedelta)
            or (isinstance(self_, type) and self_ in (datetime.date, datetime.time, datetime.datetime, str, bytes, dict))
            or f in (str, int, float, bool, bytes, ord, chr, abs, round, repr, hash, divmod, pow))
    if not pure:
        raise Unsupported(f'call of {name}')
    try:
        r = f(*a, **k)
    except Exception as ex:
        eng.raise_(st, st.alloc(Obj('inst', {'args': tuple(ex.args)}, type(ex))))
    return from_host(st, r)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


# ------------------------------------------------------------------ operators

def binop(eng, st, op, a, b):
    ka, kb = kind(a), kind(b)
    if isinstance(op, ast.Add):
        if ka == kb == 'str':
            return eng.concat(st, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref) and st.get(a).kind == st.get(b).kind == 'list':
            return st.alloc(Obj('list', x=st.get(a).x + st.get(b).x))
    if ka in ('int', 'bool') and kb in ('int', 'bool'):
        if not is_z3(a) and not is_z3(b):
            try:
                import operator
                return {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv,
                        ast.Div: operator.truediv, ast.Pow: operator.pow}[type(op)](a, b)
            except ZeroDivisionError:
                eng.raise_new(st, ZeroDivisionError)
            except KeyError:
                raise Unsupported('operator')
        if ka == 'bool':
            a = z3.If(tobool(a), 1, 0)
        if kb == 'bool':
            b = z3.If(tobool(b), 1, 0)
        ta, tb = term(a), term(b)
        if isinstance(op, ast.Add):
            return z3.simplify(ta + tb)
        if isinstance(op, ast.Sub):
            return z3.simplify(ta - tb)
        if isinstance(op, ast.Mult):
            return ta * tb
        if isinstance(op, (ast.Mod, ast.FloorDiv)):
            eng.raise_if(st, tb == 0, ZeroDivisionError)
            if isinstance(b, int) and b > 0:
                return ta % tb if isinstance(op, ast.Mod) else ta / tb
        raise Unsupported(f'arithmetic {type(op).__name__}')
    if isinstance(op, ast.Mult) and ka == 'str' and isinstance(a, str) and isinstance(b, int):
        return a * b
    if isinstance(op, ast.Mult) and isinstance(a, Ref) and st.get(a).kind == 'list' and isinstance(b, int):
        return st.alloc(Obj('list', x=st.get(a).x * b))
    if isinstance(op, ast.Mod) and ka == 'str':
        raise Unsupported('% formatting')
    if isinstance(op, ast.Mult) and {ka, kb} == {'int', 'str'} and (is_z3(a) or is_z3(b)):
        t, n = (a, b) if ka == 'str' else (b, a)
        return U_REPEAT(term(t), term(n))
    if not is_z3(a) and not is_z3(b) and not isinstance(a, Ref) and not isinstance(b, Ref):
        import operator
        f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv}.get(type(op))
        if f is None:
            raise Unsupported('operator')
        try:
            return f(a, b)
        except Exception as ex:
            eng.raise_new(st, type(ex), *ex.args)
    if (a is None or b is None) or {ka, kb} in ({'str', 'int'}, {'str', 'bool'}):
        eng.raise_new(st, TypeError, 'operand')
    raise Unsupported(f'{type(op).__name__} of {a!r} and {b!r}')


def eq(eng, st, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[eng.eq(st, x, y) for x, y in zip(a, b)])
    ka, kb = kind(a), kind(b)
    if {ka, kb} <= {'int', 'bool'} and ka != kb:
        a = z3.If(tobool(a), 1, 0) if ka == 'bool' else a
        b = z3.If(tobool(b), 1, 0) if kb == 'bool' else b
        return term(a) == term(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return True
        oa, ob = st.get(a), st.get(b)
        if oa.kind != ob.kind:
            return False
        if oa.kind == 'list':
            if all(k == 'i' and g is True for k, g, _ in oa.x + ob.x):
                if len(oa.x) != len(ob.x):
                    return False
                return And(*[eng.eq(st, x[2], y[2]) for x, y in zip(oa.x, ob.x)])
            ta, tb = list_term(eng, st, a), list_term(eng, st, b)
            return ta == tb
        if oa.kind in ('dict', 'set'):
            try:
                return concrete(eng, st, a) == concrete(eng, st, b)
            except ValueError:
                raise Unsupported('comparison of symbolic maps')
        if oa.kind == 'inst' and not isinstance(oa.meta, type) and eng.class_lookup(st, oa.meta, '__eq__') is not None:
            raise Unsupported('__eq__')
        return False
    if ka != kb:
        if (isinstance(a, Ref) or isinstance(b, Ref)) and (is_z3(a) or is_z3(b)) and not {ka, kb} & {'str', 'int', 'bool'}:
            raise Unsupported('comparison of object and term')
        return False
    ta, tb = term(a), term(b)
    if ta is not None and tb is not None:
        if ta.eq(tb):
            return True
        if not is_z3(a) and not is_z3(b):
            return a == b
        r = z3.simplify(ta == tb)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return ta == tb
    return bool(a == b)


def order(eng, st, op, a, b):
    if kind(a) in ('int', 'bool') and kind(b) in ('int', 'bool'):
        if is_z3(a) or is_z3(b):
            ta, tb = term(a), term(b)
            return {ast.Lt: lambda: ta < tb, ast.LtE: lambda: ta <= tb, ast.Gt: lambda: ta > tb, ast.GtE: lambda: ta >= tb}[type(op)]()
    if kind(a) == kind(b) == 'str' and (is_z3(a) or is_z3(b)):
        ta, tb = term(a), term(b)
        return {ast.Lt: lambda: ta < tb, ast.LtE: lambda: ta <= tb, ast.Gt: lambda: tb < ta, ast.GtE: lambda: tb <= ta}[type(op)]()
    if is_z3(a) or is_z3(b) or isinstance(a, Ref) or isinstance(b, Ref):
        if a is None or b is None or kind(a) != kind(b):
            eng.raise_new(st, TypeError, 'order')
        raise Unsupported('order')
    import operator
    try:
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)](a, b)
    except TypeError as ex:
        eng.raise_new(st, TypeError, *ex.args)


def list_term(eng, st, ref):
    """Seq(String) term of a list of strings."""
    o = st.get(ref)
    parts = []
    for k, g, v in o.x:
        if k == 's':
            t = v
        elif isinstance(v, Union):
            if all(kind(x) == 'str' for _, x in v.alts):
                t = z3.Unit(term(v.alts[0][1]))
            else:
                raise Unsupported('list of mixed values as a sequence')
        elif kind(v) == 'str':
            t = z3.Unit(term(v))
        else:
            raise Unsupported('list of other than strings as a sequence')
        if g is not True:
            t = z3.If(g, t, z3.Empty(SEQ))
        parts.append(t)
    if not parts:
        return z3.Empty(SEQ)
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def contains(eng, st, coll, x):
    if isinstance(coll, (tuple, list, set, frozenset, range)):
        return Or(*[eng.eq(st, e, x) for e in coll])
    if kind(coll) == 'str':
        if isinstance(x, Union):
            return Or(*[And(g, contains(eng, st, coll, y)) for g, y in x.alts if eng.feasible(st, g)])
        if kind(x) != 'str':
            eng.raise_new(st, TypeError, 'in')
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        return z3.Contains(term(coll), term(x))
    if isinstance(coll, Ref):
        o = st.get(coll)
        if o.kind in ('list', 'set', 'iter'):
            out = []
            for k, g, v in o.x:
                if k == 'i':
                    out.append(And(g, eng.eq(st, v, x)))
                else:
                    for h, y in alts(x):
                        if kind(y) == 'str':
                            out.append(And(g, h, z3.Contains(v, z3.Unit(term(y)))))
            return Or(*out)
        if o.kind == 'dict':
            h = getattr(o.x.base, 'has', None)
            v = eng.store_get(st, o.x, x)
            return Or(*[g for g, y in alts(v) if y is not UNBOUND]) if isinstance(v, Union) else v is not UNBOUND
        m = eng.libs['%methods'].get((o.kind, '__contains__'))
        if m:
            return m(eng, st, coll, [x], {})
        if o.kind == 'inst':
            return eng.truth(st, eng.call(st, eng.getattr(st, coll, '__contains__'), [x], {}))
    if coll is None or kind(coll) in ('int', 'bool'):
        eng.raise_new(st, TypeError, 'not iterable')
    raise Unsupported(f'in {coll!r}')


def to_str(eng, st, v):
    if isinstance(v, Union):
        return make_union([(g, to_str(eng, st, x)) for g, x in v.alts if eng.feasible(st, g)])
    k = kind(v)
    if k == 'str':
        return v
    if is_z3(v):
        if k == 'int':
            return z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v)))
        if k == 'bool':
            return z3.If(v, z3.StringVal('True'), z3.StringVal('False'))
        raise Unsupported(f'str of {v.sort()}')
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind == 'inst':
            if eng.subclass(st, o.meta, BaseException):
                if not isinstance(o.meta, type):
                    m = eng.class_lookup(st, o.meta, '__str__')
                    if isinstance(m, FuncVal):
                        return eng.call(st, m, [v], {})
                a = o.f.get('args', ())
                if len(a) == 1:
                    return to_str(eng, st, a[0])
                if not a:
                    return ''
                return eng.fresh('exception_text')
            m = eng.class_lookup(st, o.meta, '__str__')
            if isinstance(m, FuncVal):
                return eng.call(st, m, [v], {})
        m = eng.libs['%methods'].get((o.kind, '__str__'))
        if m:
            return m(eng, st, v, [], {})
        try:
            return str(concrete(eng, st, v))
        except ValueError:
            pass
        return eng.fresh('object_text')
    if isinstance(v, (FuncVal, BoundMethod, Native, ModuleVal)):
        return eng.fresh('object_text')
    return str(v)


def fmt(eng, st, v, spec):
    try:
        return format(concrete(eng, st, v), spec)
    except ValueError:
        raise Unsupported('format specification')


def slice_(eng, st, v, lo, hi, step):
    if step is not None:
        try:
            return concrete(eng, st, v)[lo:hi:step]
        except ValueError:
            raise Unsupported('slice with step')
    k = kind(v)
    if isinstance(v, (str, tuple, bytes)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return v[lo:hi]
    if k == 'str':
        t = term(v)
        cut = getattr(eng, 'rw_slice', None)
        r = cut(t, lo, hi) if cut else None
        return _subseq(t, lo, hi) if r is None else r
    if isinstance(v, Ref):
        o = st.get(v)
        if o.kind in ('list', 'iter'):
            if all(kk == 'i' and g is True for kk, g, _ in o.x) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return st.alloc(Obj('list', x=o.x[lo:hi]))
            t = list_term(eng, st, v)
            return st.alloc(Obj('list', x=(run(_subseq(t, lo, hi)),)))
    if v is None or k in ('int', 'bool'):
        eng.raise_new(st, TypeError, 'not subscriptable')
    raise Unsupported(f'slice of {v!r}')


def _subseq(t, lo, hi):
    n = z3.Length(t)

    def norm(x):
        x = term(x)
        if z3.is_int_value(x):
            if x.as_long() >= 0:
                return z3.If(x > n, n, x)
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        return z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))

    a = z3.IntVal(0) if lo is None else norm(lo)
    b = n if hi is None else norm(hi)
    return z3.SubSeq(t, a, z3.If(b > a, b - a, z3.IntVal(0))) if t.sort() != STR else z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0)))


def getitem(eng, st, obj, key):
    if isinstance(obj, (str, tuple, bytes, list, dict, range)) and not is_z3(key) and not isinstance(key, (Union, Ref)):
        try:
            return obj[key]
        except Exception as ex:
            eng.raise_new(st, type(ex), *ex.args)
    if isinstance(obj, Ref):
        o = st.get(obj)
        if o.kind in ('list', 'iter'):
            if isinstance(key, Union):
                return eng.lift(st, key, lambda s, k: getitem(eng, s, obj, k))
            if kind(key) not in ('int', 'bool'):
                eng.raise_new(st, TypeError, 'list index')
            if all(k == 'i' and g is True for k, g, _ in o.x):
                if isinstance(key, int):
                    try:
                        return o.x[key][2]
                    except IndexError:
                        eng.raise_new(st, IndexError, 'list index')
                n = len(o.x)
                eng.raise_if(st, Or(key < -n, key >= n), IndexError, 'list index')
                v = None
                for i in range(n):
                    c = Or(key == i, key == i - n)
                    v = o.x[i][2] if i == 0 else ite(c, o.x[i][2], v)
                return v
            if isinstance(key, int) and key < 0 and o.x and all(k == 'i' and g is True for k, g, _ in o.x[key:]) and len(o.x) >= -key:
                return o.x[key][2]
            if isinstance(key, int) and key >= 0 and len(o.x) > key and all(k == 'i' and g is True for k, g, _ in o.x[:key + 1]):
                return o.x[key][2]
            t = list_term(eng, st, obj)
            k = term(key)
            n = z3.Length(t)
            eng.raise_if(st, Or(k < -n, k >= n), IndexError, 'list index')
            return t[z3.If(k < 0, n + k, k)]
        if o.kind == 'dict':
            v = eng.store_get(st, o.x, key)
            if isinstance(v, Union):
                bad = Or(*[g for g, x in v.alts if x is UNBOUND])
                if bad is not False:
                    eng.raise_if(st, bad, KeyError, key)
                    v = make_union([(g, x) for g, x in v.alts if x is not UNBOUND])
                return v
            if v is UNBOUND:
                eng.raise_new(st, KeyError, key)
            return v
        m = eng.libs['%methods'].get((o.kind, '__getitem__'))
        if m:
            return m(eng, st, obj, [key], {})
        if o.kind == 'inst':
            return eng.call(st, eng.getattr(st, obj, '__getitem__'), [key], {})
    if kind(obj) == 'str' and kind(key) == 'int':
        t = term(obj)
        k = term(key)
        n = z3.Length(t)
        eng.raise_if(st, Or(k < -n, k >= n), IndexError, 'string index')
        return z3.SubString(t, z3.If(k < 0, n + k, k), z3.IntVal(1))
    if obj is None or kind(obj) in ('int', 'bool'):
        eng.raise_new(st, TypeError, 'not subscriptable')
    if isinstance(obj, re.Match):
        return obj[key]
    if isinstance(obj, (list, tuple)) and is_z3(key):
        return getitem(eng, st, st.alloc(Obj('list', x=tuple(item(v) for v in obj))), key)
    raise Unsupported(f'item of {obj!r}')


def setitem(eng, st, obj, key, v):
    if isinstance(obj, Ref):
        o = st.get(obj)
        if o.kind == 'dict':
            h = getattr(o.x.base, 'on_set', None)
            if h:
                h(eng, st, obj, key, v)
            st.edit(obj).x = o.x.put(key, v)
            return
        if o.kind == 'list':
            if all(k == 'i' and g is True for k, g, _ in o.x):
                if isinstance(key, int):
                    if not -len(o.x) <= key < len(o.x):
                        eng.raise_new(st, IndexError, 'list index')
                    xs = list(o.x)
                    xs[key] = item(v)
                    st.edit(obj).x = tuple(xs)
                    return
                n = len(o.x)
                eng.raise_if(st, Or(key < -n, key >= n), IndexError, 'list index')
                st.edit(obj).x = tuple(item(ite(Or(key == i, key == i - n), v, o.x[i][2])) for i in range(n))
                return
        m = eng.libs['%methods'].get((o.kind, '__setitem__'))
        if m:
            m(eng, st, obj, [key, v], {})
            return
    if obj is None or kind(obj) in ('str', 'int', 'bool'):
        eng.raise_new(st, TypeError, 'item assignment')
    raise Unsupported(f'item assignment to {obj!r}')


def delitem(eng, st, obj, key):
    if isinstance(obj, Ref):
        o = st.get(obj)
        if o.kind == 'dict':
            getitem(eng, st, obj, key)
            h = getattr(o.x.base, 'on_set', None)
            if h:
                h(eng, st, obj, key, UNBOUND)
            for g, k in alts(key):
                st.edit(obj).x = st.get(obj).x.put(k, UNBOUND, g)
            return
        if o.kind == 'list' and isinstance(key, int) and all(k == 'i' and g is True for k, g, _ in o.x):
            xs = list(o.x)
            try:
                del xs[key]
            except IndexError:
                eng.raise_new(st, IndexError)
            st.edit(obj).x = tuple(xs)
            return
    raise Unsupported('del of item')


# ------------------------------------------------------------------ methods

def str_methods():
    M = {}

    def s(t):
        return term(t)

    def native(name):

        def deco(f):

            def g(eng, st, o, a, kw):
                if isinstance(o, str):
                    try:
                        aa = [concrete(eng, st, x) for x in a]
                        kk = {n: concrete(eng, st, x) for n, x in kw.items()}
                        if all(not isinstance(x, (FuncVal,)) for x in aa):
                            try:
                                return from_host(st, getattr(o, name)(*aa, **kk))
                            except Exception as ex:
                                eng.raise_new(st, type(ex), *ex.args)
                    except ValueError:
                        pass
                if any(isinstance(x, Union) for x in a):
                    i = next(i for i, x in enumerate(a) if isinstance(x, Union))
                    return eng.lift(st, a[i], lambda s2, x: g(eng, s2, o, list(a[:i]) + [x] + list(a[i + 1:]), kw))
                return f(eng, st, o, a, kw)

            M[('str', name)] = g
            return f

        return deco

    @native('strip')
    def _(eng, st, o, a, kw):
        if a and a[0] is not None:
            if isinstance(a[0], str):
                r = z3.Function(f'py_strip[{a[0]}]', STR, STR)(s(o))
                st.assume(z3.Contains(s(o), r), z3.Implies(s(o) == z3.StringVal(''), r == z3.StringVal('')),
                          *[z3.And(z3.Not(z3.PrefixOf(z3.StringVal(c), r)), z3.Not(z3.SuffixOf(z3.StringVal(c), r))) for c in a[0]])
                return r
            raise Unsupported('strip with characters')
        if is_z3(o) and o.decl().eq(U_STRIP):
            return o
        r = U_STRIP(s(o))
        _ax_strip(eng, st, s(o), r)
        return r

    def _ax_strip(eng, st, t, r):
        st.assume(z3.Contains(t, r), U_STRIP(r) == r, z3.Implies(t == z3.StringVal(''), r == z3.StringVal('')),
                  z3.Not(z3.PrefixOf(z3.StringVal(' '), r)), z3.Not(z3.SuffixOf(z3.StringVal(' '), r)))

    @native('lstrip')
    def _(eng, st, o, a, kw):
        if a and a[0] is not None:
            if isinstance(a[0], str):
                f = z3.Function(f'py_lstrip[{a[0]}]', STR, STR)
                r = f(s(o))
                st.assume(z3.SuffixOf(r, s(o)))
                return r
            raise Unsupported('lstrip with characters')
        r = U_LSTRIP(s(o))
        st.assume(z3.SuffixOf(r, s(o)))
        return r

    @native('rstrip')
    def _(eng, st, o, a, kw):
        if a and a[0] is not None:
            if isinstance(a[0], str):
                f = z3.Function(f'py_rstrip[{a[0]}]', STR, STR)
                r = f(s(o))
                st.assume(z3.PrefixOf(r, s(o)))
                return r
            raise Unsupported('rstrip with characters')
        r = U_RSTRIP(s(o))
        st.assume(z3.PrefixOf(r, s(o)))
        return r

    @native('lower')
    def _(eng, st, o, a, kw):
        return U_LOWER(s(o))

    @native('startswith')
    def _(eng, st, o, a, kw):
        if isinstance(a[0], tuple):
            return Or(*[z3.PrefixOf(s(x), s(o)) for x in a[0]])
        if kind(a[0]) != 'str':
            eng.raise_new(st, TypeError)
        return z3.PrefixOf(s(a[0]), s(o))

    @native('endswith')
    def _(eng, st, o, a, kw):
        if isinstance(a[0], tuple):
            return Or(*[z3.SuffixOf(s(x), s(o)) for x in a[0]])
        if kind(a[0]) != 'str':
            eng.raise_new(st, TypeError)
        return z3.SuffixOf(s(a[0]), s(o))

    @native('split')
    def _(eng, st, o, a, kw):
        sep = a[0] if a else kw.get('sep')
        mx = a[1] if len(a) > 1 else kw.get('maxsplit', -1)
        if sep is None:
            if mx != -1:
                raise Unsupported('split')
            t = U_SPLITWS(s(o))
            return st.alloc(Obj('list', x=(run(t),)))
        if kind(sep) != 'str':
            eng.raise_new(st, TypeError)
        if is_z3(sep):
            eng.raise_if(st, sep == z3.StringVal(''), ValueError, 'empty separator')
        elif sep == '':
            eng.raise_new(st, ValueError, 'empty separator')
        if mx == 1:
            t, p = s(o), s(sep)
            c = eng.known(st, z3.Contains(t, p))
            i = z3.IndexOf(t, p, 0)
            if c is False:
                return st.alloc(Obj('list', x=(item(o),)))
            if c is True:
                if eng.known(st, z3.PrefixOf(p, t)) is True:
                    i = z3.IntVal(0)
                return st.alloc(Obj('list', x=(item(z3.SubString(t, 0, i) if not z3.is_int_value(i) else ''), item(z3.SubString(t, i + z3.Length(p), z3.Length(t))))))
        if mx == -1:
            t = U_SPLIT(s(o), s(sep))
            st.assume(z3.Length(t) >= 1)
        else:
            t = U_SPLIT1(s(o), s(sep), term(mx))
            st.assume(z3.Length(t) >= 1)
            if isinstance(mx, int):
                st.assume(z3.Length(t) <= mx + 1)
            if mx == 1:
                p = s(sep)
                st.assume(z3.If(z3.Contains(s(o), p),
                                z3.And(z3.Length(t) == 2, s(o) == z3.Concat(t[0], p, t[1]), z3.Length(t[0]) == z3.IndexOf(s(o), p, 0)),
                                z3.And(z3.Length(t) == 1, t[0] == s(o))))
        return st.alloc(Obj('list', x=(run(t),)))

    @native('rsplit')
    def _(eng, st, o, a, kw):
        if len(a) != 2 or kw or a[1] != 1 or not isinstance(a[0], str) or not a[0]:
            raise Unsupported('rsplit')
        t, p = s(o), s(a[0])
        c, i = z3.Contains(t, p), z3.LastIndexOf(t, p)
        return st.alloc(Obj('list', x=(item(z3.If(c, z3.SubString(t, 0, i), t)), item(z3.SubString(t, i + z3.Length(p), z3.Length(t)), c))))

    @native('splitlines')
    def _(eng, st, o, a, kw):
        return st.alloc(Obj('list', x=(run(U_SPLITLINES(s(o))),)))

    @native('join')
    def _(eng, st, o, a, kw):
        coll = a[0]
        if kind(coll) == 'str' or isinstance(coll, tuple) or isinstance(coll, (list,)):
            if isinstance(coll, tuple):
                coll = st.alloc(Obj('list', x=tuple(item(v) for v in coll)))
            else:
                raise Unsupported('join of a string')
        if coll is None or kind(coll) in ('int', 'bool'):
            eng.raise_new(st, TypeError, 'can only join an iterable')
        its = eng.items(st, coll)
        for k, g, v in its:
            if k == 'i':
                bad = Or(*[And(g, h) for h, x in alts(v) if kind(x) != 'str'])
                eng.raise_if(st, bad, TypeError, 'join')
        if all(k == 'i' for k, _, _ in its):
            its = [(k, g, eng.narrow(st, v) if isinstance(v, Union) else v) for k, g, v in its]
            out = ''
            if all(g is True for _, g, _ in its):
                for n, (_, _, v) in enumerate(its):
                    if n:
                        out = eng.concat(st, out, o)
                    out = eng.concat(st, out, v)
                return out
            some = False
            res = z3.StringVal('')
            for _, g, v in its:
                sep = ite(some, o, '') if some is not True else o
                if some is False:
                    sep = ''
                piece = eng.concat(st, sep, v) if not isinstance(v, Union) else None
                if piece is None:
                    raise Unsupported('join of mixed values')
                res = z3.If(tobool(g), z3.Concat(res, term(piece)), res)
                some = Or(some, g)
            return res
        if o == '' and len(its) > 1:
            # the parts are joined one by one
            res = ''
            for k, g, v in its:
                p = U_JOIN(z3.StringVal(''), v) if k == 's' else term(eng.narrow(st, v))
                if p is None:
                    raise Unsupported('join of mixed values')
                res = eng.concat(st, res, p if g is True else z3.If(g, p, z3.StringVal('')))
            return res
        t = list_term(eng, st, coll if isinstance(coll, Ref) else st.alloc(Obj('list', x=tuple(its))))
        return U_JOIN(s(o), t)

    @native('replace')
    def _(eng, st, o, a, kw):
        if len(a) > 2:
            if a[2] == 1:
                return z3.Replace(s(o), s(a[0]), s(a[1]))
            raise Unsupported('replace with count')
        for x in a[:2]:
            if kind(x) != 'str':
                eng.raise_new(st, TypeError, 'replace')
        r = U_REPL(s(o), s(a[0]), s(a[1]))
        hook = getattr(eng, 'replace_hook', None)
        if hook:
            hook(eng, st, s(o), s(a[0]), s(a[1]), r)
        else:
            if isinstance(a[0], str) and a[0] != '':
                st.assume(z3.Implies(z3.Not(z3.Contains(s(o), s(a[0]))), r == s(o)))
        return r

    @native('find')
    def _(eng, st, o, a, kw):
        return z3.IndexOf(s(o), s(a[0]), term(a[1]) if len(a) > 1 else z3.IntVal(0))

    @native('count')
    def _(eng, st, o, a, kw):
        f = z3.Function('py_count', STR, STR, z3.IntSort())
        r = f(s(o), s(a[0]))
        st.assume(r >= 0, (r > 0) == z3.Contains(s(o), s(a[0])))
        return r

    @native('partition')
    def _(eng, st, o, a, kw):
        t, p = s(o), s(a[0])
        i = z3.IndexOf(t, p, 0)
        c = z3.Contains(t, p)
        e = z3.StringVal('')
        return (z3.If(c, z3.SubString(t, 0, i), t), z3.If(c, p, e), z3.If(c, z3.SubString(t, i + z3.Length(p), z3.Length(t)), e))

    @native('removesuffix')
    def _(eng, st, o, a, kw):
        t, p = s(o), s(a[0])
        return z3.If(z3.And(z3.SuffixOf(p, t), p != z3.StringVal('')), z3.SubString(t, 0, z3.Length(t) - z3.Length(p)), t)

    @native('removeprefix')
    def _(eng, st, o, a, kw):
        t, p = s(o), s(a[0])
        return z3.If(z3.PrefixOf(p, t), z3.SubString(t, z3.Length(p), z3.Length(t)), t)

    @native('zfill')
    def _(eng, st, o, a, kw):
        r = z3.Function('py_zfill', STR, z3.IntSort(), STR)(s(o), term(a[0]))
        st.assume(z3.Implies(z3.Length(s(o)) >= term(a[0]), r == s(o)), z3.Length(r) >= term(a[0]), z3.Length(r) >= z3.Length(s(o)))
        return r

    @native('isdigit')
    def _(eng, st, o, a, kw):
        return z3.Function('py_isdigit', STR, z3.BoolSort())(s(o))

    @native('encode')
    def _(eng, st, o, a, kw):
        raise Unsupported('encode')

    @native('format')
    def _(eng, st, o, a, kw):
        if not isinstance(o, str):
            raise Unsupported('format of a symbolic text')
        import string
        out, n = '', 0
        for txt, field, spec, conv in string.Formatter().parse(o):
            out = eng.concat(st, out, txt)
            if field is None:
                continue
            if spec or conv:
                raise Unsupported('format specification')
            if field == '':
                field = str(n)
                n += 1
            if field.isdigit():
                if int(field) >= len(a):
                    eng.raise_new(st, IndexError, 'format')
                v = a[int(field)]
            elif field.isidentifier():
                if field not in kw:
                    eng.raise_new(st, KeyError, field)
                v = kw[field]
            else:
                raise Unsupported('format field')
            out = eng.concat(st, out, to_str(eng, st, v))
        return out

    return M


def list_methods():
    M = {}

    def plain(eng, st, o):
        x = st.get(o).x
        if not all(k == 'i' and g is True for k, g, _ in x):
            raise Unsupported('operation on a symbolic list')
        return [v for _, _, v in x]

    def append(eng, st, o, a, kw):
        ob = st.edit(o)
        ob.x = ob.x + (item(a[0]),)

    def extend(eng, st, o, a, kw):
        if isinstance(a[0], Union):
            return eng.lift(st, a[0], lambda q, x: extend(eng, q, o, [x], kw))
        its = eng.items(st, a[0])
        ob = st.edit(o)
        ob.x = ob.x + tuple(its)

    def pop(eng, st, o, a, kw):
        x = st.get(o).x
        if not a or a[0] == -1:
            if not x:
                eng.raise_new(st, IndexError, 'pop from empty list')
            k, g, v = x[-1]
            if k == 'i' and g is True:
                st.edit(o).x = x[:-1]
                return v
            raise Unsupported('pop from a symbolic list')
        if a[0] == 0:
            if not x:
                eng.raise_new(st, IndexError, 'pop from empty list')
            k, g, v = x[0]
            if k == 'i' and g is True:
                st.edit(o).x = x[1:]
                return v
        vals = plain(eng, st, o)
        try:
            v = vals.pop(*[concrete(eng, st, i) for i in a])
        except IndexError:
            eng.raise_new(st, IndexError)
        st.edit(o).x = tuple(item(y) for y in vals)
        return v

    def insert(eng, st, o, a, kw):
        x = st.get(o).x
        if a[0] == 0:
            st.edit(o).x = (item(a[1]),) + x
            return
        vals = plain(eng, st, o)
        vals.insert(concrete(eng, st, a[0]), a[1])
        st.edit(o).x = tuple(item(y) for y in vals)

    def remove(eng, st, o, a, kw):
        x = st.get(o).x
        if all(k == 'i' and g is True for k, g, _ in x):
            for n, (_, _, v) in enumerate(x):
                c = eng.known(st, eng.eq(st, v, a[0]))
                if c is True:
                    st.edit(o).x = x[:n] + x[n + 1:]
                    return
                if c is not False:
                    break
            else:
                eng.raise_new(st, ValueError, 'list.remove')
            # symbolic: the first equal element goes
            eqs = [eng.eq(st, v, a[0]) for _, _, v in x]
            eng.raise_if(st, Not(Or(*eqs)), ValueError, 'list.remove')
            new = []
            before = False
            for (kk, g, v), e in zip(x, eqs):
                new.append(('i', Or(before, Not(e)), v))
                before = Or(before, e)
            st.edit(o).x = tuple(new)
            return
        t = list_term(eng, st, o)
        e = z3.Unit(term(a[0]))
        eng.raise_if(st, z3.Not(z3.Contains(t, e)), ValueError, 'list.remove')
        st.edit(o).x = (run(z3.Replace(t, e, z3.Empty(SEQ))),)

    def clear(eng, st, o, a, kw):
        st.edit(o).x = ()

    def copy(eng, st, o, a, kw):
        return st.alloc(Obj('list', x=st.get(o).x))

    def reverse(eng, st, o, a, kw):
        vals = plain(eng, st, o)
        st.edit(o).x = tuple(item(v) for v in reversed(vals))

    def index(eng, st, o, a, kw):
        vals = plain(eng, st, o)
        eqs = [eng.eq(st, v, a[0]) for v in vals]
        eng.raise_if(st, Not(Or(*eqs)), ValueError, 'index')
        r = len(vals) - 1
        for i in range(len(vals) - 1, -1, -1):
            r = ite(eqs[i], i, r)
        return r

    def count(eng, st, o, a, kw):
        vals = plain(eng, st, o)
        return sum((z3.If(tobool(eng.eq(st, v, a[0])), 1, 0) for v in vals), z3.IntVal(0))

    def sort(eng, st, o, a, kw):
        try:
            vals = sorted(concrete(eng, st, o), **{k: v for k, v in kw.items()})
        except ValueError:
            raise Unsupported('sort of a symbolic list')
        st.edit(o).x = tuple(item(v) for v in vals)

    for f in (append, extend, pop, insert, remove, clear, copy, reverse, index, count, sort):
        M[('list', f.__name__)] = f

    def add(eng, st, o, a, kw):
        x = st.get(o).x
        c = contains(eng, st, o, a[0])
        c = eng.known(st, c)
        if c is True:
            return
        st.edit(o).x = x + (item(a[0], Not(c)),)

    M[('set', 'add')] = add

    def discard(eng, st, o, a, kw):
        x = st.get(o).x
        st.edit(o).x = tuple((k, And(g, Not(eng.eq(st, v, a[0]))), v) for k, g, v in x if And(g, Not(eng.eq(st, v, a[0]))) is not False)

    M[('set', 'discard')] = discard
    return M


def dict_methods():
    M = {}

    def get(eng, st, o, a, kw):
        d = a[1] if len(a) > 1 else kw.get('default')
        v = eng.store_get(st, st.get(o).x, a[0])
        if isinstance(v, Union):
            return make_union([(And(g, h), y) for g, x in v.alts for h, y in (alts(d) if x is UNBOUND else [(True, x)])])
        return d if v is UNBOUND else v

    def items(eng, st, o, a, kw):
        ob = st.get(o)
        if ob.x.base is not None:
            h = getattr(ob.x.base, 'iterate', None)
            if h:
                return st.alloc(Obj('iter', x=tuple(h(eng, st, o, 'items'))))
            raise Unsupported('items of a symbolic map')
        return st.alloc(Obj('iter', x=tuple(eng.dict_items(ob, lambda k, v: (k, v)))))

    def keys(eng, st, o, a, kw):
        return st.alloc(Obj('iter', x=tuple(eng.items(st, o))))

    def values(eng, st, o, a, kw):
        ob = st.get(o)
        if ob.x.base is not None:
            h = getattr(ob.x.base, 'iterate', None)
            if h:
                return st.alloc(Obj('iter', x=tuple(h(eng, st, o, 'values'))))
            raise Unsupported('values of a symbolic map')
        return st.alloc(Obj('iter', x=tuple(eng.dict_items(ob, lambda k, v: v))))

    def pop(eng, st, o, a, kw):
        v = eng.store_get(st, st.get(o).x, a[0])
        if len(a) > 1:
            if v is UNBOUND:
                return a[1]
            if isinstance(v, Union):
                v = make_union([(And(g, h), y) for g, x in v.alts for h, y in (alts(a[1]) if x is UNBOUND else [(True, x)])])
        else:
            v = getitem(eng, st, o, a[0])
        for g, k in alts(a[0]):
            st.edit(o).x = st.get(o).x.put(k, UNBOUND, g)
        return v

    def update(eng, st, o, a, kw):
        src = st.get(a[0])
        if src.kind != 'dict' or src.x.base is not None:
            raise Unsupported('update')
        for k, g, (kk, vv) in eng.dict_items(src, lambda x, y: (x, y)):
            st.edit(o).x = st.get(o).x.put(kk, vv, g)

    def copy(eng, st, o, a, kw):
        return st.alloc(Obj('dict', x=st.get(o).x))

    def setdefault(eng, st, o, a, kw):
        v = get(eng, st, o, [a[0], UNBOUND], {})
        c = eng.is_(st, v, UNBOUND) if isinstance(v, Union) else v is UNBOUND
        d = a[1] if len(a) > 1 else None
        st.edit(o).x = st.get(o).x.put(a[0], d, c)
        return get(eng, st, o, [a[0]], {})

    def clear(eng, st, o, a, kw):
        st.edit(o).x = Store()

    for f in (get, items, keys, values, pop, update, copy, setdefault, clear):
        M[('dict', f.__name__)] = f
    return M


# ------------------------------------------------------------------ built-in functions

def b_len(eng, st, args, kwargs):
    def f(s, v):
        if kind(v) == 'str':
            return len(v) if isinstance(v, str) else z3.Length(v)
        if isinstance(v, (tuple, list, dict, bytes)):
            return len(v)
        if isinstance(v, Ref):
            o = s.get(v)
            if o.kind in ('list', 'set', 'iter'):
                n = 0
                t = None
                for k, g, x in o.x:
                    if k == 'i' and g is True:
                        n += 1
                    else:
                        y = z3.Length(x) if k == 's' else z3.IntVal(1)
                        y = y if g is True else z3.If(g, y, 0)
                        t = y if t is None else t + y
                return n if t is None else (t + n if n else t)
            if o.kind == 'dict':
                if o.x.base is None:
                    its = eng.dict_items(o, lambda k, v: k)
                    if all(g is True for _, g, _ in its):
                        return len(its)
                    return sum((z3.If(tobool(g), 1, 0) for _, g, _ in its), z3.IntVal(0))
                if hasattr(o.x.base, 'length'):
                    return o.x.base.length(eng, s, v)
            m = eng.libs['%methods'].get((o.kind, '__len__'))
            if m:
                return m(eng, s, v, [], {})
        if v is None or kind(v) in ('int', 'bool'):
            eng.raise_new(s, TypeError, 'len')
        raise Unsupported(f'len of {v!r}')

    return eng.lift(st, args[0], f)


def b_str(eng, st, args, kwargs):
    if not args:
        return ''
    return to_str(eng, st, args[0])


def b_int(eng, st, args, kwargs):
    def f(s, v):
        if kind(v) == 'int':
            return v
        if kind(v) == 'bool':
            return z3.If(v, 1, 0) if is_z3(v) else int(v)
        if isinstance(v, (str, float)):
            try:
                return int(v)
            except ValueError as ex:
                eng.raise_new(s, ValueError, *ex.args)
        if kind(v) == 'str':
            # str(n) of an integer term
            r = _int_of_str(v)
            if r is not None:
                return r
            eng.raise_if(s, z3.Not(U_INTOK(v)), ValueError, 'invalid literal for int()')
            return U_INT(v)
        if v is None or isinstance(v, (Ref, tuple)):
            eng.raise_new(s, TypeError, 'int() argument')
        raise Unsupported(f'int of {v!r}')

    if len(args) != 1:
        raise Unsupported('int with base')
    return eng.lift(st, args[0], f)


def _int_of_str(t):
    """n if t is the term of str(n)."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a = t.arg(1)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_INT_TO_STR:
            n = a.arg(0)
            if to_str(None, None, n).eq(t):
                return n
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return None
    return None


def b_bool(eng, st, args, kwargs):
    return eng.truth(st, args[0]) if args else False


def b_list(eng, st, args, kwargs):
    return st.alloc(Obj('list', x=tuple(eng.items(st, args[0])) if args else ()))


def b_tuple(eng, st, args, kwargs):
    its = eng.items(st, args[0]) if args else []
    if any(k != 'i' or g is not True for k, g, _ in its):
        raise Unsupported('tuple of a symbolic list')
    return tuple(v for _, _, v in its)


def b_set(eng, st, args, kwargs):
    ref = st.alloc(Obj('set', x=()))
    if args:
        for k, g, v in eng.items(st, args[0]):
            if k != 'i' or g is not True:
                raise Unsupported('set of a symbolic list')
            eng.call_method(st, ref, 'add', [v])
    return ref


def b_dict(eng, st, args, kwargs):
    ref = st.alloc(Obj('dict', x=Store()))
    if args:
        src = args[0]
        if isinstance(src, Ref) and st.get(src).kind == 'dict':
            st.edit(ref).x = st.get(src).x
        else:
            for k, g, v in eng.items(st, src):
                kk, vv = eng.unpack(st, v, 2)
                st.edit(ref).x = st.get(ref).x.put(kk, vv, g)
    kw = dict(kwargs)
    base = kw.pop('**', None)
    if base is not None:
        st.edit(ref).x = st.get(base).x
    for k, v in kw.items():
        st.edit(ref).x = st.get(ref).x.put(k, v)
    return ref


def b_range(eng, st, args, kwargs):
    try:
        return range(*[concrete(eng, st, a) for a in args])
    except ValueError:
        return st.alloc(Obj('range', {'args': tuple(args)}))


def b_enumerate(eng, st, args, kwargs):
    its = eng.items(st, args[0])
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if any(k != 'i' or g is not True for k, g, _ in its):
        raise Unsupported('enumerate of a symbolic list')
    return st.alloc(Obj('iter', x=tuple(item((start + n, v)) for n, (_, _, v) in enumerate(its))))


def b_zip(eng, st, args, kwargs):
    cols = [eng.items(st, a) for a in args]
    if any(k != 'i' or g is not True for c in cols for k, g, _ in c):
        raise Unsupported('zip of symbolic lists')
    return st.alloc(Obj('iter', x=tuple(item(tuple(v for _, _, v in row)) for row in zip(*cols))))


def b_reversed(eng, st, args, kwargs):
    its = eng.items(st, args[0])
    if any(k != 'i' for k, g, _ in its):
        raise Unsupported('reversed symbolic list')
    return st.alloc(Obj('iter', x=tuple(reversed(its))))


def b_sorted(eng, st, args, kwargs):
    try:
        return from_host(st, sorted(concrete(eng, st, args[0]) if not isinstance(args[0], Ref) or st.get(args[0]).kind != 'dict' else [v for _, _, v in eng.items(st, args[0])],
                                    reverse=kwargs.get('reverse', False)))
    except ValueError:
        raise Unsupported('sorted symbolic list')


def b_isinstance(eng, st, args, kwargs):
    return eng.isinstance_(st, args[0], args[1])


def b_getattr(eng, st, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported('getattr with symbolic name')
    if len(args) == 3:
        eng.sinks.append([])
        try:
            s = st.fork()
            v = eng.getattr(s, args[0], args[1])
            ok = True
        except Dead:
            ok = False
        finally:
            raised = eng.sinks.pop()
        if not raised and ok:
            st.assign(s)
            return v
        if not ok:
            return args[2]
        raise Unsupported('conditional getattr')
    return eng.getattr(st, args[0], args[1])


def b_setattr(eng, st, args, kwargs):
    if not isinstance(args[1], str):
        raise Unsupported('setattr with symbolic name')
    eng.setattr(st, args[0], args[1], args[2])


def b_hasattr(eng, st, args, kwargs):
    eng.sinks.append([])
    try:
        s = st.fork()
        eng.getattr(s, args[0], args[1])
        ok = True
    except Dead:
        ok = False
    finally:
        raised = eng.sinks.pop()
    if ok and raised:
        raise Unsupported('conditional hasattr')
    return ok


def b_minmax(name):
    def f(eng, st, args, kwargs):
        if len(args) > 1 and not kwargs and any(is_z3(a) for a in args):
            r = term(args[0])
            for a in args[1:]:
                a = term(a)
                r = z3.If(a < r if name == 'min' else a > r, a, r)
            return r
        try:
            return getattr(builtins, name)(*[concrete(eng, st, a) for a in args])
        except ValueError:
            raise Unsupported(name)

    return f


def b_sum(eng, st, args, kwargs):
    r = args[1] if len(args) > 1 else 0
    for k, g, v in eng.items(st, args[0]):
        if k != 'i':
            raise Unsupported('sum of a symbolic list')
        r = ite(g, eng.binop(st, ast.Add(), r, v), r)
    return r


def b_any(eng, st, args, kwargs):
    its = eng.items(st, args[0])
    if any(k != 'i' for k, _, _ in its):
        raise Unsupported('any of a symbolic list')
    return Or(*[And(g, eng.truth(st, v)) for _, g, v in its])


def b_all(eng, st, args, kwargs):
    its = eng.items(st, args[0])
    if any(k != 'i' for k, _, _ in its):
        raise Unsupported('all of a symbolic list')
    return And(*[Implies(g, eng.truth(st, v)) for _, g, v in its])


def b_print(eng, st, args, kwargs):
    return None


def b_type(eng, st, args, kwargs):
    return eng.lift(st, args[0], lambda s, v: eng.class_of(s, v))


def b_super(eng, st, args, kwargs):
    return Super(args[0], args[1])


def b_map(eng, st, args, kwargs):
    its = eng.items(st, args[1])
    if any(k != 'i' or g is not True for k, g, _ in its):
        raise Unsupported('map over a symbolic list')
    return st.alloc(Obj('iter', x=tuple(item(eng.call(st, args[0], [v], {})) for _, _, v in its)))


def b_next(eng, st, args, kwargs):
    o = st.get(args[0])
    if not o.x:
        if len(args) > 1:
            return args[1]
        eng.raise_new(st, StopIteration)
    k, g, v = o.x[0]
    if k != 'i' or g is not True:
        raise Unsupported('next')
    st.edit(args[0]).x = o.x[1:]
    return v


def b_iter(eng, st, args, kwargs):
    return st.alloc(Obj('iter', x=tuple(eng.items(st, args[0]))))


def exc_method(name):
    def f(eng, st, o, a, kw):
        if name == '__init__':
            st.edit(o).f['args'] = tuple(a)
            return None
        if name == '__str__':
            return to_str(eng, st, o)
        raise Unsupported(f'exception method {name}')

    return f


def install(eng):
    L = eng.libs
    L['%hostcall'] = hostcall
    L['%host'] = {}
    L['%binop'], L['%eq'], L['%order'], L['%contains'] = binop, eq, order, contains
    L['%str'], L['%format'], L['%slice'] = to_str, fmt, slice_
    L['%getitem'], L['%setitem'], L['%delitem'] = getitem, setitem, delitem
    L['%exc_method'] = exc_method
    L['%host_init'] = lambda e, s, o, a, k: None
    L['%methods'] = {}
    L['%attrs'] = {}
    L['%setattrs'] = {}
    L['%methods'].update(str_methods())
    L['%methods'].update(list_methods())
    L['%methods'].update(dict_methods())
    L['builtins'] = {}
    H = L['%host']
    for f, c in ((len, b_len), (str, b_str), (int, b_int), (bool, b_bool), (list, b_list), (tuple, b_tuple), (set, b_set), (dict, b_dict), (range, b_range),
                 (enumerate, b_enumerate), (zip, b_zip), (reversed, b_reversed), (sorted, b_sorted), (isinstance, b_isinstance), (getattr, b_getattr),
                 (setattr, b_setattr), (hasattr, b_hasattr), (min, b_minmax('min')), (max, b_minmax('max')), (sum, b_sum), (any, b_any), (all, b_all),
                 (print, b_print), (type, b_type), (super, b_super), (map, b_map), (next, b_next), (iter, b_iter)):
        H[f] = c

    H[dict.fromkeys] = lambda e, s, a, k: from_host(s, dict.fromkeys(concrete_or(e, s, a[0])))
    from . import models
    models.install(eng)
    # environment of pywriter_globals
    L['gettext'] = {'translation': Native('gettext.translation', lambda e, s, a, k: e.raise_new(s, FileNotFoundError, 'no catalog')),
                    'install': Native('gettext.install', lambda e, s, a, k: None)}
    L['locale'] = {'getlocale': Native('locale.getlocale', lambda e, s, a, k: ('en_US', 'UTF-8')),
                   'getdefaultlocale': Native('locale.getdefaultlocale', lambda e, s, a, k: ('en_US', 'UTF-8'))}
    L['sys'] = {'argv': eng.global_state.alloc(Obj('list', x=(item('pywriter'),))), 'platform': 'linux', 'stdout': None, 'stderr': None}
    L['abc'] = {'ABC': object, 'abstractmethod': None}
    L['string.Template'] = {}


def concrete_or(e, s, v):
    try:
        return concrete(e, s, v)
    except ValueError:
        raise Unsupported('symbolic argument')
