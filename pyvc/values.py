"""Values of the verification condition generator.

A value of the interpreted program is
  - a concrete Python object (None, bool, int, float, str, bytes, tuple of values, host functions, classes and modules),
  - a z3 expression (Bool, Int, String, Seq(String) or an uninterpreted sort),
  - Union([(guard, value)]): one of several values, the guards being exclusive and exhaustive under the path condition,
  - Ref(oid): the address of an object in the heap of the state,
  - FuncVal / BoundMethod / Native: callable values.
"""
import z3

PYOBJ = z3.DeclareSort('PyObj')


class Unsupported(Exception):
    """The generator cannot translate a construct: the obligations behind it stay undecided."""


class Dead(Exception):
    """The current state cannot go on (return, break, continue, raise, or an infeasible path)."""


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(('Ref', self.oid))

    def __repr__(self):
        return f'&{self.oid}'


class Union:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(' + ', '.join(f'{g} -> {v!r}' for g, v in self.alts) + ')'


class _Special:

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


UNBOUND = _Special('unbound')  # reading it raises NameError / AttributeError / KeyError
HAVOC = _Special('havoc')  # unknown after a loop; reading it is unsupported


class FuncVal:

    def __init__(self, node, env, qualname, module, cls=None, defaults=(), kwdefaults=None, kind='function'):
        self.node, self.env, self.qualname, self.module = node, env, qualname, module
        self.cls, self.defaults, self.kwdefaults, self.kind = cls, defaults, kwdefaults or {}, kind

    def __repr__(self):
        return f'<func {self.qualname}>'


class PropVal:

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticVal:

    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class BoundMethod:

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.fn is self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash(id(self.fn))

    def __repr__(self):
        return f'<bound {self.fn!r} of {self.self_!r}>'


class Native:
    """A library function given by its contract: fn(eng, st, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<native {self.name}>'


class ModuleVal:

    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return f'<module {self.name}>'


class Super:

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def is_z3(v):
    return isinstance(v, z3.ExprRef)


# ------------------------------------------------------------------ boolean helpers

def tobool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out, seen = [], set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if x.get_id() in seen:
            continue
        n = Not(x)
        if not isinstance(n, bool) and n.get_id() in seen:
            return False
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out, seen = [], set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if x.get_id() in seen:
            continue
        n = Not(x)
        if not isinstance(n, bool) and n.get_id() in seen:
            return True
        seen.add(x.get_id())
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def conjuncts(g):
    if isinstance(g, bool):
        return [] if g else [False]
    if z3.is_and(g):
        return [c for i in range(g.num_args()) for c in conjuncts(g.arg(i))]
    return [g]


# ------------------------------------------------------------------ lifting of constants

def term(v):
    """z3 term of a scalar value, or None."""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(zstr(v))
    return None


def zstr(s):
    out = []
    for c in s:
        o = ord(c)
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return ''.join(out)


def kind(v):
    if v is None:
        return 'none'
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        return 'bool'
    if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
        return 'int'
    if isinstance(v, str) or (is_z3(v) and v.sort() == z3.StringSort()):
        return 'str'
    if is_z3(v):
        return ('z3', v.sort().name() if v.sort().kind() != z3.Z3_SEQ_SORT else str(v.sort()))
    if isinstance(v, Ref):
        return ('ref', v.oid)
    if isinstance(v, tuple):
        return ('tuple', len(v))
    try:
        hash(v)
        return ('const', type(v).__name__, v)
    except TypeError:
        return ('id', id(v))


def same(a, b):
    if a is b:
        return True
    if is_z3(a) or is_z3(b):
        return is_z3(a) and is_z3(b) and a.eq(b)
    if isinstance(a, Union) or isinstance(b, Union):
        return (isinstance(a, Union) and isinstance(b, Union) and len(a.alts) == len(b.alts)
                and all(same(g, h) and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts)))
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def alts(v):
    return v.alts if isinstance(v, Union) else [(True, v)]


def make_union(al):
    """Union of guarded values; alternatives of one kind are joined."""
    groups = []
    for g, v in al:
        if g is False:
            continue
        k = kind(v)
        for grp in groups:
            if grp[0] == k:
                og, ov = grp[1], grp[2]
                if same(ov, v):
                    grp[1] = Or(og, g)
                elif isinstance(v, tuple):
                    grp[2] = tuple(ite(g, x, y) for x, y in zip(v, ov))
                    grp[1] = Or(og, g)
                else:
                    t1, t2 = term(ov), term(v)
                    if t1 is None or t2 is None:
                        continue
                    # exclusive guards: if g then v else old
                    grp[2] = z3.If(tobool(g), t2, t1)
                    grp[1] = Or(og, g)
                break
        else:
            groups.append([k, g, v])
    if not groups:
        raise Dead()
    if len(groups) == 1:
        return groups[0][2]
    return Union([(g, v) for _, g, v in groups])


def ite(c, a, b):
    if c is True or same(a, b):
        return a
    if c is False:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if not isinstance(a, Union) and not isinstance(b, Union) and kind(a) == kind(b):
        t1, t2 = term(a), term(b)
        if t1 is not None:
            if z3.is_bool(t1):
                if z3.is_true(t1) and z3.is_false(t2):
                    return c
                if z3.is_false(t1) and z3.is_true(t2):
                    return Not(c)
            return z3.If(c, t1, t2)
    n = Not(c)
    return make_union([(And(c, g), v) for g, v in alts(a)] + [(And(n, g), v) for g, v in alts(b)])
