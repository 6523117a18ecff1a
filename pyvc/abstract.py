"""Formulas with the strings abstracted: an uninterpreted sort, literals as distinct constants, string functions uninterpreted.

Every model of a formula gives a model of its abstraction: what is unsatisfiable after abstraction is unsatisfiable.
"""
import z3

U = z3.DeclareSort('Str')
USEQ = z3.DeclareSort('StrSeq')
_cache = {}
_keep = []
_lits = {}
_facts = []
_done = {}


def sort(s):
    if s == z3.StringSort():
        return U
    if s.kind() == z3.Z3_SEQ_SORT:
        return USEQ
    return s


def plain(s):
    return s in (U, USEQ) or s.kind() in (z3.Z3_BOOL_SORT, z3.Z3_INT_SORT, z3.Z3_UNINTERPRETED_SORT)


def abstract(f):
    """The abstraction of a formula, or None."""
    stack = [f]
    while stack:
        e = stack[-1]
        if e.get_id() in _cache:
            stack.pop()
            continue
        if not z3.is_app(e):
            return None
        todo = [c for c in e.children() if c.get_id() not in _cache]
        if todo:
            stack.extend(todo)
            continue
        r = _one(e)
        if r is None:
            return None
        _cache[e.get_id()] = r
        _keep.append(e)
        stack.pop()
    return _cache[f.get_id()]


def _one(e):
    d = e.decl()
    s = sort(e.sort())
    if not plain(s):
        return None
    if z3.is_string_value(e):
        c = z3.Const('lit:' + e.as_string(), U)
        _lits[e.as_string()] = c
        return c
    k = d.kind()
    if k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT) and any(sort(x.sort()) in (U, USEQ) for x in [e] + e.children()):
        # a function on strings: evaluated for literals, distributed over cases
        for n, c in enumerate(e.children()):
            if z3.is_app_of(c, z3.Z3_OP_ITE):
                a, b = ([c.arg(m) if i == n else x for i, x in enumerate(e.children())] for m in (1, 2))
                return abstract(z3.If(c.arg(0), d(*a), d(*b)))
        if all(z3.is_string_value(c) or z3.is_int_value(c) for c in e.children()):
            v = z3.simplify(e)
            if z3.is_true(v) or z3.is_false(v) or z3.is_int_value(v) or z3.is_string_value(v):
                return abstract(v)
    ch = [_cache[c.get_id()] for c in e.children()]
    if k == z3.Z3_OP_EQ:
        return ch[0] == ch[1]
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], ch[1], ch[2])
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_UNINTERPRETED or any(sort(x.sort()) in (U, USEQ) for x in [e] + e.children()):
        if not ch:
            return z3.Const(f'{d.name()}', s)
        if k != z3.Z3_OP_UNINTERPRETED:
            note(e, d)
        name = d.name() if k == z3.Z3_OP_UNINTERPRETED else f'{d.name()}/{d.params()}'
        return z3.Function(name, *[c.sort() for c in ch], s)(*ch)
    return e if all(a.eq(b) for a, b in zip(ch, e.children())) else d(*ch)


def note(e, d):
    """The value of a string function at the empty text, if the other arguments are literals."""
    var = [n for n, c in enumerate(e.children()) if not z3.is_string_value(c) and not z3.is_int_value(c)]
    if len(var) == 1 and e.arg(var[0]).sort() == z3.StringSort():
        v = z3.simplify(d(*[z3.StringVal('') if n in var else c for n, c in enumerate(e.children())]))
        if z3.is_true(v) or z3.is_false(v) or z3.is_int_value(v):
            _facts.append((e, z3.Implies(e.arg(var[0]) == z3.StringVal(''), e == v)))


def facts():
    out = []
    n = 0
    while n < len(_facts):
        e, f = _facts[n]
        n += 1
        g = _done.get(e.get_id())
        if g is None:
            g = _done[e.get_id()] = abstract(f)
        if g is not None:
            out.append(g)
    return out


def literals():
    return facts() + [z3.Distinct(*_lits.values())] if len(_lits) > 1 else []
