"""Texts as rational functions: exact decision of equations between chains of text operations.

A term over one text variable that is built by replace, re.sub, strip, split/join with a loop over the parts, concatenation
and case distinction denotes a rational function. It is translated to a finite transducer; two functional transducers are
compared exactly over all texts of a regular domain, of any length (product with delays), and a text is given on which they
differ. Characters that no operation and no domain names behave alike: one representative stands for each such class.
"""
import re
import z3
try:
    from re import _parser as sre, _constants as srec
except ImportError:  # before Python 3.11
    import sre_parse as sre, sre_constants as srec
from .values import *
from .state import *

TRUSTED = ['str.replace, re.sub, str.strip/lstrip/rstrip, str.split, str.join and html.unescape as transducers (pyvc/rewrite.py, compared with CPython by tools/selftest.py)',
           'characters that neither the code nor the domain names are exchangeable: one each for letters, digits, white space and signs beyond ASCII']

STR = z3.StringSort()
OTHERS = '\u00e9\u0663\u2003\u2014'  # letter, digit, white space, sign: the representatives of all characters beyond ASCII
F_REPLACE = z3.Function('py_replace', STR, STR, STR, STR)


class T:
    """Transducer: trans[state][symbol] = ((output, next state), ...)."""

    def __init__(self, init, trans, fin):
        self.init, self.trans, self.fin = init, trans, fin
        self.base = len(trans)

    def size(self):
        return len(self.trans), sum(len(v) for d in self.trans for v in d.values())

    def run(self, w):
        """The outputs for an input (one, if functional)."""
        cur = {(o, q) for o, q in self.init}
        for c in w:
            cur = {(o + x, r) for o, q in cur for x, r in self.trans[q].get(c, ())}
        return {o + f for o, q in cur for f in self.fin.get(q, ())}


class Op:
    """A machine: init() and step(state, char) give ((output, state), ...), final(state) gives outputs."""
    det = True

    def init(self):
        return (('', 0),)

    def final(self, s):
        return ('',)


def tidy(init, trans, fin, merge=True):
    """Keep the states on a way from the start to the end; merge states that behave alike."""
    n = len(trans)
    pred = [[] for _ in range(n)]
    for q, d in enumerate(trans):
        for v in d.values():
            for _, r in v:
                pred[r].append(q)
    live, todo = set(fin), list(fin)
    while todo:
        q = todo.pop()
        for p in pred[q]:
            if p not in live:
                live.add(p)
                todo.append(p)
    reach, todo = set(), [q for _, q in init if q in live]
    reach.update(todo)
    while todo:
        q = todo.pop()
        for v in trans[q].values():
            for _, r in v:
                if r in live and r not in reach:
                    reach.add(r)
                    todo.append(r)
    states = sorted(reach)
    trans = {q: {c: tuple((o, r) for o, r in v if r in reach) for c, v in trans[q].items()} for q in states}
    for q in states:
        trans[q] = {c: v for c, v in trans[q].items() if v}
    if not merge:
        num = {q: i for i, q in enumerate(states)}
        return T(tuple(sorted({(o, num[q]) for o, q in init if q in reach})), [{c: tuple((o, num[r]) for o, r in v) for c, v in trans[q].items()} for q in states],
                 {num[q]: f for q, f in fin.items() if q in num})
    # partition refinement; a state is looked at again when the block of a successor was split
    ids = {}
    block = {q: ids.setdefault(fin.get(q, ()), len(ids)) for q in states}
    k = len(ids)
    edges = {q: [((c, o), r) for c, v in trans[q].items() for o, r in v] for q in states}
    labels = {}
    for q in states:
        edges[q] = [(labels.setdefault(l, len(labels)), r) for l, r in edges[q]]
    members = {}
    for q in states:
        members.setdefault(block[q], set()).add(q)
    dirty = set(states)
    while dirty:
        groups = {}
        for q in dirty:
            groups.setdefault(block[q], []).append(q)
        moved = []
        for b, qs in groups.items():
            rest = len(members[b]) - len(qs)
            sigs = {}
            for q in qs:
                sigs.setdefault(frozenset([(l, block[r]) for l, r in edges[q]]), []).append(q)
            if rest:
                # states that were not looked at still agree among each other
                w = next(q for q in members[b] if q not in dirty)
                keep = frozenset([(l, block[r]) for l, r in edges[w]])
            else:
                keep = max(sigs, key=lambda x: len(sigs[x]))
            for sig, l in sigs.items():
                if sig != keep:
                    moved.append((b, l))
        dirty = set()
        for b, l in moved:
            members[b] -= set(l)
            members[k] = set(l)
            for q in l:
                block[q] = k
            k += 1
        for b, l in moved:
            for q in l:
                for p in pred[q]:
                    if p in reach and len(members[block[p]]) > 1:
                        dirty.add(p)
    out = [None] * k
    nfin = {}
    for q in states:
        b = block[q]
        if out[b] is None:
            out[b] = {c: tuple(sorted({(o, block[r]) for o, r in v})) for c, v in trans[q].items()}
            if q in fin:
                nfin[b] = fin[q]
    return T(tuple(sorted({(o, block[q]) for o, q in init if q in reach})), out, nfin)


LIMIT = 60000


def explore(init, step, final, base=None):
    """Machine over hashable states -> T; step(state) gives {symbol: ((output, state), ...)}."""
    num, trans, fin, todo = {}, [], {}, []

    def get(s):
        if s not in num:
            if len(num) > LIMIT:
                raise Unsupported('transducer too large')
            num[s] = len(num)
            trans.append(None)
            todo.append(s)
        return num[s]

    ini = tuple((o, get(s)) for o, s in init)
    while todo:
        s = todo.pop()
        i = num[s]
        f = tuple(sorted(set(final(s))))
        if f:
            fin[i] = f
        trans[i] = {c: tuple(dict.fromkeys((o, get(r)) for o, r in v)) for c, v in step(s).items() if v}
    t = tidy(ini, trans, fin, merge=base is None)
    if base is not None:
        # merge only where it is likely to pay
        if len(t.trans) > 1.5 * base + 20:
            t = tidy(t.init, t.trans, t.fin)
        else:
            t.base = base
    return t


def run_op(op, memo, s, w):
    """All runs of op from s over w: ((output, state), ...)."""
    key = (s, w)
    r = memo.get(key)
    if r is None:
        cur = [('', s)]
        for c in w:
            nxt = {}
            for o, q in cur:
                k = (q, c)
                v = memo.get(k)
                if v is None:
                    v = memo[k] = tuple(op.step(q, c))
                for x, p in v:
                    nxt[o + x, p] = None
            cur = list(nxt)
            if not cur:
                break
        r = memo[key] = tuple(cur)
    return r


def compose(t, op):
    """op after t."""
    memo = {}

    def step(s):
        q, p = s
        out = {}
        for c, v in t.trans[q].items():
            l = []
            for o, r in v:
                for x, p2 in run_op(op, memo, p, o):
                    l.append((x, (r, p2)))
            if l:
                out[c] = l
        return out

    def final(s):
        q, p = s
        return [x + y for f in t.fin.get(q, ()) for x, p2 in run_op(op, memo, p, f) for y in op.final(p2)]

    init = [(i0 + x, (q, p2)) for o, q in t.init for i0, p in op.init() for x, p2 in run_op(op, memo, p, o)]
    return explore(init, step, final, t.base)


class AsOp(Op):
    """A transducer as a machine."""
    det = False

    def __init__(self, t):
        self.t = t

    def init(self):
        return self.t.init

    def step(self, s, c):
        return self.t.trans[s].get(c, ())

    def final(self, s):
        return self.t.fin.get(s, ())


# ------------------------------------------------------------------ operations

class Replace(Op):
    """text.replace(old, new): the leftmost matches, from left to right."""

    def __init__(self, old, new):
        if not old:
            raise Unsupported('replace of the empty text')
        self.old, self.new = old, new

    def step(self, k, c):
        p = self.old
        if p[k] == c:
            return ((self.new, 0),) if k + 1 == len(p) else (('', k + 1),)
        w = p[:k] + c
        for n in range(min(len(p) - 1, len(w)), -1, -1):
            if n == 0 or w.endswith(p[:n]):
                return ((w[:len(w) - n], n),)

    def final(self, k):
        return (self.old[:k],)


class LStrip(Op):

    def __init__(self, chars=None):
        self.chars = chars

    def ws(self, c):
        return c.isspace() if self.chars is None else c in self.chars

    def step(self, s, c):
        if s == 0 and self.ws(c):
            return (('', 0),)
        return ((c, 1),)


class RStrip(LStrip):
    """Guesses where the text ends. State 0: may end here; 1: within white space that is kept; 2: at the end."""
    det = False

    def step(self, s, c):
        if self.ws(c):
            return {0: ((c, 1), ('', 2)), 1: ((c, 1),), 2: (('', 2),)}[s]
        return () if s == 2 else ((c, 0),)

    def final(self, s):
        return () if s == 1 else ('',)


class Drop(Op):
    """text[n:]"""

    def __init__(self, n):
        self.n = n

    def step(self, s, c):
        return (('', s + 1),) if s < self.n else ((c, s),)


class Const(Op):

    def __init__(self, v):
        self.v = v

    def step(self, s, c):
        return (('', 0),)

    def final(self, s):
        return (self.v,)


class CharMap(Op):
    """Each character on its own."""

    def __init__(self, f):
        self.f = f

    def step(self, s, c):
        return ((self.f(c), 0),)


ERROR = '\u2717'


class Partial(Op):
    """A machine that is only defined on some texts; elsewhere it gives the error sign."""

    def error(self):
        return ((ERROR, 'error'),)


class Unescape(Partial):
    """html.unescape, where '&' only occurs in the predefined entities."""
    ENT = {'&amp;': '&', '&lt;': '<', '&gt;': '>', '&quot;': '"', '&apos;': "'"}

    def init(self):
        return (('', ''),)

    def step(self, s, c):
        if s == 'error':
            return (('', s),)
        if not s:
            return (('', '&'),) if c == '&' else ((c, ''),)
        w = s + c
        if w in self.ENT:
            return ((self.ENT[w], ''),)
        return (('', w),) if any(e.startswith(w) for e in self.ENT) else self.error()

    def final(self, s):
        return ('',) if s in ('', 'error') else (ERROR,)


class Squeeze(Op):
    """Repeated blanks become one."""

    def __init__(self, ws=' ', to=' '):
        self.ws, self.to = ws, to

    def step(self, s, c):
        if c in self.ws:
            return (('' if s else self.to, 1),)
        return ((c, 0),)


# ------------------------------------------------------------------ regular expressions

class Nfa:
    """Pattern as automaton; edges carry predicates over characters."""

    def __init__(self, parsed, flags):
        self.edges, self.eps = [], []
        self.flags = flags
        self.lazy = self.greedy = 0
        self.start = self.new()
        self.end = self.seq(parsed, self.start)

    def new(self):
        self.edges.append([])
        self.eps.append([])
        return len(self.edges) - 1

    def seq(self, items, q):
        for op, av in items:
            q = self.one(op, av, q)
        return q

    def char(self, q, f):
        r = self.new()
        self.edges[q].append((f, r))
        return r

    def one(self, op, av, q):
        if op is srec.LITERAL:
            return self.char(q, lambda c, x=chr(av): c == x)
        if op is srec.NOT_LITERAL:
            return self.char(q, lambda c, x=chr(av): c != x)
        if op is srec.ANY:
            return self.char(q, (lambda c: True) if self.flags & re.DOTALL else (lambda c: c != '\n'))
        if op is srec.IN:
            return self.char(q, in_set(av))
        if op is srec.SUBPATTERN:
            return self.seq(av[3], q)
        if op is srec.BRANCH:
            e = self.new()
            for b in av[1]:
                s = self.new()
                self.eps[q].append(s)
                self.eps[self.seq(b, s)].append(e)
            return e
        if op in (srec.MAX_REPEAT, srec.MIN_REPEAT):
            lo, hi, sub = av
            if hi is not srec.MAXREPEAT and hi > 60:
                raise Unsupported('repetition')
            if lo != hi:
                if op is srec.MIN_REPEAT:
                    self.lazy += 1
                else:
                    self.greedy += 1
            for _ in range(lo):
                q = self.seq(sub, q)
            if hi is srec.MAXREPEAT:
                s, e = self.new(), self.new()
                self.eps[q].append(s)
                r = self.seq(sub, s)
                self.eps[r].append(s)
                self.eps[s].append(e)
                return e
            e = self.new()
            self.eps[q].append(e)
            for _ in range(hi - lo):
                q = self.seq(sub, q)
                self.eps[q].append(e)
            return e
        raise Unsupported(f'regular expression with {op}')

    def close(self, qs):
        seen, todo = set(qs), list(qs)
        while todo:
            q = todo.pop()
            for r in self.eps[q]:
                if r not in seen:
                    seen.add(r)
                    todo.append(r)
        return frozenset(seen)

    def step(self, qs, c):
        return self.close({r for q in qs for f, r in self.edges[q] if f(c)})


def in_set(av):
    neg = bool(av) and av[0][0] is srec.NEGATE
    tests = []
    for op, x in av[1 if neg else 0:]:
        if op is srec.LITERAL:
            if x > 127 and chr(x) not in OTHERS:
                raise Unsupported('character class beyond ASCII')
            tests.append(lambda c, x=x: ord(c) == x)
        elif op is srec.RANGE:
            if x[1] > 127:
                raise Unsupported('character class beyond ASCII')
            tests.append(lambda c, x=x: x[0] <= ord(c) <= x[1])
        elif op is srec.CATEGORY:
            tests.append({srec.CATEGORY_DIGIT: str.isdecimal, srec.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(), srec.CATEGORY_SPACE: str.isspace,
                          srec.CATEGORY_NOT_SPACE: lambda c: not c.isspace(), srec.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
                          srec.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_')}[x])
        else:
            raise Unsupported('character class')
    return lambda c: any(t(c) for t in tests) != neg


def parse(pattern, flags=0):
    p = sre.parse(pattern, flags)
    if p.state.flags & (re.IGNORECASE | re.MULTILINE | re.VERBOSE | re.ASCII):
        raise Unsupported('flags of a regular expression')
    return list(p), p.state.flags


def plain(items):
    """The text of a sequence of literals, or None."""
    return ''.join(chr(av) for op, av in items) if all(op is srec.LITERAL for op, av in items) else None


class ReSub(Op):
    """re.sub where all matches at a place are found by their shortest length.

    Guesses where matches start; keeps, for the places passed over, that no match starts there.
    repl: a text, or (T, group) - the transducer is applied to the group (0: the whole match).
    State: (forbidden, phase, state within the match, state of T).
    """
    det = False

    def __init__(self, pattern, flags, repl, alphabet):
        items, fl = parse(pattern, flags)
        self.n = Nfa(items, fl)
        if self.n.end in self.n.close([self.n.start]):
            raise Unsupported('empty matches')
        self.repl = repl
        self.pre = self.post = ''
        if not isinstance(repl, str) and repl[1]:
            g = [i for i, (op, av) in enumerate(items) if op is srec.SUBPATTERN and av[0] == repl[1]]
            if not g:
                raise Unsupported('group within a group')
            self.pre, self.post = plain(items[:g[0]]), plain(items[g[0] + 1:])
            if self.pre is None or self.post is None:
                raise Unsupported('group beside other than plain text')
        # the end of a match must not depend on greediness
        if self.n.greedy or self.n.lazy > 1:
            start = self.n.close([self.n.start])
            seen, todo = {start}, [start]
            while todo:
                s = todo.pop()
                for c in alphabet:
                    r = self.n.step(s, c)
                    if r and r not in seen:
                        if self.n.end in s:
                            raise Unsupported('a match that can be extended')
                        seen.add(r)
                        todo.append(r)
            if any(self.n.end in s and any(self.n.step(s, c) for c in alphabet) for s in seen):
                raise Unsupported('a match that can be extended')

    def init(self):
        return (('', (frozenset(), 'out', None, None)),)

    def step(self, st, c):
        F, ph, D, g = st
        n = self.n
        out = []
        if ph == 'out':
            # pass over this place
            G = n.step(F | n.close([n.start]), c)
            if n.end not in G:
                out.append((c, (G, 'out', None, None)))
            starts = [('', (n.close([n.start]), 0, 'pre' if self.pre else 'group', None))]
            F2 = n.step(F, c)
            if n.end in F2:
                return out
            for o, (D, k, phase, _) in starts:
                out += self.inside(F2, D, phase, k, None, c, True)
            return out
        F2 = n.step(F, c)
        if n.end in F2:
            return ()
        phase, k = ph
        return self.inside(F2, D, phase, k, g, c, False)

    def inside(self, F, D, phase, k, g, c, first):
        n = self.n
        D = n.step(D, c)
        if not D:
            return []
        done = n.end in D
        if isinstance(self.repl, str):
            return [(self.repl, (F, 'out', None, None))] if done else [('', (F, ('group', 0), D, None))]
        t = self.repl[0]
        out = []
        if phase == 'pre':
            if self.pre[k] == c and not done:
                out.append(('', (F, ('pre' if k + 1 < len(self.pre) else 'group', k + 1), D, None)))
            return out
        if phase == 'group':
            cur = [(o, q) for o, q in (t.init if g is None else (('', g),))]
            # c belongs to the group
            for o, q in cur:
                for x, r in t.trans[q].get(c, ()):
                    if done:
                        if not self.post:
                            out += [(o + x + f, (F, 'out', None, None)) for f in t.fin.get(r, ())]
                    else:
                        out.append((o + x, (F, ('group', 0), D, r)))
            # c is the first of what follows the group
            if self.post and c == self.post[0]:
                for o, q in cur:
                    for f in t.fin.get(q, ()):
                        if done and len(self.post) == 1:
                            out.append((o + f, (F, 'out', None, None)))
                        elif not done and len(self.post) > 1:
                            out.append((o + f, (F, ('post', 1), D, None)))
            return out
        if self.post[k] != c:
            return []
        if k + 1 == len(self.post):
            return [('', (F, 'out', None, None))] if done else []
        return [] if done else [('', (F, ('post', k + 1), D, None))]

    def final(self, st):
        return ('',) if st[1] == 'out' else ()


# ------------------------------------------------------------------ loops over the parts of a text

LOOPS = {}  # number -> Lines


class Lines:
    """sep.join(out for part in text.split(split)): the parts are mapped by a machine with finitely many states.

    cases: state -> [(conditions over the part, pieces (terms over the part), next state)]
    """

    def __init__(self, split, part, cases, start):
        self.split, self.part, self.cases, self.start = split, part, cases, start
        self.domain = None  # the parts that occur, if the proof says so
        self.doms = {}  # conditions -> the parts that meet them


class LinesOp(Op):
    det = False

    def __init__(self, lines, join, ctx, first):
        """first: is the first piece of the loop the first of the joined list?"""
        if len(lines.split) != 1:
            raise Unsupported('split by more than one character')
        self.sep, self.join, self.first = lines.split, join, first
        self.cases = {}
        noSep = identity(ctx.alphabet, [c for c in ctx.alphabet if c != lines.split])
        for s, cs in lines.cases.items():
            l = self.cases[s] = []
            for conds, pieces, nxt in cs:
                k = tuple(c.get_id() for c in conds)
                d = lines.doms[k][0] if k in lines.doms else restrict_all(lines.domain or noSep, conds, lines.part, ctx)
                l.append((self.pieces(pieces, lines.part, d, ctx), nxt))
        self.start = lines.start

    def pieces(self, pieces, var, d, ctx):
        if not pieces:
            return compose(d, Const('')), False
        body = [p for p in pieces if is_z3(p) and not z3.is_string_value(p)]
        if len(body) > 1:
            raise Unsupported('several pieces for one part')
        t = None
        for i, p in enumerate(pieces):
            x = text_value(p) if not (is_z3(p) and not z3.is_string_value(p)) else None
            if x is None:
                t = affix(t, build(p, var, d, ctx), self.join if i else '')
            else:
                t = (t or '') if not isinstance(t, T) else t
                if isinstance(t, T):
                    t = affix('', t, '', (self.join if i else '') + x)
                else:
                    t = t + (self.join if i else '') + x
        if not isinstance(t, T):
            t = compose(d, Const(t))
        return t, True

    def init(self):
        return tuple(self.begin(self.start, self.first))

    def begin(self, s, first):
        """The start of a part: guess the case."""
        if s not in self.cases:
            raise Unsupported('state of a loop')
        for n, ((t, some), nxt) in enumerate(self.cases[s]):
            for o, q in t.init:
                yield ('' if first or not some else self.join) + o, (s, n, q, first and not some)

    def step(self, st, c):
        s, n, q, first = st
        (t, some), nxt = self.cases[s][n]
        if c == self.sep:
            return [(f + o, r) for f in t.fin.get(q, ()) for o, r in self.begin(nxt, first)]
        return [(o, (s, n, r, first)) for o, r in t.trans[q].get(c, ())]

    def final(self, st):
        s, n, q, first = st
        (t, some), nxt = self.cases[s][n]
        return t.fin.get(q, ())


def affix(pre, t, sep='', post=''):
    pre = (pre or '') + sep if not isinstance(pre, T) else None
    if pre is None:
        raise Unsupported('concatenation of two texts')
    return T(tuple((pre + o, q) for o, q in t.init), t.trans, {q: tuple(f + post for f in v) for q, v in t.fin.items()})


# ------------------------------------------------------------------ terms

class Ctx:

    def __init__(self, alphabet):
        self.alphabet = alphabet
        self.memo = {}


def identity(alphabet, allowed=None):
    return T((('', 0),), [{c: ((c, 0),) for c in (alphabet if allowed is None else allowed)}], {0: ('',)})


def text_value(t):
    if isinstance(t, str):
        return t
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m[1], 16)), t.as_string()) if z3.is_string_value(t) else None


FUNS = {}  # name of a z3 function -> fn(args, ctx) -> Op


def literal(t):
    v = text_value(t)
    if v is None:
        raise Unsupported(f'operation with an unknown text {t}'[:200])
    return v


def chars_in(t, out=None, seen=None):
    """All characters named in a term."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        t = todo.pop()
        if isinstance(t, str):
            out.update(t)
            continue
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_string_value(t):
            out.update(text_value(t))
            continue
        n = t.decl().name()
        if n in EXTRA:
            todo += EXTRA[n]
        todo += t.children()
    return out


EXTRA = {}  # name of a z3 function -> further texts and terms that belong to it


def build(t, var, dom, ctx):
    """The transducer of a term over the variable, on a domain."""
    if isinstance(t, str):
        return compose(dom, Const(t))
    key = (t.get_id(), id(dom))
    r = ctx.memo.get(key)
    if r is None:
        r = ctx.memo[key] = (_build(t, var, dom, ctx), t, dom)
    return r[0]


def _build(t, var, dom, ctx):
    if t.eq(var):
        return dom
    v = text_value(t)
    if v is not None:
        return compose(dom, Const(v))
    k = t.decl().kind()
    n = t.decl().name()
    if k == z3.Z3_OP_SEQ_CONCAT:
        pre, body, post = '', None, ''
        for x in flat(t):
            v = text_value(x)
            if v is None:
                if body is not None:
                    raise Unsupported('concatenation of two texts')
                body = x
            elif body is None:
                pre += v
            else:
                post += v
        return affix(pre, build(body, var, dom, ctx), '', post)
    if k == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return union(build(a, var, restrict_all(dom, [c], var, ctx), ctx), build(b, var, restrict_all(dom, [z3.Not(c)], var, ctx), ctx))
    if k == z3.Z3_OP_SEQ_EXTRACT:
        x, lo, ln = t.children()
        if z3.is_int_value(lo) and z3.simplify(ln - (z3.Length(x) - lo)).eq(z3.IntVal(0)) or z3.is_int_value(lo) and ln.eq(z3.Length(x)):
            return compose(build(x, var, dom, ctx), Drop(lo.as_long()))
        raise Unsupported('part of a text')
    if n == 'py_replace':
        x, a, b = t.children()
        a, b = literal(a), literal(b)
        # guessing the matches keeps the output in step with the input, and the machines small
        return compose(build(x, var, dom, ctx), Replace(a, b) if len(a) < 2 else ReSub(re.escape(a), 0, b, ctx.alphabet))
    if n == 'py_strip':
        return compose(compose(build(t.arg(0), var, dom, ctx), LStrip()), RStrip())
    m = re.match(r'py_(l|r|)strip(?:\[(.*)\])?$', n, re.S)
    if m:
        x = build(t.arg(0), var, dom, ctx)
        if m[1] in ('l', ''):
            x = compose(x, LStrip(m[2]))
        if m[1] in ('r', ''):
            x = compose(x, RStrip(m[2]))
        return x
    if n in FUNS:
        return compose(build(t.arg(0), var, dom, ctx), FUNS[n](ctx))
    raise Unsupported(f'operation {n} on a text')


def flat(t):
    return [y for x in t.children() for y in (flat(x) if x.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [x])]


def union(a, b):
    n = len(a.trans)
    sh = lambda v: tuple((o, q + n) for o, q in v)
    return tidy(a.init + sh(b.init), list(a.trans) + [{c: sh(v) for c, v in d.items()} for d in b.trans], {**a.fin, **{q + n: f for q, f in b.fin.items()}})


# ------------------------------------------------------------------ conditions

class Accept(Op):
    """Deterministic acceptor: good(state) at the end."""

    def __init__(self, start, delta, good):
        self.start, self.delta, self.good = start, delta, good

    def init(self):
        return (('', self.start),)

    def step(self, s, c):
        return (('', self.delta(s, c)),)

    def final(self, s):
        return ('',) if self.good(s) else ()


def contains(p):
    def delta(k, c):
        if k == len(p):
            return k
        w = p[:k] + c
        for n in range(min(len(p), len(w)), -1, -1):
            if w.endswith(p[:n]) or n == 0:
                return n
    return Accept(0, delta, lambda k: k == len(p))


def prefix(p):
    return Accept(0, lambda k, c: k if k in ('no', len(p)) else (k + 1 if p[k] == c else 'no'), lambda k: k == len(p))


def suffix(p):
    def delta(k, c):
        w = p[:k] + c
        for n in range(min(len(p), len(w)), -1, -1):
            if w.endswith(p[:n]) or n == 0:
                return n
    return Accept(0, delta, lambda k: k == len(p))


F_COUNT = z3.Function('py_count_', STR, STR, z3.IntSort())
F_RFIND = z3.Function('py_rfind', STR, STR, z3.IntSort())
CAP = 4


def apart(p, q):
    """Occurrences of the two texts, or of one of them twice, do not overlap."""
    for a, b in ((p, q), (q, p), (p, p), (q, q)):
        if any(a.endswith(b[:n]) for n in range(1, len(b) + 1) if n < len(a) or a != b):
            return False
        if a != b and a in b:
            return False
    return True


def find_step(ps, w, c):
    """Progress in texts that are apart: the longest end of what was read that begins one of them."""
    w += c
    while w and not any(p.startswith(w) for p in ps):
        w = w[1:]
    return w


def counts(p, q, strict):
    """count(p) < count(q), or <=; differences beyond CAP are not followed."""
    if p == q or not apart(p, q):
        raise NotRegular('counts of texts that may overlap')

    def delta(s, c):
        if s == 'far':
            return s
        w, d = s
        w = find_step((p, q), w, c)
        if w == p:
            w, d = '', d - 1
        elif w == q:
            w, d = '', d + 1
        return (w, d) if abs(d) <= CAP else 'far'

    def good(s):
        if s == 'far':
            raise NotRegular('difference of counts')
        return s[1] > 0 if strict else s[1] >= 0

    return Accept(('', 0), delta, good)


def last_order(p, q, strict):
    """rfind(p) < rfind(q), or <=."""
    if p == q or not apart(p, q):
        raise NotRegular('positions of texts that may overlap')

    def delta(s, c):
        w, l = s
        w = find_step((p, q), w, c)
        if w in (p, q):
            w, l = '', 'p' if w == p else 'q'
        return w, l

    return Accept(('', ''), delta, lambda s: s[1] == 'q' or s[1] == '' and not strict)


def equals(p):
    return Accept(0, lambda k, c: 'no' if k == 'no' or k == len(p) or p[k] != c else k + 1, lambda k: k == len(p))


def dfa(t, alphabet):
    """The domain of a transducer as a complete deterministic automaton: (start, table, good)."""
    start = frozenset(q for _, q in t.init)
    num, todo, table, good = {start: 0}, [start], [], set()
    while todo:
        s = todo.pop(0)
        if any(q in t.fin for q in s):
            good.add(num[s])
        row = {}
        for c in alphabet:
            r = frozenset(x for q in s for _, x in t.trans[q].get(c, ()))
            if r not in num:
                if len(num) > 20000:
                    raise Unsupported('condition too large')
                num[r] = len(num)
                todo.append(r)
            row[c] = num[r]
        table.append(row)
    return table, good


def restrict(dom, table, good):
    return compose(dom, _Id(table, good))


class _Id(Op):

    def __init__(self, table, good):
        self.table, self.good = table, good

    def step(self, s, c):
        return ((c, self.table[s][c]),)

    def final(self, s):
        return ('',) if s in self.good else ()


class NotRegular(Exception):
    pass


def truth(c, var, dom, ctx):
    """The condition as (table, good) over inputs of the domain; outside the domain it is arbitrary."""
    if z3.is_true(c) or z3.is_false(c):
        return [{x: 0 for x in ctx.alphabet}], ({0} if z3.is_true(c) else set())
    if z3.is_not(c):
        t, g = truth(c.arg(0), var, dom, ctx)
        return t, set(range(len(t))) - g
    if z3.is_and(c) or z3.is_or(c):
        parts = [truth(x, var, dom, ctx) for x in c.children()]
        start = (0,) * len(parts)
        num, todo, table, good = {start: 0}, [start], [], set()
        while todo:
            s = todo.pop(0)
            vals = [q in g for q, (_, g) in zip(s, parts)]
            if (all if z3.is_and(c) else any)(vals):
                good.add(num[s])
            row = {}
            for x in ctx.alphabet:
                r = tuple(t[q][x] for q, (t, _) in zip(s, parts))
                if r not in num:
                    num[r] = len(num)
                    todo.append(r)
                row[x] = num[r]
            table.append(row)
        return table, good
    if z3.is_eq(c) or z3.is_distinct(c):
        a, b = c.children()
        if text_value(a) is not None:
            a, b = b, a
        if a.sort() == STR and text_value(b) is not None:
            t = dfa(compose(build(a, var, dom, ctx), equals(text_value(b))), ctx.alphabet)
            return (t[0], set(range(len(t[0]))) - t[1]) if z3.is_distinct(c) else t
        if z3.is_eq(c) and a.sort() == z3.BoolSort():
            return truth(z3.Or(z3.And(a, b), z3.And(z3.Not(a), z3.Not(b))), var, dom, ctx)
        raise NotRegular(str(c))
    k = c.decl().kind()
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
        a, b = c.children()
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        fa, fb = (x.decl() if z3.is_app(x) else None for x in (a, b))
        if fa is not None and fa.eq(F_COUNT) and fb.eq(F_COUNT) and a.arg(0).eq(b.arg(0)):
            op = counts(literal(a.arg(1)), literal(b.arg(1)), strict)
            return dfa(compose(build(a.arg(0), var, dom, ctx), op), ctx.alphabet)
        if fa is not None and fa.eq(F_RFIND) and fb.eq(F_RFIND) and a.arg(0).eq(b.arg(0)):
            op = last_order(literal(a.arg(1)), literal(b.arg(1)), strict)
            return dfa(compose(build(a.arg(0), var, dom, ctx), op), ctx.alphabet)
        raise NotRegular(str(c))
    if k == z3.Z3_OP_SEQ_CONTAINS:
        op, x = contains(literal(c.arg(1))), c.arg(0)
    elif k == z3.Z3_OP_SEQ_PREFIX:
        op, x = prefix(literal(c.arg(0))), c.arg(1)
    elif k == z3.Z3_OP_SEQ_SUFFIX:
        op, x = suffix(literal(c.arg(0))), c.arg(1)
    else:
        raise NotRegular(str(c))
    return dfa(compose(build(x, var, dom, ctx), op), ctx.alphabet)


def mentions(c, var, seen=None):
    seen = set() if seen is None else seen
    todo = [c]
    while todo:
        t = todo.pop()
        if t.eq(var):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo += t.children()
    return False


def restrict_all(dom, conds, var, ctx, lax=False):
    for c in conds:
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if not mentions(c, var) and not (z3.is_true(c) or z3.is_false(c)):
            if lax:
                continue
            raise Unsupported(f'condition on something else: {c}'[:200])
        try:
            t, g = truth(c, var, dom, ctx)
        except (NotRegular, Unsupported):
            if lax:
                continue
            raise Unsupported(f'condition that is not regular: {c}'[:200])
        dom = restrict(dom, t, g)
    return dom


def domain(regex, alphabet):
    """The texts that match a regular expression, as the identity on them."""
    items, fl = parse(regex, re.DOTALL)
    n = Nfa(items, fl)

    def step(s):
        return {c: (((c, r),) if r else ()) for c in alphabet for r in [n.step(s, c)]}

    return explore([('', n.close([n.start]))], step, lambda s: ('',) if n.end in s else ())


# ------------------------------------------------------------------ comparison

def reduce_(u, v):
    i = 0
    while i < len(u) and i < len(v) and u[i] == v[i]:
        i += 1
    return u[i:], v[i:]


def differ(a, b):
    """None if the two functional transducers agree wherever both are defined, else an input on which they differ."""
    start = [(p, q, x, y) for x, p in a.init for y, q in b.init]
    num, todo, trans, fin = {}, [], [], {}

    def get(p, q):
        if (p, q) not in num:
            num[p, q] = len(num)
            if len(num) > 400000:
                raise Unsupported('comparison too large')
            trans.append(None)
            todo.append((p, q))
        return num[p, q]

    ini = [(get(p, q), x, y) for p, q, x, y in start]
    while todo:
        p, q = todo.pop()
        i = num[p, q]
        l = trans[i] = []
        A, B = a.trans[p], b.trans[q]
        for c in A:
            if c in B:
                for x, r in A[c]:
                    for y, s in B[c]:
                        l.append((c, x, y, get(r, s)))
        if p in a.fin and q in b.fin:
            fin[i] = [(x, y) for x in a.fin[p] for y in b.fin[q]]
    # ways to the end, shortest first
    pred = [[] for _ in trans]
    for i, l in enumerate(trans):
        for c, x, y, j in l:
            pred[j].append((i, c))
    way = {i: '' for i in fin}
    order = list(fin)
    k = 0
    while k < len(order):
        j = order[k]
        k += 1
        for i, c in pred[j]:
            if i not in way:
                way[i] = c + way[j]
                order.append(i)
    delay, how = {}, {}
    todo = []

    def visit(i, u, v, w):
        if i not in way:
            return None
        u, v = reduce_(u, v)
        if u and v:
            return w + way[i]
        if i in delay:
            if delay[i] == (u, v):
                return None
            # the same ending cannot be right after both
            return (w + way[i], how[i] + way[i])
        if len(u) + len(v) > 3000:
            return w + way[i]
        delay[i], how[i] = (u, v), w
        todo.append(i)
        return None

    for i, x, y in ini:
        r = visit(i, x, y, '')
        if r is not None:
            return pick(a, b, r)
    k = 0
    while k < len(todo):
        i = todo[k]
        k += 1
        u, v = delay[i]
        for x, y in fin.get(i, ()):
            if u + x != v + y:
                return how[i]
        for c, x, y, j in trans[i]:
            r = visit(j, u + x, v + y, how[i] + c)
            if r is not None:
                return pick(a, b, r)
    return None


def pick(a, b, r):
    for w in (r if isinstance(r, tuple) else (r,)):
        if a.run(w) != b.run(w):
            return w
    return r if isinstance(r, str) else r[0]


def outside(dom, t, alphabet):
    """None, or a text of the domain on which t is not defined."""
    table, good = dfa(t, alphabet)
    d = restrict(dom, table, set(range(len(table))) - good)
    return some(d)


def some(d):
    """A shortest input of a transducer, or None."""
    seen = {q: '' for _, q in d.init}
    todo = list(seen)
    k = 0
    while k < len(todo):
        q = todo[k]
        k += 1
        if q in d.fin:
            return seen[q]
        for c, v in d.trans[q].items():
            for _, r in v:
                if r not in seen:
                    seen[r] = seen[q] + c
                    todo.append(r)
    return None


# ------------------------------------------------------------------ the operations in the generator

def install(eng):
    """Text operations that stay readable as terms."""
    M, L = eng.libs['%methods'], eng.libs
    eng.rw = {}
    old_replace = M[('str', 'replace')]

    def replace(e, st, o, a, kw):
        if isinstance(o, str) and all(isinstance(x, str) for x in a):
            return o.replace(*a)
        if len(a) == 2 and not kw and not any(isinstance(x, (Union, Ref)) for x in (o, *a)):
            return F_REPLACE(term(o), term(a[0]), term(a[1]))
        return old_replace(e, st, o, a, kw)

    M[('str', 'replace')] = replace

    def never(e, text, p):
        """Nothing in the texts of the domain matches (with "." for any character)."""
        for var, dom in e.rw.get('texts', ()):
            if is_z3(text) and text.eq(var):
                al = sorted({c for d in dom.trans for c in d})
                try:
                    match = domain(f'.*({p}).*', al)
                except (Unsupported, re.error):
                    return False
                return some(compose(match, AsOp(dom))) is None
        return False

    def group(e, st, o, a, kw):
        f = st.get(o).f
        if '%match' in f:
            return f['%match'].group(*a)
        g, used = f['%group']
        i = a[0] if a else 0
        if not isinstance(i, int) or (used and used[0] != i):
            raise Unsupported('groups of a match')
        used.append(i)
        return g

    M[('rematch', 'group')] = M[('rematch', '__getitem__')] = group

    def sub(e, st, args, kw):
        p, repl, text, *rest = args
        flags = kw.get('flags', rest[1] if len(rest) > 1 else 0)
        if (rest[0] if rest else kw.get('count', 0)) != 0 or not isinstance(p, str):
            raise Unsupported('re.sub with a count or an unknown pattern')
        flags = int(flags)
        if isinstance(text, str) and isinstance(repl, str):
            return re.sub(p, repl, text, flags=flags)
        if text is None or not (isinstance(text, str) or is_z3(text) and text.sort() == STR):
            e.raise_new(st, TypeError, 'expected string')
        if isinstance(text, str):
            out, pos = '', 0
            for m in re.finditer(p, text, flags):
                x = st.alloc(Obj('rematch', {'%match': m}))
                out = e.concat(st, e.concat(st, out, text[pos:m.start()]), e.call(st, repl, [x], {}))
                pos = m.end()
            return e.concat(st, out, text[pos:])
        if never(e, text, p):
            return text
        n = sum(k.startswith('re_sub_') for k in FUNS)
        name = f're_sub_{n}'
        if isinstance(repl, str):
            tmpl = sre.parse_template(repl, re.compile(p, flags))
            groups = [x for x in (tmpl if isinstance(tmpl, list) else tmpl[0]) if not isinstance(x, str) and x is not None]
            if isinstance(tmpl, list):  # Python 3.12
                if not groups:
                    out = ''.join(tmpl)
                else:
                    g = z3.String(f'group_{n}')
                    if len(groups) > 1:
                        raise Unsupported('template with several groups')
                    parts = [g if not isinstance(x, str) else z3.StringVal(zstr(x)) for x in tmpl if x != '']
                    out = (z3.Concat(*parts) if len(parts) > 1 else parts[0], g, groups[0])
            else:
                raise Unsupported('template')
        else:
            g = z3.String(f'group_{n}')
            used = []

            m = st.alloc(Obj('rematch', {'%group': (g, used)}))
            v = e.call(st, repl, [m], {})
            if isinstance(v, str):
                out = v
            elif is_z3(v) and v.sort() == STR:
                out = (v, g, used[0] if used else 0)
            else:
                raise Unsupported('replacement function')
        f = z3.Function(name, STR, STR)

        def make(ctx):
            if isinstance(out, str):
                return ReSub(p, flags, out, ctx.alphabet)
            return ReSub(p, flags, (build(out[0], out[1], identity(ctx.alphabet), ctx), out[2]), ctx.alphabet)

        FUNS[name] = make
        EXTRA[name] = [pattern_chars(p)] + ([out] if isinstance(out, str) else [out[0]])
        return f(term(text))

    L.setdefault('re', {})['sub'] = Native('re.sub', sub)

    def compiled(e, st, o, a, kw):
        pat, flags = st.get(o).f['pattern'], st.get(o).f['flags']
        return sub(e, st, [pat] + list(a), dict(kw, flags=flags))

    M[('repattern', 'sub')] = compiled
    L['re']['compile'] = Native('re.compile', lambda e, st, args, kw: st.alloc(Obj('repattern', {'pattern': args[0], 'flags': args[1] if len(args) > 1 else kw.get('flags', 0)})))
    L['re']['escape'] = Native('re.escape', lambda e, st, args, kw: re.escape(args[0]) if isinstance(args[0], str) else unsupported('re.escape'))

    def unesc(e, st, args, kw):
        if isinstance(args[0], str):
            import html
            return html.unescape(args[0])
        return z3.Function('html_unescape', STR, STR)(term(args[0]))

    FUNS['html_unescape'] = lambda ctx: Unescape()
    EXTRA['html_unescape'] = ['&amp;&lt;&gt;&quot;&apos;']
    L.setdefault('html', {})['unescape'] = Native('html.unescape', unesc)
    eng.unescape = unesc

    def chain(before, after, first):
        """The functions of xml.sax.saxutils: replacements one after the other."""

        def run(e, st, args, kw):
            v = args[0]
            d = args[1] if len(args) > 1 else kw.get('entities')
            more = []
            if isinstance(d, Ref):
                o = st.get(d)
                if o.kind != 'dict' or o.x.base is not None:
                    raise Unsupported('table of entities')
                for _, g, kv in e.dict_items(o, lambda k, v: (k, v)):
                    if g is not True or not all(isinstance(x, str) for x in kv):
                        raise Unsupported('table of entities')
                    more.append(kv)
            for a, b in before + more + after if not first else before + after + more:
                v = replace(e, st, v, [a, b], {})
            return v
        return run

    sax = L.setdefault('xml.sax.saxutils', {})
    sax['unescape'] = Native('xml.sax.saxutils.unescape', chain([('&lt;', '<'), ('&gt;', '>')], [('&amp;', '&')], False))
    sax['escape'] = Native('xml.sax.saxutils.escape', chain([('&', '&amp;'), ('>', '&gt;'), ('<', '&lt;')], [], True))

    def esc(e, st, args, kw):
        q = args[1] if len(args) > 1 else kw.get('quote', True)
        if not isinstance(q, bool):
            raise Unsupported('html.escape')
        v = args[0]
        for a, b in [('&', '&amp;'), ('<', '&lt;'), ('>', '&gt;')] + ([('"', '&quot;'), ("'", '&#x27;')] if q else []):
            v = replace(e, st, v, [a, b], {})
        return v

    L['html']['escape'] = Native('html.escape', esc)
    old_join = M[('str', 'join')]

    def join(e, st, o, a, kw):
        if isinstance(o, str) and len(a) == 1 and isinstance(a[0], Ref) and st.get(a[0]).kind in ('list', 'iter'):
            x = st.get(a[0]).x
            runs = [i for i, (k, g, v) in enumerate(x) if k == 's']
            if runs and all(g is True for _, g, _ in x):
                if len(runs) > 1:
                    raise Unsupported('join of several runs')
                i = runs[0]
                v = x[i][2]
                nm = v.decl().name()
                if nm in ('py_split', 'str_split') or v.decl().eq(U_SPLIT_()):
                    sep = literal(v.arg(1))
                    part = z3.String('part')
                    ln = Lines(sep, part, {0: [([], [part], 0)]}, 0)
                    txt = v.arg(0)
                elif nm in EXTRA_LINES:
                    ln, txt = EXTRA_LINES[nm], v.arg(0)
                else:
                    return old_join(e, st, o, a, kw)
                f = f'py_joinlines_{len(FUNS)}'
                first = i == 0
                FUNS[f] = lambda ctx: LinesOp(ln, o, ctx, first)
                EXTRA[f] = [ln.split, o] + [p for cs in ln.cases.values() for conds, pieces, _ in cs for p in [*conds, *pieces] if not isinstance(p, bool)]
                if not first and not all(pieces for cs in ln.cases.values() for _, pieces, _ in cs):
                    raise Unsupported('join of a loop that may give nothing')
                out = z3.Function(f, STR, STR)(term(txt))
                pre = [v for _, _, v in x[:i]]
                post = [v for _, _, v in x[i + 1:]]
                r = ''
                for n, y in enumerate(pre):
                    r = e.concat(st, e.concat(st, r, o if n else ''), y)
                # the loop writes the separator before each of its pieces, unless it comes first
                r = e.concat(st, r, out)
                for y in post:
                    r = e.concat(st, e.concat(st, r, o), y)
                return r
        return old_join(e, st, o, a, kw)

    M[('str', 'join')] = join
    eng.loop_hooks.insert(0, loop)
    old_count, old_sort = M[('str', 'count')], M[('list', 'sort')]

    def count(e, st, o, a, kw):
        if isinstance(o, str) and isinstance(a[0], str):
            return o.count(*a)
        if e.rw.get('path') and len(a) == 1 and isinstance(a[0], str):
            return F_COUNT(term(o), term(a[0]))
        return old_count(e, st, o, a, kw)

    def rfind(e, st, o, a, kw):
        if isinstance(o, str) and isinstance(a[0], str):
            return o.rfind(*a)
        if len(a) != 1 or not isinstance(a[0], str):
            raise Unsupported('rfind')
        return F_RFIND(term(o), term(a[0]))

    def sort(e, st, o, a, kw):
        """Insertion sort of a concrete list by symbolic keys (one path per order)."""
        decide(e, st, o)
        its = st.get(o).x
        if e.mode != 'path' or not all(k == 'i' and g is True for k, g, _ in its) or len(its) > 4 or a or set(kw) - {'key', 'reverse'} or kw.get('reverse'):
            return old_sort(e, st, o, a, kw)
        keys = [e.call(st, kw['key'], [v], {}) if kw.get('key') is not None else v for _, _, v in its]
        out = []
        for it, k in zip(its, keys):
            pos = len(out)
            while pos and e.branch(st, term(k) < term(out[pos - 1][1]), lambda s: True, lambda s: False):
                pos -= 1
            out.insert(pos, (it, k))
        st.edit(o).x = tuple(it for it, _ in out)
        return None

    def cut(t, lo, hi):
        if e_rw.get('path') and isinstance(lo, int) and lo >= 0 and hi is None:
            f = f'py_drop_{lo}'
            FUNS[f] = lambda ctx: Drop(lo)
            return z3.Function(f, STR, STR)(t)

    e_rw = eng.rw
    eng.rw_slice = cut
    M[('str', 'count')] = count
    M[('str', 'rfind')] = rfind
    M[('list', 'sort')] = sort


def decide(e, st, o):
    """One path for each set of elements that a list may have."""
    if e.mode != 'path' or st.get(o).kind != 'list' or all(g is True for _, g, _ in st.get(o).x):
        return
    out = []
    for it in st.get(o).x:
        if it[0] != 'i' or it[1] is True or e.branch(st, it[1], lambda s: True, lambda s: False):
            out.append((it[0], True if it[0] == 'i' else it[1], it[2]))
    st.edit(o).x = tuple(out)


def unsupported(what):
    raise Unsupported(what)


def pattern_chars(p):
    """The characters a pattern names, with neighbours of ranges."""
    out = set()

    def walk(items):
        for op, av in items:
            if op in (srec.LITERAL, srec.NOT_LITERAL):
                out.add(chr(av))
            elif op is srec.RANGE:
                out.update(chr(x) for x in range(av[0], min(av[1], 127) + 1))
            elif op is srec.IN:
                walk(av)
            elif op is srec.SUBPATTERN:
                walk(av[3])
            elif op is srec.BRANCH:
                for b in av[1]:
                    walk(b)
            elif op in (srec.MAX_REPEAT, srec.MIN_REPEAT):
                walk(av[2])
            elif op is srec.ANY:
                out.add('\n')
            elif op is srec.CATEGORY:
                out.update(' \n\t0_')

    walk(sre.parse(p))
    return ''.join(sorted(out))


def U_SPLIT_():
    from .lib import U_SPLIT
    return U_SPLIT


EXTRA_LINES = {}


def loop(e, st, node, it, env, mod):
    """A loop over the parts of a text: one pass for an arbitrary part from each state."""
    if not isinstance(it, Ref) or st.get(it).kind != 'list':
        return False
    x = st.get(it).x
    if len(x) != 1 or x[0][0] != 's' or not x[0][2].decl().eq(U_SPLIT_()):
        return False
    from .loops import changed
    import ast
    text, sep = x[0][2].children()
    sep = literal(sep)
    part = z3.String(f'part_{len(EXTRA_LINES)}_{e.fresh_n}')
    base = st.fork()
    names = sorted({t.id for b in node.body for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} | {t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)})
    lists = None
    from .lib import concrete, from_host

    def value(s, n):
        v = s.get(env).f.get(n, UNBOUND)
        if v is UNBOUND or v is HAVOC:
            return v
        try:
            return freeze(concrete(e, s, v))
        except ValueError:
            return HAVOC

    def freeze(v):
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, tuple(freeze(y) for y in v))
        if isinstance(v, dict):
            return ('dict', tuple((freeze(k), freeze(y)) for k, y in v.items()))
        return v

    def thaw(s, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] in ('list', 'tuple'):
            l = [thaw(s, y) for y in v[1]]
            return tuple(l) if v[0] == 'tuple' else s.alloc(Obj('list', x=tuple(item(y) for y in l)))
        if isinstance(v, tuple):
            raise Unsupported('state of a loop')
        return v

    def state_of(s):
        for n in names:
            if n in carried and isinstance(s.get(env).f.get(n), Ref):
                decide(e, s, s.get(env).f[n])
        # only variables that the body reads before it sets them are carried along
        return tuple((n, value(s, n) if n in carried else HAVOC) for n in names)

    outs = {}

    def one(s0, state):
        """All passes from a state: [(conditions, {list: pieces}, next state)]."""
        res = []
        s = s0.fork()
        for n, v in state:
            s.edit(env).f[n] = thaw(s, v)
        before = s.fork()
        e.assign(s, node.target, part, env, mod)
        alive, brk = e.loop_body(s, node.body, env, mod)
        if brk or not alive:
            raise Unsupported('loop over parts with break')
        for oid, f in changed(before, s):
            if oid == env.oid and f in names:
                continue
            o, p = before.heap.get(oid), s.heap.get(oid)
            if f == '.x' and o.kind == 'list' and p.x[:len(o.x)] == o.x and all(k == 'i' for k, g, v in p.x[len(o.x):]):
                outs.setdefault(oid, None)
                continue
            if o is not None and o.kind == 'env' and f.startswith('%'):
                continue
            raise Unsupported(f'loop over parts changes {f}')
        pieces = {oid: list(s.heap[oid].x[len(before.heap[oid].x):]) for oid in outs}
        res.append((list(s.pc[len(before.pc):]) if isinstance(s.pc, (list, tuple)) else [], pieces, state_of(s)))
        return res

    single = one
    known_parts = {}

    def paths(s0, state):
        """All passes, each of them with decided conditions; the proof says which parts there are."""
        lines, ctx = e.rw['path']
        res = []
        keep = e.decisions, e.dpos, e.mode, e.fresh_n
        n0 = len(s0.pc)

        memo = {(): lines}

        def rw_dom(conds):
            k = tuple(c.get_id() for c in conds)
            if k not in memo:
                memo[k] = restrict_with(rw_dom(conds[:-1]), conds[-1])
                known_parts[k] = (memo[k], conds)
            return memo[k]

        tables = {}

        def restrict_with(d, c):
            if c.get_id() not in tables:
                tables[c.get_id()] = truth(c, part, lines, ctx) + (c,)
            t, g, _ = tables[c.get_id()]
            return restrict(d, t, g)

        orig_known = type(e).known

        def known(s, cond):
            if isinstance(cond, bool):
                return cond
            if not mentions(cond, part):
                return orig_known(e, s, cond)
            d = rw_dom(s.pc[n0:])
            if some(restrict_with(d, cond)) is None:
                return False
            n = z3.Not(cond)
            if some(restrict_with(d, n)) is None:
                return True
            return cond

        def feasible(s, cond=True):
            if isinstance(cond, bool) or not mentions(cond, part):
                return type(e).feasible(e, s, cond)
            return known(s, cond) is not False

        e.mode, e.known, e.feasible = 'path', known, feasible
        try:
            e.explore(lambda: res.extend(single(s0, state)), 2000)
        finally:
            e.decisions, e.dpos, e.mode, e.fresh_n = keep
            del e.known, e.feasible
        return res

    if e.rw.get('path'):
        one = paths
    carried = set()
    while True:
        start = state_of(st)
        outs.clear()
        cases, todo = {}, [start]
        try:
            while todo:
                s = todo.pop()
                if s in cases:
                    continue
                if len(cases) > 40:
                    raise Unsupported('too many states of a loop')
                cases[s] = one(base, s)
                todo += [n for _, _, n in cases[s]]
            break
        except Unsupported as ex:
            n = re.match('value of (\\w+) after a loop', str(ex))
            if not n or n[1] not in names or n[1] in carried:
                raise
            carried.add(n[1])
    for oid in outs:
        cs = {}
        for s, l in cases.items():
            cs[s] = []
            for conds, pieces, nxt in l:
                p = pieces.get(oid, [])
                for k, g, v in p:
                    if g is not True:
                        raise Unsupported('conditional append')
                cs[s].append((conds, [v for k, g, v in p], nxt))
        name = f'py_lines_{len(EXTRA_LINES)}'
        ln = EXTRA_LINES[name] = Lines(sep, part, cs, start)
        if e.rw.get('path'):
            ln.domain, ln.doms = e.rw['path'][0], known_parts
        f = z3.Function(name, STR, z3.SeqSort(STR))
        o = st.edit(Ref(oid))
        o.x = o.x + (run(f(text)),)
    for n in names:
        st.edit(env).f[n] = HAVOC
    return True


# ------------------------------------------------------------------ obligations

ASCII = ''.join(chr(c) for c in range(32, 127)) + '\n\t'


def alphabet(*terms, more=''):
    """The characters named, and representatives of all others."""
    named = set(more)
    for t in terms:
        chars_in(t, named)
    if set(OTHERS) & named - set(more):
        raise Unsupported('representative named in the code')
    out = sorted(named)
    for rep, test in (('z', str.isalpha), ('Q', str.isalpha), ('7', str.isdecimal), ('^', lambda c: not c.isalnum() and not c.isspace())):
        # one more of each kind of ASCII characters that nobody names
        c = next((c for c in rep + ASCII if c not in named and test(c)), None)
        if c and c not in out:
            out.append(c)
    for c in ' \n\t':
        if c not in out:
            out.append(c)
    return ''.join(out) + OTHERS


def check(u, name, code, spec, dom, ctx, replay=None):
    """Obligation: code and spec agree on the domain; both are transducers defined on it.

    replay(text) runs the real code: a message if it fails there, else None.
    """
    import time
    t0 = time.time()
    bad = outside(dom, code, ctx.alphabet)
    if bad is None:
        bad = differ(code, spec)
    rec = dict(name=name, backend='transducers', time_s=round(time.time() - t0, 3), replayed=False, detail='')
    if bad is None:
        rec.update(status='proved', detail=f'{code.size()[0]} states')
    else:
        msg = None
        try:
            msg = replay(bad) if replay else None
        except Exception as ex:
            msg = f'{type(ex).__name__}: {ex}'
        got, want = sorted(code.run(bad))[:2], sorted(spec.run(bad))[:2]
        rec.update(status='refuted' if msg else 'unknown', replayed=bool(msg),
                   detail=f'text {bad!r}: {msg}' if msg else f'text {bad!r} gives {got!r} instead of {want!r} (not confirmed by running the code)')
    u.extra.append(rec)
    return bad is None


def cover(u, name, dom):
    """The domain is not empty."""
    w = some(dom)
    u.fact('cover: ' + name, w is not None and any(dom.trans[q] for q in range(len(dom.trans))), repr(w))
