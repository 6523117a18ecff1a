"""Verification condition generator for the Python sources of the repository.

The functions are taken from the parsed source of the current working tree; nothing is dropped except comments,
doc strings and annotations. A function is executed symbolically on a state that stands for all inputs. Branches
on symbolic conditions are executed both and joined (mode 'merge'), or enumerated one by one (mode 'path').
Calls are replaced by the contract registered for the callee, or else the body of the callee is used.
Loops over symbolic collections need a loop contract.
"""
import ast
import builtins
import os
import time
import z3
from .values import *
from .state import *

SRC = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src')


class PyRaise(Exception):
    """Internal: never leaves the engine."""


class Obligation:

    def __init__(self, name, status, backend='', time_s=0.0, detail='', model=None):
        self.name, self.status, self.backend, self.time_s, self.detail, self.model = name, status, backend, time_s, detail, model
        self.replayed = False

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend, time_s=round(self.time_s, 3), detail=self.detail[:2000], replayed=self.replayed)


class Engine:

    def __init__(self, mode='merge', timeout=10000, src=None):
        self.mode = mode
        self.timeout = timeout
        self.src = src or SRC
        self.modules = {}  # name -> ModuleVal
        self.libs = {}  # name of a library module -> dict of attributes (contracts)
        self.contracts = {}  # qualified name -> fn(eng, st, args, kwargs)
        self.loop_hooks = []  # fn(eng, st, node, iterable) -> True if handled
        self.while_hooks = []
        self.attr_hooks = []  # fn(eng, st, obj, name) -> value or NotImplemented
        self.call_hooks = []
        self.axioms = []
        self.focus = []  # keys at which the summaries of loops over tables are stated
        self.obligations = []
        self.functions = set()  # qualified names of the functions whose bodies were verified
        self.used_contracts = set()
        self.assumed = set()
        self.sinks = []
        self.ret_sinks = []
        self.loop_sinks = []
        self.probing = 0
        self.depth = 0
        self.solver_s = 0.0
        self.fresh_n = 0
        self.feas_cache = {}
        self.const_cache = {}
        self.proved = {}  # path mode: obligations of shared prefixes
        self.decisions = []  # path mode
        self.dpos = 0
        self.steps = 0
        self.max_steps = 400000
        self.deadline = None
        self.exact = True
        self.triggers = {}  # id of a term -> (term, facts about it)
        self.abstract = False  # try first with the strings abstracted
        self.last_line = 0
        self.cur_func = []
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------ fresh values
    def fresh(self, name, sort=None):
        self.fresh_n += 1
        return z3.Const(f'{name}!{self.fresh_n}', z3.StringSort() if sort is None else sort)

    def opt(self, name, sort=None):
        """An arbitrary value that may be None."""
        b = z3.Bool(f'{name}?none')
        return Union([(b, None), (z3.Not(b), z3.Const(name, z3.StringSort() if sort is None else sort))])

    # ------------------------------------------------------------ solver
    def _check(self, fs, timeout, axioms=True, model=False):
        t = time.time()
        if self.triggers:
            fs = list(fs) + self.triggered(fs)
        if self.abstract:
            r = self._check_abstract(list(fs) + (list(self.axioms) if axioms else []), timeout)
            self.solver_s += time.time() - t
            if r == z3.unsat or r == z3.sat and not model:
                return r, None
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in self.axioms if axioms else ():
            s.add(f)
        for f in fs:
            if f is False:
                return z3.unsat, None
            if f is True:
                continue
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver_s += time.time() - t
        return r, s

    def triggered(self, fs):
        """Facts about the terms that occur in the formulas."""
        out, seen = [], set()
        todo = [f for f in fs if not isinstance(f, bool)]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self.triggers:
                out += self.triggers[i][1]
                todo += self.triggers[i][1]
            todo += t.children()
        return out

    def _check_abstract(self, fs, timeout):
        from . import abstract
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in fs:
            if f is False:
                return z3.unsat
            if f is not True:
                g = abstract.abstract(f)
                if g is not None:
                    s.add(g)
        s.add(*abstract.literals())
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    def consts(self, f):
        """Names of the constants in a formula."""
        k = f.get_id()
        r = self.const_cache.get(k)
        if r is None:
            out, seen, todo = set(), set(), [f]
            while todo:
                t = todo.pop()
                i = t.get_id()
                if i in seen:
                    continue
                seen.add(i)
                c = self.const_cache.get(i)
                if c is not None:
                    out |= c[0]
                elif z3.is_quantifier(t):
                    todo.append(t.body())
                elif z3.is_app(t):
                    n = t.num_args()
                    if n == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(t.get_id())
                    todo += [t.arg(j) for j in range(n)]
            r = self.const_cache[k] = (frozenset(out), f)
        return r[0]

    def sliced(self, fs, goal):
        """The facts that share constants with the goal, directly or through others (to use fewer facts proves less: sound)."""
        todo = [f for f in list(self.axioms) + list(fs) if not isinstance(f, bool)]
        have = set(self.consts(goal))
        out = []
        more = True
        while more:
            more, rest = False, []
            for f in todo:
                c = self.consts(f)
                if not c or c & have:
                    out.append(f)
                    if not c <= have:
                        have |= c
                        more = True
                else:
                    rest.append(f)
            todo = rest
        return out, len(todo)

    def feasible(self, st, cond=True):
        if cond is False:
            return False
        for k in conjuncts(cond):
            if k is True:
                continue
            n = Not(k)
            for o in st.pc:
                if o.eq(n):
                    return False
        key = (tuple(c.get_id() for c in st.pc), cond.get_id() if is_z3(cond) else cond)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        if is_z3(cond):
            fs, _ = self.sliced(st.pc, cond)
            r, _ = self._check(fs + [cond], 400, False)
        else:
            r, _ = self._check(list(st.pc) + [cond], 400)
        res = r != z3.unsat
        self.feas_cache[key] = (res, st.pc, cond)  # keeps the terms alive
        return res

    def known(self, st, cond):
        """True / False if the path condition decides the condition, else the condition."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = Not(cond)
        for o in st.pc:
            if o.eq(cond):
                return True
            if not isinstance(n, bool) and o.eq(n):
                return False
        if not self.feasible(st, cond):
            return False
        if not self.feasible(st, n):
            return True
        return cond

    def prove(self, name, st, goal, timeout=None, detail=''):
        """Obligation: the goal holds in every state described by st."""
        if self.probing:
            return True  # what a loop changes is looked for: the obligations of this run are not used
        if goal is True:
            self.obligations.append(Obligation(name, 'proved', 'simplifier'))
            return True
        g = tobool(goal)
        t = time.time()
        if self.mode == 'path':
            key = (name, g.get_id(), tuple(c.get_id() for c in st.pc))
            if key in self.proved:
                return self.proved[key][0]
            self.proved[key] = (None, g, st.pc)
        r = None
        fs, dropped = self.sliced(st.pc, g)
        if dropped:
            r, s = self._check(fs + [z3.Not(g)], (timeout or self.timeout) // 4, False, model=True)
        if r == z3.sat:
            # a model of the facts about the goal; a model of all facts is better, but may be out of reach of the solver
            r2, s2 = self._check(list(st.pc) + [z3.Not(g)], (timeout or self.timeout) // 4, model=True)
            if r2 == z3.unknown:
                detail += ' (model of the facts that share symbols with the goal)'
            else:
                r, s = r2, s2
        elif r != z3.unsat:
            r, s = self._check(list(st.pc) + [z3.Not(g)], (timeout or self.timeout) // 2, model=True)
        backend = 'z3 ' + z3.get_version_string()
        status = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        model = None
        if status == 'unknown':
            status2 = self._cvc5(list(st.pc) + [z3.Not(g)], timeout or self.timeout)
            if status2:
                status, backend = status2, 'cvc5'
        if status == 'refuted':
            if s is not None and r == z3.sat:
                model = s.model()
                detail = (detail + ' counterexample: ' + ', '.join(f'{d} = {model[d]}' for d in list(model.decls())[:40] if d.arity() == 0))[:1500]
            if not self.exact:
                status = 'unknown'
                detail = 'not proved (inexact model); ' + detail
        self.obligations.append(Obligation(name, status, backend, time.time() - t, detail, model))
        if self.mode == 'path':
            self.proved[key] = (status == 'proved', g, st.pc)
        return status == 'proved'

    def _cvc5(self, fs, timeout):
        try:
            import subprocess
            s = z3.Solver()
            for f in self.axioms + fs:
                if isinstance(f, bool):
                    f = z3.BoolVal(f)
                s.add(f)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            t = time.time()
            r = subprocess.run(['cvc5', '--lang', 'smt2', '--strings-exp', f'--tlimit={timeout}'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
            self.solver_s += time.time() - t
            out = r.stdout.strip().splitlines()
            if out and out[0] == 'unsat':
                return 'proved'
        except Exception:
            pass
        return None

    def cover(self, name, st, cond=True):
        """Vacuity guard: the state must be reachable."""
        if st is None:
            self.obligations.append(Obligation('cover: ' + name, 'unknown', '', 0.0, 'not reachable'))
            return False
        r, _ = self._check(list(st.pc) + [cond], 800)
        if r == z3.unknown:
            return None
        ok = r == z3.sat
        self.obligations.append(Obligation('cover: ' + name, 'proved' if ok else 'unknown', 'z3 ' + z3.get_version_string(), 0.0,
                                           '' if ok else 'not reachable'))
        return ok

    def no_raise(self, name, raised, allowed=()):
        """Obligation: none of the exceptional ends (except of the allowed classes) is reachable."""
        bad = []
        for s, exc in raised:
            for g, e in alts(exc):
                c = self.class_of(s, e)
                if not any(self.subclass(s, c, a) for a in allowed):
                    bad.append((And(*s.pc, g), c, e, s))
        if not bad:
            self.obligations.append(Obligation(name, 'proved', 'simplifier'))
            return True
        what = sorted({str(getattr(c, '__name__', None) or s.get(c).meta['name']) + str(s.get(e).f.get('args', '')) for _, c, e, s in bad})
        st = State()
        st.assume(Or(*[b[0] for b in bad]))
        return self.prove(name, st, False, detail='may raise ' + ', '.join(what)[:300])

    # ------------------------------------------------------------ choice in path mode
    def choose(self, n):
        """Nondeterministic choice (path mode)."""
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos][0]
        else:
            d = 0
            self.decisions.append([0, n])
        self.dpos += 1
        return d

    def explore(self, fn, max_paths=200000):
        """Run fn once per path (path mode)."""
        self.decisions = []
        paths = 0
        fresh0 = self.fresh_n
        while True:
            self.dpos = 0
            self.fresh_n = fresh0  # equal prefixes of paths give equal terms
            try:
                fn()
            except Dead:
                pass
            paths += 1
            if paths > max_paths:
                raise Unsupported('too many paths')
            while self.decisions and self.decisions[-1][0] + 1 >= self.decisions[-1][1]:
                self.decisions.pop()
            if not self.decisions:
                return paths
            self.decisions[-1][0] += 1

    # ------------------------------------------------------------ branching
    def branch(self, st, cond, f_then, f_else):
        """Execute both sides on forks of st, join into st, and return the joined value."""
        c = self.known(st, cond)
        if c is True:
            return f_then(st)
        if c is False:
            return f_else(st)
        if self.mode == 'path':
            if self.choose(2) == 0:
                st.assume(c)
                return f_then(st)
            st.assume(Not(c))
            return f_else(st)
        return self.split(st, [(c, f_then), (Not(c), f_else)])

    def split(self, st, cases):
        """cases: exclusive and exhaustive (guard, fn(state) -> value)."""
        out = []
        if self.mode == 'path':
            live = [(g, fn) for g, fn in cases if g is not False and (g is True or self.feasible(st, g))]
            if not live:
                raise Dead()
            g, fn = live[self.choose(len(live)) if len(live) > 1 else 0]
            if g is not True:
                st.assume(g)
            return fn(st)
        for g, fn in cases:
            if g is False:
                continue
            if g is not True and not self.feasible(st, g):
                continue
            s = st.fork(g)
            try:
                v = fn(s)
            except Dead:
                continue
            out.append((s, v))
        if not out:
            raise Dead()
        m, guards = merge([s for s, _ in out])
        st.assign(m)
        if len(out) == 1:
            return out[0][1]
        val = out[-1][1]
        for (s, v), g in reversed(list(zip(out[:-1], guards[:-1]))):
            val = ite(g, v, val)
        return val

    def lift(self, st, v, fn):
        """Apply fn(state, value) to each alternative of a value."""
        if not isinstance(v, Union):
            return fn(st, v)
        live = [(g, x) for g, x in v.alts if self.feasible(st, g)]
        if len(live) == 1:
            return fn(st, live[0][1])
        return self.split(st, [(g, (lambda s, x=x: fn(s, x))) for g, x in live])

    def narrow(self, st, v):
        if not isinstance(v, Union):
            return v
        live = [(g, x) for g, x in v.alts if self.feasible(st, g)]
        if len(live) == 1:
            return live[0][1]
        return Union(live)

    # ------------------------------------------------------------ exceptions
    def raise_(self, st, exc):
        """Definite raise."""
        if not self.sinks:
            raise Unsupported(f'uncaught exception {exc!r} outside of a run')
        self.sinks[-1].append((st.fork(), exc))
        st.dead = True
        raise Dead()

    def raise_new(self, st, cls, *args):
        self.raise_(st, self.new_exc(st, cls, *args))

    def new_exc(self, st, cls, *args):
        return st.alloc(Obj('inst', {'args': tuple(args)}, cls))

    def raise_if(self, st, cond, cls, *args):
        """The operation raises if cond."""
        c = self.known(st, cond)
        if c is False:
            return
        if c is True:
            self.raise_new(st, cls, *args)
        if self.mode == 'path':
            if self.choose(2) == 0:
                st.assume(Not(c))
                return
            st.assume(c)
            self.raise_new(st, cls, *args)
        s = st.fork(c)
        self.sinks[-1].append((s, self.new_exc(s, cls, *args)))
        st.assume(Not(c))

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.src, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
            if not os.path.exists(path):
                path = None
        else:
            path += '.py'
            if not os.path.exists(path):
                return None
        st = self.global_state
        env = st.alloc(Obj('env', {'__name__': name}, None))
        mod = self.modules[name] = ModuleVal(name, env)
        if path:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
            mode, self.mode = self.mode, 'merge'
            try:
                self.sinks.append([])
                self.run_body(st, tree.body, env, mod)
                if self.sinks.pop():
                    raise Unsupported(f'module {name} may fail to load')
            except Dead:
                raise Unsupported(f'module {name} fails to load')
            finally:
                self.mode = mode
        return mod

    @property
    def global_state(self):
        if not hasattr(self, '_gst'):
            self._gst = State()
        return self._gst

    def start(self):
        """A fresh state that has the loaded modules."""
        return self.global_state.fork()

    def get_global(self, modname, *names):
        mod = self.module(modname)
        if mod is None:
            raise Unsupported(f'module {modname} does not exist')
        st = self.global_state
        v = st.get(mod.env).f.get(names[0])
        for n in names[1:]:
            v = self.class_lookup(st, v, n)
        if v is None:
            raise Unsupported(f'{modname}.{".".join(names)} does not exist')
        return v

    # ------------------------------------------------------------ statements
    def run_body(self, st, body, env, mod):
        for s in body:
            self.stmt(st, s, env, mod)

    def stmt(self, st, n, env, mod):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('too many steps')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('out of time')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__} (line {n.lineno})')
        m(st, n, env, mod)

    def s_Expr(self, st, n, env, mod):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Yield):
            v = None if n.value.value is None else self.ev(st, n.value.value, env, mod)
            self.do_yield(st, env, v)
            return
        self.ev(st, n.value, env, mod)

    def do_yield(self, st, env, v):
        e = env
        while True:
            o = st.get(e)
            if '%yield' in o.f:
                break
            raise Unsupported('yield')
        lst = o.f['%yield']
        lo = st.edit(lst)
        lo.x = lo.x + (item(v),)

    def s_Pass(self, st, n, env, mod):
        pass

    def s_Import(self, st, n, env, mod):
        for a in n.names:
            name = a.name if a.asname else a.name.split('.')[0]
            self.set_name(st, env, a.asname or name, self.import_module(a.name if a.asname else name, full=a.name))

    def import_module(self, name, full=None):
        if full and full != name:
            self.import_module(full)
        if name in self.libs:
            return ModuleVal(name, None)
        m = self.module(name)
        if m is not None:
            return m
        return ModuleVal(name, None)

    def s_ImportFrom(self, st, n, env, mod):
        name = n.module
        if name == '__future__':
            return
        m = None if name in self.libs else self.module(name)
        for a in n.names:
            if a.name == '*':
                if m is None:
                    raise Unsupported(f'from {name} import *')
                f = self.global_state.get(m.env).f
                all_ = f.get('__all__')
                names = [i[2] for i in self.global_state.get(all_).x] if all_ is not None else [k for k in f if not k.startswith('_')]
                for k in names:
                    self.set_name(st, env, k, f[k])
                # objects of the module may be newer than the state
                self._sync(st)
                continue
            if m is not None:
                f = self.global_state.get(m.env).f
                if a.name in f:
                    v = f[a.name]
                else:
                    v = self.module(f'{name}.{a.name}')
                    if v is None:
                        raise Unsupported(f'from {name} import {a.name}')
                self._sync(st)
            else:
                v = self.lib_attr(name, a.name)
            self.set_name(st, env, a.asname or a.name, v)

    def _sync(self, st):
        g = self.global_state
        if st is not g:
            for k, o in g.heap.items():
                if k not in st.heap:
                    st.heap[k] = o

    def lib_attr(self, modname, name):
        lib = self.libs.get(modname)
        if lib is not None and name in lib:
            return lib[name]
        if f'{modname}.{name}' in self.libs:
            return ModuleVal(f'{modname}.{name}', None)
        # host object
        import importlib
        try:
            m = importlib.import_module(modname)
        except Exception:
            try:
                parent, _, last = modname.rpartition('.')
                m = getattr(importlib.import_module(parent), last)
            except Exception:
                return Native(f'{modname}.{name}', self._unsupported_lib(f'{modname}.{name}'))
        try:
            v = getattr(m, name)
        except AttributeError:
            try:
                importlib.import_module(f'{modname}.{name}')
                return ModuleVal(f'{modname}.{name}', None)
            except Exception:
                raise Unsupported(f'{modname}.{name}')
        import types
        if isinstance(v, types.ModuleType):
            return ModuleVal(v.__name__ if modname != 'os' or name != 'path' else 'os.path', None)
        return v

    def _unsupported_lib(self, what):

        def f(eng, st, args, kwargs):
            raise Unsupported(f'library function {what}')

        return f

    def s_FunctionDef(self, st, n, env, mod):
        self.set_name(st, env, n.name, self.make_func(st, n, env, mod))

    def make_func(self, st, n, env, mod, cls=None):
        o = st.get(env)
        prefix = o.meta if isinstance(o.meta, str) else mod.name
        defaults = tuple(self.ev(st, d, env, mod) for d in n.args.defaults)
        kwd = {a.arg: self.ev(st, d, env, mod) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        name = getattr(n, 'name', '<lambda>')
        f = FuncVal(n, env, f'{prefix}.{name}', mod, cls, defaults, kwd)
        v = f
        for d in reversed(getattr(n, 'decorator_list', [])):
            if isinstance(d, ast.Name) and d.id == 'property':
                v = PropVal(f)
            elif isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
                v = StaticVal(f, d.id)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = self.ev(st, d.value, env, mod)
                v = PropVal(old.fget, f)
            elif isinstance(d, ast.Name) and d.id == 'abstractmethod':
                pass
            else:
                raise Unsupported(f'decorator {ast.unparse(d)}')
        return v

    def s_ClassDef(self, st, n, env, mod):
        bases = [self.ev(st, b, env, mod) for b in n.bases]
        o = st.get(env)
        prefix = o.meta if isinstance(o.meta, str) else mod.name
        qual = f'{prefix}.{n.name}'
        ref = st.alloc(Obj('class', {}, {'name': n.name, 'qual': qual, 'bases': tuple(bases)}))
        cenv = st.alloc(Obj('env', {'%parent': env, '%class': ref}, qual))
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                v = self.make_func(st, s, cenv, mod, cls=ref)
                st.edit(cenv).f[s.name] = v
            else:
                self.stmt(st, s, cenv, mod)
        f = {k: v for k, v in st.get(cenv).f.items() if not k.startswith('%')}
        st.edit(ref).f = f
        self.set_name(st, env, n.name, ref)

    def s_Assign(self, st, n, env, mod):
        v = self.ev(st, n.value, env, mod)
        for t in n.targets:
            self.assign(st, t, v, env, mod)

    def s_AnnAssign(self, st, n, env, mod):
        if n.value is not None:
            self.assign(st, n.target, self.ev(st, n.value, env, mod), env, mod)

    def s_AugAssign(self, st, n, env, mod):
        if isinstance(n.target, ast.Name):
            old = self.ev(st, ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), env, mod)
            v = self.augop(st, n.op, old, self.ev(st, n.value, env, mod))
            self.set_name(st, env, n.target.id, v)
        elif isinstance(n.target, ast.Attribute):
            obj = self.ev(st, n.target.value, env, mod)
            old = self.getattr(st, obj, n.target.attr)
            v = self.augop(st, n.op, old, self.ev(st, n.value, env, mod))
            self.setattr(st, obj, n.target.attr, v)
        else:
            obj = self.ev(st, n.target.value, env, mod)
            key = self.ev(st, n.target.slice, env, mod)
            old = self.getitem(st, obj, key)
            v = self.augop(st, n.op, old, self.ev(st, n.value, env, mod))
            self.setitem(st, obj, key, v)

    def augop(self, st, op, old, new):
        if isinstance(op, ast.Add) and isinstance(old, Ref) and st.get(old).kind == 'list':
            self.call_method(st, old, 'extend', [new])
            return old
        return self.binop(st, op, old, new)

    def assign(self, st, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.set_name(st, env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(st, t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(st, t.value, env, mod)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(st, obj, self.ev(st, t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(st, e, x, env, mod)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def unpack(self, st, v, n):
        v = self.narrow(st, v)
        if isinstance(v, Union):
            return list(self.lift(st, v, lambda s, x: tuple(self.unpack(s, x, n))))
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_new(st, ValueError, 'unpack')
            return list(v)
        if isinstance(v, Ref) and st.get(v).kind == 'list':
            its = st.get(v).x
            if all(k == 'i' and g is True for k, g, _ in its):
                if len(its) != n:
                    self.raise_new(st, ValueError, 'unpack')
                return [x for _, _, x in its]
            hook = getattr(self, 'unpack_hook', None)
            if hook:
                r = hook(self, st, v, n)
                if r is not None:
                    return r
            if len(its) == 1 and its[0][0] == 's':
                t = its[0][2]
                self.raise_if(st, z3.Length(t) != n, ValueError, 'unpack')
                return [t[i] for i in range(n)]
        if v is None or isinstance(v, (int, bool)):
            self.raise_new(st, TypeError, 'cannot unpack')
        raise Unsupported(f'unpacking {v!r}')

    def s_Delete(self, st, n, env, mod):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                obj = self.ev(st, t.value, env, mod)
                key = self.ev(st, t.slice, env, mod)
                self.delitem(st, obj, key)
            elif isinstance(t, ast.Name):
                st.edit(env).f[t.id] = UNBOUND
            elif isinstance(t, ast.Attribute):
                obj = self.ev(st, t.value, env, mod)
                st.edit(obj).f.pop(t.attr, None)
            else:
                raise Unsupported('del')

    def s_Return(self, st, n, env, mod):
        v = None if n.value is None else self.ev(st, n.value, env, mod)
        self.ret_sinks[-1].append((st.fork(), v))
        st.dead = True
        raise Dead()

    def s_Break(self, st, n, env, mod):
        self.loop_sinks[-1][0].append(st.fork())
        raise Dead()

    def s_Continue(self, st, n, env, mod):
        self.loop_sinks[-1][1].append(st.fork())
        raise Dead()

    def s_Raise(self, st, n, env, mod):
        if n.exc is None:
            cur = self.handling[-1] if getattr(self, 'handling', None) else None
            if cur is None:
                raise Unsupported('bare raise')
            self.raise_(st, cur)
        e = self.ev(st, n.exc, env, mod)
        if n.cause is not None:
            self.ev(st, n.cause, env, mod)
        if self.is_class(e) or isinstance(e, type):
            e = self.call(st, e, [], {})
        self.raise_(st, e)

    def s_Assert(self, st, n, env, mod):
        c = self.truth(st, self.ev(st, n.test, env, mod))
        self.raise_if(st, Not(c), AssertionError)

    def s_Global(self, st, n, env, mod):
        o = st.edit(env)
        o.f['%global'] = tuple(set(o.f.get('%global', ())) | set(n.names))

    def s_Nonlocal(self, st, n, env, mod):
        o = st.edit(env)
        o.f['%nonlocal'] = tuple(set(o.f.get('%nonlocal', ())) | set(n.names))

    def s_If(self, st, n, env, mod):
        c = self.truth(st, self.ev(st, n.test, env, mod))
        self.branch(st, c, lambda s: self.run_body(s, n.body, env, mod), lambda s: self.run_body(s, n.orelse, env, mod))

    def s_Try(self, st, n, env, mod):
        if n.finalbody:
            return self._try_finally(st, n, env, mod)
        self._try_except(st, n, env, mod)

    def _try_except(self, st, n, env, mod):
        self.sinks.append([])
        alive = True
        try:
            self.run_body(st, n.body, env, mod)
        except Dead:
            alive = False
        finally:
            raised = self.sinks.pop()
        outs = []
        if alive and n.orelse:
            try:
                self.run_body(st, n.orelse, env, mod)
            except Dead:
                alive = False
        if alive:
            outs.append(st.fork())
        for s, exc in raised:
            try:
                self.handle(s, exc, n.handlers, env, mod)
                outs.append(s)
            except Dead:
                pass
        if not outs:
            raise Dead()
        m, _ = merge(outs)
        st.assign(m)

    def handle(self, s, exc, handlers, env, mod):
        if isinstance(exc, Union):
            return self.lift(s, exc, lambda x, e: self.handle(x, e, handlers, env, mod))
        cls = self.class_of(s, exc)
        for h in handlers:
            if h.type is not None:
                t = self.ev(s, h.type, env, mod)
                ts = t if isinstance(t, tuple) else (t,)
                if not any(self.subclass(s, cls, x) for x in ts):
                    continue
            if h.name:
                self.set_name(s, env, h.name, exc)
            if not hasattr(self, 'handling'):
                self.handling = []
            self.handling.append(exc)
            try:
                self.run_body(s, h.body, env, mod)
            finally:
                self.handling.pop()
            return
        self.sinks[-1].append((s.fork(), exc))
        raise Dead()

    def _try_finally(self, st, n, env, mod):
        self.with_finally(st, lambda s: self._try_except(s, n, env, mod), lambda s: self.run_body(s, n.finalbody, env, mod))

    def with_finally(self, st, body, final):
        self.sinks.append([])
        self.ret_sinks.append([])
        self.loop_sinks.append(([], []))
        alive = True
        try:
            body(st)
        except Dead:
            alive = False
        finally:
            raised, rets, (brk, cont) = self.sinks.pop(), self.ret_sinks.pop(), self.loop_sinks.pop()
        def fin(s):
            try:
                final(s)
                return True
            except Dead:
                return False
        for s, e in raised:
            if fin(s):
                self.sinks[-1].append((s, e))
        for s, v in rets:
            if fin(s):
                self.ret_sinks[-1].append((s, v))
        for s in brk:
            if fin(s):
                self.loop_sinks[-1][0].append(s)
        for s in cont:
            if fin(s):
                self.loop_sinks[-1][1].append(s)
        if not alive:
            raise Dead()
        final(st)

    def s_With(self, st, n, env, mod, i=0):
        if i >= len(n.items):
            return self.run_body(st, n.body, env, mod)
        it = n.items[i]
        cm = self.ev(st, it.context_expr, env, mod)
        cm = self.narrow(st, cm)
        v = self.enter(st, cm)
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, v, env, mod)
        self.with_finally(st, lambda s: self.s_With(s, n, env, mod, i + 1), lambda s: self.exit(s, cm))

    def enter(self, st, cm):
        if isinstance(cm, Ref):
            o = st.get(cm)
            m = self.libs['%methods'].get((o.kind, '__enter__'))
            if m:
                return m(self, st, cm, [], {})
            if o.kind == 'inst':
                return self.call(st, self.getattr(st, cm, '__enter__'), [], {})
        raise Unsupported(f'with {cm!r}')

    def exit(self, st, cm):
        o = st.get(cm)
        m = self.libs['%methods'].get((o.kind, '__exit__'))
        if m:
            m(self, st, cm, [], {})
            return
        if o.kind == 'inst':
            self.call(st, self.getattr(st, cm, '__exit__'), [None, None, None], {})
            return
        raise Unsupported('with')

    # ------------------------------------------------------------ loops
    def s_While(self, st, n, env, mod):
        for h in self.while_hooks:
            if h(self, st, n, env, mod):
                return
        exits = []
        for rounds in range(2000):
            c = self.truth(st, self.ev(st, n.test, env, mod))
            c = self.known(st, c)
            if c is False:
                break
            if c is not True:
                if self.mode == 'path':
                    if self.choose(2) == 1:
                        st.assume(Not(c))
                        break
                    st.assume(c)
                    if rounds > 12:
                        raise Unsupported(f'loop without contract in {self.where(n)}')
                else:
                    exits.append(st.fork(Not(c)))
                    st.assume(c)
                    if rounds > 8:
                        raise Unsupported(f'loop without contract in {self.where(n)}')
            alive, brk = self.loop_body(st, n.body, env, mod)
            exits += brk
            if not alive:
                if not exits:
                    raise Dead()
                m, _ = merge(exits)
                st.assign(m)
                if n.orelse:
                    raise Unsupported('while-else')
                return
        else:
            raise Unsupported('loop does not end')
        if n.orelse:
            self.run_body(st, n.orelse, env, mod)
        if exits:
            m, _ = merge([st.fork()] + exits)
            st.assign(m)

    def where(self, n):
        return f'{self.cur_func[-1] if self.cur_func else "module"}, line {n.lineno}'

    def loop_body(self, st, body, env, mod):
        """One iteration; returns (alive, states of break)."""
        self.loop_sinks.append(([], []))
        alive = True
        try:
            self.run_body(st, body, env, mod)
        except Dead:
            alive = False
        finally:
            brk, cont = self.loop_sinks.pop()
        if cont:
            m, _ = merge(([st.fork()] if alive else []) + cont)
            st.assign(m)
            st.dead = False
            alive = True
        return alive, brk

    def s_For(self, st, n, env, mod):
        it = self.narrow(st, self.ev(st, n.iter, env, mod))
        if isinstance(it, Union):
            self.lift(st, it, lambda s, x: self.for_over(s, n, x, env, mod))
            return
        self.for_over(st, n, it, env, mod)

    def for_over(self, st, n, it, env, mod):
        for h in self.loop_hooks:
            if h(self, st, n, it, env, mod):
                return
        items = self.items(st, it)
        breaks = []
        for pos, (k, g, v) in enumerate(items):
            if k == 's':
                raise Unsupported(f'loop without contract over a symbolic list in {self.where(n)}')
            def one(s):
                self.assign(s, n.target, v, env, mod)
                alive, brk = self.loop_body(s, n.body, env, mod)
                breaks.extend(brk)
                if not alive:
                    raise Dead()
            try:
                if g is True:
                    one(st)
                else:
                    self.branch(st, g, one, lambda s: None)
            except Dead:
                if not breaks:
                    raise
                m, _ = merge(breaks)
                st.assign(m)
                return
        if n.orelse:
            self.run_body(st, n.orelse, env, mod)
        if breaks:
            m, _ = merge([st.fork()] + breaks)
            st.assign(m)

    def items(self, st, it):
        """Elements of an iterable as list items."""
        it = self.narrow(st, it)
        if isinstance(it, (tuple, list)):
            return [item(v) for v in it]
        if isinstance(it, (range, str, bytes, frozenset, enumerate)):
            return [item(v) for v in it]
        if isinstance(it, Ref):
            o = st.get(it)
            if o.kind in ('list', 'set', 'iter'):
                return list(o.x)
            if o.kind == 'dict':
                if o.x.base is not None:
                    h = getattr(o.x.base, 'iterate', None)
                    if h:
                        return h(self, st, it)
                    raise Unsupported('iteration over a symbolic map')
                return self.dict_items(o, lambda k, v: k)
            m = self.libs['%methods'].get((o.kind, '__iter__'))
            if m:
                return m(self, st, it, [], {})
        if it is None or isinstance(it, (bool, int)):
            self.raise_new(st, TypeError, 'not iterable')
        raise Unsupported(f'iteration over {it!r}')

    def dict_items(self, o, f):
        out = []
        for n, (g, k, v) in enumerate(o.x.ups):
            later = [u for u in o.x.ups[n + 1:] if same(u[1], k)]
            if later or any(is_z3(u[1]) or is_z3(k) for u in o.x.ups if u[1] is not k):
                raise Unsupported('order of a dictionary with conditional entries')
            if v is UNBOUND:
                continue
            if isinstance(v, Union) and any(x is UNBOUND for _, x in v.alts):
                present = Or(*[h for h, x in v.alts if x is not UNBOUND])
                val = make_union([(h, x) for h, x in v.alts if x is not UNBOUND])
                out.append(item(f(k, val), And(g, present)))
            else:
                out.append(item(f(k, v), g))
        return out

    # ------------------------------------------------------------ names
    def set_name(self, st, env, name, v):
        o = st.get(env)
        if '%global' in o.f and name in o.f['%global']:
            e = env
            while '%parent' in st.get(e).f:
                e = st.get(e).f['%parent']
            st.edit(e).f[name] = v
            return
        if '%nonlocal' in o.f and name in o.f['%nonlocal']:
            e = o.f['%parent']
            while name not in st.get(e).f:
                e = st.get(e).f['%parent']
            st.edit(e).f[name] = v
            return
        st.edit(env).f[name] = v

    def lookup(self, st, name, env):
        e = env
        first = True
        while e is not None:
            o = st.heap.get(e.oid)
            if o is None:
                self._sync(st)
                o = st.get(e)
            if name in o.f and (first or '%class' not in o.f):
                v = o.f[name]
                if v is HAVOC:
                    raise Unsupported(f'value of {name} after a loop')
                if v is UNBOUND:
                    self.raise_new(st, UnboundLocalError, name)
                if isinstance(v, Union) and any(x is UNBOUND for _, x in v.alts):
                    bad = Or(*[g for g, x in v.alts if x is UNBOUND])
                    self.raise_if(st, bad, UnboundLocalError, name)
                    v = make_union([(g, x) for g, x in v.alts if x is not UNBOUND])
                if isinstance(v, Union) and any(x is HAVOC for _, x in v.alts):
                    raise Unsupported(f'value of {name} after a loop')
                return v
            e = o.f.get('%parent')
            first = False
        if name in self.libs['builtins']:
            return self.libs['builtins'][name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_new(st, NameError, name)

    # ------------------------------------------------------------ expressions
    def ev(self, st, n, env, mod):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__} (line {n.lineno})')
        return m(st, n, env, mod)

    def e_Constant(self, st, n, env, mod):
        return n.value

    def e_Name(self, st, n, env, mod):
        return self.lookup(st, n.id, env)

    def e_Tuple(self, st, n, env, mod):
        return tuple(self.ev(st, e, env, mod) for e in n.elts)

    def e_List(self, st, n, env, mod):
        its = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                its += self.items(st, self.ev(st, e.value, env, mod))
            else:
                its.append(item(self.ev(st, e, env, mod)))
        return st.alloc(Obj('list', x=tuple(its)))

    def e_Set(self, st, n, env, mod):
        vals = [self.ev(st, e, env, mod) for e in n.elts]
        if any(is_z3(v) or isinstance(v, (Union, Ref)) for v in vals):
            raise Unsupported('set of symbolic values')
        return st.alloc(Obj('set', x=tuple(item(v) for v in dict.fromkeys(vals))))

    def e_Dict(self, st, n, env, mod):
        s = Store()
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(st, v, env, mod)
                for g, kk, vv in st.get(d).x.ups:
                    s = s.put(kk, vv, g)
                continue
            kk = self.ev(st, k, env, mod)
            s = s.put(kk, self.ev(st, v, env, mod))
        return st.alloc(Obj('dict', x=s))

    def e_JoinedStr(self, st, n, env, mod):
        out = ''
        for p in n.values:
            if isinstance(p, ast.Constant):
                v = p.value
            else:
                v = self.ev(st, p.value, env, mod)
                if p.conversion not in (-1, 115):
                    raise Unsupported('conversion in f-string')
                if p.format_spec is not None:
                    spec = self.ev(st, p.format_spec, env, mod)
                    v = self.libs['%format'](self, st, v, spec)
                else:
                    v = self.to_str(st, v)
            out = self.concat(st, out, v)
        return out

    def e_FormattedValue(self, st, n, env, mod):
        return self.to_str(st, self.ev(st, n.value, env, mod))

    def concat(self, st, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, str) and a == '':
            return b
        if isinstance(b, str) and b == '':
            return a
        if isinstance(a, Union) or isinstance(b, Union):
            return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.concat(s2, x, y)))
        ta, tb = term(a), term(b)
        if ta is None or tb is None or ta.sort() != z3.StringSort() or tb.sort() != z3.StringSort():
            raise Unsupported(f'concatenation of {a!r} and {b!r}')
        return z3.Concat(ta, tb)

    def to_str(self, st, v):
        return self.libs['%str'](self, st, v)

    def e_Attribute(self, st, n, env, mod):
        return self.getattr(st, self.ev(st, n.value, env, mod), n.attr)

    def e_Subscript(self, st, n, env, mod):
        obj = self.ev(st, n.value, env, mod)
        if isinstance(n.slice, ast.Slice):
            lo = None if n.slice.lower is None else self.ev(st, n.slice.lower, env, mod)
            hi = None if n.slice.upper is None else self.ev(st, n.slice.upper, env, mod)
            step = None if n.slice.step is None else self.ev(st, n.slice.step, env, mod)
            return self.lift(st, obj, lambda s, x: self.libs['%slice'](self, s, x, lo, hi, step))
        return self.getitem(st, obj, self.ev(st, n.slice, env, mod))

    def e_IfExp(self, st, n, env, mod):
        c = self.truth(st, self.ev(st, n.test, env, mod))
        return self.branch(st, c, lambda s: self.ev(s, n.body, env, mod), lambda s: self.ev(s, n.orelse, env, mod))

    def e_BoolOp(self, st, n, env, mod):
        isand = isinstance(n.op, ast.And)

        def go(s, i):
            v = self.ev(s, n.values[i], env, mod)
            if i == len(n.values) - 1:
                return v
            t = self.truth(s, v)
            if isand:
                return self.branch(s, t, lambda x: go(x, i + 1), lambda x: self.restrict(x, v))
            return self.branch(s, t, lambda x: self.restrict(x, v), lambda x: go(x, i + 1))

        return go(st, 0)

    def restrict(self, st, v):
        if is_z3(v) and z3.is_bool(v):
            k = self.known(st, v)
            return k
        return self.narrow(st, v)

    def e_UnaryOp(self, st, n, env, mod):
        v = self.ev(st, n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(st, v))
        if isinstance(n.op, ast.USub):
            return self.lift(st, v, lambda s, x: -x)
        raise Unsupported('unary operator')

    def e_BinOp(self, st, n, env, mod):
        a = self.ev(st, n.left, env, mod)
        b = self.ev(st, n.right, env, mod)
        return self.binop(st, n.op, a, b)

    def binop(self, st, op, a, b):
        if isinstance(a, Union) or isinstance(b, Union):
            return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.binop(s2, op, x, y)))
        return self.libs['%binop'](self, st, op, a, b)

    def e_Compare(self, st, n, env, mod):
        left = self.ev(st, n.left, env, mod)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(st, r, env, mod)
            res = And(res, self.compare(st, op, left, right))
            left = right
        return res

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(st, a, b))
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(st, a, b))
        if isinstance(op, ast.In):
            return self.contains(st, b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(st, b, a))
        if isinstance(a, Union) or isinstance(b, Union):
            return self.lift(st, a, lambda s, x: self.lift(s, b, lambda s2, y: self.compare(s2, op, x, y)))
        return self.libs['%order'](self, st, op, a, b)

    def is_(self, st, a, b):
        if isinstance(a, Union):
            return Or(*[And(g, self.is_(st, x, b)) for g, x in a.alts])
        if isinstance(b, Union):
            return Or(*[And(g, self.is_(st, a, x)) for g, x in b.alts])
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if kind(a) == kind(b) == 'bool':
            return self.eq(st, a, b)
        if isinstance(a, type) and isinstance(b, type):
            return a is b
        if kind(a) != kind(b):
            return False
        if kind(a) in ('str', 'int'):
            raise Unsupported('identity of scalars')
        return a is b

    def eq(self, st, a, b):
        if isinstance(a, Union):
            return Or(*[And(g, self.eq(st, x, b)) for g, x in a.alts])
        if isinstance(b, Union):
            return Or(*[And(g, self.eq(st, a, x)) for g, x in b.alts])
        if a is UNBOUND or b is UNBOUND or a is HAVOC or b is HAVOC:
            return a is b
        return self.libs['%eq'](self, st, a, b)

    def contains(self, st, coll, x):
        if isinstance(coll, Union):
            return self.lift(st, coll, lambda s, c: self.contains(s, c, x))
        return self.libs['%contains'](self, st, coll, x)

    def e_Call(self, st, n, env, mod):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.make_super(st, env)
        f = self.ev(st, n.func, env, mod)
        args = []
        if self.loop_hooks and isinstance(n.func, ast.Name) and n.func.id in ('all', 'any', 'sum') and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and f is getattr(builtins, n.func.id):
            saved = st.fork(), list(self.obligations), self.exact
            try:
                return self.call(st, f, [self.ev(st, n.args[0], env, mod)], {})
            except Unsupported:
                st.assign(saved[0])
                self.obligations[:], self.exact = saved[1], saved[2]
                return self.reduction(st, n, env, mod)
        for a in n.args:
            if isinstance(a, ast.Starred):
                its = self.items(st, self.ev(st, a.value, env, mod))
                for k, g, v in its:
                    if k != 'i' or g is not True:
                        raise Unsupported('starred symbolic list')
                    args.append(v)
            else:
                args.append(self.ev(st, a, env, mod))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(st, k.value, env, mod)
            if k.arg is None:
                o = st.get(v)
                if o.kind != 'dict':
                    raise Unsupported('**')
                if o.x.base is not None:
                    kwargs['**'] = v
                    continue
                for _, g, kv in self.dict_items(o, lambda a, b: (a, b)):
                    if g is not True:
                        raise Unsupported('** with conditional entries')
                    kwargs[kv[0]] = kv[1]
            else:
                kwargs[k.arg] = v
        self.call_node = n
        return self.call(st, f, args, kwargs)

    def make_super(self, st, env):
        e = env
        while e is not None:
            o = st.get(e)
            if '%func' in o.f:
                f = o.f['%func']
                if f.cls is not None:
                    first = f.node.args.args[0].arg
                    return Super(f.cls, o.f[first])
            e = o.f.get('%parent')
        raise Unsupported('super()')

    def e_Lambda(self, st, n, env, mod):
        return self.make_func(st, n, env, mod)

    def e_ListComp(self, st, n, env, mod):
        if self.loop_hooks:
            saved = st.fork(), list(self.obligations), self.exact
        try:
            return st.alloc(Obj('list', x=tuple(self.comp(st, n.generators, env, mod, lambda s, e: self.ev(s, n.elt, e, mod)))))
        except Unsupported as e:
            if not self.loop_hooks or 'symbolic' not in str(e) and 'iteration over' not in str(e):
                raise
            st.assign(saved[0])
            self.obligations[:], self.exact = saved[1], saved[2]
        acc = st.alloc(Obj('list', x=()))
        self.comp_loop(st, n, env, mod, acc, [ast.Expr(ast.Call(ast.Attribute(ast.Name('%acc', ast.Load()), 'append', ast.Load()), [n.elt], []))])
        return acc

    def comp_loop(self, st, n, env, mod, acc, body):
        """A comprehension as a loop, for the rules of loops."""
        cenv = st.alloc(Obj('env', {'%parent': env, '%acc': acc}, st.get(env).meta if isinstance(st.get(env).meta, str) else None))
        st.edit(cenv).f['%it'] = self.ev(st, n.generators[0].iter, env, mod)
        for i in range(len(n.generators) - 1, -1, -1):
            g = n.generators[i]
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            body = [ast.For(g.target, g.iter if i else ast.Name('%it', ast.Load()), body, [])]
        for b in body:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        self.run_body(st, body, cenv, mod)
        return cenv

    def reduction(self, st, n, env, mod):
        """all, any and sum of a generator expression over a symbolic list."""
        g = n.args[0]
        first, op = {'all': (True, None), 'any': (False, None), 'sum': (0, None)}[n.func.id]
        acc = ast.Name('%acc', ast.Store())
        if n.func.id == 'sum':
            body = [ast.AugAssign(acc, ast.Add(), g.elt)]
        else:
            t = g.elt if n.func.id == 'any' else ast.UnaryOp(ast.Not(), g.elt)
            body = [ast.If(t, [ast.Assign([acc], ast.Constant(n.func.id == 'any'))], [])]
        cenv = self.comp_loop(st, g, env, mod, first, body)
        return st.get(cenv).f['%acc']

    def e_GeneratorExp(self, st, n, env, mod):
        return self.e_ListComp(st, n, env, mod)

    def e_SetComp(self, st, n, env, mod):
        its = self.comp(st, n.generators, env, mod, lambda s, e: self.ev(s, n.elt, e, mod))
        if any(k != 'i' or g is not True or is_z3(v) for k, g, v in its):
            raise Unsupported('set comprehension')
        return st.alloc(Obj('set', x=tuple(item(v) for v in dict.fromkeys(v for _, _, v in its))))

    def e_DictComp(self, st, n, env, mod):
        its = self.comp(st, n.generators, env, mod, lambda s, e: (self.ev(s, n.key, e, mod), self.ev(s, n.value, e, mod)))
        s = Store()
        for _, g, kv in its:
            s = s.put(kv[0], kv[1], g)
        return st.alloc(Obj('dict', x=s))

    def comp(self, st, gens, env, mod, f):
        cenv = st.alloc(Obj('env', {'%parent': env}, st.get(env).meta if isinstance(st.get(env).meta, str) else None))
        out = []

        def go(s, i, guard):
            if i == len(gens):
                out.append(item(f(s, cenv), guard))
                return
            g = gens[i]
            its = self.items(s, self.ev(s, g.iter, env if i == 0 else cenv, mod))
            for k, h, v in its:
                if k != 'i':
                    raise Unsupported('comprehension over a symbolic list')
                self.assign(s, g.target, v, cenv, mod)
                cond = h
                for t in g.ifs:
                    cond = And(cond, self.truth(s, self.ev(s, t, cenv, mod)))
                cond = self.known(s, cond)
                if cond is False:
                    continue
                go(s, i + 1, And(guard, cond))

        go(st, 0, True)
        return out

    def e_NamedExpr(self, st, n, env, mod):
        v = self.ev(st, n.value, env, mod)
        self.set_name(st, env, n.target.id, v)
        return v

    def e_Starred(self, st, n, env, mod):
        raise Unsupported('starred expression')

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        if isinstance(v, Union):
            return Or(*[And(g, self.truth(st, x)) for g, x in v.alts if self.feasible(st, g)])
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
            if v.sort() == z3.StringSort():
                return v != z3.StringVal('')
            if v.sort().kind() == z3.Z3_SEQ_SORT:
                return z3.Length(v) > 0
            raise Unsupported(f'truth of {v}')
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('list', 'set', 'iter'):
                return Or(*[g if k == 'i' else And(g, z3.Length(x) > 0) for k, g, x in o.x])
            if o.kind == 'dict':
                if o.x.base is None:
                    its = self.dict_items(o, lambda k, v: k)
                    return Or(*[g for _, g, _ in its])
                if hasattr(o.x.base, 'truth'):
                    return o.x.base.truth(self, st, v)
                raise Unsupported('truth of a symbolic map')
            m = self.libs['%methods'].get((o.kind, '__bool__'))
            if m:
                return m(self, st, v, [], {})
            if o.kind == 'inst' and not isinstance(o.meta, type):
                for special in ('__bool__', '__len__'):
                    if self.class_lookup(st, o.meta, special) is not None:
                        raise Unsupported(special)
            return True
        if isinstance(v, (FuncVal, BoundMethod, Native, ModuleVal)):
            return True
        return bool(v)

    # ------------------------------------------------------------ classes
    def is_class(self, v, st=None):
        if isinstance(v, type):
            return True
        if isinstance(v, Ref):
            o = (st or self.global_state).heap.get(v.oid)
            return o is not None and o.kind == 'class'
        return False

    def mro(self, st, cls):
        if isinstance(cls, type):
            return list(cls.__mro__)
        bases = st.get(cls).meta['bases']
        seqs = [self.mro(st, b) for b in bases] + [list(bases)]
        out = [cls]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('mro')
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        if object not in out:
            out.append(object)
        return out

    def class_lookup(self, st, cls, name, after=None, missing=None):
        m = self.mro(st, cls)
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, type):
                if name in c.__dict__ and c is not object:
                    return ('host', c, name)
            else:
                f = st.get(c).f
                if name in f:
                    return f[name]
        return missing

    def class_of(self, st, v):
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'inst':
                return o.meta
            return {'list': list, 'dict': dict, 'set': set}.get(o.kind, object)
        k = kind(v)
        return {'none': type(None), 'bool': bool, 'int': int, 'str': str}.get(k) or type(v)

    def subclass(self, st, a, b):
        if isinstance(b, tuple):
            return any(self.subclass(st, a, x) for x in b)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        return b in self.mro(st, a)

    def isinstance_(self, st, v, cls):
        if isinstance(v, Union):
            return Or(*[And(g, self.isinstance_(st, x, cls)) for g, x in v.alts])
        return self.subclass(st, self.class_of(st, v), cls)

    # ------------------------------------------------------------ attributes
    def getattr(self, st, obj, name):
        for h in self.attr_hooks:
            r = h(self, st, obj, name)
            if r is not NotImplemented:
                return r
        if isinstance(obj, Union):
            return self.lift(st, obj, lambda s, x: self.getattr(s, x, name))
        if isinstance(obj, ModuleVal):
            if obj.env is not None:
                f = st.get(obj.env).f if obj.env.oid in st.heap else self.global_state.get(obj.env).f
                if name in f:
                    return f[name]
                m = self.module(f'{obj.name}.{name}')
                if m:
                    return m
            return self.lib_attr(obj.name, name)
        if isinstance(obj, Super):
            o = st.get(obj.obj) if isinstance(obj.obj, Ref) else None
            cls = o.meta if o is not None and o.kind == 'inst' else obj.obj
            v = self.class_lookup(st, cls, name, after=obj.cls, missing=UNBOUND)
            return self.bind(st, obj.obj, v, name)
        if isinstance(obj, Ref):
            o = st.get(obj)
            if o.kind == 'inst':
                if name in o.f:
                    v = o.f[name]
                    if v is HAVOC:
                        raise Unsupported(f'attribute {name} after a loop')
                    if v is not UNBOUND and not (isinstance(v, Union) and any(x is UNBOUND for _, x in v.alts)):
                        return v
                    if v is UNBOUND:
                        v = self.class_lookup(st, o.meta, name, missing=UNBOUND)
                        if v is UNBOUND:
                            self.raise_new(st, AttributeError, name)
                        return self.bind(st, obj, v, name)
                    cv = self.class_lookup(st, o.meta, name, missing=UNBOUND)
                    if cv is UNBOUND:
                        self.raise_if(st, Or(*[g for g, x in v.alts if x is UNBOUND]), AttributeError, name)
                        return make_union([(g, x) for g, x in v.alts if x is not UNBOUND])
                    return make_union([(g, cv if x is UNBOUND else x) for g, x in v.alts])
                if name == '__class__':
                    return o.meta
                v = self.class_lookup(st, o.meta, name, missing=UNBOUND)
                if v is UNBOUND:
                    m = self.libs['%attrs'].get(('inst', name))
                    if m:
                        return m(self, st, obj)
                    self.raise_new(st, AttributeError, name)
                return self.bind(st, obj, v, name)
            if o.kind == 'class':
                if name == '__name__':
                    return o.meta['name']
                v = self.class_lookup(st, obj, name, missing=UNBOUND)
                if v is UNBOUND:
                    self.raise_new(st, AttributeError, name)
                if isinstance(v, StaticVal):
                    return v.fn if v.kind == 'staticmethod' else BoundMethod(obj, v.fn)
                if isinstance(v, tuple) and v and v[0] == 'host':
                    return getattr(v[1], v[2])
                return v
            a = self.libs['%attrs'].get((o.kind, name))
            if a:
                return a(self, st, obj)
            m = self.libs['%methods'].get((o.kind, name))
            if m:
                return BoundMethod(obj, Native(f'{o.kind}.{name}', m))
            if o.kind in ('list', 'dict', 'set'):
                if hasattr({'list': list, 'dict': dict, 'set': set}[o.kind], name):
                    raise Unsupported(f'method {o.kind}.{name}')
            elif o.kind not in ('inst', 'class'):
                raise Unsupported(f'attribute {name} of a library object ({o.kind})')
            self.raise_new(st, AttributeError, name)
        k = kind(obj)
        if k == 'str':
            m = self.libs['%methods'].get(('str', name))
            if m:
                return BoundMethod(obj, Native(f'str.{name}', m))
            if isinstance(obj, str) and hasattr(obj, name):
                return getattr(obj, name)
            if hasattr('', name):
                return BoundMethod(obj, Native(f'str.{name}', lambda e, s, o, a, kw: self._str_unsupported(name)))
            self.raise_new(st, AttributeError, name)
        if obj is None or k in ('bool', 'int', 'none'):
            if k == 'int' and hasattr(0, name):
                raise Unsupported(f'int.{name}')
            self.raise_new(st, AttributeError, f'{obj!r}.{name}')
        if obj is UNBOUND:
            self.raise_new(st, AttributeError, name)
        if isinstance(obj, FuncVal):
            if name == '__name__':
                return obj.node.name
            raise Unsupported(f'function attribute {name}')
        if is_z3(obj):
            raise Unsupported(f'attribute {name} of {obj.sort()}')
        m = self.libs['%methods'].get((type(obj), name))
        if m:
            return BoundMethod(obj, Native(f'{type(obj).__name__}.{name}', m))
        if isinstance(obj, (tuple, PropVal)):
            m = self.libs['%methods'].get(('tuple', name))
            if m:
                return BoundMethod(obj, Native(f'tuple.{name}', m))
            raise Unsupported(f'attribute {name} of {obj!r}')
        try:
            return getattr(obj, name)
        except AttributeError:
            self.raise_new(st, AttributeError, name)

    def _str_unsupported(self, name):
        raise Unsupported(f'str.{name} of a symbolic string')

    def bind(self, st, obj, v, name):
        if isinstance(v, FuncVal):
            return BoundMethod(obj, v)
        if isinstance(v, PropVal):
            return self.call(st, v.fget, [obj], {})
        if isinstance(v, StaticVal):
            return v.fn if v.kind == 'staticmethod' else BoundMethod(self.class_of(st, obj), v.fn)
        if isinstance(v, Native):
            return BoundMethod(obj, Native(v.name, lambda e, s, o, a, k: v.fn(e, s, [o] + list(a), k)))
        if v is UNBOUND:
            if name == '__init__':
                return Native('object.__init__', lambda e, s, a, k: None)
            self.raise_new(st, AttributeError, name)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'host':
            m = self.libs['%methods'].get((v[1], name))
            if m:
                return BoundMethod(obj, Native(f'{v[1].__name__}.{name}', m))
            if isinstance(v[1], type) and issubclass(v[1], BaseException):
                return BoundMethod(obj, Native(f'exc.{name}', self.libs['%exc_method'](name)))
            if name in ('__init__',):
                return BoundMethod(obj, Native('host.__init__', self.libs['%host_init']))
            raise Unsupported(f'{v[1].__name__}.{name}')
        return v

    def setattr(self, st, obj, name, v):
        if isinstance(obj, Union):
            self.lift(st, obj, lambda s, x: self.setattr(s, x, name, v))
            return
        for h in getattr(self, 'setattr_hooks', []):
            if h(self, st, obj, name, v):
                return
        if isinstance(obj, Ref):
            o = st.get(obj)
            if o.kind == 'inst':
                if not isinstance(o.meta, type):
                    cv = self.class_lookup(st, o.meta, name)
                    if isinstance(cv, PropVal):
                        if cv.fset is None:
                            self.raise_new(st, AttributeError, name)
                        self.call(st, cv.fset, [obj, v], {})
                        return
                st.edit(obj).f[name] = v
                return
            if o.kind == 'class':
                st.edit(obj).f[name] = v
                return
            a = self.libs['%setattrs'].get((o.kind, name))
            if a:
                a(self, st, obj, v)
                return
        if obj is None or kind(obj) in ('str', 'int', 'bool'):
            self.raise_new(st, AttributeError, name)
        if isinstance(obj, ModuleVal) and obj.env is not None:
            st.edit(obj.env).f[name] = v
            return
        raise Unsupported(f'setting {name} of {obj!r}')

    # ------------------------------------------------------------ items
    def getitem(self, st, obj, key):
        if isinstance(obj, Union):
            return self.lift(st, obj, lambda s, x: self.getitem(s, x, key))
        return self.libs['%getitem'](self, st, obj, key)

    def setitem(self, st, obj, key, v):
        if isinstance(obj, Union):
            self.lift(st, obj, lambda s, x: self.setitem(s, x, key, v))
            return
        if isinstance(key, Union):
            self.lift(st, key, lambda s, x: self.setitem(s, obj, x, v))
            return
        self.libs['%setitem'](self, st, obj, key, v)

    def delitem(self, st, obj, key):
        if isinstance(obj, Union):
            self.lift(st, obj, lambda s, x: self.delitem(s, x, key))
            return
        self.libs['%delitem'](self, st, obj, key)

    def store_get(self, st, store, key):
        """Value of a map at a key (UNBOUND where absent)."""
        if isinstance(key, Union):
            return make_union([(And(g, h), v) for g, k in key.alts if self.feasible(st, g) for h, v in alts(self.store_get(st, store, k))])
        v = store.base.lookup(self, st, key) if store.base is not None else UNBOUND
        for g, k, x in store.ups:
            c = And(g, self.eq(st, k, key))
            if c is False:
                continue
            v = ite(c, x, v)
        return v

    # ------------------------------------------------------------ calls
    def call_method(self, st, obj, name, args, kwargs=None):
        return self.call(st, self.getattr(st, obj, name), args, kwargs or {})

    def call(self, st, f, args, kwargs):
        if isinstance(f, Union):
            return self.lift(st, f, lambda s, x: self.call(s, x, args, kwargs))
        if isinstance(f, BoundMethod):
            if isinstance(f.fn, Native):
                return f.fn.fn(self, st, f.self_, args, kwargs)
            if isinstance(f.fn, FuncVal):
                return self.call_func(st, f.fn, [f.self_] + list(args), kwargs)
            return self.call(st, f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Native):
            return f.fn(self, st, args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_func(st, f, args, kwargs)
        if isinstance(f, Ref) and st.get(f).kind == 'class':
            return self.instantiate(st, f, args, kwargs)
        if isinstance(f, Ref):
            o = st.get(f)
            m = self.libs['%methods'].get((o.kind, '__call__'))
            if m:
                return m(self, st, f, args, kwargs)
        if f is None or kind(f) in ('str', 'int', 'bool'):
            self.raise_new(st, TypeError, 'not callable')
        if isinstance(f, type) and issubclass(f, BaseException):
            return st.alloc(Obj('inst', {'args': tuple(args)}, f))
        return self.libs['%hostcall'](self, st, f, args, kwargs)

    def instantiate(self, st, cls, args, kwargs):
        qual = st.get(cls).meta['qual']
        if qual in self.contracts:
            self.used_contracts.add(qual)
            return self.contracts[qual](self, st, args, kwargs)
        inst = st.alloc(Obj('inst', {}, cls))
        if self.subclass(st, cls, BaseException):
            st.edit(inst).f['args'] = tuple(args)
        init = self.class_lookup(st, cls, '__init__')
        if isinstance(init, FuncVal):
            self.call_func(st, init, [inst] + list(args), kwargs)
        elif isinstance(init, tuple) and init[0] == 'host':
            if not issubclass(init[1], BaseException):
                m = self.libs['%methods'].get((init[1], '__init__'))
                if m:
                    m(self, st, inst, args, kwargs)
        elif args or kwargs:
            self.raise_new(st, TypeError, 'arguments')
        return inst

    def bind_args(self, st, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_new(st, TypeError, 'arguments')
            out[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for nme, v in zip(names, args):
            out[nme] = v
        rest = Store()
        kwargs = dict(kwargs)
        base_kw = kwargs.pop('**', None)
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_new(st, TypeError, 'duplicate argument')
                out[k] = v
            elif a.kwarg is not None:
                rest = rest.put(k, v)
            else:
                self.raise_new(st, TypeError, 'unexpected argument')
        if a.kwarg is not None:
            if base_kw is not None:
                o = st.get(base_kw)
                out[a.kwarg.arg] = st.alloc(Obj('dict', x=Store(o.x.base, o.x.ups + rest.ups)))
            else:
                out[a.kwarg.arg] = st.alloc(Obj('dict', x=rest))
        elif base_kw is not None:
            raise Unsupported('** to a function without **')
        for nme, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            out.setdefault(nme, d)
        for nme, d in f.kwdefaults.items():
            out.setdefault(nme, d)
        for nme in names + [x.arg for x in a.kwonlyargs]:
            if nme not in out:
                self.raise_new(st, TypeError, f'missing argument {nme}')
        return out

    def call_func(self, st, f, args, kwargs):
        if f.qualname in self.contracts:
            self.used_contracts.add(f.qualname)
            return self.contracts[f.qualname](self, st, args, kwargs)
        return self.call_body(st, f, args, kwargs)

    def call_body(self, st, f, args, kwargs):
        if self.depth > 60:
            raise Unsupported(f'recursion in {f.qualname}')
        bound = self.bind_args(st, f, args, kwargs)
        env = st.alloc(Obj('env', dict(bound, **{'%parent': f.env, '%func': f}), f.qualname))
        if isinstance(f.node, ast.Lambda):
            return self.ev(st, f.node.body, env, f.module)
        self.functions.add(f.qualname)
        gen = _is_generator(f.node)
        if gen:
            lst = st.alloc(Obj('iter', x=()))
            st.edit(env).f['%yield'] = lst
        self.depth += 1
        self.ret_sinks.append([])
        self.loop_sinks.append(([], []))
        self.cur_func.append(f.qualname)
        alive = True
        try:
            self.run_body(st, f.node.body, env, f.module)
        except Dead:
            alive = False
        finally:
            rets = self.ret_sinks.pop()
            self.loop_sinks.pop()
            self.depth -= 1
            self.cur_func.pop()
        if alive:
            rets.append((st.fork(), None))
        if not rets:
            raise Dead()
        m, guards = merge([s for s, _ in rets])
        val = rets[-1][1]
        for (s, v), g in reversed(list(zip(rets[:-1], guards[:-1]))):
            val = ite(g, v, val)
        st.assign(m)
        st.dead = False
        st.heap.pop(env.oid, None) if not _has_closure(f.node) else None
        return lst if gen else val

    # ------------------------------------------------------------ running
    def run(self, st, fn):
        """Run fn(st) and return (normal result or None if none, state or None, [(state, exception)])."""
        self.sinks.append([])
        try:
            v = fn(st)
            ok = True
        except Dead:
            v, ok = None, False
        finally:
            raised = self.sinks.pop()
        return v, (st if ok else None), raised


_gen_cache = {}


def _is_generator(node):
    k = id(node)
    if k not in _gen_cache:
        res = False
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                res = True
                break
            todo.extend(ast.iter_child_nodes(x))
        _gen_cache[k] = (res, node)
    return _gen_cache[k][0]


_clo_cache = {}


def _has_closure(node):
    k = id(node)
    if k not in _clo_cache:
        _clo_cache[k] = (any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for b in node.body for x in ast.walk(b)), node)
    return _clo_cache[k][0]
