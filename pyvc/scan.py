"""Scans over the parsed source of the package: which functions write an attribute, create an element, call a function."""
import ast
import os
from .engine import SRC

SKIP = ('test',)


def modules(src=None):
    src = src or SRC
    root = os.path.join(src, 'pywriter')
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP and x != '__pycache__')
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                name = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                with open(p, encoding='utf-8') as h:
                    yield name, ast.parse(h.read())


def functions(tree, prefix):
    """(qualified name, node, class name) of all functions."""
    def go(n, pre, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                yield f'{pre}.{c.name}', c, cls
                yield from go(c, f'{pre}.{c.name}', None)
            elif isinstance(c, ast.ClassDef):
                yield from go(c, f'{pre}.{c.name}', c.name)
            else:
                yield from go(c, pre, cls)
    yield from go(tree, prefix, None)


def own_nodes(fn):
    """Nodes of a function without nested functions."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and not isinstance(n, ast.Lambda):
            continue
        todo.extend(ast.iter_child_nodes(n))


def stores(names):
    """(function, attribute, line) of every assignment to an attribute with one of the names, and setattr with a constant name."""
    out = []
    for mod, tree in modules():
        for q, fn, cls in functions(tree, mod):
            for n in own_nodes(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in names:
                    out.append((q, n.attr, n.lineno, ast.unparse(n)))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    a = n.args[1] if len(n.args) > 1 else None
                    if not isinstance(a, ast.Constant) or a.value in names:
                        out.append((q, 'setattr', n.lineno, ast.unparse(n)))
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    out.append((q, '__dict__', n.lineno, ast.unparse(n)))
    return out


def classes():
    """Qualified name -> names of the base classes."""
    out = {}
    for mod, tree in modules():
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef):
                out[f'{mod}.{n.name}'] = [ast.unparse(b) for b in n.bases]
    return out


def subclasses(name):
    """Qualified names of the class and of everything derived from it, by simple names."""
    cl = classes()
    names = {name}
    while True:
        more = {q.rsplit('.', 1)[1] for q, b in cl.items() if any(x.split('.')[-1] in names for x in b)} - names
        if not more:
            break
        names |= more
    return {q for q in cl if q.rsplit('.', 1)[1] in names}


FILE_MODULES = ('os', 'shutil', 'zipfile', 'tempfile', 'subprocess', 'pathlib', 'io', 'codecs')
HARMLESS = {'os.getcwd', 'os.getenv', 'os.environ', 'os.sep', 'os.linesep', 'os.name', 'os.fsdecode', 'os.fspath', 'os.getpid', 'os.listdir', 'os.stat', 'zipfile.ZIP_DEFLATED', 'zipfile.BadZipFile',
            'zipfile.is_zipfile', 'io.StringIO', 'os.startfile'}


def effect_calls():
    """(function, operation, line) of every use of an operation on files, by resolved import names."""
    out = []
    for mod, tree in modules():
        alias = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] in FILE_MODULES:
                        alias[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and n.module and n.module.split('.')[0] in FILE_MODULES:
                for a in n.names:
                    alias[a.asname or a.name] = f'{n.module}.{a.name}'

        def dotted(n):
            if isinstance(n, ast.Name):
                return alias.get(n.id) or ('open' if n.id == 'open' else None)
            if isinstance(n, ast.Attribute):
                b = dotted(n.value)
                return f'{b}.{n.attr}' if b and b != 'open' else None
            return None

        seen = set()
        for q, fn, cls in [(f'{mod}.<module>', tree, None)] + list(functions(tree, mod)):
            for n in own_nodes(fn) if fn is not tree else _top(tree):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    d = dotted(n)
                    if d and d not in alias.values() or d and isinstance(n, ast.Name) and d.count('.') == 1:
                        if d in FILE_MODULES or d in HARMLESS or d.startswith('os.path') or d == 'os.path':
                            continue
                        out.append((q, d, n.lineno))
    return sorted(set(out))


def _top(tree):
    todo = list(ast.iter_child_nodes(tree))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, ast.FunctionDef):
            continue
        todo.extend(ast.iter_child_nodes(n))


def method_calls(names):
    """(function, name, line) of every call of a method or function with one of the names."""
    out = []
    for mod, tree in modules():
        for q, fn, cls in functions(tree, mod):
            for n in own_nodes(fn):
                if isinstance(n, ast.Call):
                    f = n.func
                    nme = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                    if nme in names:
                        out.append((q, nme, n.lineno))
    return out


def call_names():
    """Name of a function -> names of the functions and methods its bodies call or mention."""
    out = {}
    for mod, tree in modules():
        for q, fn, cls in functions(tree, mod):
            s = out.setdefault(fn.name, set())
            for n in own_nodes(fn):
                if isinstance(n, ast.Attribute):
                    s.add(n.attr)
                elif isinstance(n, ast.Name):
                    s.add(n.id)
    return out
