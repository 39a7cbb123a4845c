"""Names of external modules: the standard library of the analysing interpreter and the type stubs shipped with the installed numpy."""
import ast
import glob
import importlib

STD = {'sys', 'time', 'copy', 'os', 'os.path', 'math', 'cmath', 'random', 'warnings', 'functools', 'itertools', 'operator', 'pickle', 'operator', 're'}
_cache = {}


def _stub(path):
    names = set()

    def walk(body):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                names.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                names.add(x.target.id)
            elif isinstance(x, ast.Assign):
                for y in x.targets:
                    if isinstance(y, ast.Name):
                        names.add(y.id)
            elif isinstance(x, ast.If):
                walk(x.body)
                walk(x.orelse)
    walk(ast.parse(open(path).read()).body)
    return names


def known(module):
    """the set of public names of an external module, or None if it cannot be listed"""
    if module not in _cache:
        r = None
        if module in STD:
            r = set(dir(importlib.import_module(module)))
        elif module in ('numpy', 'numpy.linalg', 'numpy.random'):
            sub = '/'.join(module.split('.'))
            fs = sorted(glob.glob('/opt/pvenv/lib/*/site-packages/%s/__init__.pyi' % sub))
            try:
                r = _stub(fs[0]) if fs else None
            except (OSError, SyntaxError):
                r = None
            if module == 'numpy' and r is not None:
                r |= {'linalg', 'random', 'fft', 'testing', 'core', 'lib', 'polynomial', 'ma'}
            if module == 'numpy.linalg' and r is not None:
                r |= {'linalg'}
        _cache[module] = r
    return _cache[module]


def missing(full):
    m, _, a = full.rpartition('.')
    k = known(m) if m else None
    return k is not None and a not in k and not a.startswith('__')
