"""Name, attribute and call-signature resolution over the whole library (syntax tree + per-function reaching definitions)."""
import ast
import builtins
import glob
import os
import sys
import warnings
from .extnames import known

BUILT = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__package__', '__builtins__', 'raw_input', 'reload', 'unicode', 'xrange'} - {'raw_input', 'reload', 'unicode', 'xrange'}
SITE = sorted(glob.glob('/opt/pvenv/lib/*/site-packages') + glob.glob('/usr/lib/python3/dist-packages'))
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _parse(text):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ast.parse(text)


class ModInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs, self.mods, self.ext, self.unknown, self.stars = {}, {}, {}, set(), []


def _binds(target, out):
    for n in ast.walk(target):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)


def stmts(body):
    """all statements below, not entering nested scopes"""
    for s in body:
        yield s
        if isinstance(s, FUN + (ast.ClassDef,)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            yield from stmts(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
            yield from stmts(h.body)


def own(node):
    """expression nodes evaluated in this scope (not inside nested function, class or lambda bodies)"""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Lambda):
                todo += [d for d in c.args.defaults + c.args.kw_defaults if d is not None]
                yield c
            elif isinstance(c, FUN):
                todo += c.decorator_list + [d for d in c.args.defaults + c.args.kw_defaults if d is not None]
            elif isinstance(c, ast.ClassDef):
                todo += c.decorator_list + c.bases
            else:
                todo.append(c)


def bound_by(s):
    out = set()
    if isinstance(s, FUN + (ast.ClassDef,)):
        out.add(s.name)
    elif isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
            out.add((a.asname or a.name).split('.')[0] if not (isinstance(s, ast.ImportFrom)) else (a.asname or a.name))
    else:
        for f, v in ast.iter_fields(s):
            if f in ('body', 'orelse', 'finalbody', 'handlers'):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    for n in own(x):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            out.add(n.id)
                        if isinstance(n, COMP):
                            pass
        for h in getattr(s, 'handlers', []) or []:
            if h.name:
                out.add(h.name)
    return out


def comp_bound(node):
    """names bound by comprehensions below node (their own scope)"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, COMP):
            for g in n.generators:
                _binds(g.target, out)
    return out


def args_of(a):
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


class Sig:
    def __init__(self, fn, skip=0):
        a = fn.args
        pos = a.posonlyargs + a.args
        self.pos = [x.arg for x in pos][skip:]
        self.nodef = len(pos) - len(a.defaults) - skip
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.var, self.kw = a.vararg is not None, a.kwarg is not None

    def check(self, call):
        """-> None or what is wrong"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
        if npos > len(self.pos) and not self.var:
            return 'takes at most %d positional arguments, given %d' % (len(self.pos), npos)
        names = [k.arg for k in call.keywords if k.arg]
        for k in names:
            if k not in self.pos and k not in self.kwonly and not self.kw:
                return 'has no argument %s' % k
            if k in self.pos[:npos]:
                return 'gets argument %s twice' % k
        if not star and not dstar:
            miss = [p for p in self.pos[npos:max(self.nodef, 0)] if p not in names] + [k for k in self.kwreq if k not in names]
            if miss:
                return 'misses argument %s' % ', '.join(miss)
        return None


class Lib:
    def __init__(self, repo, sub='lib'):
        self.mods = {}
        self.repo = repo
        for d, ds, fs in os.walk(os.path.join(repo, sub)):
            ds[:] = sorted(x for x in ds if not x.startswith(('.', '__pycache__')))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.mods[name] = ModInfo(name, rel, _parse(open(p, encoding='utf8', errors='replace').read()))
        for m in self.mods.values():
            self.globals(m)
        self.private = set()       # every name starting with an underscore that is defined or stored anywhere
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                x = n.attr if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) else n.name if isinstance(n, FUN + (ast.ClassDef,)) else \
                    n.id if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) else n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
                if x and x.startswith('_'):
                    self.private.add(x)
        self.unloadable = {}
        for m in self.mods.values():
            for s in m.tree.body:
                for b in ([a.name for a in s.names] if isinstance(s, ast.Import) else [s.module] if isinstance(s, ast.ImportFrom) and not s.level else []):
                    if not self.installed(b.split('.')[0]) and b not in self.mods and b.split('.')[0] not in {x.split('.')[0] for x in self.mods}:
                        self.unloadable.setdefault(m.name, (s, b))
        self.classes = {}          # name -> [(mod, node)]
        for m in self.mods.values():
            for s in stmts(m.tree.body):
                if isinstance(s, ast.ClassDef):
                    self.classes.setdefault(s.name, []).append((m, s))

    def installed(self, top):
        if top in sys.stdlib_module_names or top in sys.builtin_module_names:
            return True
        ds = SITE + [os.path.join(self.repo, 'lib')] * 0 + [self.repo]
        return any(os.path.exists(os.path.join(d, top)) or os.path.exists(os.path.join(d, top + '.py')) or glob.glob(os.path.join(d, top + '.*.so')) for d in ds)

    def globals(self, m):
        is_pkg = m.path.endswith('__init__.py')
        for s in stmts(m.tree.body):
            if isinstance(s, ast.Import):
                for a in s.names:
                    nm, tgt = (a.asname, a.name) if a.asname else (a.name.split('.')[0], a.name.split('.')[0])
                    m.defs[nm] = ('mod', tgt)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    p = m.name.split('.') if is_pkg else m.name.split('.')[:-1]
                    p = p[:len(p) - (s.level - 1)]
                    base = '.'.join(p + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.defs[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, FUN):
                m.defs[s.name] = ('fn', m, s) if s.name not in m.defs or any(s is x for x in m.tree.body) else ('multi',)
            elif isinstance(s, ast.ClassDef):
                m.defs[s.name] = ('cls', m, s)
            else:
                for n in bound_by(s):
                    m.defs[n] = ('val',)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.defs.setdefault(x, ('val',))

    def lookup(self, m, name, seen=()):
        """-> definition tuple, None (undefined), or ('?',)"""
        if (m.name, name) in seen:
            return None
        seen = seen + ((m.name, name),)
        d = m.defs.get(name)
        if d is None:
            for b in m.stars:
                b2 = self.mods.get(b) or self.mods.get('lib.' + b)
                if b2 is None:
                    if known(b) is None or known(b) is True:
                        return ('?',)
                    if name in known(b):
                        return ('ext', b + '.' + name)
                    continue
                r = self.lookup(b2, name, seen)
                if r is not None:
                    return r
            sub = m.name + '.' + name
            if m.path.endswith('__init__.py') and sub in self.mods:
                return ('mod', sub)
            return None
        if d[0] == 'from':
            base = self.mods.get(d[1])
            if base is not None:
                if d[1] + '.' + d[2] in self.mods and d[2] not in base.defs:
                    return ('mod', d[1] + '.' + d[2])
                r = self.lookup(base, d[2], seen)
                return r if r is not None else ('missing', d[1], d[2])
            if d[1] + '.' + d[2] in self.mods:
                return ('mod', d[1] + '.' + d[2])
            return ('ext', d[1] + '.' + d[2])
        return d

    # ---- class hierarchy
    def bases(self, m, c):
        out, open_ = [], False
        for b in c.bases:
            d = self.resolve(m, b)
            if d and d[0] == 'cls':
                out.append((d[1], d[2]))
            elif isinstance(b, ast.Name) and b.id == 'object':
                pass
            else:
                open_ = True
        return out, open_

    def mro(self, m, c):
        out, op = [(m, c)], False
        b, o = self.bases(m, c)
        op |= o
        for x in b:
            l, o2 = self.mro(*x)
            op |= o2
            out += [y for y in l if y not in out]
        return out, op

    def subs(self, m, c):
        return [(m2, c2) for l in self.classes.values() for m2, c2 in l if (m, c) in self.mro(m2, c2)[0] and c2 is not c]

    def method(self, m, c, name):
        """-> FunctionDef, 'prop', 'val', 'open' or None"""
        l, op = self.mro(m, c)
        for m2, c2 in l:
            hit = None
            for s in stmts(c2.body):
                if isinstance(s, FUN) and s.name == name:
                    hit = s
                elif name in bound_by(s):
                    hit = 'val'
            if hit is not None:
                return hit if hit == 'val' else (m2, hit)
        return 'open' if op else None

    def attrs(self, m, c):
        if not hasattr(self, '_attrs'):
            self._attrs = {}
        if id(c) not in self._attrs:
            out = set()
            for s in stmts(c.body):
                out |= bound_by(s)
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    out.add('*')
            self._attrs[id(c)] = out
        return self._attrs[id(c)]

    def family(self, m, c):
        """attributes that instances of c or of its subclasses can have; None: open hierarchy"""
        l, op = self.mro(m, c)
        if op:
            return None
        fam = list(l)
        for s in self.subs(m, c):
            l2, op2 = self.mro(*s)
            if op2:
                return None
            fam += l2
        out = set(dir(object)) | {'__dict__'}
        for x in fam:
            out |= self.attrs(*x)
        return None if '*' in out else out

    def concrete(self):
        """classes objects of which are made: leaves of the hierarchy, and classes called by name or through cls(...)"""
        made = set()
        for m in self.mods.values():
            if m.name in self.unloadable:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    r = self.resolve(m, n.func)
                    if r and r[0] == 'cls':
                        made.add(id(r[2]))
        out = []
        for l in self.classes.values():
            for m, c in l:
                if m.name in self.unloadable:
                    continue
                own_cls = any(isinstance(f, FUN) and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decorator_list) and f.args.args and
                              any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.args.args[0].arg for n in ast.walk(f)) for f in c.body)
                if id(c) in made or own_cls or not self.subs(m, c):
                    out.append((m, c))
        return out

    def foreign(self):
        """attributes stored on something that is not self"""
        if not hasattr(self, '_foreign'):
            self._foreign = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not n.attr.startswith('_') and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')):
                        self._foreign.add(n.attr)
        return self._foreign

    def resolve(self, m, e, local=()):
        """what a dotted expression denotes at module level, or None"""
        if isinstance(e, ast.Name):
            return None if e.id in local else self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, local)
            if b is None:
                return None
            if b[0] == 'mod':
                t = self.mods.get(b[1])
                if t is not None:
                    r = self.lookup(t, e.attr)
                    if r is None and b[1] + '.' + e.attr in self.mods:
                        return ('mod', b[1] + '.' + e.attr)
                    return r if r is not None else ('missing', b[1], e.attr)
                if b[1] == 'lib' or b[1] + '.' + e.attr in self.mods:
                    return ('mod', b[1] + '.' + e.attr)
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'cls':
                return ('clsattr', b[1], b[2], e.attr)
        return None


# ---- reaching definitions: names certainly not assigned at a use
class Flow:
    """forward analysis; state = set of names that may be bound, or None for unreachable"""

    def __init__(self, locs, params, report):
        self.locs, self.report = locs, report
        self.start = set(params)

    def run(self, body):
        self.loops = []
        self.block(body, set(self.start))

    def use(self, node, st):
        if st is None or node is None:
            return
        todo = [node]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda,) + FUN + (ast.ClassDef,)):
                continue
            if isinstance(n, COMP):
                todo.append(n.generators[0].iter)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locs and n.id not in st:
                self.report(n)
            todo += list(ast.iter_child_nodes(n))

    def join(self, a, b):
        return b if a is None else a if b is None else a | b

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if st is None:
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            self.use(s, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][0 if isinstance(s, ast.Break) else 1].append(set(st))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            return self.join(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.While)):
            self.use(s.iter if isinstance(s, ast.For) else s.test, st)
            ent = set(st)
            # everything bound in the body may be bound at its start (second round)
            for x in stmts(s.body):
                ent |= bound_by(x)
            ent |= bound_by(s) if isinstance(s, ast.For) else set()
            self.loops.append(([], []))
            out = self.block(s.body, ent)
            br, co = self.loops.pop()
            end = set(st)
            for x in [out] + br + co:
                end = self.join(end, x)
            return self.block(s.orelse, end)
        if isinstance(s, (ast.With,)):
            for i in s.items:
                self.use(i.context_expr, st)
            return self.block(s.body, st | bound_by(s))
        if isinstance(s, ast.Try):
            b = self.block(s.body, set(st))
            mid = set(st)
            for x in stmts(s.body):
                mid |= bound_by(x)
            out = self.block(s.orelse, b) if b is not None else None
            for h in s.handlers:
                out = self.join(out, self.block(h.body, mid | ({h.name} if h.name else set())))
            if s.finalbody:
                fin = self.block(s.finalbody, (out or set()) | mid)
                out = fin if out is not None else None
            return out
        if isinstance(s, FUN + (ast.ClassDef,)):
            return st | {s.name}
        if isinstance(s, ast.Delete):
            return st
        if isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            t = s.target
            if isinstance(t, ast.Name) and t.id in self.locs and t.id not in st:
                self.report(t)
            elif not isinstance(t, ast.Name):
                self.use(t, st)
            return st | bound_by(s)
        self.use(s, st)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Name) and f.id in ('exit', 'quit') or isinstance(f, ast.Attribute) and f.attr in ('exit', '_exit') and isinstance(f.value, ast.Name) and f.value.id in ('sys', 'os'):
                return None
        return st | bound_by(s)


class Finding:
    def __init__(self, kind, mod, fn, node, text):
        self.kind, self.mod, self.fn, self.line, self.text = kind, mod, fn, node.lineno, text

    def key(self):
        return '%s:%s:%s:%s' % (self.kind, self.mod.name, self.fn, self.text)


def analyse(lib, counts):
    """-> findings; counts: dict of how many obligations of each kind were examined"""
    out = []

    def n(k):
        counts[k] = counts.get(k, 0) + 1

    def function(m, fn, qual, cls, outer, method):
        params = args_of(fn.args) if not isinstance(fn, ast.Module) else []
        body = fn.body
        glob = {x for s in ast.walk(fn) if isinstance(s, (ast.Global,)) for x in s.names}
        nonl = {x for s in ast.walk(fn) if isinstance(s, (ast.Nonlocal,)) for x in s.names}
        locs = set()
        for s in stmts(body):
            locs |= bound_by(s)
        locs -= glob | nonl
        scope = locs | set(params)
        seen = set()

        def unbound(x):
            if (x.id, x.lineno) not in seen:
                seen.add((x.id, x.lineno))
                out.append(Finding('unbound', m, qual, x, '%s is used where no assignment to it can have been executed' % x.id))
        if not isinstance(fn, ast.Module):
            Flow(locs, params, unbound).run(body)
            counts['functions'] = counts.get('functions', 0) + 1
        self_name = params[0] if method and params else None
        deco = {d.id for d in getattr(fn, 'decorator_list', []) if isinstance(d, ast.Name)}
        is_cls = 'classmethod' in deco
        if 'staticmethod' in deco:
            self_name = None
        if self_name is not None and any(isinstance(x, ast.Name) and x.id == self_name and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
            self_name = None
        hidden = outer | scope
        objs = {}
        if not isinstance(fn, ast.Module):
            def val(e):
                if isinstance(e, ast.Call):
                    if is_cls and isinstance(e.func, ast.Name) and e.func.id == self_name:
                        return (m, cls)
                    r = lib.resolve(m, e.func, outer | scope)
                    if r and r[0] == 'cls':
                        return (r[1], r[2])
                return None
            stores = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.setdefault(x.id, []).append(None)
            for s in stmts(body):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = val(s.value)
                    l = stores[s.targets[0].id]
                    if v is not None and None in l:
                        l[l.index(None)] = v
            for k, l in stores.items():
                if k not in params and l and None not in l and all(x == l[0] for x in l):
                    objs[k] = l[0]

        def visit(x, bound):
            if isinstance(x, COMP):
                b = set(bound)
                for g in x.generators:
                    visit(g.iter, b)
                    _binds(g.target, b)
                    for c in g.ifs:
                        visit(c, b)
                for f in ('elt', 'key', 'value'):
                    if hasattr(x, f):
                        visit(getattr(x, f), b)
                return
            if isinstance(x, ast.Lambda):
                for d in x.args.defaults + [d for d in x.args.kw_defaults if d is not None]:
                    visit(d, bound)
                visit(x.body, bound | set(args_of(x.args)))
                return
            if isinstance(x, FUN):
                for d in x.decorator_list + x.args.defaults + [d for d in x.args.kw_defaults if d is not None]:
                    visit(d, bound)
                function(m, x, qual + '.' + x.name, cls, bound, False)
                return
            if isinstance(x, ast.ClassDef):
                for d in x.decorator_list + x.bases:
                    visit(d, bound)
                return
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load) and x.id not in bound:
                    n('names')
                    if x.id not in BUILT and lib.lookup(m, x.id) is None:
                        out.append(Finding('undefined', m, qual, x, '%s is not defined' % x.id))
                return
            if isinstance(x, ast.Attribute):
                r = lib.resolve(m, x, bound)
                if r is not None and isinstance(x.ctx, ast.Load):
                    n('module attributes')
                    if r[0] == 'missing':
                        out.append(Finding('missing', m, qual, x, 'module %s has no name %s' % (r[1], r[2])))
                    elif r[0] == 'ext':
                        mod, _, a = r[1].rpartition('.')
                        k = known(mod)
                        if k is not None and a not in k and not a.startswith('__'):
                            out.append(Finding('missing', m, qual, x, 'module %s has no name %s' % (mod, a)))
                    elif r[0] == 'clsattr':
                        fam = lib.family(r[1], r[2])
                        if fam is not None and r[3] not in fam | {'__name__', '__mro__', '__subclasses__', '__bases__', '__module__', '__dict__'}:
                            out.append(Finding('attribute', m, qual, x, 'class %s has no %s' % (r[2].name, r[3])))
                if cls is not None and self_name and isinstance(x.value, ast.Name) and x.value.id == self_name and isinstance(x.ctx, ast.Load):
                    fam = lib.family(m, cls)
                    if fam is not None:
                        n('own attributes')
                        if x.attr not in fam:
                            out.append(Finding('attribute', m, qual, x, 'objects of class %s never have an attribute %s' % (cls.name, x.attr)))
                if isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id in objs and x.value.id in scope:
                    fam = lib.family(*objs[x.value.id])
                    if fam is not None:
                        n('attributes of local objects')
                        if x.attr not in fam:
                            out.append(Finding('attribute', m, qual, x, 'objects of class %s never have an attribute %s' % (objs[x.value.id][1].name, x.attr)))
                elif isinstance(x.ctx, ast.Load) and x.attr.startswith('_') and not x.attr.startswith('__') and r is None:
                    n('private attributes')
                    if x.attr not in lib.private and not (isinstance(x.value, ast.Name) and x.value.id == self_name and cls is not None):
                        out.append(Finding('attribute', m, qual, x, 'nothing in the library ever has an attribute %s' % x.attr))
            if isinstance(x, ast.Call):
                sig = target(x.func, bound)
                if sig is not None:
                    n('calls')
                    w = sig[1].check(x)
                    if w:
                        out.append(Finding('call', m, qual, x, '%s %s' % (sig[0], w)))
            for c in ast.iter_child_nodes(x):
                if isinstance(fn, ast.Module) and isinstance(c, FUN + (ast.ClassDef,)):
                    continue
                visit(c, bound)

        def target(f, bound):
            if cls is not None and self_name and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self_name:
                return meth(m, cls, f.attr, True, is_cls)
            if cls is not None and self_name and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                l, op = lib.mro(m, cls)
                if op and not all(isinstance(b, ast.Name) and b.id == 'object' for b in cls.bases) and len(l) == 1:
                    return None
                for m2, c2 in l[1:]:
                    for s in stmts(c2.body):
                        if isinstance(s, FUN) and s.name == f.attr:
                            return ('%s.%s' % (c2.name, f.attr), Sig(s, 1)) if not decorated(s) else None
                return None
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in objs and f.value.id in scope:
                return meth(objs[f.value.id][0], objs[f.value.id][1], f.attr, True, False)
            if is_cls and isinstance(f, ast.Name) and f.id == self_name and cls is not None:
                i = lib.method(m, cls, '__init__')
                if lib.subs(m, cls) and any(lib.method(a, b, '__init__') != i for a, b in lib.subs(m, cls)) or not isinstance(i, tuple):
                    return None
                return ('%s()' % cls.name, Sig(i[1], 1))
            r = lib.resolve(m, f, bound)
            if r is None:
                return None
            if r[0] == 'fn':
                return (r[2].name, Sig(r[2])) if not r[2].decorator_list else None
            if r[0] == 'cls':
                i = lib.method(r[1], r[2], '__init__')
                new = lib.method(r[1], r[2], '__new__')
                if isinstance(new, tuple):
                    i = new if not isinstance(i, tuple) else i
                if isinstance(i, tuple):
                    return ('%s()' % r[2].name, Sig(i[1], 1)) if not decorated(i[1]) else None
                return None
            if r[0] == 'clsattr':
                t = lib.method(r[1], r[2], r[3])
                if not isinstance(t, tuple):
                    return None
                ds = {d.id for d in t[1].decorator_list if isinstance(d, ast.Name)}
                if len(ds) != len(t[1].decorator_list) or ds - {'classmethod', 'staticmethod'}:
                    return None
                return ('%s.%s' % (r[2].name, r[3]), Sig(t[1], 1 if 'classmethod' in ds else 0))
            return None

        def decorated(s):
            return bool(s.decorator_list)

        def meth(m1, c1, name, inst, iscls):
            """every class of the family that can be behind self must accept the call: check the method found from c1, unless a subclass overrides it"""
            t = lib.method(m1, c1, name)
            if not isinstance(t, tuple):
                return None
            for s in lib.subs(m1, c1):
                if lib.method(s[0], s[1], name) != t:
                    return None
            ds = {d.id for d in t[1].decorator_list if isinstance(d, ast.Name)}
            if len(ds) != len(t[1].decorator_list) or ds - {'classmethod', 'staticmethod'}:
                return None
            if iscls and not ds:
                return None
            return ('%s.%s' % (c1.name, name), Sig(t[1], 0 if 'staticmethod' in ds else 1))

        if isinstance(fn, ast.Module):
            for s in body:
                if not isinstance(s, FUN + (ast.ClassDef,)):
                    visit(s, set())
        else:
            # comprehension variables of python 3 live in their own scope: handled in visit
            for s in body:
                visit(s, hidden)

    for m in lib.mods.values():
        if m.name in lib.unloadable:
            s, b = lib.unloadable[m.name]
            out.append(Finding('import', m, '<module>', s, 'cannot be loaded: there is no module %s' % b))
            continue
        function(m, m.tree, '<module>', None, set(), False)
        for s in stmts(m.tree.body):
            if isinstance(s, FUN):
                function(m, s, s.name, None, set(), False)
            elif isinstance(s, ast.ClassDef):
                for f in stmts(s.body):
                    if isinstance(f, FUN):
                        function(m, f, s.name + '.' + f.name, s, set(), True)
        for nm, d in sorted(m.defs.items()):
            if d[0] == 'from':
                n('imports')
                r = lib.lookup(m, nm)
                if r is not None and r[0] == 'missing':
                    out.append(Finding('import', m, '<module>', m.tree.body[0], 'module %s has no name %s' % (r[1], r[2])))
    # attributes an object of a concrete class needs in the methods it inherits
    for m, c in lib.concrete():
        l, op = lib.mro(m, c)
        if op:
            continue
        have = set(dir(object)) | {'__dict__'} | lib.foreign()
        for x in l:
            have |= lib.attrs(*x)
        if '*' in have:
            continue
        done = set()
        for m2, c2 in l:
            for f in stmts(c2.body):
                if not isinstance(f, FUN) or not f.args.args or f.name in done:
                    continue
                done.add(f.name)
                ds = {d.id for d in f.decorator_list if isinstance(d, ast.Name)}
                if ds & {'staticmethod', 'classmethod'}:
                    continue
                if any(isinstance(d, ast.Attribute) for d in f.decorator_list):
                    done.discard(f.name)
                sn = f.args.args[0].arg
                caught = {id(y) for t in ast.walk(f) if isinstance(t, ast.Try) for b in t.body for y in ast.walk(b)}
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == sn and id(x) not in caught:
                        n('inherited attributes')
                        fam = lib.family(m2, c2)
                        if x.attr not in have and (fam is None or x.attr in fam):
                            out.append(Finding('attribute', m2, c2.name, x, 'an object of class %s never has the attribute %s' % (c.name, x.attr)))
    return out


def functions(lib, m):
    if m.name in lib.unloadable:
        return []
    out = ['<module>']
    for s in stmts(m.tree.body):
        if isinstance(s, FUN):
            out.append(s.name)
        elif isinstance(s, ast.ClassDef):
            out += ['%s.%s' % (s.name, f.name) for f in stmts(s.body) if isinstance(f, FUN)]
    return sorted(set(out))
