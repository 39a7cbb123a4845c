"""Abstract interpreter over the Python syntax tree of the repository.

Values are symbolic polynomials (integers, scalars), tensor networks (arrays), lists of symbolic length and
heap records with view/base links (for aliasing).  Calls to repository functions are analysed in the caller's
context (so extracting a helper does not change the result); numpy calls have algebraic transfer functions.
An unresolved condition partitions the trace; loops with symbolic bounds are summarised by one generic iteration.
Nothing of the repository is imported or run.
"""
import ast
import time
import itertools
import os
from fractions import Fraction
from . import net as N
from . import poly as PL
from . import extnames
from .poly import Poly, ONE, ZERO

REPO = os.environ.get('VERIF_REPO', '/repo')


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, exc, node, fn):
        self.exc, self.node, self.fn = exc, node, fn


class Infeasible(Exception):
    pass


class BadResult(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


# ------------------------------------------------------------------ program
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pk = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (s.level - 1)]
                    base = '.'.join(pk + ([s.module] if s.module else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)


class Program:
    def __init__(self, repo=None):
        repo = repo or REPO
        self.repo = repo
        self.mods = {}
        self.files = {}
        for d, _, fs in os.walk(os.path.join(repo, 'lib')):
            for f in sorted(fs):
                if f.endswith('.py') and f != 'mpsfunctionsgradopt.py':
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    name = rel[:-3].replace('/', '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.mods[name] = Module(name, p)
        # lib.ncon package re-exports
        self.fnmod = {}
        self.parent = {}
        for m in self.mods.values():
            for node in ast.walk(m.tree):
                if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                    self.fnmod[node] = m
            for c in m.classes.values():
                for s in c.body:
                    if isinstance(s, ast.FunctionDef):
                        self.parent[s] = (m, c)

    def mod(self, name):
        return self.mods.get(name)

    def func(self, mod, name):
        m = self.mods[mod]
        if '.' in name:
            c, f = name.split('.')
            r = self.method(m.classes[c], m, f) if c in m.classes else None
            return r
        if name in m.funcs:
            return Fn(m.funcs[name], m)
        # re-assigned name / imported
        if name in m.imports and isinstance(m.imports[name], str):
            full = m.imports[name]
            mm, _, ff = full.rpartition('.')
            if mm in self.mods:
                return self.func(mm, ff)
        return None

    def mro(self, cnode, mod):
        out = [(cnode, mod)]
        for b in cnode.bases:
            r = self.resolve_class(b, mod)
            if r:
                out += self.mro(*r)
        return out

    def resolve_class(self, expr, mod):
        if isinstance(expr, ast.Name):
            if expr.id in mod.classes:
                return mod.classes[expr.id], mod
            full = mod.imports.get(expr.id)
            if isinstance(full, str):
                mm, _, c = full.rpartition('.')
                if mm in self.mods and c in self.mods[mm].classes:
                    return self.mods[mm].classes[c], self.mods[mm]
        elif isinstance(expr, ast.Attribute) and isinstance(expr.value, ast.Name):
            full = self.module_alias(expr.value.id, mod)
            if full in self.mods and expr.attr in self.mods[full].classes:
                return self.mods[full].classes[expr.attr], self.mods[full]
        return None

    def module_alias(self, name, mod):
        full = mod.imports.get(name)
        if full is None:
            c = mod.consts.get(name)
            # mf=sys.modules['lib.mpslib.mpsfunctions']
            if isinstance(c, ast.Subscript) and isinstance(c.slice, ast.Constant):
                full = c.slice.value
        return full

    def method(self, cnode, mod, name):
        for c, m in self.mro(cnode, mod):
            for s in reversed(c.body):
                if isinstance(s, ast.FunctionDef) and s.name == name and not any(
                        isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in s.decorator_list):
                    return Fn(s, m, cls=(c, m))
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return ('classattr', s.value, m)
        return None

    def setter(self, cnode, mod, name):
        for c, m in self.mro(cnode, mod):
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and s.name == name and any(
                        isinstance(d, ast.Attribute) and d.attr == 'setter' for d in s.decorator_list):
                    return Fn(s, m, cls=(c, m))
        return None


# ------------------------------------------------------------------ values
class Fn:
    def __init__(self, node, mod, cls=None, closure=None):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def decorators(self):
        return [d.id for d in getattr(self.node, 'decorator_list', []) if isinstance(d, ast.Name)]

    def __repr__(self):
        return 'Fn(%s.%s)' % (self.mod.name, self.name)


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class PyFn:
    """analysis-supplied callable"""
    def __init__(self, f, name='<model>'):
        self.f, self.name = f, name


class Mod:
    def __init__(self, name):
        self.name = name


class Ext:
    """attribute of an external module, dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod

    @property
    def name(self):
        return self.node.name

    def __eq__(self, o):
        return isinstance(o, Cls) and o.node is self.node

    def __hash__(self):
        return id(self.node)


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return 'Ref%d' % self.id


class Opq:
    """unknown value, value-numbered by key; roots = heap arrays it may alias"""
    __slots__ = ('key', 'roots')

    def __init__(self, key, roots=()):
        self.key = key if len(key) < 4000 else 'h%x' % (hash(key) & 0xffffffffffff)
        self.roots = frozenset(roots)

    def __repr__(self):
        return 'Opq(%s)' % self.key[:80]


class Cond:
    """undetermined boolean"""
    __slots__ = ('key', 'neg', 'lin')

    def __init__(self, key, neg=False, lin=None):
        self.key, self.neg, self.lin = key, neg, lin

    def negate(self):
        return Cond(self.key, not self.neg, self.lin)

    def __repr__(self):
        return 'Cond(%s%s)' % ('!' if self.neg else '', self.key)


class Dt:
    """abstract dtype: set of sources joined with float; 'complex' is top; 'int' flag"""
    __slots__ = ('src', 'isint')

    def __init__(self, src=(), isint=False):
        src = frozenset(src)
        if 'complex' in src:
            src = frozenset(['complex'])
        self.src, self.isint = src, isint and not src

    def join(self, o):
        return Dt(self.src | o.src, self.isint and o.isint)

    def le(self, o):
        """values of dtype self can be stored in dtype o without loss"""
        if 'complex' in o.src:
            return True
        if o.isint and not self.isint:
            return False
        return self.src <= o.src

    def __eq__(self, o):
        return isinstance(o, Dt) and (self.src, self.isint) == (o.src, o.isint)

    def __hash__(self):
        return hash((self.src, self.isint))

    def __repr__(self):
        return 'Dt(%s)' % (','.join(sorted(self.src)) or ('int' if self.isint else 'float'))


DT_FLOAT, DT_CPLX, DT_INT = Dt(), Dt(['complex']), Dt((), True)


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Arr:
    kind = 'arr'
    __slots__ = ('ten', 'base', 'dt', 'label', 'cells', 'dims')

    def __init__(self, ten, dt=DT_FLOAT, base=None, label=None, cells=None, dims=None):
        self.ten, self.dt, self.base, self.label, self.cells, self.dims = ten, dt, base, label, cells, dims

    def clone(self):
        return Arr(self.ten, self.dt, self.base, self.label, dict(self.cells) if self.cells is not None else None, self.dims)


class PyList:
    kind = 'list'
    __slots__ = ('items', 'label')

    def __init__(self, items, label=None):
        self.items, self.label = items, label

    def clone(self):
        return PyList(list(self.items), self.label)


NDARRAY = frozenset('''T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__ __array_prepare__ __array_priority__ __array_struct__
__array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__
__dict__ __dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __gt__
__hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__
__ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __mul__ __ne__ __neg__ __new__ __or__
__pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__
__rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__
__truediv__ __weakref__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes
cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder
nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes
take tobytes tofile tolist tostring trace transpose var view'''.split())


class PySet(PyList):
    """set with known elements, in insertion order"""
    isset = True
    __slots__ = ()

    def clone(self):
        return PySet(list(self.items), self.label)


class SymSeq:
    """list of symbolic length; gen(interp, idx)->value, overrides newest last"""
    kind = 'sym'
    __slots__ = ('length', 'gen', 'over', 'memo', 'label')

    def __init__(self, length, gen, label=None):
        self.length, self.gen, self.label = length, gen, label
        self.over = []
        self.memo = {}

    def clone(self):
        s = SymSeq(self.length, self.gen, self.label)
        s.over = list(self.over)
        s.memo = dict(self.memo)
        return s


class PyDict:
    kind = 'dict'
    __slots__ = ('items', 'label')

    def __init__(self, items, label=None):
        self.items, self.label = items, label

    def clone(self):
        return PyDict(dict(self.items), self.label)


class Inst:
    kind = 'obj'
    __slots__ = ('cls', 'f', 'label')

    def __init__(self, cls, f, label=None):
        self.cls, self.f, self.label = cls, f, label

    def clone(self):
        return Inst(self.cls, dict(self.f), self.label)


class Range:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Event:
    __slots__ = ('kind', 'data', 'node', 'fn', 'stack')

    def __init__(self, kind, data, node, fn, stack):
        self.kind, self.data, self.node, self.fn, self.stack = kind, data, node, fn, stack

    def where(self):
        return '%s:%s in %s' % (os.path.relpath(self.fn.mod.path, REPO) if self.fn else '?', getattr(self.node, 'lineno', '?'),
                                self.fn.name if self.fn else '?')

    def __repr__(self):
        return 'Event(%s,%s @%s)' % (self.kind, self.data, self.where())


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, prog, models=None, maxdepth=40, try_handlers=False, opaque_mods=(), loop_hook=None, minN=2):
        self.prog = prog
        self.models = models or {}
        self.maxdepth = maxdepth
        self.try_handlers = try_handlers
        self.loop_hook = loop_hook
        self.opaque_mods = set(opaque_mods)
        self._id = itertools.count(1)
        self.heap = {}
        self.noncontig = set()
        self.events = []
        self.facts = []           # linear polys known >= 0
        self.eqs = {}
        self.decisions, self.linof = {}, {}
        self.script = []
        self.trace = []
        self.stack = []
        self.steps = 0
        self.maxsteps = 400000
        self._fresh = itertools.count(1)
        self.natoms = 0
        self.globals_cache = {}

    # ---- heap
    def new(self, rec):
        r = Ref(next(self._id))
        self.heap[r.id] = rec
        return r

    def rec(self, r):
        return self.heap[r.id]

    def arr(self, ten, dt=DT_FLOAT, base=None, label=None):
        return self.new(Arr(ten, dt, base, label))

    def atom_arr(self, label, dims, dt=None, real=False):
        t = N.Ten.atom(label, dims, real)
        return self.arr(t, dt if dt is not None else Dt([label]), None, label)

    def is_arr(self, v):
        return isinstance(v, Ref) and self.rec(v).kind == 'arr'

    def event(self, kind, data, node=None):
        self.events.append(Event(kind, data, node, self.stack[-1] if self.stack else None, list(self.stack)))

    def fresh(self, p):
        return '%s%d' % (p, next(self._fresh))

    # ---- facts
    def assume(self, lin):
        """lin: Poly known >= 0"""
        self.facts.append(lin)

    def sign(self, p):
        """returns '0','+','-','>=','<=','!=' or None for Poly p (under facts)"""
        p = self.norm(p)
        c = p.as_const()
        if c is not None:
            if isinstance(c, tuple):
                return '!='
            return '0' if c == 0 else ('+' if c > 0 else '-')
        if self._ge(p - ONE):
            return '+'
        if self._ge(-p - ONE):
            return '-'
        g, l = self._ge(p), self._ge(-p)
        if g and l:
            return '0'
        if g:
            return '>='
        if l:
            return '<='
        return None

    def mn(self, ps):
        from . import ops
        return ops.scal(self, ops.minmax(self, 'min', ps, None)) if len(ps) > 1 else ps[0]

    def norm(self, p):
        if self.eqs:
            for _ in range(6):
                at = p.atoms() & set(self.eqs)
                if not at:
                    break
                p = p.subs({a: self.eqs[a] for a in at})
        return p

    def _ge(self, p, depth=3):
        """p >= 0 entailed: p = c + sum of facts (each used at most twice), c>=0"""
        c = p.as_const()
        if c is not None:
            return not isinstance(c, tuple) and c >= 0
        if depth == 0:
            return False
        at = p.atoms()
        for f in self.facts:
            f = self.norm(f)
            if not (f.atoms() & at):
                continue
            q = p - f
            if len(q.t) < len(p.t) or (len(q.t) <= len(p.t) and q.atoms() != p.atoms()) or len(q.atoms()) < len(at):
                if self._ge(q, depth - 1):
                    return True
        return False

    def decide(self, c, node=None):
        """truth value of a python-value condition"""
        if isinstance(c, Cond):
            k = c.key
            if k in self.decisions:
                v = self.decisions[k]
            else:
                pos = len(self.trace)
                if c.lin is not None:
                    op, p = c.lin
                    s = self.sign(p)
                    v = _lin_truth(op, s)
                    if v is not None:
                        return v != c.neg
                v = self.script[pos] if pos < len(self.script) else True
                self.trace.append((k, v, node, self.stack[-1] if self.stack else None))
                self.decisions[k] = v
                self.linof[k] = c.lin
                if c.lin is not None:
                    op, p = c.lin
                    if op == 'lt':
                        self.assume(-p - ONE if v else p)
                    elif op == 'eq' and v:
                        self._add_eq(p)
            return v != c.neg
        if isinstance(c, bool):
            return c
        if c is None:
            return False
        if isinstance(c, Poly):
            k = c.as_const()
            if k is not None:
                return bool(k) if not isinstance(k, tuple) else True
            return self.decide(self.compare('!=', c, ZERO), node)
        if isinstance(c, str):
            return bool(c)
        if isinstance(c, tuple):
            return len(c) > 0
        if isinstance(c, Ref):
            r = self.rec(c)
            if r.kind == 'list':
                return len(r.items) > 0
            if r.kind == 'dict':
                return len(r.items) > 0
            if r.kind == 'arr':
                return self.decide(Cond('truth(%s)' % self.vkey(c)), node)
            return True
        if isinstance(c, Opq):
            return self.decide(Cond('truth(%s)' % c.key), node)
        return True

    def _add_eq(self, p):
        # solve p==0 for an atom with unit coefficient
        for m, (a, b) in sorted(p.t.items(), key=lambda kv: str(kv[0]), reverse=True):
            if len(m) == 1 and m[0][1] == 1 and b == 0 and abs(a) == 1:
                at = m[0][0]
                rest = p - Poly({m: (a, b)})
                if at in rest.atoms() or at in self.eqs:
                    continue
                self.eqs[at] = rest * Poly.const(-a)
                if self.eqs[at].as_int() is not None and at not in N.DIMS.eq:
                    N.DIMS.eq[at] = self.eqs[at]         # also where the symbol is the dimension of an array
                return
        self.assume(p)
        self.assume(-p)

    # ---- keys
    def vkey(self, v, depth=0):
        if isinstance(v, Poly):
            return v.key()
        if isinstance(v, (bool, str, type(None))):
            return repr(v)
        if isinstance(v, tuple):
            return '(%s)' % ','.join(self.vkey(x, depth + 1) for x in v)
        if isinstance(v, Opq):
            return v.key
        if isinstance(v, Cond):
            return repr(v)
        if isinstance(v, Dt):
            return repr(v)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == 'arr':
                return r.ten.key() if r.ten is not None else 'arr#%s' % (r.label or v.id)
            if r.kind == 'list' and depth < 4:
                return '[%s]' % ','.join(self.vkey(x, depth + 1) for x in r.items)
            if r.kind == 'sym':
                return 'seq:%s' % (r.label or v.id)
            if r.kind == 'obj':
                return 'obj:%s' % (r.label or v.id)
            return '%s#%d' % (r.kind, v.id)
        if isinstance(v, Slice):
            return '%s:%s:%s' % tuple(self.vkey(x) for x in (v.lo, v.hi, v.step))
        if isinstance(v, Range):
            return 'range(%s,%s,%s)' % (v.lo, v.hi, v.step)
        if isinstance(v, Partial):
            return 'partial(%s,%s)' % (self.vkey(v.f), ','.join(self.vkey(a) for a in v.args))
        if isinstance(v, (Ext, Mod, Builtin)):
            return repr(getattr(v, 'name', v))
        if isinstance(v, Fn):
            return 'fn:%s:%s' % (v.mod.name, v.name if v.name != '<lambda>' else ast.dump(v.node))
        if isinstance(v, Bound):
            return 'bound(%s,%s)' % (self.vkey(v.fn), self.vkey(v.self_))
        if isinstance(v, Cls):
            return 'class:' + v.name
        return type(v).__name__

    def roots(self, v, seen=None):
        """heap arrays/objects v may alias"""
        if isinstance(v, Opq):
            return set(v.roots)
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == 'arr':
                out = {v}
                b = r.base
                while b is not None:
                    if isinstance(b, Opq):
                        out |= set(b.roots)
                        break
                    out.add(b)
                    b = self.rec(b).base if self.rec(b).kind == 'arr' else None
                return out
            return {v}
        if isinstance(v, tuple):
            s = set()
            for x in v:
                s |= self.roots(x)
            return s
        return set()

    def mutate(self, v, node, how):
        for r in self.roots(v):
            self.event('mutate', (r, how), node)

    # ---- running all partitions
    def opq(self, name, *args):
        roots = set()
        for a in args:
            roots |= {r for r in self.roots(a) if r.id in self.heap and self.rec(r).kind == 'arr'}
        return Opq('%s(%s)' % (name, ','.join(self.vkey(a) for a in args)), roots)

    # ---- statements
    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step limit')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        m(s, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            val = self.ev(s.value, fr)
            nv = self.inplace(op, cur, val, s, fr)
            fr[t.id] = nv
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr, s)
            val = self.ev(s.value, fr)
            nv = self.inplace(op, cur, val, s, fr)
            self.setattr(o, t.attr, nv, s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i, s)
            val = self.ev(s.value, fr)
            if self.is_arr(o):
                nv = self.binop(op, cur, val, s)
            else:
                nv = self.inplace(op, cur, val, s, fr)
            self.setitem(o, i, nv, s)
        else:
            raise Undecided('augassign')

    def inplace(self, op, cur, val, node, fr):
        if self.is_arr(cur):
            self.mutate(cur, node, 'in-place ' + op)
            nv = self.binop(op, cur, val, node)
            r = self.rec(cur)
            if self.is_arr(nv):
                n = self.rec(nv)
                if not n.dt.le(r.dt):
                    self.event('lossy', (cur, nv, 'in-place %s' % op), node)
                self.write_through(cur, n.ten)
            else:
                self.write_through(cur, None)
            return cur
        if isinstance(cur, Opq) and not isinstance(cur, str):
            self.mutate(cur, node, 'in-place ' + op)
            return self.binop(op, cur, val, node)
        if isinstance(cur, Ref):
            r = self.rec(cur)
            if r.kind == 'list' and op == 'Add':
                self.event('mutate', (cur, 'list +='), node)
                if isinstance(val, Ref) and self.rec(val).kind == 'list':
                    r.items += self.rec(val).items
                    return cur
                raise Undecided('list +=')
            if r.kind == 'obj':
                dn = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__'}.get(op)
                m = self.prog.method(r.cls.node, r.cls.mod, dn) if dn else None
                if m is not None:
                    return self.call(self.getattr(cur, dn, node), [val], {}, node)
        return self.binop(op, cur, val, node)

    def write_through(self, ref, ten):
        """new content for an array; views and bases of it become unknown unless identical"""
        r = self.rec(ref)
        r.ten = ten if ten is not None else self.unknown_like(r)
        r.cells = None
        b = r.base
        while isinstance(b, Ref) and self.rec(b).kind == 'arr':
            rb = self.rec(b)
            rb.ten = self.unknown_like(rb)
            rb.cells = None
            b = rb.base

    def unknown_like(self, r):
        if r.ten is None:
            return None
        dims = r.ten.legdims()
        if dims is None:
            dims = [Poly.atom(self.fresh('~d')) for _ in range(r.ten.ndim)]
        return N.Ten.atom(self.fresh('?'), dims)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                r = self.rec(o) if isinstance(o, Ref) else None
                if r is None or r.kind not in ('list', 'dict'):
                    raise Undecided('del')
                self.event('mutate', (o, 'del'), s)
                if r.kind == 'dict':
                    k = self._hk(self.ev(t.slice, fr))
                    if k not in r.items:
                        raise Raised('KeyError', s, self.stack[-1] if self.stack else None)
                    del r.items[k]
                    continue
                if isinstance(t.slice, ast.Slice):
                    f = [None if x is None else self.norm(self.ev(x, fr)).as_int() for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                    if any(x is not None and y is None for x, y in zip((t.slice.lower, t.slice.upper, t.slice.step), f)):
                        raise Undecided('del slice')
                    del r.items[slice(*f)]
                    continue
                k = self.ev(t.slice, fr)
                k = self.norm(k).as_int() if isinstance(k, Poly) else None
                if k is None:
                    raise Undecided('del index')
                if not -len(r.items) <= k < len(r.items):
                    raise Raised('IndexError', s, self.stack[-1] if self.stack else None)
                del r.items[k]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                r = self.rec(o) if isinstance(o, Ref) else None
                if r is None or r.kind != 'obj':
                    raise Undecided('del attribute')
                r.f.pop(t.attr, None)
            else:
                raise Undecided('del')

    def x_Return(self, s, fr):
        raise _Ret(self.ev(s.value, fr) if s.value is not None else None)

    def x_If(self, s, fr):
        c = self.ev(s.test, fr)
        if self.decide(c, s):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Assert(self, s, fr):
        try:
            c = self.ev(s.test, fr)
        except Undecided:
            return
        self.require(c, s)

    def require(self, c, node):
        if isinstance(c, Cond):
            if c.lin is not None:
                op, p = c.lin
                v = _lin_truth(op, self.sign(p))
                if v is not None:
                    if v == c.neg:
                        raise Raised('AssertionError', node, self.stack[-1] if self.stack else None)
                    return
                if op == 'lt':
                    self.assume(p if c.neg else -p - ONE)
                elif op == 'eq' and not c.neg:
                    if not self._dim_eq(p):
                        self._add_eq(p)
            self.decisions.setdefault(c.key, not c.neg)
        elif isinstance(c, bool):
            if not c:
                raise Raised('AssertionError', node, self.stack[-1] if self.stack else None)

    def _dim_eq(self, p):
        # p == 0 where p is a difference of two dimension symbols
        if len(p.t) == 2:
            ms = list(p.t.items())
            for (m1, c1), (m2, c2) in (ms, ms[::-1]):
                if c1[0] == -c2[0] and len(m1) == 1 and len(m2) == 1 and ':' in m1[0][0] and ':' in m2[0][0]:
                    old, N.RIGID[0] = N.RIGID[0], 0         # an asserted equality is a precondition
                    N.DIMS.unify(Poly({m1: (Fraction(1), Fraction(0))}), Poly({m2: (Fraction(1), Fraction(0))}))
                    N.RIGID[0] = old
                    return True
                if len(m1) == 1 and m1[0][1] == 1 and c1 == (1, 0) and ':' in m1[0][0] and not m2:
                    old, N.RIGID[0] = N.RIGID[0], 0
                    N.DIMS.unify(Poly({m1: c1}), -Poly({m2: c2}))
                    N.RIGID[0] = old
                    self._add_eq(p)
                    return True
        return False

    def x_Raise(self, s, fr):
        name = None
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        raise Raised(name, s, self.stack[-1] if self.stack else None)

    def x_Try(self, s, fr):
        if s.handlers and self.try_handlers:
            k = 'exc@%s:%d' % (self.stack[-1].name if self.stack else '', s.lineno)
            if not self.decide(Cond('noexc:' + k), s):
                # body raised at its first statement; keep state before it
                self.exec_block(s.handlers[0].body, fr)
                self.exec_block(s.finalbody, fr)
                return
        try:
            self.exec_block(s.body, fr)
        except Raised as r:
            for h in s.handlers:
                names = []
                t = h.type
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    names.append(None if x is None else (x.id if isinstance(x, ast.Name) else getattr(x, 'attr', None)))
                if None in names or r.exc in names or 'Exception' in names:
                    if h.name:
                        fr[h.name] = Opq('exc')
                    self.exec_block(h.body, fr)
                    break
            else:
                self.exec_block(s.finalbody, fr)
                raise
        else:
            self.exec_block(s.orelse, fr)
        self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(s.body, fr)

    def x_Break(self, s, fr):
        raise _Brk()

    def x_Continue(self, s, fr):
        raise _Cont()

    def x_Import(self, s, fr):
        for a in s.names:
            fr[a.asname or a.name.split('.')[0]] = Mod(a.name)

    def x_ImportFrom(self, s, fr):
        for a in s.names:
            fr[a.asname or a.name] = Ext((s.module or '') + '.' + a.name)

    def x_Global(self, s, fr):
        pass

    def x_Nonlocal(self, s, fr):
        pass

    def x_FunctionDef(self, s, fr):
        fr[s.name] = Fn(s, self.stack[-1].mod, closure=fr)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.finite(it)
        if seq is not None:
            for v in seq:
                self.assign(s.target, v, fr)
                try:
                    self.exec_block(s.body, fr)
                except _Brk:
                    return
                except _Cont:
                    continue
            self.exec_block(s.orelse, fr)
            return
        self.symloop(s, it, fr)

    def x_While(self, s, fr):
        n = 0
        while True:
            c = self.ev(s.test, fr)
            if isinstance(c, (Cond, Opq, Ref)) and not (isinstance(c, Ref) and self.rec(c).kind == 'list') and not getattr(self, 'unroll', False):
                if isinstance(c, Cond) and c.key in self.decisions:
                    pass
                elif isinstance(c, Cond) and c.lin is not None and _lin_truth(c.lin[0], self.sign(c.lin[1])) is not None:
                    pass
                else:
                    return self.symwhile(s, c, fr)
            if not self.decide(c, s):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except _Brk:
                return
            except _Cont:
                pass
            n += 1
            if n > 200:
                raise Undecided('while limit')

    def symloop(self, s, it, fr):
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, it, fr)
            if r is not NotImplemented:
                return
        from . import loops
        loops.summarise(self, s, it, fr)

    def symwhile(self, s, c, fr):
        if self.loop_hook is not None:
            r = self.loop_hook(self, s, c, fr)
            if r is not NotImplemented:
                return
        from . import loops
        loops.summarise_while(self, s, c, fr)

    def finite(self, it):
        """python list of values if iterable has a known finite length"""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, Range):
            lo, hi, st = (self.norm(x).as_int() for x in (it.lo, it.hi, it.step))
            if None not in (lo, hi, st):
                return [Poly.const(i) for i in range(lo, hi, st)]
            # bounded small difference
            d = self.norm(it.hi - it.lo).as_int()
            if d is not None and st is not None:
                if d * st <= 0:
                    return []
                return [it.lo + k * st for k in range(0, (abs(d) + abs(st) - 1) // abs(st))]
            return None
        if isinstance(it, Ref):
            r = self.rec(it)
            if r.kind == 'list':
                return list(r.items)
            if r.kind == 'dict':
                return [k for k in r.items]
            if r.kind == 'sym':
                n = self.norm(r.length).as_int()
                if n is not None:
                    return [self.seqget(it, Poly.const(k)) for k in range(n)]
            if r.kind == 'arr' and r.ten is not None and r.ten.ndim >= 1:
                d = r.ten.legdims()
                if d is not None:
                    n = N.DIMS.find(d[0]).as_int()
                    if n is not None:
                        return [self.getitem(it, Poly.const(k), None) for k in range(n)]
        if isinstance(it, str):
            return list(it)
        return None

    # ---- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts))
            for a, b in zip(t.elts, vals):
                self.assign(a, b, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Undecided('assign target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.event('unpack', (len(v), n), None)
                raise Raised('ValueError', None, self.stack[-1] if self.stack else None)
            return list(v)
        f = self.finite(v)
        if f is not None:
            if len(f) != n:
                self.event('unpack', (len(f), n), None)
                raise Raised('ValueError', None, self.stack[-1] if self.stack else None)
            return f
        if isinstance(v, Opq):
            return [Opq('%s.%d' % (v.key, i), v.roots) for i in range(n)]
        if isinstance(v, Ref):
            r = self.rec(v)
            if r.kind == 'sym':
                return [self.seqget(v, Poly.const(i)) for i in range(n)]
            if r.kind == 'arr':
                return [self.getitem(v, Poly.const(i), None) for i in range(n)]
        raise Undecided('unpack %r' % (v,))

    # ---- attributes
    def external_base(self, o):
        """does the class of object o have a base outside the program (numpy array, list, ...)?"""
        r = self.rec(o)
        for c, m in self.prog.mro(r.cls.node, r.cls.mod):
            for b in c.bases:
                nm = ast.unparse(b)
                if nm != 'object' and not any(k.name == nm.split('.')[-1] for k, _ in self.prog.mro(r.cls.node, r.cls.mod)):
                    return True
        return False

    def getattr(self, o, a, node):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == 'obj':
                if a in r.f:
                    return r.f[a]
                m = self.prog.method(r.cls.node, r.cls.mod, a)
                if isinstance(m, Fn):
                    d = m.decorators()
                    if 'property' in d:
                        return self.call(Bound(m, o), [], {}, node)
                    if 'classmethod' in d:
                        return Bound(m, r.cls)
                    if 'staticmethod' in d:
                        return m
                    return Bound(m, o)
                if m is not None:
                    v = self.ev_global(m[1], m[2])
                    if isinstance(v, (Fn, PyFn)):
                        return Bound(v, o)
                    return v
                if a == '__class__':
                    return r.cls
                # external base (ndarray / list subclass)
                self.event('attr', (r.cls.name, a), node)
                return Opq('%s.%s' % (self.vkey(o), a))
            if r.kind == 'arr':
                return self.arr_attr(o, r, a, node)
            return Builtin('%s.%s' % (r.kind, a), o)
        if isinstance(o, Mod):
            m = self.prog.mod(o.name)
            if m is not None:
                return self.lookup_global(a, m, node)
            sub = o.name + '.' + a
            if sub in self.prog.mods:
                return Mod(sub)
            return self.ext_attr(sub, node)
        if isinstance(o, Ext):
            return self.ext_attr(o.name + '.' + a, node)
        if isinstance(o, Cls):
            m = self.prog.method(o.node, o.mod, a)
            if isinstance(m, Fn):
                if 'classmethod' in m.decorators():
                    return Bound(m, o)
                return m
            if a == '__name__':
                return o.name
            if m is not None:
                return self.ev_global(m[1], m[2])
            return Opq('%s.%s' % (o.name, a))
        if isinstance(o, Opq):
            if a in ('shape', 'dtype', 'size', 'ndim', 'real', 'imag', 'T'):
                return Opq('%s.%s' % (o.key, a), o.roots if a in ('real', 'imag', 'T') else ())
            return Builtin('opq.' + a, o)
        if isinstance(o, Poly):
            if a == 'real' and o.is_real():
                return o
            if a == 'dtype':
                return self.dt_of(o)
            return Builtin('num.' + a, o)
        if isinstance(o, str):
            return Builtin('str.' + a, o)
        if isinstance(o, tuple):
            return Builtin('tuple.' + a, o)
        if isinstance(o, SuperV):
            inst = o.self_
            cls = self.rec(inst).cls if isinstance(inst, Ref) else inst
            mro = self.prog.mro(cls.node, cls.mod)
            k = [c for c, _ in mro].index(o.after) if o.after in [c for c, _ in mro] else -1
            for c, m in mro[k + 1:]:
                for st in c.body:
                    if isinstance(st, ast.FunctionDef) and st.name == a:
                        return Bound(Fn(st, m, cls=(c, m)), inst)
            return Builtin('object.' + a, inst)
        if isinstance(o, Dt):
            return Opq('%r.%s' % (o, a))
        if isinstance(o, (Fn, Bound, Partial)) and a == '__name__':
            return getattr(o, 'name', 'f')
        return Opq('%s.%s' % (self.vkey(o), a))

    def setattr(self, o, a, v, node):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == 'obj':
                s = self.prog.setter(r.cls.node, r.cls.mod, a)
                if s is not None:
                    self.call(Bound(s, o), [v], {}, node)
                    return
                self.event('setattr', (o, a, v), node)
                r.f[a] = v
                return
            if r.kind == 'arr':
                self.mutate(o, node, 'attribute ' + a)
                self.write_through(o, None)
                return
        if isinstance(o, Opq):
            return
        return

    def arr_attr(self, o, r, a, node):
        if a == 'shape':
            d = self.dims_of(o)
            if d is None:
                return Opq(self.vkey(o) + '.shape')
            return tuple(d)
        if a == 'dtype':
            return r.dt
        if a == 'T':
            return self.call_ext('numpy.transpose', [o], {}, node)
        if a == 'ndim':
            return Poly.const(r.ten.ndim) if r.ten is not None else Opq('ndim')
        if a == 'size':
            p = ONE
            for d in self.dims_of(o) or [Poly.atom('size(%s)' % self.vkey(o))]:
                p = p * d
            return p
        if a == 'real':
            return self.call_ext('numpy.real', [o], {}, node)
        if a == 'imag':
            return self.call_ext('numpy.imag', [o], {}, node)
        if a not in NDARRAY and not a.startswith('__'):
            raise Raised('AttributeError', node, self.stack[-1] if self.stack else None)
        return Builtin('arr.' + a, o)

    def dims_of(self, o):
        if isinstance(o, Ref):
            r = self.rec(o)
            if r.kind == 'arr':
                if r.dims is not None:
                    return [N.DIMS.find(d) for d in r.dims]
                if r.ten is None:
                    return None
                d = r.ten.legdims()
                return d
        return None

    def ext_attr(self, name, node):
        if extnames.missing(name):
            self.event('undefined', name, node)
            raise Raised('AttributeError', node, self.stack[-1] if self.stack else None)
        return self.ext(name)

    def ext(self, name):
        name = _EXT_ALIAS.get(name, name)
        if name in ('numpy.pi', 'scipy.pi', 'math.pi'):
            return Poly.atom('pi')
        if name in ('numpy.e', 'scipy.e', 'math.e'):
            return Poly.atom('e')
        return Ext(name)

    # ---- names
    def lookup(self, name, fr, node):
        f = fr
        while f is not None:
            if name in f:
                return f[name]
            f = f.get('%closure') if isinstance(f, dict) else None
        mod = self.stack[-1].mod if self.stack else None
        return self.lookup_global(name, mod, node)

    def lookup_global(self, name, mod, node):
        key = (mod.name, name)
        if name in mod.funcs:
            return Fn(mod.funcs[name], mod)
        if name in mod.classes:
            return Cls(mod.classes[name], mod)
        full = self.prog.module_alias(name, mod)
        if full:
            if full in self.prog.mods:
                m2 = self.prog.mods[full]
                return Mod(full)
            mm, _, at = full.rpartition('.')
            if mm in self.prog.mods:
                return self.lookup_global(at, self.prog.mods[mm], node)
            return self.ext(full) if '.' in full else Mod(full)
        if name in mod.consts:
            if key in self.globals_cache:
                return self.globals_cache[key]
            v = self.ev_global(mod.consts[name], mod)
            self.globals_cache[key] = v
            return v
        if name in _BUILTINS:
            return Builtin(name)
        self.event('undefined', name, node)
        raise Raised('NameError', node, self.stack[-1] if self.stack else None)

    def ev_global(self, expr, mod):
        fake = ast.parse('0').body[0]
        self.stack.append(Fn(fake, mod))
        try:
            return self.ev(expr, {})
        finally:
            self.stack.pop()

    # ---- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Undecided('step limit')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, float, complex)):
            if isinstance(v, float) and (v != v or v in (float('inf'), -float('inf'))):
                return Poly.atom('inf')
            return Poly.const(v)
        return Opq(repr(v))

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e.elts, fr))

    def _elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                f = self.finite(v)
                if f is None:
                    raise Undecided('starred')
                out += f
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return self.new(PyList(self._elts(e.elts, fr)))

    def e_Set(self, e, fr):
        return self.mkset(self._elts(e.elts, fr))

    def mkset(self, xs):
        out = {}
        for x in xs:
            out.setdefault(self._hk(x), x)
        return self.new(PySet(list(out.values())))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Undecided('dict **')
            d[self._hk(self.ev(k, fr))] = self.ev(v, fr)
        return self.new(PyDict(d))

    def _hk(self, k):
        if isinstance(k, Ref):
            return ('ref', k.id)
        return k if isinstance(k, (str, bool, type(None), Poly, Ext, Cls)) else self.vkey(k)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, str):
                    parts.append(x)
                elif isinstance(x, Poly) and x.as_int() is not None:
                    parts.append(str(x.as_int()))
                else:
                    return Opq('fstr(%s)' % ','.join(parts + [self.vkey(x)]))
        return ''.join(parts)

    def e_Lambda(self, e, fr):
        return Fn(e, self.stack[-1].mod, closure=fr)

    def e_IfExp(self, e, fr):
        if self.decide(self.ev(e.test, fr), e):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.decide(v, e)
            if isand and not t:
                return v if not isinstance(v, (Cond, Opq)) else False
            if not isand and t:
                return v if not isinstance(v, (Cond, Opq)) else True
        if isinstance(v, (Cond, Opq)):
            return isand
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Cond):
                return v.negate()
            return not self.decide(v, e)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Poly):
                return -v
            if self.is_arr(v):
                r = self.rec(v)
                if r.ten is not None:
                    return self.arr(N.scale(r.ten, Poly.const(-1)), r.dt)
            if isinstance(v, Ref) and self.rec(v).kind == 'obj':
                return self.call(self.getattr(v, '__neg__', e), [], {}, e)
            return self.opq('neg', v)
        if isinstance(e.op, ast.UAdd):
            if isinstance(v, Ref) and self.rec(v).kind == 'obj':
                return self.call(self.getattr(v, '__pos__', e), [], {}, e)
            return v
        return self.opq('invert', v)

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b, e)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            r = self.compare(_CMP[type(op).__name__], left, right)
            if len(e.ops) == 1:
                return r
            if not self.decide(r, e):
                return False
            left = right
        return res

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr), e)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return Ellipsis
        return self.ev(s, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        f = self.finite(r)
        return r if f is None else self.mkset(f)

    def comp(self, e, fr):
        out = []
        loc = {'%closure': fr}
        sym = [None]

        def go(k):
            if k == len(e.generators):
                out.append(self.ev(e.elt, loc))
                return
            g = e.generators[k]
            it = self.ev(g.iter, loc)
            f = self.finite(it)
            if f is None:
                if len(e.generators) == 1 and not g.ifs:
                    sym[0] = self.symcomp(e, g, it, fr)
                    return
                raise Undecided('comprehension over symbolic iterable')
            for v in f:
                self.assign(g.target, v, loc)
                if all(self.decide(self.ev(c, loc), c) for c in g.ifs):
                    go(k + 1)
        go(0)
        if sym[0] is not None:
            return sym[0]
        return self.new(PyList(out))

    def symcomp(self, e, g, it, fr):
        length, elem = self.sym_iter(it)

        def gen(I, idx, e=e, g=g, elem=elem, fr=fr, stack=list(self.stack)):
            loc = {'%closure': fr}
            sv = I.stack
            I.stack = list(stack)
            try:
                I.assign(g.target, elem(I, idx), loc)
                return I.ev(e.elt, loc)
            finally:
                I.stack = sv
        return self.new(SymSeq(length, gen, 'comp@%s' % e.lineno))

    def sym_iter(self, it):
        if isinstance(it, Range):
            st = it.step.as_int()
            if st == 1:
                return it.hi - it.lo, lambda I, i: it.lo + i
            if st == -1:
                return it.lo - it.hi, lambda I, i: it.lo - i
        if isinstance(it, Ref):
            r = self.rec(it)
            if r.kind == 'sym':
                return r.length, lambda I, i: I.seqget(it, i)
            if r.kind == 'arr':
                d = self.dims_of(it)
                if d:
                    return d[0], lambda I, i: I.getitem(it, i, None)
        if isinstance(it, Opq):
            return Poly.atom('len(%s)' % it.key), lambda I, i: Opq('%s[%s]' % (it.key, i), it.roots)
        if isinstance(it, Zip):
            parts = [self.sym_iter(x) if self.finite(x) is None else None for x in it.its]
            if all(p is not None for p in parts):
                return parts[0][0], lambda I, i: tuple(p[1](I, i) for p in parts)
        if isinstance(it, Enum):
            l, el = self.sym_iter(it.it)
            return l, lambda I, i: (i, el(I, i))
        raise Undecided('iteration over %r' % (it,))

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.stack and self.stack[-1].cls:
            slf = fr.get(self.stack[-1].node.args.args[0].arg)
            if e.args:
                # super(Class,self)
                c = self.ev(e.args[0], fr)
                return SuperV(slf, c.node if isinstance(c, Cls) else self.stack[-1].cls[0])
            return SuperV(slf, self.stack[-1].cls[0])
        f = self.ev(e.func, fr)
        args = self._elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, Ref) and self.rec(v).kind == 'dict':
                    kw.update({kk: vv for kk, vv in self.rec(v).items.items()})
                elif isinstance(v, Opq):
                    kw['**'] = v
                else:
                    raise Undecided('**kwargs')
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, e)

    # ---- calls
    def call(self, f, args, kw, node):
        if isinstance(f, Bound):
            if isinstance(f.fn, PyFn):
                return f.fn.f(self, [f.self_] + list(args), kw, node)
            return self.call_fn(f.fn, [f.self_] + list(args), kw, node)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), kw, node)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k, node)
        if isinstance(f, PyFn):
            return f.f(self, list(args), kw, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, Mod) and f.name in self.prog.mods:
            raise Undecided('module call')
        if isinstance(f, Ext):
            return self.call_ext(f.name, list(args), kw, node)
        if isinstance(f, Builtin):
            return self.call_builtin(f, list(args), kw, node)
        if isinstance(f, Ref):
            r = self.rec(f)
            if r.kind == 'obj':
                m = self.prog.method(r.cls.node, r.cls.mod, '__call__')
                if isinstance(m, Fn):
                    return self.call(Bound(m, f), args, kw, node)
        if isinstance(f, Opq):
            self.event('opcall', (f.key, args, kw), node)
            return self.opq('call:' + f.key, *list(args) + list(kw.values()))
        if isinstance(f, Dt):
            return args[0] if args else ZERO
        if isinstance(f, bool) or f is None or isinstance(f, Poly):
            self.event('notcallable', self.vkey(f), node)
            raise Raised('TypeError', node, self.stack[-1] if self.stack else None)
        return self.opq('call:' + self.vkey(f), *args)

    def qual(self, f):
        return '%s.%s' % (f.mod.name, (f.cls[0].name + '.' if f.cls else '') + f.name)

    def call_fn(self, f, args, kw, node):
        q = self.qual(f)
        mdl = self.models.get(q) or self.models.get(q.split('.', 2)[-1] if q.startswith('lib.mpslib.') else q)
        if mdl is None and f.cls is not None:
            # a class attribute overridden in a subclass is modelled by name too
            mdl = self.models.get('*.' + f.name)
        if mdl is not None:
            r = mdl(self, args, kw, node)
            if r is not NotImplemented:
                return r
        if len(self.stack) >= self.maxdepth or sum(1 for x in self.stack if x.node is f.node) >= 3:
            return self.opq('rec:' + q, *args)
        fr = self.bind(f, args, kw, node)
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Undecided('generator function')
            try:
                self.exec_block(f.node.body, fr)
            except _Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def bind(self, f, args, kw, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        if f.closure is not None:
            fr['%closure'] = f.closure
        kw = dict(kw)
        star = kw.pop('**', None)
        if len(args) > len(names):
            if a.vararg is None:
                self.event('arity', (self.qual(f), len(args), len(names)), node)
                raise Raised('TypeError', node, self.stack[-1] if self.stack else None)
            fr[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        for n, v in zip(names, args):
            fr[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in fr:
                    self.event('arity', (self.qual(f), k), node)
                    raise Raised('TypeError', node, self.stack[-1] if self.stack else None)
                fr[k] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg is None:
                self.event('arity', (self.qual(f), sorted(extra)), node)
                raise Raised('TypeError', node, self.stack[-1] if self.stack else None)
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.new(PyDict(extra))
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in fr:
                fr[n] = self.ev_global(d, f.mod) if star is None else Opq('%s:%s' % (star.key, n))
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in fr and d is not None:
                fr[n] = self.ev_global(d, f.mod)
        for n in names + kwonly:
            if n not in fr:
                if star is not None:
                    fr[n] = Opq('%s:%s' % (star.key, n))
                    continue
                self.event('arity', (self.qual(f), 'missing ' + n), node)
                raise Raised('TypeError', node, self.stack[-1] if self.stack else None)
        return fr

    def instantiate(self, c, args, kw, node):
        q = '%s.%s' % (c.mod.name, c.name)
        mdl = self.models.get(q) or self.models.get(c.name)
        if mdl is not None:
            r = mdl(self, args, kw, node)
            if r is not NotImplemented:
                return r
        o = self.new(Inst(c, {}, self.fresh(c.name)))
        m = self.prog.method(c.node, c.mod, '__init__')
        if isinstance(m, Fn):
            self.call(Bound(m, o), args, kw, node)
        else:
            n = self.prog.method(c.node, c.mod, '__new__')
            if isinstance(n, Fn):
                return self.call(n, [c] + list(args), kw, node)
        return o

    # ---- the following are provided by ops.py
    def call_ext(self, name, args, kw, node):
        from . import ops
        return ops.call_ext(self, name, args, kw, node)

    def call_builtin(self, f, args, kw, node):
        from . import ops
        return ops.call_builtin(self, f, args, kw, node)

    def binop(self, op, a, b, node):
        from . import ops
        return ops.binop(self, op, a, b, node)

    def compare(self, op, a, b):
        from . import ops
        return ops.compare(self, op, a, b)

    def getitem(self, o, i, node):
        from . import ops
        return ops.getitem(self, o, i, node)

    def setitem(self, o, i, v, node):
        from . import ops
        return ops.setitem(self, o, i, v, node)

    def seqget(self, ref, idx):
        from . import ops
        return ops.seqget(self, ref, idx)

    def dt_of(self, v):
        from . import ops
        return ops.dt_of(self, v)


class SuperV:
    def __init__(self, self_, after):
        self.self_, self.after = self_, after


class Zip:
    def __init__(self, its):
        self.its = its


class Enum:
    def __init__(self, it):
        self.it = it


def _lin_truth(op, s):
    if op == 'lt':      # p < 0
        if s == '-':
            return True
        if s in ('0', '+', '>='):
            return False
    elif op == 'eq':
        if s == '0':
            return True
        if s in ('+', '-', '!='):
            return False
    return None


_CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Is': 'is', 'IsNot': 'is not',
        'In': 'in', 'NotIn': 'not in'}
_EXT_ALIAS = {'numpy.linalg.linalg.LinAlgError': 'numpy.linalg.LinAlgError'}
import builtins as _b
_BUILTINS = set(dir(_b))


def run_all(make, max_paths=64):
    """explore every trace partition.  make(script) -> (interp, result thunk) ; returns list of outcomes."""
    outs = []
    todo = [[]]
    t0 = time.time()
    while todo and len(outs) < max_paths and time.time() - t0 < 150:
        script = todo.pop()
        I, thunk = make()
        I.script = script
        try:
            res = ('ret', thunk(I))
        except Raised as r:
            res = ('raise', r)
        except Undecided as u:
            res = ('undecided', str(u))
        except N.Mismatch as m:
            res = ('mismatch', str(m))
        except BadResult as b:
            res = ('bad', str(b))
        except Infeasible:
            res = ('infeasible', None)
        outs.append((I, res))
        for k in range(len(script), len(I.trace)):
            # flip decision k
            todo.append([t[1] for t in I.trace[:k]] + [not I.trace[k][1]])
    if todo:
        outs.append((None, ('undecided', 'too many paths')))
    return outs
