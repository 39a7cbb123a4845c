"""Transfer functions of Python built-ins and numpy for the abstract interpreter."""
from fractions import Fraction
from . import net as N
from . import poly as PL
from .poly import Poly, ONE, ZERO
from .interp import (Arr, PyList, SymSeq, PyDict, Inst, Ref, Opq, Cond, Dt, DT_FLOAT, DT_CPLX, DT_INT, Ext, Mod, Cls, Fn, Bound,
                     Builtin, Partial, PyFn, Slice, Range, Zip, Enum, Undecided, Raised, SuperV)

POSITIVE = ('norm<', 'chi<', 'len(', 'size(')


def A(I, v):
    """array record or None"""
    if isinstance(v, Ref):
        r = I.rec(v)
        if r.kind == 'arr':
            return r
    return None


def ten(I, v):
    """Ten of a value or None; finite lists of arrays/scalars are stacked"""
    if isinstance(v, Poly):
        return N.Ten([N.Net(v, [], [])], 0)
    r = A(I, v)
    if r is not None:
        return r.ten
    f = None
    if isinstance(v, tuple):
        f = list(v)
    elif isinstance(v, Ref) and I.rec(v).kind == 'list':
        f = I.rec(v).items
    if f:
        parts = [ten(I, x) for x in f]
        if all(p is not None for p in parts) and len({p.ndim for p in parts}) == 1 and len(f) <= 64:
            nd = parts[0].ndim + 1
            nets = []
            d = Poly.const(len(f))
            i0 = N.newidx(d)
            for k, p in enumerate(parts):
                for n in p.nets:
                    n = n.rename()
                    if len(f) == 1:
                        nets.append(N.Net(n.coef, n.nodes, ((),) + n.outs))
                    else:
                        i = N.newidx(d)
                        lab = 'e[%d]' % k
                        N.REAL_LABELS.add(lab)
                        nets.append(N.Net(n.coef, n.nodes + (N.Node(lab, False, [(i,)]),), ((i,),) + n.outs))
            if not nets:
                return None
            return N.Ten(nets, nd)
    return None


def dt_of(I, v):
    if isinstance(v, Poly):
        if v.as_const() is not None:
            c = v.as_const()
            if isinstance(c, tuple):
                return DT_CPLX
            return DT_INT if isinstance(c, int) else DT_FLOAT
        if not all(im == 0 for _, im in v.t.values()):
            return DT_CPLX
        d = Dt((), True)
        for a in v.atoms():
            d = d.join(ATOM_DT.get(a, ATOM_DT.get(a[5:-1], DT_FLOAT) if a.startswith('conj(') else DT_FLOAT))
        return d
    if isinstance(v, Dt):
        return v
    r = A(I, v)
    if r is not None:
        return r.dt
    if isinstance(v, bool):
        return DT_INT
    if isinstance(v, Ext):
        return dtype_of_ext(v)
    if isinstance(v, Builtin) and v.name in ('float', 'int', 'complex', 'bool'):
        return {'float': DT_FLOAT, 'int': DT_INT, 'complex': DT_CPLX, 'bool': DT_INT}[v.name]
    if isinstance(v, Ref):
        rr = I.rec(v)
        if rr.kind == 'list':
            d = Dt((), True)
            for x in rr.items:
                y = dt_of(I, x)
                if y is None:
                    return None
                d = d.join(y)
            return d
    if isinstance(v, tuple):
        d = Dt((), True)
        for x in v:
            y = dt_of(I, x)
            if y is None:
                return None
            d = d.join(y)
        return d
    return None


ATOM_DT = {}


def dtype_of_ext(v):
    n = v.name.split('.')[-1]
    if n.startswith('complex') or n == 'cdouble':
        return DT_CPLX
    if n.startswith('float') or n == 'double':
        return DT_FLOAT
    if n.startswith('int') or n.startswith('uint') or n == 'bool_':
        return DT_INT
    return None


def dtarg(I, v):
    """a dtype argument -> Dt or None"""
    if isinstance(v, Dt):
        return v
    if isinstance(v, Ext):
        return dtype_of_ext(v)
    if isinstance(v, Builtin):
        return {'float': DT_FLOAT, 'int': DT_INT, 'complex': DT_CPLX, 'bool': DT_INT}.get(v.name)
    if isinstance(v, str):
        return DT_CPLX if v.startswith('complex') else DT_FLOAT
    if isinstance(v, Opq):
        return Dt(['dt:' + v.key])
    return None


def join_dt(*ds):
    d = Dt((), True)
    for x in ds:
        d = d.join(x if x is not None else Dt(['?']))
    return d


def mk(I, t, dt, base=None):
    if t.ndim == 0 and base is None:
        return to_scalar(I, t, dt)
    return I.arr(t, dt, base)


def to_scalar(I, t, dt=None):
    t = N.simplify(t)
    p = ZERO
    for n in t.nets:
        assert not n.nodes and not n.outs, n
        p = p + n.coef
    if dt is not None:
        for a in p.atoms():
            a = a[5:-1] if a.startswith('conj(') else a
            if a not in ATOM_DT and a.startswith('<'):
                ATOM_DT[a] = dt
    return p


def scal(I, v):
    """Poly for scalar-like values or None"""
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        return Poly.const(int(v))
    r = A(I, v)
    if r is not None and r.ten is not None and r.ten.ndim == 0:
        return to_scalar(I, r.ten, r.dt)
    return None


def elementwise(I, fname, v, dt=None, real=False):
    """opaque elementwise function of an array"""
    r = A(I, v)
    if r is None or r.ten is None:
        return I.opq(fname, v)
    t = N.simplify(r.ten)
    dims = t.legdims()
    if dims is None:
        dims = [Poly.atom('0dim')] * t.ndim
    if fname == 'abs' and len(t.nets) == 1 and all(nd.label.startswith(('S', 'cut[')) and nd.label in N.REAL_LABELS for nd in t.nets[0].nodes):
        p, rest = _posfactor(t.nets[0].coef)
        if p is not None:
            return I.arr(N.Ten([N.Net(p, t.nets[0].nodes, t.nets[0].outs)], t.ndim, t.dt), dt if dt is not None else r.dt)
    if fname in ('recip', 'sqrt'):
        rt = recip_net(t, fname)
        if rt is not None:
            return I.arr(rt, dt if dt is not None else r.dt)
    lab = '%s{%s}' % (fname, t.key())
    if real:
        N.REAL_LABELS.add(lab)
    # diagonal structure is kept for functions with f(0)=0
    return I.arr(N.Ten.atom(_short(lab, real), dims, real), dt if dt is not None else r.dt)


def recip_net(t, fname='recip'):
    """entrywise reciprocal / square root of a product of entries (selections pass through)"""
    if len(t.nets) != 1:
        return None
    n = t.nets[0]
    oi = n.outidx()
    if len(set(oi)) != len(oi) or len(n.coef.t) != 1:
        return None
    inner = {i for nd in n.nodes for i in nd.idx()} - set(oi)
    sel = {i for nd in n.nodes if nd.label.startswith('cut[') for i in nd.legs[0]}
    if inner - sel:
        return None
    if fname == 'sqrt' and (_posfactor(n.coef)[1] is None or not all(nd.label.startswith(('S', 'recip{S', 'cut[')) for nd in n.nodes)):
        return None             # roots of a product split only for non-negative entries (singular values)
    nodes = []
    for nd in n.nodes:
        if nd.label.startswith('cut['):
            nodes.append(nd)
        elif nd.label.startswith(('e[', 'RESHAPE')):
            return None
        elif fname == 'recip' and nd.label.startswith('recip{') and '{' not in nd.label[6:]:
            nodes.append(N.Node(nd.label[6:-1], nd.conj, nd.legs))
        else:
            lab = '%s{%s}' % (fname, nd.label)
            if nd.label in N.REAL_LABELS:
                N.REAL_LABELS.add(lab)
            nodes.append(N.Node(lab, nd.conj, nd.legs))
    c = n.coef.inv() if fname == 'recip' else n.coef.pow(Fraction(1, 2))
    return N.Ten([N.Net(c, nodes, n.outs)], t.ndim)


_lab = {}


def _short(lab, real):
    if len(lab) < 200:
        return lab
    if lab not in _lab:
        _lab[lab] = 'h%d' % len(_lab)
    if real:
        N.REAL_LABELS.add(_lab[lab])
    return lab.split('{')[0] + '{' + _lab[lab] + '}'


# ------------------------------------------------------------------ binary operators
def binop(I, op, a, b, node):
    if (a is None or b is None) and not isinstance(a, (Opq, Ref)) and not isinstance(b, (Opq, Ref)):
        raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
    # strings / lists / tuples
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, str) or isinstance(b, str):
            return I.opq('strcat', a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref) and I.rec(a).kind == 'list' and I.rec(b).kind == 'list':
            return I.new(PyList(I.rec(a).items + I.rec(b).items))
        ka = isinstance(a, Ref) and I.rec(a).kind in ('list', 'sym')
        kb = isinstance(b, Ref) and I.rec(b).kind in ('list', 'sym')
        if ka and kb:
            return concat(I, a, b)
    if op == 'Mod' and isinstance(a, str):
        strmod(I, a, b, node)
        return I.opq('strmod', a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and I.rec(x).kind == 'list' and isinstance(y, Poly):
                n = I.norm(y).as_int()
                items = I.rec(x).items
                if n is not None:
                    return I.new(PyList(items * n))
                if len(items) == 1:
                    v = items[0]
                    return I.new(SymSeq(y, lambda I_, i, v=v: v, 'repeat'))
                raise Undecided('list * symbol')
            if isinstance(x, (str,)) and isinstance(y, Poly):
                return I.opq('strmul', x, y)
    # sets
    if isinstance(a, Ref) and isinstance(b, Ref) and getattr(I.rec(a), 'isset', False) and getattr(I.rec(b), 'isset', False):
        sm = {'BitAnd': 'intersection', 'BitOr': 'union', 'Sub': 'difference', 'BitXor': 'symmetric_difference'}.get(op)
        if sm:
            return set_method(I, a, I.rec(a), sm, [b], node)
    # objects
    for x, y, pre in ((a, b, ''), (b, a, 'r')):
        if isinstance(x, Ref) and I.rec(x).kind == 'obj':
            dn = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul'}.get(op)
            m = I.prog.method(I.rec(x).cls.node, I.rec(x).cls.mod, '__%s%s__' % (pre, dn)) if dn else None
            if m is not None:
                return I.call(I.getattr(x, '__%s%s__' % (pre, dn), node), [y], {}, node)
            if pre == '' and isinstance(y, Ref) and I.rec(y).kind == 'obj':
                continue
            if pre == '' and any(s_.kind == 'obj' for s_ in [I.rec(x)]) and not I.external_base(x):
                I.event('undefined', '%s does not support %s' % (I.rec(x).cls.name, op), node)
                raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
            return I.opq(op, a, b)
    if isinstance(a, bool):
        a = Poly.const(int(a))
    if isinstance(b, bool):
        b = Poly.const(int(b))
    if isinstance(a, Cond) or isinstance(b, Cond):
        if op in ('BitAnd', 'BitOr'):
            def tv(x):
                return x if isinstance(x, bool) else I.decide(x, node)
            x = tv(a if not isinstance(a, Poly) else bool(a.as_const()))
            y = tv(b if not isinstance(b, Poly) else bool(b.as_const()))
            return (x and y) if op == 'BitAnd' else (x or y)
        return I.opq(op, a, b)
    sa, sb = scal(I, a), scal(I, b)
    if sa is not None and sb is not None:
        return polyop(I, op, sa, sb)
    ra, rb = A(I, a), A(I, b)
    if (ra is None and sa is None) or (rb is None and sb is None):
        ta, tb = ten(I, a) if not isinstance(a, Opq) else None, ten(I, b) if not isinstance(b, Opq) else None
        if ta is None or tb is None:
            if isinstance(a, (Opq, Poly, Ref, Cond)) or isinstance(b, (Opq, Poly, Ref)):
                return commut(I, op, a, b)
            return I.opq(op, a, b)
    else:
        ta = ra.ten if ra is not None else None
        tb = rb.ten if rb is not None else None
    dt = join_dt(dt_of(I, a), dt_of(I, b))
    if op == 'Div':
        dt = dt.join(DT_FLOAT)
    if sb is not None and ra is not None:
        if ta is None:
            return I.opq(op, a, b)
        if op == 'Mult':
            return I.arr(N.scale(ta, sb), dt)
        if op == 'Div':
            if sb.is_zero():
                I.nonfin = getattr(I, 'nonfin', []) + ['%s:%s' % (getattr(I.stack[-1], 'name', '') if I.stack else '', getattr(node, 'lineno', ''))]
                return I.opq(op, a, b)
            return I.arr(N.scale(ta, sb.inv()), dt)
        if op in ('Add', 'Sub'):
            if sb.is_zero():
                return I.arr(ta, dt)
            return I.arr(N.add(ta, const_tensor(ta, sb), 1 if op == 'Add' else -1), dt)
        return elementwise(I, '%s[%s]' % (op, sb), a, dt)
    if sa is not None and rb is not None:
        if tb is None:
            return I.opq(op, a, b)
        if op == 'Mult':
            return I.arr(N.scale(tb, sa), dt)
        if op in ('Add', 'Sub'):
            t = tb if op == 'Add' else N.scale(tb, Poly.const(-1))
            if sa.is_zero():
                return I.arr(t, dt)
            return I.arr(N.add(t, const_tensor(tb, sa), 1), dt)
        if op == 'Div':
            r = elementwise(I, 'recip', b, dt)
            return I.arr(N.scale(I.rec(r).ten, sa), dt) if A(I, r) else r
        return elementwise(I, '%s[%s].' % (op, sa), b, dt)
    if ta is None or tb is None:
        return commut(I, op, a, b)
    if op in ('Add', 'Sub'):
        if ta.ndim == tb.ndim:
            ta2, tb2 = agree(ta, tb)
            return I.arr(N.add(ta2, tb2, 1 if op == 'Add' else -1), dt)
        return I.opq(op, a, b)
    if op == 'Mult':
        r = hadamard(ta, tb)
        if r is not None:
            return I.arr(r, dt)
        return I.opq(op, a, b)
    if op == 'Div':
        rb_ = elementwise(I, 'recip', b, dt)
        if A(I, rb_) is not None:
            r = hadamard(ta, I.rec(rb_).ten)
            if r is not None:
                return I.arr(r, dt)
        return I.opq(op, a, b)
    if op == 'MatMult':
        return np_dot(I, a, b, node)
    return I.opq(op, a, b)


def commut(I, op, a, b):
    if op in ('Add', 'Mult'):
        x, y = sorted((a, b), key=lambda v: I.vkey(v))
        return I.opq(op, x, y)
    return I.opq(op, a, b)


def agree(ta, tb):
    """unify leg dims of two summands"""
    da, db = ta.legdims(), tb.legdims()
    if da is not None and db is not None:
        for x, y in zip(da, db):
            if x != y and not N.DIMS.unify(x, y):
                if (x.as_int() is not None and y.as_int() is not None) and 1 not in (x.as_int(), y.as_int()):
                    raise N.Mismatch('sum of arrays of different shape %s %s' % (x, y))
    return ta, tb


def const_tensor(t, c):
    dims = t.legdims()
    if dims is None:
        raise Undecided('shape of a constant array')
    outs = []
    for d in dims:
        if N.DIMS.find(d) == ONE:
            outs.append(())
        else:
            outs.append((N.newidx(d),))
    return N.Ten([N.Net(c, [], outs)], t.ndim)


def hadamard(ta, tb):
    nd = max(ta.ndim, tb.ndim)
    while ta.ndim < nd:
        ta = N.expand(ta, 0)
    while tb.ndim < nd:
        tb = N.expand(tb, 0)
    nets = []
    for n in ta.nets:
        for m in tb.nets:
            n2, m2 = n.rename(), m.rename()
            x = N.Net(n2.coef * m2.coef, n2.nodes + m2.nodes, n2.outs + m2.outs)
            pairs, keep = [], []
            for k in range(nd):
                if x.outs[k] == ():
                    keep.append(nd + k)
                elif x.outs[nd + k] == ():
                    keep.append(k)
                else:
                    keep.append(k)
                    pairs.append((k, nd + k))
            nets.append(N._join(x, pairs, keep))
    return N.Ten(nets, nd)


def polyop(I, op, a, b):
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift') and a.as_int() is not None and b.as_int() is not None:
        x, y = a.as_int(), b.as_int()
        return Poly.const({'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'LShift': lambda: x << y, 'RShift': lambda: x >> y}[op]())
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        if getattr(I, 'round_div', False):
            # the machine's rounding of a quotient of constants
            ca, cb = a.as_const(), b.as_const()
            if isinstance(ca, (int, Fraction)) and isinstance(cb, (int, Fraction)) and cb:
                return Poly.const(Fraction(float(Fraction(ca) / Fraction(cb))))
        return a / b
    if op == 'Pow':
        c = b.as_const()
        if c is not None and not isinstance(c, tuple):
            if a.as_const() is not None and a.as_const() == -1 and isinstance(c, int):
                return Poly.const((-1) ** (c % 2))
            return a.pow(Fraction(c))
        if a.as_const() == -1 or a == Poly.const(-1):
            return parity_pow(b)
        return Poly.atom('pow(%s,%s)' % (a, b))
    a, b = I.norm(a), I.norm(b)
    ca, cb = a.as_const(), b.as_const()
    if ca is not None and cb is not None and not isinstance(ca, tuple) and not isinstance(cb, tuple) and cb != 0:
        if op == 'FloorDiv':
            return Poly.const(Fraction(ca) // Fraction(cb))
        if op == 'Mod':
            return Poly.const(Fraction(ca) % Fraction(cb))
    if op == 'Mod' and isinstance(cb, int) and cb > 0:
        # reduce integer-coefficient terms
        t = ZERO
        for m, (re, im) in a.t.items():
            if im == 0 and re.denominator == 1:
                re = re % cb
            if re or im:
                t = t + Poly({m: (Fraction(re), im)})
        if t.as_const() is not None:
            return t
        return Poly.atom('mod(%s,%s)' % (t, b))
    if op == 'FloorDiv':
        return Poly.atom('floordiv(%s,%s)' % (a, b))
    return Poly.atom('%s(%s,%s)' % (op, a, b))


def parity_pow(b):
    out = ONE
    t = ZERO
    for m, (re, im) in b.t.items():
        re = re % 2 if re.denominator == 1 else re
        if re:
            t = t + Poly({m: (re, im)})
    if t.as_const() is not None:
        return Poly.const(-1 if t.as_const() else 1)
    p = Poly.atom('(-1)^(%s)' % t)
    return p


# ------------------------------------------------------------------ comparisons
def compare(I, op, a, b):
    if op in ('is', 'is not'):
        neg = op == 'is not'
        if a is None or b is None:
            r = (a is None) and (b is None)
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                return Cond('%s is None' % o.key, neg)
            return r != neg
        op = '!=' if neg else '=='
    if op in ('in', 'not in'):
        f = I.finite(b)
        if isinstance(b, Ref) and I.rec(b).kind == 'dict':
            f = list(I.rec(b).items)
            k = I._hk(a)
            if all(isinstance(x, (str, Poly)) for x in f) and isinstance(k, (str, Poly)):
                return (k in f) != (op == 'not in')
        if f is None:
            return Cond('in(%s,%s)' % (I.vkey(a), I.vkey(b)), op == 'not in')
        for x in f:
            c = compare(I, '==', a, x)
            if I.decide(c):
                return op == 'in'
        return op == 'not in'
    neg = op == '!='
    if op in ('==', '!='):
        if isinstance(a, bool) and isinstance(b, Poly):
            a = Poly.const(int(a))
        if isinstance(b, bool) and isinstance(a, Poly):
            b = Poly.const(int(b))
        if isinstance(a, Cond) and isinstance(b, bool):
            return a if (b != neg) else a.negate()
        if isinstance(b, Cond) and isinstance(a, bool):
            return b if (a != neg) else b.negate()
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return not neg
            if isinstance(o, (Opq,)):
                return Cond('%s == None' % o.key, neg)
            if A(I, o) is not None:
                return neg    # array==None : elementwise False
            return neg
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) != neg
            o, s = (a, b) if isinstance(b, str) else (b, a)
            if isinstance(o, Opq):
                return Cond('%s == %r' % (o.key, s), neg)
            return neg
        if isinstance(a, bool) and isinstance(b, bool):
            return (a == b) != neg
        if isinstance(a, Dt) or isinstance(b, Dt) or isinstance(a, Ext) or isinstance(b, Ext):
            x, y = dtarg(I, a), dtarg(I, b)
            if x is not None and y is not None:
                if x == y:
                    return not neg
                if x.src <= {'complex'} and y.src <= {'complex'}:
                    return neg
                return Cond('dteq(%r,%r)' % tuple(sorted((x, y), key=repr)), neg)
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a == b) != neg
            return Cond('eq(%s,%s)' % tuple(sorted((I.vkey(a), I.vkey(b)))), neg)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return neg
            for x, y in zip(a, b):
                if not I.decide(compare(I, '==', x, y)):
                    return neg
            return not neg
        if isinstance(a, Cls) and isinstance(b, Cls):
            return (a == b) != neg
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b and A(I, a) is None:
            return not neg
        if isinstance(a, Ref) and isinstance(b, Ref) and I.rec(a).kind == 'list' and I.rec(b).kind == 'list':
            fa, fb = I.finite(a), I.finite(b)
            if fa is not None and fb is not None:
                if len(fa) != len(fb):
                    return neg
                for x, y in zip(fa, fb):
                    if A(I, x) is not None and A(I, y) is not None:
                        if x is y or x == y:
                            continue
                    if not I.decide(compare(I, '==', x, y)):
                        return neg
                return not neg
    if op in ('<', '>', '<=', '>='):
        for x, y in ((a, b), (b, a)):
            if (x is None or isinstance(x, (str, tuple)) or isinstance(x, Ref) and I.rec(x).kind in ('list', 'dict')) and isinstance(y, Poly):
                raise Raised('TypeError', getattr(I, 'node', None), I.stack[-1] if I.stack else None)
    sa, sb = scal(I, a), scal(I, b)
    if isinstance(a, Opq) and sb is not None and a.key.endswith(')') and not a.roots:
        sa = Poly.atom('val:' + a.key)
    if isinstance(b, Opq) and sa is not None and not b.roots:
        sb = Poly.atom('val:' + b.key)
    if sa is not None and sb is not None:
        p = I.norm(sa - sb)
        if op in ('==', '!='):
            c = p.as_const()
            if c is not None:
                return (c == 0) != neg
            s = I.sign(p)
            if s == '0':
                return not neg
            if s in ('+', '-'):
                return neg
            q = p if _lead(p) else -p
            return Cond('eq0(%s)' % q.key(), neg, ('eq', q))
        # normalise to p<0
        if op == '<':
            q, ng = p, False
        elif op == '>=':
            q, ng = p, True
        elif op == '>':
            q, ng = -p, False
        else:
            q, ng = -p, True
        c = q.as_const()
        if c is not None and not isinstance(c, tuple):
            return (c < 0) != ng
        # integers: not (q<0) == (-q-1<0); canonical orientation so that both spellings share a key
        integral = all(re.denominator == 1 and im == 0 for re, im in q.t.values()) and all(
            ex.denominator == 1 and ex > 0 for m in q.t for _, ex in m) and not any('norm<' in a_ or 'val:' in a_ or a_.startswith('<') for a_ in q.atoms())
        if integral and not _lead(q):
            q, ng = -q - ONE, not ng
        from .interp import _lin_truth
        v = _lin_truth('lt', I.sign(q)) if integral else None
        if v is not None:
            return v != ng
        return Cond('lt0(%s)' % q.key(), ng, ('lt', q) if integral else None)
    if isinstance(a, Poly) or isinstance(b, Poly) or isinstance(a, Opq) or isinstance(b, Opq) or A(I, a) or A(I, b):
        ra, rb = A(I, a), A(I, b)
        if ra is not None or rb is not None:
            roots = ()
            flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
            if (ra is None) or (rb is not None and op in ('>', '>=')) or (rb is not None and op in ('==', '!=') and I.vkey(b) < I.vkey(a)):
                a, b, ra, rb, op = b, a, rb, ra, flip.get(op, op)
            v, x = a, b
            f, sx = entries_of(I, v), scal(I, x)
            if getattr(I, 'fullrank', False) and sx is not None and op in ('<', '>', '<=', '>='):
                # assumption of the obligation: every weight lies above the cut-off
                return AllMask((op[0] == '>') == (ra is not None), I.dims_of(v))
            if f is not None and sx is not None and op in ('==', '!='):
                s = [I.sign(p - sx) for p in f]
                if all(z in ('0', '+', '-') for z in s):
                    return I.new(PyList([(z == '0') != neg for z in s]))
            return Opq('cmp%s(%s,%s)' % (op, I.vkey(a), I.vkey(b)), roots)
        if op in ('==', '!='):
            return Cond('eq(%s,%s)' % tuple(sorted((I.vkey(a), I.vkey(b)))), neg)
        if op in ('>', '<='):
            return Cond('lt(%s,%s)' % (I.vkey(b), I.vkey(a)), op == '<=')
        return Cond('lt(%s,%s)' % (I.vkey(a), I.vkey(b)), op == '>=')
    if op in ('==', '!='):
        if type(a) is not type(b):
            return neg
        return Cond('eq(%s,%s)' % tuple(sorted((I.vkey(a), I.vkey(b)))), neg)
    return Cond('%s(%s,%s)' % (op, I.vkey(a), I.vkey(b)))


def _lead(p):
    ms = sorted((m for m in p.t if m), key=lambda m: [(a, e) for a, e in m])
    if not ms:
        return True
    return p.t[ms[0]][0] > 0 or (p.t[ms[0]][0] == 0 and p.t[ms[0]][1] > 0)


# ------------------------------------------------------------------ sequences
def concat(I, a, b):
    la, lb = seqlen(I, a), seqlen(I, b)

    def gen(I_, i, a=a, b=b, la=la):
        s = I_.sign(i - la)
        if s == '-':
            return I_.getitem(a, i, None)
        if s in ('+', '0', '>='):
            return I_.getitem(b, i - la, None)
        if I_.decide(compare(I_, '<', i, la)):
            return I_.getitem(a, i, None)
        return I_.getitem(b, i - la, None)
    return I.new(SymSeq(la + lb, gen, 'concat'))


def seqlen(I, v):
    r = I.rec(v)
    if r.kind == 'list':
        return Poly.const(len(r.items))
    return r.length


def seqget(I, ref, idx):
    r = I.rec(ref)
    idx = I.norm(idx)
    c = idx.as_int()
    if c is not None and c < 0:
        idx = I.norm(r.length + idx)
    for k, v in reversed(r.over):
        d = I.norm(k - idx)
        if d.is_zero():
            return v
        s = I.sign(d)
        if s == '0':
            return v
        if s in ('+', '-'):
            continue
        if I.decide(compare(I, '==', k, idx)):
            return v
    key = idx.key()
    if key not in r.memo:
        r.memo[key] = r.gen(I, idx)
    return r.memo[key]


def getitem(I, o, i, node):
    if isinstance(o, tuple):
        if isinstance(i, Poly):
            k = I.norm(i).as_int()
            if k is None:
                raise Undecided('tuple index')
            if not -len(o) <= k < len(o):
                raise Raised('IndexError', node, I.stack[-1] if I.stack else None)
            return o[k]
        if isinstance(i, Slice):
            s = _pyslice(I, i)
            if s is not None:
                return o[s]
            # shape[lo:hi] with symbolic bounds
        raise Undecided('tuple index')
    if isinstance(o, str):
        return I.opq('str[]', o, i)
    if isinstance(o, Opq):
        return I.opq('item', o, _ik(i))
    if isinstance(o, (Cls, Builtin, Ext)):
        return Opq('generic')
    if isinstance(o, Poly):
        return Opq('item(%s,%s)' % (o, I.vkey(_ik(i))))
    if not isinstance(o, Ref):
        raise Undecided('getitem %r' % (o,))
    r = I.rec(o)
    if r.kind == 'list':
        if isinstance(i, Poly):
            k = I.norm(i).as_int()
            if k is None:
                sel = None
                if r.items and all(x == r.items[0] for x in r.items) and not isinstance(r.items[0], Ref):
                    return r.items[0]
                raise Undecided('list index %s' % i)
            if not -len(r.items) <= k < len(r.items):
                raise Raised('IndexError', node, I.stack[-1] if I.stack else None)
            return r.items[k]
        if isinstance(i, Slice):
            s = _pyslice(I, i)
            if s is None:
                raise Undecided('list slice')
            return I.new(PyList(r.items[s]))
        raise Undecided('list index kind')
    if r.kind == 'dict':
        k = I._hk(i)
        if k in r.items:
            return r.items[k]
        if all(isinstance(x, (str, Poly)) for x in r.items) and isinstance(k, (str,)):
            raise Raised('KeyError', node, I.stack[-1] if I.stack else None)
        return I.opq('dictget', o, i if not isinstance(i, Ref) else I.vkey(i))
    if r.kind == 'sym':
        if isinstance(i, Poly):
            return seqget(I, o, i)
        if isinstance(i, Slice):
            if i.step is None or (isinstance(i.step, Poly) and i.step == ONE):
                lo = i.lo if i.lo is not None else ZERO
                hi = i.hi if i.hi is not None else r.length
                if isinstance(lo, Poly) and isinstance(hi, Poly):
                    for nm, v in (('lo', lo), ('hi', hi)):
                        c = v.as_int()
                        if c is not None and c < 0:
                            if nm == 'lo':
                                lo = r.length + v
                            else:
                                hi = r.length + v
                    return I.new(SymSeq(hi - lo, lambda I_, k, o=o, lo=lo: seqget(I_, o, lo + k), 'slice'))
            if isinstance(i.step, Poly) and i.step.as_int() == -1 and i.lo is None and i.hi is None:
                L = r.length
                return I.new(SymSeq(L, lambda I_, k, o=o, L=L: seqget(I_, o, L - ONE - k), 'reversed'))
        raise Undecided('sequence slice')
    if r.kind == 'obj':
        m = I.prog.method(r.cls.node, r.cls.mod, '__getitem__')
        if isinstance(m, Fn):
            return I.call(Bound(m, o), [i], {}, node)
        if '%data' in r.f:
            return getitem(I, r.f['%data'], i, node)
        return I.opq('item', o, _ik(i))
    if r.kind == 'arr':
        return arr_get(I, o, r, i, node)
    raise Undecided('getitem on %s' % r.kind)


def _ik(i):
    if isinstance(i, tuple):
        return tuple(_ik(x) for x in i)
    if isinstance(i, Slice):
        return (i.lo, i.hi, i.step)
    return i if i is not Ellipsis else '...'


def _pyslice(I, i):
    v = []
    for x in (i.lo, i.hi, i.step):
        if x is None:
            v.append(None)
        elif isinstance(x, Poly):
            k = I.norm(x).as_int()
            if k is None:
                return None
            v.append(k)
        else:
            return None
    return slice(*v)


def _norm_index(I, ndim, i):
    if not isinstance(i, tuple):
        i = (i,)
    i = list(i)
    if Ellipsis in [x for x in i if x is Ellipsis]:
        k = [x is Ellipsis for x in i].index(True)
        rest = len([x for x in i if x is not Ellipsis and x is not None])
        i = i[:k] + [Slice(None, None, None)] * (ndim - rest) + i[k + 1:]
    while len([x for x in i if x is not None]) < ndim:
        i.append(Slice(None, None, None))
    return i


def _isfull(I, s, d):
    if not isinstance(s, Slice):
        return False
    if s.step is not None and not (isinstance(s.step, Poly) and s.step == ONE):
        return False
    lo0 = s.lo is None or (isinstance(s.lo, Poly) and I.norm(s.lo).is_zero())
    hi0 = s.hi is None or (isinstance(s.hi, Poly) and d is not None and N.DIMS.find(s.hi) == N.DIMS.find(d))
    return lo0 and hi0


def _idx1(I, x, d):
    """normalise an integer index against a known dimension"""
    x = I.norm(x)
    if d is not None:
        dd = N.DIMS.find(d).as_int()
        k = x.as_int()
        if dd is not None and k is not None:
            if dd > 0 and not -dd <= k < dd:
                raise Raised('IndexError', getattr(I, 'node', None), I.stack[-1] if I.stack else None)
            return Poly.const(k % dd)
        if k is None and dd is None:
            diff = x - N.DIMS.find(d)
            if diff.as_int() is not None and diff.as_int() < 0:
                return diff           # d-1 -> -1
    return x


class AllMask(Opq):
    """boolean array all of whose entries have one value"""
    def __init__(self, val, dims=None):
        Opq.__init__(self, 'allmask(%s)' % val)
        self.val, self.dims = val, dims


def _allmask(i):
    while isinstance(i, tuple) and len(i) == 1:
        i = i[0]
    return i if isinstance(i, AllMask) else None


def arr_get(I, o, r, i, node):
    t = r.ten
    if t is None:
        return I.opq('item', o, _ik(i))
    am = _allmask(i)
    if am is not None and t.ndim == 1:
        return I.arr(t, r.dt) if am.val else I.arr(N.Ten([], 1, None, [Poly.const(0)]), r.dt)
    idx = _norm_index(I, t.ndim, i)
    if len([x for x in idx if x is not None]) > t.ndim:
        I.event('indexerr', (t.ndim, len(idx)), node)
        raise Raised('IndexError', node, I.stack[-1] if I.stack else None)
    dims = I.dims_of(o) or [None] * t.ndim
    # plain read of an element or sub-block previously stored
    if r.cells:
        if all(isinstance(x, Poly) or _isfull(I, x, d) for x, d in zip(idx, dims)):
            want = tuple(_idx1(I, x, d).key() if isinstance(x, Poly) else ':' for x, d in zip(idx, dims))
            if want in r.cells:
                nd = sum(1 for w in want if w == ':')
                v = r.cells[want]
                if nd == 0:
                    return to_scalar(I, v, r.dt)
                return I.arr(v, r.dt, o)
    out = t
    ax = 0
    touched = False
    allconst = True
    for k, x in enumerate(idx):
        if x is None:
            out = N.expand(out, ax)
            ax += 1
            continue
        d = dims[ax_src(idx, k)] if dims else None
        if isinstance(x, Slice):
            if _isfull(I, x, d):
                ax += 1
                continue
            if x.step is None or (isinstance(x.step, Poly) and x.step == ONE):
                lo = x.lo if x.lo is not None else ZERO
                hi = x.hi if x.hi is not None else d
                if isinstance(lo, Poly) and isinstance(hi, Poly):
                    lo, hi = I.norm(lo), I.norm(hi)
                    hc, lc = hi.as_int(), lo.as_int()
                    if hc is not None and hc < 0 and d is not None:
                        hi = d + hi
                    if lc is not None and lc < 0 and d is not None:
                        lo = d + lo
                    if lo.is_zero():
                        out = cutmin(I, out, ax, hi)
                    else:
                        out = N.cut(out, ax, hi - lo, lo.key(), lo)
                    ax += 1
                    continue
            if x.lo is None and x.hi is None and isinstance(x.step, Poly) and x.step.as_int() == -1:
                out = reverse_axis(out, ax)
                ax += 1
                continue
            return I.opq('item', o, _ik(i))
        p = scal(I, x)
        if p is None:
            if isinstance(x, Opq) and 'cmp' in x.key[:6] and t.ndim == 1 or (isinstance(x, Opq) and len(idx) == 1 and t.ndim == 1):
                # boolean mask of a vector: a selection of entries
                d2 = Poly.atom('len(mask<%s>)' % x.key)
                lab = 'mask[%s]' % x.key
                return I.arr(_mask(out, lab, d2), r.dt)
            return I.opq('item', o, _ik(i))
        out = N.fix(out, ax, _idx1(I, p, d))
    if out.ndim == 0:
        return to_scalar(I, out, r.dt)
    return I.arr(out, r.dt, o)


def ax_src(idx, k):
    return len([x for x in idx[:k] if x is not None])


def cutmin(I, t, ax, hi):
    return N.cut(t, ax, hi)


def _mask(t, lab, d2):
    # singular values are sorted descending, so s[s>thresh] is the leading part of s
    nets = []
    for n in t.nets:
        n = n.rename()
        lead = lab.startswith(('mask[cmp>', 'mask[cmp>='))
        if lead and N.legdim(n.outs[0]) == ONE:
            nets.append(n)      # the only singular value is kept
            continue
        new = N.newidx(d2)
        l = ('cut[0:%s]' if lead else 'sel[%s]') % d2.key()
        N.REAL_LABELS.add(l)
        nets.append(N.Net(n.coef, n.nodes + (N.Node(l, False, [n.outs[0], (new,)]),), [(new,)]))
    return N.Ten(nets, 1)


def reverse_axis(t, ax):
    nets = []
    for n in t.nets:
        n = n.rename()
        new = N.newidx(N.legdim(n.outs[ax]))
        N.REAL_LABELS.add('FLIP')
        nets.append(N.Net(n.coef, n.nodes + (N.Node('FLIP', False, [n.outs[ax], (new,)]),), n.outs[:ax] + ((new,),) + n.outs[ax + 1:]))
    return N.Ten(nets, t.ndim)


def setitem(I, o, i, v, node):
    if isinstance(o, Opq):
        I.mutate(o, node, 'item assignment')
        return
    if not isinstance(o, Ref):
        raise Undecided('setitem')
    r = I.rec(o)
    if r.kind == 'list':
        I.event('mutate', (o, 'item assignment'), node)
        k = I.norm(i).as_int() if isinstance(i, Poly) else None
        if k is None:
            raise Undecided('list store at symbolic index')
        if not -len(r.items) <= k < len(r.items):
            raise Raised('IndexError', node, I.stack[-1] if I.stack else None)
        r.items[k] = v
        return
    if r.kind == 'dict':
        r.items[I._hk(i)] = v
        return
    if r.kind == 'sym':
        if not isinstance(i, Poly):
            raise Undecided('sequence slice store')
        I.event('mutate', (o, 'item assignment'), node)
        idx = I.norm(i)
        c = idx.as_int()
        if c is not None and c < 0:
            idx = I.norm(r.length + idx)
        I.event('seqstore', (o, idx, v), node)
        r.over = [(k, x) for k, x in r.over if not I.norm(k - idx).is_zero()] + [(idx, v)]
        return
    if r.kind == 'obj':
        m = I.prog.method(r.cls.node, r.cls.mod, '__setitem__')
        if isinstance(m, Fn):
            I.call(Bound(m, o), [i, v], {}, node)
            return
        if '%data' in r.f:
            setitem(I, r.f['%data'], i, v, node)
            return
        I.event('mutate', (o, 'item assignment'), node)
        return
    if r.kind == 'arr':
        arr_set(I, o, r, i, v, node)
        return
    raise Undecided('setitem on ' + r.kind)


def arr_set(I, o, r, i, v, node):
    I.mutate(o, node, 'item assignment')
    dv = dt_of(I, v)
    if dv is not None and not dv.le(r.dt):
        I.event('lossy', (o, dv, 'store into %r buffer' % (r.dt,)), node)
    if r.ten is None:
        return
    am = _allmask(i)
    if am is not None and r.ten.ndim == 1:
        if am.val:
            sv = scal(I, v)
            tv = ten(I, v) if sv is None else None
            if sv is not None and sv.is_zero():
                tv = N.Ten([], 1, None, I.dims_of(o))
            elif sv is not None:
                tv = const_tensor(r.ten, sv)
            I.write_through(o, tv)
        return
    if isinstance(i, Opq):
        sv = scal(I, v)
        c = sv.as_const() if sv is not None else None
        if c == 0 and (i.key.startswith('cmp<(') or i.key.startswith('cmp<=(')) and 'abs' in i.key:
            I.event('threshold', (o, i.key), node)     # entries below a rounding threshold are set to zero: no change
            return
        if c in (1, -1) and i.key.startswith('cmp==('):
            u = _where(I, [i, v, o], {}, node)
            if A(I, u) is not None:
                I.write_through(o, I.rec(u).ten)
                return
        I.write_through(o, None)
        return
    dims = I.dims_of(o) or [None] * r.ten.ndim
    idx = _norm_index(I, r.ten.ndim, i)
    tv = ten(I, v)
    ok = tv is not None and len(idx) == r.ten.ndim
    keyparts, kinds = [], []
    if ok:
        for x, d in zip(idx, dims):
            if isinstance(x, Slice):
                if _isfull(I, x, d):
                    keyparts.append(':')
                    kinds.append(('full', d))
                elif x.step is None and isinstance(x.lo if x.lo is not None else ZERO, Poly) and (x.hi is None or isinstance(x.hi, Poly)):
                    lo = I.norm(x.lo) if x.lo is not None else ZERO
                    hi = I.norm(x.hi) if x.hi is not None else d
                    keyparts.append('%s:%s' % (N.DIMS.find(lo).key(), N.DIMS.find(hi).key()))
                    kinds.append(('blk', lo, hi, d))
                else:
                    ok = False
            else:
                p = scal(I, x)
                if p is None:
                    ok = False
                else:
                    q = _idx1(I, p, d)
                    keyparts.append(q.key())
                    kinds.append(('pt', q, d))
    want = sum(1 for k in kinds if k[0] != 'pt')
    if ok and tv.ndim < want and tv.ndim == 0:
        # broadcast scalar
        outs = []
        for k in kinds:
            if k[0] == 'full':
                dd = N.DIMS.find(k[1])
            elif k[0] == 'blk':
                dd = N.DIMS.find(k[2] - k[1])
            else:
                continue
            outs.append(() if dd == ONE else (N.newidx(dd),))
        tv = N.Ten([N.Net(n.coef, n.nodes, outs) for n in tv.nets], want)
    if ok and tv.ndim > want:
        # leading size-one axes are dropped by broadcasting
        while tv.ndim > want and tv.nets and N.legdim(tv.nets[0].outs[0]) == ONE:
            tv = N.Ten([N.Net(n.coef, n.nodes, n.outs[1:]) for n in tv.nets], tv.ndim - 1)
    if not ok or tv.ndim != want:
        I.write_through(o, None)
        return
    # dims agreement of full legs
    ds = tv.legdims()
    if ds is not None:
        j = 0
        for k in kinds:
            if k[0] == 'pt':
                continue
            tgt = k[1] if k[0] == 'full' else k[2] - k[1]
            if ds[j] != N.DIMS.find(tgt):
                if not N.DIMS.unify(ds[j], tgt):
                    a_, b_ = N.DIMS.find(ds[j]).as_int(), N.DIMS.find(tgt).as_int()
                    if a_ is not None and b_ is not None and a_ != 1:
                        raise N.Mismatch('stored block of dimension %s into %s' % (a_, b_))
            j += 1
    if all(k[0] == 'full' for k in kinds):
        I.write_through(o, tv)
        I.rec(o).cells = {}
        I.rec(o).cells = None
        return
    key = tuple(keyparts)
    cells = r.cells
    if cells is None:
        cells = {} if not r.ten.nets else {('%base',): r.ten}
    _cell_ten(I, kinds, tv)      # registers the key
    new = {}
    for k2, v2 in cells.items():
        if k2 == key:
            continue
        if k2 != ('%base',) and not _disjoint(I, kinds, _kinds_from_key(I, k2, dims)):
            I.write_through(o, None)
            return
        new[k2] = v2
    base = new.pop(('%base',), None)
    new[key] = tv
    total = None
    for k2, v2 in new.items():
        c = _cell_ten(I, _kinds_from_key(I, k2, dims), v2)
        total = c if total is None else N.add(total, c)
    if base is not None and not _covers([_kinds_from_key(I, k2, dims) for k2 in new], len(dims)):
        dd = base.legdims()
        if dd is None:
            I.write_through(o, None)
            return
        rest = _slabs(base, dd, [_kinds_from_key(I, k2, dims) for k2 in new])
        if rest is None:
            lab = _short('MASKED{%s|%s}' % (base.key(), ' '.join(sorted(';'.join(k2) for k2 in new))), False)
            rest = N.Ten.atom(lab, dd)
        total = N.add(rest, total) if rest.nets else total
        new[('%base',)] = base
    dd = I.rec(o).dims
    I.write_through(o, total)
    r2 = I.rec(o)
    r2.cells = new
    r2.dims = dd if dd is not None else tuple(dims)


def _slabs(base, dd, cells):
    """base with the written cells removed, when every cell is given by concrete positions along short axes of concrete length; else None"""
    import itertools
    axes, pos = set(), []
    for kinds in cells:
        at = {}
        for ax, k in enumerate(kinds):
            if k[0] == 'full':
                continue
            v = k[1].as_int() if k[0] == 'pt' else None
            m = N.DIMS.find(dd[ax]).as_int()
            if v is None or m is None or not -m <= v < m:
                return None
            at[ax] = v % m
        if not at:
            return None
        axes |= set(at)
        pos.append(at)
    axes = sorted(axes)
    ms = [N.DIMS.find(dd[ax]).as_int() for ax in axes]
    tot = 1
    for m in ms:
        tot *= m
    if tot > (8 if len(axes) == 1 else 40):
        return None
    out = []
    for at in itertools.product(*map(range, ms)):
        w = dict(zip(axes, at))
        if any(all(w[ax] == v for ax, v in q.items()) for q in pos):
            continue
        f = base
        for ax in reversed(axes):
            f = N.fix(f, ax, w[ax])
        for n in f.nets:
            nodes, outs = list(n.nodes), list(n.outs)
            for ax in axes:
                N.REAL_LABELS.add('e[%s]' % (w[ax],))
                i = N.newidx(N.DIMS.find(dd[ax]))
                nodes.append(N.basis((i,), w[ax]))
                outs.insert(ax, (i,))
            out.append(N.Net(n.coef, nodes, outs))
    return N.Ten(out, len(dd))


def _covers(cells, n, ax=0):
    """do the cells (lists of kinds) cover the whole index space of axes ax..n-1?"""
    if ax == n:
        return bool(cells)
    d = next((k[ax][-1] for k in cells if k[ax][-1] is not None), None)
    d = N.DIMS.find(d) if d is not None else None
    groups = {}
    for k in cells:
        q = k[ax]
        if q[0] == 'full' or q[0] == 'pt' and d == ONE:
            g = 'all'
        elif q[0] == 'pt':
            g = ('pt', q[1].key())
        else:
            g = ('blk', N.DIMS.find(q[1]).key(), N.DIMS.find(q[2]).key())
        groups.setdefault(g, []).append(k)
    whole = groups.get('all', [])
    ok = {g for g, ks in groups.items() if _covers(ks + (whole if g != 'all' else []), n, ax + 1)}
    if 'all' in ok:
        return True
    c = d.as_int() if d is not None else None
    pts = set()
    for g in ok:
        if g[0] == 'pt':
            try:
                v = int(g[1])
            except ValueError:
                continue
            pts.add(v % c if c else v)
    at, seen = '0', 0
    blks = {g[1]: g[2] for g in ok if g[0] == 'blk'}
    end = d.key() if d is not None else None
    while at is not None and at != end and seen < 64:
        seen += 1
        if at in blks:
            at = blks[at]
        elif at.isdigit() and int(at) in pts:
            at = str(int(at) + 1)
        else:
            return False
    return at == end


_kindcache = {}


def _kinds_from_key(I, key, dims):
    return _kindcache[(key, len(dims))](dims)


def _cell_ten(I, kinds, tv):
    """tensor of full shape with tv placed in the cell"""
    key = []
    nets = []
    for n in tv.nets:
        n = n.rename()
        outs = []
        nodes = list(n.nodes)
        j = 0
        for k in kinds:
            if k[0] == 'pt':
                d = k[2]
                if d is not None and N.DIMS.find(d) == ONE:
                    outs.append(())
                    continue
                i = N.newidx(d if d is not None else Poly.atom(I.fresh('~d')))
                lab = 'e[%s]' % (k[1],)
                N.REAL_LABELS.add(lab)
                nodes.append(N.Node(lab, False, [(i,)]))
                outs.append((i,))
            elif k[0] == 'full':
                outs.append(n.outs[j])
                j += 1
            else:
                i = N.newidx(k[3])
                lab = 'emb[%s]' % N.DIMS.find(k[1]).key()
                N.EMB[lab] = k[1]
                N.REAL_LABELS.add(lab)
                nodes.append(N.Node(lab, False, [n.outs[j], (i,)]))
                outs.append((i,))
                j += 1
        nets.append(N.Net(n.coef, nodes, outs))
    kk = []
    for k in kinds:
        kk.append(':' if k[0] == 'full' else (k[1].key() if k[0] == 'pt' else '%s:%s' % (N.DIMS.find(k[1]).key(), N.DIMS.find(k[2]).key())))
    _kindcache[(tuple(kk), len(kinds))] = lambda dims, kinds=list(kinds): [
        (k[0], d) if k[0] == 'full' else ((k[0], k[1], d) if k[0] == 'pt' else (k[0], k[1], k[2], d)) for k, d in zip(kinds, dims)]
    return N.Ten(nets, len(kinds))


def _disjoint(I, k1, k2):
    """are two cells (lists of kinds) certainly disjoint?"""
    def rng(k):
        if k[0] == 'full':
            return None
        if k[0] == 'pt':
            lo = k[1]
            c = lo.as_int()
            if c is not None and c < 0 and k[2] is not None:
                lo = N.DIMS.find(k[2]) + lo
            return lo, lo + ONE
        return k[1], k[2]
    for a, b in zip(k1, k2):
        x, y = rng(a), rng(b)
        if x is None or y is None:
            continue
        for (l1, h1), (l2, h2) in ((x, y), (y, x)):
            g = I.norm(N.DIMS.find(l2 - h1))
            if g.is_zero() or I.sign(g) in ('+', '0'):
                return True
            c = g.as_int()
            if c is not None and c >= 0:
                return True
    return False


# ------------------------------------------------------------------ numpy and python functions
def _axes(I, ax):
    """axes argument of tensordot -> (list,list) or None"""
    f = I.finite(ax)
    if f is None:
        c = scal(I, ax)
        return c
    out = []
    for x in f:
        g = I.finite(x)
        if g is None:
            c = scal(I, x)
            if c is None or c.as_int() is None:
                raise Undecided('tensordot axes')
            g = [c]
        out.append([I.norm(y).as_int() for y in g])
    if len(out) != 2 or any(None in o for o in out):
        raise Undecided('tensordot axes')
    return out


def _intlist(I, v):
    f = I.finite(v)
    if f is None:
        return None
    o = [I.norm(x).as_int() if isinstance(x, Poly) else None for x in f]
    return None if None in o else o


def np_dot(I, a, b, node):
    sa, sb = scal(I, a), scal(I, b)
    if sa is not None or sb is not None:
        return binop(I, 'Mult', a, b, node)
    ta, tb = ten(I, a), ten(I, b)
    if ta is None or tb is None:
        return I.opq('dot', a, b)
    dt = join_dt(dt_of(I, a), dt_of(I, b))
    return mk(I, N.tensordot(ta, tb, [ta.ndim - 1], [0 if tb.ndim == 1 else tb.ndim - 2]), dt)


def shape_arg(I, args):
    """dims list from a shape argument (tuple/list/int or several ints)"""
    if len(args) == 1:
        f = I.finite(args[0])
        if f is None:
            s = scal(I, args[0])
            if s is None:
                return None
            f = [s]
    else:
        f = list(args)
    out = []
    for x in f:
        s = scal(I, x)
        if s is None:
            return None
        out.append(I.norm(s))
    return out


def new_array(I, kind, shp, dt):
    if shp is None:
        return Opq(I.fresh(kind))
    if kind == 'zeros':
        r = Arr(N.Ten([], len(shp), None, list(shp)), dt, None, None, {}, tuple(shp))
        if len(shp) == 0:
            return ZERO
        return I.new(r)
    if kind == 'ones':
        outs = [() if N.DIMS.find(d) == ONE else (N.newidx(d),) for d in shp]
        return I.new(Arr(N.Ten([N.Net(ONE, [], outs)], len(shp)), dt, None, None, None, tuple(shp)))
    lab = I.fresh(kind)
    return I.new(Arr(N.Ten.atom(lab, shp), dt, None, lab, None, tuple(shp)))


def argget(args, kw, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kw.get(name, default)


def np_norm(I, v):
    r = A(I, v)
    if r is None:
        s = scal(I, v)
        if s is not None:
            if s.as_const() is not None and not isinstance(s.as_const(), tuple):
                return Poly.const(abs(s.as_const()))
            return Poly.atom('abs(%s)' % s)
        return Poly.atom('norm<%s>' % I.vkey(v))
    if r.ten is None:
        return Poly.atom('norm<%s>' % I.vkey(v))
    t = N.simplify(r.ten)
    if not t.nets:
        return Poly.const(0)
    if len(t.nets) == 1:
        n = t.nets[0]
        f, rest = _posfactor(n.coef)
        if rest is not None:
            x = N.norm_atom(n)
            if x is not None:
                return f * x
    return Poly.atom('norm<' + _short2(t.key()) + '>')


_s2 = {}


def _short2(k):
    return k


def _posfactor(c):
    """|c| if c is a monomial of positive atoms"""
    if len(c.t) != 1:
        return None, None
    (m, (a, b)), = c.t.items()
    m = tuple((x, e) for x, e in m if x not in PL.UNIT_ATOMS)
    if not all(x.startswith(POSITIVE) or x.startswith('#') for x, _ in m):
        return None, None
    n = a * a + b * b
    return Poly.const(n).pow(Fraction(1, 2)) * Poly({m: (Fraction(1), Fraction(0))}), ONE


INPLACE_EXT = {'numpy.copyto', 'numpy.fill_diagonal', 'numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis', 'numpy.random.shuffle', 'random.shuffle',
               'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at'}


def _clobber(I, o, node, how):
    I.mutate(o, node, how)
    for r in I.roots(o):
        if I.rec(r).kind == 'arr':
            I.write_through(r, None)


def call_ext(I, name, args, kw, node):
    if name in INPLACE_EXT and args:
        _clobber(I, args[0], node, name)
        return None
    o = kw.get('out')
    if isinstance(o, Ref) and I.rec(o).kind == 'arr':
        kw = {k: v for k, v in kw.items() if k != 'out'}
        res = call_ext(I, name, args, kw, node)
        I.mutate(o, node, 'out= of ' + name)
        d = I.dt_of(res)
        if d is not None and not d.le(I.rec(o).dt):
            I.event('lossy', (o, d, 'out= of ' + name), node)
        I.write_through(o, ten(I, res))
        return o
    for k in kw:
        if k.startswith('overwrite_') and kw[k] is True and args:
            _clobber(I, args[0], node, '%s(%s=True)' % (name, k))
    short = name[6:] if name.startswith('numpy.') else None
    f = EXT.get(name)
    mdl = I.models.get('ext:' + name)
    if mdl is not None:
        r = mdl(I, args, kw, node)
        if r is not NotImplemented:
            return r
    if f is not None:
        try:
            r = f(I, args, kw, node)
        except (IndexError, KeyError, AttributeError, AssertionError) as e:
            raise Undecided('%s: %s' % (name, e))
        return r
    if name.endswith('.result_type'):
        return np_result_type(I, args)
    for a in list(args) + list(kw.values()):
        if isinstance(a, (Fn, Bound, Partial)) or isinstance(a, Ref) and I.rec(a).kind == 'obj':
            pass
    I.event('ext', (name, tuple(args), dict(kw)), node)
    return I.opq(name, *(list(args) + [kw[k] for k in sorted(kw)]))


def np_result_type(I, args):
    d = Dt((), True)
    for a in args:
        x = dtarg(I, a) if not isinstance(a, Ref) else None
        if x is None:
            x = dt_of(I, a)
        if x is None and isinstance(a, Ref) and I.rec(a).kind == 'obj':
            r = I.rec(a)
            x = r.f.get('_dtype')
            x = x if isinstance(x, Dt) else Dt(['dt:' + str(r.label)])
        if x is None:
            x = Dt(['dt:' + I.vkey(a)])
        d = d.join(x)
    return d


def _tensordot(I, args, kw, node):
    a, b = args[0], args[1]
    ax = argget(args, kw, 2, 'axes', Poly.const(2))
    ta, tb = ten(I, a), ten(I, b)
    if ta is None or tb is None:
        return I.opq('tensordot', a, b, ax)
    axs = _axes(I, ax)
    if isinstance(axs, Poly):
        k = axs.as_int()
        axs = [list(range(ta.ndim - k, ta.ndim)), list(range(k))]
    for x, t in ((axs[0], ta), (axs[1], tb)):
        if any(not -t.ndim <= y < t.ndim for y in x):
            raise N.Mismatch('tensordot axis out of range')
    return mk(I, N.tensordot(ta, tb, *axs), join_dt(dt_of(I, a), dt_of(I, b)))


def _transpose(I, args, kw, node):
    a = args[0]
    perm = argget(args, kw, 1, 'axes')
    if len(args) > 2:
        perm = tuple(args[1:])
    r = A(I, a)
    t = ten(I, a)
    if t is None:
        return I.opq('transpose', a, perm) if perm is not None else I.opq('transpose', a)
    p = _intlist(I, perm) if perm is not None else None
    if perm is not None and p is None:
        raise Undecided('transpose axes')
    if p is not None and sorted(x % t.ndim for x in p) != list(range(t.ndim)):
        raise N.Mismatch('transpose axes')
    res = I.arr(N.transpose(t, p), dt_of(I, a), a if r is not None else None)
    if t.ndim > 1 and (p is None or [x % t.ndim for x in p] != list(range(t.ndim))) or isinstance(a, Ref) and a.id in I.noncontig:
        I.noncontig.add(res.id)
    if r is not None and r.dims is not None:
        q = p if p is not None else list(range(t.ndim))[::-1]
        I.rec(res).dims = tuple(r.dims[x] for x in q)
    return res


def _reshape(I, args, kw, node):
    a = args[0]
    shp = argget(args, kw, 1, 'newshape', kw.get('shape'))
    order = argget(args, kw, 2, 'order', 'C')
    if len(args) > 2 and isinstance(args[2], Poly):
        shp = tuple(args[1:])
        order = kw.get('order', 'C')
    r = A(I, a)
    t = ten(I, a)
    d = shape_arg(I, [shp])
    if t is None or d is None:
        return I.opq('reshape', a, shp)
    dims = [None if x.as_int() == -1 else x for x in d]
    try:
        nt = N.reshape(t, dims, order if isinstance(order, str) else 'C')
    except N.Scramble:
        raise Undecided('reshape')
    res = I.arr(nt, dt_of(I, a), a if r is not None and a.id not in I.noncontig else None)     # reshaping a permuted view makes a copy
    if None not in dims:
        I.rec(res).dims = tuple(dims)
    return res


def _conj(I, args, kw, node):
    if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'list':
        if I.finite(args[0]) == []:
            return args[0]
        args = [call_ext(I, 'numpy.array', [args[0]], {}, node)]
    a = args[0]
    s = scal(I, a)
    if s is not None:
        return s.conj()
    r = A(I, a)
    if r is None or r.ten is None:
        return I.opq('conj', a) if not isinstance(a, Opq) else Opq('conj(%s)' % a.key)
    return I.arr(N.conj(r.ten), r.dt)


def _shape(I, args, kw, node):
    return I.getattr(args[0], 'shape', node)


def _copy(I, args, kw, node):
    a = args[0]
    r = A(I, a)
    if r is not None:
        return I.new(Arr(r.ten, r.dt, None, None, dict(r.cells) if r.cells else None, r.dims))
    t = ten(I, a)
    if t is not None and t.ndim > 0:
        return I.arr(t, dt_of(I, a) or DT_FLOAT)
    if isinstance(a, Opq):
        return Opq(a.key)
    return a


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        r = I.rec(v)
        if r.kind == 'arr':
            n = I.new(Arr(r.ten, r.dt, None, None, dict(r.cells) if r.cells else None, r.dims))
        elif r.kind == 'list':
            n = I.new(PyList([]))
            memo[v.id] = n
            I.rec(n).items = [deepcopy(I, x, memo) for x in r.items]
        elif r.kind == 'dict':
            n = I.new(PyDict({k: deepcopy(I, x, memo) for k, x in r.items.items()}))
        elif r.kind == 'sym':
            n = I.new(SymSeq(r.length, lambda I_, i, v=v: deepcopy(I_, seqget(I_, v, i)), r.label))
            I.rec(n).over = [(k, deepcopy(I, x, memo)) for k, x in r.over]
            snap = I.new(r.clone())
            I.rec(n).gen = lambda I_, i, s=snap: deepcopy(I_, seqget(I_, s, i))
            I.rec(n).over = []
        else:
            m = I.prog.method(r.cls.node, r.cls.mod, '__deepcopy__')
            n = I.new(Inst(r.cls, {}, r.label and r.label + "'"))
            memo[v.id] = n
            I.rec(n).f = {k: deepcopy(I, x, memo) for k, x in r.f.items()}
        memo[v.id] = n
        return n
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, Opq):
        return Opq(v.key)
    return v


def _zeros(kind):
    def f(I, args, kw, node):
        shp = argget(args, kw, 0, 'shape')
        d = shape_arg(I, [shp])
        dt = argget(args, kw, 1, 'dtype')
        dtv = DT_FLOAT if dt is None else (dtarg(I, dt) or Dt(['dt:' + I.vkey(dt)]))
        return new_array(I, kind, d, dtv)
    return f


def _zeros_like(I, args, kw, node):
    d = I.dims_of(args[0])
    return new_array(I, 'zeros', d, dt_of(I, args[0]) or DT_FLOAT)


def _random(I, args, kw, node):
    d = shape_arg(I, args) if args else []
    if d is None:
        return Opq(I.fresh('random'))
    if not d:
        return Poly.atom(I.fresh('rnd'))
    return new_array(I, 'random', d, DT_FLOAT)


def _eye(I, args, kw, node):
    s = scal(I, args[0])
    if s is None:
        return I.opq('eye', args[0])
    dt = kw.get('dtype')
    n = argget(args, kw, 1, 'N')
    sn = scal(I, n) if n is not None else s
    if sn is not None and N.DIMS.find(sn) != N.DIMS.find(s):
        return I.opq('eye', *args)
    r = I.arr(N.eye(I.norm(s)), dtarg(I, dt) or DT_FLOAT)
    I.rec(r).dims = (I.norm(s), I.norm(s))
    return r


def _diag(I, args, kw, node):
    k = argget(args, kw, 1, 'k', ZERO)
    k = k.as_int() if isinstance(k, Poly) else k
    fl = I.finite(args[0]) if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'list' else None
    if isinstance(k, int) and (k != 0 or fl == []):
        from . import dense
        try:
            e, sh = ({}, (0,)) if fl == [] else dense.entries(ten(I, args[0]))
        except (dense.NotDense, AttributeError):
            return I.opq('diag', *args)
        if len(sh) == 1:
            n = sh[0] + abs(k)
            return I.arr(dense.tensor({(i + max(0, -k), i + max(0, k)): v for (i,), v in e.items()}, (n, n)), dt_of(I, args[0]) if fl != [] else DT_FLOAT)
        return I.opq('diag', *args)
    if isinstance(k, int):
        args, kw = args[:1], {}
    t = ten(I, args[0])
    if t is None or len(args) > 1 or kw:
        return I.opq('diag', *args)
    r = A(I, args[0])
    return I.arr(N.diag(t), dt_of(I, args[0]))


def _trace(I, args, kw, node):
    t = ten(I, args[0])
    if t is None:
        return Poly.atom('trace(%s)' % I.vkey(args[0]))
    a1 = argget(args, kw, 2, 'axis1', ZERO).as_int()
    a2 = argget(args, kw, 3, 'axis2', ONE).as_int()
    return mk(I, N.trace(t, a1, a2), dt_of(I, args[0]))


def _svd(I, args, kw, node):
    t = ten(I, args[0])
    fm = kw.get('full_matrices', args[1] if len(args) > 1 else True)
    I.event('svd', (args[0],), node)
    if t is None or not t.nets:
        k = I.vkey(args[0])
        return (Opq('svdU(%s)' % k), Opq('svdS(%s)' % k), Opq('svdV(%s)' % k))
    if t.ndim != 2:
        raise N.Mismatch('svd of a rank-%d array' % t.ndim)
    u, s, v = N.factor(t, 'svd')
    dt = dt_of(I, args[0])
    if isinstance(fm, bool) and fm:
        rows, cols = t.legdims()
        rank = u.legdims()[1]
        # the rank index of a qr factor is already min(rows, columns)
        if not (rows.key().startswith('1*chi<') or rows.key().startswith('chi<') or rows == cols):
            u = _fullpart(u, 1, rows, rank)
        if rows != cols:
            v = _fullpart(v, 0, cols, rank)
    return (I.arr(u, dt), I.arr(s, DT_FLOAT), I.arr(v, dt))


def _fullpart(t, ax, full, rank):
    (n,) = t.nets
    (nd,) = n.nodes
    lab = 'F' + nd.label
    N.FULLPART[lab] = (ax if ax == 0 else len(nd.legs) - 1, nd.label, rank)
    i = N.newidx(full)
    legs = list(nd.legs)
    legs[0 if ax == 0 else -1] = (i,)
    outs = list(n.outs)
    outs[ax] = (i,)
    return N.Ten([N.Net(n.coef, [N.Node(lab, nd.conj, legs)], outs)], 2)


def _exp(I, args, kw, node):
    r = A(I, args[0])
    if r is None or r.ten is None or not r.ten.nets:
        return _ew('exp')(I, args, kw, node)
    t = N.simplify(r.ten)
    neg = N.scale(t, Poly.const(-1))
    k, kn = t.key(), neg.key()
    if N.conj(t).key() != kn or len(args) > 1 or kw:
        return _ew('exp')(I, args, kw, node)
    base = t if k <= kn else neg
    lab = _short('exp{%s}' % base.key(), False)
    N.UNIT.add(lab)
    a = N.Ten.atom(lab, t.legdims())
    if base is neg:
        a = N.conj(a)
    return I.arr(a, r.dt)


def _where(I, args, kw, node):
    if len(args) == 3:
        m, a, b = args
        rb = A(I, b)
        sa = scal(I, a)
        c = sa.as_const() if sa is not None else None
        if isinstance(m, Opq) and rb is not None and rb.ten is not None and c in (1, -1):
            t = N.simplify(rb.ten)
            if len(t.nets) == 1 and len(t.nets[0].nodes) == 1 and t.nets[0].nodes[0].label.startswith('sign{') and I.vkey(b) in m.key and '==' in m.key:
                lab = 'u' + t.nets[0].nodes[0].label
                N.UNIT.add(lab)
                N.REAL_LABELS.add(lab)
                return I.arr(N.Ten.atom(lab, t.legdims(), True), rb.dt)
    return I.opq('where', *args)


def _qr(I, args, kw, node):
    t = ten(I, args[0])
    if t is not None and not t.nets and t.ndim == 2 and t.legdims():
        # exactly zero: the triangular factor is zero, the other one is some isometry
        d, k = t.legdims(), Poly.atom('chi<%d>' % N._num('qr0<%s>' % (t.legdims(),)))
        lab = 'Q0_%d' % N._num('qr0<%s>' % (d,))
        N.ISOMETRY[lab] = ['rows']
        dt = dt_of(I, args[0])
        return (I.arr(N.Ten.atom(lab, [d[0], k]), dt), I.arr(N.zeros([k, d[1]]) if hasattr(N, 'zeros') else N.Ten([], 2, None, [k, d[1]]), dt))
    if t is None or not t.nets:
        k = I.vkey(args[0])
        return (Opq('qrQ(%s)' % k), Opq('qrR(%s)' % k))
    if t.ndim != 2:
        raise N.Mismatch('qr of a rank-%d array' % t.ndim)
    q, r = N.factor(t, 'qr')
    dt = dt_of(I, args[0])
    return (I.arr(q, dt), I.arr(r, dt))


def _spectral(t):
    """(weights, unitary) of a matrix that is given as u diag(w) u^dagger"""
    if len(t.nets) != 1 or _posfactor(t.nets[0].coef)[0] is None:
        return None
    n = t.nets[0]
    us = [x for x in n.nodes if 'rows' in N.ISOMETRY.get(x.label, ()) and 'cols' in N.ISOMETRY.get(x.label, ())]
    ws = [x for x in n.nodes if x not in us]
    if len(us) != 2 or us[0].label != us[1].label or us[0].conj == us[1].conj:
        return None
    a, b = us if not us[0].conj else us[::-1]
    if a.legs[0] != n.outs[0] or b.legs[0] != n.outs[1] or a.legs[1] != b.legs[1]:
        return None
    if not all(x.label.startswith('S') and x.label in N.REAL_LABELS and x.legs == [a.legs[1]] or tuple(x.legs) == (a.legs[1],) for x in ws):
        return None
    return N.Ten([N.Net(n.coef, ws, [a.legs[1]])], 1), N.Ten([N.Net(ONE, [a], [n.outs[0], a.legs[1]])], 2)


def _eigh(I, args, kw, node):
    t = ten(I, args[0])
    k = I.vkey(args[0])
    if t is None or t.ndim != 2:
        return (Opq('eighE(%s)' % k), Opq('eighU(%s)' % k))
    dt = dt_of(I, args[0])
    w = _spectral(N.simplify(t))
    if w is not None:
        return (I.arr(w[0], DT_FLOAT), I.arr(w[1], dt))
    d = t.legdims()
    lab = 'W%d' % N._num('eigh<' + t.key() + '>')
    labe = 'w%d' % N._num('eigh<' + t.key() + '>')
    N.REAL_LABELS.add(labe)
    N.ISOMETRY[lab] = ['rows', 'cols']
    dt = dt_of(I, args[0])
    e = I.arr(N.Ten.atom(labe, [d[0]], True), DT_FLOAT)
    u = I.arr(N.Ten.atom(lab, [d[0], d[1]]), dt)
    return (e, u)


def _sqrt(I, args, kw, node):
    s = scal(I, args[0])
    if s is not None:
        return s.pow(Fraction(1, 2))
    return elementwise(I, 'sqrt', args[0])


def entries_of(I, v):
    """the entries of a one-dimensional array of a few scalars (or of a finite list), else None"""
    r = A(I, v)
    if r is None:
        return I.finite(v) if isinstance(v, (Ref, tuple)) else None
    if r.ten is None or r.ten.ndim != 1:
        return None
    d = I.dims_of(v)
    k = I.norm(d[0]).as_int() if d and d[0] is not None else None
    if k is None or k > 8:
        return None
    out = []
    for j in range(k):
        t = N.simplify(N.fix(r.ten, 0, j))
        if any(n.nodes or n.outs for n in t.nets):
            return None
        out.append(to_scalar(I, t, r.dt))
    return out


def ordered(I, v):
    """the positions of a vector of scalars in ascending order, if the order is known"""
    f = entries_of(I, v)
    ps = [scal(I, x) for x in f] if f is not None else [None]
    if any(p is None for p in ps):
        return None, None
    order = []
    for k, p in enumerate(ps):
        j = 0
        while j < len(order):
            s = I.sign(p - ps[order[j]])
            if s is None or s in ('>=', '<=', '!='):
                return None, None
            if s == '-':
                break
            j += 1
        order.insert(j, k)
    return ps, order


def _ordfn(name):
    def f(I, args, kw, node):
        ps, o = ordered(I, args[0])
        if o is None:
            if name in ('argmin', 'argmax', 'argsort'):
                return I.opq('numpy.' + name, *args)
            if name == 'sort':
                return I.opq('numpy.sort', *args)
            return I.opq('numpy.' + name, *args)
        if name == 'argmin':
            return Poly.const(o[0])
        if name == 'argmax':
            return Poly.const(next(k for k in o if ps[k] == ps[o[-1]]))
        if name == 'min':
            return ps[o[0]]
        if name == 'max':
            return ps[o[-1]]
        if name == 'argsort':
            return I.new(PyList([Poly.const(k) for k in o]))
        return _array(I, [I.new(PyList([ps[k] for k in o]))], {}, node)
    return f


def _nonzero(I, args, kw, node):
    if isinstance(args[0], AllMask):
        return (args[0],)
    f = I.finite(args[0]) if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'list' else None
    if f is None or not all(isinstance(x, bool) for x in f):
        return I.opq('numpy.nonzero', *args)
    return (I.new(PyList([Poly.const(k) for k, x in enumerate(f) if x])),)


ANGLE = {}


def _ew(fn, real=False):
    def f(I, args, kw, node):
        s = scal(I, args[0])
        if s is not None:
            if fn == 'exp' and s.is_zero():
                return ONE
            if fn == 'exp' and len(s.t) == 1:
                (m, (x, y)), = s.t.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in ANGLE and x == 0 and y in (1, -1):
                    z = ANGLE[m[0][0]]      # exp(i*angle(z)) = z/|z|
                    return (z if y == 1 else z.conj()) * _ew('abs', True)(I, [z], {}, node).inv()
            if fn == 'angle':
                ANGLE['angle(%s)' % s] = s
            if fn == 'abs' and s.is_real():
                sg = I.sign(s)
                if sg in ('+', '>=', '0'):
                    return s
                if sg in ('-', '<='):
                    return -s
            if fn in ('real', 'abs') and s.as_const() is not None and not isinstance(s.as_const(), tuple):
                return s if fn == 'real' else Poly.const(abs(s.as_const()))
            if fn == 'real' and s.is_real():
                return s
            if fn == 'imag' and s.is_real():
                return ZERO
            if fn in ('real', 'imag') and Poly({m: (x, 0) for m, (x, y) in s.t.items()}).is_real() and Poly({m: (y, 0) for m, (x, y) in s.t.items() if y}).is_real():
                return Poly({m: ((x, x - x) if fn == 'real' else (y, y - y)) for m, (x, y) in s.t.items() if (x if fn == 'real' else y)})
            if fn == 'abs' and len(s.t) == 1:
                (m, (x, y)), = s.t.items()
                one = Poly({m: (x / x if x else y / y, x - x)})
                if m and one.is_real() and (x == 0 or y == 0) and not (x == 1 and y == 0):
                    return Poly.const(abs(x) + abs(y)) * f(I, [one], kw, node)
            a = '%s(%s)' % (fn, s)
            if not real and not s.is_real():
                PL.COMPLEX_ATOMS.add(a)
                ATOM_DT[a] = dt_of(I, s)
            return Poly.atom(a)
        r = A(I, args[0])
        if fn == 'real' and r is not None and r.ten is not None and not r.dt.src:
            return I.arr(r.ten, DT_FLOAT, args[0])
        f_ = entries_of(I, args[0]) if r is not None and fn in ('abs', 'real', 'imag', 'sqrt', 'sign') else None
        if f_ is not None and all(isinstance(q, Poly) for q in f_) and len(f_) > 1:
            return _array(I, [I.new(PyList([f(I, [q], {}, node) for q in f_]))], {}, node)
        res = elementwise(I, fn, args[0], DT_FLOAT if real else None, real)
        if fn in ('real', 'imag') and A(I, res) is not None:
            I.rec(res).base = args[0]
        return res
    return f


def _expand_dims(I, args, kw, node):
    ax = argget(args, kw, 1, 'axis')
    t = ten(I, args[0])
    if t is None:
        return I.opq('expand_dims', *args)
    l = _intlist(I, ax) if I.finite(ax) is not None else [I.norm(ax).as_int()]
    nd = t.ndim + len(l)
    for x in sorted(y % nd for y in l):
        t = N.expand(t, x)
    return I.arr(t, dt_of(I, args[0]), args[0] if A(I, args[0]) else None)


def _squeeze(I, args, kw, node):
    t = ten(I, args[0])
    if t is None or not t.nets:
        return I.opq('squeeze', *args)
    ax = argget(args, kw, 1, 'axis')
    dims = t.legdims()
    if ax is None:
        drop = [k for k, d in enumerate(dims) if d == ONE]
    else:
        l = _intlist(I, ax) if I.finite(ax) is not None else [I.norm(ax).as_int()]
        drop = [x % t.ndim for x in l]
    nt = N.Ten([N.Net(n.coef, n.nodes, [o for k, o in enumerate(n.outs) if k not in drop]) for n in t.nets], t.ndim - len(drop))
    return mk(I, nt, dt_of(I, args[0]), args[0] if nt.ndim else None)


def _array(I, args, kw, node):
    a = args[0]
    dt = argget(args, kw, 1, 'dtype')
    dtv = dtarg(I, dt) if dt is not None else None
    r = A(I, a)
    if r is not None:
        n = I.new(Arr(r.ten, r.dt, None, None, dict(r.cells) if r.cells else None, r.dims))
        if dtv is not None:
            if not r.dt.le(dtv):
                I.event('lossy', (a, r.dt, 'array(dtype=%r)' % (dtv,)), node)
            I.rec(n).dt = dtv
        return n
    s = scal(I, a)
    if s is not None:
        return s
    if isinstance(a, Ref) and I.rec(a).kind == 'sym' or isinstance(a, Opq):
        if isinstance(a, Opq):
            return Opq(a.key)
        return a
    t = ten(I, a)
    if t is not None and t.ndim:
        return I.arr(t, dtv or dt_of(I, a) or DT_FLOAT)
    f = I.finite(a)
    if f is not None:
        return a if isinstance(a, Ref) else I.new(PyList(list(f)))
    return I.opq('array', a)


def _swapaxes(I, args, kw, node):
    t = ten(I, args[0])
    a, b = I.norm(args[1]).as_int(), I.norm(args[2]).as_int()
    p = list(range(t.ndim))
    p[a], p[b] = p[b], p[a]
    res = I.arr(N.transpose(t, p), dt_of(I, args[0]), args[0])
    I.noncontig.add(res.id)
    return res


def _einsum(I, args, kw, node):
    spec = args[0]
    if not isinstance(spec, str):
        # operands followed by integer label lists, optionally an output list
        a = list(args)
        out = a.pop() if len(a) % 2 else None

        def labels(v):
            f = [scal(I, x) for x in I.finite(v) or []] if I.finite(v) is not None else None
            if f is None or any(x is None or x.as_int() is None for x in f):
                raise Undecided('einsum labels')
            return [x.as_int() for x in f]
        ops_, labs = a[0::2], [labels(x) for x in a[1::2]]
        fl = [x for l in labs for x in l]
        o = labels(out) if out is not None else sorted(x for x in set(fl) if fl.count(x) == 1)
    else:
        ops_ = list(args[1:])
        spec = spec.replace(' ', '')
        i, arrow, o = spec.partition('->')
        labs = i.split(',')
    ts = [ten(I, a) for a in ops_]
    if any(t is None for t in ts):
        return I.opq('einsum', *args)
    if isinstance(spec, str):
        if len(labs) != len(ts):
            raise N.Mismatch('einsum with %d label groups for %d arrays' % (len(labs), len(ts)))
        if '.' in spec:
            n = max([t.ndim - len(l.replace('...', '')) for t, l in zip(ts, labs) if '.' in l] + [0])
            el = ''.join(chr(0x4e00 + q) for q in range(n))
            labs = [l.replace('...', el[n - (t.ndim - len(l.replace('...', ''))):]) for t, l in zip(ts, labs)]
            o = o.replace('...', el)
        if not arrow:
            fl = ''.join(labs)
            o = ''.join(sorted(c for c in set(fl) if fl.count(c) == 1))
    return mk(I, N.einsum(labs, o, ts), join_dt(*[dt_of(I, a) for a in ops_]))


def _vdot(I, args, kw, node):
    a, b = ten(I, args[0]), ten(I, args[1])
    if a is None or b is None or a.ndim != b.ndim:
        return I.opq('vdot', *args)
    return mk(I, N.tensordot(N.conj(a), b, list(range(a.ndim)), list(range(b.ndim))), join_dt(*[dt_of(I, x) for x in args]))


def _outer(I, args, kw, node):
    a, b = ten(I, args[0]), ten(I, args[1])
    if a is None or b is None:
        return I.opq('outer', *args)
    return mk(I, N.outer(a, b), join_dt(*[dt_of(I, x) for x in args]))


def _kron(I, args, kw, node):
    a, b = ten(I, args[0]), ten(I, args[1])
    if a is None or b is None or a.ndim != 2 or b.ndim != 2:
        return I.opq('kron', *args)
    o = N.transpose(N.outer(a, b), (0, 2, 1, 3))
    nets = [N.Net(n.coef, n.nodes, (n.outs[0] + n.outs[1], n.outs[2] + n.outs[3])) for n in o.nets]
    return I.arr(N.Ten(nets, 2), join_dt(*[dt_of(I, x) for x in args]))


def _sum(I, args, kw, node):
    t = ten(I, args[0])
    if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'list':
        p = ZERO
        ok = True
        for x in I.rec(args[0]).items:
            s = scal(I, x)
            if s is None:
                ok = False
                break
            p = p + s
        if ok:
            return p
    if t is None or kw or len(args) > 1:
        return I.opq('sum', *args)
    nets = [N.Net(n.coef, n.nodes, []) for n in t.nets]
    # indices only present in outs contribute their dimension
    res = ZERO
    for n in t.nets:
        used = set(i for nd in n.nodes for i in nd.idx())
        c = n.coef
        for i in set(n.outidx()):
            if i not in used:
                c = c * N.dim(i)
        res = res + to_scalar(I, N.Ten([N.Net(c, n.nodes, [])], 0), dt_of(I, args[0]))
    return res


def _linop(I, args, kw, node):
    o = Opq(I.fresh('LinearOperator'))
    I.event('linop', (tuple(args), dict(kw)), node)
    return I.new(Inst(_EXTCLS('LinearOperator'), {'shape': args[0] if args else kw.get('shape'), 'matvec': kw.get('matvec', args[1] if len(args) > 1 else None),
                                                   'dtype': kw.get('dtype')}, I.fresh('LinOp')))


class _ExtNode:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.body = []


_ext_classes = {}


def _EXTCLS(name):
    class M:
        pass
    if name not in _ext_classes:
        m = M()
        m.name, m.funcs, m.classes, m.imports, m.consts, m.path = 'ext', {}, {}, {}, {}, '/ext'
        _ext_classes[name] = Cls(_ExtNode(name), m)
    return _ext_classes[name]


def _partial(I, args, kw, node):
    return Partial(args[0], list(args[1:]), dict(kw))


def _issubdtype(I, args, kw, node):
    a, b = dtarg(I, args[0]), dtarg(I, args[1])
    if isinstance(args[0], Opq) and a is None:
        return Cond('issubdtype(%s,%s)' % (I.vkey(args[0]), I.vkey(args[1])))
    bn = args[1].name if isinstance(args[1], (Ext, Builtin)) else None
    if bn and 'complex' in bn:
        b = DT_CPLX
    elif bn and 'float' in bn:
        b = DT_FLOAT
    elif bn and 'int' in bn:
        b = DT_INT
    if a is None or b is None:
        return Cond('issubdtype(%s,%s)' % (I.vkey(args[0]), I.vkey(args[1])))
    if a == b:
        return True
    if a.isint or b.isint:
        return False
    known = lambda d: not d.src or 'complex' in d.src
    if known(a) and known(b):
        return False
    c = 'iscomplex(%s)' % ','.join(sorted((a if not known(a) else b).src))
    tgt = b if known(b) else a
    return Cond(c, not ('complex' in tgt.src))


def _isscalar(I, args, kw, node):
    if scal(I, args[0]) is not None:
        return True
    if isinstance(args[0], Ref):
        return False
    if isinstance(args[0], Opq):
        return Cond('isscalar(%s)' % args[0].key)
    return isinstance(args[0], str)


def _any(I, args, kw, node):
    v = args[0]
    if v is None or isinstance(v, (bool, Cond)):
        return v
    f = I.finite(v)
    if f is not None:
        return any(I.decide(x) for x in f)
    return Cond('any(%s)' % I.vkey(v))


def _all(I, args, kw, node):
    v = args[0]
    if v is None or isinstance(v, (bool, Cond)):
        return v
    f = I.finite(v)
    if f is not None:
        return all(I.decide(x) for x in f)
    return Cond('all(%s)' % I.vkey(v))


def _append(I, args, kw, node):
    return I.opq('append', *args)


def _dtype(I, args, kw, node):
    d = dtarg(I, args[0])
    return d if d is not None else Dt(['dt:' + I.vkey(args[0])])


def _warn(I, args, kw, node):
    I.event('output', tuple(args), node)
    return None


def _exit(I, args, kw, node):
    raise Raised('SystemExit', node, I.stack[-1] if I.stack else None)


def _ascontig(I, args, kw, node):
    r = A(I, args[0])
    if r is not None:
        return I.arr(r.ten, r.dt, args[0])
    return _array(I, args, kw, node)


def _multiply(I, args, kw, node):
    return binop(I, 'Mult', args[0], args[1], node)


def _mm(op):
    return lambda I, args, kw, node: binop(I, op, args[0], args[1], node)


def _ones_like(I, args, kw, node):
    return new_array(I, 'ones', I.dims_of(args[0]), dt_of(I, args[0]) or DT_FLOAT)


def _copycopy(I, args, kw, node):
    v = args[0]
    if isinstance(v, Ref):
        r = I.rec(v)
        if r.kind == 'obj':
            m = I.prog.method(r.cls.node, r.cls.mod, '__copy__')
            if isinstance(m, Fn):
                return I.call(Bound(m, v), [], {}, node)
            n = I.new(Inst(r.cls, dict(r.f), r.label))
            return n
        if r.kind == 'arr':
            return _copy(I, [v], {}, node)
        n = I.new(r.clone())
        return n
    return v


def _deepcopy(I, args, kw, node):
    return deepcopy(I, args[0])


def _linalg_norm(I, args, kw, node):
    return np_norm(I, args[0])


EXT = {
    'numpy.tensordot': _tensordot, 'numpy.transpose': _transpose, 'numpy.reshape': _reshape, 'numpy.conj': _conj,
    'numpy.conjugate': _conj, 'numpy.dot': lambda I, a, k, n: np_dot(I, a[0], a[1], n), 'numpy.matmul': lambda I, a, k, n: np_dot(I, a[0], a[1], n),
    'numpy.shape': _shape, 'numpy.copy': _copy, 'numpy.zeros': _zeros('zeros'), 'numpy.ones': _zeros('ones'), 'numpy.empty': _zeros('empty'),
    'numpy.zeros_like': _zeros_like, 'numpy.ones_like': _ones_like, 'numpy.eye': _eye, 'numpy.identity': _eye, 'numpy.diag': _diag,
    'numpy.trace': _trace, 'numpy.linalg.svd': _svd, 'scipy.linalg.svd': _svd, 'numpy.linalg.qr': _qr, 'numpy.linalg.norm': _linalg_norm,
    'numpy.argmin': _ordfn('argmin'), 'numpy.argmax': _ordfn('argmax'), 'numpy.argsort': _ordfn('argsort'), 'numpy.sort': _ordfn('sort'), 'numpy.min': _ordfn('min'),
    'numpy.amin': _ordfn('min'), 'numpy.max': _ordfn('max'), 'numpy.amax': _ordfn('max'), 'numpy.nonzero': _nonzero, 'numpy.flatnonzero': lambda I, a, k, n: (
        lambda r: r[0] if isinstance(r, tuple) else r)(_nonzero(I, a, k, n)),
    'numpy.linalg.eigh': _eigh, 'numpy.sqrt': _sqrt, 'numpy.exp': _exp, 'numpy.where': _where, 'numpy.log': _ew('log'), 'numpy.abs': _ew('abs', True), 'numpy.absolute': _ew('abs', True),
    'numpy.real': _ew('real', True), 'numpy.imag': _ew('imag', True), 'numpy.angle': _ew('angle', True), 'numpy.sign': _ew('sign'), 'numpy.sin': _ew('sin'), 'numpy.cos': _ew('cos'),
    'numpy.expand_dims': _expand_dims, 'numpy.squeeze': _squeeze, 'numpy.array': _array, 'numpy.asarray': _ascontig, 'numpy.ascontiguousarray': _ascontig,
    'numpy.swapaxes': _swapaxes, 'numpy.einsum': _einsum, 'numpy.vdot': _vdot, 'numpy.outer': _outer, 'numpy.kron': _kron, 'numpy.sum': _sum,
    'numpy.multiply': _multiply, 'numpy.add': _mm('Add'), 'numpy.subtract': _mm('Sub'), 'numpy.divide': _mm('Div'), 'numpy.result_type': lambda I, a, k, n: np_result_type(I, a),
    'numpy.issubdtype': _issubdtype, 'numpy.isscalar': _isscalar, 'numpy.any': _any, 'numpy.all': _all, 'numpy.append': _append, 'numpy.dtype': _dtype,
    'numpy.random.random_sample': _random, 'numpy.random.rand': lambda I, a, k, n: _random(I, [tuple(a)] if a else [], k, n), 'numpy.random.randn': lambda I, a, k, n: _random(I, [tuple(a)] if a else [], k, n),
    'functools.partial': _partial, 'copy.deepcopy': _deepcopy, 'copy.copy': _copycopy, 'warnings.warn': _warn, 'sys.exit': _exit, 'sys.stdout.write': _warn, 'sys.stdout.flush': _warn,
    'scipy.sparse.linalg.LinearOperator': _linop,
}


# ------------------------------------------------------------------ builtin calls
def call_builtin(I, f, args, kw, node):
    n = f.name
    if f.recv is not None or '.' in n:
        return call_method(I, f.recv, n, args, kw, node)
    if n == 'len':
        v = args[0]
        if isinstance(v, (tuple, str)):
            return Poly.const(len(v))
        if isinstance(v, Ref):
            r = I.rec(v)
            if r.kind in ('list',):
                return Poly.const(len(r.items))
            if r.kind == 'dict':
                return Poly.const(len(r.items))
            if r.kind == 'sym':
                return I.norm(r.length)
            if r.kind == 'obj':
                m = I.prog.method(r.cls.node, r.cls.mod, '__len__')
                if isinstance(m, Fn):
                    return I.call(Bound(m, v), [], {}, node)
                if '%data' in r.f:
                    return call_builtin(I, f, [r.f['%data']], kw, node)
            if r.kind == 'arr':
                d = I.dims_of(v)
                if d:
                    return d[0]
        if v is None:
            I.event('nonlen', None, node)
            raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
        return Poly.atom('len(%s)' % I.vkey(v))
    if n == 'range':
        a = [scal(I, x) for x in args]
        if any(x is None for x in a):
            a = [x if x is not None else Poly.atom('val:' + I.vkey(y)) for x, y in zip(a, args)]
        if len(a) == 1:
            return Range(ZERO, a[0], ONE)
        if len(a) == 3 and I.norm(a[2]).is_zero():
            raise Raised('ValueError', node, I.stack[-1] if I.stack else None)
        return Range(a[0], a[1], a[2] if len(a) > 2 else ONE)
    if n == 'isinstance':
        return isinstance_(I, args[0], args[1])
    if n in ('list', 'tuple'):
        if not args:
            return I.new(PyList([])) if n == 'list' else ()
        fl = I.finite(args[0])
        if fl is not None:
            return I.new(PyList(list(fl))) if n == 'list' else tuple(fl)
        if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'sym':
            return I.new(I.rec(args[0]).clone())
        if isinstance(args[0], Opq):
            return args[0]
        ln, el = I.sym_iter(args[0])
        return I.new(SymSeq(ln, lambda I_, i, el=el: el(I_, i), 'list'))
    if n == 'map':
        fn = args[0]
        fl = I.finite(args[1])
        if fl is not None:
            return I.new(PyList([I.call(fn, [x], {}, node) for x in fl]))
        ln, el = I.sym_iter(args[1])
        return I.new(SymSeq(ln, lambda I_, i, el=el, fn=fn: I_.call(fn, [el(I_, i)], {}, node), 'map'))
    if n == 'zip':
        fl = [I.finite(a) for a in args]
        if all(x is not None for x in fl):
            return I.new(PyList([tuple(x) for x in zip(*fl)]))
        return Zip(args)
    if n == 'enumerate':
        fl = I.finite(args[0])
        if fl is not None:
            return I.new(PyList([(Poly.const(k), x) for k, x in enumerate(fl)]))
        return Enum(args[0])
    if n == 'reversed':
        fl = I.finite(args[0])
        if fl is not None:
            return I.new(PyList(list(reversed(fl))))
        if isinstance(args[0], Range):
            r = args[0]
            if r.step == ONE:
                return Range(r.hi - ONE, r.lo - ONE, Poly.const(-1))
        return getitem(I, args[0], Slice(None, None, Poly.const(-1)), node)
    if n in ('min', 'max'):
        return minmax(I, n, args, node)
    if n == 'abs':
        if isinstance(args[0], Ref) and I.rec(args[0]).kind == 'obj':
            return I.call(I.getattr(args[0], '__abs__', node), [], {}, node)
        return call_ext(I, 'numpy.abs', args, kw, node)
    if n == 'sum':
        fl = I.finite(args[0])
        if fl is not None:
            acc = args[1] if len(args) > 1 else ZERO
            for x in fl:
                acc = binop(I, 'Add', acc, x, node)
            return acc
        return I.opq('sum', *args)
    if n in ('print',):
        I.event('output', tuple(args), node)
        return None
    if n in ('int', 'float', 'complex', 'bool', 'str'):
        if not args:
            return ZERO
        s = scal(I, args[0])
        if n == 'str':
            if isinstance(args[0], str):
                return args[0]
            if s is not None and s.as_int() is not None:
                return str(s.as_int())
            return I.opq('str', args[0])
        if n == 'bool':
            return args[0] if isinstance(args[0], (bool, Cond)) else I.decide(args[0], node)
        if s is not None:
            if n == 'int':
                c = s.as_const()
                if c is not None and not isinstance(c, tuple):
                    return Poly.const(int(c))
                return s if all(co[0].denominator == 1 for co in s.t.values()) else Poly.atom('int(%s)' % s)
            return s
        return I.opq(n, args[0])
    if n == 'type':
        if len(args) == 1:
            v = args[0]
            d = dt_of(I, v) if not isinstance(v, Dt) else None
            if isinstance(v, Poly):
                if d is not None:
                    return d
            if isinstance(v, Ref) and I.rec(v).kind == 'obj':
                return I.rec(v).cls
            if isinstance(v, Ref) and I.rec(v).kind == 'arr' and I.rec(v).ten is not None and I.rec(v).ten.ndim > 0:
                return Ext('numpy.ndarray')
            return Opq('type(%s)' % I.vkey(v))
    if n == 'callable':
        return isinstance(args[0], (Fn, Bound, Partial, PyFn, Builtin, Ext, Cls))
    if n == 'hasattr':
        o, a = args
        if isinstance(o, Ref) and isinstance(a, str):
            r = I.rec(o)
            if r.kind == 'obj':
                return a in r.f or I.prog.method(r.cls.node, r.cls.mod, a) is not None
            if r.kind == 'arr':
                return a in ('shape', 'dtype', 'ndim', 'size', 'T')
            return False
        return Cond('hasattr(%s,%s)' % (I.vkey(o), I.vkey(a)))
    if n == 'getattr':
        if isinstance(args[1], str):
            o = args[0]
            if len(args) > 2 and isinstance(o, Ref) and I.rec(o).kind == 'obj' and args[1] not in I.rec(o).f and I.prog.method(
                    I.rec(o).cls.node, I.rec(o).cls.mod, args[1]) is None:
                return args[2]
            return I.getattr(o, args[1], node)
        return I.opq('getattr', *args)
    if n == 'setattr':
        if isinstance(args[1], str):
            I.setattr(args[0], args[1], args[2], node)
            return None
        raise Undecided('setattr')
    if n == 'vars':
        r = I.rec(args[0]) if isinstance(args[0], Ref) else None
        if r is not None and r.kind == 'obj':
            return I.new(PyDict(dict(r.f)))
    if n in ('any', 'all'):
        return (_any if n == 'any' else _all)(I, args, kw, node)
    if n == 'sorted':
        fl = I.finite(args[0])
        if fl is not None and set(kw) <= {'reverse'} and isinstance(kw.get('reverse', False), bool):
            ks = [scal(I, x) for x in fl]
            if all(k is not None and k.as_const() is not None and not isinstance(k.as_const(), tuple) for k in ks):
                return I.new(PyList([x for _, x in sorted(zip([k.as_const() for k in ks], fl), key=lambda z: z[0], reverse=kw.get('reverse', False))]))
            if len(fl) <= 1:
                return I.new(PyList(list(fl)))
        return I.opq('sorted', *args)
    if n == 'dict':
        return I.new(PyDict(dict(kw)))
    if n == 'set':
        fl = I.finite(args[0]) if args else []
        if fl is not None and all(isinstance(x, (Poly, str)) for x in fl):
            return I.mkset(fl)
        return I.opq('set', *args)
    if n == 'round':
        return args[0]
    if n == 'open':
        I.event('open', tuple(args), node)
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if isinstance(mode, str) and mode.startswith('w'):
            fs(I)[I.vkey(args[0])] = None
        o = I.opq('open', *args)
        fs(I)['handle ' + o.key] = (I.vkey(args[0]), mode)
        return o
    if n == 'input':
        return Opq('input')
    if n in ('ValueError', 'TypeError', 'Exception', 'RuntimeError', 'NotImplementedError', 'KeyError', 'IndexError'):
        return Opq(n)
    if n == 'id':
        return I.opq('id', *args)
    return I.opq(n, *args)


def minmax(I, n, args, node):
    vals = list(args)
    if len(vals) == 1:
        f = entries_of(I, vals[0])
        if f is None:
            return Poly.atom('%s(%s)' % (n, I.vkey(vals[0])))
        vals = f
        if not vals:
            raise Raised('ValueError', node, I.stack[-1] if I.stack else None)
    ps = [scal(I, v) for v in vals]
    if any(v is None for v in vals):
        I.event('nonecmp', n, node)
        raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
    if any(p is None for p in ps):
        return Poly.atom('%s(%s)' % (n, ','.join(sorted(I.vkey(v) for v in vals))))
    ps = [I.norm(p) for p in ps]
    keep = []
    for k, p in enumerate(ps):
        dominated = False
        for j, q in enumerate(ps):
            if j == k:
                continue
            s = I.sign(p - q)
            if n == 'min' and (s == '+' or (s in ('0', '>=') and (j < k or s == '>='))) or n == 'max' and (
                    s == '-' or (s in ('0', '<=') and (j < k or s == '<='))):
                if s in ('>=', '<=') and I.sign(q - p) in ('>=', '<=') and j > k:
                    continue
                dominated = True
        if not dominated:
            keep.append(p)
    if len(keep) == 1:
        return keep[0]
    name = Poly.atom('%s(%s)' % (n, ','.join(sorted(set(p.key() for p in keep)))))
    for p in keep:
        f = p - name if n == 'min' else name - p
        if all(f.key() != g.key() for g in I.facts):
            I.assume(f)
    return name


def isinstance_(I, v, c):
    if isinstance(c, tuple):
        rs = [isinstance_(I, v, x) for x in c]
        if any(r is True for r in rs):
            return True
        for r in rs:
            if isinstance(r, Cond) and I.decide(r):
                return True
        return False
    if isinstance(c, Ref) and I.rec(c).kind == 'list':
        return isinstance_(I, v, tuple(I.rec(c).items))
    nm = c.name if isinstance(c, (Ext, Builtin, Cls)) else None
    if isinstance(v, Opq):
        return Cond('isinstance(%s,%s)' % (v.key, nm))
    if isinstance(v, Ref):
        r = I.rec(v)
        if r.kind == 'obj' and isinstance(c, Cls):
            return any(x is c.node for x, _ in I.prog.mro(r.cls.node, r.cls.mod))
        if r.kind == 'arr':
            return nm in ('numpy.ndarray',)
        if r.kind in ('list', 'sym'):
            return nm in ('list', 'collections.Iterable', 'collections.abc.Iterable')
        if r.kind == 'dict':
            return nm in ('dict', 'collections.Iterable')
        if r.kind == 'obj':
            return bool('%data' in r.f and nm == 'list' and r.f.get('%islist'))
        return False
    if isinstance(v, tuple):
        return nm in ('tuple', 'collections.Iterable', 'collections.abc.Iterable')
    if isinstance(v, str):
        return nm in ('str', 'collections.Iterable')
    if isinstance(v, bool):
        return nm in ('bool', 'int')
    if isinstance(v, Poly):
        c_ = v.as_const()
        if nm in ('int', 'numpy.integer', 'numbers.Integral', 'numpy.int64'):
            if c_ is not None:
                return isinstance(c_, int) and nm in ('int', 'numbers.Integral')
            if v.atoms() & INT_ATOMS and v.atoms() <= INT_ATOMS:
                return nm in ('int', 'numbers.Integral')
            return Cond('isint(%s)' % v)
        if nm in ('float', 'complex', 'numpy.float64', 'numpy.number', 'numbers.Number'):
            return Cond('is%s(%s)' % (nm, v))
        return False
    if v is None:
        return False
    if isinstance(v, Dt):
        return False
    return Cond('isinstance(%s,%s)' % (I.vkey(v), nm))


INT_ATOMS = set()


def call_method(I, o, n, args, kw, node):
    kind, _, m = n.partition('.')
    if kind == 'arr':
        r = I.rec(o)
        if m == 'dot':
            return np_dot(I, o, args[0], node)
        if m in ('conj', 'conjugate'):
            return _conj(I, [o], {}, node)
        if m == 'transpose':
            a = args
            if len(a) == 0:
                return _transpose(I, [o], {}, node)
            if len(a) == 1 and I.finite(a[0]) is not None:
                return _transpose(I, [o, a[0]], {}, node)
            return _transpose(I, [o, tuple(a)], {}, node)
        if m == 'reshape':
            shp = args[0] if len(args) == 1 else tuple(args)
            return _reshape(I, [o, shp], kw, node)
        if m in ('copy', '__copy__', '__deepcopy__'):
            return _copy(I, [o], {}, node)
        if m == 'astype':
            d = dtarg(I, argget(args, kw, 0, 'dtype'))
            if d is None:
                d = Dt(['dt:' + I.vkey(args[0])])
            if not r.dt.le(d):
                I.event('lossy', (o, r.dt, 'astype(%r)' % (d,)), node)
            res = I.new(Arr(r.ten, d, o if kw.get('copy') is False else None, None, dict(r.cells) if r.cells else None, r.dims))
            return res
        if m == 'trace':
            return _trace(I, [o] + args, kw, node)
        if m in ('flatten', 'ravel'):
            t = r.ten
            if t is None:
                return I.opq(m, o)
            return I.arr(N.reshape(t, [None]), r.dt, o if m == 'ravel' and o.id not in I.noncontig else None)
        if m == 'squeeze':
            return _squeeze(I, [o] + args, kw, node)
        if m == 'sum':
            return _sum(I, [o] + args, kw, node)
        if m == 'diagonal':
            return _diag(I, [o], kw, node)
        if m in ('argmin', 'argmax', 'argsort', 'min', 'max') and not args and ordered(I, o)[1] is not None:
            return _ordfn(m)(I, [o], kw, node)
        if m in ('max', 'min', 'mean', 'item', 'tolist', 'any', 'all', 'argmax', 'argmin', 'nonzero', 'round', 'prod', 'cumsum'):
            return I.opq('arr.' + m, o, *args)
        if m == 'swapaxes':
            return _swapaxes(I, [o] + args, kw, node)
        if m in ('fill', 'sort', 'resize', 'itemset', 'put', 'partition', 'setfield'):
            I.mutate(o, node, m)
            I.write_through(o, None)
            return None
        if m == 'view':
            return I.arr(r.ten, r.dt, o)
        if m in ('__len__',):
            return I.dims_of(o)[0]
        return I.opq(n, o, *args)
    if kind == 'list' or kind == 'sym':
        r = I.rec(o)
        if getattr(r, 'isset', False):
            return set_method(I, o, r, m, args, node)
        if m == 'append':
            I.event('mutate', (o, 'append'), node)
            if r.kind == 'list':
                r.items.append(args[0])
            else:
                r.over.append((I.norm(r.length), args[0]))
                r.length = r.length + ONE
            return None
        if m == 'extend' and r.kind == 'list':
            f = I.finite(args[0])
            I.event('mutate', (o, 'extend'), node)
            if f is None:
                raise Undecided('extend')
            r.items += f
            return None
        if m == 'insert' and r.kind == 'list':
            k = I.norm(args[0]).as_int()
            if k is None:
                raise Undecided('insert')
            I.event('mutate', (o, 'insert'), node)
            r.items.insert(k, args[1])
            return None
        if m == 'pop' and r.kind == 'list':
            k = I.norm(args[0]).as_int() if args else -1
            I.event('mutate', (o, 'pop'), node)
            if k is None or not r.items:
                raise Undecided('pop')
            return r.items.pop(k)
        if m == 'reverse':
            I.event('mutate', (o, 'reverse'), node)
            if r.kind == 'list':
                r.items.reverse()
                return None
            s = r.clone()
            sn = I.new(s)
            r.over, r.memo = [], {}
            r.gen = lambda I_, i, sn=sn, L=r.length: seqget(I_, sn, L - ONE - i)
            return None
        if m == 'copy':
            return I.new(r.clone())
        if m == 'index' and r.kind == 'list':
            for k, x in enumerate(r.items):
                if I.decide(compare(I, '==', x, args[0])):
                    return Poly.const(k)
            raise Raised('ValueError', node, None)
        if m == 'count':
            if r.kind == 'list':
                return Poly.const(sum(1 for x in r.items if I.decide(compare(I, '==', x, args[0]))))
            return I.opq('count', o, *args)
        if m in ('clear', 'remove', 'sort'):
            I.event('mutate', (o, m), node)
            if m == 'clear' and r.kind == 'list':
                r.items = []
                return None
        raise Undecided('list.' + m)
    if kind == 'dict':
        r = I.rec(o)
        if m == 'get':
            return r.items.get(I._hk(args[0]), args[1] if len(args) > 1 else None)
        if m == 'items':
            return I.new(PyList([(k, v) for k, v in r.items.items()]))
        if m == 'keys':
            return I.new(PyList(list(r.items)))
        if m == 'values':
            return I.new(PyList(list(r.items.values())))
        if m == 'update':
            if args and isinstance(args[0], Ref) and I.rec(args[0]).kind == 'dict':
                r.items.update(I.rec(args[0]).items)
                r.items.update(kw)
                return None
            if not args:
                r.items.update(kw)
                return None
        if m in ('setdefault', 'pop'):
            k = I._hk(args[0])
            if m == 'pop':
                return r.items.pop(k, args[1] if len(args) > 1 else None)
            return r.items.setdefault(k, args[1])
        if m == 'copy':
            return I.new(r.clone())
        raise Undecided('dict.' + m)
    if kind == 'str':
        if m == 'format':
            strformat(I, o, args, kw, node)
            return I.opq('format', o, *args)
        if m in ('lower', 'upper', 'strip') and isinstance(o, str) and not args:
            return getattr(o, m)()
        return I.opq('str.' + m, o, *args)
    if kind == 'num':
        if m in ('conj', 'conjugate'):
            return o.conj()
        if m in ('transpose', 'copy', 'item') and all(I.finite(x) == [] for x in args):
            return o
        if m in ('sum', 'max', 'min', 'prod', 'mean', 'trace') and not args and not kw and m != 'trace':
            return o
        return I.opq(n, o, *args)
    if kind == 'opq':
        I.event('opqcall', (o.key, m, tuple(args), dict(kw)), node)
        if m in ('copy', 'astype', 'conj', 'conjugate') and not o.roots:
            return Opq('%s.%s' % (o.key, m))
        if m in ('copy', 'astype', 'conj', 'conjugate', 'dot'):
            return Opq('%s.%s(%s)' % (o.key, m, ','.join(I.vkey(a) for a in args)))
        if m == 'append':
            return None
        return I.opq('%s.%s' % (o.key, m), o, *(list(args) + list(kw.values())))
    if kind == 'tuple':
        if m == 'index':
            for k, x in enumerate(o):
                if I.decide(compare(I, '==', x, args[0])):
                    return Poly.const(k)
        raise Undecided('tuple.' + m)
    if kind == 'object':
        return None
    return I.opq(n, *args)


def _uminus(I, args, kw, node):
    v = args[0]
    if isinstance(v, Poly):
        return -v
    if A(I, v) is not None and I.rec(v).ten is not None:
        return I.arr(N.scale(I.rec(v).ten, Poly.const(-1)), I.rec(v).dt)
    return I.opq('neg', v)


EXT['operator.neg'] = EXT['numpy.negative'] = _uminus
EXT['operator.pos'] = EXT['numpy.positive'] = lambda I, args, kw, node: I.arr(I.rec(args[0]).ten, I.rec(args[0]).dt) if A(I, args[0]) is not None and I.rec(args[0]).ten is not None else args[0]
for _n, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div')):
    EXT['operator.' + _n] = lambda I, args, kw, node, _o=_o: binop(I, _o, args[0], args[1], node)


# ---- files: a dictionary from path to the pickled value
def fs(I):
    if not hasattr(I, 'files'):
        I.files = {}
    return I.files


def _pdump(I, args, kw, node):
    h = fs(I).get('handle ' + I.vkey(args[1]))
    I.event('pickle.dump', (args[0], h), node)
    if h is None or not isinstance(h[1], str) or not h[1].startswith(('w', 'a', 'x')):
        raise Undecided('pickle.dump to an unknown file')
    fs(I)[h[0]] = deepcopy(I, args[0])
    return None


def _pload(I, args, kw, node):
    h = fs(I).get('handle ' + I.vkey(args[0]))
    I.event('pickle.load', (h,), node)
    v = fs(I).get(h[0]) if h is not None else None
    if v is None:
        if h is not None and h[0] in fs(I):
            I.event('undefined', 'reads a file it has just emptied', node)
            raise Raised('EOFError', node, I.stack[-1] if I.stack else None)
        if getattr(I, 'closed_fs', False):
            I.event('undefined', 'reads a file that was not written', node)
            raise Raised('FileNotFoundError', node, I.stack[-1] if I.stack else None)
        return I.opq('pickle.load', *args)
    return deepcopy(I, v)


EXT['pickle.dump'], EXT['pickle.load'] = _pdump, _pload


def _fmove(I, args, kw, node):
    a, b = I.vkey(args[0]), I.vkey(args[1])
    I.event('fs', ('move', a, b), node)
    if a in fs(I):
        fs(I)[b] = fs(I).pop(a)
    elif b in fs(I):
        raise Undecided('an unknown file takes the place of %s' % b)
    return None


def _fremove(I, args, kw, node):
    a = I.vkey(args[0])
    I.event('fs', ('remove', a), node)
    fs(I).pop(a, None)
    return None


def _fexists(I, args, kw, node):
    a = I.vkey(args[0])
    if a in fs(I):
        return True
    if getattr(I, 'closed_fs', False):
        return False
    return I.opq('exists', *args)


EXT['os.replace'] = EXT['os.rename'] = EXT['shutil.move'] = _fmove
EXT['os.remove'] = EXT['os.unlink'] = _fremove
EXT['os.path.exists'] = EXT['os.path.isfile'] = EXT['os.path.lexists'] = _fexists
for _n in ('zeros', 'ones', 'dot', 'vdot', 'eye', 'sqrt', 'array', 'asarray', 'transpose', 'conj', 'reshape', 'empty', 'exp'):
    if 'numpy.' + _n in EXT:
        EXT.setdefault('scipy.' + _n, EXT['numpy.' + _n])
EXT.setdefault('scipy.linalg.norm', EXT['numpy.linalg.norm'])
EXT.setdefault('math.sqrt', EXT['numpy.sqrt'])


def set_method(I, o, r, m, args, node):
    if m in ('add', 'discard', 'remove', 'pop', 'update', 'clear', 'intersection_update', 'difference_update'):
        I.event('mutate', (o, m), node)
    if m == 'copy':
        return I.new(r.clone())
    if m == 'pop':
        if not r.items:
            raise Raised('KeyError', node, None)
        return r.items.pop(getattr(I, 'setpop', 0))     # any element; the caller of the analysis may ask for the other end
    if m == 'clear':
        r.items = []
        return None
    if m in ('add', 'discard', 'remove'):
        k = I._hk(args[0])
        have = [x for x in r.items if I._hk(x) == k]
        if m == 'add':
            if not have:
                r.items.append(args[0])
            return None
        if not have and m == 'remove':
            raise Raised('KeyError', node, None)
        r.items = [x for x in r.items if I._hk(x) != k]
        return None
    others = []
    for a in args:
        f = I.finite(a)
        if f is None:
            raise Undecided('set.' + m)
        others.append({I._hk(x): x for x in f})
    mine = {I._hk(x): x for x in r.items}
    if m in ('union', 'update'):
        out = dict(mine)
        for d in others:
            for k, v in d.items():
                out.setdefault(k, v)
    elif m in ('intersection', 'intersection_update'):
        out = {k: v for k, v in mine.items() if all(k in d for d in others)}
    elif m in ('difference', 'difference_update'):
        out = {k: v for k, v in mine.items() if not any(k in d for d in others)}
    elif m == 'symmetric_difference':
        out = {k: v for k, v in list(mine.items()) + list(others[0].items()) if (k in mine) != (k in others[0])}
    elif m == 'issubset':
        return all(k in others[0] for k in mine)
    elif m == 'issuperset':
        return all(k in mine for k in others[0])
    elif m == 'isdisjoint':
        return not any(k in mine for k in others[0])
    else:
        raise Undecided('set.' + m)
    if 'update' in m:
        r.items = list(out.values())
        return None
    from .interp import PySet
    return I.new(PySet(list(out.values())))


import re as _re
import string as _string
_CONV = _re.compile(r'%(?P<key>\(\w*\))?[#0\- +]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)', _re.S)


def strmod(I, s, b, node):
    """the % operator on strings: number and kind of the values"""
    def fail(why):
        I.event('arity', 'string formatting: ' + why, node)
        raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
    cs = [m for m in _CONV.finditer(s)]
    need = []
    for m in cs:
        if m.group('key'):
            return
        for w in ('w', 'p'):
            if m.group(w) == '*':
                need.append('i')
        if m.group('c') != '%':
            need.append(m.group('c'))
    if isinstance(b, tuple):
        vals = list(b)
    elif isinstance(b, Ref) and I.rec(b).kind == 'dict' or isinstance(b, Opq):
        return
    else:
        vals = [b]
    if len(vals) != len(need):
        fail('%d values for %d conversions in %r' % (len(vals), len(need), s[:80]))
    for c, v in zip(need, vals):
        if c in 'diouxXeEfFgG' and (isinstance(v, str) or v is None or isinstance(v, tuple) or isinstance(v, Ref) and I.rec(v).kind in ('list', 'dict', 'obj', 'set')):
            fail('%%%s for %s in %r' % (c, I.vkey(v)[:60], s[:80]))


def strformat(I, s, args, kw, node):
    if not isinstance(s, str):
        return
    try:
        fields = [f for _, f, _, _ in _string.Formatter().parse(s) if f is not None]
    except ValueError:
        raise Raised('ValueError', node, I.stack[-1] if I.stack else None)
    auto = 0
    for f in fields:
        f = _re.split(r'[.\[]', f)[0]
        if f == '':
            k, auto = auto, auto + 1
        elif f.isdigit():
            k = int(f)
        else:
            if f not in kw:
                raise Raised('KeyError', node, I.stack[-1] if I.stack else None)
            continue
        if k >= len(args):
            I.event('arity', 'string formatting: %d values for %r' % (len(args), s[:80]), node)
            raise Raised('IndexError', node, I.stack[-1] if I.stack else None)
