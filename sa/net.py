"""Tensor values as sums of generalised einsum networks with named legs.

A Net is  coef * sum_{internal indices} prod_nodes node[idx...]  with output legs `outs`.
 * every index (int id) is a summation index unless it occurs in outs;
 * an index may occur any number of times (hyper-index): np.eye(n) is Net with outs ((i,),(i,)) and no node,
   np.diag(s) is s[i] with outs ((i,),(i,));
 * a leg (of a node or an output) is a *tuple* of indices in row-major order, so reshape only regroups;
   a leg of dimension one is the empty tuple.
Two Nets are equal iff their canonical keys agree (Weisfeiler-Lehman refinement with individualisation on ties).
"""
import itertools
from fractions import Fraction as Fr
from .poly import Poly, ONE, ZERO

_ctr = itertools.count(1)
REAL_LABELS = set()          # node labels whose tensor is real
FACTOR = {}                  # label -> record of a factorisation the node belongs to (see svd/qr below)
ISOMETRY = {}                # label -> (kind) 'rows' : legs[:-1] are contracted to identity ; 'cols': legs[1:]
HERMITIAN = set()
UNIT = set()                 # labels of vectors whose entries have modulus one
FULLPART = {}                # label of a full (square) svd factor -> (axis, thin label, rank dimension)


class Scramble(Exception):
    pass


class Node:
    __slots__ = ('label', 'conj', 'legs')

    def __init__(self, label, conj, legs):
        self.label = label
        self.conj = conj and (label not in REAL_LABELS)
        self.legs = tuple(tuple(l) for l in legs)

    def idx(self):
        return [i for l in self.legs for i in l]

    def sub(self, f):
        return Node(self.label, self.conj, [[j for i in l for j in f(i)] for l in self.legs])

    def __repr__(self):
        return '%s%s%s' % (self.label, '*' if self.conj else '', list(self.legs))


RIGID = [1]                  # dimensions of independent inputs are not equal (cleared by obligations that leave them open)


def _rigid(p):
    return bool(p.t) and all(a[:2] in ('b:', 'p:', 'm:') for a in p.atoms())


class Dims:
    """dimension of each index id, with unification of dimension symbols."""
    def __init__(self):
        self.d = {}
        self.eq = {}

    def find(self, p):
        """normalise a dimension polynomial under the recorded equalities"""
        while True:
            at = p.atoms() & set(self.eq)
            if not at:
                return p
            p = p.subs({a: self.eq[a] for a in at})

    def unify(self, p, q):
        p, q = self.find(p), self.find(q)
        if p == q:
            return True
        if RIGID[0] and _rigid(p) and _rigid(q):
            return False
        for a, b in ((p, q), (q, p)):
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if len(m) == 1 and m[0][1] == 1 and c == (1, 0) and m[0][0] not in b.atoms() and m[0][0].startswith('~'):
                    self.eq[m[0][0]] = b
                    return True
        for a, b in sorted(((p, q), (q, p)), key=lambda x: x[0].key(), reverse=True):
            if len(a.t) == 1:
                (m, c), = a.t.items()
                if len(m) == 1 and m[0][1] == 1 and c == (1, 0) and m[0][0] not in b.atoms():
                    self.eq[m[0][0]] = b
                    return True
        return False


DIMS = Dims()


def reset():
    global DIMS
    DIMS.d.clear()
    DIMS.eq.clear()
    FACTOR.clear()
    ISOMETRY.clear()
    REAL_LABELS.clear()
    HERMITIAN.clear()
    UNIT.clear()
    FULLPART.clear()
    NORM2.clear()
    BASIS_ON.clear()
    FIXPOINT.clear()
    GRAM.clear()


BASIS_ON = {}
EMB = {}                     # label of a block embedding -> first position of the block
CUTLO = {}                   # label of a selection -> first position


def newidx(dim):
    i = next(_ctr)
    DIMS.d[i] = Poly.const(dim) if not isinstance(dim, Poly) else dim
    return i


def dim(i):
    return DIMS.find(DIMS.d[i])


def legdim(leg):
    p = ONE
    for i in leg:
        p = p * dim(i)
    return p


class Net:
    __slots__ = ('coef', 'nodes', 'outs', '_k')

    def __init__(self, coef, nodes, outs):
        self.coef = coef
        self.nodes = tuple(nodes)
        self.outs = tuple(tuple(o) for o in outs)
        self._k = None

    # ---- helpers
    def counts(self):
        c = {}
        for n in self.nodes:
            for i in n.idx():
                c[i] = c.get(i, 0) + 1
        return c

    def outidx(self):
        return [i for o in self.outs for i in o]

    def rename(self):
        """fresh copies of all indices"""
        m = {}

        def f(i):
            if i not in m:
                m[i] = newidx(DIMS.d[i])
            return (m[i],)
        return Net(self.coef, [n.sub(f) for n in self.nodes], [[j for i in o for j in f(i)] for o in self.outs])

    def subs(self, m):
        """m: idx -> tuple of idx"""
        f = lambda i: m.get(i, (i,))
        return Net(self.coef, [n.sub(f) for n in self.nodes], [[j for i in o for j in f(i)] for o in self.outs])

    def conjugate(self):
        return Net(self.coef.conj(), [Node(n.label, not n.conj, n.legs) for n in self.nodes], self.outs)

    def scale(self, p):
        return Net(self.coef * p, self.nodes, self.outs)

    # ---- canonical key
    def ckey(self):
        """canonical key without the coefficient"""
        if self._k is None:
            self._k = _canon(self)
        return self._k

    def __repr__(self):
        return '%s*%s->%s' % (self.coef, list(self.nodes), self.outs)


def _canon(net):
    idxs = set(net.outidx())
    for n in net.nodes:
        idxs.update(n.idx())
    color = {}
    for i in idxs:
        occ = tuple((a, b) for a, o in enumerate(net.outs) for b, j in enumerate(o) if j == i)
        color[i] = repr(('o', occ))
    nn = [(('%s%s|%s' % (n.label, '*' if n.conj else '', '.'.join(str(len(l)) for l in n.legs))), n) for n in net.nodes]

    def refine(color):
        for _ in range(len(idxs) + 2):
            new = {i: [color[i]] for i in color}
            for lab, n in nn:
                flat = n.idx()
                sig = (lab, tuple(color[j] for j in flat))
                for p, i in enumerate(flat):
                    new[i].append(repr((sig, p)))
            ranks = {}
            keyed = {i: (v[0], tuple(sorted(v[1:]))) for i, v in new.items()}
            for r, k in enumerate(sorted(set(map(repr, keyed.values())))):
                ranks[k] = r
            nc = {i: '%06d' % ranks[repr(keyed[i])] for i in keyed}
            if len(set(nc.values())) == len(set(color.values())):
                return nc
            color = nc
        return color

    def finish(color):
        order = {i: k for k, i in enumerate(sorted(idxs, key=lambda i: color[i]))}
        parts = sorted('%s(%s)' % (lab, ';'.join(','.join('i%d' % order[i] for i in l) for l in n.legs)) for lab, n in nn)
        outs = ';'.join(','.join('i%d' % order[i] for i in o) for o in net.outs)
        return ' '.join(parts) + ' -> ' + outs

    best = [None]
    budget = [400]

    def go(color):
        color = refine(color)
        cl = {}
        for i, c in color.items():
            cl.setdefault(c, []).append(i)
        ties = [c for c in sorted(cl) if len(cl[c]) > 1]
        if not ties:
            k = finish(color)
            if best[0] is None or k < best[0]:
                best[0] = k
            return
        for i in cl[ties[0]]:
            if budget[0] <= 0:
                return
            budget[0] -= 1
            c2 = dict(color)
            c2[i] = c2[i] + '!'
            go(c2)
    if not idxs:
        return ' '.join(sorted(lab + '()' for lab, _ in nn)) + ' -> ' + ';' * (len(net.outs) - 1 if net.outs else 0)
    go(color)
    return best[0]


class Ten:
    """an ndarray value: a sum of Nets that share output leg structure (dims), immutable."""
    __slots__ = ('nets', 'ndim', 'dt', 'zd')

    def __init__(self, nets, ndim, dt=None, zd=None):
        self.nets = tuple(nets)
        self.ndim = ndim
        self.dt = dt
        self.zd = None if self.nets else zd      # dimensions of an array of zeros

    @staticmethod
    def atom(label, dims, real=False, dt=None):
        idx = [newidx(d) for d in dims]
        if real:
            REAL_LABELS.add(label)
        legs = [() if DIMS.find(Poly.const(d)) == ONE else (i,) for i, d in zip(idx, dims)]
        return Ten([Net(ONE, [Node(label, False, legs)], legs)], len(dims), dt)

    def key(self):
        acc = {}
        for n in simplify(self).nets:
            k = n.ckey()
            acc[k] = acc.get(k, ZERO) + n.coef
        return ' ++ '.join('{%s} %s' % (acc[k], k) for k in sorted(acc) if not acc[k].is_zero()) or 'ZERO'

    def same(self, o):
        return self.ndim == o.ndim and self.key() == o.key()

    def __repr__(self):
        return 'Ten<%s>' % self.key()

    def legdims(self):
        if not self.nets:
            return [DIMS.find(d) for d in self.zd] if self.zd is not None else None
        # prefer a net that carries dims
        return [legdim(o) for o in self.nets[0].outs]

    def map(self, f):
        return Ten([f(n) for n in self.nets], self.ndim, self.dt, self.zd)


# ---------------------------------------------------------------- operations
def scale(t, p):
    return Ten([n.scale(p) for n in t.nets], t.ndim, t.dt, t.legdims() if p.is_zero() or not t.nets else None)


def add(a, b, sign=1):
    nb = b.nets if sign == 1 else [n.scale(Poly.const(-1)) for n in b.nets]
    return Ten(list(a.nets) + list(nb), max(a.ndim, b.ndim), None, a.zd if a.zd is not None else b.zd)


def conj(t):
    return t.map(lambda n: n.conjugate())


def transpose(t, perm=None):
    if perm is None:
        perm = list(range(t.ndim))[::-1]
    perm = [p % t.ndim for p in perm]
    assert sorted(perm) == list(range(t.ndim))
    return Ten([Net(n.coef, n.nodes, [n.outs[p] for p in perm]) for n in t.nets], t.ndim, t.dt, [t.zd[p] for p in perm] if t.zd is not None else None)


class Mismatch(Exception):
    """contraction of legs whose dimensions cannot agree (definite error)"""


def _align(x, y):
    """given two legs (tuples of indices) return substitution making them structurally equal"""
    sub = {}
    x, y = list(x), list(y)
    rx, ry = [], []
    out = []
    while x or y:
        if not x or not y:
            # remaining indices must have dimension one
            rest = x or y
            for i in rest:
                if not DIMS.unify(DIMS.d[i], ONE):
                    raise Mismatch('leg dimensions differ')
            break
        i, j = x[0], y[0]
        di, dj = dim(i), dim(j)
        if di == dj or len(x) == len(y) == 1:
            if not DIMS.unify(di, dj):
                raise Mismatch('dimension %s vs %s' % (di, dj))
            out.append((i, j))
            x.pop(0)
            y.pop(0)
            continue
        # try to split the larger one
        done = False
        for a, b, swap in ((x, y, False), (y, x, True)):
            p = ONE
            for k in range(1, len(b) + 1):
                p = p * dim(b[k - 1])
                if p == dim(a[0]) and k > 1:
                    parts = tuple(newidx(DIMS.d[q]) for q in b[:k])
                    sub[a[0]] = parts
                    for q, r in zip(b[:k], parts):
                        out.append((r, q) if not swap else (q, r))
                    del b[:k]
                    a.pop(0)
                    done = True
                    break
            if done:
                break
        if done:
            continue
        if len(x) == 1 and len(y) > 1:
            if DIMS.unify(di, legdim(y)):
                parts = tuple(newidx(DIMS.d[q]) for q in y)
                sub[i] = parts
                out += list(zip(parts, y))
                break
        if len(y) == 1 and len(x) > 1:
            if DIMS.unify(dj, legdim(x)):
                parts = tuple(newidx(DIMS.d[q]) for q in x)
                sub[j] = parts
                out += list(zip(x, parts))
                break
        if len(x) == len(y):
            if not DIMS.unify(di, dj):
                raise Mismatch('dimension %s vs %s' % (di, dj))
            out.append((i, j))
            x.pop(0)
            y.pop(0)
            continue
        raise Mismatch('cannot align grouped legs')
    return sub, out


def outer(a, b):
    nets = []
    for n in a.nets:
        for m in b.nets:
            n2, m2 = n.rename(), m.rename()
            nets.append(Net(n2.coef * m2.coef, n2.nodes + m2.nodes, n2.outs + m2.outs))
    return Ten(nets, a.ndim + b.ndim)


def _join(n, pairs, keep):
    """n: Net; pairs: list of (outpos,outpos) to identify and sum; keep: out positions kept"""
    for a, b in pairs:
        sub, out = _align(n.outs[a], n.outs[b])
        if sub:
            n = n.subs(sub)
            # out refers to new indices already
        # unify
        m = {}
        for i, j in out:
            ri, rj = i, j
            while ri in m:
                ri = m[ri]
            while rj in m:
                rj = m[rj]
            if ri != rj:
                m[rj] = ri

        def res(i):
            while i in m:
                i = m[i]
            return (i,)
        allidx = set(n.outidx())
        for nd in n.nodes:
            allidx.update(nd.idx())
        n = n.subs({i: res(i) for i in allidx})
    nodes = n.nodes
    outs = [n.outs[k] for k in keep]
    # indices of removed outs that occur nowhere else: sum of ones
    used = set(i for o in outs for i in o)
    for nd in nodes:
        used.update(nd.idx())
    coef = n.coef
    seen = set()
    for a, b in pairs:
        for i in n.outs[a]:
            if i not in used and i not in seen:
                seen.add(i)
                coef = coef * dim(i)
    return Net(coef, nodes, outs)


def tensordot(a, b, axa, axb):
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    if len(axa) != len(axb):
        raise Mismatch('axes lists differ in length')
    if len(a.nets) * len(b.nets) > 12:
        a, b = simplify(a), simplify(b)
    keep = [i for i in range(a.ndim) if i not in axa] + [a.ndim + i for i in range(b.ndim) if i not in axb]
    pairs = [(x, a.ndim + y) for x, y in zip(axa, axb)]
    out = []
    pb = [[_fixed_at(m, y) for y in axb] for m in b.nets]
    for n in a.nets:
        pa = [_fixed_at(n, x) for x in axa]
        for m, q in zip(b.nets, pb):
            if any(u is not None and v is not None and u != v for u, v in zip(pa, q)):
                continue        # different basis vectors: the product vanishes
            n2, m2 = n.rename(), m.rename()
            out.append(_join(Net(n2.coef * m2.coef, n2.nodes + m2.nodes, n2.outs + m2.outs), pairs, keep))
    zd = None
    if not out:
        da, db = a.legdims(), b.legdims()
        if da is not None and db is not None:
            zd = [(da + db)[i] for i in keep]
    return Ten(out, len(keep), None, zd)


def _fixed_at(n, ax):
    """non-negative position an axis is fixed to by a basis vector"""
    leg = n.outs[ax]
    if len(leg) == 1:
        for nd in n.nodes:
            if nd.label.startswith('e[') and nd.legs[0] == leg:
                s = nd.label[2:-1]
                return int(s) if s.isdigit() else None
    return None


def trace(t, ax1=0, ax2=1):
    keep = [i for i in range(t.ndim) if i not in (ax1, ax2)]
    return Ten([_join(n.rename(), [(ax1, ax2)], keep) for n in t.nets], t.ndim - 2)


def ncon(ts, labels):
    """labels: list of lists of ints (positive: sum, negative: open, -1 first)"""
    o = None
    flat = []
    for t, l in zip(ts, labels):
        if len(l) != t.ndim:
            raise Mismatch('ncon: %d labels for a rank-%d tensor' % (len(l), t.ndim))
        o = t if o is None else outer(o, t)
        flat += list(l)
    if o is ts[0]:
        o = Ten([n.rename() for n in o.nets], o.ndim)
    pos = {}
    for p, l in enumerate(flat):
        pos.setdefault(l, []).append(p)
    pairs = []
    for l, ps in pos.items():
        if l > 0:
            if len(ps) != 2:
                raise Mismatch('ncon: label %s occurs %d times' % (l, len(ps)))
            pairs.append(tuple(ps))
        elif len(ps) != 1:
            raise Mismatch('ncon: open label %s occurs %d times' % (l, len(ps)))
    opens = sorted((l for l in pos if l < 0), reverse=True)
    if opens != [-(k + 1) for k in range(len(opens))]:
        raise Mismatch('ncon: open labels %s' % opens)
    keep = [pos[l][0] for l in opens]
    return Ten([_join(n, pairs, keep) for n in o.nets], len(keep))


def einsum(spec_in, spec_out, ts):
    o = None
    flat = []
    for t, l in zip(ts, spec_in):
        if len(l) != t.ndim:
            raise Mismatch('einsum rank')
        o = t if o is None else outer(o, t)
        flat += list(l)
    if o is ts[0]:
        o = Ten([n.rename() for n in o.nets], o.ndim)
    pos = {}
    for p, l in enumerate(flat):
        pos.setdefault(l, []).append(p)
    pairs = []
    for l, ps in pos.items():
        for q in ps[1:]:
            pairs.append((ps[0], q))
    keep = [pos[l][0] for l in spec_out]
    return Ten([_join(n, pairs, keep) for n in o.nets], len(keep))


def reshape(t, dims, order='C'):
    """dims: list of Poly (or None for -1)"""
    if not t.nets:
        return Ten([], len(dims), t.dt, [DIMS.find(d) for d in dims] if all(d is not None for d in dims) else None)
    nets = []
    for n in t.nets:
        nets.append(_reshape1(n, list(dims), order))
    return Ten(nets, len(dims), t.dt)


def _reshape1(n, dims, order):
    n = n.rename()
    if order == 'F':
        n = Net(n.coef, n.nodes, n.outs[::-1])
        dims = dims[::-1]
    flat = [i for o in n.outs for i in o if dim(i) != ONE]
    dims = [None if d is None else DIMS.find(d) for d in dims]
    if None in dims:
        if dims.count(None) > 1:
            raise Scramble('several -1')
        k = dims.index(None)
        tot = ONE
        for i in flat:
            tot = tot * dim(i)
        for d in dims:
            if d is not None:
                tot = tot / d
        dims[k] = tot
    else:
        tot, want = ONE, ONE
        for i in flat:
            tot = tot * dim(i)
        for d in dims:
            want = want * d
        if tot != want and _rigid(tot) and _rigid(want) and RIGID[0]:
            raise Mismatch('an array of %s entries is reshaped to %s entries' % (tot, want))
    sub, groups = _partition(flat, dims)
    if groups is None and _fit(flat, dims):
        dims = [DIMS.find(d) for d in dims]
        sub, groups = _partition(flat, dims)
    if groups is None:
        # definite non-regrouping reshape: keep as an opaque linear operator on the flattened index
        lab = 'RESHAPE[%s=>%s]' % (','.join(dim(i).key() for i in flat), ','.join(d.key() for d in dims))
        REAL_LABELS.add(lab)
        new = [newidx(d) for d in dims]
        outs = [() if d == ONE else (i,) for i, d in zip(new, dims)]
        nd = Node(lab, False, [tuple(flat)] + outs)
        r = Net(n.coef, n.nodes + (nd,), outs)
    else:
        if sub:
            n = n.subs(sub)
        r = Net(n.coef, n.nodes, groups)
    if order == 'F':
        r = Net(r.coef, r.nodes, r.outs[::-1])
    return r


def _fit(flat, dims):
    """numbers of entries that differ by one symbol on either side: the reshape states that the two are equal"""
    tot, want = ONE, ONE
    for i in flat:
        tot = tot * dim(i)
    for d in dims:
        want = want * d
    if tot == want:
        return False
    if len(tot.t) != 1 or len(want.t) != 1:
        raise Scramble('reshape to another number of entries')
    q = DIMS.find(tot / want)
    if q == ONE:
        return True
    (m, c), = q.t.items()
    if not m or RIGID[0] and _rigid(q):
        raise Mismatch('an array of %s entries is reshaped to %s entries' % (tot, want))
    up, dn = [a for a, e in m if e == 1], [a for a, e in m if e == -1]
    if len(m) == 2 and len(up) == 1 and len(dn) == 1 and c == (1, 0) and DIMS.unify(Poly.atom(up[0]), Poly.atom(dn[0])):
        return True
    raise Scramble('reshape to another number of entries')


def _partition(flat, dims):
    """split the flat index list into consecutive groups with products `dims` (may split an index)."""
    sub = {}
    flat = list(flat)
    groups = []
    k = 0
    while k < len(dims):
        d = dims[k]
        if d == ONE:
            groups.append(())
            k += 1
            continue
        p = ONE
        g = []
        ok = False
        for j, i in enumerate(flat):
            g.append(i)
            p = p * dim(i)
            if p == d:
                ok = True
                break
        if ok:
            groups.append(tuple(g))
            flat = flat[len(g):]
            k += 1
            continue
        # last group swallows everything
        rest = [x for x in dims[k:] if x != ONE]
        if len(rest) == 1 and flat:
            DIMS.unify(legdim(flat), d)
            groups.append(tuple(flat))
            flat = []
            k += 1
            continue
        # split the head index over several targets
        if flat:
            h = flat[0]
            p = ONE
            done = False
            for j in range(k, len(dims)):
                p = p * dims[j]
                if p == dim(h) and j > k:
                    parts = tuple(newidx(dims[q]) if dims[q] != ONE else None for q in range(k, j + 1))
                    sub[h] = tuple(x for x in parts if x is not None)
                    groups += [((x,) if x is not None else ()) for x in parts]
                    flat = flat[1:]
                    k = j + 1
                    done = True
                    break
            if done:
                continue
            if len(flat) == 1:
                prod = ONE
                for q in range(k, len(dims)):
                    prod = prod * dims[q]
                if _bindable(dim(h)) and DIMS.unify(dim(h), prod):
                    parts = tuple(newidx(dims[q]) if dims[q] != ONE else None for q in range(k, len(dims)))
                    sub[h] = tuple(x for x in parts if x is not None)
                    groups += [((x,) if x is not None else ()) for x in parts]
                    flat = []
                    k = len(dims)
                    continue
            # same number of indices and targets left: dims may be declared equal ('~' symbols only)
            if _bindable(dim(h)) or _bindable(d):
                if DIMS.unify(dim(h), d):
                    continue
            if len(flat) >= 1 and len(flat) == len(rest) and all(_kind(dim(i)) == _kind(x) for i, x in zip(flat, rest)):
                # square-matrix assumption: unify symbols of the same kind
                good = True
                for i, x in zip(flat, rest):
                    good = good and DIMS.unify(dim(i), x)
                if good:
                    dims = [DIMS.find(x) for x in dims]
                    continue
        return {}, None
    if flat:
        if not all(DIMS.unify(dim(i), ONE) for i in flat):
            return {}, None
    return sub, groups


def _bindable(p):
    return len(p.t) == 1 and all(a.startswith('~') and e == 1 for m in p.t for a, e in m) and len(next(iter(p.t))) == 1


def _kind(p):
    a = sorted(p.atoms())
    return a[0].split(':')[0] if len(a) == 1 else None


def basis(leg, k):
    """node fixing leg (tuple of idx) to the constant position k (Poly or int)"""
    return Node('e[%s]' % (k,), False, [leg])


def split_pos(leg, k):
    """positions of the single indices of a merged leg (row-major), or None"""
    try:
        k = int(k)
    except ValueError:
        return None
    ds = [DIMS.find(DIMS.d[i]).as_int() for i in leg]
    if any(d is None for d in ds):
        return None
    tot = 1
    for d in ds:
        tot *= d
    k %= tot
    out = []
    for d in reversed(ds):
        out.append(k % d)
        k //= d
    for q in out:
        REAL_LABELS.add('e[%s]' % (q,))
    return out[::-1]


def fix(t, ax, k):
    """t[..., k, ...] : remove axis ax, fixing it to position k"""
    nets = []
    for n in t.nets:
        n = n.rename()
        leg = n.outs[ax]
        outs = n.outs[:ax] + n.outs[ax + 1:]
        if legdim(leg) == ONE:
            nets.append(Net(n.coef, n.nodes, outs))
        else:
            REAL_LABELS.add('e[%s]' % (k,))
            nets.append(Net(n.coef, n.nodes + (basis(leg, k),), outs))
    return Ten(nets, t.ndim - 1, t.dt)


def expand(t, ax):
    if ax < 0:
        ax += t.ndim + 1
    return Ten([Net(n.coef, n.nodes, n.outs[:ax] + ((),) + n.outs[ax:]) for n in t.nets], t.ndim + 1, t.dt)


def eye(d):
    i = newidx(d)
    leg = () if DIMS.find(Poly.const(d)) == ONE else (i,)
    return Ten([Net(ONE, [], [leg, leg])], 2)


def diag(t):
    if t.ndim == 1:
        return Ten([Net(n.coef, n.nodes, (n.outs[0], n.outs[0])) for n in t.nets], 2)
    # diagonal of a matrix
    nets = []
    for n in t.nets:
        n = n.rename()
        sub, out = _align(n.outs[0], n.outs[1])
        n = n.subs(sub)
        m = {j: (i,) for i, j in out if i != j}
        # resolve chains
        n = n.subs(m)
        nets.append(Net(n.coef, n.nodes, [n.outs[0]]))
    return Ten(nets, 1)


def cut(t, ax, m, start='0', lo=None):
    """t[..., start:m, ...]: select the first m entries of an axis"""
    nets = []
    for n in t.nets:
        n = n.rename()
        leg = n.outs[ax]
        if start == '0' and legdim(leg) == ONE:
            nets.append(n)          # a leading part of at least one entry of a length-one axis
            continue
        new = newidx(m)
        lab = 'cut[%s:%s]' % (start, DIMS.find(m).key())
        if lo is not None:
            CUTLO[lab] = lo
        elif start == '0':
            CUTLO[lab] = ZERO
        REAL_LABELS.add(lab)
        nets.append(Net(n.coef, n.nodes + (Node(lab, False, [leg, (new,)]),), n.outs[:ax] + ((new,),) + n.outs[ax + 1:]))
    return Ten(nets, t.ndim, t.dt)


# ---------------------------------------------------------------- simplification
def simplify(t, modtrunc=False):
    nets = []
    for n in t.nets:
        nets += _simp(n, modtrunc)
    acc = {}
    rep = {}
    for n in nets:
        if n.coef.is_zero():
            continue
        k = n.ckey()
        acc[k] = acc.get(k, ZERO) + n.coef
        rep[k] = n
    return Ten([Net(acc[k], rep[k].nodes, rep[k].outs) for k in sorted(acc) if not acc[k].is_zero()], t.ndim, t.dt, t.legdims())


def _simp(n, modtrunc):
    work = [n]
    out = []
    steps = 0
    while work:
        n = work.pop()
        steps += 1
        if steps > 300:
            out.append(n)
            continue
        r = _step(n, modtrunc)
        if r is None:
            out.append(n)
        else:
            work += r
    return out


def _drop_ones(n):
    idx = set(n.outidx())
    for nd in n.nodes:
        idx.update(nd.idx())
    ones = {i: () for i in idx if dim(i) == ONE}
    if not ones:
        return None
    return n.subs(ones)


def _substitute(n, need, T, rowlegs, collegs):
    """replace the nodes `need` of a net by the matrix T between the given index groups"""
    res = []
    for tn in T.nets:
        tn = tn.rename()
        try:
            s1, o1 = _align(tuple(rowlegs), tn.outs[0])
            base = Net(n.coef * tn.coef, [x for b, x in enumerate(n.nodes) if b not in need] + list(tn.nodes), n.outs)
            if s1:
                # splitting must be applied everywhere
                base = base.subs(s1)
                tn = tn.subs(s1)
            s2, o2 = _align(tuple(collegs), tn.outs[1])
            if s2:
                base = base.subs(s2)
            m = {}
            for i, j in o1 + o2:
                ri, rj = i, j
                while ri in m:
                    ri = m[ri][0]
                while rj in m:
                    rj = m[rj][0]
                if ri != rj:
                    m[rj] = (ri,)
            for j in list(m):
                r_ = j
                while r_ in m:
                    r_ = m[r_][0]
                m[j] = (r_,)
            res.append(base.subs(m))
        except Mismatch:
            return None
    return res


def _gram(n, cnt, oc):
    for a, nd in enumerate(n.nodes):
        rec = FACTOR.get(nd.label)
        if rec is None or nd.conj:
            continue
        rr = rec['rec']
        T = rr['T']
        if rec['role'] == 'R':
            k = nd.legs[0]
        elif 'S' in rr['roles']:
            k = nd.legs[-1]
        else:
            continue
        if len(k) != 1 or k[0] in oc or len(T.nets) != 1:
            continue
        for b, md in enumerate(n.nodes):
            if md.label != nd.label or not md.conj or (md.legs[0] if rec['role'] == 'R' else md.legs[-1]) != k:
                continue
            need = [a, b]
            if 'S' in rr['roles']:
                ss = [c for c, x in enumerate(n.nodes) if x.label == rr['S'] and x.legs[0] == k]
                if len(ss) != 2:
                    continue
                need += ss
            if cnt.get(k[0], 0) != len(need):
                continue
            cut_ = slice(1, None) if rec['role'] == 'R' else slice(0, -1)
            la = [i for l in nd.legs[cut_] for i in l]
            lb = [i for l in md.legs[cut_] for i in l]
            G = tensordot(T, conj(T), [0], [0]) if rec['role'] == 'R' else tensordot(T, conj(T), [1], [1])
            r = _substitute(n, need, G, la, lb)
            if r is not None:
                return r
    return None


GRAM = set()                 # non-empty: products r^dagger r are rewritten
FIXPOINT = {}                # label of a tensor -> [(side, nodes of the environment, environment after the tensor, factor)]


def _fixpoint(n, cnt, oc):
    """environment [pieces u,s,s,u*] under a layer of (a, a*): the next environment"""
    for a, nd in enumerate(n.nodes):
        rules = FIXPOINT.get(nd.label)
        if not rules or nd.conj:
            continue
        for ax, lab, out, fac in rules:
            ox = 1 - ax
            for b, md in enumerate(n.nodes):
                if md.label != nd.label or not md.conj or md.legs[2] != nd.legs[2]:
                    continue
                p = nd.legs[2]
                x, y = nd.legs[ax], md.legs[ax]
                if any(cnt.get(i, 0) != 2 or i in oc for i in p + x + y) or len(x) != 1 or len(y) != 1:
                    continue
                need = [a, b]
                if isinstance(lab, str):
                    # one environment tensor, (ket, bra)
                    e = [c for c, m in enumerate(n.nodes) if m.label == lab and not m.conj and m.legs[0] == x and m.legs[1] == y]
                    if not e:
                        continue
                    need += e[:1]
                else:
                    ul, sl, ketconj = lab
                    ku = [c for c, m in enumerate(n.nodes) if m.label == ul and m.conj == ketconj and m.legs[0] == x]
                    bu = [c for c, m in enumerate(n.nodes) if m.label == ul and m.conj != ketconj and m.legs[0] == y]
                    if not ku or not bu or n.nodes[ku[0]].legs[1] != n.nodes[bu[0]].legs[1]:
                        continue
                    k = n.nodes[ku[0]].legs[1]
                    ss = [c for c, m in enumerate(n.nodes) if m.label == sl and m.legs[0] == k]
                    if len(ss) != 2 or any(cnt.get(i, 0) != 4 or i in oc for i in k):
                        continue
                    need += [ku[0], bu[0]] + ss
                r = _substitute(n, need, scale(out, fac), list(nd.legs[ox]), list(md.legs[ox]))
                if r is not None:
                    return r
    return None


def _step(n, modtrunc):
    r = _drop_ones(n)
    if r is not None:
        return [r]
    cnt = n.counts()
    outs = n.outidx()
    oc = {}
    for i in outs:
        oc[i] = oc.get(i, 0) + 1
    # closed scalar components stay as nodes (canonical key handles them)
    # 1. basis vectors
    at = {}
    for a, nd in enumerate(n.nodes):
        if nd.label.startswith('e['):
            leg = nd.legs[0]
            if leg == ():
                return [Net(n.coef, n.nodes[:a] + n.nodes[a + 1:], n.outs)]
            if len(leg) > 1:
                ps = split_pos(leg, nd.label[2:-1])
                if ps is not None:
                    return [Net(n.coef, n.nodes[:a] + n.nodes[a + 1:] + tuple(basis((i,), q) for i, q in zip(leg, ps)), n.outs)]
            if leg in at:
                b = at[leg]
                la, lb = nd.label, n.nodes[b].label
                if la == lb:
                    # e_k e_k = e_k on a hyper-index
                    return [Net(n.coef, n.nodes[:a] + n.nodes[a + 1:], n.outs)]
                pa, pb = la[2:-1], lb[2:-1]
                try:
                    ia, ib = int(pa), int(pb)
                    d = legdim(leg).as_int()
                    if d is not None:
                        ia, ib = ia % d, ib % d
                        if ia == ib:
                            return [Net(n.coef, n.nodes[:a] + n.nodes[a + 1:], n.outs)]
                        return []
                    if (ia >= 0) == (ib >= 0):
                        return []
                except ValueError:
                    pass
            at[leg] = a
            # sum over an index that only carries a basis vector: factor one
            if all(cnt.get(i, 0) == 1 and i not in oc for i in leg):
                return [Net(n.coef, n.nodes[:a] + n.nodes[a + 1:], n.outs)]
    # 1a. a basis vector seen through a selection of a leading or inner part
    if at:
        for a, nd in enumerate(n.nodes):
            if nd.label.startswith('cut[') and nd.legs[0] in at and nd.label in CUTLO:
                eb = n.nodes[at[nd.legs[0]]]
                lo, m, d = DIMS.find(CUTLO[nd.label]).as_int(), legdim(nd.legs[1]).as_int(), legdim(nd.legs[0]).as_int()
                try:
                    q = int(eb.label[2:-1])
                except ValueError:
                    continue
                if lo is None or m is None or d is None and q < 0:
                    continue
                q = (q % d if d is not None else q) - lo
                if not 0 <= q < m:
                    return []
                REAL_LABELS.add('e[%s]' % (q,))
                return [Net(n.coef, [x for b, x in enumerate(n.nodes) if b != a] + [basis(nd.legs[1], q)], n.outs)]
    # 1b. u u* = 1 entrywise for unit-modulus vectors
    un = {}
    for a, nd in enumerate(n.nodes):
        if nd.label in UNIT:
            un.setdefault((nd.label, nd.legs), []).append(a)
    for (lab, legs), at_ in un.items():
        for x in at_:
            for y in at_:
                if x < y and (lab in REAL_LABELS or n.nodes[x].conj != n.nodes[y].conj):
                    base = Net(n.coef, [m for b, m in enumerate(n.nodes) if b not in (x, y)], n.outs)
                    used = set(base.outidx())
                    for m in base.nodes:
                        used.update(m.idx())
                    for i in {i for l in legs for i in l}:
                        if i not in used:
                            base = base.scale(dim(i))
                    return [base]
    # 1d. entry times reciprocal entry
    for a, nd in enumerate(n.nodes):
        if nd.label.startswith('recip{'):
            for b, md in enumerate(n.nodes):
                if md.label == nd.label[6:-1] and md.conj == nd.conj and md.legs == nd.legs:
                    base = Net(n.coef, [m for c, m in enumerate(n.nodes) if c not in (a, b)], n.outs)
                    used = set(base.outidx())
                    for m in base.nodes:
                        used.update(m.idx())
                    for i in {i for l in nd.legs for i in l}:
                        if i not in used:
                            base = base.scale(dim(i))
                    return [base]
    # 1e. root times root
    for a, nd in enumerate(n.nodes):
        if nd.label.startswith('sqrt{'):
            for b in range(a + 1, len(n.nodes)):
                md = n.nodes[b]
                if md.label == nd.label and md.conj == nd.conj and md.legs == nd.legs:
                    return [Net(n.coef, [m for c, m in enumerate(n.nodes) if c not in (a, b)] + [Node(nd.label[5:-1], nd.conj, nd.legs)], n.outs)]
    # 1c. the leading part of a full svd factor is the thin factor
    for a, nd in enumerate(n.nodes):
        fp = FULLPART.get(nd.label)
        if fp is None:
            continue
        ax, thin, rank = fp
        leg = nd.legs[ax]
        cs = [b for b, m in enumerate(n.nodes) if m.label.startswith('cut[0:') and m.legs[0] == leg]
        if cs:
            others = [m for c_, m in enumerate(n.nodes) if c_ != a and c_ not in cs]
            if any(i in oc or any(i in m.idx() for m in others) for i in leg):
                continue
            legs2 = list(nd.legs)
            exact = [b for b in cs if n.nodes[b].label == 'cut[0:%s]' % DIMS.find(rank).key()]
            if exact:
                legs2[ax] = n.nodes[exact[0]].legs[1]
                if len(cs) == 1:
                    return [Net(n.coef, others + [Node(thin, nd.conj, legs2)], n.outs)]
            else:
                # every shorter leading part is a leading part of the thin factor
                k = newidx(rank)
                legs2[ax] = (k,)
                return [Net(n.coef, others + [Node(thin, nd.conj, legs2)] + [Node(n.nodes[b].label, False, [(k,), n.nodes[b].legs[1]]) for b in cs], n.outs)]
    # 2. truncation maps: hyper-product of equal cuts on a shared internal index
    cuts = [(a, nd) for a, nd in enumerate(n.nodes) if nd.label.startswith('cut[')]
    for a, nd in cuts:
        i = nd.legs[1][0] if nd.legs[1] else None
        if i is None:
            continue
        # cuts sharing target index i
        group = [b for b, m in cuts if m.legs[1] and m.legs[1][0] == i and m.label == nd.label]
        if len(group) > 1 and all(len(n.nodes[b].legs[0]) == 1 for b in group):
            src = [n.nodes[b].legs[0][0] for b in group]
            if len(set(src)) == 1:
                # duplicate selection of the same index: keep one
                return [Net(n.coef, [m for b, m in enumerate(n.nodes) if b not in group[1:]], n.outs)]
            m = {s: (src[0],) for s in src[1:]}
            nodes = [x for b, x in enumerate(n.nodes) if b not in group[1:]]
            return [Net(n.coef, nodes, n.outs).subs(m)]
        group = [b for b, m in cuts if m.legs[0] == nd.legs[0] and m.label == nd.label]
        if len(group) > 1:
            # selection is injective: equal selections of one index are one selection
            t0 = n.nodes[group[0]].legs[1]
            if all(len(n.nodes[b].legs[1]) == 1 for b in group):
                m = {n.nodes[b].legs[1][0]: t0 for b in group[1:] if n.nodes[b].legs[1] != t0}
                nodes = [x for b, x in enumerate(n.nodes) if b not in group[1:]]
                return [Net(n.coef, nodes, n.outs).subs(m)]
        if len(nd.legs[0]) == 1 and cnt.get(nd.legs[0][0], 0) == 1 and nd.legs[0][0] not in oc:
            # nothing else depends on the source index: sum over it is one
            return [Net(n.coef, [x for b, x in enumerate(n.nodes) if b != a], n.outs)]
    if modtrunc:
        for a, nd in cuts:
            if nd.legs[1] and len(nd.legs[0]) == 1:
                i, k = nd.legs[1][0], nd.legs[0][0]
                nodes = [x for b, x in enumerate(n.nodes) if b != a]
                return [Net(n.coef, nodes, n.outs).subs({i: (k,)})]
    # 2b. blocks embedded in a longer axis
    embs = [(a, nd) for a, nd in enumerate(n.nodes) if nd.label.startswith('emb[')]
    for a, nd in embs:
        leg = nd.legs[1]
        for b, md in enumerate(n.nodes):
            if b == a:
                continue
            if md.label.startswith('emb[') and b > a and md.legs[1] == leg:
                lo, ln = EMB[nd.label], legdim(nd.legs[0])
                lo2, ln2 = EMB[md.label], legdim(md.legs[0])
            elif md.label.startswith('cut[') and md.legs[0] == leg:
                lo, ln = EMB[nd.label], legdim(nd.legs[0])
                lo2, ln2 = CUTLO.get(md.label), legdim(md.legs[1])
                if lo2 is None:
                    continue
            else:
                continue
            lo, lo2 = DIMS.find(lo), DIMS.find(lo2)
            other = 0 if md.label.startswith('emb[') else 1
            if lo == lo2 and DIMS.find(ln) == DIMS.find(ln2) and len(nd.legs[0]) == len(md.legs[other]):
                m = {j: (i,) for i, j in zip(nd.legs[0], md.legs[other]) if i != j}
                return [Net(n.coef, [x for c, x in enumerate(n.nodes) if c != b], n.outs).subs(m)]
            if DIMS.find(lo + ln) == lo2 or DIMS.find(lo2 + ln2) == lo:
                return []
            g1, g2 = (lo2 - lo - ln).as_int(), (lo - lo2 - ln2).as_int()
            if g1 is not None and g1 >= 0 or g2 is not None and g2 >= 0:
                return []
        if all(cnt.get(i, 0) == 1 and i not in oc for i in leg):
            # each block entry sits at exactly one place of the long axis
            return [Net(n.coef, [x for c, x in enumerate(n.nodes) if c != a], n.outs)]
    # 3. factorisations: rebuild T from q.r or u.s.v when joined over the bond index
    for lab, rec in list(FACTOR.items()):
        pass
    facs = {}
    for a, nd in enumerate(n.nodes):
        rec = FACTOR.get(nd.label)
        if rec is not None:
            facs.setdefault((rec['id'], nd.conj if nd.label not in REAL_LABELS else None), []).append((rec['role'], a, rec))
    for (fid, cj), lst in facs.items():
        cj2 = bool(cj)
        if cj is None:
            continue
        rec = lst[0][2]['rec']
        roles = rec['roles']
        left = [a for r, a, _ in lst if r == 'L']
        right = [a for r, a, _ in lst if r == 'R']
        for la in left:
            for ra in right:
                k = n.nodes[la].legs[-1]
                if n.nodes[ra].legs[0] != k or len(k) != 1:
                    continue
                k0 = k[0]
                if k0 in oc:
                    continue
                need = [la, ra]
                if 'S' in roles:
                    mids = [a for a, nd in enumerate(n.nodes) if nd.label == rec['S'] and nd.legs[0] == k]
                    if len(mids) != 1:
                        continue
                    need.append(mids[0])
                if cnt.get(k0, 0) != len(need):
                    continue
                rowlegs = [i for l in n.nodes[la].legs[:-1] for i in l]
                collegs = [i for l in n.nodes[ra].legs[1:] for i in l]
                res = _substitute(n, need, rec['T'] if not cj2 else conj(rec['T']), rowlegs, collegs)
                if res is not None:
                    return res
    # 3b. r^dagger r = t^dagger t (the isometric factor drops out)
    if GRAM:
        r = _gram(n, cnt, oc)
        if r is not None:
            return r
    # 3c. fixed points of a transfer matrix
    if FIXPOINT:
        r = _fixpoint(n, cnt, oc)
        if r is not None:
            return r
    # 4. isometries: u^dagger u = 1
    for a, nd in enumerate(n.nodes):
        iso = ISOMETRY.get(nd.label)
        if not iso or nd.conj:
            continue
        for b, md in enumerate(n.nodes):
            if md.label != nd.label or not md.conj or b == a:
                continue
            for kind in iso:
                if kind == 'rows':
                    fa, fb = nd.legs[:-1], md.legs[:-1]
                    ka, kb = nd.legs[-1], md.legs[-1]
                elif kind == 'cols':
                    fa, fb = nd.legs[1:], md.legs[1:]
                    ka, kb = nd.legs[0], md.legs[0]
                if fa != fb:
                    continue
                fl = [i for l in fa for i in l]
                if all(cnt[i] == 2 and i not in oc for i in fl) and len(ka) == len(kb) and len(set(fl)) == len(fl):
                    nodes = [x for c, x in enumerate(n.nodes) if c not in (a, b)]
                    m = {j: (i,) for i, j in zip(ka, kb) if i != j}
                    coef = n.coef
                    base = Net(coef, nodes, n.outs).subs(m)
                    # an index left nowhere
                    used = set(base.outidx())
                    for x in base.nodes:
                        used.update(x.idx())
                    for i in ka:
                        if i not in used:
                            base = base.scale(dim(i))
                    return [base]
    # 5. closed components become scalar factors
    oi = set(outs)
    if n.nodes and (oi or len(n.nodes) > 0):
        par = list(range(len(n.nodes)))

        def find(x):
            while par[x] != x:
                x = par[x]
            return x
        owner = {}
        for a, nd in enumerate(n.nodes):
            for i in nd.idx():
                if i in owner:
                    par[find(a)] = find(owner[i])
                else:
                    owner[i] = a
        openroots = set(find(owner[i]) for i in oi if i in owner)
        comps = {}
        for a in range(len(n.nodes)):
            comps.setdefault(find(a), []).append(a)
        closed = [c for r, c in comps.items() if r not in openroots]
        if closed:
            coef = n.coef
            gone = set()
            for c in closed:
                coef = coef * scalar_atom(Net(ONE, [n.nodes[a] for a in c], []))
                gone.update(c)
            return [Net(coef, [x for a, x in enumerate(n.nodes) if a not in gone], n.outs)]
    return None


ATOM_DT = {}


def scalar_atom(net):
    """a closed network as a scalar polynomial"""
    from . import poly
    k = net.ckey()
    if len(net.nodes) == 1 and not net.nodes[0].idx() and net.nodes[0].label.startswith('%'):
        k = net.nodes[0].label[1:]
        p = Poly.atom(k)
        return p.conj() if net.nodes[0].conj else p
    kc = net.conjugate().ckey()
    if k == kc:
        if '<' + k + '>' in NORM2:
            return NORM2['<' + k + '>']
        return Poly.atom('<' + k + '>')
    a, b = sorted((k, kc))
    name = '<' + a + '>'
    poly.COMPLEX_ATOMS.add(name)
    p = Poly.atom(name)
    return p if k == a else p.conj()


# ---------------------------------------------------------------- factorisations
CHI = [None]


def _natoms(p):
    return sum(e for m in p.t for _, e in m)


_fid = itertools.count(1)
_fcache = {}


def _mat_groups(t):
    return t.nets[0].outs


def _divides(a, b):
    if len(a.t) != 1 or len(b.t) != 1:
        return False
    q = b * a.inv()
    (m, (x, y)), = q.t.items()
    return y == 0 and all(e > 0 for _, e in m) and x >= 1


def factor(t, kind):
    """kind 'svd' -> (U,S,V) ; 'qr' -> (Q,R).  Labels are value-numbered on the canonical key of t."""
    t = simplify(t)
    key = kind + '<' + t.key() + '>'
    c0 = None
    if not t.nets:
        rd = [ONE, ONE]
        rows = cols = None
    n0 = t.nets[0]
    rd, cd = [dim(i) for i in n0.outs[0]], [dim(i) for i in n0.outs[1]]
    k = Poly.atom('chi<%d>' % _num(key))
    square = None
    pr, pc = legdim(n0.outs[0]), legdim(n0.outs[1])
    if _divides(pr, pc):             # the inner dimension is min(rows, columns)
        k, square = pr, 'L'
    elif _divides(pc, pr):
        k, square = pc, 'R'
    elif CHI[0] in ('keep', 'cut') and len(pr.t) == len(pc.t) == 1:
        # assumption of the obligation: the side with fewer (more) dimensions is the smaller one
        k = pr if (_natoms(pr) <= _natoms(pc)) == (CHI[0] == 'keep') else pc
        square = 'L' if k == pr else 'R'
    fid = _num(key)
    vec = _factor_vector(t, kind, fid, rd, cd)
    if vec is not None:
        return vec
    if kind == 'svd':
        labs = ('U%d' % fid, 'S%d' % fid, 'V%d' % fid)
    else:
        labs = ('Q%d' % fid, 'R%d' % fid)
    T = t
    rec = {'roles': 'LSR' if kind == 'svd' else 'LR', 'T': T, 'key': key}
    FACTOR[labs[0]] = {'id': fid, 'role': 'L', 'rec': rec}
    FACTOR[labs[-1]] = {'id': fid, 'role': 'R', 'rec': rec}
    ISOMETRY[labs[0]] = ['rows']
    if kind == 'svd':
        rec['S'] = labs[1]
        REAL_LABELS.add(labs[1])
        ISOMETRY[labs[2]] = ['cols']
        if square == 'L' and len(rd) == 1:
            ISOMETRY[labs[0]] = ['rows', 'cols']
        if square == 'R' and len(cd) == 1:
            ISOMETRY[labs[2]] = ['rows', 'cols']

    def mk(label, rows, cols):
        legs, outs = [], []
        for grp in (rows, cols):
            g = [newidx(d) for d in grp]
            outs.append(tuple(g))
        if label[0] in 'UQ':
            legs = [(i,) for i in outs[0]] + [outs[1]]
        else:
            legs = [outs[0]] + [(i,) for i in outs[1]]
        return Ten([Net(ONE, [Node(label, False, legs)], outs)], 2)
    L = mk(labs[0], rd, [k])
    R = mk(labs[-1], [k], cd)
    if kind == 'svd':
        i = newidx(k)
        S = Ten([Net(ONE, [Node(labs[1], False, [(i,)])], [(i,)])], 1)
        return L, S, R
    return L, R


NORM2 = {}


def norm_atom(n):
    """Frobenius norm of a net with coefficient one: unitarily invariant normal form"""
    n = Net(ONE, n.nodes, n.outs)
    for _ in range(60):
        n = Net(ONE, n.nodes, [(i,) for o in n.outs for i in o])
        oi = n.outidx()
        if len(set(oi)) != len(oi):
            # repeated output index: entries off the diagonal vanish
            n = Net(ONE, n.nodes, [(i,) for i in dict.fromkeys(oi)])
            oi = n.outidx()
        cnt = n.counts()
        if not n.nodes:
            p = ONE
            for i in oi:
                p = p * dim(i)
            return p.pow(Fr(1, 2))
        done = False
        for a, nd in enumerate(n.nodes):
            if nd.label in UNIT and all(i in oi for i in nd.idx()):
                n = Net(ONE, n.nodes[:a] + n.nodes[a + 1:], n.outs)
                done = True
                break
            for kind in ISOMETRY.get(nd.label, ()):
                free = nd.legs[:-1] if kind == 'rows' else nd.legs[1:]
                bond = nd.legs[-1] if kind == 'rows' else nd.legs[0]
                fl = [i for l in free for i in l]
                if len(set(fl)) != len(fl) or not all(i in oi and cnt[i] == 1 for i in fl) or len(bond) > 1:
                    continue
                keep = [i for i in oi if i not in fl]
                keep += [i for i in bond if i not in keep]
                n = Net(ONE, n.nodes[:a] + n.nodes[a + 1:], [(i,) for i in keep])
                done = True
                break
            if done:
                break
        if done:
            continue
        if len(n.nodes) == 1:
            nd = n.nodes[0]
            rec = FACTOR.get(nd.label)
            own = None
            if rec is not None and rec['role'] == 'R' and 'S' not in rec['rec']['roles']:
                own = rec['rec']
            if own is None:
                for f in FACTOR.values():
                    if f['rec'].get('S') == nd.label:
                        own = f['rec']
            if own is not None and set(nd.idx()) == set(oi) and len(own['T'].nets) == 1:
                t = own['T'].nets[0]
                ab = _absmono(t.coef)
                if ab is not None:
                    x = norm_atom(t)
                    return None if x is None else x * ab
        break
    a = Net(ONE, n.nodes, n.outs)
    fixed, dup = set(oi), list(n.nodes)
    for _ in n.nodes:
        for x in list(dup):
            # a selection is injective: the source index of a fixed target is the same in both copies
            if x.label.startswith('cut[') and all(i in fixed for i in x.legs[1]):
                fixed.update(x.legs[0])
                dup.remove(x)
    m = {i: newidx(DIMS.d[i]) for nd in n.nodes for i in nd.idx() if i not in fixed}
    closed = Net(ONE, list(n.nodes) + [Node(x.label, not x.conj, x.legs).sub(lambda i: (m.get(i, i),)) for x in dup], [])
    return Poly.atom('norm<%s>' % closed.ckey())


def _factor_vector(t, kind, fid, rd, cd):
    """a single column or row factorises as phase * norm * unit vector"""
    from . import poly
    prod = lambda l: legprod(l)
    col, row = prod(cd) == ONE, prod(rd) == ONE
    if not (col or row) or len(t.nets) != 1:
        return None
    n = t.nets[0]
    c = n.coef
    base = Net(ONE, n.nodes, n.outs)
    bt = Ten([base], t.ndim)
    nm = norm_atom(base)
    if nm is None:
        return None
    # closed net T.T*
    a, b = base.rename(), base.rename().conjugate()
    x = Net(ONE, a.nodes + b.nodes, a.outs + b.outs)
    x = _join(x, [(0, 2), (1, 3)], [])
    sx = simplify(Ten([x], 0))
    for q in sx.nets:
        if len(sx.nets) == 1 and not q.nodes and len(q.coef.t) == 1:
            (m, (re, im)), = q.coef.t.items()
            if len(m) == 1 and m[0][1] == 1 and re == 1 and im == 0:
                NORM2[m[0][0]] = nm.pow(2)
    ab = _absmono(c)
    if ab is None:
        return None
    ph = Poly.atom('phase<%d>' % fid)
    poly.UNIT_ATOMS.add('phase<%d>' % fid)
    full = nm * ab
    unitv = scale(bt, c * ab.inv() * nm.inv() * ph.conj())
    one = lambda p: Ten([Net(p, [], [(), ()])], 2)
    if kind == 'qr':
        if col:
            return unitv, one(ph * full)
        return one(ph), scale(t, ph.conj())
    s = Ten([Net(full, [], [()])], 1)
    if col:
        return unitv, s, one(ph)
    return one(ph), s, unitv


def legprod(l):
    p = ONE
    for x in l:
        p = p * x
    return p


def _absmono(c):
    """modulus of a monomial of positive/unit atoms, else None"""
    from . import poly
    if len(c.t) != 1:
        return None
    (m, (a, b)), = c.t.items()
    keep = []
    for at, ex in m:
        if at in poly.UNIT_ATOMS:
            continue
        if not at.startswith(('norm<', 'chi<', 'len(', 'size(', '#', 'p:', 'b:', 'm:', 'Dcap')):
            if at.startswith('conj(') and at.endswith(')'):
                at = at[5:-1]
            if '?' in at or 'Opq' in at:
                return None
            at = 'norm<|%s|>' % at
        keep.append((at, ex))
    acc = {}
    for at, ex in keep:
        acc[at] = acc.get(at, 0) + ex
    keep = sorted((x for x in acc.items() if x[1] != 0))
    return Poly.const(a * a + b * b).pow(Fr(1, 2)) * Poly({tuple(keep): (Fr(1), Fr(0))})


_numtab = {}


def _num(key):
    if key not in _numtab:
        _numtab[key] = len(_numtab) + 1
    return _numtab[key]
