"""Explicit entries of small tensors whose dimensions are all concrete, and operators on small chains built from them."""
import itertools
from . import net as N
from .poly import Poly, ONE, ZERO


class NotDense(Exception):
    pass


def entries(t):
    """{index tuple: Poly} of the nonzero entries and the shape"""
    t = N.simplify(t)
    ds = t.legdims()
    if ds is None:
        raise NotDense('unknown shape')
    shape = tuple(N.DIMS.find(d).as_int() for d in ds)
    if any(d is None for d in shape):
        raise NotDense('symbolic dimension')
    out = {}
    for n in t.nets:
        pos = {}
        todo, dead = [], False
        for nd in n.nodes:
            if not nd.label.startswith('e['):
                raise NotDense('entry depends on %s' % nd.label[:60])
            leg = nd.legs[0]
            ps = N.split_pos(leg, nd.label[2:-1])
            if ps is None:
                raise NotDense('position %s' % nd.label)
            for i, q in zip(leg, ps):
                if pos.setdefault(i, q) != q:
                    dead = True
        if dead:
            continue
        legs = [i for leg in n.outs for i in leg]
        free = [i for i in dict.fromkeys(legs) if i not in pos]
        mult = 1
        rng = [range(N.dim(i).as_int()) for i in free]
        if any(N.dim(i).as_int() is None for i in free):
            raise NotDense('symbolic dimension')
        for c in itertools.product(*rng):
            at = dict(pos)
            at.update(zip(free, c))
            key = []
            for leg in n.outs:
                k = 0
                for i in leg:
                    k = k * N.dim(i).as_int() + at[i]
                key.append(k)
            key = tuple(key)
            v = out.get(key)
            out[key] = n.coef if v is None else v + n.coef
    return {k: v for k, v in out.items() if not v.is_zero()}, shape


# ---- sparse matrices of polynomials: {(row, col): Poly}
def madd(*ms):
    out = {}
    for m in ms:
        for k, v in m.items():
            w = out.get(k)
            out[k] = v if w is None else w + v
    return {k: v for k, v in out.items() if not v.is_zero()}


def mscale(m, c):
    return {k: v * c for k, v in m.items()}


def mmul(a, b):
    rows = {}
    for (i, j), v in b.items():
        rows.setdefault(i, []).append((j, v))
    out = {}
    for (i, k), v in a.items():
        for j, w in rows.get(k, ()):
            x = out.get((i, j))
            out[(i, j)] = v * w if x is None else x + v * w
    return {k: v for k, v in out.items() if not v.is_zero()}


def mkron(a, b, db):
    return {(i * db + k, j * db + l): v * w for (i, j), v in a.items() for (k, l), w in b.items()}


def mherm(a):
    return {(j, i): v.conj() for (i, j), v in a.items()}


def meye(d):
    return {(i, i): ONE for i in range(d)}


def mat(rows):
    return {(i, j): Poly.const(v) if not isinstance(v, Poly) else v for i, r in enumerate(rows) for j, v in enumerate(r) if v != 0}


def same(a, b):
    d = madd(a, mscale(b, Poly.const(-1)))
    return not d, (sorted(d)[0] if d else None)


def chain(ws, left=None, right=None):
    """operator of a matrix product operator given as [(entries, shape)]; rows / columns of the outer bonds: left (default last row), right (default first column)
    entry index order: (left bond, right bond, physical out, physical in)"""
    l0 = ws[0][1][0] - 1 if left is None else left
    cur = {l0: {(0, 0): ONE}}
    for e, sh in ws:
        by = {}
        for (a, b, p, q), v in e.items():
            by.setdefault((a, b), {})[(p, q)] = v
        nxt = {}
        for (a, b), m in by.items():
            if a in cur:
                x = mkron(cur[a], m, sh[2])
                nxt[b] = madd(nxt[b], x) if b in nxt else x
        cur = nxt
    return cur.get(0 if right is None else right, {})


def tensor(ent, shape):
    """Ten with the given entries {index tuple: Poly}; the inverse of entries()"""
    nets = []
    for key in sorted(ent):
        nodes, outs = [], []
        for d, v in zip(shape, key):
            N.REAL_LABELS.add('e[%s]' % (v,))
            i = N.newidx(Poly.const(d))
            nodes.append(N.basis((i,), v))
            outs.append((i,))
        nets.append(N.Net(ent[key], nodes, outs))
    return N.Ten(nets, len(shape))
