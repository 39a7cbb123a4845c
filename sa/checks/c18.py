"""C18: the two-site gates generated from an operator exponentiate terms that add up to the operator."""
from ..harness import *
from .. import dense as D
from .. import net as N
from .c12 import mpo_obj

EXP = 'every two-site gate is expm(tau*h) with h acting on the two sites of the bond, rows and columns in the (left site, right site) order of the state'
SUM = 'the generators h of all bonds of an open chain, one gate per bond, add up to tau times the operator of the chain'
ONE_ = 'the gate is the same whichever of the two sites is named first'
HAM = 'lib.mpslib.Hamiltonians'


def m_expm(I, args, kw, node):
    e, sh = D.entries(T(I, args[0]))
    if len(sh) != 2 or sh[0] != sh[1]:
        raise Unk('exponential of a %s array' % (sh,))
    k = len(I.lib.exps)
    I.lib.exps.append(e)
    return I.arr(D.tensor({(i, j): P('X%d_%d_%d' % (k, i, j)) for i in range(sh[0]) for j in range(sh[0])}, sh), DT_CPLX)


class Lib:
    def __init__(self):
        self.exps = []


OPTS = {'models': {'ext:scipy.linalg.expm': m_expm, 'ext:scipy.linalg.matfuncs.expm': m_expm}}


def sym(nm, d):
    return {(i, j): P('%s_%d%d' % (nm, i, j)) for i in range(d) for j in range(d)}


def automaton(I, ds, ch):
    """operator with on-site terms h_k and bond terms sum_s A_k^s B_{k+1}^s; entries in the order (left, right, physical, physical)"""
    n = len(ds)
    Dm = ch + 2
    out = []
    for k, d in enumerate(ds):
        blocks = {(0, 0): D.meye(d), (Dm - 1, Dm - 1): D.meye(d), (Dm - 1, 0): sym('h%d' % k, d)}
        for s in range(1, Dm - 1):
            blocks[(Dm - 1, s)] = sym('A%d.%d' % (k, s), d)
            blocks[(s, 0)] = sym('B%d.%d' % (k, s), d)
        r = [Dm - 1] if k == 0 else list(range(Dm))
        c = [0] if k == n - 1 else list(range(Dm))
        ent = {(r.index(a), c.index(b), p, q): v for (a, b), m in blocks.items() if a in r and b in c for (p, q), v in m.items()}
        out.append(I.arr(D.tensor(ent, (len(r), len(c), d, d)), DT_CPLX))
    return out


def term(ds, k, m, w):
    l = r = 1
    for d in ds[:k]:
        l *= d
    for d in ds[k + w:]:
        r *= d
    x = 1
    for d in ds[k:k + w]:
        x *= d
    return D.mkron(D.mkron(D.meye(l), m, x), D.meye(r), r)


def total(ds, ch):
    out = [term(ds, k, sym('h%d' % k, d), 1) for k, d in enumerate(ds)]
    for k in range(len(ds) - 1):
        for s in range(1, ch + 1):
            out.append(term(ds, k, D.mkron(sym('A%d.%d' % (k, s), ds[k]), sym('B%d.%d' % (k + 1, s), ds[k + 1]), ds[k + 1]), 2))
    return D.madd(*out)


def generator(I, g, dl, dr):
    """exponent of gate g as a matrix on (left, right), row = first two legs"""
    e, sh = D.entries(T(I, g))
    if sh != (dl, dr, dl, dr):
        raise Bad('gate has shape %s, expected %s' % (sh, (dl, dr, dl, dr)))
    n = dl * dr
    pos = {}
    for i in range(n):
        for j in range(n):
            key = (i // dr, i % dr, j // dr, j % dr)
            v = e.get(key)
            at = str(v.key()) if v is not None else ''
            import re
            m = re.fullmatch(r'(?:1\*)?X(\d+)_(\d+)_(\d+)', at)
            if not m:
                raise Unk('gate entry %s is %s' % (key, at[:60]))
            pos[(i, j)] = tuple(map(int, m.groups()))
    if len({v[0] for v in pos.values()}) != 1:
        raise Unk('gate from several exponentials')
    a = I.lib.exps[pos[(0, 0)][0]]
    row = [pos[(i, 0)][1] for i in range(n)]
    for t in (0, 1):
        row = [pos[(i, 0)][1 + t] for i in range(n)]
        col = [pos[(0, j)][2 - t] for j in range(n)]
        if row == col and sorted(row) == list(range(n)) and all(pos[(i, j)][1 + t] == row[i] and pos[(i, j)][2 - t] == col[j] for i in range(n) for j in range(n)):
            return {(i, j): v for i in range(n) for j in range(n) for v in [a.get((row[i], row[j]) if t == 0 else (row[j], row[i]))] if v is not None and not v.is_zero()}
    raise Bad('the legs of the gate are not those of the exponentiated matrix')


def run():
    c = Check('C18')
    tau = P('tau')
    calls = '[' + '{}' + ']'
    for n in (2, 3, 4, 5):
        for ch in (0, 1, 2) if n < 5 else (1,):
            for ds in ([2] * n, [3, 2, 2, 3, 2][:n], [2, 3, 2, 2, 2][:n]) if n < 5 else ([2] * n,):
                if ch != 1 and ds != [2] * n or n == 4 and ds[0] == 3:
                    continue

                def mk(I):
                    I.lib = Lib()
                    return [mpo_obj(I, automaton(I, ds, ch)), tau], {}

                def judge(I, r, a, k):
                    gs = I.finite(r)
                    acc = []
                    for b, g in enumerate(gs):
                        acc.append(term(ds, b, generator(I, g, ds[b], ds[b + 1]), 2))
                    ok, where = D.same(D.madd(*acc), D.mscale(total(ds, ch), tau))
                    if not ok:
                        raise Bad('matrix element %s of the summed generators is %s, of tau times the operator %s' % (
                            where, D.madd(*acc).get(where, 0), D.mscale(total(ds, ch), tau).get(where, 0)))
                src = '[' + ','.join('H.twoSiteGate(%d,%d,tau)' % (b, b + 1) for b in range(n - 1)) + ']'
                c.evaluate('sum:%d:%d:%s' % (n, ch, ''.join(map(str, ds))), HAM, client(src, 'H,tau', HAM), mk, judge, SUM, opts=OPTS)

                def mk2(I):
                    I.lib = Lib()
                    return [mpo_obj(I, automaton(I, ds, ch)), tau], {}

                def judge2(I, r, a, k):
                    gs = I.finite(r)
                    for b, (g, q) in enumerate(zip(gs[::2], gs[1::2])):
                        w = generator(I, g, ds[b], ds[b + 1])
                        e, sh = D.entries(T(I, q))
                        if ds[b] != ds[b + 1] and sh == (ds[b + 1], ds[b], ds[b + 1], ds[b]):
                            q = ops.call_ext(I, 'numpy.transpose', [q, (C(1), C(0), C(3), C(2))], {}, None)
                        ok, where = D.same(generator(I, q, ds[b], ds[b + 1]), w)
                        if not ok:
                            q = ops.call_ext(I, 'numpy.transpose', [q, (C(1), C(0), C(3), C(2))], {}, None)
                            ok, where = D.same(generator(I, q, ds[b], ds[b + 1]), w)
                        if not ok:
                            raise Bad('bond %d: matrix element %s of the generator differs' % (b, where))
                if ch == 1 and n < 5:
                    src = '[' + ','.join('H.twoSiteGate(%d,%d,tau),H.twoSiteGate(%d,%d,tau)' % (b, b + 1, b + 1, b) for b in range(n - 1)) + ']'
                    c.evaluate('order:%d:%d:%s' % (n, ch, ''.join(map(str, ds))), HAM, client(src, 'H,tau', HAM), mk2, judge2, ONE_, opts=OPTS)
    c.min_ok = 3
    return c
