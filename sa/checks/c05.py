"""C05: measured values are the exact expectation values / matrix elements / overlaps of the represented states."""
from ..harness import *
from .. import spec as S

OVL = 'the overlap is the contraction of the first state with the conjugated second state, including centre matrices and scalar factors'
EXP = 'each value is the contraction of the state, the operator at its site and the conjugated state, including the scalar factor'
PRE = 'the represented state and the gauge position are what they were before'


def opm(I, k, nm='O', phys='p', dt=None):
    return I.atom_arr('%s%d' % (nm, k), [P('%s:%d' % (phys, k)), P('%s:%d' % (phys, k))], dt)


def expect(ket, bra, site_ops):
    """ket, bra: amplitude tensors [l, s0.., r]; site_ops: list (per site) of operator lists applied in order, index 0 joined to the ket"""
    t = ket
    n = t.ndim - 2
    for k in range(n):
        for o in site_ops[k]:
            t = N.tensordot(t, o, [k + 1], [0])
            perm = list(range(n + 1))
            perm.insert(k + 1, n + 1)
            t = N.transpose(t, perm)
    ax = list(range(n + 2))
    return N.tensordot(t, cj(bra), ax, ax)


def value(I, t):
    return ops.to_scalar(I, N.simplify(t))


def ps(I, t):
    v = ops.scal(I, value(I, t))
    if v is None:
        raise Unk('scalar')
    return v


def vals(I, r, n):
    t = T(I, r)
    if t.ndim != 1:
        raise Bad('result of rank %d' % t.ndim)
    return [ps(I, N.fix(t, 0, k)) for k in range(n)]


def same_list(I, r, n, wants, what):
    """r: vector of n values, wants: list of alternatives (each a list of n Polys)"""
    got = vals(I, r, n)
    err = None
    for w in wants:
        try:
            for k in range(n):
                same(I, got[k], w[k], '%s %d' % (what, k))
            return
        except Bad as e:
            err = err or e
    raise err


def run():
    c = Check('C05')
    mo = {'models': dict(GAUGE)}
    # ---- overlap of two state objects, and of two lists
    for n in (1, 2, 3):
        for p in range(n + 1):
            for q in sorted({0, n, n // 2}):
                def mk(I):
                    return [canon_obj(I, n, p, 'S'), canon_obj(I, n, q, 'R')], {}

                def j(I, r, a, k):
                    same_any(I, r, [ps(I, N.tensordot(x, cj(y), list(range(n + 2)), list(range(n + 2)))) for x, y in hists(I, *a)], 'overlap')
                for m, f in ((MF, 'overlap'), (MPS, 'MPS.dot')):
                    if f == 'MPS.dot' and n != 2:
                        continue
                    c.evaluate('%s:%d@%d,%d' % (f, n, p, q), m, f, mk, j, OVL, opts=mo)

                def jp(I, r, a, k):
                    for o, pp in zip(a, (p, q)):
                        if pos_int(I, o) != pp:
                            raise Bad('gauge position %s, was %s' % (pos_int(I, o), pp))
                        same(I, I.arr(obj_state(I, o)), I.gauge[o.id]['hist'][0], 'state')
                c.evaluate('overlap:kept:%d@%d,%d' % (n, p, q), MF, 'overlap', mk, jp, PRE, opts=mo)

        def mk(I):
            f = lambda nm: lst(I, [tens(I, '%s%d' % (nm, k), ONE if k == 0 else P('b:%s%d' % (nm, k)), ONE if k == n - 1 else P('b:%s%d' % (nm, k + 1)), P('p:%d' % k)) for k in range(n)])
            return [f('A'), f('B')], {}

        def j(I, r, a, k):
            x, y = [S.mps_state([T(I, t) for t in I.finite(z)]) for z in a]
            same(I, r, ps(I, N.tensordot(x, cj(y), list(range(n + 2)), list(range(n + 2)))), 'overlap')
        c.evaluate('overlap:list:%d' % n, MF, 'overlap', mk, j, OVL)

    # ---- one operator per site, expectation values and matrix elements
    for n in (1, 2, 3):
        for p in range(n + 1):
            def mk(I):
                o = canon_obj(I, n, p)
                I.ops = [opm(I, k) for k in range(n)]
                I.opt = [T(I, x) for x in I.ops]
                return [o, lst(I, I.ops)], {}

            def one(I, ket, bra):
                return [ps(I, expect(ket, bra, [[I.opt[k]] if k == m else [] for k in range(n)])) for m in range(n)]

            def j(I, r, a, k):
                same_list(I, r, n, [one(I, x, x) for x, in hists(I, a[0])], 'expectation value at site')
            c.evaluate('measureList:%d@%d' % (n, p), MPS, 'MPS.measureList', mk, j, EXP, opts=mo)

            def kept(I, r, a, k):
                for o in a[:2]:
                    if isinstance(o, Ref) and o.id in I.gauge:
                        g = I.gauge[o.id]
                        same_any(I, I.arr(obj_state(I, o)), g['hist'], 'state')
            c.evaluate('measureList:kept:%d@%d' % (n, p), MPS, 'MPS.measureList', mk, kept, PRE, opts=mo)
            for q in sorted({0, n, n // 2}):
                def mk2(I):
                    a, k = mk(I)
                    return [a[0], canon_obj(I, n, q, 'R'), a[1]], k

                def j2(I, r, a, k):
                    same_list(I, r, n, [one(I, x, y) for x, y in hists(I, a[0], a[1])], 'matrix element at site')
                c.evaluate('measureMatrixElementList:%d@%d,%d' % (n, p, q), MPS, 'MPS.measureMatrixElementList', mk2, j2, EXP, opts=mo)
                c.evaluate('measureMatrixElementList:kept:%d@%d,%d' % (n, p, q), MPS, 'MPS.measureMatrixElementList', mk2, kept, PRE, opts=mo)
            for site in range(n):
                def mk3(I):
                    a, k = mk(I)
                    return [a[0], I.ops[site], C(site)], {}

                def j3(I, r, a, k):
                    same_any(I, r, [one(I, x, x)[site] for x, in hists(I, a[0])], 'expectation value at site %d' % site)
                c.evaluate('measureLocal:%d@%d:site%d' % (n, p, site), MPS, 'MPS.measureLocal', mk3, j3, EXP, opts=mo)
                c.evaluate('measureLocal:kept:%d@%d:site%d' % (n, p, site), MPS, 'MPS.measureLocal', mk3, kept, PRE, opts=mo)

        # lists with boundary blocks
        def mkl(I):
            A = [tens(I, 'A%d' % k, P('b:A%d' % k), P('b:A%d' % (k + 1)), P('p:%d' % k)) for k in range(n)]
            B = [tens(I, 'B%d' % k, P('b:B%d' % k), P('b:B%d' % (k + 1)), P('p:%d' % k)) for k in range(n)]
            I.AB = [[T(I, x) for x in A], [T(I, x) for x in B]]
            O = [opm(I, k) for k in range(n)]
            I.opt = [T(I, x) for x in O]
            lb, rb = env(I, 'L', P('b:A0'), P('b:B0'), ONE), env(I, 'R', P('b:A%d' % n), P('b:B%d' % n), ONE)
            I.LR = T(I, lb), T(I, rb)
            return [lst(I, A), lst(I, B), lst(I, O), lb, rb], {}

        def jl(I, r, a, k):
            got = vals(I, r, n)
            for m in range(n):
                E = S.env_chain(I.LR[0], I.AB[0], [S.opW(I.opt[x]) if x == m else None for x in range(n)], I.AB[1], 1)
                same(I, got[m], ps(I, N.tensordot(E, I.LR[1], [0, 1, 2], [0, 1, 2])), 'matrix element at site %d' % m)
        c.evaluate('matrixElementLocal:%d' % n, MF, 'matrixElementLocal', mkl, jl, EXP)

        # normalised local expectation values of a tensor list (orthonormal to the other side)
        for ortho in ('right', 'left'):
            def mko(I):
                ds = [P('b:A%d' % k) for k in range(n + 1)]
                ts, _ = gauge_tens(I, 'A', n, 0 if ortho == 'right' else n, ds, [P('p:%d' % k) for k in range(n)])
                I.A = [T(I, x) for x in ts]
                O = [opm(I, k) for k in range(n)]
                I.opt = [T(I, x) for x in O]
                lb, rb = env(I, 'L', ds[0], ds[0], ONE), env(I, 'R', ds[n], ds[n], ONE)
                I.LR = T(I, lb), T(I, rb)
                return [lst(I, ts), lst(I, O), lb, rb, ortho], {}

            def jo(I, r, a, k):
                got = vals(I, r, n)
                d = 1 if ortho == 'right' else -1
                E = I.LR[0] if d > 0 else I.LR[1]
                for m in (range(n) if d > 0 else range(n - 1, -1, -1)):
                    X = S.add_layer(E, I.A[m], S.opW(I.opt[m]), I.A[m], d)
                    E = S.add_elayer(E, I.A[m], I.A[m], d)
                    tr = lambda t: ps(I, N.trace(N.fix(t, 2, 0)))
                    w = tr(X) * tr(E).inv()
                    same(I, got[m], w, 'normalised expectation value at site %d' % m)
            c.evaluate('measureLocal:list:%d:%s' % (n, ortho), MF, 'measureLocal', mko, jo, EXP, max_paths=300)

        # a local operator inside a unit cell / chain with blocks
        for site in range(n):
            def mkm(I):
                a, k = mkl(I)
                W = mpot(I, 'W', ONE, ONE, P('p:%d' % site), P('p:%d' % site))
                I.W = T(I, W)
                lb, rb = env(I, 'L', P('b:A0'), P('b:A0'), ONE), env(I, 'R', P('b:A%d' % n), P('b:A%d' % n), ONE)
                I.LR = T(I, lb), T(I, rb)
                return [W, lb, rb, a[0], C(site)], {}

            def jm(I, r, a, k):
                E = S.env_chain(I.LR[0], I.AB[0], [I.W if x == site else None for x in range(n)], I.AB[0], 1)
                F = S.env_chain(I.LR[0], I.AB[0], [None] * n, I.AB[0], 1)
                cl = lambda t: ps(I, N.tensordot(t, I.LR[1], [0, 1, 2], [0, 1, 2]))
                same(I, r, cl(E) * cl(F).inv(), 'normalised expectation value')
            c.evaluate('measure:block:%d:site%d' % (n, site), MF, 'measure', mkm, jm, EXP)

    # ---- products of operators at several sites, with and without a parity string
    n = 3
    for sites in ([0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 0], [1, 1], [0, 0, 2], [0, 2, 2], [0, 1, 2], [1, 1, 2]):
        for parity in (False, True):
            for p in (0, 1, 3):
                if p == 1 and len(sites) > 2:
                    continue

                def mk(I):
                    o = canon_obj(I, n, p)
                    O = [I.atom_arr('O%d' % x, [P('p:%d' % s), P('p:%d' % s)]) for x, s in enumerate(sites)]
                    I.opt = [T(I, x) for x in O]
                    pr = [opm(I, k, 'P') for k in range(n)]
                    I.par = [T(I, x) for x in pr]
                    return [o, lst(I, O), lst(I, [C(s) for s in sites])] + ([lst(I, pr)] if parity else []), {}

                def j(I, r, a, k):
                    so = []
                    for s in range(n):
                        l = [I.opt[x] for x in range(len(sites)) if sites[x] == s]
                        if parity and sum(1 for x in sites if x > s) % 2:
                            l.append(I.par[s])
                        so.append(l)
                    same_any(I, r, [ps(I, expect(x, x, so)) for x, in hists(I, a[0])], 'expectation value of the product')
                c.evaluate('measure:%s%s@%d' % (','.join(map(str, sites)), ':parity' if parity else '', p), MPS, 'MPS.measure', mk, j, EXP, opts=mo, max_paths=100)
                if not parity:
                    c.evaluate('measure:kept:%s@%d' % (','.join(map(str, sites)), p), MPS, 'MPS.measure', mk,
                               lambda I, r, a, k: same_any(I, I.arr(obj_state(I, a[0])), I.gauge[a[0].id]['hist'], 'state'), PRE, opts=mo, max_paths=100)

    def mks(I):
        o = canon_obj(I, n, 3)
        O = opm(I, 1)
        I.opt = T(I, O)
        return [o, O, C(1)], {}
    c.evaluate('measure:scalar-site', MPS, 'MPS.measure', mks,
               lambda I, r, a, k: same_any(I, r, [ps(I, expect(x, x, [[], [I.opt], []])) for x, in hists(I, a[0])], 'expectation value'), EXP, opts=mo)
    c.min_ok = 60
    c.assumptions = ['state objects are canonical around their recorded gauge position (established by the constructors and kept by gauge motion, C04)',
                     'parity operators square to one']
    return c
