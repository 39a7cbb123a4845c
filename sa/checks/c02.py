"""C02: transfer operators (plain, mixed, unit-cell, projected) and density propagation."""
from ..harness import *
from .. import spec as S

RULE = 'the returned vector/matrix equals the specified transfer contraction on every path (ket tensor contracted on the first index, bra conjugated on the second)'
SUBR = 'the projected operator subtracts/adds exactly the rank-one dominant contribution <x,r> l (left) or <l,x> r (right)'


def tm(x, A, B, d):
    """x[a,b] -> transfer with ket A, bra B*"""
    E = N.expand(x, 2)
    r = S.add_elayer(E, A, B, d)
    return N.Ten([N.Net(n.coef, n.nodes, n.outs[:2]) for n in r.nets], 2)


def flat(t):
    return N.reshape(t, [None])


def flatvec(I, name, a, b):
    x = N.Ten.atom(name, [a, b])
    I.x = x
    return I.arr(flat(x), Dt([name]))


def cell(I, n, nm='A'):
    ds = [P('b:%d' % k) for k in range(n)] + [P('b:0')]
    return [tens(I, '%s%d' % (nm, k), ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]


def run():
    c = Check('C02')
    for d in (1, -1):
        D, s = C(d), '%+d' % d

        def mk(I):
            A = tens(I, 'A', P('b:l'), P('b:r'))
            dd = P('b:l') if d > 0 else P('b:r')
            return [D, A, flatvec(I, 'x', dd, dd)], {}
        c.evaluate('TransferOperator:' + s, MF, 'TransferOperator', mk, lambda I, r, a, k: same(I, r, flat(tm(I.x, T(I, a[1]), T(I, a[1]), d)), 'vector'), RULE)

        def mk(I):
            A, B = tens(I, 'A', P('b:Al'), P('b:Ar'), P('p:s')), tens(I, 'B', P('b:Bl'), P('b:Br'), P('p:s'))
            q = 'l' if d > 0 else 'r'
            return [D, A, B, flatvec(I, 'x', P('b:A' + q), P('b:B' + q))], {}
        c.evaluate('MixedTransferOperator:' + s, MF, 'MixedTransferOperator', mk, lambda I, r, a, k: same(I, r, flat(tm(I.x, T(I, a[1]), T(I, a[2]), d)), 'vector'), RULE)

        def mk2(I):
            a, k = mk(I)
            return [D, a[2], a[1], a[3]], k
        c.evaluate('GeneralizedMatrixVectorProduct:' + s, MF, 'GeneralizedMatrixVectorProduct', mk2,
                   lambda I, r, a, k: same(I, r, flat(tm(I.x, T(I, a[2]), T(I, a[1]), d)), 'vector'), RULE)

        # single-site states given as state objects
        def mko(I):
            a, k = mk(I)
            o = mps_obj(I, [a[1]])
            o2 = mps_obj(I, [a[2]])
            I.A, I.B = a[1], a[2]
            return a, o, o2
        for which in ('oo', 'oa', 'ao'):
            def mk3(I, which=which):
                a, o, o2 = mko(I)
                return [D, o if which[0] == 'o' else a[1], o2 if which[1] == 'o' else a[2], a[3]], {}
            c.evaluate('MixedTransferOperator:%s:%s' % (which, s), MF, 'MixedTransferOperator', mk3,
                       lambda I, r, a, k: same(I, r, flat(tm(I.x, T(I, I.A), T(I, I.B), d)), 'vector'), RULE)

        def mk4(I):
            A = tens(I, 'A', P('b:l'), P('b:r'))
            I.A = A
            dd = P('b:l') if d > 0 else P('b:r')
            return [D, mps_obj(I, [A]), flatvec(I, 'x', dd, dd)], {}
        c.evaluate('TransferOperator:obj:' + s, MF, 'TransferOperator', mk4, lambda I, r, a, k: same(I, r, flat(tm(I.x, T(I, I.A), T(I, I.A), d)), 'vector'), RULE)

        for n in (1, 2, 3):
            def prop(I, As, Bs, x):
                ks = range(n) if d > 0 else range(n - 1, -1, -1)
                for q in ks:
                    x = tm(x, T(I, As[q]), T(I, Bs[q]), d)
                return x

            def mk(I):
                As = cell(I, n)
                return [D, lst(I, As), flatvec(I, 'x', P('b:0'), P('b:0'))], {}
            c.evaluate('UnitcellTransferOperator:%s:%d' % (s, n), MF, 'UnitcellTransferOperator', mk,
                       lambda I, r, a, k: same(I, r, flat(prop(I, I.finite(a[1]), I.finite(a[1]), I.x)), 'vector'), RULE)

            def mkm(I):
                As, Bs = cell(I, n), []
                ds = [P('b:B%d' % k) for k in range(n)] + [P('b:B0')]
                Bs = [tens(I, 'B%d' % k, ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]
                return [D, lst(I, As), lst(I, Bs), flatvec(I, 'x', P('b:0'), P('b:B0'))], {}
            c.evaluate('MixedUnitcellTransferOperator:%s:%d' % (s, n), MF, 'MixedUnitcellTransferOperator', mkm,
                       lambda I, r, a, k: same(I, r, flat(prop(I, I.finite(a[1]), I.finite(a[2]), I.x)), 'vector'), RULE)

            def mkp(I):
                As = cell(I, n)
                I.l, I.r = mat(I, 'lam', P('b:0'), P('b:0')), mat(I, 'rho', P('b:0'), P('b:0'))
                I.ld = [mat(I, 'ld%d' % q, P('b:%d' % (q % n)), P('b:%d' % (q % n))) for q in range(n + 1)]
                I.rd = [mat(I, 'rd%d' % q, P('b:%d' % (q % n)), P('b:%d' % (q % n))) for q in range(n + 1)]
                return [D, lst(I, As), lst(I, I.ld), lst(I, I.rd), flatvec(I, 'x', P('b:0'), P('b:0'))], {}

            def rank1(I, x, l, r):
                if d > 0:
                    return N.scale(l, S.scalar(nc([x, r], [[1, 2], [1, 2]])))
                return N.scale(r, S.scalar(nc([l, x], [[1, 2], [1, 2]])))

            def jp(I, r, a, k):
                As = I.finite(a[1])
                l, rr = (T(I, I.ld[-1]), T(I, I.rd[-1])) if d > 0 else (T(I, I.ld[0]), T(I, I.rd[0]))
                same(I, r, flat(N.add(prop(I, As, As, I.x), rank1(I, I.x, l, rr), -1)), 'vector')

            def jo(I, r, a, k):
                As = I.finite(a[1])
                l, rr = (T(I, I.ld[-1]), T(I, I.rd[-1])) if d > 0 else (T(I, I.ld[0]), T(I, I.rd[0]))
                same(I, r, flat(N.add(N.add(I.x, prop(I, As, As, I.x), -1), rank1(I, I.x, l, rr))), 'vector')
            c.evaluate('pseudoUnitcellTransferOperator:%s:%d' % (s, n), MF, 'pseudoUnitcellTransferOperator', mkp, jp, SUBR)
            c.evaluate('OneMinusPseudoUnitcellTransferOperator:%s:%d' % (s, n), MF, 'OneMinusPseudoUnitcellTransferOperator', mkp, jo, SUBR)

            # density propagation
            def mkd(I):
                As = cell(I, n)
                return [mat(I, 'rho', P('b:0'), P('b:0')), lst(I, As), D], {}

            def jd(I, r, a, k):
                As = [T(I, x) for x in I.finite(a[1])]
                x = T(I, a[0])
                out = [x]
                for q in (range(n) if d > 0 else range(n - 1, -1, -1)):
                    x = tm(x, As[q], As[q], d)
                    out.append(x)
                if d < 0:
                    out = out[::-1]
                same(I, r, out, 'densities')
            c.evaluate('computeDensity:%s:%d' % (s, n), MF, 'computeDensity', mkd, jd, RULE)

        # single-site projected operators
        def mk(I):
            A = tens(I, 'A', P('b:0'), P('b:0'))
            return [A, mat(I, 'r', P('b:0'), P('b:0')), mat(I, 'l', P('b:0'), P('b:0')), D, flatvec(I, 'x', P('b:0'), P('b:0'))], {}

        def rank1(x, l, r):
            if d > 0:
                return N.scale(l, S.scalar(nc([x, r], [[1, 2], [1, 2]])))
            return N.scale(r, S.scalar(nc([l, x], [[1, 2], [1, 2]])))

        c.evaluate('pseudoTransferOperator:' + s, MF, 'pseudoTransferOperator', mk, lambda I, r, a, k: same(I, r, flat(N.add(
            tm(I.x, T(I, a[0]), T(I, a[0]), d), rank1(I.x, T(I, a[2]), T(I, a[1])), -1)), 'vector'), SUBR)

        for nm, mom in (('k0', ZERO), ('k+', ONE), ('k-', C(-1))):
            def mk(I):
                A, B = tens(I, 'A', P('b:A'), P('b:A'), P('p:s')), tens(I, 'B', P('b:B'), P('b:B'), P('p:s'))
                return [A, B, mat(I, 'r', P('b:A'), P('b:B')), mat(I, 'l', P('b:A'), P('b:B')), D, mom, flatvec(I, 'x', P('b:A'), P('b:B'))], {}

            def jd(I, r, a, k):
                t = tm(I.x, T(I, a[0]), T(I, a[1]), d)
                if mom.is_zero():
                    w = N.add(N.add(I.x, t, -1), rank1(I.x, T(I, a[3]), T(I, a[2])))
                else:
                    w = N.add(I.x, N.scale(t, ops.scal(I, I.call(Ext('numpy.exp'), [Poly.const(1j) * mom], {}, None))), -1)
                same(I, r, flat(w), 'vector')
            c.evaluate('OneMinusPseudoTransferOperator:%s:%s' % (s, nm), MF, 'OneMinusPseudoTransferOperator', mk, jd, SUBR)
    c.min_ok = 20
    c.assumptions = ['unit cells of one to three sites', 'the environments handed in are the fixed points (their computation is numerical)']
    return c
