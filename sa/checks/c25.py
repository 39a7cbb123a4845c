"""C25: environments of infinite states: the linear maps, right-hand sides and eigenvectors handed to and taken from the iterative solvers."""
from ..harness import *
from .. import spec as S
from fractions import Fraction
from ..infmodel import INF
from .c02 import tm, flat

MAP = 'the map given to the eigensolver is the transfer operator of the state(s) in the stated direction'
SEL = 'the returned eigenvalue is the dominant one and the returned vector belongs to it'
LIN = 'the linear equation solved is (1 - e^{ik}E [+ projector]) x = inhomogeneity of the arguments and the solution is returned in the stated legs'
ENE = 'the energy per cell is the contraction of the grown block with the opposite density matrix, the inhomogeneity has exactly this contribution removed, and the solution replaces the energy component of the block'


def run():
    c = Check('C25')
    D = P('b:D')
    mods = {'models': INF}

    def cell(I, n, nm='A', b='b:'):
        ds = [P(b + 'D')] + [P('%s%d' % (b, k)) for k in range(1, n)] + [P(b + 'D')]
        return [tens(I, '%s%d' % (nm, k), ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]

    def trans(I, x, A, B, d):
        for k in (range(len(A)) if d > 0 else range(len(A) - 1, -1, -1)):
            x = tm(x, T(I, A[k]), T(I, B[k]), d)
        return x

    def one(I, kind):
        cs = [z for z in I.lib.calls if z['kind'] == kind] if hasattr(I, 'lib') else []
        if len(cs) != 1:
            raise Bad('the solver is called %d times' % len(cs))
        return cs[0]

    def jmap(I, r, a, k, A, B, d, dims):
        z = one(I, 'eigs')
        same(I, I.arr(z['y']), flat(trans(I, N.reshape(z['x'], dims), A, B, d)), 'the linear map')

    def jsel(I, r, a, k, whichs):
        z = one(I, 'eigs')
        if z['which'] not in whichs:
            raise Bad('asks for the %r eigenvalues' % (z['which'],))
        f = I.finite(r)
        e, v = f[0], f[1]
        se = ops.scal(I, e)
        if se is None:
            raise Unk('eigenvalue %s' % short(I.vkey(e)))
        if not (se - z['eta'][0]).is_zero():
            raise Bad('returns the value %s, the dominant one is %s' % (short(se.key()), z['eta'][0]))
        tv, tu = T(I, v), T(I, z['U'][0])
        re = T(I, I.call_ext('numpy.real', [z['U'][0]], {}, None))
        if tv.key() == re.key():
            return
        same(I, v, tu, 'the returned vector')

    for d in (1, -1):
        D_ = C(d)
        for ne in (1, 3):
            def mk(I):
                I.A = [tens(I, 'A', D, D, P('p:s'))]
                I.split = [D, D]
                return [I.A[0], D_, C(ne)], {}
            c.evaluate('TMeigs:map:%+d:%d' % (d, ne), MF, 'TMeigs', mk, lambda I, r, a, k: jmap(I, r, a, k, I.A, I.A, d, [D, D]), MAP, opts=dict(mods), allow=('TypeError',))
            c.evaluate('TMeigs:select:%+d:%d' % (d, ne), MF, 'TMeigs', mk, lambda I, r, a, k: jsel(I, r, a, k, ('LR', 'LM')), SEL, opts=dict(mods), allow=('TypeError',))
        for n in (1, 2, 3):
            def mku(I):
                I.A = cell(I, n)
                I.split = [D, D]
                return [lst(I, I.A), D_, C(2)], {}
            c.evaluate('UnitcellTMeigs:map:%+d:%d' % (d, n), MF, 'UnitcellTMeigs', mku, lambda I, r, a, k: jmap(I, r, a, k, I.A, I.A, d, [D, D]), MAP, opts=dict(mods), allow=('TypeError',))
            c.evaluate('UnitcellTMeigs:select:%+d:%d' % (d, n), MF, 'UnitcellTMeigs', mku, lambda I, r, a, k: jsel(I, r, a, k, ('LR', 'LM')), SEL, opts=dict(mods), allow=('TypeError',))

            def mkm(I):
                I.A, I.B = cell(I, n), cell(I, n, 'B', 'b:B')
                I.split = [P('b:BD'), D]
                return [lst(I, I.A), lst(I, I.B), D_, C(2)], {}

            def jmm(I, r, a, k):
                try:
                    jmap(I, r, a, k, I.B, I.A, d, [P('b:BD'), D])
                except (Bad, Unk, N.Mismatch):
                    jmap(I, r, a, k, I.A, I.B, d, [D, P('b:BD')])
            c.evaluate('MixedUnitcellTMeigs:map:%+d:%d' % (d, n), MF, 'MixedUnitcellTMeigs', mkm, jmm, MAP, opts=dict(mods), allow=('SystemExit',))
            c.evaluate('MixedUnitcellTMeigs:select:%+d:%d' % (d, n), MF, 'MixedUnitcellTMeigs', mkm, lambda I, r, a, k: jsel(I, r, a, k, ('LM',)), SEL, opts=dict(mods), allow=('SystemExit',))

        # inversion for a single tensor (pair)
        for mom in (0, Fraction(1, 2), Fraction(-1, 2)):
            for name in ('RENORMBLOCKHAMGMRES', 'TDVPGMRES'):
                for given in (0, 1):
                    def mkg(I):
                        A, B = tens(I, 'A', P('b:a'), P('b:a'), P('p:s')), tens(I, 'B', P('b:b'), P('b:b'), P('p:s'))
                        I.A, I.B = A, B
                        I.l, I.r = mat(I, 'l', P('b:a'), P('b:b')), mat(I, 'r', P('b:a'), P('b:b'))
                        I.b = vec(I, 'h', P('b:a') * P('b:b'))
                        I.k = Poly.const(mom) if mom else ZERO
                        I.split = [P('b:a'), P('b:b')]
                        return [A, B, I.r, I.l, I.b, vec(I, 'x0', P('b:a') * P('b:b')) if given else None], dict({'direction': D_}, **({'momentum': I.k} if mom else {}))

                    def jg(I, r, a, k):
                        z = one(I, 'gmres')
                        same(I, I.arr(z['b']), T(I, I.b), 'the right-hand side')
                        x = N.reshape(z['x'], [P('b:a'), P('b:b')])
                        t = tm(x, T(I, I.A), T(I, I.B), d)
                        if mom:
                            ph = ops.scal(I, I.call_ext('numpy.exp', [I.k * C(1j)], {}, None))
                            want = N.add(x, N.scale(t, -ph))
                        else:
                            p, q = (T(I, I.r), T(I, I.l)) if d > 0 else (T(I, I.l), T(I, I.r))
                            want = N.add(N.add(x, N.scale(t, C(-1))), nc([x, p, q], [(1, 2), (1, 2), (-1, -2)]))
                        same(I, I.arr(z['y']), flat(want), 'the linear map')
                        same(I, r, N.reshape(z['sol'], [P('b:a'), P('b:b')]), 'the result')
                    c.evaluate('%s:%+d:%s:%d' % (name, d, 'k%+d' % (2 * mom) if mom else '0', given), MF, name, mkg, jg, LIN, opts=dict(mods))

        # inversion for a unit cell
        for n in (1, 2, 3):
            def dl(I, nm):
                ds = [D] + [P('b:%d' % q) for q in range(1, n)] + [D]
                return [mat(I, '%s%d' % (nm, q), ds[q], ds[q]) for q in range(n + 1)]

            def mkc(I):
                I.A, I.l, I.r = cell(I, n), dl(I, 'l'), dl(I, 'r')
                I.split = [D, D]
                I.b = vec(I, 'h', D * D)
                return [lst(I, I.A), lst(I, I.l), lst(I, I.r), I.b, vec(I, 'x0', D * D)], {'direction': D_}

            def pmap(I, z):
                x = N.reshape(z['x'], [D, D])
                t = trans(I, x, I.A, I.A, d)
                p, q = (T(I, I.r[-1]), T(I, I.l[-1])) if d > 0 else (T(I, I.l[0]), T(I, I.r[0]))
                return flat(N.add(N.add(x, N.scale(t, C(-1))), nc([x, p, q], [(1, 2), (1, 2), (-1, -2)])))

            def jc(I, r, a, k):
                z = one(I, 'gmres')
                same(I, I.arr(z['b']), T(I, I.b), 'the right-hand side')
                same(I, I.arr(z['y']), pmap(I, z), 'the linear map')
                same(I, I.finite(r)[0], z['sol'], 'the result')
            c.evaluate('TDVPGMRESUC:%+d:%d' % (d, n), MF, 'TDVPGMRESUC', mkc, jc, LIN, opts=dict(mods))

            def mks(I):
                from .c12 import mpo_obj
                I.A, I.l, I.r = cell(I, n), dl(I, 'l'), dl(I, 'r')
                I.split = [D, D]
                M = C(3)
                I.W = [mpot(I, 'W%d' % q, M, M, P('p:%d' % q), P('p:%d' % q)) for q in range(n)]
                return [lst(I, I.A), mpo_obj(I, I.W, False), vec(I, 'b', D * D), lst(I, I.l), lst(I, I.r), D_, P('tol'), C(10)], {}

            def js(I, r, a, k):
                z = one(I, 'gmres')
                same(I, I.arr(z['y']), pmap(I, z), 'the linear map')
                A = [T(I, q) for q in I.A]
                W = [T(I, q) for q in I.W]
                one_ = N.eye(D)
                if d > 0:
                    L = N.fix(nc([N.eye(A[-1].legdims()[0]), A[-1], N.conj(A[-1]), W[-1]], [(1, 2), (1, -1, 3), (2, -2, 4), (-4, -3, 3, 4)]), 3, 2)
                    # initial layer: last row of the last operator tensor
                    for q in range(n):
                        L = S.add_layer(L, A[q], W[q], A[q], 1)
                    blk = N.fix(L, 2, 0)
                    dens = T(I, I.r[-1])
                else:
                    L = N.fix(nc([N.eye(A[0].legdims()[1]), A[0], N.conj(A[0]), W[0]], [(1, 2), (-1, 1, 3), (-2, 2, 4), (-3, -4, 3, 4)]), 3, 0)
                    for q in range(n - 1, -1, -1):
                        L = S.add_layer(L, A[q], W[q], A[q], -1)
                    blk = N.fix(L, 2, 2)
                    dens = T(I, I.l[0])
                h = nc([blk, dens], [(1, 2), (1, 2)])
                f = I.finite(r)
                same(I, f[1], h, 'the energy')
                hs = nc([blk, dens, one_], [(1, 2), (1, 2), (-1, -2)])
                same(I, I.arr(z['b']), flat(N.add(blk, N.scale(hs, C(-1)))), 'the inhomogeneity')
                got = T(I, f[0])
                for q in range(3):
                    w = N.reshape(z['sol'], [D, D]) if q == (0 if d > 0 else 2) else N.fix(L, 2, q)
                    same(I, I.arr(N.fix(got, 2, q)), w, 'component %d of the block' % q)
            c.evaluate('steady:%+d:%d' % (d, n), MF, 'computeUCsteadyStateHamiltonianGMRES', mks, js, ENE, opts=dict(mods))
    c.min_ok = 10
    return c
