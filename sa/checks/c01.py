"""C01: environment blocks and effective-Hamiltonian products are the specified contractions."""
from ..harness import *
from .. import spec as S

RULE = 'the value returned on every path equals the specified tensor contraction (leg for leg, conjugation on the bra only)'
SHP = 'reshape/leg-order: the returned legs are (ket bond, bra bond, operator bond) resp. (left, right, physical)'


def chain(I, n, obc=False):
    As = [tens(I, 'A%d' % k, P('b:%d' % k), P('b:%d' % (k + 1)), P('p:%d' % k)) for k in range(n)]
    return As


def contract(c):
    """the specified contraction also states which legs have the same dimension; all other dimensions are independent"""
    evaluate = c.evaluate

    def ev(key, mod, fn, mk, jd, rule, *a, **k):
        def mk2(I):
            args = mk(I)
            N.RIGID[0] = 0
            try:
                jd(I, None, args[0], args[1])
            except (Bad, Unk):
                pass
            finally:
                N.RIGID[0] = 1
            return args
        return evaluate(key, mod, fn, mk2, jd, rule, *a, **k)
    c.evaluate = ev
    return c


def run():
    c = contract(Check('C01'))
    for d in (1, -1):
        D = C(d)
        s = '%+d' % d

        def mk(I, D=D):
            return [env(I, 'E'), tens(I, 'A'), mpot(I, 'W'), tens(I, 'B'), D], {}
        c.evaluate('addLayer:' + s, MF, 'addLayer', mk, lambda I, r, a, k, d=d: same(
            I, r, S.add_layer(T(I, a[0]), T(I, a[1]), T(I, a[2]), T(I, a[3]), d), 'environment'), RULE)

        def mk(I, D=D):
            return [env(I, 'E'), tens(I, 'A'), tens(I, 'B'), D], {}
        c.evaluate('addELayer:' + s, MF, 'addELayer', mk, lambda I, r, a, k, d=d: same(
            I, r, S.add_elayer(T(I, a[0]), T(I, a[1]), T(I, a[2]), d), 'environment'), RULE)

        # boundary initialisation: x[ket,bra] with the boundary operator leg of dimension one
        def mk(I, D=D, d=d):
            w = mpot(I, 'W', ONE if d > 0 else None, ONE if d < 0 else None)
            return [tens(I, 'A'), mat(I, 'x'), tens(I, 'B'), w, D], {}

        def jd(I, r, a, k, d=d):
            x = N.expand(T(I, a[1]), 2)
            same(I, r, S.add_layer(x, T(I, a[0]), T(I, a[3]), T(I, a[2]), d), 'environment')
        c.evaluate('initializeLayer:' + s, MF, 'initializeLayer', mk, jd, RULE)

        # blocks over a segment of the chain
        for (s1, s2) in ((0, 0), (0, 2), (1, 2), (1, 1), (1, 3)):
            def mk(I, D=D, s1=s1, s2=s2):
                n = 4
                return [lst(I, [tens(I, 'A%d' % q) for q in range(n)]), lst(I, [tens(I, 'B%d' % q) for q in range(n)]),
                        lst(I, [mpot(I, 'W%d' % q) for q in range(n)]), env(I, 'E'), C(s1), C(s2), D], {}

            def jd(I, r, a, k, d=d, s1=s1, s2=s2):
                As, Bs, Ws = ([T(I, x) for x in I.finite(a[q])] for q in (0, 1, 2))
                same(I, r, S.env_chain(T(I, a[3]), As[s1:s2 + 1], Ws[s1:s2 + 1], Bs[s1:s2 + 1], d), 'block')
            c.evaluate('contractMPO:%s:%d-%d' % (s, s1, s2), MF, 'contractMPO', mk, jd, RULE)

            def mk2(I, D=D, s1=s1, s2=s2):
                a, k = mk(I)
                return [a[0], a[1], a[3]] + [C(s1), C(s2), D], {}

            def jd2(I, r, a, k, d=d, s1=s1, s2=s2):
                As, Bs = ([T(I, x) for x in I.finite(a[q])] for q in (0, 1))
                same(I, r, S.env_chain(T(I, a[2]), As[s1:s2 + 1], None, Bs[s1:s2 + 1], d), 'block')
            c.evaluate('contractE:%s:%d-%d' % (s, s1, s2), MF, 'contractE', mk2, jd2, RULE)
    # -- one-site products
    one = lambda I: ([env(I, 'L'), tens(I, 'A'), mpot(I, 'W'), env(I, 'R')], {})
    c.evaluate('contractionH', MF, 'contractionH', one, lambda I, r, a, k: same(I, r, S.h1(T(I, a[0]), T(I, a[1]), T(I, a[2]), T(I, a[3])), 'product'), RULE)
    for nm in ('HAproductSingleSiteMPS', 'applyHsingleSite'):
        q = (lambda *x: [P(y) for y in x]) if nm == 'applyHsingleSite' else (lambda *x: [])          # works on the flattened tensor: square operator
        c.evaluate(nm, MF, nm, lambda I, q=q: ([env(I, 'L', *q('b:l', 'b:l')), mpot(I, 'W', None, None, *q('p:s', 'p:s')), env(I, 'R', *q('b:r', 'b:r')), tens(I, 'A')], {}),
                   lambda I, r, a, k: same(I, r, S.h1(T(I, a[0]), T(I, a[3]), T(I, a[1]), T(I, a[2])), 'product'), RULE)
    # the vectorised one: vec is the row-major flattening of (left,right,physical)

    def mk(I):
        L, W, R = env(I, 'L', P('b:l'), P('b:l')), mpot(I, 'W', None, None, P('p:s'), P('p:s')), env(I, 'R', P('b:r'), P('b:r'))
        A = tens(I, 'A', P('b:l'), P('b:r'), P('p:s'))
        I.A = A
        return [L, W, R, I.arr(N.reshape(T(I, A), [None]))], {}
    c.evaluate('HAproductSingleSite', MF, 'HAproductSingleSite', mk, lambda I, r, a, k: same(
        I, r, N.reshape(S.h1(T(I, a[0]), T(I, I.A), T(I, a[1]), T(I, a[2])), [None]), 'product'), RULE)
    # -- bond products
    for nm in ('HAproductBondMatrix', 'applyHbond'):
        def mk(I, nm=nm):
            return [env(I, 'L', P('b:l'), P('b:l')), env(I, 'R', P('b:r'), P('b:r')), mat(I, 'M', P('b:l'), P('b:r'))], {}
        c.evaluate(nm, MF, nm, mk, lambda I, r, a, k: same(I, r, S.h0(T(I, a[0]), T(I, a[2]), T(I, a[1])), 'product'), RULE)

    def mk(I):
        M = mat(I, 'M', P('b:c'), P('b:c'))
        I.M = M
        return [env(I, 'L', P('b:c'), P('b:c')), env(I, 'R', P('b:c'), P('b:c')), I.arr(N.reshape(T(I, M), [None]))], {}
    c.evaluate('HAproductBond', MF, 'HAproductBond', mk, lambda I, r, a, k: same(
        I, r, N.reshape(S.h0(T(I, a[0]), T(I, I.M), T(I, a[1])), [None]), 'product'), RULE)
    for pos in ('right', 'left'):
        def mk(I, pos=pos, flat=True):
            M = mat(I, 'M', P('b:c'), P('b:c'))
            I.M = M
            A = tens(I, 'A', P('b:c'), P('b:c'), P('p:s'))
            cc = (P('b:c'), P('b:c'))
            return [env(I, 'L', *cc), mpot(I, 'W'), A, env(I, 'R', *cc), pos, I.arr(N.reshape(T(I, M), [None]))], {}

        def mk2(I, mk=mk):
            a, k = mk(I)
            return a[:5] + [I.M], k

        def sp(I, a, pos=pos):
            L, W, A, R = (T(I, x) for x in a[:4])
            if pos == 'right':
                L = S.add_layer(L, A, W, A, 1)
            else:
                R = S.add_layer(R, A, W, A, -1)
            return S.h0(L, T(I, I.M), R)
        c.evaluate('HAproductZeroSite:' + pos, MF, 'HAproductZeroSite', mk, lambda I, r, a, k, sp=sp: same(I, r, N.reshape(sp(I, a), [None]), 'product'), RULE)
        c.evaluate('HAproductZeroSiteMat:' + pos, MF, 'HAproductZeroSiteMat', mk2, lambda I, r, a, k, sp=sp: same(I, r, sp(I, a), 'product'), RULE)
    c.evaluate('contractionE', MF, 'contractionE', lambda I: ([env(I, 'L'), tens(I, 'A'), env(I, 'R')], {}),
               lambda I, r, a, k: same(I, r, S.e1(T(I, a[0]), T(I, a[1]), T(I, a[2])), 'product'), RULE)
    # -- lists of blocks
    for n in (1, 2, 3):
        def mk(I, n=n):
            cc = P('b:c')
            return [lst(I, [tens(I, 'A%d' % q) for q in range(n)]), lst(I, [mpot(I, 'W%d' % q) for q in range(n)]), env(I, 'E')], {}

        def seqs(I, a):
            return [T(I, x) for x in I.finite(a[0])], [T(I, x) for x in I.finite(a[1])], T(I, a[2])

        def jl(I, r, a, k, n=n):
            As, Ws, E = seqs(I, a)
            same(I, r, [S.env_chain(E, As[:q + 1], Ws[:q + 1], As[:q + 1], 1) for q in range(n)], 'left blocks')

        def jr(I, r, a, k, n=n):
            As, Ws, E = seqs(I, a)
            same(I, r, [S.env_chain(E, As[n - 1 - q:], Ws[n - 1 - q:], As[n - 1 - q:], -1) for q in range(n)], 'right blocks')
        c.evaluate('getL:%d' % n, MF, 'getL', mk, jl, RULE)
        c.evaluate('getR:%d' % n, MF, 'getR', mk, jr, RULE)

        def jul(I, r, a, k):
            As, Ws, E = seqs(I, a)
            same(I, r, S.env_chain(E, As, Ws, As, 1), 'unit-cell block')

        def jur(I, r, a, k):
            As, Ws, E = seqs(I, a)
            same(I, r, S.env_chain(E, As, Ws, As, -1), 'unit-cell block')
        c.evaluate('getUCL:%d' % n, MF, 'getUCL', mk, jul, RULE)
        c.evaluate('getUCR:%d' % n, MF, 'getUCR', mk, jur, RULE)
    c.min_ok = 20
    c.assumptions = ['numpy.tensordot/transpose/reshape/conj have their documented meaning', 'list helpers are decided for chain segments of length 1 to 4']
    return c
