"""C26: regauging an infinite state changes the gauge only and produces the requested orthonormal form."""
from ..harness import *
from .. import spec as S
from .c04 import left_iso, right_iso
from .c06 import prop_pos
from .. import poly as PL
from fractions import Fraction

ISO = 'every tensor of the unit cell is orthonormal in the requested direction'
SAME = 'periodic arrangements of one and of two unit cells represent the same vector as before, up to a positive factor'
SCH = 'the centre matrix is the diagonal non-negative normalised Schmidt matrix whose square is the other fixed point'


def setup(I, n, equal=False):
    """a unit cell of n tensors with full-rank fixed points on both sides"""
    I.fullrank = True
    N.GRAM.add(1)
    D = [P('b:%d' % k) for k in range(n)] + [P('b:0')]
    if equal:
        D = [P('b:0')] * (n + 1)
    I.labs = ['A%d' % k for k in range(n)]
    ts = [I.atom_arr(I.labs[k], [D[k], D[k + 1], P('p:%d' % k)]) for k in range(n)]
    I.A = [T(I, t) for t in ts]
    I.eta, I.env = P('norm<eta>'), {}
    for side in 'lr':
        u, s = 'fu%s' % side, 'Sf%s' % side
        N.ISOMETRY[u] = ['rows', 'cols']
        N.REAL_LABELS.add(s)
        U = N.Ten.atom(u, [D[0], D[0]])
        s_ = N.Ten.atom(s, [D[0]], True)
        i = N.newidx(D[0])
        sq = N.Net(ONE, [N.Node(s, False, [(i,)]), N.Node(s, False, [(i,)])], [])
        N.NORM2['<' + sq.ckey() + '>'] = P('norm<%s>' % s) * P('norm<%s>' % s)
        W = N.tensordot(N.tensordot(U, N.diag(s_), [1], [0]), N.tensordot(N.diag(s_), N.conj(U), [1], [1]), [1], [0])
        I.env[side] = N.simplify(W)
        seq = list(range(n)) if side == 'l' else list(range(n))[::-1]
        ax = 0 if side == 'l' else 1
        cur = (u, s, False)
        for q, k in enumerate(seq):
            if q == n - 1:
                out, fac, nxt = I.env[side], I.eta, None
            else:
                d = D[k + 1] if side == 'l' else D[k]
                nxt = 'mid%s%d' % (side, k)
                N.HERMITIAN.add(nxt)
                out, fac = N.Ten.atom(nxt, [d, d]), ONE
            N.FIXPOINT.setdefault(I.labs[k], []).append((ax, cur, out, fac))
            cur = nxt
    return ts


def m_eigs(I, args, kw, node):
    """the dominant eigenvector of the transfer matrix, with arbitrary normalisation and phase"""
    names = ['mps', 'direction', 'numeig', 'init', 'nmax', 'tolerance', 'ncv', 'which']
    a = dict(zip(names, args))
    a.update(kw)
    m = a.get('mps', a.get('tensor'))
    f = I.finite(m)
    ts = [T(I, x) for x in f] if f is not None else [T(I, m)]
    if len(ts) != len(I.A):
        raise Bad('transfer matrix of %d instead of %d tensors' % (len(ts), len(I.A)))
    c = ONE
    for t, x in zip(ts, I.A):
        t = N.simplify(t)
        if len(t.nets) != 1 or t.nets[0].ckey() != N.simplify(x).nets[0].ckey():
            raise Unk('transfer matrix of tensors other than the given ones')
        q = t.nets[0].coef
        c = c * q * q.conj()
    d = ops.scal(I, a['direction'])
    side = 'l' if I.norm(d).as_int() > 0 else 'r'
    I.calls.append((side, a))
    I.nk = getattr(I, 'nk', 0) + 1
    k = 'kappa%d' % I.nk
    PL.COMPLEX_ATOMS.add(k)
    D = I.env[side].legdims()[0]
    v = ops.call_ext(I, 'numpy.reshape', [I.arr(N.scale(I.env[side], P(k)), DT_CPLX), D * D], {}, node)
    return I.new(PyList([c * I.eta, v, C(1)]))


def cells(ts, c):
    """the product of c cells with the outer bonds joined, physical legs in order"""
    seq = list(ts) * c
    out = seq[0]
    n = 1
    for t in seq[1:]:
        # out: [l, r, p1..pn] -> [l, r', p1..pn, p]
        out = N.tensordot(out, t, [1], [0])
        m = out.ndim
        # legs: l, p1..pn, r', p
        out = N.transpose(out, [0, m - 2] + list(range(1, m - 2)) + [m - 1])
    return N.trace(out, 0, 1)


def same_state(I, ts, mid, c):
    prop_pos(I, cells(ts, c), cells(I.A, c), '%d cell%s' % (c, 's' if c > 1 else ''))


GAU = 'the returned matrix is the gauge transformation between the tensor and its regauged form'
CAPD = 'after truncation no bond exceeds the requested dimension and the cell still closes'
CANON = 'Lambda Gamma is left-orthonormal and Gamma Lambda right-orthonormal on every site'


def schmidt(I, m, ts):
    """m diagonal, non-negative, of norm one, and m m^dagger the right fixed point of the cell"""
    m = N.simplify(m)
    if len(m.nets) != 1 or m.nets[0].outs[0] != m.nets[0].outs[1]:
        if tainted(m.key()):
            raise Unk('centre matrix')
        raise Bad('the centre matrix is not diagonal: %s' % short(m.key()))
    if ops._posfactor(m.nets[0].coef)[0] is None or not all(nd.label.startswith('S') for nd in m.nets[0].nodes):
        raise Unk('sign of the centre matrix')
    same(I, ops.np_norm(I, I.arr(m)), ONE, 'norm of the centre matrix')
    r = N.tensordot(m, N.conj(m), [1], [1])
    cur = r
    for t in ts[::-1]:
        cur = nc([t, cur, N.conj(t)], [[-1, 1, 3], [1, 2], [-2, 2, 3]])
    same(I, I.arr(cur), r, 'one unit cell applied to the square of the centre matrix')


def run():
    c = Check('C26')
    mo = {'models': {MF + '.UnitcellTMeigs': m_eigs, MF + '.TMeigs': m_eigs}}
    for n in (1, 2, 3):
        for g in ('left', 'right', 'symmetric'):
            def mk(I):
                I.calls = []
                ts = setup(I, n)
                return [lst(I, ts), g], {}

            def outs(I, a):
                f = I.finite(a[0])
                if f is None or len(f) != n:
                    raise Bad('the unit cell has %s tensors' % (len(f) if f is not None else '?'))
                return [T(I, x) for x in f]

            def ji(I, r, a, k):
                for q, t in enumerate(outs(I, a)):
                    (right_iso if g == 'right' else left_iso)(I, I.arr(t), 'tensor %d' % q)

            def js(I, r, a, k):
                for cc in (1, 2):
                    same_state(I, outs(I, a), None, cc)
            b = 'regaugeIMPS(t,g)'
            c.evaluate('cell:%s:%d:orthonormal' % (g, n), MF, client(b, 't,g', MF), mk, ji, ISO, opts=mo, max_paths=64)
            c.evaluate('cell:%s:%d:state' % (g, n), MF, client(b, 't,g', MF), mk, js, SAME, opts=mo, max_paths=64)

            def jm(I, r, a, k):
                ts = outs(I, a)
                D = ts[0].legdims()[0]
                m = T(I, r)
                if g != 'symmetric':
                    same(I, I.arr(m), N.scale(N.eye(D), D.pow(Fraction(-1, 2))), 'centre matrix')
                    return
                schmidt(I, m, ts)
            c.evaluate('cell:%s:%d:centre' % (g, n), MF, client(b, 't,g', MF), mk, jm, SCH, opts=mo, max_paths=64)

        def mkc(I):
            I.fullrank = True
            N.GRAM.update((1, 'fullrank'))
            D = P('b:0')
            I.assume(D - C(2))
            ts = [I.atom_arr('G%d' % k, [D, D, P('p:%d' % k)]) for k in range(n)]
            I.A = [T(I, t) for t in ts]
            return [lst(I, ts)], {}

        def m_sym(I, args, kw, node):
            """the symmetric gauge (verified above): left-orthonormal tensors of the same state, Schmidt matrix returned"""
            g = kw.get('gauge', args[1] if len(args) > 1 else None)
            if g != 'symmetric':
                raise Undecided('gauge %r' % (g,))
            f = I.finite(args[0] if args else kw['mps'])
            if f is None or [N.simplify(T(I, x)).key() for x in f] != [N.simplify(x).key() for x in I.A]:
                raise Unk('unit cell passed on')
            D = P('b:0')
            new = []
            for q in range(n):
                N.ISOMETRY['Qc%d' % q] = ['rows']
                new.append(N.transpose(N.Ten.atom('Qc%d' % q, [D, P('p:%d' % q), D]), [0, 2, 1]))
            I.rec(args[0] if args else kw['mps']).items[:] = [I.arr(t, DT_CPLX) for t in new]
            I.A = new
            N.REAL_LABELS.add('Slam')
            x = N.Ten.atom('Slam', [D], True)
            I.lam = N.scale(x, ops.np_norm(I, I.arr(x)).inv())
            return I.arr(N.diag(I.lam), DT_FLOAT)

        def gl(I, r, m):
            f = I.finite(r)
            if f is None or len(f) != 2:
                raise Unk('pair')
            G, L = [T(I, x) for x in I.finite(f[0])], [T(I, x) for x in I.finite(f[1])]
            if len(G) != m or len(L) != m + 1:
                raise Bad('%d Gammas and %d Lambdas for %d sites' % (len(G), len(L), m))
            return G, L

        def lg(G, L, q):
            return N.tensordot(N.diag(L[q]), G[q], [1], [0])

        def gr(G, L, q):
            return N.transpose(N.tensordot(G[q], N.diag(L[q + 1]), [1], [0]), [0, 2, 1])

        def jc(I, r, a, k):
            G, L = gl(I, r, n)
            for cc in (1, 2):
                same_state(I, [lg(G, L, q) for q in range(n)], None, cc)

        def jl(I, r, a, k):
            G, L = gl(I, r, n)
            for q in range(n):
                left_iso(I, I.arr(lg(G, L, q)), 'Lambda Gamma of site %d' % q)

        def jr(I, r, a, k):
            G, L = gl(I, r, n)
            for q in range(n - 1):      # at the last site up to the rotation that commutes with Lambda
                right_iso(I, I.arr(gr(G, L, q)), 'Gamma Lambda of site %d' % q)
        ms = {'models': {MF + '.regaugeIMPS': m_sym}}
        b = 'canonizeMPS(t)'
        c.evaluate('canonical:infinite:%d:state' % n, MF, client(b, 't', MF), mkc, jc, SAME, opts=ms, max_paths=64)
        c.evaluate('canonical:infinite:%d:left' % n, MF, client(b, 't', MF), mkc, jl, CANON, opts=ms, max_paths=64)
        if n > 1:
            c.evaluate('canonical:infinite:%d:right' % n, MF, client(b, 't', MF), mkc, jr, CANON, opts=ms, max_paths=64)

        def mkob(I):
            a, k = mkc(I)
            o = mps_obj(I, I.finite(a[0]), position=n, mat_=I.arr(N.eye(P('b:0')), DT_FLOAT), obc=False, label='S', fields={'_schmidt_thresh': C(1e-16), '_r_thresh': C(1e-14), '_connector': I.arr(N.eye(P('b:0')), DT_FLOAT)})
            return [o], {}

        def job(I, r, a, k):
            G, L = gl(I, I.new(PyList([fld(I, a[0], '_gamma'), fld(I, a[0], '_lambda')])), n)
            for cc in (1, 2):
                same_state(I, [lg(G, L, q) for q in range(n)], None, cc)
        c.evaluate('canonical:object:%d' % n, MPS, client('s.canonize()', 's'), mkob, job, SAME, opts=ms, max_paths=64)

        def mkt(I):
            I.calls, I.nreg = [], 0
            I.cap = P('Dcap')
            I.assume(I.cap - ONE)
            ts = setup(I, n)
            I.fullrank = False
            return [lst(I, ts), I.cap], {}

        def m_again(I, args, kw, node):
            I.nreg += 1
            if I.nreg == 1:
                return NotImplemented
            f = I.finite(args[0] if args else kw['mps'])
            I.out = [T(I, x) for x in f]
            return Opq('regauged')

        def jt(I, r, a, k):
            ts = getattr(I, 'out', None) or [T(I, x) for x in I.finite(a[0])]
            for q, t in enumerate(ts):
                d = t.legdims()
                atmost(I, d[0], I.cap, 'bond %d' % q)
                if q == n - 1:
                    same(I, d[1], ts[0].legdims()[0], 'the bond that closes the cell')
        c.evaluate('cell:truncated:%d' % n, MF, client("regaugeIMPS(t,'symmetric',truncate=1E-10,D=D)", 't,D', MF), mkt, jt, CAPD, opts={'models': dict(mo['models'], **{MF + '.regaugeIMPS': m_again})}, max_paths=128)

    for n in (2, 3):
        for p in range(n + 1):
            for b_ in range(n + 1):
                def mks(I):
                    return [canon_obj(I, n, p), C(b_)], {}

                def jsm(I, r, a, k):
                    if pos_int(I, a[0]) != b_:
                        raise Unk('position')
                    m = T(I, fld(I, a[0], '_mat'))
                    t = T(I, r)
                    if t.ndim != 1:
                        raise Bad('rank %d result' % t.ndim)
                    same(I, r, N.factor(m, 'svd')[1], 'values on bond %d' % b_)
                c.evaluate('schmidt:%d:%d->%d' % (n, p, b_), MPS, client('s.getSchmidt(b)', 's,b'), mks, jsm, 'the Schmidt values on a bond are the singular values of the centre matrix placed there', opts={'models': dict(GAUGE)})

    # one-site routine
    for g in ('left', 'right', 'symmetric'):
        def mk1(I):
            I.calls = []
            return [setup(I, 1)[0], g], {}

        def o1(I, r):
            f = I.finite(r)
            if f is None or len(f) != (3 if g == 'symmetric' else 2):
                raise Unk('result')
            t = T(I, f[0])
            if g == 'symmetric':
                return t, T(I, f[1])
            return t, None

        def js1(I, r, a, k):
            t, lam = o1(I, r)
            if lam is not None:
                t = N.tensordot(N.diag(lam), t, [1], [0])
            for cc in (1, 2):
                same_state(I, [t], None, cc)

        def ji1(I, r, a, k):
            t, lam = o1(I, r)
            if lam is None:
                (left_iso if g == 'left' else right_iso)(I, I.arr(t), 'tensor')
                return
            left_iso(I, I.arr(N.tensordot(N.diag(lam), t, [1], [0])), 'lambda Gamma')
            same(I, ops.np_norm(I, I.arr(lam)), ONE, 'norm of the Schmidt values')

        def jr1(I, r, a, k):
            t, lam = o1(I, r)
            right_iso(I, I.arr(N.transpose(N.tensordot(t, N.diag(lam), [1], [0]), [0, 2, 1])), 'Gamma lambda')

        def jm1(I, r, a, k):
            """the returned matrix is the gauge transformation: y^T A y^-T or x^-1 A x"""
            t, _ = o1(I, r)
            y = T(I, I.finite(r)[1])
            if g == 'left':
                l, q = N.tensordot(y, I.A[0], [0], [0]), N.transpose(N.tensordot(t, y, [1], [1]), [0, 2, 1])
            else:
                l, q = N.tensordot(y, t, [1], [0]), N.transpose(N.tensordot(I.A[0], y, [1], [0]), [0, 2, 1])
            prop_pos(I, l, q, 'tensor with the gauge matrix on one side')
        b = 'regauge(t,g,trunc=0.0)'
        c.evaluate('site:%s:state' % g, MF, client(b, 't,g', MF), mk1, js1, SAME, opts=mo, max_paths=64)
        c.evaluate('site:%s:orthonormal' % g, MF, client(b, 't,g', MF), mk1, ji1, ISO, opts=mo, max_paths=64)
        if g == 'symmetric':
            c.evaluate('site:%s:right' % g, MF, client(b, 't,g', MF), mk1, jr1, CANON, opts=mo, max_paths=64)
        else:
            c.evaluate('site:%s:matrix' % g, MF, client(b, 't,g', MF), mk1, jm1, GAU, opts=mo, max_paths=64)

    # state objects
    for n in (1, 2):
        for p in range(n + 1):
            for g in ('left', 'right', 'symmetric'):
                def mko(I):
                    I.calls = []
                    setup(I, n, True)
                    D = P('b:0')
                    N.REAL_LABELS.add('Slam')
                    s = N.Ten.atom('Slam', [D], True)
                    sd = N.diag(s)
                    si = N.diag(T(I, ops.elementwise(I, 'recip', I.arr(s, DT_FLOAT), DT_FLOAT)))
                    ts = list(I.A)
                    # conn B0 .. mat B_p .. = A0 .. A_p ..
                    if p < n:
                        ts[0] = N.tensordot(sd, ts[0], [1], [0])
                        ts[p] = N.tensordot(si, ts[p], [1], [0])
                    o = mps_obj(I, [I.arr(t, DT_CPLX) for t in ts], position=p, mat_=I.arr(sd, DT_FLOAT), obc=False, label='S', fields={'_schmidt_thresh': C(1e-16), '_r_thresh': C(1e-14), '_connector': I.arr(si, DT_FLOAT)})
                    return [o, g], {}

                def jo(I, r, a, k):
                    o = a[0]
                    ts = [T(I, x) for x in I.finite(fld(I, o, '_tensors'))]
                    m, cn = T(I, fld(I, o, '_mat')), T(I, fld(I, o, '_connector'))
                    q = pos_int(I, o)
                    if q not in (0, n):
                        raise Bad('recorded position %s' % q)
                    if g != 'symmetric' and (q == 0) != (g == 'right'):
                        raise Bad('gauge %s with the centre recorded at bond %d' % (g, q))
                    for x, t in enumerate(ts):
                        (right_iso if q == 0 else left_iso)(I, I.arr(t), 'tensor %d' % x)
                    ts = list(ts)
                    if q == 0:
                        ts[0] = N.tensordot(m, ts[0], [1], [0])
                        ts[0] = N.tensordot(cn, ts[0], [1], [0])
                    else:
                        ts[-1] = N.transpose(N.tensordot(ts[-1], N.tensordot(m, cn, [1], [0]), [1], [0]), [0, 2, 1])
                    for cc in (1, 2):
                        same_state(I, ts, None, cc)
                    if g == 'symmetric':
                        schmidt(I, m, [T(I, x) for x in I.finite(fld(I, o, '_tensors'))])
                c.evaluate('object:%s:%d@%d' % (g, n, p), MPS, client('s.regauge(g)', 's,g'), mko, jo, SAME, opts=mo, max_paths=64)
    c.min_ok = 4
    return c
