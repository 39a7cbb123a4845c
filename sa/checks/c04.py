"""C04: moving the gauge centre, absorbing gauge matrices and list-level sweeps leave the represented state unchanged."""
from ..harness import *
from .. import spec as S
from .c03 import left_iso, right_iso, unit_norm

STATE = 'the tensors with the centre matrix at its bond, times the scalar factor, are the same tensor network before and after'
ISOL = 'every site tensor the centre passed is isometric in the direction it was left behind, the centre matrix has norm one, the recorded position is the requested one'
RET = 'the returned tensor(s) are the specified contraction and the state object keeps its state'
RAY = 'under truncation the state is the original one up to discarded singular vectors and a positive factor'


def chainT(I, n, obc=False, nm='A', phys='p'):
    ds = [P('b:%s%d' % (nm, k)) for k in range(n + 1)]
    if obc:
        ds[0] = ds[n] = ONE
    return [tens(I, '%s%d' % (nm, k), ds[k], ds[k + 1], P('%s:%d' % (phys, k))) for k in range(n)]


THR = {'_schmidt_thresh': C(1e-16), '_r_thresh': C(1e-14)}


def obj(I, n, pos, obc=False, label='S', nm='A', phys='p', fields=None):
    f = dict(THR)
    f.update(fields or {})
    return mps_obj(I, chainT(I, n, obc, nm, phys), position=pos, obc=obc, label=label, fields=f)


def method(name):
    return 'MPS.' + name


def with_state(mk):
    """snapshot the state and the isometry-relevant content before the call"""
    def f(I):
        I.assume(P('Dcap') - ONE)
        a, k = mk(I)
        I.before = obj_state(I, a[0])
        I.self = a[0]
        I.nsite = len(tlist(I, a[0]))
        return a, k
    return f


def ray(I, got, want, what):
    """same up to a positive factor, modulo cut bonds"""
    t, w = N.simplify(got, True), N.simplify(want, True)
    if tainted(t.key()):
        raise Unk(what)
    if len(t.nets) != len(w.nets) or not t.nets:
        raise Bad('%s = %s, expected the original state' % (what, short(t.key())))
    a = t.nets[0].coef * w.nets[0].coef.inv()
    if N.scale(w, a).key() != t.key():
        raise Bad('%s = %s is not proportional to %s' % (what, short(t.key()), short(w.key())))
    c = a.subs({})
    for at in a.atoms():
        if at in PL.UNIT_ATOMS:
            raise Bad('%s differs by the phase %s' % (what, a.key()))
    if any(re < 0 or im for re, im in a.t.values()):
        raise Bad('%s has the factor %s' % (what, a.key()))


def pos_of(I, o):
    p = ops.scal(I, fld(I, o, '_position'))
    return I.norm(p).as_int() if p is not None else None


def run():
    c = Check('C04')
    # ---- __position__ : all (length, from, to)
    for n in (1, 2, 3, 4):
        for p in range(n + 1):
            for b in range(n + 1):
                if n == 4 and abs(p - b) < 3:
                    continue
                for trunc in (('exact', {}), ('D', {'D': P('Dcap')}), ('thresh', {'schmidt_thresh': C(0.001)})):
                    if trunc[0] != 'exact' and (n > 2 or p == b):
                        continue
                    mk = with_state(lambda I: ([obj(I, n, p), C(b)], dict(trunc[1])))

                    def j(I, r, a, k):
                        st = obj_state(I, a[0])
                        if trunc[0] == 'exact':
                            same(I, I.arr(st), I.before, 'state')
                        else:
                            ray(I, st, I.before, 'state')

                    def ji(I, r, a, k):
                        q = pos_of(I, a[0])
                        if q != b:
                            raise Bad('recorded position %s after moving to bond %d' % (q, b))
                        ts = I.finite(fld(I, a[0], '_tensors'))
                        for site in range(min(p, b), max(p, b)):
                            (left_iso if b > p else right_iso)(I, ts[site], 'site tensor %d of %d (centre moved %d->%d)' % (site, n, p, b))
                        if p != b:
                            unit_norm(I, fld(I, a[0], '_mat'), 'the centre matrix')
                    key = 'position:%d:%d->%d%s' % (n, p, b, '' if trunc[0] == 'exact' else ':' + trunc[0])
                    c.evaluate(key, MPS, 'MPS.__position__', mk, j, STATE if trunc[0] == 'exact' else RAY)
                    c.evaluate(key + ':gauge', MPS, 'MPS.__position__', mk, ji, ISOL)
    mk = with_state(lambda I: ([obj(I, 3, 3), C(1)], {}))
    c.evaluate('position(public)', MPS, 'MPS.position', mk, lambda I, r, a, k: same(I, I.arr(obj_state(I, a[0])), I.before, 'state'), STATE)
    # open boundary: trivial boundary bonds
    for p, b in ((0, 3), (3, 0), (1, 2)):
        mk = with_state(lambda I: ([obj(I, 3, p, True), C(b)], {}))
        c.evaluate('position:obc:%d->%d' % (p, b), MPS, 'MPS.__position__', mk, lambda I, r, a, k: same(I, I.arr(obj_state(I, a[0])), I.before, 'state'), STATE)

    # ---- absorbing the centre matrix and the connector
    for n in (1, 2, 3):
        for p in range(n + 1):
            for d in (1, -1):
                mk = with_state(lambda I: ([obj(I, n, p), C(d)], {}))

                def j(I, r, a, k):
                    same(I, I.arr(obj_state(I, a[0])), I.before, 'state')
                    m = T(I, fld(I, a[0], '_mat'))
                    same(I, I.arr(m), N.eye(m.legdims()[0]), 'the centre matrix left behind')
                c.evaluate('absorbCenterMatrix:%d@%d:%+d' % (n, p, d), MPS, 'MPS.__absorbCenterMatrix__', mk, j, STATE)

        def cyc(I, o):
            """centre matrix at the end, connector between the last and the first tensor"""
            ts = tlist(I, o)
            m, cn = T(I, fld(I, o, '_mat')), T(I, fld(I, o, '_connector'))
            st = S.mps_state(ts)
            x = N.tensordot(m, cn, [1], [0])
            return N.tensordot(st, x, [len(ts) + 1, 0], [0, 1])

        def mkc(I, loc):
            ts = chainT(I, n)
            d0 = P('b:A0')
            ts[-1] = tens(I, 'A%d' % (n - 1), P('b:A%d' % (n - 1)) if n > 1 else d0, d0, P('p:%d' % (n - 1)))
            o = mps_obj(I, ts, obc=False, mat_=I.arr(N.eye(d0)))
            I.before = cyc(I, o)
            return [o, loc], {}
        for loc in ('left', 'right'):
            def jc(I, r, a, k):
                same(I, I.arr(cyc(I, a[0])), I.before, 'periodic state')
                m = T(I, fld(I, a[0], '_connector'))
                same(I, I.arr(m), N.eye(m.legdims()[0]), 'the connector left behind')
            c.evaluate('absorbConnector:%d:%s' % (n, loc), MPS, 'MPS.__absorbConnector__', lambda I: mkc(I, loc), jc, STATE)

    # ---- reading the state
    for n in (1, 2, 3):
        for p in range(n + 1):
            mk = with_state(lambda I: ([obj(I, n, p)], {}))

            def j(I, r, a, k):
                f = I.finite(r)
                if f is None:
                    raise Unk('list')
                if len(f) != n:
                    raise Bad('list of %d tensors for %d sites' % (len(f), n))
                Z = ops.scal(I, fld(I, a[0], '_Z'))
                same(I, I.arr(N.scale(S.mps_state([T(I, x) for x in f]), Z)), I.before, 'state of the returned list')
                same(I, I.arr(obj_state(I, a[0])), I.before, 'state of the object')
                own = {x.id for x in I.finite(fld(I, a[0], '_tensors')) if isinstance(x, Ref)}
                for q, x in enumerate(f):
                    y = x
                    while isinstance(y, Ref):
                        if y.id in own:
                            raise Bad('tensor %d of the returned list shares memory with the state object' % q)
                        y = I.rec(y).base if I.rec(y).kind == 'arr' else None
            c.evaluate('tolist:%d@%d' % (n, p), MPS, 'MPS.tolist', mk, j, RET)
            for site in (p, p - 1):
                if not 0 <= site < n:
                    continue
                for clear in (False, True):
                    for nm in ('tensor', '__tensor__'):
                        if nm == 'tensor' and n != 2:
                            continue
                        mk = with_state(lambda I: ([obj(I, n, p), C(site)], {'clear': clear}))

                        def pre(I, mk=mk):
                            a, k = mk(I)
                            I.m0, I.t0 = T(I, fld(I, a[0], '_mat')), tlist(I, a[0])
                            return a, k

                        def j(I, r, a, k):
                            if site == p:
                                w = N.tensordot(I.m0, I.t0[site], [1], [0])
                            else:
                                w = N.transpose(N.tensordot(I.t0[site], I.m0, [1], [0]), [0, 2, 1])
                            same(I, r, w, 'returned tensor')
                            if not clear:
                                same(I, I.arr(obj_state(I, a[0])), I.before, 'state of the object')
                            else:
                                for q, (x, y) in enumerate(zip(tlist(I, a[0]), I.t0)):
                                    same(I, I.arr(x), y, 'stored tensor %d' % q)
                                m = T(I, fld(I, a[0], '_mat'))
                                e = N.eye(m.legdims()[0])
                                k_ = N.simplify(m)
                                if tainted(k_.key()):
                                    raise Unk('mat')
                                if len(k_.nets) != 1 or k_.nets[0].ckey() != N.simplify(e).nets[0].ckey():
                                    raise Bad('the cleared centre matrix is %s' % short(k_.key()))
                        c.evaluate('%s:%d@%d:site%d:%s' % (nm, n, p, site, clear), MPS, 'MPS.' + nm, pre, j, RET)

    # ---- list-level sweeps
    for fn in ('orthonormalizeQR', 'orthonormalizeSVD'):
        for n in (1, 2, 3):
            for d in (1, -1):
                for s1, s2 in ((0, n - 1), (0, 0), (n - 1, n - 1), (0, max(n - 2, 0)), (min(1, n - 1), n - 1)):
                    def mk(I):
                        ts = chainT(I, n)
                        l = lst(I, ts)
                        I.before = S.mps_state([T(I, x) for x in ts])
                        return [l, C(d), C(s1), C(s2)], {}

                    def j(I, r, a, k):
                        ts = [T(I, x) for x in I.finite(a[0])]
                        m = T(I, r)
                        if d > 0 and s2 == n - 1:
                            ts[-1] = N.transpose(N.tensordot(ts[-1], m, [1], [0]), [0, 2, 1])
                            same(I, I.arr(S.mps_state(ts)), I.before, 'state with the returned matrix')
                        elif d < 0 and s1 == 0:
                            ts[0] = N.tensordot(m, ts[0], [1], [0])
                            same(I, I.arr(S.mps_state(ts)), I.before, 'state with the returned matrix')
                        else:
                            # the matrix already sits in the neighbouring tensor: the state is kept up to the norm
                            ray(I, S.mps_state(ts), I.before, 'state')
                        for site in range(s1, s2 + 1):
                            (left_iso if d > 0 else right_iso)(I, I.finite(a[0])[site], 'site tensor %d' % site)
                    key = '%s:%d:%d-%d:%+d' % (fn, n, s1, s2, d)
                    if key in c.keys:
                        continue
                    c.evaluate(key, MF, fn, mk, j, STATE)

    # ---- truncation of a state / of a list, canonical (Gamma, Lambda) form; open chains
    for n in (1, 2, 3):
        for p in range(n + 1):
            mk = with_state(lambda I: ([obj(I, n, p, True, fields={'_D': P('Dold')}), C(0.001)], {'D': P('Dcap')}))

            def j(I, r, a, k):
                ray(I, obj_state(I, a[0]), I.before, 'state')
            if n < 3:
                c.evaluate('truncate:%d@%d' % (n, p), MPS, 'MPS.truncate', mk, j, RAY, max_paths=400)

        def mkl(I):
            I.assume(P('Dcap') - ONE)
            l = lst(I, chainT(I, n, True))
            I.before = S.mps_state([T(I, x) for x in I.finite(l)])
            return [l, P('Dcap')], {}

        def jl(I, r, a, k):
            phaseray(I, S.mps_state([T(I, x) for x in I.finite(a[0])]), I.before, 'state')
        c.evaluate('truncateMPS:%d' % n, MF, 'truncateMPS', mkl, jl, RAY)

        for kind in ('list', 'object'):
            for p in ((n,) if kind == 'list' else range(n + 1)):
                def mkg(I):
                    if kind == 'list':
                        l = lst(I, chainT(I, n, True))
                        I.before = S.mps_state([T(I, x) for x in I.finite(l)])
                        return [l], {}
                    o = obj(I, n, p, True)
                    I.before = obj_state(I, o)
                    return [o], {}

                def jg(I, r, a, k):
                    f = I.finite(r)
                    if f is None or len(f) != 2:
                        raise Unk('pair')
                    G, L = [T(I, x) for x in I.finite(f[0])], [T(I, x) for x in I.finite(f[1])]
                    if len(G) != n or len(L) != n + 1:
                        raise Bad('%d Gammas and %d Lambdas for %d sites' % (len(G), len(L), n))
                    ts = []
                    for q in range(n):
                        ts.append(N.tensordot(N.diag(L[q]), G[q], [1], [0]))
                    ts[-1] = N.transpose(N.tensordot(ts[-1], N.diag(L[n]), [1], [0]), [0, 2, 1])
                    phaseray(I, S.mps_state(ts), I.before, 'Lambda.Gamma chain')
                c.evaluate('canonizeMPS:%s:%d@%d' % (kind, n, p), MF, 'canonizeMPS', mkg, jg, RAY)
    c.min_ok = 80
    c.assumptions = ['chains of one to four sites (each site is handled by the same loop body)']
    return c


def phaseray(I, got, want, what):
    """same state up to norm and global phase (trivial boundary matrices are dropped by these routines)"""
    t, w = N.simplify(got, True), N.simplify(want, True)
    if tainted(t.key()):
        raise Unk(what)
    if len(t.nets) != len(w.nets) or not t.nets:
        raise Bad('%s = %s, expected the original state' % (what, short(t.key())))
    a = t.nets[0].coef * w.nets[0].coef.inv()
    if N.scale(w, a).key() != t.key():
        raise Bad('%s = %s is not proportional to %s' % (what, short(t.key()), short(w.key())))
    if any(not at.startswith(('norm<', 'phase<', 'chi<', 'len(', 'Z.S', '<S.c*|0.0()', '<S.c|0.0()')) for at in a.atoms()):
        raise Unk('%s factor %s' % (what, a.key()))
