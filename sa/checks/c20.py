"""C20: Krylov routines.  Any hermitian map and start vector are unitarily equivalent to a real tridiagonal matrix with positive off-diagonal entries and the
first basis vector (Lanczos' theorem), and the routines use the map only through products, inner products and linear combinations; so the tridiagonal map with
symbolic entries decides them for every hermitian map."""
from ..harness import *
from .. import dense as D
from .. import net as N
from ..poly import COMPLEX_ATOMS, UNIT_ATOMS

KRY = 'the matrix that is diagonalised or exponentiated is the hermitian map on the Krylov space of the start vector'
VAL = 'the returned values are the lowest eigenvalues of that matrix in ascending order and vector k is the normalised eigenvector of value k'
STEP = 'the step returns exp(dt*map) applied to the start vector, including its length, within the Krylov space'
LAN = 'lib.Lanczos.LanczosEngine'


class Lib:
    def __init__(self):
        self.mats, self.kind = [], []


def tri(n):
    """tridiagonal hermitian matrix"""
    m = {}
    for i in range(n):
        m[(i, i)] = P('a%d' % i)
        if i:
            m[(i, i - 1)] = m[(i - 1, i)] = P('b%d' % i)
    return m


def turn(I, n, first, on):
    """phases of the basis: the map and the vectors in a basis in which nothing is real; returns phase(k)"""
    if not on:
        return lambda k: ONE
    UNIT_ATOMS.update('ph%d' % k for k in range(n))
    return lambda k: P('ph%d' % k) if k or first else ONE


def turned(m, ph):
    return {(i, j): x * ph(i) * ph(j).conj() for (i, j), x in m.items()}


def m_eigh(I, args, kw, node):
    e, sh = D.entries(T(I, args[0]))
    k = len(I.lib.mats)
    I.lib.mats.append((e, sh[0]))
    I.lib.kind.append('eigh')
    for i in range(sh[0]):
        N.REAL_LABELS.add('y%d_%d' % (k, i))
    w = I.arr(D.tensor({(i,): P('y%d_%d' % (k, i)) for i in range(sh[0])}, (sh[0],)), DT_FLOAT)
    if I.dt_of(args[0]) is not DT_FLOAT:
        COMPLEX_ATOMS.update('u%d_%d_%d' % (k, i, j) for i in range(sh[0]) for j in range(sh[0]))
    u = I.arr(D.tensor({(i, j): P('u%d_%d_%d' % (k, i, j)) for i in range(sh[0]) for j in range(sh[0])}, sh), I.dt_of(args[0]))
    return (w, u)


def m_expm(I, args, kw, node):
    e, sh = D.entries(T(I, args[0]))
    k = len(I.lib.mats)
    I.lib.mats.append((e, sh[0]))
    I.lib.kind.append('expm')
    COMPLEX_ATOMS.update('u%d_%d_%d' % (k, i, j) for i in range(sh[0]) for j in range(sh[0]))
    return I.arr(D.tensor({(i, j): P('u%d_%d_%d' % (k, i, j)) for i in range(sh[0]) for j in range(sh[0])}, sh), DT_CPLX)


def m_trunc(I, args, kw, node):
    # the controller's step sizes: given numbers; longer rejection sequences repeat the shorter ones
    if not I.hsteps:
        raise Infeasible()
    return P(I.hsteps.pop(0))


def m_copysign(I, args, kw, node):
    x, y = args[0].as_const(), args[1].as_const()
    if x is None or y is None:
        return NotImplemented
    return C(abs(x) if y >= 0 else -abs(x))



def m_norm(I, args, kw, node):
    # lengths of multiples of one basis vector; all length symbols are positive
    try:
        e, sh = D.entries(T(I, args[0]))
    except Exception:
        return NotImplemented
    v = [x for x in e.values() if not x.is_zero()]
    if len(sh) != 1 or len(v) > 1:
        return NotImplemented
    out = v[0] if v else C(0)
    for a in out.atoms() & UNIT_ATOMS:
        out = out.subs({a: ONE}) if hasattr(out, 'subs') else out
    return out


STEPCTL = {'ext:scipy.linalg.norm': m_norm, 'ext:numpy.linalg.norm': m_norm, 'ext:math.trunc': m_trunc, 'ext:math.log10': lambda I, a, k, n: P('log'), 'ext:math.copysign': m_copysign}
OPTS = {'models': {**STEPCTL, 'ext:scipy.linalg.expm': m_expm, 'ext:numpy.linalg.eigh': m_eigh, 'ext:scipy.linalg.eigh': m_eigh}}


def vec(I, v):
    e, sh = D.entries(T(I, v))
    return {k[0]: x for k, x in e.items()}


def block(I, k, scale=ONE):
    m, n = I.lib.mats[k]
    ok, where = D.same(m, D.mscale(tri(n), scale))
    if not ok:
        raise Bad('entry %s of the %dx%d matrix is %s, of the map %s' % (where, n, n, m.get(where, 0), (tri(n).get(where, ZERO) * scale)))
    return n


def run():
    c = Check('C20')
    src = '\n e = LanczosEngine(lambda x: np.dot(M,x), lambda a,b: np.dot(a,b), np.zeros, Ndiag=%d, ncv=%d, numeig=%d, delta=d, deltaEta=d2)\n return e.__simulate__(v%s)'
    for ncv, nd, ne, re in ((1, 1, 1, ''), (2, 1, 1, ''), (2, 1, 2, ''), (3, 1, 1, ''), (3, 2, 2, ''), (3, 10, 1, ''), (2, 1, 1, ', reortho=True'), (3, 2, 2, ', reortho=True'), (3, 10, 3, ', reortho=True')):
        for cplx in ('real', 'complex', 'mixed'):
            n = ncv + 2

            def mk(I):
                I.lib = Lib()
                ph = I.ph = turn(I, n, cplx == 'complex', cplx != 'real')
                M = I.arr(D.tensor(turned(tri(n), ph), (n, n)), DT_FLOAT if cplx == 'real' else DT_CPLX)
                v = I.arr(D.tensor({(0,): P('s') * ph(0)}, (n,)), DT_CPLX if cplx == 'complex' else DT_FLOAT)
                return [M, v, C(1) / C(1000), C(1) / C(1000)], {}

            def judge(I, r, a, k):
                et, st, conv = I.finite(r)
                if not I.lib.mats:
                    raise Bad('no matrix is diagonalised')
                for q in range(len(I.lib.mats)):
                    m = block(I, q)
                q = len(I.lib.mats) - 1
                w = vec(I, et)
                want = min(ne, m)
                if w != {i: P('y%d_%d' % (q, i)) for i in range(want)}:
                    raise Bad('returned values %s' % sorted((i, str(x)) for i, x in w.items()))
                ss = I.finite(st)
                if len(ss) != want:
                    raise Bad('%d vectors for %d values' % (len(ss), want))
                for j, s in enumerate(ss):
                    x = vec(I, s)
                    ref = {i: P('u%d_%d_%d' % (q, i, j)) * I.ph(i) for i in range(m)}
                    for i in range(n):
                        for l in range(n):
                            # proportional to the eigenvector
                            if not (x.get(i, ZERO) * ref.get(l, ZERO) - x.get(l, ZERO) * ref.get(i, ZERO)).is_zero():
                                raise Bad('vector %d is not the eigenvector of value %d: component %d is %s' % (j, j, i, x.get(i, 0)))
                    if not x:
                        raise Bad('vector %d vanishes' % j)
            f = client(src % (nd, ncv, ne, re), 'M,v,d,d2', LAN)
            c.evaluate('lanczos:%d:%d:%d%s:%s' % (ncv, nd, ne, ':reortho' if re else '', cplx), LAN, f, mk, judge, VAL, opts=OPTS, max_paths=128)
    for ncv in (1, 2, 3):
        for cplx in ('real', 'complex', 'mixed', 'dt'):
            n = ncv + 1

            def mk(I):
                I.lib = Lib()
                ph = I.ph = turn(I, n, cplx == 'complex', cplx not in ('real', 'dt'))
                M = I.arr(D.tensor(turned(tri(n), ph), (n, n)), DT_FLOAT if cplx in ('real', 'dt') else DT_CPLX)
                v = I.arr(D.tensor({(0,): P('s') * ph(0)}, (n,)), DT_CPLX if cplx == 'complex' else DT_FLOAT)
                return [M, v, C(1) / C(1000), P('t') * C(-1j) if cplx == 'dt' else P('t')], {}

            def judge(I, r, a, k):
                if len(I.lib.mats) < 1 or I.lib.kind[-1] != 'expm':
                    raise Unk('no matrix exponential')
                for q in range(len(I.lib.mats) - 1):
                    block(I, q)
                q = len(I.lib.mats) - 1
                m = block(I, q, P('t') * (C(-1j) if cplx == 'dt' else ONE))
                x = vec(I, r)
                for i in range(n):
                    w = P('u%d_%d_0' % (q, i)) * P('s') * I.ph(i) if i < m else ZERO
                    if not (x.get(i, ZERO) - w).is_zero():
                        raise Bad('component %d along the Krylov vectors is %s, specified %s' % (i, x.get(i, 0), w))
                for e in I.events:
                    if e.kind == 'lossy':
                        raise Bad('drops the imaginary part: %s' % (e.data[-1],))
            f = client('\n e = LanczosTimeEvolution(lambda x: np.dot(M,x), lambda a,b: np.dot(a,b), np.zeros, ncv=%d, delta=d)\n return e.__doStep__(v, dt)' % ncv, 'M,v,d,dt', LAN)
            c.evaluate('step:%d:%s' % (ncv, cplx), LAN, f, mk, judge, STEP, opts=OPTS, max_paths=128)
    for m, n in ((1, 3), (2, 4)):
        for brk in (False, True):
            M = {(i, j): P('g%d_%d' % (i, j)) for i in range(n) for j in range(n) if j >= i}
            for i in range(1, n):
                if not (brk and i == m):
                    M[(i, i - 1)] = P('b%d' % i)

            def mk(I):
                I.lib = Lib()
                COMPLEX_ATOMS.update('g%d_%d' % (i, j) for i in range(n) for j in range(n))
                I.round_div = I.unroll = True
                I.hsteps = ['h1', 'h2', 'h3']
                for i in range(1, n):
                    I.assume(P('b%d' % i) - ONE)
                I.assume(P('s') - ONE)
                ph = I.ph = turn(I, n, True, True)
                A = I.arr(D.tensor(turned(M, ph), (n, n)), DT_CPLX)
                v = I.arr(D.tensor({(0,): P('s') * ph(0)}, (n,)), DT_CPLX)
                return [A, v, C(-2), C(1)], {}

            def judge(I, r, a, k):
                if not I.lib.mats or I.lib.kind[-1] != 'expm':
                    raise Unk('no matrix exponential')
                q = len(I.lib.mats) - 1
                e, sh = I.lib.mats[q]
                sc = e.get((0, 0), ZERO) * P('g0_0').inv()
                if brk:
                    # the Krylov space is invariant: one exponential over the whole time is exact
                    sc = C(-2)
                for i in range(m if brk else m + 1):
                    for j in range(sh):
                        # beyond the map: the last vector is reached, nothing leaves it (rows after it only estimate the error)
                        w = M.get((i, j), ZERO) * sc if j < m and i <= m else ZERO
                        if not (e.get((i, j), ZERO) - w).is_zero():
                            raise Bad('entry %s of the exponentiated matrix is %s, of the map times the step %s' % ((i, j), e.get((i, j), ZERO), w))
                x = vec(I, I.finite(r)[0])
                dim = m if brk else m + 1
                for i in range(n):
                    w = P('u%d_%d_0' % (q, i)) * P('s') * I.ph(i) if i < dim else ZERO
                    if not (x.get(i, ZERO) - w).is_zero():
                        raise Bad('component %d along the Krylov vectors is %s, specified %s' % (i, x.get(i, 0), w))
            f = client('\n return gexpmv(A, v, t, an, m=%d, mxstep=1)' % m, 'A,v,t,an', 'lib.mpslib.sexpmv')
            c.evaluate('expmv:%d:%s' % (m, brk), LAN, f, mk, judge, STEP, opts=OPTS, max_paths=96)
    c.min_ok = 3
    return c
