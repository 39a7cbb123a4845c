"""C03: site-tensor and matrix factorisations reproduce their input and their isometric factors are isometric."""
from ..harness import *
from .. import spec as S
from fractions import Fraction as Fr

REC = 'factor product times the returned norm equals the input tensor (up to the discarded singular vectors where truncation was requested)'
ISO = 'the isometric factor contracted with its conjugate over all but the new bond is the identity'
NRM = 'the returned bond matrix / singular values have norm one and the returned scalar is the norm that was divided out'
PHA = 'the phase fix multiplies both factors by mutually inverse diagonal unitaries, making the chosen diagonal real and positive'


def left_iso(I, t, what):
    t = T(I, t)
    d = t.legdims()
    same(I, I.arr(nc([t, cj(t)], [[1, -1, 2], [1, -2, 2]])), N.eye(d[1]), what + ' contracted with its conjugate over (left, physical)')


def right_iso(I, t, what):
    t = T(I, t)
    d = t.legdims()
    same(I, I.arr(nc([t, cj(t)], [[-1, 1, 2], [-2, 1, 2]])), N.eye(d[0]), what + ' contracted with its conjugate over (right, physical)')


def row_iso(I, t, what):   # t t^dagger = 1
    t = T(I, t)
    same(I, I.arr(nc([t, cj(t)], [[-1, 1], [-2, 1]])), N.eye(t.legdims()[0]), what + ' times its adjoint')


def col_iso(I, t, what):   # t^dagger t = 1
    t = T(I, t)
    same(I, I.arr(nc([cj(t), t], [[1, -1], [1, -2]])), N.eye(t.legdims()[1]), what + ' adjoint times itself')


def unit_norm(I, v, what):
    same(I, ops.np_norm(I, v), ONE, 'norm of ' + what)


def same_ray(I, got, want, what):
    """equal up to a positive scalar and to the cuts of the bond index"""
    t, w = N.simplify(T_(got), True), N.simplify(want, True)
    if len(t.nets) != len(w.nets):
        raise Unk(what) if '?' in t.key() else Bad('%s = %s' % (what, short(t.key())))
    if not t.nets:
        return
    a = t.nets[0].coef * w.nets[0].coef.inv()
    if N.scale(w, a).key() != t.key():
        if tainted(t.key()):
            raise Unk(what)
        raise Bad('%s = %s is not proportional to the input %s' % (what, short(t.key()), short(w.key())))
    if '-' in a.key().split('*')[0]:
        raise Bad('%s has the factor %s' % (what, a.key()))


def T_(x):
    return x


def usv(I, a, s, b, axis):
    """a . diag(s) . b over the bond; axis: index of the bond leg of a"""
    a, s, b = T(I, a), T(I, s), T(I, b)
    return N.tensordot(N.tensordot(a, N.diag(s), [axis], [0]), b, [a.ndim - 1], [0])


def svd_fails(I, args, kw, node):
    """the first decomposition of a run may raise LinAlgError"""
    if getattr(I, 'svd_done', False):
        return NotImplemented
    I.svd_done = True
    if not I.decide(Cond('svd converges'), node):
        raise Raised('LinAlgError', node, I.stack[-1])
    return NotImplemented


FAIL = {'models': {'ext:numpy.linalg.svd': svd_fails, 'ext:scipy.linalg.svd': svd_fails}}


def phases(I, fix, which, fac, got_diag, raw_diag):
    """report only definite misses: the diagonal left untouched, or multiplied by its own phase"""
    th = I.call(Ext('numpy.angle'), [I.arr(raw_diag)], {}, None)
    e = I.call(Ext('numpy.exp'), [ops.binop(I, 'Mult', C(1j), th, None)], {}, None)
    wrong = ops.hadamard(raw_diag, T(I, e))
    k = N.simplify(got_diag).key()
    if k == N.simplify(raw_diag).key():
        raise Bad('fixphase=%r leaves the diagonal of %s as it came out of the decomposition' % (fix, which))
    if k == N.simplify(wrong).key():
        raise Bad('fixphase=%r multiplies the diagonal of %s by its own phase, not by the inverse phase' % (fix, which))


def rows_of(I, t):
    l, r, p = T(I, t).legdims()
    return N.reshape(N.transpose(T(I, t), [2, 0, 1]), [p * l, r])


def cols_of(I, t, order='C'):
    l, r, p = T(I, t).legdims()
    return N.reshape(T(I, t), [l, p * r], order)


def run():
    c = Check('C03')
    for d in (1, -1):
        s, D = '%+d' % d, C(d)

        # QR of a site tensor
        for fix in (None, 'q', 'r'):
            def mk(I):
                return [tens(I, 'T'), D], ({} if fix is None else {'fixphase': fix})

            def jrec(I, r, a, k):
                f = I.finite(r)
                if f is None or len(f) != 3:
                    raise Bad('returns %s instead of three values' % short(I.vkey(r)))
                out, m, Z = f
                o, mm, z = T(I, out), T(I, m), ops.scal(I, Z)
                if z is None:
                    raise Unk('norm')
                if d > 0:
                    t = N.transpose(N.tensordot(o, mm, [1], [0]), [0, 2, 1])
                else:
                    t = N.tensordot(mm, o, [1], [0])
                same(I, I.arr(N.scale(t, z)), I.input, 'out.r*Z')

            def pre(I, mk=mk):
                a, k = mk(I)
                I.input = T(I, a[0])
                return a, k

            def jiso(I, r, a, k):
                (left_iso if d > 0 else right_iso)(I, I.finite(r)[0], 'the isometric tensor')

            def jn(I, r, a, k):
                unit_norm(I, I.finite(r)[1], 'the bond matrix')
            c.evaluate('prepareTensor:%s:%s:reconstruct' % (s, fix), MF, 'prepareTensor', pre, jrec, REC)
            c.evaluate('prepareTensor:%s:%s:isometry' % (s, fix), MF, 'prepareTensor', pre, jiso, ISO)
            c.evaluate('prepareTensor:%s:%s:norm' % (s, fix), MF, 'prepareTensor', pre, jn, NRM)

            def jp(I, r, a, k):
                out, m, Z = I.finite(r)
                if d > 0:
                    q, rr = N.factor(rows_of(I, a[0]), 'qr')
                    got = rows_of(I, out)
                else:
                    q, rr = N.factor(N.conj(N.transpose(cols_of(I, a[0], 'F'))), 'qr')
                    got = N.conj(N.transpose(cols_of(I, out, 'F')))
                if fix == 'q':
                    phases(I, fix, 'q', None, N.diag(got), N.diag(q))
                else:
                    g = N.scale(T(I, m), ops.scal(I, Z))
                    if d < 0:
                        g = N.conj(N.transpose(g))
                    phases(I, fix, 'r', None, N.diag(g), N.diag(rr))
            if fix:
                c.evaluate('prepareTensor:%s:%s:phase' % (s, fix), MF, 'prepareTensor', pre, jp, PHA)

        # SVD of a site tensor
        for name, cases in (('prepareTensorSVD', [('plain', {}), ('fixphase', {'fixphase': True})]),
                            ('prepareTruncate', [('exact', {}), ('exactD', {'D': P('Dcap')}), ('thresh', {'thresh': P('thresh')}), ('both', {'D': P('Dcap'), 'thresh': P('thresh')}),
                                                 ('tiny', {'thresh': C(0)}), ('large', {'thresh': C(0.001)})])):
            for cn, kws in cases:
                def mk(I):
                    t = tens(I, 'T')
                    I.input = T(I, t)
                    return [t, D], dict(kws)

                def unpack(I, r):
                    f = I.finite(r)
                    if f is None or len(f) != 4:
                        raise Bad('returns %s instead of four values' % short(I.vkey(r)))
                    if name == 'prepareTensorSVD' or d > 0:
                        out, sv, m, Z = f
                    else:
                        m, sv, out, Z = f
                    z = ops.scal(I, Z)
                    if z is None:
                        raise Unk('norm')
                    return out, sv, m, z

                def jrec(I, r, a, k):
                    out, sv, m, z = unpack(I, r)
                    if d > 0:
                        t = N.transpose(usv(I, out, sv, m, 1), [0, 2, 1])
                    else:
                        t = usv(I, m, sv, out, 1)
                    t = N.scale(t, z)
                    if cn in ('plain', 'fixphase', 'exact', 'tiny'):
                        same(I, I.arr(t), I.input, 'out.s.v*Z')
                    else:
                        same_ray(I, t, I.input, 'out.s.v*Z')

                def jiso(I, r, a, k):
                    out, sv, m, z = unpack(I, r)
                    if d > 0:
                        left_iso(I, out, 'the isometric tensor')
                        row_iso(I, m, 'the second isometry')
                    else:
                        right_iso(I, out, 'the isometric tensor')
                        col_iso(I, m, 'the second isometry')

                def jn(I, r, a, k):
                    out, sv, m, z = unpack(I, r)
                    unit_norm(I, sv, 'the singular values')
                    full = I.arr(N.scale(T(I, sv), z))
                    want = 'norm'
                    if not z.key().startswith(('1*norm<', 'norm<')):
                        raise Unk('scalar ' + z.key())
                    if 'cut' in z.key():
                        raise Bad('the returned scalar %s is the norm after truncation, not the norm of the tensor' % short(z.key()))
                def jp(I, r, a, k):
                    out, sv, m, z = unpack(I, r)
                    if d > 0:
                        raw, got = N.factor(rows_of(I, a[0]), 'svd')[0], rows_of(I, out)
                    else:
                        raw, got = N.factor(cols_of(I, a[0]), 'svd')[2], cols_of(I, out)
                    phases(I, True, 'u' if d > 0 else 'v', None, N.diag(got), N.diag(raw))
                if cn == 'fixphase':
                    c.evaluate(name + ':%s:phase' % s, MF, name, mk, jp, PHA)
                for fb in (False, True):
                    o = FAIL if fb else {}
                    q = ':%s:%s%s' % (s, cn, ':fallback' if fb else '')
                    if fb and cn not in ('plain', 'exact', 'both'):
                        continue
                    c.evaluate(name + q + ':reconstruct', MF, name, mk, jrec, REC, opts=o)
                    c.evaluate(name + q + ':isometry', MF, name, mk, jiso, ISO, opts=o)
                    c.evaluate(name + q + ':norm', MF, name, mk, jn, NRM, opts=o)

    # plain matrix wrappers
    def mkm(I):
        m = mat(I, 'M', P('rows'), P('cols'))
        I.input = T(I, m)
        return [m], {}

    def jsvd(I, r, a, k):
        f = I.finite(r)
        if f is None or len(f) != 3:
            raise Bad('returns %s instead of three values' % short(I.vkey(r)))
        same(I, I.arr(usv(I, f[0], f[1], f[2], 1)), I.input, 'u.s.v')

    def jsi(I, r, a, k):
        f = I.finite(r)
        col_iso(I, f[0], 'u')
        row_iso(I, f[2], 'v')
    for fb in (False, True):
        o = FAIL if fb else {}
        c.evaluate('svd%s:reconstruct' % (':fallback' if fb else ''), MF, 'svd', mkm, jsvd, REC, opts=o)
        c.evaluate('svd%s:isometry' % (':fallback' if fb else ''), MF, 'svd', mkm, jsi, ISO, opts=o)
    for fix in ('q', 'r'):
        def mkq(I):
            a, k = mkm(I)
            return a + [fix], k

        def jq(I, r, a, k):
            f = I.finite(r)
            if f is None or len(f) != 2:
                raise Bad('returns %s instead of two values' % short(I.vkey(r)))
            same(I, I.arr(N.tensordot(T(I, f[0]), T(I, f[1]), [1], [0])), I.input, 'q.r')
            col_iso(I, f[0], 'q')
        c.evaluate('qr:%s' % fix, MF, 'qr', mkq, jq, REC)
    # splitting one site into two: the product of the two tensors is the site tensor with its physical index mapped to two qubits
    for n in (1, 2):
        def mkf(I):
            ts = [tens(I, 'A%d' % q, P('b:A%d' % q), P('b:A%d' % (q + 1)), C(2)) for q in range(n)]
            I.ts = [T(I, x) for x in ts]
            return [lst(I, ts)], {}

        def jf(I, r, a, k):
            f = I.finite(r)
            if f is None or len(f) != 2 * n:
                raise Bad('%s tensors for %d sites' % ('?' if f is None else len(f), n))
            rt = C(2).pow(Fr(-1, 2))
            for q in range(n):
                got = nc([T(I, f[2 * q]), T(I, f[2 * q + 1])], [[-1, 1, -3], [1, -2, -4]])
                for s1 in (0, 1):
                    for s2 in (0, 1):
                        g = N.fix(N.fix(got, 3, s2), 2, s1)
                        # |0> -> |00>... : amplitudes of the two-qubit state
                        if (s1, s2) == (0, 0):
                            w = N.fix(I.ts[q], 2, 0)
                        elif s1 != s2:
                            w = N.scale(N.fix(I.ts[q], 2, 1), rt)
                        else:
                            w = N.Ten([], 2)
                        same(I, I.arr(g), w, 'amplitude %d%d of site %d' % (s1, s2, q))
        c.evaluate('finegrain:%d' % n, MF, 'FinegrainDolfi', mkf, jf, REC)
    c.min_ok = 30
    return c
