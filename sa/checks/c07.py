"""C07: a bond limit is never exceeded, the largest singular values are the ones kept, and no more is discarded than limit and threshold require."""
from ..harness import *
from .. import spec as S
from .c04 import ray, chainT, THR
from .c03 import left_iso, FAIL

CAP = 'every bond the truncating operation passes has at most the requested dimension'
KEEP = 'the new bond dimension is the smaller one of the limit and the number of singular values (above the threshold, if one is given)'
LEAD = 'the truncated state is the original one restricted to the leading singular values, up to a positive factor'
D = P('Dcap')


def obj(I, n, p, label='S'):
    I.assume(D - ONE)
    o = mps_obj(I, chainT(I, n, True), position=p, obc=True, label=label, fields=dict(THR))
    I.before = obj_state(I, o)
    return o


def bonds(I, o, left=False):
    ts = I.finite(fld(I, o, '_tensors'))
    if ts is None:
        raise Unk('tensor list')
    d = [I.dims_of(t) for t in ts]
    for k in range(len(d) - 1):
        p = pos_int(I, o)
        if p == k + 1:
            # the centre matrix may be rectangular: one of its sides was newly cut, the other one still has the old dimension
            m = I.dims_of(fld(I, o, '_mat'))
            eqdim(I, d[k][1], m[0], 'bond %d' % (k + 1))
            eqdim(I, m[1], d[k + 1][0], 'bond %d' % (k + 1))
        else:
            eqdim(I, d[k][1], d[k + 1][0], 'bond %d' % (k + 1))
    p = pos_int(I, o)
    out = [x[0] for x in d] + [d[-1][1]]
    if left and 0 < p < len(d):
        out[p] = d[p - 1][1]
    return out


def eqdim(I, a, b, what):
    if not I.norm(N.DIMS.find(a - b)).is_zero():
        raise Bad('%s: dimensions %s and %s do not match' % (what, a, b))


def run():
    c = Check('C07')
    thr = P('thr')
    # ---- one site tensor
    for dr in (1, -1):
        for cn, kw in (('D', {'D': D}), ('D+thresh', {'D': D, 'thresh': C(0.001)}), ('thresh', {'thresh': C(0.001)}), ('none', {}), ('D1', {'D': ONE})):
            for fb in (False, True):
                def mk(I):
                    I.assume(D - ONE)
                    t = tens(I, 'T')
                    I.inp = T(I, t)
                    return [t, C(dr)], dict(kw)

                def new(I, r):
                    f = I.finite(r)
                    if f is None or len(f) != 4:
                        raise Bad('returns %s instead of four values' % short(I.vkey(r)))
                    x, y = [I.dims_of(v) for v in (f[0], f[2])]
                    s = I.dims_of(f[1])[0]
                    if x is None or y is None:
                        raise Unk('shapes')
                    eqdim(I, x[1], s, 'left factor and singular values')
                    eqdim(I, s, y[0], 'singular values and right factor')
                    return s

                def jc(I, r, a, k):
                    s = new(I, r)
                    if 'D' in kw:
                        atmost(I, s, kw['D'], 'the new bond dimension')

                def jk(I, r, a, k):
                    s = new(I, r)
                    # how many values there were: the rank of the decomposition, or the number above the threshold
                    avail = [P(x) for x in {y for f in I.facts + [s] for y in f.atoms()} if x.startswith('len(mask<' if 'thresh' in kw else 'chi<')]
                    for v in avail:
                        want = I.mn([v] + ([kw['D']] if 'D' in kw else []))
                        raw = 'min(%s)' % ','.join(sorted(x.key() for x in [v, kw['D']])) if 'D' in kw else None
                        if I.norm(N.DIMS.find(s - want)).is_zero() or I.sign(s - want) == '0' or s.key() == '1*%s' % raw:
                            return
                    if s.is_zero() or 'D' in kw and I.sign(kw['D'] - s) == '+' and not any(x.startswith(('chi<', 'len(mask<', 'min(')) for x in s.atoms()):
                        raise Bad('the new bond dimension is %s although the limit is %s' % (s, kw['D']))
                    if 'thresh' in kw and not any('len(mask<' in x for f in I.facts + [s] for x in f.atoms()):
                        raise Bad('the new bond dimension %s does not depend on the number of singular values above the threshold' % s)
                    if not avail:
                        raise Unk('rank %s' % s)
                    want = I.mn([avail[0]] + ([kw['D']] if 'D' in kw else []))
                    if not tainted(s.key()) and I.sign(want - s) == '+':
                        raise Bad('the new bond dimension is %s, %s values could be kept' % (s, want))
                    raise Unk('new bond dimension %s, expected %s' % (s, want))
                q = '%+d:%s%s' % (dr, cn, ':fallback' if fb else '')
                o = FAIL if fb else {}
                c.evaluate('site:cap:' + q, MF, 'prepareTruncate', mk, jc, CAP, opts=o)
                c.evaluate('site:keep:' + q, MF, 'prepareTruncate', mk, jk, KEEP, opts=o)
    # ---- state object
    for n in (2, 3, 4):
        for p in range(n + 1):
            for b in range(n + 1):
                if b == p or n == 4 and abs(p - b) < 3:
                    continue
                for cn, kw in (('D', {'D': D}), ('D+thresh', {'D': D, 'schmidt_thresh': C(0.001)})):
                    def mk(I):
                        return [obj(I, n, p), C(b)], dict(kw)

                    def jc(I, r, a, k):
                        bs = bonds(I, a[0], b > p)
                        rng = range(p + 1, b + 1) if b > p else range(b, p)
                        for x in rng:
                            if 0 < x < n:
                                atmost(I, bs[x], D, 'bond %d' % x)
                        for x in range(n + 1):
                            if x not in rng:
                                eqdim(I, bs[x], ONE if x in (0, n) else P('b:A%d' % x), 'bond %d (not passed)' % x)
                    q = '%d:%d->%d:%s' % (n, p, b, cn)
                    kk = ','.join('%s=%s' % (x, x) for x in kw)
                    c.evaluate('position:' + q, MPS, 'MPS.position', mk, jc, CAP)
    for n in (1, 2, 3):
        for p in range(n + 1):
            for cn, th, kw in (('D', C(1e-16), {'D': D}), ('D+thresh', C(0.001), {'D': D}), ('thresh', C(0.001), {})):
                def mk(I):
                    o = obj(I, n, p)
                    I.rec(o).f['_D'] = P('stale')
                    I.assume(P('stale') - ONE)
                    return [o, th], dict(kw)

                def jc(I, r, a, k):
                    bs = bonds(I, a[0])
                    if 'D' in kw:
                        for x in range(1, n):
                            atmost(I, bs[x], D, 'bond %d' % x)

                def jl(I, r, a, k):
                    ray(I, obj_state(I, a[0]), I.before, 'state')
                q = '%d@%d:%s' % (n, p, cn)
                c.evaluate('truncate:cap:' + q, MPS, 'MPS.truncate', mk, jc, CAP)
                c.evaluate('truncate:state:' + q, MPS, 'MPS.truncate', mk, jl, LEAD)
    # ---- list of tensors
    for n in (1, 2, 3):
        def mk(I):
            I.assume(D - ONE)
            ts = chainT(I, n, True)
            return [lst(I, ts), D], {}

        def jc(I, r, a, k):
            ts = I.finite(a[0])
            d = [I.dims_of(t) for t in ts]
            for x in range(n - 1):
                eqdim(I, d[x][1], d[x + 1][0], 'bond %d' % (x + 1))
                atmost(I, d[x][1], D, 'bond %d' % (x + 1))
            for x in range(n - 1):
                left_iso(I, ts[x], 'tensor %d' % x)
        c.evaluate('list:%d' % n, MF, 'truncateMPS', mk, jc, CAP)
    c.min_ok = 60
    return c
