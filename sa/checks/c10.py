"""C10: applying gates and operators acts on the represented state as the operator; truncation keeps the leading part and respects the caps."""
from ..harness import *
from .. import spec as S
from .c04 import ray, left_iso, right_iso, unit_norm

APP = 'the represented vector after the call is the operator applied to the vector before the call'
CAN = 'the updated tensors are orthonormal, the centre matrix is normalised and sits at the recorded bond'
CAP = 'the returned bond dimension is the one of the state and does not exceed the limit'
mo = {'models': dict(GAUGE)}


def gate2(I, s, d=None):
    return I.atom_arr('G', [P('p:%d' % s), P('p:%d' % (s + 1)), P('o:%d' % s), P('o:%d' % (s + 1))])


def run():
    c = Check('C10')
    for n in (2, 3, 4):
        for p in range(n + 1):
            for s in range(n - 1):
                if n == 4 and p not in (0, 2, 4):
                    continue
                for opt in ({}, {'Dmax': P('Dcap')}, {'Dmax': P('Dcap'), 'thresh': P('thr')}):
                    def mk(I):
                        I.assume(P('Dcap') - ONE)
                        o = canon_obj(I, n, p)
                        g = gate2(I, s)
                        I.g = T(I, g)
                        return [o, g, C(s), I.new(PyDict(dict(opt)))], {}

                    def j(I, r, a, k):
                        err = None
                        for h in reversed(I.gauge[a[0].id]['hist']):
                            w = N.tensordot(h, I.g, [s + 1, s + 2], [0, 1])
                            m = n + 2
                            perm = list(range(s + 1)) + [m - 2, m - 1] + list(range(s + 1, m - 2))
                            w = N.transpose(w, perm)
                            try:
                                ray(I, obj_state(I, a[0]), w, 'state')
                                return
                            except Bad as e:
                                err = err or e
                        raise err

                    def jc(I, r, a, k):
                        if pos_int(I, a[0]) != s + 1:
                            raise Bad('recorded position %s instead of %d' % (pos_int(I, a[0]), s + 1))
                        ts = I.finite(fld(I, a[0], '_tensors'))
                        left_iso(I, ts[s], 'tensor %d' % s)
                        right_iso(I, ts[s + 1], 'tensor %d' % (s + 1))
                        unit_norm(I, fld(I, a[0], '_mat'), 'the centre matrix')

                    def jd(I, r, a, k):
                        f = I.finite(r)
                        if f is None or len(f) != 2:
                            raise Bad('returns %s instead of (discarded weight, bond dimension)' % short(I.vkey(r)))
                        D = ops.scal(I, f[1])
                        if D is None:
                            raise Unk('bond dimension')
                        ts = I.finite(fld(I, a[0], '_tensors'))
                        dims = {'right bond of tensor %d' % s: I.dims_of(ts[s])[1], 'left bond of tensor %d' % (s + 1): I.dims_of(ts[s + 1])[0],
                                'centre matrix rows': I.dims_of(fld(I, a[0], '_mat'))[0], 'centre matrix columns': I.dims_of(fld(I, a[0], '_mat'))[1]}
                        for nm, d in dims.items():
                            if not I.norm(N.DIMS.find(d - D)).is_zero():
                                raise Bad('%s is %s, returned bond dimension %s' % (nm, d, D))
                            if 'Dmax' in opt:
                                atmost(I, d, P('Dcap'), nm)
                    key = '%d@%d:site%d:%s' % (n, p, s, '+'.join(sorted(opt)) or 'exact')
                    f = client('a.applyTwoSiteGate(g,s,**o)', 'a,g,s,o')
                    al = ()
                    c.evaluate('two-site:' + key, MPS, f, mk, j, APP, opts=mo)
                    c.evaluate('two-site:gauge:' + key, MPS, f, mk, jc, CAN, opts=mo)
                    c.evaluate('two-site:cap:' + key, MPS, f, mk, jd, CAP, opts=mo)
    for n in (1, 2, 3):
        for p in range(n + 1):
            for s in range(n):
                for pres in (None, True, False):
                    def mk(I):
                        o = canon_obj(I, n, p)
                        g = I.atom_arr('G', [P('p:%d' % s), P('o:%d' % s)])
                        I.g = T(I, g)
                        return [o, g, C(s), I.new(PyDict({} if pres is None else {'preserve_position': pres}))], {}

                    def j(I, r, a, k):
                        ws = []
                        for h in reversed(I.gauge[a[0].id]['hist']):
                            w = N.tensordot(h, I.g, [s + 1], [0])
                            ws.append(N.transpose(w, list(range(s + 1)) + [n + 1] + list(range(s + 1, n + 1))))
                        same_any(I, I.arr(obj_state(I, a[0])), ws, 'state')

                    def jc(I, r, a, k):
                        if pres is False:
                            return
                        ts = I.finite(fld(I, a[0], '_tensors'))
                        if pos_int(I, a[0]) != s + 1:
                            raise Bad('recorded position %s instead of %d' % (pos_int(I, a[0]), s + 1))
                        left_iso(I, ts[s], 'tensor %d' % s)
                        unit_norm(I, fld(I, a[0], '_mat'), 'the centre matrix')
                    f = client('a.applyOneSiteGate(g,s,**o)', 'a,g,s,o')
                    key = '%d@%d:site%d:%s' % (n, p, s, pres)
                    c.evaluate('one-site:' + key, MPS, f, mk, j, APP, opts=mo)
                    c.evaluate('one-site:gauge:' + key, MPS, f, mk, jc, CAN, opts=mo)

            def mkm(I):
                o = canon_obj(I, n, p)
                ws = [mpot(I, 'W%d' % k, ONE if k == 0 else P('m:%d' % k), ONE if k == n - 1 else P('m:%d' % (k + 1)), P('p:%d' % k), P('o:%d' % k)) for k in range(n)]
                I.W = S.mpo_state([T(I, w) for w in ws])
                return [o, lst(I, ws)], {}

            def jm(I, r, a, k):
                out = []
                for h in reversed(I.gauge[a[0].id]['hist']):
                    # h [l, s.., r]; W [ml, i0, o0, i1, o1, .., mr]
                    t = N.tensordot(h, I.W, list(range(1, n + 1)), [1 + 2 * x for x in range(n)])
                    # [l, r, ml, o0.., mr] with trivial l, r, ml, mr
                    t = N.transpose(t, [0, 2] + list(range(3, 3 + n)) + [1, 3 + n])
                    t = N.reshape(t, [ONE] + [P('o:%d' % x) for x in range(n)] + [ONE])
                    out.append(t)
                same_any(I, I.arr(obj_state(I, a[0])), out, 'state')
            c.evaluate('operator:%d@%d' % (n, p), MPS, client('a.applyMPO(w)', 'a,w'), mkm, jm, APP, opts=mo)
    c.min_ok = 100
    return c
