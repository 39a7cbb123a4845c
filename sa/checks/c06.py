"""C06: state constructors build the state they are asked for."""
from ..harness import *
from .. import spec as S

SHP = 'chain length, bond dimensions, local dimensions, entries and dtype are the requested ones'
PRO = 'the state is the product of the given local states'
LST = 'the represented vector is the given one up to a positive factor; boundary flag, scalar factor and gauge position are recorded'


def prop_pos(I, got, want, what):
    """got = positive number * want"""
    g, w = N.simplify(got), N.simplify(want)
    if len(g.nets) != 1 or len(w.nets) != 1:
        raise Unk(what)
    if g.nets[0].ckey() != w.nets[0].ckey():
        if tainted(g.key()):
            raise Unk(what)
        raise Bad('%s: %s ; specified a multiple of %s' % (what, short(g.key()), short(w.key())))
    q = I.norm(g.nets[0].coef * w.nets[0].coef.inv())
    p, _ = ops._posfactor(q)
    if p is None:
        raise Unk('%s: factor %s' % (what, short(q.key())))
    if not I.norm(p - q).is_zero():
        raise Bad('%s: factor %s is not positive' % (what, short(q.key())))


def flags(I, r, n, obc):
    same(I, fld(I, r, '_Z'), ONE, 'scalar factor')
    same(I, fld(I, r, '_obc'), obc, 'boundary flag')
    same(I, fld(I, r, '_N'), C(n), 'recorded length')


def run():
    c = Check('C06')
    for n in (1, 2, 3, 4):
        for obc in (True, False):
            for dt, dn in ((DT_FLOAT, 'float'), (DT_CPLX, 'complex')):
                for lst_d in (True, False):
                    if n == 1 and obc:
                        continue

                    def mk(I):
                        d = lst(I, [P('p:%d' % k) for k in range(n)]) if lst_d else C(3)
                        I.fun = I.ext('numpy.ones')
                        return [I.fun, C(n), P('Dcap'), d, obc, dt, P('sc'), P('sh')], {}

                    def j(I, r, a, k):
                        f = I.finite(r)
                        if f is None:
                            raise Unk('list')
                        if len(f) != n:
                            raise Bad('%d tensors instead of %d' % (len(f), n))
                        v = ONE - P('sh')
                        v = (v + v * Poly({(): (0, 1)}) if dn == 'complex' else v) * P('sc')
                        for x in range(n):
                            w = [ONE if obc and x == 0 else P('Dcap'), ONE if obc and x == n - 1 else P('Dcap'), P('p:%d' % x) if lst_d else C(3)]
                            dd = I.dims_of(f[x])
                            if dd is None:
                                raise Unk('shape')
                            for ax, (g, e) in enumerate(zip(dd, w)):
                                if not I.norm(N.DIMS.find(g) - e).is_zero():
                                    raise Bad('tensor %d has shape %s, requested %s' % (x, dd, w))
                            same(I, f[x], ops.const_tensor(N.Ten([N.Net(ONE, [], [() if q == ONE else (N.newidx(q),) for q in w])], 3), v), 'entries of tensor %d' % x)
                            if ops.dt_of(I, f[x]) != dt:
                                raise Bad('tensor %d has dtype %r, requested %r' % (x, ops.dt_of(I, f[x]), dt))
                    c.evaluate('initializer:%d:%s:%s:%s' % (n, 'obc' if obc else 'pbc', dn, 'list' if lst_d else 'int'), MF, 'MPSinitializer', mk, j, SHP)
    for n in (1, 2, 3):
        for obc in (True, False):
            if n == 1 and obc:
                continue
            for dts in (DT_FLOAT, DT_CPLX):
                def mk(I):
                    v = [I.atom_arr('v%d' % k, [C(2 + k % 2)], dts) for k in range(n)]
                    I.v = [T(I, x) for x in v]
                    return [lst(I, v), obc], {}

                def j(I, r, a, k):
                    import itertools
                    flags(I, r, n, obc)
                    st = obj_state(I, r)
                    dims = [2 + k % 2 for k in range(n)]
                    for e in itertools.product(*[range(x) for x in dims]):
                        g, w = st, ONE
                        for ax in range(n, 0, -1):
                            g = N.fix(g, ax, e[ax - 1])
                            w = w * ops.scal(I, ops.to_scalar(I, N.fix(I.v[ax - 1], 0, e[ax - 1])))
                        same(I, I.arr(g), w, 'amplitude %s' % (e,))
                    if ops.dt_of(I, I.finite(fld(I, r, '_tensors'))[0]) != dts:
                        raise Bad('dtype of the tensors is not that of the local states')
                c.evaluate('product:%d:%s:%r' % (n, 'obc' if obc else 'pbc', dts), MPS, client('MPS.productState(v,obc)', 'v,obc'), mk, j, PRO, allow=('ValueError',), max_paths=200)
    for n in (1, 2, 3):
        for m in (False, True):
            def mk(I):
                ts = [tens(I, 'A%d' % k, ONE if k == 0 else P('b:A%d' % k), ONE if k == n - 1 else P('b:A%d' % (k + 1)), P('p:%d' % k)) for k in range(n)]
                I.inp = [T(I, x) for x in ts]
                return [lst(I, ts)] + ([mat(I, 'M', ONE, ONE)] if m else []), {}

            def j(I, r, a, k):
                flags(I, r, n, True)
                same(I, fld(I, r, '_position'), C(n), 'gauge position')
                w = S.mps_state(I.inp)
                if m:
                    w = N.tensordot(w, T(I, a[1]), [n + 1], [0])
                prop_pos(I, obj_state(I, r), w, 'state')
                for x, t in zip(I.finite(a[0]), I.inp):
                    same(I, x, t, "caller's tensor")
            c.evaluate('fromList:%d:%s' % (n, 'mat' if m else 'plain'), MPS, client('MPS.fromList(*t)', '*t'), mk, j, LST)
        for obc in (True, False):
            if n == 1 and obc:
                continue
            for dt in (DT_FLOAT, DT_CPLX):
                def mk(I):
                    return [C(n), P('Dcap'), lst(I, [P('p:%d' % k) for k in range(n)]), obc, dt], {}

                def j(I, r, a, k):
                    flags(I, r, n, obc)
                    if getattr(I, 'nonfin', None):
                        raise Bad('the tensors of the all-zeros state are divided by zero at %s' % I.nonfin[0])
                    ts = tlist(I, r)
                    for x, t in enumerate(ts):
                        if N.simplify(t).nets:
                            if tainted(N.simplify(t).key()):
                                raise Unk('tensor')
                            raise Bad('tensor %d of the all-zeros state is %s' % (x, short(N.simplify(t).key())))
                        same(I, t.legdims()[2] if t.legdims() else None, P('p:%d' % x), 'local dimension of site %d' % x)
                    if ops.dt_of(I, I.finite(fld(I, r, '_tensors'))[0]) != dt:
                        raise Bad('dtype of the tensors')
                c.evaluate('zeros:%d:%s:%r' % (n, 'obc' if obc else 'pbc', dt), MPS, client('MPS.zeros(N,D,d,obc,dtype=dt)', 'N,D,d,obc,dt'), mk, j, LST)
        for kind in ('random', 'ones'):
            for obc in (True, False):
                if n == 1 and obc:
                    continue
                for dt in (DT_FLOAT, DT_CPLX):
                    def mk(I):
                        return [C(n), P('Dcap'), lst(I, [P('p:%d' % k) for k in range(n)]), obc, dt], {}

                    def j(I, r, a, k):
                        flags(I, r, n, obc)
                        same(I, fld(I, r, '_position'), C(n), 'gauge position')
                        ts = tlist(I, r)
                        for x, t in enumerate(ts):
                            same(I, I.arr(nc([cj(t), t], [[1, -1, 2], [1, -2, 2]])), N.eye(N.legdim(t.nets[0].outs[1])), 'left orthogonality of tensor %d' % x)
                            same(I, t.legdims()[2] if t.legdims() else None, P('p:%d' % x), 'local dimension of site %d' % x)
                        if obc and (ts[0].legdims()[0] != ONE or ts[-1].legdims()[1] != ONE):
                            raise Bad('open chain with boundary bonds %s, %s' % (ts[0].legdims()[0], ts[-1].legdims()[1]))
                        if ops.dt_of(I, I.finite(fld(I, r, '_tensors'))[0]) != dt:
                            raise Bad('dtype of the tensors')
                        same(I, fld(I, r, '_dtype'), dt, 'recorded dtype')
                    c.evaluate('%s:%d:%s:%r' % (kind, n, 'obc' if obc else 'pbc', dt), MPS, client('MPS.%s(N,D,d,obc,dtype=dt)' % kind, 'N,D,d,obc,dt'), mk, j, LST)
    c.min_ok = 30
    return c
