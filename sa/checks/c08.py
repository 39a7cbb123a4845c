"""C08: copying, saving and loading reproduce every attribute of a state or simulation object, without sharing arrays."""
from ..harness import *

CPY = 'every attribute of the copy equals the attribute of the original'
IND = 'the copy shares no array or list with the original'
RT = 'every attribute of the loaded object equals the attribute of the saved object'
CON = 'the constructor stores the given tensors unchanged and in memory of its own'


def state(I, n, p, obc, dims=None, label='A'):
    ds = dims or [P('b:%s%d' % (label, k)) for k in range(n + 1)]
    ts = [tens(I, '%s%d' % (label, k), ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]
    f = {'_gamma': lst(I, [tens(I, label + 'g')]), '_lambda': lst(I, [mat(I, label + 'l')])}
    return mps_obj(I, ts, position=p, obc=obc, label=label, fields=f, dt=DT_CPLX)


def equal(I, a, b, path=''):
    """structural equality of two abstract values; raises Bad on a definite difference"""
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return
        ra, rb = I.rec(a), I.rec(b)
        if ra.kind != rb.kind:
            raise Bad('%s: %s became %s' % (path, ra.kind, rb.kind))
        if ra.kind == 'list':
            if len(ra.items) != len(rb.items):
                raise Bad('%s: %d entries became %d' % (path, len(ra.items), len(rb.items)))
            for k, (x, y) in enumerate(zip(ra.items, rb.items)):
                equal(I, x, y, '%s[%d]' % (path, k))
            return
        if ra.kind == 'dict':
            if list(ra.items) != list(rb.items):
                raise Bad('%s: keys %s became %s' % (path, list(ra.items), list(rb.items)))
            for k in ra.items:
                equal(I, ra.items[k], rb.items[k], '%s[%s]' % (path, k))
            return
        if ra.kind == 'obj':
            if ra.cls != rb.cls:
                raise Bad('%s: class %s became %s' % (path, ra.cls.name, rb.cls.name))
            for k in ra.f:
                if k not in rb.f:
                    raise Bad('%s.%s is missing' % (path, k))
                equal(I, ra.f[k], rb.f[k], '%s.%s' % (path, k))
            return
        if ra.kind == 'arr':
            if ra.ten is None or rb.ten is None:
                raise Unk(path)
            same(I, b, ra.ten, path)
            if ra.dt != rb.dt:
                raise Bad('%s: dtype %r became %r' % (path, ra.dt, rb.dt))
            return
        raise Unk(path)
    if isinstance(a, Poly):
        same(I, b, a, path)
        return
    if isinstance(a, (str, bool)) or a is None:
        if isinstance(b, (Opq, Cond)):
            raise Unk(path)
        if a != b or type(a) != type(b):
            raise Bad('%s: %r became %s' % (path, a, short(I.vkey(b))))
        return
    if isinstance(a, Dt):
        if not isinstance(b, Dt):
            b = ops.dtarg(I, b)
        if isinstance(b, Dt) and a != b:
            raise Bad('%s: %r became %r' % (path, a, b))
        if not isinstance(b, Dt):
            raise Unk(path)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            equal(I, x, y, '%s[%d]' % (path, k))
        return
    ka, kb = I.vkey(a), I.vkey(b)
    if ka != kb:
        if isinstance(b, Opq) and '?' in kb:
            raise Unk(path)
        raise Bad('%s: %s became %s' % (path, short(ka), short(kb)))


def arrays(I, v, acc=None, seen=None):
    """arrays and lists reachable from a value"""
    acc, seen = acc if acc is not None else set(), seen if seen is not None else set()
    if isinstance(v, Ref):
        if v.id in seen:
            return acc
        seen.add(v.id)
        r = I.rec(v)
        if r.kind == 'arr':
            acc |= I.roots(v)
        elif r.kind == 'list':
            acc.add(v.id)
            for x in r.items:
                arrays(I, x, acc, seen)
        elif r.kind == 'dict':
            acc.add(v.id)
            for x in r.items.values():
                arrays(I, x, acc, seen)
        elif r.kind == 'obj':
            for x in r.f.values():
                arrays(I, x, acc, seen)
    elif isinstance(v, tuple):
        for x in v:
            arrays(I, x, acc, seen)
    return acc


def run():
    c = Check('C08')
    CP = {'copy()': client('a.copy()', 'a'), 'copy.copy': client('copy.copy(a)', 'a'), 'copy.deepcopy': client('copy.deepcopy(a)', 'a')}
    cases = []
    for n in (1, 2, 3):
        for p in range(n + 1):
            for obc in (True, False):
                for one in (True, False):
                    cases.append((n, p, obc, one))
    for n, p, obc, one in cases:
        def mk(I, label='A'):
            ds = [P('b:%s%d' % (label, k)) for k in range(n + 1)]
            if one:
                ds[0] = ds[n] = ONE
            return state(I, n, p, obc, ds, label)
        tag = '%d@%d:%s:%s' % (n, p, 'obc' if obc else 'pbc', 'one' if one else 'gen')
        for nm, f in CP.items():
            if nm != 'copy()' and n != 2:
                continue
            c.evaluate('%s:%s' % (nm, tag), MPS, f, lambda I: ([mk(I)], {}), lambda I, r, a, k: equal(I, a[0], r, 'state'), CPY)

            def ind(I, r, a, k):
                x = arrays(I, r) & arrays(I, a[0])
                if x:
                    raise Bad('the copy shares memory with the original')
            c.evaluate('%s:independent:%s' % (nm, tag), MPS, f, lambda I: ([mk(I)], {}), ind, IND)

        def rt(I):
            I.closed_fs = True
            a, b = mk(I), mk(I, 'B')
            return [a, b, 'file'], {}
        c.evaluate('save/load:%s' % tag, MPS, client('\n a.save(fn)\n b.load(fn)\n return b', 'a,b,fn'), rt, lambda I, r, a, k: equal(I, a[0], r, 'state'), RT)

        def cons(I):
            ds = [P('b:A%d' % k) for k in range(n + 1)]
            if one:
                ds[0] = ds[n] = ONE
            ts = [tens(I, 'A%d' % k, ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]
            I.inp = [T(I, x) for x in ts]
            return [lst(I, ts)], {}

        def jc(I, r, a, k):
            got = tlist(I, r)
            if len(got) != n:
                raise Bad('%d tensors stored' % len(got))
            for x in range(n):
                same(I, I.finite(fld(I, r, '_tensors'))[x], I.inp[x], 'tensor %d' % x)
            if arrays(I, r) & arrays(I, a[0]):
                raise Bad('the state shares memory with the given tensors')
        if p == 0 and obc:
            c.evaluate('constructor:%s' % tag, MPS, client('MPS(ts)', 'ts'), cons, jc, CON)

            # reading out the tensor list hands out independent arrays
            def tl(I):
                return [mk(I)], {}

            def jt(I, r, a, k):
                if arrays(I, r) & arrays(I, fld(I, a[0], '_tensors')):
                    raise Bad('the returned tensors share memory with the state')
            c.evaluate('tolist:independent:%s' % tag, MPS, client('a.tolist()', 'a'), tl, jt, IND)
    c.min_ok = 60
    return c
