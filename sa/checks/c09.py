"""C09: state arithmetic acts on the represented vectors; operands are left alone."""
import itertools
from ..harness import *
from .. import spec as S

LIN = 'the result represents the sum / difference / multiple / conjugate of the represented vectors'
OPD = 'the operands still represent the same vectors; the result shares no array with them'


def state(I, n, p, label, dt=None, d=None):
    ts = [tens(I, '%s%d' % (label, k), ONE if k == 0 else P('b:%s%d' % (label, k)), ONE if k == n - 1 else P('b:%s%d' % (label, k + 1)), d or P('p:%d' % k), dt) for k in range(n)]
    return mps_obj(I, ts, position=p, label=label, dt=dt)


def ring(I, o):
    """vector of a periodic state: the tensors with centre and connector matrix, outer bonds joined, times the scalar factor"""
    v = N.tensordot(obj_state(I, o), T(I, fld(I, o, '_connector')), [len(tlist(I, o)) + 1], [0])
    t = N.trace(v, 0, v.ndim - 1)
    # keep the layout of open vectors: outer legs of dimension one
    return N.expand(N.expand(t, 0), t.ndim + 1)


def pstate(I, n, p, label, d):
    ts = [tens(I, '%s%d' % (label, k), P('b:%s%d' % (label, k)), P('b:%s%d' % (label, k + 1)) if k < n - 1 else P('b:%s0' % label), d) for k in range(n)]
    return mps_obj(I, ts, position=p, label=label, obc=False)


def entries(I, got, want, d, what):
    """compare amplitude by amplitude (physical dimension d known)"""
    n = want.ndim - 2
    if got.ndim != want.ndim:
        raise Bad('%s: %d sites instead of %d' % (what, got.ndim - 2, n))
    for c in itertools.product(range(d), repeat=n):
        g, w = got, want
        for ax in range(n, 0, -1):
            g, w = N.fix(g, ax, c[ax - 1]), N.fix(w, ax, c[ax - 1])
        same(I, I.arr(g), w, '%s, amplitude %s' % (what, c))


def shared(I, r, a):
    """arrays of r that are (views of) arrays of a"""
    x, y = set(), set()
    for o, acc in ((r, x), (a, y)):
        for f in ('_tensors', '_mat', '_connector'):
            v = fld(I, o, f)
            for z in (I.finite(v) if isinstance(v, Ref) and I.rec(v).kind == 'list' else [v]):
                acc |= I.roots(z)
    return x & y


def run():
    c = Check('C09')
    d = 2
    BIN = {'add': client('a+b', 'a,b'), 'sub': client('a-b', 'a,b'), 'iadd': client('\n a+=b\n return a', 'a,b'), 'mul': client('a*x', 'a,x'), 'rmul': client('x*a', 'a,x'),
           'truediv': client('a/x', 'a,x'), 'imul': client('\n a*=x\n return a', 'a,x'), 'itruediv': client('\n a/=x\n return a', 'a,x')}
    UN = {'neg': client('-a', 'a'), 'pos': client('+a', 'a'), 'conjugate': client('a.conjugate()', 'a'), 'conj': client('\n a.conj()\n return a', 'a')}
    for n in (2, 3, 4):
        for p in range(n + 1):
            for q in sorted({0, n, n // 2}):
                if n == 4 and (p, q) not in ((0, 4), (2, 0)):
                    continue

                def mk(I):
                    a, b = state(I, n, p, 'A', d=C(d)), state(I, n, q, 'B', d=C(d))
                    I.st = [obj_state(I, a), obj_state(I, b)]
                    return [a, b], {}
                for nm, sg in (('add', 1), ('iadd', 1), ('sub', -1)):
                    def j(I, r, a, k):
                        w = N.add(I.st[0], N.scale(I.st[1], C(sg)))
                        if nm == 'iadd' and r != a[0]:
                            raise Bad('does not return the updated state')
                        entries(I, obj_state(I, r), w, d, 'vector of the result')

                    def kept(I, r, a, k):
                        for o, s in list(zip(a, I.st))[(1 if nm == 'iadd' else 0):]:
                            same(I, I.arr(obj_state(I, o)), s, 'vector of operand')
                            if shared(I, r, o):
                                raise Bad('the result shares memory with an operand')
                    c.evaluate('%s:%d@%d,%d' % (nm, n, p, q), MPS, BIN[nm], mk, j, LIN)
                    c.evaluate('%s:kept:%d@%d,%d' % (nm, n, p, q), MPS, BIN[nm], mk, kept, OPD)
    for n in (1, 2, 3):
        for p in range(n + 1):
            def mk1(I):
                a = state(I, n, p, 'A')
                I.st = [obj_state(I, a)]
                return [a, cscalar('x')], {}
            for nm, w in (('mul', P('x')), ('rmul', P('x')), ('imul', P('x')), ('truediv', P('x').inv()), ('itruediv', P('x').inv())):
                def j(I, r, a, k):
                    same(I, I.arr(obj_state(I, r)), N.scale(I.st[0], w), 'vector of the result')

                def kept(I, r, a, k):
                    if nm == 'imul':
                        if r != a[0]:
                            raise Bad('does not return the updated state')
                        return
                    if nm == 'itruediv' and r == a[0]:
                        return
                    same(I, I.arr(obj_state(I, a[0])), I.st[0], 'vector of the operand')
                    if shared(I, r, a[0]):
                        raise Bad('the result shares memory with the operand')
                c.evaluate('%s:%d@%d' % (nm, n, p), MPS, BIN[nm], mk1, j, LIN)
                c.evaluate('%s:kept:%d@%d' % (nm, n, p), MPS, BIN[nm], mk1, kept, OPD)

            def mku(I):
                a, k = mk1(I)
                return a[:1], {}
            for nm, w in (('neg', lambda s: N.scale(s, C(-1))), ('pos', lambda s: s), ('conjugate', N.conj), ('conj', N.conj)):
                def j(I, r, a, k):
                    if nm == 'conj':
                        r = a[0]
                    same(I, I.arr(obj_state(I, r)), w(I.st[0]), 'vector of the result')

                def kept(I, r, a, k):
                    if nm == 'conj':
                        return
                    if nm == 'itruediv' and r == a[0]:
                        return
                    same(I, I.arr(obj_state(I, a[0])), I.st[0], 'vector of the operand')
                    if shared(I, r, a[0]):
                        raise Bad('the result shares memory with the operand')
                c.evaluate('%s:%d@%d' % (nm, n, p), MPS, UN[nm], mku, j, LIN)
                c.evaluate('%s:kept:%d@%d' % (nm, n, p), MPS, UN[nm], mku, kept, OPD)
    for n in (1, 2, 3):
        for p in range(n + 1):
            for q in sorted({0, n, n // 2}):
                def mkp(I):
                    for x in (P('b:A0') - ONE, P('b:B0') - ONE, P('b:A0') + P('b:B0') - C(2)):
                        I.assume(x)
                    a, b = pstate(I, n, p, 'A', C(d)), pstate(I, n, q, 'B', C(d))
                    I.st = [ring(I, a), ring(I, b)]
                    return [a, b], {}
                for nm, sg in (('add', 1), ('iadd', 1), ('sub', -1)):
                    def j(I, r, a, k):
                        entries(I, ring(I, r), N.add(I.st[0], N.scale(I.st[1], C(sg))), d, 'vector of the result')
                        same(I, fld(I, r, '_obc'), False, 'boundary flag')
                    c.evaluate('periodic:%s:%d@%d,%d' % (nm, n, p, q), MPS, BIN[nm], mkp, j, LIN)
            if p == q:
                def mk1(I):
                    a = pstate(I, n, p, 'A', P('p:0'))
                    I.st = [ring(I, a)]
                    return [a, cscalar('x')], {}
                for nm, w in (('mul', P('x')), ('imul', P('x')), ('truediv', P('x').inv())):
                    def j(I, r, a, k):
                        same(I, I.arr(ring(I, r)), N.scale(I.st[0], w), 'vector of the result')
                    c.evaluate('periodic:%s:%d@%d' % (nm, n, p), MPS, BIN[nm], mk1, j, LIN)

                def mku(I):
                    a, k = mk1(I)
                    return a[:1], {}
                for nm, w in (('neg', lambda s: N.scale(s, C(-1))), ('conjugate', N.conj)):
                    def j(I, r, a, k):
                        same(I, I.arr(ring(I, r)), w(I.st[0]), 'vector of the result')
                    c.evaluate('periodic:%s:%d@%d' % (nm, n, p), MPS, UN[nm], mku, j, LIN)
    c.min_ok = 60
    return c
