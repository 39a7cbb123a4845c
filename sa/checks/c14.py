"""C14: sweep optimisers always work with environment blocks of the current state and put every local solution back into it."""
from ..harness import *
from .. import engmodel as E
from .. import spec as S

RULE = ('at every call of a local solver the left and right blocks equal the contraction of the currently stored tensors with the boundary blocks, the operator is the one of the '
        'optimised site(s), the start tensor describes the current state, and the state held afterwards is the one with the returned solution in place')
BLK = 'after the call every block adjacent to the centre equals the contraction of the currently stored tensors, and the state is unchanged'
CAP = 'two-site updates obey the bond limit of the state'


def blocks(I, eng, tr, left, right, what):
    """left blocks 0..left and right blocks of the sites right.. are current"""
    f = I.rec(eng).f
    Ls, Rs = f.get('_L'), f.get('_R')
    for k in range(left + 1):
        same(I, ops.getitem(I, Ls, C(k), None), E.left_env(I, tr, k), '%s: left block %d' % (what, k))
    n = len(tr.mpo)
    for k in range(n - right + 1):
        same(I, ops.getitem(I, Rs, C(k), None), E.right_env(I, tr, n - k), '%s: right block %d' % (what, k))


def run():
    c = Check('C14')
    om = {'models': dict(E.EIG)}

    def sweep(key, body, n, obc, rule=RULE, judge=None, mincalls=1, cplx=False):
        def mk(I):
            o, W, lb, rb = E.start(I, n, obc)
            I.track.mps = o
            if not obc:
                I.eqs_boundary = True
            return [o, W, lb, rb], {}

        def j(I, r, a, k):
            tr = I.track
            if tr.n < mincalls:
                raise Bad('%d local problems were solved, at least %d are specified' % (tr.n, mincalls))
            if tr.expect is not None:
                E.ray(I, obj_state(I, a[0]), tr.expect, 'final state')
            if judge:
                judge(I, r, a)
        c.evaluate(key, ENG, client(body, 's,w,lb,rb', ENG), mk, j, rule, opts=om, max_paths=32)

    for n in (2, 3, 4):
        for obc in (True, False):
            ctor = 'DMRGengine(s, w, "f")' if obc else 'DMRGengine(s, w, "f", lb, rb)'
            b = '' if obc else ':blocks'
            for sv in ('AR', 'LAN', 'LOBPCG') if n == 3 and obc else ('AR',):
                sweep('single-site:%d:%s%s' % (n, sv, b), '\n e = %s\n return e.simulate(Nmax=2, cp=None, solver="%s")' % (ctor, sv), n, obc, mincalls=2 * n - 2)
            for sv in ('AR', 'LAN', 'LOBPCG') if n == 3 and obc else ('AR',):
                sweep('two-site:%d:%s%s' % (n, sv, b), '\n e = %s\n return e.simulateTwoSite(Nmax=%d, cp=None, solver="%s")' % (ctor, 2 if n < 4 else 1, sv), n, obc, mincalls=n - 1)
        sweep('repeat:%d' % n, '\n e = DMRGengine(s, w, "f")\n e.simulate(Nmax=1, cp=None)\n e.simulateTwoSite(Nmax=1, cp=None)\n return e.simulate(Nmax=1, cp=None)', n, True, mincalls=3)
        # the state may be changed between runs: update() and truncateMPS() make the engine consistent again
        for nm, pre in (('update', 'e.update()'), ('replaced', 'e.mps.position(1)\n e.mps[%d] = e.mps[%d]*2.0\n e.update()' % (n - 1, n - 1)), ('truncated', 'e.truncateMPS(D=d)'),
                        ('truncated2', 'e.truncateMPS(1E-8)')):
            def jc(I, r, a):
                tr = I.track
                if pos_int(I, a[0]) != 0:
                    raise Bad('recorded position %s instead of 0' % pos_int(I, a[0]))
                blocks(I, r, tr, 0, 0, nm)
            body = '\n e = DMRGengine(s, w, "f")\n d = 7\n %s\n ' % pre
            sweep('%s:%d' % (nm, n), body + 'return e', n, True, BLK, jc, 0)
            for m in ('simulate', 'simulateTwoSite') if n < 4 else ('simulate',):
                sweep('%s:%s:%d' % (nm, m, n), body + 'return e.%s(Nmax=1, cp=None)' % m, n, True, mincalls=n - 1)
            if n == 3:
                sweep('%s:position:%d' % (nm, n), body + 'e.position(2)\n e.position(1)\n return e', n, True, BLK, lambda I, r, a: blocks(I, r, I.track, 1, 1, nm), 0)
        # moving the engine's position
        for q in range(n + 1):
            for q2 in range(n + 1):
                if n == 4 and abs(q - q2) < 2:
                    continue

                def jb(I, r, a):
                    tr = I.track
                    if pos_int(I, a[0]) != q2:
                        raise Bad('recorded position %s instead of %d' % (pos_int(I, a[0]), q2))
                    blocks(I, r, tr, q2, q2, 'position')
                    E.ray(I, obj_state(I, a[0]), I.before, 'state')

                sweep('position:%d:%d->%d' % (n, q, q2), '\n e = DMRGengine(s, w, "f")\n e.position(%d)\n e.position(%d)\n return e' % (q, q2), n, True, BLK,
                      lambda I, r, a: jb(I, r, a), 0)
    c.min_ok = 10
    return c
