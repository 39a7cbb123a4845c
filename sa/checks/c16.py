"""C16: checkpoint files: only own files are removed, and at no point of a run is the last complete checkpoint lost."""
from ..harness import *
from .. import engmodel as E
from . import c12
from .c12 import mpo_obj

OWN = 'every file that is removed, renamed or overwritten by a run is one that this run has written'
LAST = 'from the first checkpoint on there is, between any two file operations, a complete checkpoint on disk, and it is the last or the last but one that was written'
KEEP = 'a run that keeps only the last checkpoint leaves exactly the last one behind; a run that keeps all leaves all of them, under different names'


class Disk:
    """file operations of one trace; a file is complete when the object has been dumped to it"""

    def __init__(self, I):
        self.ops = []
        for e in I.events:
            if e.kind == 'open':
                m = e.data[1] if len(e.data) > 1 else 'r'
                if isinstance(m, str) and m[:1] in 'wx':
                    self.ops.append(('open', I.vkey(e.data[0]), e.where()))
                elif isinstance(m, str) and m[:1] == 'r':
                    pass
                else:
                    raise Unk('file opened with mode %s' % (m,))
            elif e.kind == 'pickle.dump':
                if e.data[1] is None:
                    raise Unk('object written to an unknown file')
                self.ops.append(('dump', e.data[1][0], e.where()))
            elif e.kind == 'fs':
                self.ops.append(e.data + (e.where(),))


def name(x):
    return x[:80]


def own(I):
    mine = set()
    for op in Disk(I).ops:
        if op[0] in ('open', 'dump'):
            mine.add(op[1])
        elif op[0] == 'remove':
            if op[1] not in mine:
                raise Bad('removes %s, which this run has not written (%s)' % (name(op[1]), op[-1]))
            mine.discard(op[1])
        elif op[0] == 'move':
            if op[1] not in mine:
                raise Bad('renames %s, which this run has not written (%s)' % (name(op[1]), op[-1]))
            mine.discard(op[1])
            mine.add(op[2])


def last(I, need=1):
    disk, hist, k = {}, [], 0
    for op in Disk(I).ops:
        if op[0] == 'open':
            disk[op[1]] = None
        elif op[0] == 'dump':
            k += 1
            disk[op[1]] = k
        elif op[0] == 'remove':
            disk.pop(op[1], None)
        elif op[0] == 'move':
            if op[1] in disk:
                disk[op[2]] = disk.pop(op[1])
        if k:
            best = max([v for v in disk.values() if v is not None] or [0])
            if best == 0:
                raise Bad('no complete checkpoint exists after "%s %s" (%s)' % (op[0], name(op[1]), op[-1]))
            if best < k - 1:
                raise Bad('only checkpoint %d of %d is left after "%s %s" (%s)' % (best, k, op[0], name(op[1]), op[-1]))
    if k < need:
        raise Bad('%d checkpoints are written, at least %d are requested' % (k, need))
    return disk, k


def keep(I, all_, need):
    disk, k = last(I, need)
    if any(v is None for v in disk.values()):
        raise Bad('an incomplete file is left behind')
    have = sorted(disk.values())
    want = list(range(1, k + 1)) if all_ else [k] if k else []
    if have != want:
        raise Bad('checkpoints %s of %d are left behind, specified %s' % (have, k, want))


def run():
    c = Check('C16')

    def three(q, f, mk, om, all_, need, rolling=True):
        c.evaluate('own:' + q, ENG, f, mk, lambda I, r, a, k: own(I), OWN, opts=om)
        c.evaluate('last:' + q, ENG, f, mk, lambda I, r, a, k: last(I, need), LAST, opts=om)
        if rolling:
            c.evaluate('keep:' + q, ENG, f, mk, lambda I, r, a, k: keep(I, all_, need), KEEP, opts=om)

    gates = {k: v for k, v in c12.MOD.items() if not k.endswith('.save')}
    for n in (2, 3, 4):
        for steps in (1, 2, 3, 4, 5, 6):
            for cp in (1, 2, 3):
                for kp in (False, True):
                    if n != 3 and (steps not in (3, 5) or cp == 3):
                        continue
                    need = (steps - 1) // cp

                    def mk(I):
                        o, W, lb, rb = E.start(I, n, True)
                        I.log = c12.Log()
                        I.Dmax, I.thr = P('Dcap'), P('thr')
                        I.assume(P('Dcap') - ONE)
                        return [o, mpo_obj(I, I.finite(W)), P('t') * C(-1j), C(steps), I.Dmax, I.thr], {}
                    f = client('\n e = TimeEvolutionEngine(s, h, "f")\n return e.doTEBD(dt=dt, numsteps=n, Dmax=D, tr_thresh=th, verbose=0, cp=%d, keep_cp=%s)' % (cp, kp), 's,h,dt,n,D,th', ENG)
                    three('tebd:%d:%dx:cp%d%s' % (n, steps, cp, 'k' if kp else ''), f, mk, {'models': dict(gates)}, kp, need)
    for n, steps, cp, kp in ((2, 2, 1, False), (2, 3, 1, False), (2, 3, 1, True), (2, 4, 2, False), (2, 5, 2, False), (2, 5, 2, True), (3, 3, 1, False)):
        def mk(I):
            o, W, lb, rb = E.start(I, n, True)

            def tr(I, args, kw, node):
                I.track.mps = I.getattr(args[0], 'mps', node)
            return [o, W, P('t') * C(-1j), C(steps)], {'track': PyFn(tr)}
        f = client('\n e = TimeEvolutionEngine(s, w, "f")\n track(e)\n return e.doTDVP(dt, n, solver="LAN", verbose=0, cp=%d, keep_cp=%s)' % (cp, kp), 's,w,dt,n,track=0', ENG)
        three('tdvp:%d:%dx:cp%d%s' % (n, steps, cp, 'k' if kp else ''), f, mk, {'models': dict(E.EVOLVE)}, kp, (steps - 1) // cp)
    for two in (False, True):
        for n in (2, 3):
            def mk(I):
                o, W, lb, rb = E.start(I, n, True)
                I.track.mps = o
                return [o, W], {}
            f = client('\n e = DMRGengine(s, w, "f")\n return e.simulate%s(Nmax=4, cp=1, solver="AR")' % ('TwoSite' if two else ''), 's,w', ENG)
            three('dmrg:%d%s' % (n, ':two-site' if two else ''), f, mk, {'models': dict(E.EIG)}, False, 0, rolling=False)
    c.min_ok = 5
    return c
