"""C12: TEBD applies exactly the second-order splitting of the requested time, on every bond, whatever the checkpoint schedule and verbosity."""
from ..harness import *
from .. import engmodel as E

SPLIT = ('the two-site gates applied, with gates on disjoint bonds commuted and gates on the same bond merged, are: even bonds dt/2, odd bonds dt, even bonds dt, ..., odd bonds dt, even bonds dt/2')
CNT = 'the engine reports the time of the requested number of steps, and the truncated weight is the sum of the weights of all gates, on top of what it had before'
SAVE = 'every state written to a file has completed a whole number of steps, the number its recorded time says'


def normal(seq):
    """normal form of a gate sequence: commuting layers, equal bonds merged, zero times dropped"""
    out = []
    for b, t in seq:
        i = len(out)
        pos = None
        while i > 0:
            x, tx = out[i - 1]
            if x == b:
                pos = i - 1
                break
            if abs(x - b) == 1:
                break
            i -= 1
        if pos is not None:
            t2 = out[pos][1] + t
            if t2.is_zero():
                out.pop(pos)
            else:
                out[pos] = (b, t2)
        else:
            out.append((b, t))
    # sort commuting neighbours
    ch = True
    while ch:
        ch = False
        for i in range(len(out) - 1):
            if abs(out[i][0] - out[i + 1][0]) > 1 and out[i][0] > out[i + 1][0]:
                out[i], out[i + 1] = out[i + 1], out[i]
                ch = True
            elif out[i][0] == out[i + 1][0]:
                t = out[i][1] + out[i + 1][1]
                out[i:i + 2] = [(out[i][0], t)] if not t.is_zero() else []
                ch = True
                break
    return out


def strang(n, steps, dt):
    ev = [b for b in range(n - 1) if b % 2 == 0]
    od = [b for b in range(n - 1) if b % 2 == 1]
    h = dt * C(0.5)
    s = []
    for k in range(steps):
        s += [(b, h) for b in ev] + [(b, dt) for b in od] + [(b, h) for b in ev]
    return normal(s)


def show(s):
    return ' '.join('%d:%s' % x for x in s)


class Log:
    def __init__(self):
        self.gates, self.apps, self.saves, self.eng = {}, [], [], None


def m_gate(I, args, kw, node):
    names = ['self', 'm', 'n', 'tau']
    d = dict(zip(names, args))
    d.update(kw)
    m, n = (I.norm(ops.scal(I, d[x])).as_int() for x in 'mn')
    tau = ops.scal(I, d['tau'])
    if m is None or n is None or tau is None:
        raise Undecided('gate arguments')
    o = I.opq('gate', C(m), C(n), tau)
    I.log.gates[o.key] = (min(m, n), max(m, n), tau)
    return o


def m_apply(I, args, kw, node):
    fn = prog().func(MPS, 'MPS.__applyTwoSiteGate__')
    ps = [x.arg for x in fn.node.args.args] if isinstance(fn, Fn) else ['self', 'gate', 'site', 'Dmax', 'thresh']
    d = dict(zip(ps, args))
    d.update(kw)
    g = d.get('gate')
    s = ops.scal(I, d['site'])
    s = I.norm(s).as_int() if s is not None else None
    if s is None or not isinstance(g, Opq) or g.key not in I.log.gates:
        raise Undecided('gate application')
    m, n, tau = I.log.gates[g.key]
    if m != s or n != s + 1:
        raise Bad('the gate of bond (%d,%d) is applied at site %d' % (m, n, s))
    nn = len(I.finite(fld(I, d['self'], '_tensors')))
    if not 0 <= s < nn - 1:
        raise Bad('a gate is applied at site %d of a chain of %d sites' % (s, nn))
    for nm, want in (('Dmax', I.Dmax), ('thresh', I.thr)):
        v = ops.scal(I, d.get(nm)) if d.get(nm) is not None else None
        if v is None or not (v - want).is_zero():
            raise Bad('gate at site %d: %s is %s instead of the value %s of the call' % (s, nm, short(I.vkey(d.get(nm))), want))
    I.log.apps.append((s, tau, d['self']))
    k = len(I.log.apps)
    return (P('tw%d' % k), P('b:D%d' % k))


def m_save(I, args, kw, node):
    """writing the engine (or its state) to a file: remember what had been applied and what the engine says"""
    o = args[0]
    e = I.log.eng
    I.log.saves.append((list(I.log.apps), ops.scal(I, I.getattr(e, 'time', node)), o))
    return None


MOD = {HAM + '.MPO.twoSiteGate': m_gate, MPS + '.MPS.__applyTwoSiteGate__': m_apply, ENG + '.Container.save': m_save}


def mpo_obj(I, W, obc=True):
    m = prog().mods[HAM]
    dt = ops.join_dt(*[ops.dt_of(I, w) for w in W])
    return I.new(Inst(Cls(m.classes['MPO'], m), {'_mpo': lst(I, W), '_N': C(len(W)), '_obc': obc, '_dtype': dt}, 'H'))


def run():
    c = Check('C12')
    for n in (2, 3, 4, 5, 6):
        for steps in (0, 1, 2, 3, 5):
            for cp, keep in ((None, False), (1, False), (1, True), (2, False), (2, True), (3, False)):
                for v in (0, 1, 2):
                    if cp and steps < 2 or n > 4 and (cp not in (None, 2) or steps not in (1, 3)) or v and not (n == 3 and steps in (2, 3)):
                        continue
                    for again in (0, 1):
                        if again and (n != 3 or steps > 3 or keep):
                            continue

                        def mk(I):
                            o, W, lb, rb = E.start(I, n, True)
                            I.log = Log()
                            I.Dmax, I.thr = P('Dcap'), P('thr')
                            I.assume(P('Dcap') - ONE)
                            I.dt = P('t') * C(-1j)
                            I.nstart = []

                            def tr(I, args, kw, node):
                                I.log.eng = args[0]
                            return [o, mpo_obj(I, I.finite(W)), I.dt, C(steps), I.Dmax, I.thr, C(v)], {'track': PyFn(tr)}
                        call = 'e.doTEBD(dt=dt, numsteps=n, Dmax=D, tr_thresh=th, verbose=v%s%s)' % (', cp=%s' % cp if cp else '', ', keep_cp=%s' % keep if keep else '')
                        src = '\n e = TimeEvolutionEngine(s, h, "f")\n track(e)\n r = %s%s\n return r, e.time, e.truncatedWeight, e.iteration, e.mps' % (
                            call, '\n r = ' + call if again else '')
                        tot = steps * (1 + again)

                        def js(I, r, a, k):
                            got = normal([(x[0], x[1]) for x in I.log.apps])
                            want = strang(n, tot, I.dt)
                            if [x[0] for x in got] != [x[0] for x in want] or any(not (x[1] - y[1]).is_zero() for x, y in zip(got, want)):
                                raise Bad('%d steps apply %s, specified %s' % (tot, show(got), show(want)))

                        def jt(I, r, a, k):
                            f = I.finite(r)
                            tw, t = I.finite(f[0])
                            wt = P('abs(%s)' % P('t')) * C(tot)
                            ww = sum((P('tw%d' % (q + 1)) for q in range(len(I.log.apps))), ZERO)
                            for nm, x, w in (('returned time', t, wt), ('engine time', f[1], wt), ('returned truncated weight', tw, ww), ('engine truncated weight', f[2], ww),
                                             ('iteration counter', f[3], C(tot))):
                                same(I, x, w, nm)

                        def jv(I, r, a, k):
                            for apps, t, o in I.log.saves:
                                if t is None:
                                    raise Unk('recorded time')
                                got = normal([(x[0], x[1]) for x in apps])
                                for q in range(tot + 1):
                                    if (t - P('abs(%s)' % P('t')) * C(q)).is_zero():
                                        break
                                else:
                                    raise Bad('the recorded time %s is no whole number of steps' % t)
                                want = strang(n, q, I.dt)
                                if [x[0] for x in got] != [x[0] for x in want] or any(not (x[1] - y[1]).is_zero() for x, y in zip(got, want)):
                                    raise Bad('state written at time %s has had %s applied, specified %s' % (t, show(got), show(want)))
                            full = (steps - 1) // cp * (1 + again) if cp else 0
                            if cp and not again and len(I.log.saves) != full:
                                raise Bad('%d states written for %d steps and a checkpoint every %d steps' % (len(I.log.saves), steps, cp))
                        f = client(src, 's,h,dt,n,D,th,v,track=0', ENG)
                        q = '%d:%dx:cp%s%s:v%d%s' % (n, steps, cp, 'k' if keep else '', v, ':again' if again else '')
                        om = {'models': dict(MOD)}
                        c.evaluate('split:' + q, ENG, f, mk, js, SPLIT, opts=om)
                        c.evaluate('counters:' + q, ENG, f, mk, jt, CNT, opts=om)
                        if cp:
                            c.evaluate('saved:' + q, ENG, f, mk, jv, SAVE, opts=om)
    c.min_ok = 10
    return c
