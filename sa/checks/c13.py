"""C13: a TDVP step evolves every site forward and every bond backward by the specified fractions, with current environments, in sweep order."""
from ..harness import *
from .. import engmodel as E

RULE = ('at every local integration the blocks are the contraction of the currently stored tensors, the integrated tensor or matrix is the current centre, and the state held '
        'afterwards is the one with the integrated tensor in its place')
STEP = 'the local integrations of one step are: site k forward by dt/2 and bond k+1 backward by dt/2 going right, the last site forward by dt, and the mirror image going left'


TIME = 'the engine reports the time of the requested number of steps, verbose or not'
SAVE = 'every state written to a file has completed a whole number of steps, the number its recorded time says'
ABS = P('abs(%s)' % P('t'))
MPSP_C = MPS + '.Container'


def seq(n, dt):
    h = dt * C(0.5)
    out = []
    for k in range(n - 1):
        out += [('tensor', k, h), ('matrix', k + 1, -h)]
    out.append(('tensor', n - 1, dt))
    for k in range(n - 2, -1, -1):
        out += [('matrix', k + 1, -h), ('tensor', k, h)]
    return out


def m_save(I, args, kw, node):
    I.track.saves.append((list(I.track.calls), I.rec(args[0]).f.get('_t0'), I.track.mps and obj_state(I, I.track.mps), I.track.expect))
    return None


def run():
    c = Check('C13')
    t = P('t')
    ODE = ('RK45', 'Radau', 'RK23', 'BDF', 'LSODA')

    def case(n, sv, obc=True, steps=1, imag=False, v=None, cp=None, again=False, pre=''):
        om = {'models': dict(E.EVOLVE)}
        om['models'][ENG + '.TimeEvolutionEngine.save'] = m_save
        om['models'][ENG + '.Container.save'] = m_save
        om['models'][MPSP_C + '.save'] = m_save

        def mk(I):
            o, W, lb, rb = E.start(I, n, obc)
            I.dt = t * (C(-1j) if not imag else -ONE)
            I.track.saves = []

            def tr(I, args, kw, node):
                I.track.mps = I.getattr(args[0], 'mps', node)
            return [o, W, lb, rb, I.dt, C(steps)], {'track': PyFn(tr)}
        opt = '%s%s%s' % ('' if sv is None else ',solver="%s"' % sv, '' if v is None else ',verbose=%d' % v, '' if cp is None else ',cp=%d' % cp)
        call = '\n e.doTDVP(dt, n%s)' % opt
        f = client('\n e = TimeEvolutionEngine(s, w, "f"%s)\n %strack(e)%s%s\n return e, e.time' % ('' if obc else ', lb, rb', pre and pre + '\n ', call, call if again else ''), 's,w,lb,rb,dt,n,track=0', ENG)
        tot = steps * (1 + again)

        def j(I, r, a, k):
            E.ray(I, obj_state(I, I.track.mps), I.track.expect if I.track.expect is not None else I.before, "final state")
            if I.track.mps == a[0]:
                raise Bad('the engine evolves the state object of the caller')
            same(I, I.arr(obj_state(I, a[0])), I.before, 'state of the caller')

        def js(I, r, a, k):
            want = seq(n, I.dt) * tot
            got = [(x[0], x[1], x[3]) for x in I.track.calls]
            for i in range(max(len(want), len(got))):
                if i >= len(got):
                    raise Bad('integration %d (%s %d by %s) is missing' % (i, want[i][0], want[i][1], want[i][2]))
                if i >= len(want):
                    raise Bad('there is an extra integration: %s %d by %s' % got[i])
                if want[i][:2] != got[i][:2] or not (want[i][2] - got[i][2]).is_zero():
                    raise Bad('integration %d is %s %d by %s, specified %s %d by %s' % ((i,) + got[i] + want[i]))

        def jt(I, r, a, k):
            unit = ABS
            same(I, I.finite(r)[1], unit * C(tot), 'engine time')

        def jv(I, r, a, k):
            for calls, t0, st, ex in I.track.saves:
                if t0 is None:
                    raise Unk('recorded time')
                q = len(calls) // len(seq(n, I.dt))
                if len(calls) != q * len(seq(n, I.dt)):
                    raise Bad('a state is written in the middle of a step')
                same(I, t0, ABS * C(q), 'time recorded with the state written after %d steps' % q)
                E.ray(I, st, ex, 'state written after %d steps' % q)
        q = '%d:%s:%dx%s%s%s%s%s' % (n, sv or 'default', steps, '' if obc else ':blocks', ':imag' if imag else '', '' if v is None else ':v%d' % v, '' if cp is None else ':cp%d' % cp, ':again' if again else '') + (pre and ':' + pre)
        c.evaluate('sweep:' + q, ENG, f, mk, j, RULE, opts=om)
        c.evaluate('step:' + q, ENG, f, mk, js, STEP, opts=om)
        if not imag:
            c.evaluate('time:' + q, ENG, f, mk, jt, TIME, opts=om)
        if cp is not None:
            c.evaluate('saved:' + q, ENG, f, mk, jv, SAVE, opts=om)

    for n in (2, 3, 4):
        for sv in ('LAN', 'SEXPMV', None):
            for obc in (True, False):
                if obc or n < 4:
                    case(n, sv, obc)
        for sv in ('LAN', 'SEXPMV'):
            case(n, sv, True, 1, True)
        case(n, 'LAN', v=0)
        case(n, 'RK45', v=2)
    for sv in ODE:
        case(2, sv)
        case(3, sv)
    for sv in ('LAN', None, 'SEXPMV'):
        for n in (2, 3):
            case(n, sv, steps=2)
    case(2, 'LAN', steps=2, again=True)
    case(3, 'SEXPMV', again=True)
    case(3, 'LAN', again=True)
    case(3, None, again=True)
    case(3, 'LAN', steps=0)
    case(2, 'LAN', steps=3, cp=1)
    case(2, 'LAN', steps=3, cp=2, v=0)
    for pre in ('e.update()', 'e.initializeTDVP()', 'e.position(2)\n e.initializeTDVP()', 'e.position(1)\n e.update()'):
        case(3, 'LAN', pre=pre)
        case(2, None, pre=pre)
    c.min_ok = 20
    return c
