"""C15: reporting options do not influence a calculation.  The same calculation is evaluated twice from equal arguments, with different verbosity (or with and without
checkpoints); results, objects, files and exceptions must be equal, and the silent run must not report progress."""
from ..harness import *
from .. import engmodel as E
import hashlib
from .. import differ as D
from . import c12, c20, c24

SAME = 'the outcome of the call (value, state, time, exception) does not depend on the verbosity'
FILES = 'the files written do not depend on the verbosity'
CPS = 'the outcome of the call does not depend on whether checkpoints are written'
QUIET = 'with verbosity 0 the amount of output does not grow with the number of steps'
NOOUT = 'with verbosity 0 nothing is reported'


def pure(name, energy):
    """a local solver: its result is a function of everything it is given"""
    def f(I, args, kw, node):
        d, vals = E.bind(I, name, args, kw, node)
        ten = vals[2] if name.startswith('evolveMatrix') else vals[3]
        t = T(I, ten)
        dims = t.legdims()
        if any(x is None for x in dims):
            raise Unk('shape of the start tensor')
        h = hashlib.sha1(repr([name] + [(k, I.vkey(v)) for k, v in sorted(d.items())]).encode()).hexdigest()[:12]
        x = I.atom_arr('sol' + h, dims, I.dt_of(ten))
        return (P('E' + h), x) if energy else x
    return f


EIG = {MF + '.' + x: pure(x, True) for x in ('eigsh', 'lanczos', 'lobpcg')}
EVO = {MF + '.evolve%s%s' % (a, b): pure('evolve%s%s' % (a, b), False) for a in ('Tensor', 'Matrix') for b in ('solve_ivp', 'Lan', 'Sexpmv')}


def files(I):
    return {k: v for k, v in getattr(I, 'files', {}).items() if not k.startswith('handle ')}


def twice(c, key, ctor, call, opts, n, obc, models=None, kinds='s', mkx=None, extra='', chk=None):
    """opts: two option strings; kinds: s - same outcome, c - same outcome (checkpoints), g - second one does not report more, q - the first one reports nothing"""
    om = {'models': dict(models or {})}

    def mk(I):
        o, W, lb, rb = E.start(I, n, obc)
        I.closed_fs = True
        I.files = {}
        I.track.saves = []
        I.log = c12.Log()

        def track(I, args, kw, node):
            I.track.mps = I.getattr(args[0], 'mps', node)
            I.log.eng = args[0]
        I.ob = [o, W, lb, rb]
        return [o, W, lb, rb] + (mkx(I) if mkx else []), {'track': PyFn(track)}
    fs = [client('\n e = %s\n track(e)\n r = e.%s\n return r, e' % (ctor, call.replace('$', x)), 's,w,lb,rb%s,track=0' % extra, ENG) for x in opts]

    def outcome(I, r, args):
        return D.picture(I, (r, args[0], tuple((x[0], x[1]) for x in I.log.apps)))

    def written(I, r, args):
        return D.picture(I, tuple(x for k in sorted(files(I)) for x in (k, files(I)[k])))
    two = lambda key, out, rule: D.differ(c, key, fs[1], mk, mk, out, rule, opts[0], opts[1], opts=om, fn1=fs[0])
    if 's' in kinds:
        two('same:' + key, outcome, SAME)
        two('files:' + key, written, FILES)
    if 'c' in kinds:
        two('checkpoint:' + key, outcome, CPS)

    def count(I):
        return sum(1 for e in I.events if e.kind == 'output')

    def jq(I, r, a, k):
        if count(I):
            raise Bad('%d lines are written with %s' % (count(I), opts[0]))
    if 'q' in kinds:
        c.evaluate('silent:' + key, ENG, fs[0], mk, jq, NOOUT, opts=om)
    if 'g' in kinds:
        def cnt(I, r, args):
            return ('number', str(count(I)))
        two('quiet:' + key, cnt, QUIET)


def run():
    c = Check('C15')
    # ---- ground-state sweeps
    for m, nm in (('simulate', 'single-site'), ('simulateTwoSite', 'two-site')):
        for n in (2, 3):
            for obc in (True, False):
                ctor = 'DMRGengine(s, w, "f")' if obc else 'DMRGengine(s, w, "f", lb, rb)'
                for v in (1, 2):
                    for sv in ('AR', 'LAN', 'LOBPCG') if n == 3 and obc and v == 2 else ('AR',):
                        q = '%s:%d:v%d:%s%s' % (nm, n, v, sv, '' if obc else ':blocks')
                        twice(c, q, ctor, m + '(Nmax=2, cp=1, solver="%s", $)' % sv, ('verbose=0', 'verbose=%d' % v), n, obc, models=EIG)
                if obc:
                    twice(c, '%s:%d' % (nm, n), ctor, m + '(verbose=0, cp=None, Econv=-1.0, $)', ('Nmax=1', 'Nmax=2'), n, obc, models=EIG, kinds='gq')
                    for cp in (1, 2):
                        twice(c, '%s:%d:cp%d' % (nm, n, cp), ctor, m + '(Nmax=2, $)', ('cp=None', 'cp=%d' % cp), n, obc, models=EIG, kinds='c')
    # ---- time evolution
    t = [P('t') * C(-1j), P('Dcap'), P('thr')]

    def ev(I):
        I.assume(P('Dcap') - ONE)
        I.Dmax, I.thr = t[1:]
        o = I.ob
        return list(t) + [c12.mpo_obj(I, I.finite(o[1]))]
    TE = {k: v for k, v in c12.MOD.items() if not k.endswith('.save')}
    for n in (2, 3):
        for v in (1, 2):
            for cp in ('None', '1'):
                twice(c, 'tebd:%d:v%d:cp%s' % (n, v, cp), 'TimeEvolutionEngine(s, h, "f")', 'doTEBD(dt=dt, numsteps=3, Dmax=D, tr_thresh=th, cp=%s, $)' % cp, ('verbose=0', 'verbose=%d' % v), n, True,
                      models=TE, mkx=ev, extra=',dt,D,th,h', kinds='s' if cp == '1' else 'sq')
                for sv in ('LAN', 'SEXPMV', 'RK45'):
                    twice(c, 'tdvp:%d:v%d:cp%s:%s' % (n, v, cp, sv), 'TimeEvolutionEngine(s, w, "f")', 'doTDVP(dt, 3, solver="%s", cp=%s, $)' % (sv, cp), ('verbose=0', 'verbose=%d' % v), n, True,
                          models=EVO, mkx=ev, extra=',dt,D,th,h', kinds='s' if cp == '1' else 'sq')
        for sv in ('LAN', 'SEXPMV', 'RK45'):
            for cp, keep in ((1, False), (1, True), (2, False)):
                twice(c, 'tdvp:%d:%s:cp%d%s' % (n, sv, cp, 'k' if keep else ''), 'TimeEvolutionEngine(s, w, "f")', 'doTDVP(dt, 3, solver="%s", verbose=0, $)' % sv, ('cp=None', 'cp=%d, keep_cp=%s' % (cp, keep)), n, True,
                      models=EVO, mkx=ev, extra=',dt,D,th,h', kinds='c')
    # ---- infinite-system optimiser: sweeps and growth steps are functions of what they are given
    for two in (False, True):
        nm = '__simulateTwoSite__' if two else '__simulate__'

        def m_sweep(I, args, kw, node):
            I.log.append(('sweep', len(args)) + tuple((k, kw[k]) for k in sorted(kw) if k not in ('verbose', 'cp')))
            return P('E%d' % len(I.log))

        def m_up(I, args, kw, node):
            I.log.append(('grow',) + tuple(args[1:]) + tuple((k, kw[k]) for k in sorted(kw)))
            return P('Dnew')

        def mk(I):
            I.log = []
            I.files = {}
            return [c24.engine(I, c24.start(I, 2, 0))], {}
        om = {'models': {ENG + '.DMRGengine.' + nm: m_sweep, ENG + '.IDMRGengine.__update__': m_up}}

        def outcome(I, r, args):
            return D.picture(I, (r, args[0], tuple(I.log)))

        def written(I, r, args):
            return D.picture(I, tuple(x for k in sorted(files(I)) for x in (k, files(I)[k])))

        def cnt(I, r, args):
            return ('number', str(sum(1 for e in I.events if e.kind == 'output')))
        call = lambda x: client('\n return e.%s(%s)' % ('simulateTwoSite' if two else 'simulate', x), 'e', ENG)
        q = 'two' if two else 'one'
        for v in (1, 2):
            for rg in (0, 2):
                a, b = ['Nmax=3, NUC=2, cp=2, regaugestep=%d, verbose=%d' % (rg, x) for x in (0, v)]
                D.differ(c, 'same:infinite:%s:v%d:rg%d' % (q, v, rg), call(b), mk, mk, outcome, SAME, 'verbose=0', 'verbose=%d' % v, opts=om, fn1=call(a))
                D.differ(c, 'files:infinite:%s:v%d:rg%d' % (q, v, rg), call(b), mk, mk, written, FILES, 'verbose=0', 'verbose=%d' % v, opts=om, fn1=call(a))
        for rg in (0, 2):
            a, b = ['Nmax=3, NUC=2, cp=%s, regaugestep=%d, verbose=0' % (x, rg) for x in ('None', '2')]
            D.differ(c, 'checkpoint:infinite:%s:rg%d' % (q, rg), call(b), mk, mk, outcome, CPS, 'cp=None', 'cp=2', opts=om, fn1=call(a))
            a, b = ['Nmax=%d, NUC=2, cp=None, regaugestep=%d, verbose=0' % (x, rg) for x in (1, 4)]
            D.differ(c, 'quiet:infinite:%s:rg%d' % (q, rg), call(b), mk, mk, cnt, QUIET, 'Nmax=1', 'Nmax=4', opts=om, fn1=call(a))
    # ---- Krylov routines
    Z = c20.D
    for m, n, brk in ((1, 3, False), (2, 4, False), (2, 4, True)):
        M = {(i, j): P('g%d_%d' % (i, j)) for i in range(n) for j in range(n) if j >= i}
        for i in range(1, n):
            if not (brk and i == m):
                M[(i, i - 1)] = P('b%d' % i)

        def mk(I):
            I.lib = c20.Lib()
            c20.COMPLEX_ATOMS.update('g%d_%d' % (i, j) for i in range(n) for j in range(n))
            I.round_div = I.unroll = True
            I.hsteps = ['h1', 'h2', 'h3']
            for i in range(1, n):
                I.assume(P('b%d' % i) - ONE)
            I.assume(P('s') - ONE)
            ph = I.ph = c20.turn(I, n, True, True)
            A = I.arr(Z.tensor(c20.turned(M, ph), (n, n)), DT_CPLX)
            v = I.arr(Z.tensor({(0,): P('s') * ph(0)}, (n,)), DT_CPLX)
            return [A, v, C(-2), C(1)], {}
        for a in ('verbose=True', 'itrace=1', 'verbose=True, itrace=1'):
            fs = [client('\n return gexpmv(A, v, t, an, m=%d, mxstep=1, %s)' % (m, x), 'A,v,t,an', 'lib.mpslib.sexpmv') for x in ('verbose=False, itrace=0', a)]
            D.differ(c, 'same:expmv:%d%s:%s' % (m, ':breakdown' if brk else '', a.replace(', ', '+')), fs[1], mk, mk, lambda I, r, k: D.picture(I, (r, k[1])), SAME, 'verbose=False', a, opts=c20.OPTS, max_paths=96, fn1=fs[0])
    src = '\n e = LanczosEngine(lambda x: np.dot(M,x), lambda a,b: np.dot(a,b), np.zeros, Ndiag=1, ncv=2, numeig=1, delta=d, deltaEta=d)\n return e.__simulate__(v, verbose=%s)'
    sr2 = '\n e = LanczosTimeEvolution(lambda x: np.dot(M,x), lambda a,b: np.dot(a,b), np.zeros, ncv=2, delta=d)\n return e.__doStep__(v, d, verbose=%s)'
    for nm, q in (('lanczos', src), ('lanczos step', sr2)):
        def mk(I):
            I.lib = c20.Lib()
            ph = I.ph = c20.turn(I, 4, False, False)
            M = I.arr(Z.tensor(c20.turned(c20.tri(4), ph), (4, 4)), DT_FLOAT)
            return [M, I.arr(Z.tensor({(0,): P('s') * ph(0)}, (4,)), DT_FLOAT), C(1) / C(1000)], {}
        fs = [client(q % x, 'M,v,d', c20.LAN) for x in (False, True)]
        D.differ(c, 'same:' + nm, fs[1], mk, mk, lambda I, r, k: D.picture(I, (r, k[1])), SAME, 'verbose=False', 'verbose=True', opts=c20.OPTS, max_paths=96, fn1=fs[0])
    c.min_ok = 20
    return c
