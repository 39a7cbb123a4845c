"""C21: the local eigensolvers and integrators hand the effective Hamiltonian of their arguments to the library and return its answer in the leg order of the start tensor."""
from ..harness import *
from .. import spec as S

MAP = 'the linear map given to the library routine, applied to any vector, is the effective Hamiltonian of the arguments (times the factor the routine expects)'
START = 'the start vector is the given tensor, flattened in the order in which the map reads it'
SEL = 'the returned value and vector belong together and are the lowest ones, the vector reshaped to the legs of the start tensor'
EXP = 'the result is exp(tau*H) applied to the given tensor: step size, phase and direction of time are passed on unchanged'


class Rec:
    def __init__(self):
        self.map = self.v0 = self.which = self.t = self.k = None
        self.out = None
        self.n = 0


def apply(I, f, dim, node):
    """the map on a fresh vector"""
    x = I.atom_arr('x', [dim])
    I.lib.x = T(I, x)
    if isinstance(f, Ref) and I.rec(f).kind == 'obj' and 'matvec' in I.rec(f).f:
        I.lib.shape = I.rec(f).f.get('shape')
        f = I.rec(f).f['matvec']
    r = I.call(f, [x], {}, node)
    return T(I, r)


def note(I, mp, v0, node):
    L = I.lib
    L.n += 1
    L.v0 = v0
    d = T(I, v0).legdims()
    if len(d) != 1:
        raise Bad('the start vector has rank %d' % len(d))
    L.map = apply(I, mp, d[0], node)
    return d[0]


def answer(I, d, k, node, lists=False):
    """k values in ascending order and the vectors that belong to them"""
    kk = k.as_int() if k is not None else None
    if kk is None:
        raise Undecided('number of states')
    I.lib.k = kk
    I.lib.eta = [P('eta%d' % q) for q in range(kk)]
    for q in range(1, kk):
        I.facts.append(I.lib.eta[q] - I.lib.eta[q - 1] - ONE)
    I.lib.U = [I.atom_arr('U%d' % q, [d]) for q in range(kk)]
    e = ops.call_ext(I, 'numpy.array', [lst(I, list(I.lib.eta))], {}, node)
    if lists:
        return e, lst(I, list(I.lib.U))
    return e, ops.call_ext(I, 'numpy.transpose', [ops.call_ext(I, 'numpy.array', [lst(I, list(I.lib.U))], {}, node)], {}, node)


def m_eigsh(I, args, kw, node):
    d = note(I, args[0], kw.get('v0'), node)
    I.lib.which = kw.get('which', args[2] if len(args) > 2 else 'LM')
    return answer(I, d, ops.scal(I, kw.get('k', args[1] if len(args) > 1 else C(6))), node)


def m_lobpcg(I, args, kw, node):
    X = kw.get('X', args[1] if len(args) > 1 else None)
    t = T(I, X)
    d = t.legdims()
    I.lib.v0 = I.arr(N.fix(t, 1, 0))
    I.lib.n += 1
    I.lib.map = apply(I, args[0], d[0], node)
    I.lib.which = 'SA' if kw.get('largest', args[6] if len(args) > 6 else True) is False else 'LA'
    return answer(I, d[0], d[1], node)


def m_lan(I, args, kw, node):
    """LanczosEngine.__simulate__: returns the lowest values and vectors in ascending order"""
    e = args[0]
    v0 = kw.get('initialstate', args[1] if len(args) > 1 else None)
    d = note(I, I.rec(e).f.get('_matvec'), v0, node)
    k = ops.scal(I, I.rec(e).f.get('_numeig'))
    I.lib.which = 'SA'
    return answer(I, d, k, node, True) + (True,)


def m_expmv(I, mp, v, t, node):
    d = note(I, mp, v, node)
    I.lib.t = ops.scal(I, t)
    return I.atom_arr('U', [d])


def m_step(I, args, kw, node):
    e = args[0]
    st = kw.get('state', args[1] if len(args) > 1 else None)
    dt = kw.get('dt', args[2] if len(args) > 2 else None)
    return m_expmv(I, I.rec(e).f.get('_matvec'), st, dt, node)


def m_gexpmv(I, args, kw, node):
    fn = prog().func(SEX, 'gexpmv')
    ps = [x.arg for x in fn.node.args.args] if isinstance(fn, Fn) else ['A', 'v', 't']
    d = dict(zip(ps, args))
    d.update(kw)
    x = m_expmv(I, d[ps[0]], d[ps[1]], d[ps[2]], node)
    return (x, True, ONE, ZERO, ZERO)


def m_ivp(I, args, kw, node):
    names = ['fun', 't_span', 'y0', 'method', 't_eval', 'dense_output', 'events', 'vectorized']
    d = dict(zip(names, args))
    d.update({k: v for k, v in kw.items() if k in names})
    y0 = d['y0']
    dims = T(I, y0).legdims()
    x = I.atom_arr('x', [dims[0]])
    I.lib.x = T(I, x)
    I.lib.n += 1
    I.lib.v0 = y0
    r = I.call(d['fun'], [P('time'), x], {}, node)
    # exp(G t) with G = -i H : report the exponent as i*G
    I.lib.map = N.scale(T(I, r), C(1j))
    ts = I.finite(d['t_span'])
    a, b = (ops.scal(I, z) for z in ts)
    if a is None or b is None or d.get('t_eval') is not None:
        raise Unk('integration interval')
    I.lib.t = (b - a) * C(-1j)
    I.lib.method = d.get('method', 'RK45')
    # the last of the computed columns is the solution at the end of the interval
    I.lib.U = [I.atom_arr('U%d' % q, [dims[0]]) for q in range(4)]
    y = ops.call_ext(I, 'numpy.transpose', [ops.call_ext(I, 'numpy.array', [lst(I, list(I.lib.U))], {}, node)], {}, node)
    return I.new(Inst(ops._EXTCLS('OdeResult'), {'y': y, 't': I.atom_arr('ts', [C(4)], DT_FLOAT), 'success': True}, 'sol'))


LIB = {'ext:scipy.sparse.linalg.eigsh': m_eigsh, 'ext:scipy.sparse.linalg.lobpcg': m_lobpcg, LAN + '.LanczosEngine.__simulate__': m_lan,
       LAN + '.LanczosTimeEvolution.__doStep__': m_step, SEX + '.gexpmv': m_gexpmv, 'ext:scipy.integrate.solve_ivp': m_ivp}


def run():
    c = Check('C21')

    def site(I):
        l, r, d = P('b:l'), P('b:r'), P('p:s')
        I.lib = Rec()
        L, W, R = env(I, 'L', l, l), mpot(I, 'W', P('m:L'), P('m:R'), d, d), env(I, 'R', r, r, P('m:R'))
        L = env(I, 'L', l, l, P('m:L'))
        A = tens(I, 'A', l, r, d)
        I.H = lambda x: S.h1(T(I, L), N.reshape(x, [l, r, d]), T(I, W), T(I, R))
        I.flat = [l, r, d]
        I.start = T(I, A)
        return L, W, R, A

    def bond(I):
        l = P('b:l')
        I.lib = Rec()
        L, R = env(I, 'L', l, l, P('m:L')), env(I, 'R', l, l, P('m:L'))
        M = mat(I, 'M', l, l)
        I.H = lambda x: S.h0(T(I, L), N.reshape(x, [l, l]), T(I, R))
        I.flat = [l, l]
        I.start = T(I, M)
        return L, R, M

    def zero(I, pos):
        l, d = P('b:l'), P('p:s')
        I.lib = Rec()
        W = mpot(I, 'W', P('m:L'), P('m:R'), d, d)
        A = tens(I, 'A', l, l, d)
        if pos == 'right':
            L, R = env(I, 'L', l, l, P('m:L')), env(I, 'R', l, l, P('m:R'))
            L1, R1 = S.add_layer(T(I, L), T(I, A), T(I, W), T(I, A), 1), T(I, R)
        else:
            L, R = env(I, 'L', l, l, P('m:L')), env(I, 'R', l, l, P('m:R'))
            L1, R1 = T(I, L), S.add_layer(T(I, R), T(I, A), T(I, W), T(I, A), -1)
        M = mat(I, 'M', l, l)
        I.H = lambda x: S.h0(L1, N.reshape(x, [l, l]), R1)
        I.flat = [l, l]
        I.start = T(I, M)
        return L, W, A, R, M

    def once(I):
        if I.lib.n != 1:
            raise Bad('the library routine is called %d times' % I.lib.n)

    def jmap(I, r, a, k, fac=None):
        once(I)
        want = N.reshape(I.H(I.lib.x), [None])
        if fac is not None:
            want = N.scale(want, fac(I))
        same(I, I.arr(I.lib.map), want, 'the linear map')

    def jstart(I, r, a, k):
        once(I)
        if I.lib.v0 is None:
            raise Unk('start vector')
        same(I, I.lib.v0, N.reshape(I.start, [None]), 'the start vector')

    def jsel(I, r, a, k, number=None):
        once(I)
        if I.lib.which != 'SA':
            raise Bad('the solver is asked for %r instead of the smallest algebraic values' % (I.lib.which,))
        f = I.finite(r)
        if f is None or len(f) != 2:
            raise Bad('returns %s instead of value and vector' % short(I.vkey(r)))
        es, vs = [f[0]], [f[1]]
        if number is not None:
            es, vs = ops.entries_of(I, f[0]), I.finite(f[1])
            if es is None or vs is None:
                raise Unk('lists of values and vectors')
            if len(es) != number or len(vs) != number:
                raise Bad('%d values and %d vectors instead of %d' % (len(es), len(vs), number))
        for q, (e, v) in enumerate(zip(es, vs)):
            se = ops.scal(I, e)
            if se is None:
                ee = ops.entries_of(I, e)
                if ee is None or len(ee) != 1:
                    raise Unk('returned value %s' % short(I.vkey(e)))
                se = ops.scal(I, ee[0])
            if not (se - I.lib.eta[q]).is_zero():
                raise Bad('value number %d is %s, the solver found %s' % (q, short(se.key()), I.lib.eta[q]))
            same(I, v, N.reshape(T(I, I.lib.U[q]), I.flat), 'vector number %d' % q)

    def many(key, name, mk, kws):
        for kw in kws:
            def mk2(I):
                a, k = mk(I)
                k.update({x: C(y) for x, y in kw.items()})
                return a, k
            n = kw.get('numvecs_returned', kw.get('numeig', 1))
            if 'numvecs' in kw:
                n = min(n, kw['numvecs'])
            elif 'numvecs_returned' in kw and name != 'lobpcg':
                n = 1
            c.evaluate('several:%s:%s' % (key, ','.join('%s=%d' % x for x in sorted(kw.items()))), MF, name, mk2,
                       lambda I, r, a, k, n=n: jsel(I, r, a, k, n if kw.get('numvecs_returned', kw.get('numeig', 1)) > 1 else None), SEL, opts={'models': dict(LIB)})

    def solver(key, name, mk, sels=True):
        c.evaluate('map:' + key, MF, name, mk, jmap, MAP, opts={'models': dict(LIB)})
        c.evaluate('start:' + key, MF, name, mk, jstart, START, opts={'models': dict(LIB)})
        if sels:
            c.evaluate('select:' + key, MF, name, mk, jsel, SEL, opts={'models': dict(LIB)})

    for name in ('eigsh', 'lanczos', 'lobpcg'):
        solver(name, name, lambda I: (list(site(I)), {}))
    for name in ('eigshbond', 'lanczosbond'):
        for pos in ('left', 'right'):
            def mk(I):
                L, W, A, R, M = zero(I, pos)
                return [L, W, A, R, M, pos], {}
            solver(name + ':' + pos, name, mk)

    V = [{'numvecs': 3}, {'numvecs': 3, 'numvecs_returned': 2}, {'numvecs': 2, 'numvecs_returned': 2}, {'numvecs': 2, 'numvecs_returned': 3}]
    many('eigsh', 'eigsh', lambda I: (list(site(I)), {}), V)
    many('lobpcg', 'lobpcg', lambda I: (list(site(I)), {}), [{'numvecs_returned': 2}])
    many('lanczos', 'lanczos', lambda I: (list(site(I)), {}), [{'numeig': 2}])
    for pos in ('left', 'right'):
        def mz(I):
            L, W, A, R, M = zero(I, pos)
            return [L, W, A, R, M, pos], {}
        many('eigshbond:' + pos, 'eigshbond', mz, V)
        many('lanczosbond:' + pos, 'lanczosbond', mz, [{'numeig': 2}])

    def mkb(I):
        return list(bond(I)), {}
    solver('eigshbondsimple', 'eigshbondsimple', mkb)

    def jexp(I, r, a, k):
        once(I)
        t = I.lib.t
        if t is None:
            raise Unk('time')
        # map = H * factor, time = t: factor*t must be the requested exponent
        want = N.reshape(I.H(I.lib.x), [None])
        same(I, I.arr(N.scale(I.lib.map, t)), N.scale(want, I.tau), 'exponent (map times step)')
        same(I, I.lib.v0, N.reshape(I.start, [None]), 'the start vector')

    def jres(I, r, a, k):
        once(I)
        t = T(I, r)
        if t.ndim != len(I.flat):
            raise Bad('the result has rank %d instead of %d' % (t.ndim, len(I.flat)))
        u = T(I, I.lib.U[-1]) if hasattr(I.lib, 'method') else N.Ten.atom('U', [T(I, I.lib.v0).legdims()[0]])
        same(I, r, N.reshape(u, I.flat), 'the result')
    for nm, tau, ex in (('Sexpmv', 'imag', None), ('Sexpmv', 'real', None), ('Lan', 'imag', None), ('Lan', 'real', None), ('solve_ivp', 'real', C(-1j)), ('Radau', 'real', C(-1j))):
        for kind in ('Tensor', 'Matrix'):
            def mk(I):
                a = list(site(I)) if kind == 'Tensor' else list(bond(I))
                t = P('t') * (C(-1j) if tau == 'imag' else ONE)
                I.tau = t * (ex if ex is not None else ONE)
                return a + [t], {}
            name = 'evolve%s%s' % (kind, nm)
            c.evaluate('exp:%s:%s' % (name, tau), MF, name, mk, jexp, EXP, opts={'models': dict(LIB)})
            c.evaluate('result:%s:%s' % (name, tau), MF, name, mk, jres, SEL, opts={'models': dict(LIB)})
    c.min_ok = 5
    return c
