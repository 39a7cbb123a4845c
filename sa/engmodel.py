"""Models of the local solvers used by the sweep engines.  Each model is a checkpoint: it verifies that the arguments the engine hands over describe
the current state (environments = exact contraction of the stored tensors, start tensor = current centre), and returns a fresh symbolic solution.
The represented state is tracked: what the engine holds at the next call must be the state with the previous local solution put in its place."""
from .harness import *
from . import spec as S
from . import engmodel as _self


class Track:
    def __init__(self):
        self.mps = None        # state object of the engine
        self.mpo = None        # list of Ten
        self.lb = self.rb = None
        self.expect = None     # represented vector expected now (up to a positive factor), or None at the start
        self.calls = []        # (kind, site, dt)
        self.n = 0


def ray(I, got, want, what):
    from .checks.c04 import ray as r
    r(I, got, want, what)


def left_env(I, t, n):
    ts = tlist(I, t.mps)
    return S.env_chain(t.lb, ts[:n], t.mpo[:n], ts[:n], 1)


def right_env(I, t, n):
    """environment of the sites > n-1 (sites n..N-1)"""
    ts = tlist(I, t.mps)
    return S.env_chain(t.rb, ts[n:], t.mpo[n:], ts[n:], -1)


def locate(I, t, W):
    """the site whose operator tensor was handed over"""
    k = T(I, W).key()
    f = [n for n, w in enumerate(t.mpo) if w.key() == k]
    return f[0] if len(f) == 1 else None


def embed(I, t, n, m, ten, two=False):
    """vector with the local tensor at sites n..m-1 (m-n = 0: matrix at bond n)"""
    ts = tlist(I, t.mps)
    if m == n:
        if n < len(ts):
            ts[n] = N.tensordot(ten, ts[n], [1], [0])
        else:
            ts[n - 1] = N.transpose(N.tensordot(ts[n - 1], ten, [1], [0]), [0, 2, 1])
        return S.mps_state(ts)
    if m == n + 1:
        ts[n] = ten
        return S.mps_state(ts)
    l = S.mps_state(ts[:n]) if n else None
    # ten: [l, r, p1, p2]
    out = N.transpose(ten, [0, 2, 3, 1])
    if l is not None:
        out = N.tensordot(l, out, [l.ndim - 1], [0])
    if m < len(ts):
        r = S.mps_state(ts[m:])
        out = N.tensordot(out, r, [out.ndim - 1], [0])
    return out


def checkpoint(I, kind, n, m, L, R, start, dt=None):
    t = I.track
    same(I, L, left_env(I, t, n), '%s at site %d: left environment' % (kind, n))
    same(I, R, right_env(I, t, m), '%s at site %d: right environment' % (kind, n))
    st = embed(I, t, n, m, start)
    if t.expect is not None:
        ray(I, st, t.expect, '%s at site %d: state described by the start tensor' % (kind, n))
    t.n += 1
    t.calls.append((kind, n, m, dt))


def fresh_like(I, ten, nm):
    t = I.track
    d = ten.legdims()
    if d is None or any(x is None for x in d):
        raise Unk('shape of the start tensor')
    return I.atom_arr('%s%d' % (nm, t.n), d)


def bind(I, name, args, kw, node):
    """arguments by parameter name, using the signature found in the source; TypeError if they do not fit"""
    fn = prog().func(MF, name)
    if not isinstance(fn, Fn):
        raise Undecided('anchor %s' % name)
    a = fn.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(ps, args))
    ko = [x.arg for x in a.kwonlyargs]
    bad = len(args) > len(ps) and not a.vararg or any(k in d or k not in ps + ko and not a.kwarg for k in kw)
    d.update(kw)
    need = ps[:len(ps) - len(a.defaults)]
    if bad or any(x not in d for x in need):
        I.event('arity', '%s called with %d positional and keyword arguments %s, signature (%s)' % (name, len(args), sorted(kw), ', '.join(ps)), node)
        raise Raised('TypeError', node, I.stack[-1] if I.stack else None)
    return d, [d.get(x) for x in ps]


def eig_model(name):
    return lambda I, args, kw, node: _eig(I, name, args, kw, node)


def _eig(I, name, args, kw, node):
    """eigsh / lanczos / lobpcg (L, mpo, R, start, ...) -> (energy, tensor)"""
    d, vals = bind(I, name, args, kw, node)
    L, W, R, A = vals[:4]
    t = I.track
    n = locate(I, t, W)
    tw = T(I, W)
    if n is not None:
        checkpoint(I, 'solver', n, n + 1, L, R, T(I, A))
        x = fresh_like(I, T(I, A), 'opt')
        t.expect = embed(I, t, n, n + 1, T(I, x))
        t.last = x
        return (P('E%d' % t.n), x)
    # two-site problem: operator = joined neighbouring tensors
    for n in range(len(t.mpo) - 1):
        a, b = t.mpo[n], t.mpo[n + 1]
        w = N.transpose(N.tensordot(a, b, [1], [0]), [0, 3, 1, 4, 2, 5])
        d = w.legdims()
        w = N.reshape(w, [d[0], d[1], d[2] * d[3], d[4] * d[5]])
        if w.key() == tw.key():
            d1, d2 = a.legdims()[2], b.legdims()[2]
            ta = T(I, A)
            da = ta.legdims()
            s = N.reshape(ta, [da[0], da[1], d1, d2])
            checkpoint(I, 'solver', n, n + 2, L, R, s)
            x = I.atom_arr('opt%d' % t.n, [da[0], da[1], d1, d2])
            t.expect = embed(I, t, n, n + 2, T(I, x))
            return (P('E%d' % t.n), I.arr(N.reshape(T(I, x), da), I.dt_of(x)))
    raise Bad('the operator handed to the solver is not the one of a site or of two neighbouring sites: %s' % short(tw.key()))


EIG = {MF + '.' + x: eig_model(x) for x in ('eigsh', 'lanczos', 'lobpcg')}


def evolve_model(name, kind):
    def f(I, args, kw, node):
        d, vals = bind(I, name, args, kw, node)
        t = I.track
        if kind == 'tensor':
            L, W, R, A, tau = vals[:5]
            n = locate(I, t, W)
            if n is None:
                raise Bad('the operator handed to the local integrator is not the one of a site: %s' % short(I.vkey(W)))
            m = n + 1
        else:
            L, R, A, tau = vals[:4]
            # the bond is the one at which the recorded centre sits while the matrix is evolved: identified by the left block
            n = None
            k = T(I, L).key()
            for b in range(len(t.mpo) + 1):
                if left_env(I, t, b).key() == k:
                    n = b
            if n is None:
                raise Bad('the left block handed to the bond integrator is the block of no bond: %s' % short(k))
            m = n
        tau = ops.scal(I, tau)
        if tau is None:
            raise Unk('time step')
        if 'ivp' in name or 'Radau' in name:
            tau = tau * C(-1j)          # these integrate y' = -i H y
        checkpoint(I, kind, n, m, L, R, T(I, A), tau)
        x = fresh_like(I, T(I, A), 'ev')
        t.expect = embed(I, t, n, m, T(I, x))
        t.after = I.rec
        return x
    return f


EVOLVE = {MF + '.evolve%s%s' % (a, b): evolve_model('evolve%s%s' % (a, b), a.lower()) for a in ('Tensor', 'Matrix') for b in ('solve_ivp', 'Lan', 'Sexpmv')}



def chain_args(I, n, obc=True, nm='A'):
    """state object, operator list and boundary blocks"""
    from .checks.c04 import chainT, THR
    ts = chainT(I, n, obc, nm)
    o = mps_obj(I, ts, position=n, obc=True, label='S', fields=dict(THR))
    ms = [P('m:%d' % k) for k in range(n + 1)]
    if obc:
        ms[0] = ms[n] = ONE
    W = [mpot(I, 'W%d' % k, ms[k], ms[k + 1], P('p:%d' % k), P('p:%d' % k)) for k in range(n)]
    return o, W, ms


def start(I, n, obc=True):
    o, W, ms = chain_args(I, n, obc)
    t = Track()
    t.mpo = [T(I, w) for w in W]
    if obc:
        one = N.expand(N.expand(N.expand(N.scalar(ONE), 0), 0), 0) if hasattr(N, 'scalar') else S.ones3()
        t.lb = t.rb = one
        lb = rb = None
    else:
        lb, rb = env(I, 'lb', P('b:A0'), P('b:A0'), ms[0]), env(I, 'rb', P('b:A%d' % n), P('b:A%d' % n), ms[n])
        t.lb, t.rb = T(I, lb), T(I, rb)
    I.track = t
    I.before = obj_state(I, o)
    return o, lst(I, W), lb, rb
