"""Models of the library solvers used for infinite systems: sparse eigenvectors and linear equations."""
from .harness import *
from . import net as N


class Rec:
    def __init__(self):
        self.calls = []


def lib(I):
    if not hasattr(I, 'lib'):
        I.lib = Rec()
    return I.lib


def apply(I, f, dim, node, name='x'):
    if hasattr(I, 'split'):      # the vector is a flattened matrix
        x = I.arr(N.reshape(N.Ten.atom(name, I.split), [None]), Dt([name]))
    else:
        x = I.atom_arr(name, [dim])
    shape = None
    if isinstance(f, Ref) and I.rec(f).kind == 'obj' and 'matvec' in I.rec(f).f:
        shape = I.rec(f).f.get('shape')
        f = I.rec(f).f['matvec']
    return T(I, x), T(I, I.call(f, [x], {}, node)), shape


def opdim(I, f):
    s = I.rec(f).f.get('shape') if isinstance(f, Ref) and I.rec(f).kind == 'obj' else None
    s = I.finite(s) if s is not None else None
    if not s:
        raise Undecided('dimension of the operator')
    return [ops.scal(I, q) for q in s]


def m_eigs(I, args, kw, node):
    """values with real parts in descending order (all real), one vector for each"""
    L = lib(I)
    d = opdim(I, args[0])
    if any(q is None for q in d):
        raise Undecided('dimension of the operator')
    x, y, _ = apply(I, args[0], d[1], node)
    k = ops.scal(I, kw.get('k', args[1] if len(args) > 1 else C(6)))
    kk = k.as_int() if k is not None else None
    if kk is None or kk > 8:
        raise Undecided('number of eigenvectors')
    c = len(L.calls)
    eta = [P('ev%d.%d' % (c, q)) for q in range(kk)]
    I.facts.append(eta[-1] - ONE)
    for q in range(1, kk):
        I.facts.append(eta[q - 1] - eta[q] - ONE)
    U = [I.atom_arr('vec%d.%d' % (c, q), [d[0]], Dt(['vec%d' % c])) for q in range(kk)]
    perm = list(range(kk))[::-1]            # the order in which the library reports them is not specified: ascending here
    e = ops.call_ext(I, 'numpy.array', [lst(I, [eta[q] for q in perm])], {}, node)
    v = ops.call_ext(I, 'numpy.transpose', [ops.call_ext(I, 'numpy.array', [lst(I, [U[q] for q in perm])], {}, node)], {}, node)
    L.calls.append(dict(kind='eigs', x=x, y=y, which=kw.get('which', args[4] if len(args) > 4 else 'LM'), eta=eta, U=U, v0=kw.get('v0'), node=node))
    return (e, v)


def m_gmres(I, args, kw, node):
    L = lib(I)
    b = args[1] if len(args) > 1 else kw.get('b')
    t = T(I, b)
    if t.ndim != 1:
        raise Bad('the right-hand side has rank %d' % t.ndim)
    d = t.legdims()[0]
    x, y, _ = apply(I, args[0], d, node)
    sol = I.atom_arr('sol%d' % len(L.calls), [d], Dt(['sol']))
    x0 = kw.get('x0', args[2] if len(args) > 2 else None)
    L.calls.append(dict(kind='gmres', x=x, y=y, b=t, sol=T(I, sol), x0=x0, tol=kw.get('tol', args[3] if len(args) > 3 else None), node=node))
    return (sol, ZERO)


INF = {'ext:scipy.sparse.linalg.eigs': m_eigs, 'ext:scipy.sparse.linalg.lgmres': m_gmres, 'ext:scipy.sparse.linalg.gmres': m_gmres, 'ext:scipy.sparse.linalg.bicgstab': m_gmres}
