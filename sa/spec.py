"""Hand-written specification networks (the mathematical meaning of each kernel), independent of the code."""
from .harness import *


def add_layer(E, A, W, B, d):
    if d > 0:   # E[a,b,m] A[a,x,s] W[m,n,s,t] B*[b,y,t] -> [x,y,n]
        return nc([E, A, W, cj(B)], [[1, 2, 3], [1, -1, 4], [3, -3, 4, 5], [2, -2, 5]])
    return nc([E, A, W, cj(B)], [[1, 2, 3], [-1, 1, 4], [-3, 3, 4, 5], [-2, 2, 5]])


def add_elayer(E, A, B, d):
    if d > 0:
        return nc([E, A, cj(B)], [[1, 2, -3], [1, -1, 3], [2, -2, 3]])
    return nc([E, A, cj(B)], [[1, 2, -3], [-1, 1, 3], [-2, 2, 3]])


def h1(L, A, W, R):
    """one-site effective Hamiltonian: out[b,y,t] = L[a,b,m] A[a,x,s] W[m,n,s,t] R[x,y,n]"""
    return nc([L, A, W, R], [[1, -1, 2], [1, 3, 4], [2, 5, 4, -3], [3, -2, 5]])


def h0(L, M, R):
    """zero-site (bond) effective Hamiltonian"""
    return nc([L, M, R], [[1, -1, 2], [1, 3], [3, -2, 2]])


def e1(L, A, R):
    """one-site product with operator-free blocks L[a,b,m], R[x,y,m]: out[b,y,s]"""
    return nc([L, A, R], [[1, -1, 3], [1, 2, -3], [2, -2, 3]])


def opW(op):
    return N.expand(N.expand(op, 0), 0)


def env_chain(E, As, Ws, Bs, d):
    k = range(len(As)) if d > 0 else range(len(As) - 1, -1, -1)
    for n in k:
        E = add_layer(E, As[n], Ws[n], Bs[n], d) if Ws is not None and Ws[n] is not None else add_elayer(E, As[n], Bs[n], d)
    return E


def close(L, R):
    return scalar(nc([L, R], [[1, 2, 3], [1, 2, 3]]))


def scalar(t):
    t = N.simplify(t)
    p = ZERO
    for n in t.nets:
        assert not n.nodes and not any(n.outs), n
        p = p + n.coef
    return p


def ones3():
    return N.Ten([N.Net(ONE, [], [(), (), ()])], 3)


def mps_state(ts):
    """list of Ten (open chain with boundary legs kept) -> amplitude tensor [left, s0, s1, ..., right]"""
    labels, nxt = [], 1
    n = len(ts)
    for k, t in enumerate(ts):
        l = -1 if k == 0 else nxt - 1
        r = -(n + 2) if k == n - 1 else nxt
        labels.append([l, r, -(k + 2)])
        nxt += 1
    return nc(ts, labels)


def mpo_state(ws):
    """amplitude of an MPO list: [left, in0, out0, in1, out1, ..., right]"""
    labels, nxt = [], 1
    n = len(ws)
    for k, t in enumerate(ws):
        l = -1 if k == 0 else nxt - 1
        r = -(2 * n + 2) if k == n - 1 else nxt
        labels.append([l, r, -(2 * k + 2), -(2 * k + 3)])
        nxt += 1
    return nc(ws, labels)
