"""C17: the predefined Hamiltonians are the documented operators."""
from ..harness import *
from .. import dense as D
from ..poly import Poly
from fractions import Fraction

TERMS = 'the product of the operator tensors over the operator bonds is the documented sum of one-site and bond terms with the parameters of that site and bond'
PER = 'the periodic version carries the same terms and couples the last site of a cell to the first site of the next'
SAME = 'the open chain carries the terms of the periodic operator inside the chain'
HERM = 'the operator is hermitian for real parameters'
HAM = 'lib.mpslib.Hamiltonians'
h = Fraction(1, 2)
SX, SZ1, ID = D.mat([[0, 1], [1, 0]]), D.mat([[-1, 0], [0, 1]]), D.meye(2)
SZ = D.mscale(SZ1, C(h))
SM, SP = D.mat([[0, 1], [0, 0]]), D.mat([[0, 0], [1, 0]])
PX, PY, PZ = SX, D.mat([[0, -1j], [1j, 0]]), D.mat([[1, 0], [0, -1]])


def plist(I, nm, n):
    return lst(I, [P('%s%d' % (nm, k)) for k in range(n)])


def two(*pairs):
    """bond operator from (matrix, matrix, coefficient)"""
    d = 2 if max(max(k) for a, b, c in pairs for k in list(a) + list(b)) < 2 else 4
    return D.madd(*[D.mscale(D.mkron(a, b, d), c) for a, b, c in pairs])


def jw(d, c, par):
    """annihilator c at the left / right site of a bond, string par on the sites before"""
    return c, par


def kron(a, b, d):
    return D.mkron(a, b, d)


def fermi_hop(c, par, d):
    """c_1^dagger c_2 + h.c. with the Jordan-Wigner string par"""
    c1 = kron(c, D.meye(d), d)
    c2 = kron(par, c, d)
    x = D.mmul(D.mherm(c1), c2)
    return D.madd(x, D.mherm(x))


def at(n, k, m, d, w=1):
    """operator m on sites k..k+w-1 of n sites"""
    return D.mkron(D.mkron(D.meye(d ** k), m, d ** w), D.meye(d ** (n - k - w)), d ** (n - k - w))


# model -> (parameters of the constructor, local dimension, one-site term, bond term); parameters: (name, 'site' | 'bond')
def models():
    out = {}
    out['TFI'] = ([('J', 'bond'), ('B', 'site')], 2, lambda p: D.mscale(SZ1, p('B')), lambda p: D.mscale(kron(SX, SX, 2), p('J')))
    out['TFI_2'] = ([('J', 'bond'), ('B', 'site')], 2, lambda p: D.mscale(SX, p('B')), lambda p: D.mscale(kron(SZ1, SZ1, 2), p('J')))
    out['XXZ'] = ([('Jz', 'bond'), ('Jxy', 'bond'), ('B', 'site')], 2, lambda p: D.mscale(SZ, p('B')),
                  lambda p: D.madd(D.mscale(kron(SZ, SZ, 2), p('Jz')), D.mscale(D.madd(kron(SP, SM, 2), kron(SM, SP, 2)), p('Jxy') * C(h))))
    out['XXZflipped'] = ([('De', 'bond'), ('J', 'bond')], 2, lambda p: {},
                         lambda p: D.mscale(D.madd(kron(PX, PX, 2), D.mscale(kron(PY, PY, 2), C(-1)), D.mscale(kron(PZ, PZ, 2), -p('De'))), p('J')))
    n2 = D.mat([[0, 0], [0, 1]])
    par = D.mat([[1, 0], [0, -1]])
    out['SpinlessFermions'] = ([('V', 'bond'), ('t', 'bond'), ('mu', 'site')], 2, lambda p: D.mscale(n2, p('mu')),
                               lambda p: D.madd(D.mscale(kron(n2, n2, 2), p('V')), D.mscale(fermi_hop(SM, par, 2), -p('t'))))
    cd = kron(SM, ID, 2)
    cu = kron(par, SM, 2)
    p4 = D.mat([[1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, 1]])
    nu, nd = D.mmul(D.mherm(cu), cu), D.mmul(D.mherm(cd), cd)
    out['HubbardChain'] = ([('U', 'site'), ('tu', 'bond'), ('td', 'bond'), ('mu', 'site'), ('md', 'site')], 4,
                           lambda p: D.madd(D.mscale(nu, p('mu')), D.mscale(nd, p('md')), D.mscale(D.mmul(nu, nd), p('U'))),
                           lambda p: D.madd(D.mscale(fermi_hop(cu, p4, 4), -p('tu')), D.mscale(fermi_hop(cd, p4, 4), -p('td'))))
    s = [kron(x, ID, 2) for x in (PX, PY, PZ)]
    t = [kron(ID, x, 2) for x in (PX, PY, PZ)]
    out['JessHamiltonian'] = ([('J', 'bond'), ('w', 'site'), ('x', 'site')], 4,
                              lambda p: D.madd(D.mscale(D.madd(s[0], t[0]), p('w')), D.mscale(kron(PX, PX, 2), p('x'))),
                              lambda p: D.mscale(D.madd(*[kron(x, x, 4) for x in s + t]), p('J')))
    return out


def tensors(I, r):
    for e in I.events:
        if e.kind == 'lossy':
            raise Bad('an entry is stored into a buffer that cannot hold it: %s' % (e.data[-1],))
    v = r if I.rec(r).kind == 'list' else fld(I, r, '_mpo')
    out = []
    for t in I.finite(v):
        try:
            out.append(D.entries(T(I, t)))
        except D.NotDense as e:
            raise Unk('operator tensor: %s' % e)
    return out


def total(n, d, one, bond, last):
    """sum of the terms; one(k), bond(k) with k the site counted along the chain"""
    ms = [at(n, k, one(k), d) for k in range(n)] + [at(n, k, bond(k), d, 2) for k in range(n - 1)]
    return D.madd(*ms)


# operator builders: (arguments, 'list' = one number per site, 'real' = number); N = number of sites
FIELD = {'PhiFourmpo': 'mu nu g N dx cut obc', 'PhiFourmpo2': 'mu nu g N dx cut obc', 'PhiFourmpo3': 'mu nu g N dx cut obc',
         'PhiFourmpo4': 'mu nu g N dx cut obc', 'TwoSitePhiFourMPO': 'mu nu g dx cut',
         'projectedLiebLinigermpo': 'mu[] g m N dx obc', 'projectedLiebLinigermpo2': 'mu[] g m N cut dx open',
         'projectedLiebLinigermpo3': 'mu[] g m dx[] obc', 'LocalLiebLinigermpo': 'mu[] g m dx cut obc',
         'LiebLinigermpo': 'mu g m N dx cut', 'LiebLinigermpo1': 'mu g m N dx cut', 'LiebLinigermpo2': 'mu g m N dx cut', 'LiebLinigermpo3': 'mu g m N dx cut',
         'HomogeneousLiebLinigermpo': 'g m'}


def hermitian(c):
    for name, spec in FIELD.items():
        ws = spec.split()
        for obc in (True, False) if 'obc' in ws else (True,) if 'open' in ws or name == 'TwoSitePhiFourMPO' else (False,):
            for n in ((2,) if name == 'TwoSitePhiFourMPO' else (1,) if name == 'HomogeneousLiebLinigermpo' else (2, 3) if obc else (1, 2)):
                for cut in (2, 3) if 'cut' in ws else (2,):
                    def mk(I):
                        out = []
                        for w in ws:
                            out.append({'N': C(n), 'cut': C(cut), 'obc': obc, 'open': True}[w] if w in ('N', 'cut', 'obc', 'open') else plist(I, w[:-2], n) if w.endswith('[]') else P(w))
                        return out, {}

                    def judge(I, r, a, k):
                        ws = tensors(I, r)
                        if ws[0][1][0] != 1:
                            ws = ws * (3 if len(ws) == 1 else 2)
                        try:
                            got = D.chain(ws)
                        except KeyError:
                            raise Bad('operator bonds do not match')
                        ok, where = D.same(got, D.mherm(got))
                        if not ok:
                            raise Bad('matrix element %s is %s, its transpose %s' % (where, got.get(where, 0), got.get(where[::-1], 0)))
                        if not got:
                            raise Bad('the operator vanishes')
                    v = ','.join('abcdefgh'[:len(ws)])
                    c.evaluate('hermitian:%s:%s:%d:%d' % (name, 'open' if obc else 'periodic', n, cut), HAM, client('%s(%s)' % (name, v), v, HAM), mk, judge, HERM)


def agree(c):
    """client that builds both versions with the same arguments"""
    for name in ('PhiFourmpo', 'PhiFourmpo2', 'PhiFourmpo3', 'PhiFourmpo4', 'LocalLiebLinigermpo'):
        ws = FIELD[name].split()[:-1]
        for n in (2, 3):
            def mk(I):
                return [{'N': C(n), 'cut': C(3)}[w] if w in ('N', 'cut') else plist(I, w[:-2], n) if w.endswith('[]') else P(w) for w in ws], {}

            def judge(I, r, a, k):
                x, y = (D.chain(tensors(I, q)) for q in r)
                ok, where = D.same(x, y)
                if not ok:
                    raise Bad('matrix element %s is %s in the open chain, %s in the periodic operator' % (where, x.get(where, 0), y.get(where, 0)))
            v = ','.join('abcdefgh'[:len(ws)])
            c.evaluate('agree:%s:%d' % (name, n), HAM, client('%s(%s,obc=True),%s(%s,obc=False)' % (name, v, name, v), v, HAM), mk, judge, SAME)


def run():
    c = Check('C17')
    for name, (ps, d, one, bond) in models().items():
        for obc in (True, False):
            for n in ((2, 3, 4) if d == 2 else (2, 3)) if obc else (1, 2, 3) if d == 2 else (1, 2):
                def mk(I):
                    return [plist(I, q, n - (1 if kind == 'bond' and obc else 0)) for q, kind in ps] + [obc], {}

                def judge(I, r, a, k):
                    ws = tensors(I, r)
                    if len(ws) != n:
                        raise Bad('%d operator tensors for %d sites' % (len(ws), n))
                    if obc and (ws[0][1][0] != 1 or ws[-1][1][1] != 1):
                        raise Bad('outer operator bonds %s and %s' % (ws[0][1][0], ws[-1][1][1]))
                    if not obc:
                        ws = ws * (3 if n == 1 else 2)
                    L = len(ws)
                    try:
                        got = D.chain(ws)
                    except KeyError as e:
                        raise Bad('operator bonds do not match')
                    want = total(L, d, lambda s: one(lambda q: P('%s%d' % (q, s % n))), lambda s: bond(lambda q: P('%s%d' % (q, s % n))), n)
                    ok, where = D.same(got, want)
                    if not ok:
                        raise Bad('matrix element %s of the operator on %d sites is %s, specified %s' % (where, L, got.get(where, 0), want.get(where, 0)))
                v = ','.join('abcdefg'[:len(ps) + 1])
                c.evaluate('%s:%s:%d' % (name, 'open' if obc else 'periodic', n), HAM, client('%s(%s)' % (name, v), v, HAM), mk, judge, TERMS if obc else PER)
    hermitian(c)
    agree(c)
    c.min_ok = 8
    return c
