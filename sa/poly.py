"""Exact commutative Laurent polynomials with rational exponents over named atoms.

Used for every scalar the analysis reasons about: array dimensions, list indices, couplings,
time steps and norms.  A monomial is a sorted tuple of (atom, Fraction exponent); a coefficient is a
pair (re, im) of Fractions.  Atoms are strings.  Atoms are real unless registered as complex.
"""
from fractions import Fraction as F

COMPLEX_ATOMS = set()
UNIT_ATOMS = set()      # complex atoms of modulus one


def _isprime_factor(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        if isinstance(c, Poly):
            return c
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, complex):
            re, im = c.real, c.imag
        else:
            re, im = c, 0
        re = F(repr(re)) if isinstance(re, float) else F(re)
        im = F(repr(im)) if isinstance(im, float) else F(im)
        return Poly({(): (re, im)} if (re or im) else {})

    @staticmethod
    def atom(name, e=1):
        return Poly({((name, F(e)),): (F(1), F(0))})

    # -- queries
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def as_const(self):
        """python int/Fraction/complex if constant else None"""
        if not self.t:
            return 0
        if self.is_const():
            re, im = self.t[()]
            if im == 0:
                return int(re) if re.denominator == 1 else re
            return (re, im)
        return None

    def as_int(self):
        c = self.as_const()
        return c if isinstance(c, int) else None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def is_real(self):
        return all(im == 0 for _, im in self.t.values()) and not (self.atoms() & COMPLEX_ATOMS) and not (self.atoms() & UNIT_ATOMS) and not any(
            a.startswith('conj(') for a in self.atoms())

    def key(self):
        if self._h is None:
            parts = []
            for m in sorted(self.t, key=lambda m: [(a, e) for a, e in m]):
                re, im = self.t[m]
                c = str(re) if im == 0 else '(%s+%sj)' % (re, im)
                parts.append('*'.join([c] + ['%s' % a if e == 1 else '%s^%s' % (a, e) for a, e in m]))
            self._h = ' + '.join(parts) or '0'
        return self._h

    __repr__ = key
    __str__ = key

    def __eq__(self, o):
        if not isinstance(o, Poly):
            try:
                o = Poly.const(o)
            except Exception:
                return NotImplemented
        return self.t == o.t

    def __hash__(self):
        return hash(self.key())

    # -- arithmetic
    def __add__(self, o):
        o = Poly.const(o)
        t = dict(self.t)
        for m, (re, im) in o.t.items():
            a, b = t.get(m, (F(0), F(0)))
            a, b = a + re, b + im
            if a or b:
                t[m] = (a, b)
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: (-a, -b) for m, (a, b) in self.t.items()})

    def __sub__(self, o):
        return self + (-Poly.const(o))

    def __rsub__(self, o):
        return Poly.const(o) + (-self)

    def __mul__(self, o):
        o = Poly.const(o)
        t = {}
        for m1, (a, b) in self.t.items():
            for m2, (c, d) in o.t.items():
                e = dict(m1)
                for at, ex in m2:
                    e[at] = e.get(at, F(0)) + ex
                coef = (a * c - b * d, a * d + b * c)
                for at in [x for x in e if x.startswith('norm<|')]:
                    z, zc = at[6:-2], 'conj(%s)' % at[6:-2]      # z conj(z) = |z|^2
                    while e[at] <= -2 and e.get(z, 0) >= 1 and e.get(zc, 0) >= 1:
                        e[at] += 2
                        e[z] -= 1
                        e[zc] -= 1
                mm = []
                for at in sorted(e):
                    ex = e[at]
                    if ex == 0:
                        continue
                    if at.startswith('#'):  # '#2' = prime number 2 under a root
                        whole = ex.numerator // ex.denominator
                        if whole:
                            p = F(int(at[1:])) ** whole
                            coef = (coef[0] * p, coef[1] * p)
                            ex -= whole
                        if ex == 0:
                            continue
                    mm.append((at, ex))
                mm = tuple(mm)
                x, y = t.get(mm, (F(0), F(0)))
                x, y = x + coef[0], y + coef[1]
                if x or y:
                    t[mm] = (x, y)
                else:
                    t.pop(mm, None)
        return Poly(t)

    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            return Poly.atom('1/0')
        if len(self.t) == 1:
            (m, (a, b)), = self.t.items()
            n = a * a + b * b
            return Poly({(): (a / n, -b / n)}) * Poly({tuple((at, -ex) for at, ex in m): (F(1), F(0))})
        # normalise by the coefficient of the first monomial so that p and c*p invert consistently
        m0 = sorted(self.t, key=lambda m: [(a, e) for a, e in m])[0]
        a, b = self.t[m0]
        n = a * a + b * b
        c = Poly({(): (a / n, -b / n)})
        q = self * c
        return c * Poly.atom('(' + q.key() + ')', -1)

    def __truediv__(self, o):
        return self * Poly.const(o).inv()

    def __rtruediv__(self, o):
        return Poly.const(o) * self.inv()

    def pow(self, e):
        e = F(e)
        if e == 0:
            return Poly.const(1)
        if e.denominator == 1 and e > 0:
            r = Poly.const(1)
            for _ in range(int(e)):
                r = r * self
            return r
        if e == -1:
            return self.inv()
        if len(self.t) == 1:
            (m, (a, b)), = self.t.items()
            if b == 0 and a > 0:
                r = Poly({tuple((at, ex * e) for at, ex in m): (F(1), F(0))})
                num, den = a.numerator, a.denominator
                for p, k in _isprime_factor(num).items():
                    r = r * _rootprime(p, k * e)
                for p, k in _isprime_factor(den).items():
                    r = r * _rootprime(p, -k * e)
                return r
        if not self.t:
            return Poly()
        return Poly.atom('(' + self.key() + ')', e)

    def conj(self):
        t = Poly()
        for m, (a, b) in self.t.items():
            mm = {}
            for at, ex in m:
                if at in UNIT_ATOMS:
                    ex = -ex
                elif at in COMPLEX_ATOMS:
                    at = 'conj(%s)' % at
                elif at.startswith('conj('):
                    at = at[5:-1]
                mm[at] = mm.get(at, 0) + ex
            t = t + Poly({tuple(sorted(mm.items())): (a, -b)})
        return t

    def subs(self, sub):
        """substitute atoms by Polys (integer exponents only where substituted)"""
        out = Poly()
        for m, c in self.t.items():
            r = Poly({(): c})
            for at, ex in m:
                if at in sub:
                    r = r * sub[at].pow(ex)
                else:
                    r = r * Poly.atom(at, ex)
            out = out + r
        return out


def _rootprime(p, ex):
    ex = F(ex)
    whole = ex.numerator // ex.denominator
    r = Poly.const(F(p) ** whole)
    ex -= whole
    if ex:
        r = r * Poly.atom('#%d' % p, ex)
    return r


ZERO = Poly()
ONE = Poly.const(1)
