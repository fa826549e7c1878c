"""Numeric abstract domain: rational functions over named atoms.

A value is num/den, both polynomials with Fraction coefficients over *atoms*
(an unknown count, an unknown weight, log(x), sqrt(x), a sum over a class...).
Equality is decided by cross multiplication, order by interval reasoning.
Floating point literals are taken at their decimal value.
"""
from fractions import Fraction
import itertools

_ids = itertools.count()
INF = float('inf')


class Atom:
    __slots__ = ('name', 'lo', 'hi', 'integral', 'members', 'fn', 'arg', 'uid', 'strict', 'k')

    def __init__(self, name, lo=None, hi=None, integral=False, members=(),
                 fn=None, arg=None):
        self.name = name
        self.lo = -INF if lo is None else lo
        self.hi = INF if hi is None else hi
        self.integral = integral
        self.members = frozenset(members)   # classes this atom varies over
        self.fn = fn
        self.arg = arg
        self.uid = next(_ids)
        self.k = None

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.uid < o.uid


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # sqrt(x)**2 -> x is done in Num.simp
    return tuple(sorted(((a, e) for a, e in d.items() if e),
                        key=lambda t: t[0].uid))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


ONE = {(): Fraction(1)}


class Num:
    __slots__ = ('n', 'd', 'fl')

    def __init__(self, n, d=None, fl=False):
        self.n = n
        self.d = d or ONE
        self.fl = fl
        self._simp()

    def _simp(self):
        n, d = self.n, self.d
        # sqrt atoms squared
        n = _desqrt(n)
        d = _desqrt(d)
        if isinstance(n, tuple) or isinstance(d, tuple):
            # (poly, poly) rational results
            nn, nd = n if isinstance(n, tuple) else (n, ONE)
            dn, dd = d if isinstance(d, tuple) else (d, ONE)
            n, d = pmul(nn, dd), pmul(nd, dn)
        if not n:
            self.n, self.d = {}, ONE
            return
        # common monomial and constant factor of the denominator
        lead = next(iter(d.values()))
        if lead != 1:
            d = {m: c / lead for m, c in d.items()}
            n = {m: c / lead for m, c in n.items()}
        if d != ONE:
            # cancel common monomials
            common = None
            for m in itertools.chain(n, d):
                md = dict(m)
                if common is None:
                    common = md
                else:
                    common = {a: min(e, md[a]) for a, e in common.items() if a in md}
                if not common:
                    break
            if common:
                def red(p):
                    return {tuple((a, e - common.get(a, 0)) for a, e in m
                                  if e - common.get(a, 0)): c for m, c in p.items()}
                n, d = red(n), red(d)
            if len(d) > 1 or d != ONE:
                # n == k*d ?
                if len(n) == len(d) and set(n) == set(d):
                    ks = {n[m] / d[m] for m in n}
                    if len(ks) == 1:
                        n, d = {(): ks.pop()}, ONE
        self.n, self.d = n, d

    # construction ---------------------------------------------------------
    @staticmethod
    def const(v, fl=False):
        v = Fraction(v)
        return Num({(): v} if v else {}, None, fl)

    @staticmethod
    def atom(a):
        return Num({((a, 1),): Fraction(1)})

    # queries ----------------------------------------------------------------
    def is_const(self):
        return self.d == ONE and (not self.n or (len(self.n) == 1 and () in self.n))

    def cval(self):
        return self.n.get((), Fraction(0))

    def atoms(self):
        return {a for p in (self.n, self.d) for m in p for a, _ in m}

    def integral(self):
        return self.d == ONE and all(
            c.denominator == 1 and all(a.integral and e > 0 for a, e in m)
            for m, c in self.n.items())

    def __repr__(self):
        s = pstr(self.n)
        if self.d != ONE:
            s = f'({s})/({pstr(self.d)})'
        return s

    # arithmetic -------------------------------------------------------------
    def __add__(self, o):
        if self.d == o.d:
            return Num(padd(self.n, o.n), self.d, self.fl or o.fl)
        return Num(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d),
                   self.fl or o.fl)

    def __sub__(self, o):
        if self.d == o.d:
            return Num(padd(self.n, o.n, -1), self.d, self.fl or o.fl)
        return Num(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1),
                   pmul(self.d, o.d), self.fl or o.fl)

    def __mul__(self, o):
        return Num(pmul(self.n, o.n), pmul(self.d, o.d), self.fl or o.fl)

    def div(self, o):
        return Num(pmul(self.n, o.d), pmul(self.d, o.n), True)

    def __neg__(self):
        return Num({m: -c for m, c in self.n.items()}, self.d, self.fl)

    def same(self, o):
        if self.d == o.d:
            return self.n == o.n
        return not Num(padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)).n

    def __eq__(self, o):
        return isinstance(o, Num) and self.same(o)

    def __hash__(self):
        return 7

    # intervals --------------------------------------------------------------
    def interval(self):
        lo, hi = pint(self.n)
        if self.d == ONE:
            return lo, hi
        dlo, dhi = pint(self.d)
        if dlo > 0 or (dlo == 0 and False):
            c = [_q(lo, dlo), _q(lo, dhi), _q(hi, dlo), _q(hi, dhi)]
            return min(c), max(c)
        return -INF, INF


def _q(a, b):
    if b in (INF, -INF):
        return 0
    if a in (INF, -INF):
        return a if b > 0 else -a
    return Fraction(a) / Fraction(b)


def _imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    c = [m(x, y) for x in a for y in b]
    return min(c), max(c)


def pint(p):
    lo = hi = Fraction(0)
    for m, c in p.items():
        iv = (Fraction(1), Fraction(1))
        for a, e in m:
            av = (a.lo, a.hi)
            if e % 2 == 0 and a.lo < 0:
                mx = max(abs(a.lo), abs(a.hi))
                av = (0, mx)
            for _ in range(e):
                iv = _imul(iv, av)
            if e % 2 == 0:
                iv = (max(iv[0], 0) if c else iv[0], iv[1]) if len(m) == 1 else iv
        iv = _imul(iv, (c, c))
        lo = lo + iv[0]
        hi = hi + iv[1]
    return lo, hi


def pstr(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: [(a.uid, e) for a, e in t[0]]):
        s = '*'.join(a.name + (f'^{e}' if e != 1 else '') for a, e in m)
        cs = str(c.numerator) if c.denominator == 1 else str(float(c))
        if not s:
            s = cs
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = cs + '*' + s
        out.append(s)
    return ' + '.join(out)


def _desqrt(p):
    """Replace sqrt(x)**2 by x; result may become rational."""
    if not any(a.fn == 'sqrt' and e >= 2 for m in p for a, e in m):
        return p
    tn, td = {}, ONE
    for m, c in p.items():
        cn, cd = {(): c}, ONE
        rest = []
        for a, e in m:
            if a.fn == 'sqrt' and e >= 2:
                for _ in range(e // 2):
                    cn = pmul(cn, a.arg.n)
                    cd = pmul(cd, a.arg.d)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        cn = pmul(cn, {tuple(rest): Fraction(1)})
        if cd == td:
            tn = padd(tn, cn)
        else:
            tn, td = padd(pmul(tn, cd), pmul(cn, td)), pmul(td, cd)
    return (tn, td) if td != ONE else tn


def to_num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, bool):
        return Num.const(int(v))
    if isinstance(v, (int, Fraction)):
        return Num.const(v)
    if isinstance(v, float):
        return Num.const(Fraction(repr(v)), True)
    raise TypeError(v)


def evalf(v):
    """The value of a Num whose atoms are functions of constants, else None."""
    import math

    def atom(a):
        if a.fn not in ('log', 'sqrt', 'floor', 'int') or not isinstance(a.arg, Num):
            return None
        x = evalf(a.arg)
        if x is None:
            return None
        try:
            return {'log': math.log, 'sqrt': math.sqrt, 'floor': math.floor, 'int': int}[a.fn](x)
        except (ValueError, OverflowError):
            return None

    def poly(p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for a, e in m:
                y = atom(a)
                if y is None:
                    return None
                x *= y ** e
            t += x
        return t
    n = poly(v.n)
    d = poly(v.d) if n is not None else None
    if not d:
        return None
    return n / d
