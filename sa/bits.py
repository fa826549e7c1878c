"""Integer operations with constants on Num values known as digit sums."""
from fractions import Fraction
from math import floor

import engine as E
from num import Atom, Num, ONE, to_num


def split(x, k):
    """x = k*q + r termwise, r minimal; integral polynomials only."""
    if not x.integral():
        raise E.Inconclusive(f'integer division of {x}')
    q, r = {}, {}
    for m, c in x.n.items():
        if m != () and c % k == 0:
            q[m] = c / k
        elif m == ():
            cq = c // k
            if cq:
                q[m] = cq
            if c - cq * k:
                r[m] = c - cq * k
        else:
            r[m] = c
    return Num(q), Num(r)


def floordiv(ip, x, k):
    q, r = split(x, k)
    lo, hi = r.interval()
    if lo not in (float('-inf'),) and hi != float('inf') and floor(lo / k) == floor(hi / k):
        return q + Num.const(floor(lo / k))
    return q + div_atom(ip, r, k)


def div_atom(ip, r, k):
    """floor(r/k) as an atom; digits of generic indices."""
    if ip is None:
        raise E.Inconclusive('digit of a substituted index')
    lo, hi = r.interval()
    inf = float('inf')
    return Num.atom(_intern(ip, 'div', r, k, None if lo == -inf else floor(lo / k),
                            None if hi == inf else floor(hi / k)))


def mod_atom(ip, r, k):
    """r mod k as an atom."""
    if ip is None:
        raise E.Inconclusive('digit of a substituted index')
    return Num.atom(_intern(ip, 'mod', r, k, 0, k - 1))


def _intern(ip, fn, r, k, lo, hi):
    for f, kk, a in ip.ctx.fn_atoms:
        if f == fn and kk == k and a.arg.same(r):
            return a
    mem = set().union(*(x.members for x in r.atoms())) if r.atoms() else ()
    a = Atom(f'{fn}({r},{k})', lo, hi, True, mem, fn=fn, arg=r)
    a.k = k
    ip.ctx.fn_atoms.append((fn, k, a))
    return a


def mod(ip, x, k):
    q, r = split(x, k)
    lo, hi = r.interval()
    inf = float('inf')
    if lo != -inf and hi != inf and floor(lo / k) == floor(hi / k):
        return r - Num.const(k * floor(lo / k))
    return mod_atom(ip, r, k)


def linear(t):
    """(atom, constant) if t is atom + constant."""
    if t.d != ONE:
        return None
    m = [(m, c) for m, c in t.n.items() if m != ()]
    if len(m) != 1 or m[0][1] != 1 or len(m[0][0]) != 1 or m[0][0][0][1] != 1:
        return None
    return m[0][0][0][0], t.n.get((), Fraction(0))


def invert(ip, cs, ts, tv):
    """The value tv(i) of the entry whose key characters ts(i) are cs; MISSING if there is none."""
    import lib
    known = {}
    for c, t in zip(cs, ts):
        if t.is_const():
            if not ip.ctx.cmp(to_num(c), t, '=='):
                return E.MISSING
            continue
        la = linear(t)
        if la is None:
            raise E.Inconclusive('key of a table')
        a, k = la
        x = to_num(c) - Num.const(k)
        if a in known:
            if not ip.ctx.cmp(known[a], x, '=='):
                return E.MISSING
        known[a] = x
    base = {a.arg for a in known if a.fn in ('div', 'mod')}
    index = None
    for r in base:
        la = linear(r)
        if la is None:
            raise E.Inconclusive('key of a table')
        if index is not None and index is not la[0]:
            raise E.Inconclusive('key of a table')
        index = la[0]
        q = [a for a in known if a.fn == 'div' and a.arg.same(r)]
        m = [a for a in known if a.fn == 'mod' and a.arg.same(r)]
        if index not in known:
            if len(q) != 1 or len(m) != 1 or q[0].k != m[0].k:
                raise E.Inconclusive('key of a table')
            lo, hi = known[m[0]].interval()
            if lo < 0 or hi >= m[0].k:
                raise E.Inconclusive('key of a table')
            known[index] = known[q[0]] * Num.const(q[0].k) + known[m[0]] - Num.const(la[1])
    if not base:
        if len(known) > 1:
            for a, w in known.items():
                if ip.ctx.cmp(w, to_num(a.lo), '<') or ip.ctx.cmp(to_num(a.hi), w, '<'):
                    return E.MISSING
                tv = lib.subst(tv, a, w)
            return ip.simp(tv) if isinstance(tv, Num) else tv
        index = next(iter(known), None)
    if index is not None:
        w = known[index]
        if ip.ctx.cmp(w, to_num(index.lo), '<') or ip.ctx.cmp(to_num(index.hi), w, '<'):
            return E.MISSING
        if isinstance(tv, (int, str, type(None))):
            return tv
        return ip.simp(lib.subst(tv, index, w)) if isinstance(tv, Num) else lib.subst(tv, index, w)
    return tv


def floor_atom(ip, x):
    if x.is_const():
        return Num.const(floor(x.cval()))
    if x.integral():
        return x
    lo, hi = x.interval()
    inf = float('inf')
    return Num.atom(ip.ctx.fn_atom('floor', x, lo=None if lo == -inf else floor(lo),
                                   hi=None if hi == inf else floor(hi), integral=True))


def op(ip, name, x, y):
    def const(v):
        return int(v.cval()) if v.is_const() and v.cval().denominator == 1 else None
    k = const(y)
    if name in ('FloorDiv', 'Mod'):
        if k is None or k <= 0:
            if k == 0:
                raise ip.exc('ZeroDivisionError', 'division by zero')
            import lib
            if ip is None:
                raise E.Inconclusive('division by unknown')
            if not y.is_const() and lib.may_zero(ip, y):
                raise ip.exc('ZeroDivisionError', 'division by zero')
            q = floor_atom(ip, x.div(y))
            return q if name == 'FloorDiv' else x - y * q
        if not x.integral():
            q = floor_atom(ip, x.div(y))
            return q if name == 'FloorDiv' else x - y * q
        return floordiv(ip, x, k) if name == 'FloorDiv' else mod(ip, x, k)
    if name == 'LShift':
        if k is not None and k < 0 and ip is not None:
            raise ip.exc('ValueError', 'negative shift count')
        if k is None or k < 0 or k > 64:
            raise E.Inconclusive('shift')
        return x * Num.const(1 << k)
    if name == 'RShift':
        if k is not None and k < 0 and ip is not None:
            raise ip.exc('ValueError', 'negative shift count')
        if k is None or k < 0 or k > 64:
            raise E.Inconclusive('shift')
        return floordiv(ip, x, 1 << k)
    if name == 'BitAnd':
        if k is None:
            x, y, k = y, x, const(x)
        if k is not None and k < 0:
            return x - op(ip, 'BitAnd', x, Num.const(~k))
        if k is None:
            raise E.Inconclusive('bit and')
        if k == 0:
            return Num.const(0)
        total = Num.const(0)
        b = 0
        while k >> b:
            if (k >> b) & 1:
                e = b
                while (k >> e) & 1:
                    e += 1
                total = total + mod(ip, x, 1 << e) - mod(ip, x, 1 << b)
                b = e
            else:
                b += 1
        return total
    if name in ('BitOr', 'BitXor'):
        for a, b in ((x, y), (y, x)):
            lo, hi = b.interval()
            if lo < 0 or hi == float('inf'):
                continue
            n = 1
            while n <= hi:
                n *= 2
            if a.integral() and all(c % n == 0 for c in a.n.values()) and a.interval()[0] >= 0:
                return a + b
        for v, w in ((x, const(y)), (y, const(x))):
            if w is not None and w >= 0 and v.integral():
                both = op(ip, 'BitAnd', v, Num.const(w))
                return v + Num.const(w) - (both if name == 'BitOr' else both + both)
        if x.same(y):
            return x if name == 'BitOr' else Num.const(0)
        (xl, xh), (yl, yh) = x.interval(), y.interval()
        if ip is None or not x.integral() or not y.integral() or min(xl, yl) < 0 or \
                max(xh, yh) == float('inf'):
            raise E.Inconclusive('bit or')
        a = Atom(f'({x} {"|" if name == "BitOr" else "^"} {y})', 0,
                 (1 << int(max(xh, yh)).bit_length()) - 1, True,
                 set().union(*(t.members for t in x.atoms() | y.atoms())),
                 fn='or' if name == 'BitOr' else 'xor', arg=x)
        a.k = y
        return Num.atom(a)
    raise E.Inconclusive(name)


def at(v, env):
    """The integer a digit sum denotes when its base atoms have the values env(atom)."""
    def atom(a):
        if a.fn is None:
            return env(a)
        x = at(a.arg, env)
        if a.fn == 'div':
            return floor(x / a.k)
        if a.fn == 'mod':
            return x % a.k
        if a.fn in ('or', 'xor'):
            y = at(a.k, env)
            return int(x) | int(y) if a.fn == 'or' else int(x) ^ int(y)
        raise E.Inconclusive(f'value of {a}')
    total = Fraction(0)
    if v.d != ONE:
        raise E.Inconclusive(f'value of {v}')
    for m, c in v.n.items():
        for a, e in m:
            c = c * atom(a) ** e
        total += c
    return total


def differ(ctx, a, b):
    """True if the digit sums differ for some values of their atoms, False if they are the same
    polynomial; undecided if neither can be told."""
    if a.same(b):
        return False
    if not any(x.fn for x in a.atoms() | b.atoms()):
        return True
    if any(isinstance(k, tuple) and k and k[0] == 'cmp' for k in ctx.facts):
        raise E.Inconclusive('digits on a split path')
    def pos(f):
        def env(x):
            lo, hi = x.lo, min(x.hi, x.lo + 255)
            if lo == -float('inf'):
                raise E.Inconclusive('unbounded digit')
            return int(lo + (hi - lo) * f // 4) if f != 9 else int(lo + (x.uid * 37) % (hi - lo + 1))
        return env
    for f in (0, 1, 2, 3, 4, 9):
        if at(a, pos(f)) != at(b, pos(f)):
            return True
    raise E.Inconclusive(f'{a} and {b} agree on all samples')


def at(x, a, v):
    """Value of a number at the value v of the generic index a; None if it depends on more."""
    tot = Fraction(0)
    for m, c in x.n.items():
        for b, e in m:
            if b is a:
                y = Fraction(v)
            elif b.fn in ('div', 'mod') and b.k:
                y = at(b.arg, a, v)
                if y is None:
                    return None
                y = Fraction(floor(y / b.k)) if b.fn == 'div' else y - b.k * floor(y / b.k)
            else:
                return None
            c *= y ** e
        tot += c
    return tot


def indices(x):
    out = set()
    for a in x.atoms():
        out |= indices(a.arg) if a.fn in ('div', 'mod') else {a}
    return out


def cut(ctx, d, op):
    """An undecided comparison of a generic index: cut its range where the answer changes."""
    ix = indices(d)
    if len(ix) != 1:
        return
    a = ix.pop()
    if a.fn is not None or len(a.members) != 1 or a.hi - a.lo > 1 << 17:
        return
    last = None
    for v in range(int(a.lo), int(a.hi) + 1):
        y = at(d, a, v)
        if y is None:
            return
        r = y < 0 if op == '<' else y <= 0 if op == '<=' else y == 0
        if last is not None and r != last:
            raise E.NeedSplit(('cut', v))
        last = r
