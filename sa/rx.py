"""Static analysis of regular expressions, on the syntax trees of re._parser.

* languages of abstract patterns (literals may be symbols) compared as automata
* splitters compared with a reference splitter
* matching of abstract character lists, forking on undecided memberships
"""
import itertools
import re
import re._constants as C
import re._parser as P

import engine as E
from num import Num, to_num

PUA = 0xE000


class Bad(Exception):
    pass


def check_pattern(ip, pat):
    if isinstance(pat, str):
        try:
            P.parse(pat, 0)
        except re.error as e:
            raise ip.exc('re.error', str(e))


# ------------------------------------------------------------------ abstract patterns

def flat(pat):
    """(pattern string, flags for the symbols: private character -> symbol, raw symbols)."""
    parts = pat.args if isinstance(pat, E.Sym) and pat.op == 'str' else [pat]
    out, table, raw = '', {}, []
    back = {}

    def private(x):
        k = E.hk(x)
        if k not in back:
            back[k] = chr(PUA + len(back))
            table[back[k]] = x
        return back[k]
    for p in parts:
        if isinstance(p, str):
            out += p
        elif isinstance(p, E.Sym) and p.op == 'esc':
            out += private(p.args[0])
        elif isinstance(p, (E.Elem, E.Sym)):
            raw.append(p)
            out += private(p)
        else:
            raise Bad(f'pattern part {p!r}')
    return out, table, raw


def member(items, c, flags):
    """Is the concrete character c in the charset (items of an IN node)?"""
    neg = False
    hit = False
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit = hit or same(chr(av), c, flags)
        elif op is C.RANGE:
            hit = hit or any(av[0] <= ord(x) <= av[1] for x in cases(c, flags))
        elif op is C.CATEGORY:
            hit = hit or category(av, c, flags)
        else:
            raise Bad(str(op))
    return hit != neg


def other_case(c):
    """Private characters stand for characters that have another case, too."""
    return chr(ord(c) ^ 0x800) if PUA <= ord(c) < PUA + 0x1000 else c


def cases(c, flags):
    if flags & re.I and other_case(c) != c:
        return {c, other_case(c)}
    return {c, c.lower(), c.upper()} - {x for x in (c.lower(), c.upper()) if len(x) != 1} \
        if flags & re.I else {c}


def same(a, b, flags):
    return a == b or bool(flags & re.I and cases(a, flags) & cases(b, flags))


CATS = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_NOT_DIGIT: r'\D', C.CATEGORY_SPACE: r'\s',
        C.CATEGORY_NOT_SPACE: r'\S', C.CATEGORY_WORD: r'\w', C.CATEGORY_NOT_WORD: r'\W'}


def category(cat, c, flags):
    return re.match(CATS[cat], c, flags & (re.A | re.U)) is not None


def charset(node, flags):
    """Predicate on concrete characters for a one-character node, or None."""
    op, av = node
    if op is C.LITERAL:
        return lambda c: same(chr(av), c, flags)
    if op is C.NOT_LITERAL:
        return lambda c: not same(chr(av), c, flags)
    if op is C.ANY:
        return (lambda c: True) if flags & re.S else (lambda c: c != '\n')
    if op is C.IN:
        return lambda c: member(av, c, flags)
    return None


# ------------------------------------------------------------------ automata

class NFA:
    """Configurations are (state, flag); flag 1: only the end may follow, 2: newline and end."""

    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b, cond=None):
        self.eps.setdefault(a, []).append((b, cond))

    def t(self, a, pred, b):
        self.tr.setdefault(a, []).append((pred, b))

    def seq(self, nodes, a, flags):
        for nd in nodes:
            a = self.one(nd, a, flags)
        return a

    def one(self, nd, a, flags):
        op, av = nd
        p = charset(nd, flags)
        if p is not None:
            b = self.new()
            self.t(a, p, b)
            return b
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is C.POSSESSIVE_REPEAT:
                raise Bad('possessive')
            for _ in range(lo):
                a = self.seq(sub, a, flags)
            if hi is C.MAXREPEAT:
                b = self.new()
                self.e(a, b)
                c = self.seq(sub, b, flags)
                self.e(c, b)
                d = self.new()
                self.e(b, d)
                return d
            end = self.new()
            self.e(a, end)
            for _ in range(hi - lo):
                a = self.seq(sub, a, flags)
                self.e(a, end)
            return end
        if op is C.SUBPATTERN:
            g, add, rem, sub = av
            return self.seq(sub, a, (flags | add) & ~rem)
        if op is C.BRANCH:
            end = self.new()
            for alt in av[1]:
                self.e(self.seq(alt, a, flags), end)
            return end
        if op is C.AT:
            b = self.new()
            if av is C.AT_END_STRING:
                self.e(a, b, 1)
            elif av is C.AT_END and not flags & re.M:
                self.e(a, b, 2)
            elif av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and not flags & re.M:
                self.e(a, b, 'start')
            else:
                raise Bad(str(av))
            return b
        raise Bad(str(op))


def closure(n, confs):
    todo, seen = list(confs), set(confs)
    while todo:
        s, f, st = todo.pop()
        for b, cond in n.eps.get(s, ()):
            g = f
            if cond == 'start':
                if not st:
                    continue
            elif cond == 1:
                g = 1
            elif cond == 2:
                g = f or 2
            x = (b, g, st)
            if x not in seen:
                seen.add(x)
                todo.append(x)
    return frozenset(seen)


def step(n, confs, c):
    out = set()
    for s, f, st in confs:
        if f == 1:
            continue
        if f == 2:
            if c != '\n':
                continue
            g = 1
        else:
            g = 0
        for p, b in n.tr.get(s, ()):
            if p(c):
                out.add((b, g, False))
    return closure(n, out)


def build(nodes, flags, how):
    """Automaton accepting the whole strings in which the pattern matches."""
    n = NFA()
    a = n.new()
    if how == 'search':
        b = n.new()
        n.e(a, b)
        n.t(b, lambda c: True, b)
        a2 = n.new()
        n.e(b, a2)
        a1 = a2
    else:
        a1 = a
    end = n.seq(nodes, a1, flags)
    acc = n.new()
    n.e(end, acc)
    if how in ('match', 'search'):
        n.t(acc, lambda c: True, acc)
    else:
        n.e(end, acc, 1)
    return n, a, acc


def accepts(n, confs, acc, how):
    return any(s == acc for s, f, st in confs)


def letters(trees):
    out = {'\n', 'x', '\u00e9', '-'}

    def walk(nodes):
        for op, av in nodes:
            if op in (C.LITERAL, C.NOT_LITERAL):
                out.update((chr(av), other_case(chr(av))))
            elif op is C.IN:
                walk([x for x in av if x[0] in (C.LITERAL,)])
                for o, v in av:
                    if o is C.RANGE:
                        out.update((chr(v[0]), chr(v[1]), chr(v[1] + 1)))
                        if v[0]:
                            out.add(chr(v[0] - 1))
                    elif o is C.CATEGORY:
                        out.update('5_ a')
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                walk(av[2])
            elif op is C.SUBPATTERN:
                walk(av[3])
            elif op is C.BRANCH:
                for alt in av[1]:
                    walk(alt)
    for t in trees:
        walk(t)
    return sorted(out)


_differences = {}


def difference(*a):
    """A string on which the two matches differ, or None; patterns with private literals."""
    if a not in _differences:
        _differences[a] = find_difference(*a)
    return _differences[a]


def find_difference(pa, fa, ha, pb, fb, hb):
    ta, tb = P.parse(pa, fa), P.parse(pb, fb)
    fa, fb = ta.state.flags, tb.state.flags
    na, sa, aa = build(ta, fa, ha)
    nb, sb, ab = build(tb, fb, hb)
    alpha = letters([ta, tb])
    start = closure(na, {(sa, 0, True)}), closure(nb, {(sb, 0, True)})
    todo, seen = [(start, '')], {start}
    while todo:
        (x, y), w = todo.pop(0)
        if accepts(na, x, aa, ha) != accepts(nb, y, ab, hb):
            return w
        for c in alpha:
            z = step(na, x, c), step(nb, y, c)
            if z not in seen:
                seen.add(z)
                todo.append((z, w + c))
        if len(seen) > 4000:
            raise Bad('automaton too large')
    return None


# ------------------------------------------------------------------ splitters

_classes = {}


def partition(trees):
    """One representative for every class of characters the patterns can tell apart."""
    sets = []

    def walk(nodes, flags):
        for nd in nodes:
            p = charset(nd, flags)
            if p is not None:
                sets.append((nd, flags, p))
            elif nd[0] in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                walk(nd[1][2], flags)
            elif nd[0] is C.SUBPATTERN:
                walk(nd[1][3], (flags | nd[1][1]) & ~nd[1][2])
            elif nd[0] is C.BRANCH:
                for alt in nd[1][1]:
                    walk(alt, flags)
    for t in trees:
        walk(t, t.state.flags)
    uniq = {}
    for nd, fl, p in sets:
        uniq.setdefault(repr((nd, fl)), p)
    key = tuple(sorted(uniq))
    if key not in _classes:
        ps = [uniq[k] for k in key]
        reps = {}
        for c in itertools.chain(range(0x3000), range(0xA000, 0xB000), range(0xFE00, 0x11000),
                                 range(0x1D400, 0x1D410), range(0x20000, 0x20010)):
            ch = chr(c)
            reps.setdefault(tuple(p(ch) for p in ps), ch)
        _classes[key] = list(reps.values())
    return _classes[key]


def split_differences(pa, fa, pb, fb, depth=6, budget=400000, limit=40):
    """Strings the two patterns find different matches in.

    The languages are compared as automata; which of several possible matches is found
    first is compared on all strings over one representative per character class."""
    ta, tb = P.parse(pa, fa), P.parse(pb, fb)
    out = []
    if pa == pb and ta.state.flags == tb.state.flags:
        return out
    reps = partition([ta, tb])
    na, sa, aa = build(ta, ta.state.flags, 'fullmatch')
    nb, sb, ab = build(tb, tb.state.flags, 'fullmatch')
    start = closure(na, {(sa, 0, True)}), closure(nb, {(sb, 0, True)})
    todo, seen = [(start, '')], {start}
    while todo:
        (x, y), w = todo.pop(0)
        if accepts(na, x, aa, '') != accepts(nb, y, ab, '') and len(out) < limit:
            out.append(w)
        for c in reps:
            z = step(na, x, c), step(nb, y, c)
            if z not in seen:
                seen.add(z)
                todo.append((z, w + c))
    ca, cb = re.compile(pa, fa), re.compile(pb, fb)
    whole = lambda c, s: [m.group() for m in c.finditer(s)]
    n = 0
    limit += len(out)
    for k in range(1, depth + 1):
        for t in itertools.product(reps, repeat=k):
            s = ''.join(t)
            n += 1
            if n > budget or len(out) >= limit:
                return out
            if s not in out and whole(ca, s) != whole(cb, s):
                out.append(s)
    return out


# ------------------------------------------------------------------ abstract matching

def ask_member(ip, ch, nd, flags):
    """Does the abstract character ch belong to the one-character node nd?"""
    p = charset(nd, flags)
    if isinstance(ch, str):
        return p(ch)
    if isinstance(ch, E.Sym):
        n = to_num(ch.args[0])
        lo, hi = n.interval()
        if hi == float('inf') or hi - lo > 70000:
            lo, hi = max(lo, 0), 0x10FFFF
            raise E.Inconclusive('character of unknown range')
        # maximal runs of code points with the same answer
        runs, prev = [], None
        for c in range(int(lo), int(hi) + 1):
            v = p(chr(c))
            if v != prev:
                runs.append((c, v))
                prev = v
        if len(runs) == 1:
            return runs[0][1]
        if len(runs) > 6:
            raise E.Inconclusive('character class')
        for (c, v), (d, _) in zip(runs, runs[1:]):
            if ip.ctx.cmp(n, Num.const(d), '<'):
                return v
        return runs[-1][1]
    # an arbitrary character: known different from some
    op, av = nd
    if op is C.LITERAL:
        return ip.eq(ch, chr(av))
    if op is C.NOT_LITERAL:
        return not ip.eq(ch, chr(av))
    if op is C.ANY:
        return True if flags & re.S else not ip.eq(ch, '\n')
    if all(o in (C.LITERAL, C.NEGATE) for o, v in av):
        hit = any(ip.eq(ch, chr(v)) for o, v in av if o is C.LITERAL)
        return hit != any(o is C.NEGATE for o, v in av)
    return ip.ctx.ask(('inset', ch.uid, repr(nd), flags), f'{ch!r} in {nd}')


def run(ip, nodes, cs, pos, flags, k, caps=None):
    """Backtracking match; k(pos) decides whether to accept the end position."""
    if not nodes:
        return k(pos)
    nd, rest = nodes[0], nodes[1:]
    op, av = nd
    go = lambda p: run(ip, rest, cs, p, flags, k, caps)
    if charset(nd, flags) is not None:
        return pos < len(cs) and ask_member(ip, cs[pos], nd, flags) and go(pos + 1)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(n, p):
            more = lambda: (hi is C.MAXREPEAT or n < hi) and \
                run(ip, sub, cs, p, flags, lambda q: q != p and rep(n + 1, q), caps)
            if n < lo:
                return more()
            if op is C.MAX_REPEAT:
                return more() or go(p)
            return go(p) or more()
        return rep(0, pos)
    if op is C.SUBPATTERN:
        g, add, rem, sub = av

        def done(p):
            if g is None or caps is None:
                return go(p)
            old = caps.get(g)
            caps[g] = (pos, p)
            if go(p):
                return True
            caps[g] = old
            return False
        return run(ip, list(sub), cs, pos, (flags | add) & ~rem, done, caps)
    if op is C.BRANCH:
        return any(run(ip, list(alt), cs, pos, flags, go, caps) for alt in av[1])
    if op is C.AT:
        if av is C.AT_END_STRING:
            return pos == len(cs) and go(pos)
        if av is C.AT_END:
            return (pos == len(cs) or pos == len(cs) - 1 and ip.eq(cs[pos], '\n')) and go(pos)
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            return pos == 0 and go(pos)
    if op in (C.ASSERT, C.ASSERT_NOT) and av[0] == 1:
        hit = run(ip, list(av[1]), cs, pos, flags, lambda q: True, caps)
        return bool(hit) == (op is C.ASSERT) and go(pos)
    raise E.Inconclusive(f'regular expression {op}')


def spans(ip, pat, flags, cs):
    """Successive matches of a concrete pattern in an abstract character list."""
    t = P.parse(pat, flags)
    i, out = 0, []
    while i <= len(cs):
        end = []
        if run(ip, list(t), cs, i, t.state.flags, lambda p: (end.append(p), True)[1]):
            out.append((i, end[-1]))
            i = end[-1] if end[-1] > i else i + 1
        else:
            i += 1
    return out


def found(cs, a, b, caps):
    import lib
    m = E.Sym('match', lib.concat(cs[a:b]))
    m.info['spans'] = {**caps, 0: (a, b)}
    m.info['chars'] = cs
    return m


def abs_match(ip, pat, flags, cs, name, pos=0):
    """match(), fullmatch() and search() of a concrete pattern in an abstract character list."""
    if not isinstance(pat, str):
        raise E.Inconclusive('pattern is not a constant')
    t = P.parse(pat, flags)
    for i in range(pos, len(cs) + 1) if name == 'search' else (pos,):
        end, caps = [], {}
        ok = (lambda p: p == len(cs) and (end.append(p), True)[1]) if name == 'fullmatch' else \
            (lambda p: (end.append(p), True)[1])
        if run(ip, list(t), cs, i, t.state.flags, ok, caps):
            return found(cs, i, end[-1], caps)
    return None


def abs_split(ip, pat, flags, cs):
    import lib
    if not isinstance(pat, str) or re.compile(pat, flags).groups:
        raise E.Inconclusive('split with groups')
    out, at = [], 0
    for a, b in spans(ip, pat, flags, cs):
        out.append(lib.concat(cs[at:a]))
        at = b
    return out + [lib.concat(cs[at:])]


def abs_sub(ip, pat, flags, repl, cs):
    import lib
    if not isinstance(pat, str):
        raise E.Inconclusive('pattern is not a constant')
    if isinstance(repl, str) and '\\' in repl:
        raise E.Inconclusive('sub with a template')
    out, at = [], 0
    for a, b in spans(ip, pat, flags, cs):
        if a == b:
            raise E.Inconclusive('sub of empty matches')
        r = repl if isinstance(repl, str) else \
            ip.call(repl, [abs_match(ip, pat, flags, cs, 'match', a)], {})
        rs = lib.chars(r)
        if rs is None:
            raise E.Inconclusive('sub')
        out += cs[at:a] + rs
        at = b
    return lib.concat(out + cs[at:])


def abs_findall(ip, pat, flags, cs):
    import lib
    if not isinstance(pat, str):
        raise E.Inconclusive('pattern is not a constant')
    if re.compile(pat, flags).groups:
        raise E.Inconclusive('findall with groups')
    return [lib.concat(cs[a:b]) for a, b in spans(ip, pat, flags, cs)]
