"""Path-sensitive abstract interpreter for the Python subset used in /repo.

Source is never executed: syntax trees are evaluated over an abstract heap.

* an ``Elem`` stands for an arbitrary element of one equivalence class (a docid,
  a word, a field value ...).  A class may be a single element or a *summary* of
  an unknown positive number of elements that are alike with respect to every
  fact of the scenario; loops over a summary evaluate the body once for a generic
  member and accelerate the effect on shared numeric cells.
* numbers are rational functions over atoms (num.Num), see there.
* a condition the abstraction cannot decide becomes a *choice*: all outcomes are
  explored (trace partitioning by re-evaluation with a different choice prefix),
  facts learned on a path are remembered for that path.
* every heap effect is journaled as an event with its source location; rules
  (purity, aliasing, families, persistence, counters) are stated over events.
"""
import ast
import builtins as _pyb
import collections.abc
import itertools
import os
from fractions import Fraction

from num import Atom, INF, Num, ONE, evalf, to_num

_uid = itertools.count(1)


def next_uid():
    return next(_uid)


class Inconclusive(Exception):
    """The abstraction does not cover a construct met on this path."""

    def __init__(self, msg=''):
        msg = str(msg)
        super().__init__(msg if len(msg) < 500 else f'{msg[:200]} ... {msg[-250:]}')


class PathBounded(Exception):
    """Exploration bound of a loop reached; the path is dropped and counted."""


class NeedSplit(Exception):
    """A summary class must be replaced by single elements."""

    def __init__(self, what):
        self.what = what


class Infeasible(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class RaiseEx(Exception):
    """An exception of the analysed program; .exc is an ExcV."""

    def __init__(self, exc):
        self.exc = exc


# ---------------------------------------------------------------- values

class Elem:
    def __init__(self, name, sort, kind='any', card=None, rank=None,
                 nullable=False, falsy=True, info=None, base=None, member=()):
        self.name = name
        self.sort = sort
        self.kind = kind            # 'int' | 'str' | 'any' | 'obj'
        self.card = card            # None: single; Num: summary
        self.rank = rank
        self.nullable = nullable
        self.falsy = falsy          # may be falsy
        self.info = info or {}
        self.base = base            # summary class this one varies with
        self.uid = next(_uid)

    @property
    def multi(self):
        return self.card is not None

    def root(self):
        return self.base.root() if self.base is not None else self

    def __repr__(self):
        return self.name


class Sym:
    """Uninterpreted term."""
    __slots__ = ('op', 'args', 'info')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self.info = {}

    def __repr__(self):
        return f'{self.op}({", ".join(map(repr, self.args))})'


class Obj:
    def __init__(self, origin='new', label=None, per=()):
        self.origin = origin
        self.label = label
        self.per = frozenset(per)
        self.uid = next(_uid)
        self.born_load = False


class It:
    """Item of a sequence: a value, occurring occ times, for each member of over."""
    __slots__ = ('v', 'occ', 'over')

    def __init__(self, v, occ=None, over=()):
        self.v = v
        self.occ = occ              # None: once
        self.over = tuple(over)

    def __repr__(self):
        return f'{self.v!r}' + (f'x{self.occ!r}' if self.occ is not None else '') + \
            (f' for each {self.over}' if self.over else '')


def hk(k):
    """Exact key of a value (equal keys => equal values)."""
    if k is None or isinstance(k, (str, bytes)):
        return ('c', k)
    if isinstance(k, (bool, int, float)):
        return ('c', k)
    if isinstance(k, Elem):
        return ('e', k.uid)
    if isinstance(k, tuple):
        return ('t',) + tuple(hk(x) for x in k)
    if isinstance(k, Num):
        if k.is_const():
            c = k.cval()
            return ('c', int(c) if c.denominator == 1 else float(c))
        return ('n', str(k), tuple(sorted(a.uid for a in k.atoms())))
    if isinstance(k, Sym):
        return ('s', k.op) + tuple(hk(a) for a in k.args)
    if isinstance(k, BT):
        return ('b', k.name)
    return ('o', id(k))


class MapObj(Obj):
    def __init__(self, bt=None, items=(), origin='new', label=None, per=(), default=None,
                 kind='dict'):
        super().__init__(origin, label, per)
        self.bt = bt                # None: dict, else (fam, kv, 'BTree'|'Bucket')
        self.d = {}
        self.default = default
        self.kind = kind
        for k, v in items:
            self.d[hk(k)] = (k, v)

    def tname(self):
        return self.kind if self.bt is None else f'{self.bt[0]}.{self.bt[1]}.{self.bt[2]}'

    def __repr__(self):
        return f'<{self.label or self.tname()} {{' + ', '.join(
            f'{k!r}: {v!r}' for k, v in self.d.values()) + '}>'


class SetObj(Obj):
    def __init__(self, bt=None, items=(), origin='new', label=None, per=(), frozen=False):
        super().__init__(origin, label, per)
        self.bt = bt
        self.d = {}
        self.frozen = frozen
        for k in items:
            self.d[hk(k)] = k

    def tname(self):
        return 'set' if self.bt is None else f'{self.bt[0]}.{self.bt[1]}.{self.bt[2]}'

    def __repr__(self):
        return f'<{self.label or self.tname()} {{' + ', '.join(map(repr, self.d.values())) + '}>'


class ListObj(Obj):
    def __init__(self, items=(), origin='new', label=None, per=(), kind='list'):
        super().__init__(origin, label, per)
        self.kind = kind
        self.items = [i if isinstance(i, It) else It(i) for i in items]

    def __repr__(self):
        return f'<{self.label or self.kind} {self.items!r}>'


class IterObj(Obj):
    """An iterator: remaining items (forced on demand from a thunk)."""

    def __init__(self, items=None, thunk=None):
        super().__init__('new', 'iterator')
        self._items = items
        self.thunk = thunk

        self.steps = None           # more items, computed one list at a time

    def force(self):
        if self._items is None:
            t, self.thunk = self.thunk, None
            self._items = list(t())
        if self.steps is not None:
            st, self.steps = self.steps, None
            for x in st:
                self._items = self._items + x
        return self._items

    def pull(self):
        """Is there another item?  The ones after it are left alone."""
        if self._items is None:
            self.force()
        while not self._items and self.steps is not None:
            x = next(self.steps, None)
            if x is None:
                self.steps = None
            else:
                self._items = x
        return bool(self._items)

    def take_it(self):
        it, self._items = self._items[0], self._items[1:]
        return it

    def set(self, items):
        self._items = items


class LenObj(Obj):
    def __init__(self, value, origin='new', label=None, per=()):
        super().__init__(origin, label, per)
        self.value = value

    def __repr__(self):
        return f'<Length {self.value!r}>'


class InstObj(Obj):
    def __init__(self, cls, attrs=None, origin='new', label=None, per=()):
        super().__init__(origin, label, per)
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.view = None

    def __repr__(self):
        return f'<{self.label or self.cls.name}>'


class Attrs(collections.abc.MutableMapping):
    """The entries of an instance's __dict__, kept in its attributes."""

    def __init__(self, attrs):
        self.attrs = attrs

    def __getitem__(self, k):
        n = self.name(k)
        return n, self.attrs[n]

    def __setitem__(self, k, kv):
        self.attrs[kv[0]] = kv[1]

    def __delitem__(self, k):
        del self.attrs[self.name(k)]

    def __iter__(self):
        return iter([hk(n) for n in self.attrs])

    def __len__(self):
        return len(self.attrs)

    def name(self, k):
        for n in self.attrs:
            if hk(n) == k:
                return n
        raise KeyError(k)


class StubObj(Obj):
    """An object modelled by the scenario; attrs: name -> value."""

    def __init__(self, label, attrs=None, origin='pre', cls=None):
        super().__init__(origin, label)
        self.attrs = dict(attrs or {})
        self.cls = cls

    def __repr__(self):
        return f'<{self.label}>'


class FuncV:
    def __init__(self, node, env, mod, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.name = node, env, mod, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.isgen = _is_gen(node)
        self.attrs = {}
        self.uid = next(_uid)

    def __repr__(self):
        return f'<function {self.name}>'


class BoundV:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

    def __repr__(self):
        return f'<bound {self.func!r} of {self.obj!r}>'


class NativeV:
    """A function of the modelled environment."""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f'<native {self.name}>'


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class ClassV:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod
        self.mro = self._mro()

    def _mro(self):
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, ClassV) else [b])
        seqs.append(list(self.bases))
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(_in(c, t[1:]) for t in seqs):
                    break
            else:
                raise Inconclusive('inconsistent MRO of ' + self.name)
            out.append(c)
            for s in seqs:
                if _same(s[0], c):
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassV) and name in c.ns.vars:
                return c.ns.vars[name], c
        return None

    def ext_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassV)]

    def persistent(self):
        return any(isinstance(c, Ext) and c.path in PERSISTENT for c in self.mro)

    def __repr__(self):
        return f'<class {self.name}>'


def _same(a, b):
    return a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path) or \
        (isinstance(a, BT) and isinstance(b, BT) and a.name == b.name)


def _in(a, seq):
    return any(_same(a, b) for b in seq)


PERSISTENT = {'persistent.Persistent', 'persistent.persistence.Persistent'}


class ModV:
    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path

    def __repr__(self):
        return f'<module {self.name}>'


class Ext:
    """A dotted name outside the analysed package."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'<ext {self.path}>'


class BT:
    """A builtin type or exception class."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<builtin {self.name}>'


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)   # cls: BT, ClassV or Ext
        self.attrs = {}

    def cname(self):
        return self.cls.path.split('.')[-1] if isinstance(self.cls, Ext) else self.cls.name

    def __repr__(self):
        return f'{self.cname()}({", ".join(map(repr, self.args))})'


class FamV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<family{self.name}>'


class FamMod:
    def __init__(self, fam, kv):
        self.kv = kv
        self.fam = None if kv == 'OO' else fam

    def __repr__(self):
        return f'<{self.fam}.{self.kv}>'


class FamCls:
    def __init__(self, fam, kv, kind):
        self.fam, self.kv, self.kind = fam, kv, kind

    def key(self):
        return (self.fam, self.kv, self.kind)

    def __repr__(self):
        return f'<{self.fam}.{self.kv}.{self.kind}>'


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Unknown:
    """Result of something the loader could not evaluate (poisoned value)."""

    def __init__(self, why):
        self.why = why


class Env:
    def __init__(self, parent=None, glob=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob or self
        self.globals = set()
        self.nonlocals = set()
        self.uid = next(_uid)
        self.yields = None
        self.isclass = False


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        body = [node.body]
    else:
        body = node.body
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Event:
    __slots__ = ('kind', 'obj', 'key', 'val', 'loc', 'old')

    def __init__(self, kind, obj, key, val, loc, old=None):
        self.kind, self.obj, self.key, self.val, self.loc, self.old = \
            kind, obj, key, val, loc, old

    def __repr__(self):
        return f'{self.kind} {self.obj!r}[{self.key!r}] at {self.loc}'


class Frame:
    def __init__(self):
        self.cells = {}
        self.uid0 = next(_uid)


MISSING = object()


def sumover(ctx, c, num):
    """Sum of num over the members of class c."""
    num = to_num(num)
    if not c.multi:
        return num
    if any(c in a.members for m in num.d for a, _ in m):
        return Num.atom(ctx.fn_atom(f'sum[{c.name}]', num, key=c, lo=num.interval()[0]))
    total = Num.const(0)
    for m, co in num.n.items():
        dep = tuple((a, e) for a, e in m if c in a.members)
        free = Num({tuple((a, e) for a, e in m if c not in a.members): co}, num.d)
        if dep:
            mono = Num({dep: Fraction(1)})
            lo, hi = mono.interval()
            total = total + free * Num.atom(ctx.fn_atom(
                f'sum[{c.name}]', mono, key=c, lo=lo if lo >= 0 else None,
                integral=mono.integral(),
                members=set().union(*(a.members for a in mono.atoms())) - {c}))
        else:
            total = total + free * c.card
    total.fl = num.fl
    return total


def mentions(v, c):
    if isinstance(v, Elem):
        return v is c or v.root() is c
    if isinstance(v, Num):
        return any(c in a.members for a in v.atoms())
    if isinstance(v, tuple):
        return any(mentions(x, c) for x in v)
    if isinstance(v, Obj):
        return c in v.per
    if isinstance(v, Sym):
        return any(mentions(x, c) for x in v.args)
    if isinstance(v, It):
        return mentions(v.v, c) or c in v.over
    if isinstance(v, BoundV):
        return mentions(v.obj, c)
    return False


# ---------------------------------------------------------------- path context

class Ctx:
    """State of one abstract execution: choices, facts, events."""

    def __init__(self, prefix=(), singles=()):
        self.prefix = list(prefix)
        self.taken = []             # (index, number of options, tag)
        self.singles = dict.fromkeys(singles)
        self.facts = {}
        self.forms = {}             # linear form -> [lo, hi, {excluded}]
        self.fn_atoms = []
        self.derived = {}
        self.events = []
        self.notes = []
        self.order = {}
        self.elems = {}
        self.hooks = {}
        self.path = []              # human readable decisions

    def choose(self, n, tag, labels=None):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n, tag))
        self.path.append(f'{tag} -> {labels[c] if labels else c}')
        if len(self.taken) > 220:
            raise PathBounded('too many decisions')
        return c

    def ask(self, key, tag=None, loc=None):
        """A remembered yes/no fact."""
        if key not in self.facts:
            self.facts[key] = self.choose(2, tag or str(key), ['no', 'yes']) == 1
        return self.facts[key]

    def pick(self, key, options, tag=None):
        if key not in self.facts:
            self.facts[key] = options[self.choose(len(options), tag or str(key),
                                                  [str(o) for o in options])]
        return self.facts[key]

    def fn_atom(self, fn, arg, key=None, lo=None, hi=None, integral=False, members=None):
        for f, k, a in self.fn_atoms:
            if f == fn and k is key and a.arg.same(arg):
                return a
        if members is None:
            members = set().union(*(x.members for x in arg.atoms())) if arg.atoms() else ()
            if key is not None:
                members = set(members) - {key}
        a = Atom(f'{fn}({arg})', lo, hi, integral, members, fn=fn, arg=arg)
        self.fn_atoms.append((fn, key, a))
        return a

    # -- scenario elements
    def elem(self, name, sort, kind='any', multi=False, n=2, **kw):
        """Elements of a class: one summary, or n singles once it was split."""
        if multi and name in self.singles:
            r = []
            for i in range(n if self.wide(name) else 1):
                e = Elem(f'{name}{i + 1}', sort, kind, **kw)
                e.splitname = name
                r.append(e)
            return r
        e = Elem(name, sort, kind, **kw)
        if multi:
            e.card = Num.atom(Atom(f'|{name}|', 1, None, True))
        e.splitname = name
        self.elems[name] = e
        return [e]

    def wide(self, name):
        """Only the first splits of many get all variants."""
        return len(self.singles) <= 8 or name in list(self.singles)[:3]

    def natom(self, name, lo=None, hi=None, integral=False, of=None):
        members = ()
        if of is not None and of.root().multi:
            members = (of.root(),)
        return Num.atom(Atom(name, lo, hi, integral, members))

    # -- numeric order
    def cmp(self, a, b, op):
        """Decide a op b for Nums; op in < <= == ; may split the path."""
        d = to_num(a) - to_num(b)
        if d.is_const():
            c = d.cval()
            return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
        e = evalf(d)
        if e is not None:
            c = 0 if abs(e) < 1e-9 else e
            return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
        p = d.n
        sign = 1
        if d.d != ONE:
            dlo, dhi = Num(d.d).interval()
            if dhi <= 0:
                sign = -1
            elif dlo < 0:
                return self.ask(('cmp', op, str(d)), f'{d} {op} 0')
        c0 = p.get((), Fraction(0)) * sign
        f = {m: c * sign for m, c in p.items() if m != ()}
        lead_m = min(f, key=lambda m: [(a.uid, e) for a, e in m])
        k = f[lead_m]
        f = {m: c / k for m, c in f.items()}
        key = tuple(sorted(((tuple((a.uid, e) for a, e in m), c) for m, c in f.items())))
        t = -c0 / k
        fn = Num(f)
        integral = fn.integral()
        lo, hi = fn.interval()
        st = self.forms.setdefault(key, [lo, hi, set()])
        lo, hi, ne = max(lo, st[0]), min(hi, st[1]), st[2]
        # d op 0  <=>  k*f op t*k
        if op == '==':
            if t < lo or t > hi or t in ne or (integral and t.denominator != 1):
                return False
            if lo == hi == t:
                return True
        else:
            if k > 0:       # f < t   /  f <= t
                strict = op == '<'
                if hi < t or (not strict and hi <= t):
                    return True
                if lo > t or (strict and lo >= t):
                    return False
                if integral and strict and hi <= t - 1:
                    return True
            else:           # f > t  / f >= t
                strict = op == '<'
                if lo > t or (not strict and lo >= t):
                    return True
                if hi < t or (strict and hi <= t):
                    return False
            if integral and not strict:
                pass
        ix = [a for a in fn.atoms() if a.fn in (None, 'div', 'mod')]
        if ix and d.d == ONE and any(c.sort == 'index' for a in ix for c in a.members):
            import bits
            bits.cut(self, d, op)
        r = self.choose(2, f'{d} {op} 0', ['no', 'yes']) == 1
        if op == '==':
            if r:
                st[0] = st[1] = t
            else:
                ne.add(t)
                while integral and st[0] in ne:
                    st[0] += 1
                while integral and st[1] in ne:
                    st[1] -= 1
        else:
            up = (k > 0) == r          # f is bounded above by t
            strict = (op == '<') == r  # strictness of the bound on f
            if up:
                nb = t
                if integral:
                    import math
                    nb = math.ceil(t) - 1 if strict else math.floor(t)
                elif strict:
                    ne.add(t)
                st[1] = min(st[1], hi, nb)
            else:
                nb = t
                if integral:
                    import math
                    nb = math.floor(t) + 1 if strict else math.ceil(t)
                elif strict:
                    ne.add(t)
                st[0] = max(st[0], lo, nb)
        return r


def touched(st, env):
    """Names a statement binds, and containers it may change."""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return {st.name}
    return {t.id for t in ast.walk(st) if isinstance(t, ast.Name) and
            (isinstance(t.ctx, ast.Store) or
             isinstance(env.vars.get(t.id), (MapObj, SetObj, ListObj)))}


class _Undecided(Exception):
    pass


def decided(ctx, a, b, op):
    """a op b if the facts of the path settle it, else None."""
    def no(*a, **k):
        raise _Undecided()
    ctx.choose = no
    try:
        return ctx.cmp(a, b, op)
    except _Undecided:
        return None
    finally:
        del ctx.choose


def explore(run, singles=(), max_paths=4000):
    """Enumerate all paths of run(ctx); yields (ctx, outcome)."""
    prefix = []
    n = 0
    while True:
        ctx = Ctx(prefix, singles)
        try:
            out = run(ctx)
        except PathBounded as e:
            out = ('bounded', str(e))
        except Infeasible:
            out = ('infeasible', None)
        except Inconclusive as e:
            out = ('undecided', str(e))
        yield ctx, out
        n += 1
        if n >= max_paths:
            yield ctx, ('undecided', f'more than {max_paths} paths')
            return
        t = [(c, k) for c, k, _ in ctx.taken]
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [c for c, _ in t]
        prefix[-1] += 1


# ---------------------------------------------------------------- program

def folded(n):
    """The value of an expression of integer literals, or None."""
    if isinstance(n, ast.Constant):
        return int(n.value) if type(n.value) in (int, float) and abs(n.value) < 1e9 else None
    if isinstance(n, ast.BinOp):
        a, b = folded(n.left), folded(n.right)
        if a is None or b is None:
            return None
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.LShift) and 0 <= b < 32:
            return a << b
        if isinstance(n.op, ast.Pow) and 0 <= b < 32 and abs(a) < 100:
            return a ** b
    return None


class Program:
    def __init__(self, root, pure=False):
        self.root = root            # directory that contains the package zope
        self.pure = pure
        self.mods = {}
        self.files = {}
        self.interp = Interp(self)
        self.nfuncs = 0
        self.funcs_seen = set()
        self.stubs = {}
        self.loading = True
        self.ints = None

    def find(self, name):
        base = os.path.join(self.root, *name.split('.'))
        for f in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(f):
                return f

    def constants(self):
        """The integers that occur in the package's current source (tests and codecs aside)."""
        if self.ints is None:
            self.ints = set()
            top = os.path.join(self.root, 'zope', 'index')
            for d, _, names in os.walk(top):
                if os.path.basename(d) == 'tests':
                    continue
                for n in names:
                    if n.endswith('.py') and n not in ('tests.py', 'ricecode.py', 'widcode.py'):
                        try:
                            with open(os.path.join(d, n)) as h:
                                tree = ast.parse(h.read())
                        except (SyntaxError, ValueError):
                            continue
                        self.ints.update(x for x in map(folded, ast.walk(tree)) if x is not None)
        return self.ints

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            return None
        src = open(f).read()
        tree = ast.parse(src, f)
        env = Env()
        m = ModV(name, env, f)
        self.mods[name] = m
        self.files[f] = tree
        cuts = set()
        while not self.run_module(m, env, tree, f, name, cuts):
            pass
        return m

    def run_module(self, m, env, tree, f, name, cuts):
        """Execute the module's statements; False: again, with a range cut."""
        env.vars.clear()
        env.vars['__name__'] = name
        env.vars['__file__'] = f
        it = self.interp
        saved = it.ctx, it.stack, it.loadmode
        it.ctx, it.stack, it.loadmode = Ctx(singles=cuts), [], True
        it.push(f, '<module>')
        notes = self.stubs.setdefault('load', [])
        try:
            for st in tree.body:
                why = None
                try:
                    it.stmt(st, env, m)
                except NeedSplit as e:
                    if isinstance(e.what, tuple) and e.what[0] == 'cut' and \
                            e.what not in cuts and len(cuts) < 8:
                        cuts.add(e.what)
                        return False
                    why = f'{f}:{st.lineno}: {e!r}'
                except (Inconclusive, RaiseEx) as e:
                    why = f'{f}:{st.lineno}: {e!r}'
                if it.ctx.taken and why is None:
                    why = f'{f}:{st.lineno}: undecided at load: {it.ctx.taken[-1][2]}'
                if why:
                    for n in touched(st, env):
                        env.vars[n] = Unknown(why)
                    notes.append(why)
                    it.ctx = Ctx(singles=cuts)
        finally:
            it.ctx, it.stack, it.loadmode = saved
        return True

    def cls(self, dotted):
        mod, name = dotted.rsplit('.', 1)
        m = self.load(mod)
        if m is None:
            raise LookupError(f'module {mod} not found')
        v = m.env.vars.get(name)
        if isinstance(v, Unknown):
            raise Inconclusive(f'{dotted}: {v.why}')
        if v is None:
            raise LookupError(f'{dotted} not found')
        return v

    def rel(self, f):
        return os.path.relpath(f, os.path.dirname(self.root)) if f else '?'


from interp import Interp  # noqa: E402  (mutual import)
