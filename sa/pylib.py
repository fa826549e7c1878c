"""More of Python's own library for the abstract interpreter.

Tables that extend those of lib.py: itertools, operator, functools, contextlib, math, namedtuple,
dataclass and enum.  Nothing here knows anything about zope.index.
"""
import builtins
import collections
import math
import operator
import types

import engine as E
import lib
from engine import MISSING, It
from num import Num, to_num


# ------------------------------------------------------------------ attributes of real types

BT_BOTH = set('''__and__ __bool__ __contains__ __implemented__ __iter__ __len__ __or__
__providedBy__ __provides__ __rand__ __ror__ __rsub__ __setstate__ __slotnames__ __sub__
_bucket_type _check _firstbucket clear has_key keys maxKey max_internal_size max_leaf_size minKey
pop update'''.split())
BT_MAP = BT_BOTH | set('''__delitem__ __getitem__ __setitem__ byValue get insert items iteritems
iterkeys itervalues popitem setdefault values'''.split())
BT_SET = BT_BOTH | set('__iand__ __ior__ __isub__ __ixor__ __rxor__ __xor__ add discard insert '
                       'isdisjoint remove'.split())
KINDS = {'defaultdict': collections.defaultdict, 'Counter': collections.Counter,
         'OrderedDict': collections.OrderedDict, 'deque': collections.deque,
         'bytearray': bytearray, 'tuple': tuple, 'list': list, 'dict': dict}


def _array():
    import array
    return array.array


KINDS['array'] = _array()


def real_type(o):
    """The Python types an abstract value may have, or None if its attributes are all modelled."""
    if isinstance(o, E.ListObj):
        return KINDS.get(o.kind, list)
    if isinstance(o, E.MapObj):
        return KINDS.get(o.kind, dict)
    if isinstance(o, E.SetObj):
        return frozenset if o.frozen else set
    if isinstance(o, bool):
        return bool
    if isinstance(o, Num):
        return float if o.fl else int
    if o is None or isinstance(o, (int, str, bytes, tuple, slice)):
        return type(o)
    if isinstance(o, E.FuncV):
        return types.FunctionType
    if isinstance(o, E.BoundV):
        return types.MethodType
    if isinstance(o, E.NativeV):
        return types.FunctionType
    if isinstance(o, E.IterObj):
        return types.GeneratorType
    if isinstance(o, lib.ViewObj):
        return type({}.items())
    if isinstance(o, E.PropV):
        return property
    if isinstance(o, E.Elem):
        return {'str': str, 'int': int}.get(o.kind)
    if isinstance(o, lib.RangeV):
        return range
    return None


def real_has(o, name):
    """Does the real object have an attribute the model of it leaves out?"""
    if getattr(o, 'bt', None):
        return name in (BT_MAP if isinstance(o, E.MapObj) else BT_SET) or hasattr(object, name) \
            or name.startswith('_p_')
    if isinstance(o, E.BT):
        t = getattr(builtins, o.name, None)
        return t is not None and hasattr(t, name)
    if isinstance(o, (E.ClassV, E.FamCls)):
        return hasattr(type, name) or name in ('__dict__', '__module__', '__annotations__')
    if isinstance(o, E.ExcV):
        b = o.cls.name if isinstance(o.cls, E.BT) else None
        return not isinstance(o.cls, (E.BT, E.ClassV)) or \
            hasattr(getattr(builtins, b, BaseException) if b else BaseException, name)
    if isinstance(o, E.InstObj):
        return hasattr(object, name) or name in ('__module__', '__weakref__') or \
            o.cls.persistent() and (name.startswith('_p_') or
                                    name in ('__setstate__', '__slotnames__', '__providedBy__'))
    if isinstance(o, E.LenObj):
        return name.startswith('_')
    if isinstance(o, E.ModV):
        return name.startswith('__')
    if isinstance(o, E.Elem) and o.kind == 'any':
        return any(hasattr(t, name) for t in (str, int, float, tuple, list, dict))
    t = real_type(o)
    return t is not None and (hasattr(t, name) or
                              t is types.FunctionType and name in ('__module__', '__dict__'))


# ------------------------------------------------------------------ iterators

class InfIter(E.IterObj):
    """An iterator without an end."""

    def __init__(self, nth, const=False):
        super().__init__(None, None)
        self.nth, self.pos, self.const = nth, 0, const

    def force(self):
        raise E.Inconclusive('all items of an infinite iterator')

    def take(self):
        self.pos += 1
        return self.nth(self.pos - 1)


def vals(ip, s):
    return [x.v for x in ip.singles(ip.collect(s))]


def lazy(ip, fn):
    return ip.new(E.IterObj(None, lambda: [It(v) for v in fn()]))


def each(ip, seq, body, out):
    """A lazy iterator: body is run for one item of seq after the other; it fills out[0]."""
    r = ip.new(E.IterObj([]))
    if isinstance(seq, InfIter):
        def steps():
            for _ in range(5000):
                out[0] = ip.new(E.ListObj())
                ip.run_item(It(seq.take()), body, {'env': -1, 'names': set()})
                yield out[0].items
            raise E.PathBounded('an infinite iterator')
    else:
        src = seq if isinstance(seq, E.IterObj) else ip.new(E.IterObj(ip.iter_items(seq)))

        def steps():
            while src.pull():
                it = src.take_it()
                out[0] = ip.new(E.ListObj())
                ip.run_item(it, body, {'env': -1, 'names': set()})
                yield out[0].items
    r.steps = steps()
    return r


def mapped(ip, seq, fn):
    """A lazy iterator over fn(item), without the MISSING ones."""
    out = [None]

    def body(x):
        v = fn(x)
        if v is not MISSING:
            ip.list_append(out[0], v)
    return each(ip, seq, body, out)


def stepped(ip, o):
    """Items of an object with __next__."""
    f = o.cls.lookup('__next__')
    if not f:
        raise ip.exc('TypeError', 'not an iterator')
    out = []
    while len(out) < 5000:
        try:
            out.append(It(ip.call(f[0], [o])))
        except E.RaiseEx as e:
            if ip.exc_match(e.exc, E.BT('StopIteration')):
                return out
            raise
    raise E.PathBounded('an iterator object')


def indexed(ip, o):
    """Items of an object with __getitem__ only."""
    out = []
    while len(out) < 5000:
        try:
            out.append(It(ip.call(o.cls.lookup('__getitem__')[0], [o, len(out)])))
        except E.RaiseEx as e:
            if ip.exc_match(e.exc, E.BT('IndexError')):
                return out
            raise
    raise E.PathBounded('a sequence object')


def accumulate(ip, seq, func=None, *, initial=None):
    def run():
        xs = vals(ip, seq)
        if initial is not None:
            xs = [initial] + xs
        out = xs[:1]
        for x in xs[1:]:
            out.append(lib.binop(ip, 'Add', out[-1], x) if func is None else
                       ip.call(func, [out[-1], x]))
        return out
    return lazy(ip, run)


def pairwise(ip, seq):
    def run():
        xs = vals(ip, seq)
        return list(zip(xs, xs[1:]))
    return lazy(ip, run)


def zip_longest(ip, *seqs, fillvalue=None):
    def run():
        ls = [vals(ip, s) for s in seqs]
        n = max(map(len, ls), default=0)
        return [tuple(x[i] if i < len(x) else fillvalue for x in ls) for i in range(n)]
    return lazy(ip, run)


def starmap(ip, f, seq):
    return mapped(ip, seq, lambda t: ip.call(f, ip.unpack(t)))


def compress(ip, data, sel):
    return lazy(ip, lambda: [d for d, s in zip(vals(ip, data), vals(ip, sel)) if ip.truth(s)])


def product(ip, *seqs, repeat=1):
    import itertools
    return lazy(ip, lambda: list(itertools.product(*[vals(ip, s) for s in seqs], repeat=repeat)))


def combos(name):
    def f(ip, seq, r=None):
        import itertools
        def run():
            xs = vals(ip, seq)
            n = len(xs) if r is None else r
            return list(getattr(itertools, name)(xs, n))
        return lazy(ip, run)
    return f


def tee(ip, seq, n=2):
    items = ip.collect(seq)
    return tuple(ip.new(E.IterObj(list(items))) for _ in range(n))


def groupby(ip, seq, key=None):
    def run():
        out = []
        for x in vals(ip, seq):
            k = x if key is None else ip.call(key, [x])
            if out and ip.eq_full(out[-1][0], k):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return [(k, ip.new(E.IterObj([It(x) for x in g]))) for k, g in out]
    return lazy(ip, run)


def cycle(ip, seq):
    xs = vals(ip, seq)
    if not xs:
        return ip.new(E.IterObj([]))
    return ip.new(InfIter(lambda i: xs[i % len(xs)]))


def count(ip, start=0, step=1):
    return ip.new(InfIter(lambda i: lib.num_op(ip, 'Add', start, lib.num_op(ip, 'Mult', i, step))))


def repeat(ip, v, times=None):
    if times is None:
        return ip.new(InfIter(lambda i: v, const=True))
    if isinstance(times, Num) and times.is_const():
        times = int(times.cval())
    if not isinstance(times, int):
        ip.fail('repeat() of an unknown number')
    return ip.new(E.IterObj([It(v)] * times))


def merge(ip, *seqs, key=None, reverse=False):
    def run():
        ls = [vals(ip, s) for s in seqs]
        ks = [[x if key is None else ip.call(key, [x]) for x in x_] for x_ in ls]
        pos = [0] * len(ls)
        out = []
        while True:
            best = None
            for i in range(len(ls)):
                if pos[i] >= len(ls[i]):
                    continue
                a, b = ks[i][pos[i]], best is not None and ks[best][pos[best]]
                if best is None or (ip.lt(b, a) if reverse else ip.lt(a, b)):
                    best = i
            if best is None:
                return out
            out.append(ls[best][pos[best]])
            pos[best] += 1
    return lazy(ip, run)


def bi_iter(ip, v, *s):
    if not s:
        return lib.make_iter(ip, v)

    def run():
        out = []
        while True:
            x = ip.call(v, [])
            if ip.eq_full(x, s[0]):
                return out
            out.append(x)
            if len(out) > 5000:
                raise E.PathBounded('iter() with a sentinel')
    return lazy(ip, run)


# ------------------------------------------------------------------ operators and numbers

def op2(name):
    return lambda ip, a, b: lib.binop(ip, name, a, b)


def iop(name):
    import ast
    node = getattr(ast, name)()
    return lambda ip, a, b: ip.augop(node, a, b)


def cmp2(name):
    return lambda ip, a, b: ip.compare(name, a, b)


def neg(ip, v):
    return ip.simp(-v) if isinstance(v, Num) else -v if isinstance(v, int) else ip.fail('neg')


def ceil(ip, v):
    if isinstance(v, int):
        return v
    v = to_num(v)
    if v.is_const():
        return math.ceil(v.cval())
    if v.integral():
        return lib.bi_int(ip, v)
    ip.fail('math.ceil')


def floor(ip, v):
    if isinstance(v, int):
        return v
    v = to_num(v)
    if v.is_const():
        return math.floor(v.cval())
    return lib.bi_int(ip, v)


def mprod(ip, seq, start=1):
    for v in vals(ip, seq):
        start = lib.num_op(ip, 'Mult', start, v)
    return start


def native_math(name):
    def f(ip, *a):
        if not all(isinstance(x, int) for x in a):
            ip.fail('math.' + name)
        return getattr(math, name)(*a)
    return f


def is_inf(ip, v):
    if isinstance(v, E.Sym) and v.op == 'inf':
        return True
    if isinstance(v, (int, Num)):
        return False
    ip.fail('math.isinf')


def base_fn(name):
    def f(ip, v):
        if isinstance(v, Num) and v.is_const() and v.integral():
            v = int(v.cval())
        if lib.deep_native(v):
            return getattr(builtins, name)(v)
        return E.Sym('fmt', name, v)
    return f


def bi_pow(ip, a, b, m=None):
    r = lib.num_op(ip, 'Pow', a, b)
    return r if m is None else lib.num_op(ip, 'Mod', r, m)


def bi_format(ip, v, spec=''):
    return fmt(ip, v, -1, spec)


def concrete(v):
    """The Python value of a fully known abstract value, or MISSING."""
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if isinstance(v, Num) and v.is_const():
        c = v.cval()
        return float(c) if v.fl else int(c) if c.denominator == 1 else float(c)
    if isinstance(v, E.ExcV):
        return exc_value(v)
    if type(v) is tuple:
        r = [concrete(x) for x in v]
        return MISSING if any(x is MISSING for x in r) else tuple(r)
    if isinstance(v, E.ListObj) and v.kind == 'list' and not getattr(v, 'arr', None) and \
            all(it.occ is None and not it.over for it in v.items):
        r = [concrete(it.v) for it in v.items]
        return MISSING if any(x is MISSING for x in r) else r
    if isinstance(v, E.SetObj) and v.bt is None:
        r = [concrete(x) for x in v.d.values()]
        if any(x is MISSING for x in r) or len(r) > 1:
            return MISSING
        return (frozenset if v.frozen else set)(r)
    if isinstance(v, E.MapObj) and v.bt is None and v.kind in (None, 'dict'):
        r = [(concrete(a), concrete(b)) for a, b in v.d.values()]
        return MISSING if any(x is MISSING for p in r for x in p) else dict(r)
    return MISSING


def exc_value(e):
    if not isinstance(e.cls, E.BT) or e.cls.name not in lib.T_EXC:
        if isinstance(e.cls, E.ClassV) and not any(e.cls.lookup(n) for n in ('__str__', '__repr__')):
            a = [concrete(x) for x in e.args]
            if not any(x is MISSING for x in a):
                return type(e.cls.name, (Exception,), {})(*a)
        return MISSING
    a = [concrete(x) for x in e.args]
    if any(x is MISSING for x in a):
        return MISSING
    try:
        return lib.T_EXC[e.cls.name](*a)
    except TypeError:
        return MISSING


def fmt(ip, v, conv, spec):
    """The text of a formatted value."""
    if isinstance(spec, str):
        if conv == -1 and spec == '' and lib.is_str(v):
            return v
        if isinstance(v, E.InstObj) and spec == '':
            f = conv != 114 and v.cls.lookup('__str__') or v.cls.lookup('__repr__')
            if f:
                return ip.call(f[0], [v])
        if isinstance(v, E.ExcV) and conv == -1 and spec == '' and len(v.args) == 1 and \
                lib.is_str(v.args[0]) and isinstance(v.cls, E.BT) and v.cls.name != 'KeyError':
            return v.args[0]
        c = concrete(v)
        if c is not MISSING:
            c = {115: str, 114: repr, 97: ascii}.get(conv, lambda x: x)(c)
            try:
                return format(c, spec)
            except (ValueError, TypeError) as e:
                raise ip.exc(type(e).__name__, str(e))
    return E.Sym('fmt', conv, v) if spec == '' else E.Sym('fmt', conv, v, spec)


# ------------------------------------------------------------------ functools

def copy_of(ip, a):
    """A key of a cached call; unhashable arguments are refused."""
    for x in a:
        if isinstance(x, (E.ListObj, E.MapObj, E.SetObj)) and not getattr(x, 'bt', None) and \
                not getattr(x, 'frozen', False):
            raise ip.exc('TypeError', 'unhashable type')
    return tuple(a)


def lru_cache(ip, f=None, maxsize=128, typed=False):
    if not isinstance(f, (E.FuncV, E.BoundV, E.NativeV, E.ClassV)):
        if f is not None:
            maxsize = f
        return E.NativeV('lru_cache', lambda ip, a, kw: lru_cache(ip, a[0], maxsize, typed))
    me = E.NativeV(getattr(f, 'name', 'cached'), None, {'__method__': True, '__wrapped__': f})

    def call(ip, a, kw):
        if maxsize == 0:
            return ip.call(f, a, kw)
        memo = ip.ctx.__dict__.setdefault('memo', {}).setdefault(id(me), [])
        key = copy_of(ip, list(a) + [x for k in sorted(kw) for x in (k, kw[k])])
        for k, r in memo:
            if len(k) == len(key) and all(
                    x is y or type(x) is type(y) and ip.eq_full(x, y) for x, y in zip(k, key)):
                return r
        r = ip.call(f, a, kw)
        memo.append((key, r))
        return r

    def clear(ip, a, kw):
        ip.ctx.__dict__.setdefault('memo', {})[id(me)] = []
    me.fn = call
    me.attrs['cache_clear'] = E.NativeV('cache_clear', clear)
    return me


class CachedProp(E.PropV):
    def __init__(self, f):
        super().__init__(f)
        self.name = f.name


def cached_get(ip, p, o):
    if p.name in o.attrs:
        return o.attrs[p.name]
    v = ip.call(p.fget, [o])
    if o.cls.persistent():
        ip.fail('cached_property of a persistent object')
    ip.raw_set_attr(o, p.name, v)
    return v


class _KeyNS:
    def __init__(self, d):
        self.vars = d


def cmp_to_key(ip, f):
    def rel(op):
        def g(ip, a, kw):
            r = ip.call(f, [a[0].attrs['obj'], a[1].attrs['obj']])
            return ip.compare(op, r, 0)
        return E.NativeV(op, g, {'__method__': True})
    c = E.ClassV('K', [E.BT('object')], _KeyNS(
        {'__lt__': rel('Lt'), '__le__': rel('LtE'), '__gt__': rel('Gt'), '__ge__': rel('GtE'),
         '__eq__': rel('Eq')}), None)
    return E.NativeV('key', lambda ip, a, kw: ip.new(E.InstObj(c, {'obj': a[0]})))


def wraps(ip, f, *a, **kw):
    def deco(ip, b, kw):
        if isinstance(b[0], E.FuncV) and isinstance(f, E.FuncV):
            b[0].attrs['__name__'] = f.attrs.get('__name__', f.name)
            b[0].attrs['__wrapped__'] = f
        return b[0]
    return E.NativeV('wraps', deco)


# ------------------------------------------------------------------ context managers

class CtxGen(E.Obj):
    """A call of a generator function decorated with contextmanager."""

    def __init__(self, f, args, kw):
        super().__init__('new', 'context manager')
        self.f, self.call_args, self.kw = f, args, kw


class NullCtx(E.Obj):
    def __init__(self, v):
        super().__init__('new', 'nullcontext')
        self.v = v


def contextmanager(ip, f):
    if not isinstance(f, E.FuncV):
        ip.fail('contextmanager')
    return E.NativeV(f.name, lambda ip, a, kw: ip.new(CtxGen(f, a, kw)), {'__method__': True})


def closing(ip, v):
    ip.fail('contextlib.closing')


# ------------------------------------------------------------------ records

class NTuple(tuple):
    """A named tuple."""
    cls = None


class NTClass(E.NativeV):
    def __init__(self, name, fields, defaults=(), ns=None):
        super().__init__(name, None, {'_fields': tuple(fields), '__name__': name})
        self.fields, self.defaults, self.ns = list(fields), list(defaults), ns or {}
        self.fn = self.make
        self.attrs['_make'] = E.NativeV('_make', lambda ip, a, kw: self.make(ip, vals(ip, a[0]), {}))

    def make(self, ip, a, kw):
        n = len(self.fields)
        vs = dict(zip(self.fields[n - len(self.defaults):], self.defaults))
        if len(a) > n or any(k not in self.fields or k in self.fields[:len(a)] for k in kw):
            raise ip.exc('TypeError', f'{self.name}() arguments')
        vs.update(zip(self.fields, a))
        vs.update(kw)
        if len(vs) < n:
            raise ip.exc('TypeError', f'{self.name}() arguments')
        t = NTuple(vs[f] for f in self.fields)
        t.cls = self
        return t


def namedtuple(ip, name, fields, *, defaults=None, rename=False, module=None):
    fs = fields.replace(',', ' ').split() if isinstance(fields, str) else vals(ip, fields)
    if not all(isinstance(f, str) for f in fs):
        ip.fail('namedtuple')
    return NTClass(name, fs, vals(ip, defaults) if defaults is not None else ())


def nt_attr(ip, o, name):
    c = o.cls
    if name in c.fields:
        return o[c.fields.index(name)]
    if name in c.ns:
        v = c.ns[name]
        if isinstance(v, E.FuncV):
            return E.BoundV(o, v)
        if isinstance(v, E.PropV):
            return ip.call(v.fget, [o])
        if isinstance(v, E.StaticV):
            return v.f if v.kind == 'static' else E.BoundV(c, v.f)
        return v
    if name == '_fields':
        return tuple(c.fields)
    if name == '_replace':
        return E.NativeV(name, lambda ip, a, kw: c.make(ip, [], {**dict(zip(c.fields, o)), **kw}))
    if name == '_asdict':
        return E.NativeV(name, lambda ip, a, kw: ip.new(E.MapObj(None, zip(c.fields, o))))
    return MISSING


def dc_field(ip, *, default=MISSING, default_factory=MISSING, **kw):
    s = E.Sym('dcfield')
    s.info.update(default=default, factory=default_factory, **kw)
    return s


def dataclass(ip, c=None, **opts):
    if c is None:
        return E.NativeV('dataclass', lambda ip, a, kw: dataclass(ip, a[0], **opts))
    if not isinstance(c, E.ClassV) or opts.get('order'):
        ip.fail('dataclass')
    fields = {}
    for b in reversed(c.mro[1:]):
        fields.update(getattr(b, 'dcfields', {}))
    for n in getattr(c, 'annotated', ()):
        fields[n] = c.ns.vars.get(n, MISSING)
    c.dcfields = fields
    for n, v in list(c.ns.vars.items()):
        if isinstance(v, E.Sym) and v.op == 'dcfield':
            if v.info['default'] is MISSING:
                del c.ns.vars[n]
            else:
                c.ns.vars[n] = v.info['default']

    def init(ip, a, kw):
        o, a = a[0], list(a[1:])
        for n, d in fields.items():
            f = d.info if isinstance(d, E.Sym) and d.op == 'dcfield' else {'default': d}
            if f.get('init', True) and a and not opts.get('kw_only'):
                v = a.pop(0)
                if n in kw:
                    raise ip.exc('TypeError', 'multiple values')
            elif f.get('init', True) and n in kw:
                v = kw.pop(n)
            elif f.get('default', MISSING) is not MISSING:
                v = f['default']
            elif f.get('factory', MISSING) is not MISSING:
                v = ip.call(f['factory'], [])
            else:
                raise ip.exc('TypeError', f'missing argument {n}')
            ip.raw_set_attr(o, n, v)
        if a or kw:
            raise ip.exc('TypeError', 'unexpected arguments')
        post = o.cls.lookup('__post_init__')
        if post:
            ip.call(post[0], [o])

    def same(ip, a, kw):
        x, y = a
        if not isinstance(y, E.InstObj) or y.cls is not x.cls:
            return False
        return all(ip.eq_full(x.attrs[n], y.attrs[n]) for n in fields)
    if '__init__' not in c.ns.vars and opts.get('init', True):
        c.ns.vars['__init__'] = E.NativeV('__init__', init, {'__method__': True})
    if '__eq__' not in c.ns.vars and opts.get('eq', True):
        c.ns.vars['__eq__'] = E.NativeV('__eq__', same, {'__method__': True})
    return c


ENUMS = ('enum.Enum', 'enum.unique')


def make_enum(ip, c, names):
    """Members of an Enum class."""
    c.members = {}
    for n in names:
        v = c.ns.vars[n]
        if n.startswith('_') or isinstance(v, (E.FuncV, E.PropV, E.StaticV, E.NativeV, E.ClassV)):
            continue
        if isinstance(v, E.Sym) and v.op == 'enum.auto':
            v = len(c.members) + 1
        m = next((m for m in c.members.values() if ip.eq(m.attrs['value'], v)), None)
        if m is None:
            m = ip.new(E.InstObj(c, {'name': n, 'value': v, '_name_': n, '_value_': v}))
        c.members[n] = m
        c.ns.vars[n] = m


# ------------------------------------------------------------------ others

def deepcopy(ip, v, memo=None):
    if isinstance(v, E.ListObj) and not getattr(v, 'arr', None):
        return ip.new(E.ListObj([It(deepcopy(ip, i.v), i.occ, i.over) for i in v.items],
                                kind=v.kind))
    if isinstance(v, E.MapObj) and v.bt is None and all(
            isinstance(k, (str, int, E.Elem, Num)) or lib.deep_native(k) for k, _ in v.d.values()):
        m = lib.map_copy(ip, v)
        if all(lib.deep_native(x) or isinstance(x, (Num, E.Elem)) for _, x in v.d.values()):
            return m
        if v.card_free() if hasattr(v, 'card_free') else True:
            for k, x in list(v.d.values()):
                ip.map_set(m, k, deepcopy(ip, x))
            return m
    if isinstance(v, tuple):
        return type(v)(deepcopy(ip, x) for x in v) if type(v) is tuple else ip.fail('deepcopy')
    if lib.native(v) or isinstance(v, (Num, E.Elem, E.FuncV, E.ClassV, E.BT)):
        return v
    if isinstance(v, E.SetObj):
        return lib.copy_(ip, v)
    ip.fail('deepcopy')


def count_update(ip, m, o, kw, sign):
    def bump(k, n):
        v = ip.map_get(m, k)
        ip.map_set(m, k, lib.num_op(ip, 'Add' if sign > 0 else 'Sub', 0 if v is MISSING else v, n))
    if isinstance(o, E.MapObj):
        ip.foreach(lib.get_attr(ip, o, 'items').fn(ip, [], {}), lambda p: bump(*p))
    else:
        ip.foreach(o, lambda x: bump(x, 1))
    for k, n in kw.items():
        bump(k, n)


def most_common(ip, m, n=None):
    if m.kind != 'Counter':
        return MISSING
    items = [It((k, v)) for k, v in m.d.values()]
    items = ip.singles(ip.collect(lib.get_attr(ip, m, 'items').fn(ip, [], {})))
    by = E.NativeV('count', lambda ip, a, kw: a[0][1])
    out = lib.sort_items(ip, items, by, True)
    return ip.new(E.ListObj(out if n is None else out[:n]))


def move_to_end(ip, m, k, last=True):
    h = ip.map_find(m, k)
    if h is None:
        raise ip.exc('KeyError', k)
    v = m.d[h][1]
    if not last:
        rest = [(a, b) for x, (a, b) in m.d.items() if x != h]
        ip.map_del(m, k)
        for a, _ in rest:
            ip.map_del(m, a)
        ip.map_set(m, k, v)
        for a, b in rest:
            ip.map_set(m, a, b)
        return
    ip.map_del(m, k)
    ip.map_set(m, k, v)


def rotate(ip, l, n=1):
    items = [It(v) for v in vals(ip, l)]
    if items:
        n %= len(items)
        ip.list_set(l, items[-n:] + items[:-n] if n else items)


def ordered(ip, *a, **kw):
    m = lib.bi_dict(ip, *a, **kw)
    m.kind = 'OrderedDict'
    return m


EXT = {
    'itertools.accumulate': accumulate, 'itertools.pairwise': pairwise,
    'itertools.zip_longest': zip_longest, 'itertools.starmap': starmap,
    'itertools.compress': compress, 'itertools.product': product,
    'itertools.combinations': combos('combinations'),
    'itertools.permutations': combos('permutations'),
    'itertools.combinations_with_replacement': combos('combinations_with_replacement'),
    'itertools.tee': tee, 'itertools.groupby': groupby, 'itertools.cycle': cycle,
    'itertools.count': count, 'itertools.repeat': repeat, 'heapq.merge': merge,
    'operator.truth': lambda ip, v: ip.truth(v), 'operator.neg': neg,
    'operator.pos': lambda ip, v: v,
    'operator.getitem': lambda ip, o, k: lib.getitem(ip, o, k),
    'operator.setitem': lambda ip, o, k, v: lib.setitem(ip, o, k, v),
    'operator.delitem': lambda ip, o, k: lib.delitem(ip, o, k),
    'operator.concat': op2('Add'), 'operator.index': lambda ip, v: lib.bi_int(ip, v),
    'operator.countOf': lambda ip, s, v: sum(1 for x in vals(ip, s) if ip.eq(x, v)),
    'operator.length_hint': lambda ip, v, d=0: ip.length(v),
    'math.ceil': ceil, 'math.floor': floor, 'math.trunc': lambda ip, v: lib.bi_int(ip, v),
    'math.prod': mprod, 'math.gcd': native_math('gcd'), 'math.isqrt': native_math('isqrt'),
    'math.comb': native_math('comb'), 'math.factorial': native_math('factorial'),
    'math.isinf': is_inf, 'math.isnan': lambda ip, v: is_inf(ip, v) and False,
    'math.isfinite': lambda ip, v: not is_inf(ip, v),
    'math.fabs': lambda ip, v: lib.bi_float(ip, lib.bi_abs(ip, v)),
    'functools.lru_cache': lru_cache, 'functools.cache': lambda ip, f: lru_cache(ip, f, None),
    'functools.cached_property': lambda ip, f: CachedProp(f),
    'functools.cmp_to_key': cmp_to_key, 'functools.wraps': wraps,
    'functools.update_wrapper': lambda ip, w, f, **k: w,
    'contextlib.contextmanager': contextmanager,
    'contextlib.nullcontext': lambda ip, v=None: ip.new(NullCtx(v)),
    'contextlib.closing': closing,
    'collections.namedtuple': namedtuple, 'collections.OrderedDict': ordered,
    'dataclasses.dataclass': dataclass, 'dataclasses.field': dc_field,
    'enum.auto': lambda ip: E.Sym('enum.auto'), 'enum.unique': lambda ip, c: c,
    'copy.deepcopy': deepcopy, 're.finditer': lib.re_fn('finditer'), 're.subn': lib.re_fn('subn'),
    'typing.cast': lambda ip, t, v: v,
}
for _n, _op in {'sub': 'Sub', 'truediv': 'Div', 'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
                'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'lshift': 'LShift',
                'rshift': 'RShift'}.items():
    EXT['operator.' + _n] = op2(_op)
for _n, _op in {'iadd': 'Add', 'isub': 'Sub', 'imul': 'Mult', 'ior': 'BitOr', 'iand': 'BitAnd',
                'ixor': 'BitXor', 'iconcat': 'Add'}.items():
    EXT['operator.' + _n] = iop(_op)
for _n, _op in {'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq', 'ne': 'NotEq',
                'is_': 'Is', 'is_not': 'IsNot'}.items():
    EXT['operator.' + _n] = cmp2(_op)

lib.EXT.update(EXT)
lib.BI.update({'iter': bi_iter, 'bin': base_fn('bin'), 'hex': base_fn('hex'), 'oct': base_fn('oct'),
               'ascii': base_fn('ascii'), 'pow': bi_pow, 'format': bi_format})
lib.MAP.update({'subtract': lambda ip, m, o=(), **kw: count_update(ip, m, o, kw, -1),
                'most_common': most_common, 'move_to_end': move_to_end})
lib.LIST.update({'rotate': rotate})
E.InfIter = InfIter
_ = operator
