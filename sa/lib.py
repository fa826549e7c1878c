"""Models of the builtins, BTrees, and the few library modules /repo uses."""
import builtins
import math
import re as _re
import string
from fractions import Fraction

import engine as E
from engine import It, MISSING
from num import Atom, Num, to_num
from interp import T_EXC, native, deep_native

SUPER = E.BT('super')
PLAIN_BASES = {'zope.interface.Interface', 'abc.ABC', 'typing.Generic'}
BTYPES = {'object', 'int', 'float', 'bool', 'str', 'bytes', 'list', 'tuple', 'dict', 'set',
          'frozenset', 'type', 'property', 'staticmethod', 'classmethod', 'slice', 'range',
          'complex', 'bytearray', 'memoryview'} | set(T_EXC)
BFUNCS = {'len', 'isinstance', 'issubclass', 'sorted', 'reversed', 'enumerate', 'zip', 'map',
          'filter', 'min', 'max', 'sum', 'any', 'all', 'abs', 'repr', 'chr', 'ord', 'divmod',
          'pow', 'round', 'hasattr', 'getattr', 'setattr', 'delattr', 'callable', 'iter',
          'next', 'print', 'id', 'hash', 'vars', 'eval', 'compile', 'ascii', 'format', 'hex', 'bin',
          'locals', 'globals'}


class ViewObj(E.Obj):
    def __init__(self, m, what, items=None):
        super().__init__(m.origin, what)
        self.m, self.what, self.fixed = m, what, items
        self.per = m.per

    def items(self, ip):
        if self.fixed is not None:
            return list(self.fixed)
        keys = ip.sorted_keys([k for k, _ in self.m.d.values()], self.m.bt) \
            if isinstance(self.m, E.MapObj) else ip.sorted_keys(self.m.d.values(), self.m.bt)
        return view_items(ip, self.m, keys, self.what)


def view_items(ip, m, keys, what):
    out = []
    for k in keys:
        if isinstance(m, E.SetObj):
            v = k
        else:
            val = m.d[E.hk(k)][1]
            v = k if what == 'keys' else val if what == 'values' else (k, val)
        over = ()
        if isinstance(k, E.Elem) and k.root().multi and k.root() not in ip.multi:
            over = (k.root(),)
        out.append(It(v, None, over))
    return out


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def items(self, ip):
        s, t, p = self.start, self.stop, self.step
        if all(isinstance(x, int) for x in (s, t, p)):
            if p == 0:
                raise ip.exc('ValueError', 'range() arg 3 must not be zero')
            r = range(s, t, p)
            if len(r) > 64 and p == 1 and ip.ctx.hooks.get('generic_range', True) and \
                    (ip.loadmode and (len(r) > 300 or getattr(ip, 'fills', False)) or
                     not ip.loadmode):
                ends = [s] + sorted(x[1] for x in ip.ctx.singles if isinstance(x, tuple) and
                                    x[0] == 'cut' and s < x[1] < t) + [t]
                out = []
                for s, t in zip(ends, ends[1:]):
                    if t - s == 1:
                        out.append(It(s))
                        continue
                    c = E.Elem(f'range({s},{t})', 'index', 'int', card=Num.const(t - s))
                    c.splitname = ('range', s, t)
                    a = Atom('i', s, t - 1, True, (c,))
                    out.append(It(Num.atom(a), None, (c,)))
                return out
            return [It(x) for x in r]
        # symbolic bounds: unroll lazily, bounded
        out = []
        i = s
        if not isinstance(p, int) or p == 0:
            ip.fail('range step')
        while ip.lt(i, t, '<') if p > 0 else ip.lt(t, i, '<'):
            out.append(It(i))
            i = ip.simp(to_num(i) + Num.const(p))
            if len(out) > ip.ctx.hooks.get('range_bound', 4):
                raise E.PathBounded('symbolic range')
        return out


def bit_length(ip, v):
    if ip.lt(v, 0):
        v = ip.simp(Num.const(0) - to_num(v))
    for n in range(65):
        if ip.lt(v, 1 << n):
            return n
    raise E.PathBounded('bit_length')


def builtin(ip, name):
    if name == 'super':
        return SUPER
    if name in ('True', 'False', 'None'):
        return {'True': True, 'False': False, 'None': None}[name]
    if name == 'NotImplemented':
        return E.Sym('NotImplemented')
    if name in BTYPES or name in BFUNCS:
        return E.BT(name)
    return MISSING


def import_from(ip, base, name):
    if base.startswith('zope.index'):
        if base.split('.')[-1] == 'interfaces':
            return E.Ext(base + '.' + name)
        full = base + '.' + name
        if name == 'interfaces':
            return E.Ext(full)
        if ip.prog.find(full):
            return ip.prog.load(full)
        m = ip.prog.load(base)
        if m is None:
            import os
            c = os.path.join(ip.prog.root, *base.split('.')) + '.c'
            if os.path.isfile(c):
                return E.Ext(full)
            raise ip.exc('ModuleNotFoundError', base)
        v = m.env.vars.get(name, MISSING)
        if v is MISSING:
            raise ip.exc('ImportError', full)
        return v
    return ext_attr(ip, base, name)


def ext_attr(ip, path, name):
    full = path + '.' + name
    if full == 'BTrees.family32':
        return E.FamV('32')
    if full == 'BTrees.family64':
        return E.FamV('64')
    m = _re.match(r'BTrees\.([ILOUQ])([ILOFUQ])BTree$', path)
    if m:
        return mod_member(ip, fam_of(m), kv_of(m), name, m.group(1) + m.group(2))
    m = _re.match(r'BTrees\.([ILOUQ])([ILOFUQ])BTree$', full)
    if m and path == 'BTrees':
        return E.Ext(full)
    if path == 're' and isinstance(getattr(_re, name, None), _re.RegexFlag):
        return int(getattr(_re, name))
    if full == 'sys.maxsize':
        return 2 ** 63 - 1
    if path == 'string' and isinstance(getattr(string, name, None), str):
        return getattr(string, name)
    if full == 'math.inf':
        return E.Sym('inf', 1)
    if full in ('math.pi', 'math.e'):
        return to_num(getattr(math, name))
    return E.Ext(full)


def fam_of(m):
    return '64' if 'L' in m.groups() or 'Q' in m.groups() else '32'


def kv_of(m):
    return m.group(1).replace('L', 'I') + m.group(2).replace('L', 'I')


def mod_member(ip, fam, kv, name, pre):
    for k in ('BTree', 'Bucket', 'TreeSet', 'Set'):
        if name in (pre + k, k):
            return E.FamCls(None if kv == 'OO' else fam, kv, k)
    if name in ('union', 'intersection', 'difference', 'multiunion', 'weightedUnion',
                'weightedIntersection'):
        fm = E.FamMod(fam, kv)
        return E.NativeV(f'{fm}.{name}', lambda ip, a, kw: SETFN[name](ip, fm, *a, **kw))
    return MISSING


# ------------------------------------------------------------------ attributes

def get_attr(ip, o, name):
    v = get_attr0(ip, o, name)
    if v is MISSING and pylib.real_has(o, name):
        ip.fail(f'attribute {name} of {o!r} is not modelled')
    return v


def get_attr0(ip, o, name):
    if isinstance(o, E.InstObj):
        return inst_attr(ip, o, name)
    if isinstance(o, E.StubObj):
        if name in o.attrs:
            return o.attrs[name]
        d = o.attrs.get('__dynamic__')
        if d:
            return d(ip, o, name)
        if name in o.attrs.get('__absent__', ()):
            return MISSING
        ip.fail(f'{o.label}.{name} is not modelled')
    if isinstance(o, E.ModV):
        v = o.env.vars.get(name, MISSING)
        if v is MISSING:
            full = o.name + '.' + name
            if ip.prog.find(full):
                return ip.prog.load(full)
        if isinstance(v, E.Unknown):
            ip.fail(v.why)
        return v
    if isinstance(o, E.Ext):
        if o.path.startswith('zope.index'):
            if ip.prog.find(o.path + '.' + name) and name != 'interfaces':
                return ip.prog.load(o.path + '.' + name)
        if o.path == 'zope' and name == 'index':
            return ip.prog.load('zope.index')
        return ext_attr(ip, o.path, name)
    if isinstance(o, E.ClassV):
        r = o.lookup(name)
        if r:
            v = r[0]
            if isinstance(v, E.StaticV):
                return v.f if v.kind == 'static' else E.BoundV(o, v.f)
            if isinstance(v, E.Unknown):
                ip.fail(v.why)
            return v
        if name == '__name__' or name == '__qualname__':
            return o.name
        if name == '__doc__':
            return None
        if name == '__mro__':
            return tuple(o.mro)
        if name in ('__init__', '__setattr__', '__getattribute__'):
            return obj_method(ip, name)
        return MISSING
    if isinstance(o, E.SuperV):
        mro = (o.obj.cls if isinstance(o.obj, (E.InstObj, E.ExcV)) else o.obj).mro
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if isinstance(c, E.ClassV) and name in c.ns.vars:
                v = c.ns.vars[name]
                return bind(ip, v, o.obj)
        if isinstance(o.obj, E.ExcV):
            if name == '__init__':
                return E.BoundV(o.obj, EXC_INIT)
            ip.fail(f'super().{name} of an exception')
        if any(isinstance(b, E.Ext) and b.path not in PLAIN_BASES or
               isinstance(b, E.BT) and b.name != 'object' for b in mro[i + 1:]) and \
                name != '__init__':
            ip.fail(f'super().{name}')
        r = obj_method(ip, name)
        if r is not MISSING:
            return E.BoundV(o.obj, r)
        return MISSING
    if isinstance(o, E.FamV):
        m = {'IF': 'IF', 'IO': 'IO', 'OO': 'OO', 'II': 'II', 'OI': 'OI', 'UO': 'UO', 'OU': 'OU',
             'UU': 'UU', 'UI': 'UI', 'IU': 'IU', 'UF': 'UF'}.get(name)
        if m:
            return E.FamMod(o.name, m)
        if name in ('maxint', 'minint', 'maxuint'):
            b = 31 if o.name == '32' else 63
            return {'maxint': 2 ** b - 1, 'minint': -2 ** b, 'maxuint': 2 ** (b + 1) - 1}[name]
        return MISSING
    if isinstance(o, E.FamMod):
        return mod_member(ip, o.fam, o.kv, name, '~')
    if isinstance(o, E.LenObj):
        if name == 'value':
            return o.value
        if name == 'change':
            return E.NativeV('Length.change', lambda ip, a, kw: len_change(ip, o, *a, **kw))
        if name == 'set':
            return E.NativeV('Length.set', lambda ip, a, kw: ip.len_set(o, a[0]))
        if name in ('_p_deactivate', '_p_activate', '_p_invalidate'):
            def deact(ip, a, kw):
                ip.event('deactivate', o, name)
            return E.NativeV(name, deact)
        if name in ('_p_jar', '_p_oid', '_p_changed'):
            return E.Sym('persist', name)
        if name == '__class__':
            return E.Ext('BTrees.Length.Length')
        if name == '__call__':
            return E.NativeV('Length()', lambda ip, a, kw: o.value)
        return MISSING
    if isinstance(o, E.FuncV):
        if name in o.attrs:
            return o.attrs[name]
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return None
        return MISSING
    if isinstance(o, E.BoundV):
        if name == '__self__':
            return o.obj
        if name == '__func__':
            return o.func
        return get_attr(ip, o.func, name) if isinstance(o.func, E.FuncV) else MISSING
    if isinstance(o, E.NativeV):
        if name in o.attrs:
            return o.attrs[name]
        return MISSING
    if isinstance(o, E.PropV):
        if name in ('setter', 'getter', 'deleter'):
            def mk(ip, a, kw):
                return E.PropV(o.fget, a[0]) if name == 'setter' else \
                    E.PropV(a[0], o.fset) if name == 'getter' else o
            return E.NativeV(name, mk)
        return MISSING
    if isinstance(o, E.MapObj):
        return meth(ip, o, name, MAP, 'BTree map' if o.bt else 'dict')
    if isinstance(o, E.SetObj):
        return meth(ip, o, name, SET, 'set')
    if isinstance(o, E.ListObj):
        if o.kind in ('array', 'bytearray'):
            if name not in ARRAY:
                ip.fail(f'array.{name} is not modelled')
            return E.NativeV(name, lambda ip, a, kw: ARRAY[name](ip, o, *a, **kw))
        return meth(ip, o, name, LIST, 'list')
    if isinstance(o, ViewObj):
        return meth(ip, o, name, VIEW, 'view')
    if isinstance(o, E.IterObj):
        if name == '__next__':
            return E.NativeV('next', lambda ip, a, kw: do_next(ip, o))
        if name in ('close', 'send', 'throw'):
            ip.fail('generator method')
        return MISSING
    if isinstance(o, E.Elem):
        return elem_attr(ip, o, name)
    if isinstance(o, (str, bytes)):
        if hasattr(o, name):
            return E.NativeV(name, lambda ip, a, kw: str_method(ip, o, name, a, kw))
        return MISSING
    if isinstance(o, E.Sym):
        return sym_attr(ip, o, name)
    if isinstance(o, pylib.NTuple):
        v = pylib.nt_attr(ip, o, name)
        if v is not MISSING:
            return v
    if isinstance(o, slice):
        return getattr(o, name) if name in ('start', 'stop', 'step') else MISSING
    if isinstance(o, tuple):
        if name == 'index':
            return E.NativeV(name, lambda ip, a, kw: list_index(ip, E.ListObj(list(o)), *a))
        if name == 'count':
            return E.NativeV(name, lambda ip, a, kw: sum(1 for x in o if ip.eq(x, a[0])))
        return MISSING
    if isinstance(o, E.ExcV):
        if name == 'args':
            return o.args
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return o.cls
        if isinstance(o.cls, E.ClassV):
            r = o.cls.lookup(name)
            if r:
                return bind(ip, r[0], o)
        return MISSING
    if isinstance(o, bool):
        return MISSING
    if isinstance(o, int) and name == 'to_bytes':
        def tb(ip, a, kw):
            if not all(deep_native(x) for x in list(a) + list(kw.values())):
                ip.fail(name)
            try:
                return o.to_bytes(*a, **kw)
            except Exception as e:
                raise ip.exc(type(e).__name__, str(e))
        return E.NativeV(name, tb)
    if isinstance(o, (int, Num)):
        if isinstance(o, Num) and name == 'is_integer':
            return E.NativeV(name, lambda ip, a, kw: o.integral())
        if name == 'bit_length':
            if isinstance(o, int):
                return E.NativeV(name, lambda ip, a, kw: o.bit_length())
            return E.NativeV(name, lambda ip, a, kw: bit_length(ip, o))
        return MISSING if name not in ('real', 'imag', 'numerator') else o
    if isinstance(o, E.BT):
        return bt_attr(ip, o, name)
    if isinstance(o, E.FamCls):
        if name == '__name__':
            return f'{o.kv}{o.kind}'
        if name in MAP or name in SET:
            return E.NativeV(name, lambda ip, a, kw: ip.call(get_attr(ip, a[0], name), a[1:], kw))
        return MISSING
    if o is None:
        return MISSING
    if isinstance(o, E.Unknown):
        ip.fail(o.why)
    ip.fail(f'attribute {name} of {o!r}')


def bt_attr(ip, o, name):
    if o.name in ('str', 'bytes'):
        t = str if o.name == 'str' else bytes
        if name == 'maketrans':
            def mt(ip, a, kw):
                b = [pylib.concrete(x) for x in a]
                if any(x is MISSING for x in b):
                    ip.fail('maketrans')
                return ip.new(E.MapObj(None, str.maketrans(*b).items()))
            return E.NativeV(name, mt)
        if hasattr(t, name) and name not in ('__name__', '__qualname__'):
            return E.NativeV(f'{o.name}.{name}',
                             lambda ip, a, kw: ip.call(get_attr(ip, a[0], name), a[1:], kw))
    if o.name == 'int' and name == 'from_bytes':
        def fb(ip, a, kw):
            if not all(deep_native(x) for x in list(a) + list(kw.values())):
                ip.fail(name)
            return int.from_bytes(*a, **kw)
        return E.NativeV(name, fb)
    if o.name == 'dict' and name == 'fromkeys':
        def fk(ip, a, kw):
            m = ip.new(E.MapObj())
            ip.foreach(a[0], lambda x: ip.map_set(m, x, a[1] if len(a) > 1 else None))
            return m
        return E.NativeV('fromkeys', fk)
    for tn, tab in (('dict', MAP), ('set', SET), ('list', LIST), ('frozenset', SET)):
        if o.name == tn and name in tab:
            return E.NativeV(f'{tn}.{name}',
                             lambda ip, a, kw: ip.call(get_attr(ip, a[0], name), a[1:], kw))
    if name in ('__name__', '__qualname__'):
        return o.name
    if o.name == 'object':
        return obj_method(ip, name)
    if o.name in T_EXC and name == '__init__':
        return EXC_INIT
    return MISSING


def exc_init(ip, a, kw):
    a[0].args = tuple(a[1:])


EXC_INIT = E.NativeV('__init__', exc_init)


def obj_method(ip, name):
    if name == '__init__':
        return E.NativeV('object.__init__', lambda ip, a, kw: None)
    if name == '__setattr__':
        return E.NativeV('__setattr__', lambda ip, a, kw: ip.raw_set_attr(a[0], a[1], a[2]))
    if name == '__repr__':
        return E.NativeV('__repr__', lambda ip, a, kw: E.Sym('fmt', a[0]))
    return MISSING


def bind(ip, v, o):
    if isinstance(v, (E.FuncV,)):
        return E.BoundV(o, v)
    if isinstance(v, E.NativeV) and v.attrs.get('__method__'):
        return E.BoundV(o, v)
    if isinstance(v, pylib.CachedProp):
        return pylib.cached_get(ip, v, o)
    if isinstance(v, E.PropV):
        return ip.call(v.fget, [o])
    if isinstance(v, E.StaticV):
        return v.f if v.kind == 'static' else E.BoundV(o.cls if isinstance(o, E.InstObj) else o, v.f)
    if isinstance(v, E.Unknown):
        ip.fail(v.why)
    if isinstance(v, E.InstObj) and v.cls.lookup('__get__'):
        return ip.call(v.cls.lookup('__get__')[0], [v, o, o.cls if isinstance(o, E.InstObj) else o])
    return v


def inst_attr(ip, o, name):
    r = o.cls.lookup(name)
    if r and isinstance(r[0], E.PropV):
        return bind(ip, r[0], o)
    if name in o.attrs:
        h = ip.ctx.hooks.get('on_read')
        if h:
            h(ip, o, name)
        return o.attrs[name]
    if r:
        return bind(ip, r[0], o)
    if name == '__class__':
        return o.cls
    if name == '__dict__':
        if o.view is None:
            o.view = ip.new(E.MapObj(label=f'{o!r}.__dict__'))
            o.view.origin = o.origin
            o.view.d = E.Attrs(o.attrs)
        return o.view
    if name.startswith('_p_') and o.cls.persistent():
        if name in ('_p_deactivate', '_p_activate', '_p_invalidate'):
            return E.NativeV(name, lambda ip, a, kw: None)
        if name in ('_p_jar', '_p_oid'):        # set once the object has been stored
            return E.Sym('persist', name) if ip.ctx.ask(('stored', o.uid), f'{o!r} is stored') \
                else None
        return False if name == '_p_changed' else None
    g = o.cls.lookup('__getattr__')
    if g:
        return ip.call(g[0], [o, name])
    if any(isinstance(b, E.Ext) and b.path not in E.PERSISTENT and b.path not in PLAIN_BASES
           for b in o.cls.mro):
        ip.fail(f'{name} of {o!r} with external bases')
    m = obj_method(ip, name)
    if m is not MISSING:
        return E.BoundV(o, m)
    return MISSING


def meth(ip, o, name, table, what):
    f = table.get(name)
    if f is None:
        if name in ('_p_changed', '_p_jar', '_p_oid') and getattr(o, 'bt', None):
            return E.Sym('persist', name)
        if name in ('_p_deactivate', '_p_activate', '_p_invalidate') and getattr(o, 'bt', None):
            return E.NativeV(name, lambda ip, a, kw: None)
        if name == '__class__':
            return type_of(ip, o)
        if name in KNOWN_ATTRS.get(what, ()):
            ip.fail(f'{what}.{name} is not modelled')
        if isinstance(o, E.MapObj) and o.bt is None and name in dir(dict) or \
                isinstance(o, E.ListObj) and name in dir(list) or \
                isinstance(o, E.SetObj) and name in dir(set):
            ip.fail(f'{what}.{name} is not modelled')
        return MISSING
    if not getattr(o, 'bt', None) and isinstance(o, (E.MapObj, E.ListObj)) and \
            not hasattr(pylib.real_type(o), name):
        return MISSING
    if isinstance(o, (E.MapObj, E.SetObj)):
        only = ONLY.get(name)
        if only == 'bt' and o.bt is None or only == 'py' and o.bt is not None:
            return MISSING
        if isinstance(o, E.SetObj) and o.frozen and name in FROZEN_MISSING:
            return MISSING
    return E.NativeV(f'{what}.{name}', lambda ip, a, kw: f(ip, o, *a, **kw))


KNOWN_ATTRS = {}
ONLY = {'has_key': 'bt', 'insert': 'bt', 'minKey': 'bt', 'maxKey': 'bt', 'iterkeys': 'bt',
        'itervalues': 'bt', 'iteritems': 'bt', 'byValue': 'bt', 'intersection': 'py',
        'union': 'py', 'difference': 'py', 'intersection_update': 'py',
        'difference_update': 'py', 'issubset': 'py', 'issuperset': 'py',
        'symmetric_difference': 'py', 'copy': 'py', 'keys': None, 'move_to_end': 'py'}
FROZEN_MISSING = {'add', 'remove', 'discard', 'update', 'clear', 'pop', 'insert'}


def elem_attr(ip, o, name):
    a = o.info.get('attrs')
    if a and name in a:
        return a[name]
    if o.kind == 'str' or (o.kind == 'any' and hasattr(str, name)):
        if not hasattr(str, name):
            return MISSING
        if o.kind == 'any' and not ip.ctx.ask(('isstr', o.uid), f'{o!r} is a str'):
            return MISSING
        return E.NativeV(name, lambda ip, a, kw: str_method(ip, o, name, a, kw))
    if o.kind == 'int':
        return MISSING
    if o.kind == 'obj':
        ip.fail(f'attribute {name} of {o!r}')
    return MISSING


# ------------------------------------------------------------------ strings

def is_str(v):
    return isinstance(v, str) or isinstance(v, E.Elem) and v.kind == 'str' or \
        isinstance(v, E.Sym) and v.op in ('str', 'chr', 'fmt', 'esc', 'strm', 'code')


def prefix(ip, o, n):
    """The first n > 1 characters: those of any word, also of another one."""
    if not ip.ctx.ask(('longer', o.uid, n), f'{o!r} is longer than {n}'):
        return o
    k = ('item', o.uid, (None, n))
    if k not in ip.ctx.derived:
        d = E.Elem(f'{o.name}[:{n}]', o.sort, o.kind, base=o, falsy=False, info={'part': n})
        d.splitname = getattr(o, 'splitname', None)
        ip.ctx.derived[k] = d
    return ip.ctx.derived[k]


def part_eq(ip, a, b):
    """Are the first characters of two words equal?  None: they may be."""
    if a.info.get('part') != b.info.get('part'):
        return False
    f = ip.ctx.facts
    key = lambda x, y: ('eq',) + tuple(sorted([E.hk(x), E.hk(y)], key=repr))  # noqa: E731
    for c in list(ip.ctx.derived.values()):
        if isinstance(c, E.Elem) and c.info.get('part') == a.info['part']:
            x, y = f.get(key(a, c)), f.get(key(c, b))
            if x is not None and y is not None and (x or y):
                return x and y
    return None


def plain_chr(v):
    """The character with this code if it is known."""
    if isinstance(v, int) and 0 <= v < 0x110000:
        return chr(v)
    if isinstance(v, Num) and v.is_const() and v.cval().denominator == 1 and \
            0 <= v.cval() < 0x110000:
        return chr(int(v.cval()))


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, E.Elem) and 'part' in p.info:
            raise E.Inconclusive('joins a part of a word')
        if isinstance(p, E.Sym) and p.op == 'str':
            out.extend(p.args)
        elif p == '' and isinstance(p, str):
            continue
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, E.Sym) and p.op == 'chr':
            p = plain_chr(p.args[0]) or p
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    if not res:
        return ''
    if len(res) == 1 and (isinstance(res[0], str) or isinstance(res[0], E.Elem)):
        return res[0]
    if len(res) == 1 and isinstance(res[0], E.Sym) and res[0].op in ('chr', 'esc', 'code', 'strm'):
        return E.Sym('str', *res) if res[0].op == 'chr' else res[0]
    return E.Sym('str', *res)


def chars(v):
    """Character list of an abstract string, or None."""
    if isinstance(v, str):
        return list(v)
    if isinstance(v, E.Elem) and 'char' in v.info:
        return [v]
    if isinstance(v, E.Sym) and v.op == 'chr':
        return [v]
    if isinstance(v, E.Sym) and v.op == 'str':
        out = []
        for p in v.args:
            c = chars(p)
            if c is None:
                return None
            out.extend(c)
        return out
    return None


def str_method(ip, o, name, a, kw):
    if deep_native(o) and all(deep_native(x) for x in a) and not kw:
        try:
            r = getattr(o, name)(*a)
        except Exception as e:
            raise ip.exc(type(e).__name__, str(e))
        if isinstance(r, list):
            return ip.new(E.ListObj(r))
        return r
    if isinstance(o, str) and name in ('translate', 'format', 'format_map', 'splitlines', 'split',
                                       'rsplit', 'encode'):
        b = [pylib.concrete(x) for x in a]
        k = {n: pylib.concrete(x) for n, x in kw.items()}
        if not any(x is MISSING for x in b + list(k.values())):
            try:
                r = getattr(o, name)(*b, **k)
            except Exception as e:
                raise ip.exc(type(e).__name__, str(e))
            return ip.new(E.ListObj(r)) if isinstance(r, list) else r
    if name == 'translate':
        ip.fail('translate')
    if name == 'join' and isinstance(o, bytes):
        xs = [pylib.concrete(x) for x in ip.take_items(a[0])]
        if not all(isinstance(x, bytes) for x in xs):
            ip.fail('bytes.join')
        return o.join(xs)
    if name == 'join':
        parts = []
        items = ip.collect(a[0])
        for n, it in enumerate(ip.singles(items)):
            if not is_str(it.v):
                if isinstance(it.v, E.Elem) and it.v.kind == 'any':
                    ip.fail('join')
                raise ip.exc('TypeError', 'sequence item: expected str')
            if n and o != '':
                parts.append(o)
            parts.append(it.v)
        return concat(parts)
    if isinstance(o, E.Elem) and 'part' in o.info:
        ip.fail(f'{o!r}.{name}()')
    h = ip.ctx.hooks.get('str_method')
    if h:
        r = h(ip, o, name, a)
        if r is not MISSING:
            return r
    if name == 'format' and isinstance(o, str) and not kw and \
            _re.fullmatch(r'(?:[^{}]|\{\d?\})*', o):
        parts = _re.split(r'\{(\d?)\}', o)
        out, n = [parts[0]], 0
        for d, lit in zip(parts[1::2], parts[2::2]):
            i = int(d) if d else n
            n += 1
            if i >= len(a) or not is_str(a[i]):
                break
            out += [a[i], lit]
        else:
            return concat(out)
    if name == 'format':
        return E.Sym('fmt', o, *a)
    if isinstance(o, E.Elem):
        if name in ('lower', 'upper', 'strip', 'casefold', 'title', 'capitalize', 'swapcase',
                    'lstrip', 'rstrip', 'encode', 'decode'):
            k = (o.uid, name) + tuple(E.hk(x) for x in a)
            if k not in ip.ctx.derived:
                d = E.Elem(f'{o.name}.{name}()', o.sort, 'str', base=o,
                           rank=None, falsy=o.falsy)
                d.splitname = getattr(o, 'splitname', None)
                d.info = {'from': (o, name)}
                ip.ctx.derived[k] = d
                if name in ('lower', 'upper', 'casefold', 'strip'):
                    ip.ctx.derived[(d.uid, name)] = d
            return ip.ctx.derived[k]
        if name in ('startswith', 'endswith', 'isalpha', 'isdigit', 'isspace', 'isupper',
                    'islower', 'isalnum', 'isnumeric', 'isidentifier', 'isdecimal', 'istitle'):
            return ip.ctx.ask(('sm', o.uid, name) + tuple(E.hk(x) for x in a),
                              f'{o!r}.{name}{a!r}')
    cs = chars(o)
    if cs is not None:
        if name == 'startswith' and isinstance(a[0], str):
            ds = list(a[0])
            return len(ds) <= len(cs) and all(ip.eq(x, y) for x, y in zip(cs, ds))
        if name == 'endswith' and isinstance(a[0], str):
            ds = list(a[0])
            return len(ds) <= len(cs) and all(ip.eq(x, y) for x, y in
                                              zip(cs[len(cs) - len(ds):], ds))
    ip.fail(f'str.{name} on {o!r}')


def str_maybe_eq(ip, s, o):
    cs = chars(s)
    if cs is None:
        return None
    if len(cs) != len(o):
        return False
    rs = [E.decided(ip.ctx, char_num(ip, x), Num.const(ord(y)), '==')
          if isinstance(x, E.Sym) else ip.maybe(x, y) for x, y in zip(cs, o)]
    if any(r is False for r in rs):
        return False
    if all(r is True for r in rs):
        return True
    # intervals
    for x, y in zip(cs, o):
        if isinstance(x, E.Sym):
            lo, hi = char_num(ip, x).interval()
            if ord(y) < lo or ord(y) > hi:
                return False
    return None


def char_num(ip, c):
    if isinstance(c, str):
        return Num.const(ord(c))
    return to_num(c.args[0])


def sym_lt(ip, a, b, op):
    ca, cb = chars(a), chars(b)
    if ca is not None and cb is not None and len(ca) == 1 and len(cb) == 1 and \
            all(isinstance(x, (str, E.Sym)) for x in ca + cb):
        return ip.ctx.cmp(char_num(ip, ca[0]), char_num(ip, cb[0]), op)
    return None


def sym_len(ip, s):
    cs = chars(s)
    if cs is not None:
        return len(cs)
    if s.op == 'bytes':
        return len(s.args)
    h = ip.ctx.hooks.get('sym_len')
    if h:
        r = h(ip, s)
        if r is not None:
            return r
    ip.fail(f'len({s!r})')


def sym_iter(ip, s):
    cs = chars(s)
    if cs is not None:
        return [It(E.Sym('str', c) if isinstance(c, E.Sym) else c) for c in cs]
    if s.op == 'pair':
        return [It(x) for x in s.args]
    ip.fail(f'iteration over {s!r}')


def sym_attr(ip, s, name):
    if s.op == 'regex':
        return regex_attr(ip, s, name)
    if s.op == 'match':
        return match_attr(ip, s, name)
    if is_str(s):
        if not hasattr(str, name):
            return MISSING
        return E.NativeV(name, lambda ip, a, kw: str_method(ip, s, name, a, kw))
    h = ip.ctx.hooks.get('sym_attr')
    if h:
        r = h(ip, s, name)
        if r is not None:
            return r
    if 'attrs' in s.info and name in s.info['attrs']:
        return s.info['attrs'][name]
    ip.fail(f'attribute {name} of {s!r}')


# ------------------------------------------------------------------ regular expressions

def regex_attr(ip, s, name):
    if name == 'pattern':
        return s.args[0]
    if name == 'flags':
        return s.args[1]

    def run(ip, a, kw):
        h = ip.ctx.hooks.get('regex')
        if h:
            r = h(ip, s, name, a, kw)
            if r is not MISSING:
                return r
        pat, flags = s.args
        if deep_native(pat) and isinstance(flags, int) and all(deep_native(x) for x in a) and not kw:
            try:
                r = getattr(_re.compile(pat, flags), name)(*a)
                if name == 'finditer':
                    return ip.new(E.IterObj([It(native_match(m)) for m in r]))
            except (_re.error, TypeError) as e:
                raise ip.exc('re.error' if isinstance(e, _re.error) else 'TypeError', str(e))
            if isinstance(r, list):
                return ip.new(E.ListObj(r))
            return native_match(r) if isinstance(r, _re.Match) else r
        import rx
        cs = chars(a[0]) if a else None
        if cs is not None and not kw:
            if name == 'findall' and len(a) == 1:
                return ip.new(E.ListObj(rx.abs_findall(ip, pat, flags, cs)))
            if name == 'finditer' and len(a) == 1 and isinstance(pat, str):
                return ip.new(E.IterObj([It(rx.found(cs, x, y, {}))
                                         for x, y in rx.spans(ip, pat, flags, cs)]))
            if name in ('match', 'fullmatch', 'search') and (
                    len(a) == 1 or len(a) == 2 and type(a[1]) is int and a[1] >= 0):
                return rx.abs_match(ip, pat, flags, cs, name, *a[1:])
            if name == 'split' and len(a) == 1:
                return ip.new(E.ListObj(rx.abs_split(ip, pat, flags, cs)))
        if name == 'sub' and len(a) == 2 and not kw and chars(a[1]) is not None:
            return rx.abs_sub(ip, pat, flags, a[0], chars(a[1]))
        ip.fail(f'regex {name} on {a!r}')
    if name in ('findall', 'match', 'search', 'fullmatch', 'finditer', 'sub', 'split', 'subn'):
        return E.NativeV('regex.' + name, run)
    return MISSING


def native_match(m):
    s = E.Sym('match', m.group())
    s.info['native'] = m
    return s


def match_attr(ip, s, name):
    m = s.info.get('native')
    if m is not None and name in ('group', '__getitem__', 'groups', 'start', 'end', 'span'):
        def of(ip, a, kw):
            if kw or not all(isinstance(x, (int, str)) for x in a):
                ip.fail(f'match.{name}')
            try:
                r = getattr(m, name)(*a)
            except IndexError as e:
                raise ip.exc('IndexError', str(e))
            return r
        return E.NativeV(name, of)
    if 'spans' in s.info and name in ('group', '__getitem__', 'start', 'end', 'span'):
        def part(ip, a, kw):
            g = a[0] if a else 0
            if kw or len(a) > 1 or type(g) is not int or g and g not in s.info['spans']:
                ip.fail(f'match.{name}')
            at = s.info['spans'][g]
            if at is None:
                ip.fail(f'match.{name}')
            if name in ('start', 'end', 'span'):
                return {'start': at[0], 'end': at[1], 'span': at}[name]
            return concat(s.info['chars'][at[0]:at[1]])
        return E.NativeV(name, part)
    if 'group' in s.info:
        if name in ('group', '__getitem__'):
            def group(ip, a, kw):
                if a and a[0] != 0:
                    ip.fail('match.group')
                return s.info['group']
            return E.NativeV('group', group)
    ip.fail(f'match.{name}')


# ------------------------------------------------------------------ containers

def new_container(ip, c, a, kw):
    if kw or len(a) > 1:
        raise ip.exc('TypeError', 'bad arguments')
    bt = c.key()
    if c.kind in ('Set', 'TreeSet'):
        s = ip.new(E.SetObj(bt))
        if a:
            ip.foreach(a[0], lambda x: ip.set_add(s, x))
        return s
    m = ip.new(E.MapObj(bt))
    if a:
        map_update(ip, m, a[0])
    return m


def sequence(ip, o):
    """Has it a length and integer subscripts (what C code asks for)?"""
    if isinstance(o, (E.ListObj, tuple, RangeV)):
        return True
    if isinstance(o, ViewObj):
        return o.m.bt is not None
    if isinstance(o, E.SetObj):
        return o.bt is not None and o.bt[2] == 'Set'
    if isinstance(o, (E.MapObj, E.IterObj, E.LenObj, int, Num)) or o is None:
        return False
    ip.fail(f'sequence protocol of {o!r}')


def map_update(ip, m, o, **kw):
    bt = m.bt is not None
    if isinstance(o, E.MapObj):
        o = ViewObj(o, 'items')
    elif isinstance(o, E.InstObj):
        ip.fail('update from instance')
    elif bt and not isinstance(o, E.StubObj) and not sequence(ip, o):
        raise ip.exc('AttributeError', "object has no attribute 'items'")

    def body(p):
        if bt and not (isinstance(p, tuple) and len(p) == 2) and \
                not isinstance(p, (E.Sym, E.Elem)):
            raise ip.exc('TypeError', 'Sequence must contain 2-item tuples')
        kv = ip.unpack(p)
        if len(kv) != 2:
            raise ip.exc('ValueError', 'dictionary update sequence element')
        ip.map_set(m, *kv)
    ip.foreach(o, body)
    for k, v in kw.items():
        ip.map_set(m, k, v)


def in_range(ip, k, lo, hi, exmin, exmax):
    if lo is not None:
        if ip.bt_lt(k, lo) or (exmin and not ip.bt_lt(lo, k)):
            return False
    if hi is not None:
        if ip.bt_lt(hi, k) or (exmax and not ip.bt_lt(k, hi)):
            return False
    return True


def bt_lt(ip, a, b):
    """Key order of BTrees: None is smallest."""
    na, nb = ip.is_none(a), ip.is_none(b)
    if na or nb:
        return na and not nb
    return ip.lt(a, b)


def ranged(ip, m, what, args, kw):
    if m.bt is None:
        if args or kw:
            raise ip.exc('TypeError', 'takes no arguments')
        return ViewObj(m, what)
    names = ['min', 'max', 'excludemin', 'excludemax']
    if len(args) > 4 or any(k not in names for k in kw):
        raise ip.exc('TypeError', 'bad range arguments')
    p = dict(zip(names, args))
    for k, v in kw.items():
        if k in p:
            raise ip.exc('TypeError', 'duplicate argument')
        p[k] = v
    lo, hi = p.get('min'), p.get('max')
    exmin = ip.truth(p.get('excludemin', False))
    exmax = ip.truth(p.get('excludemax', False))
    # an omitted bound and None both mean "open"
    none_lo = lo is None or ip.is_none(lo)
    none_hi = hi is None or ip.is_none(hi)
    if none_lo and none_hi and not exmin and not exmax:
        return ViewObj(m, what)
    keys = ip.sorted_keys([k for k, _ in m.d.values()] if isinstance(m, E.MapObj)
                          else list(m.d.values()), m.bt)
    if none_lo and exmin:
        keys = keys[1:]
    if none_hi and exmax:
        keys = keys[:-1]
    lo = None if none_lo else lo
    hi = None if none_hi else hi
    h = ip.ctx.hooks.get('range')
    if h:
        sel = h(ip, m, keys, lo, hi)
    else:
        sel = [k for k in keys if in_range(ip, k, lo, hi, exmin, exmax)]
    return ViewObj(m, what, view_items(ip, m, sel, what))


def map_getd(ip, m, k, d=None):
    v = ip.map_get(m, k)
    return d if v is MISSING else v


def map_pop(ip, m, k, *d):
    if ip.map_get(m, k) is MISSING:
        if d:
            return d[0]
        raise ip.exc('KeyError', k)
    return ip.map_del(m, k)


def map_setdefault(ip, m, k, d=None):
    v = ip.map_get(m, k)
    if v is MISSING:
        ip.map_set(m, k, d)
        return d
    return v


def map_insert(ip, m, k, v):
    if ip.map_get(m, k) is MISSING:
        ip.map_set(m, k, v)
        return 1
    return 0


def minkey(ip, m, lo=None):
    return edge(ip, m, lo, True)


def maxkey(ip, m, hi=None):
    return edge(ip, m, hi, False)


def edge(ip, m, bound, first):
    keys = [k for k, _ in m.d.values()] if isinstance(m, E.MapObj) else list(m.d.values())
    if bound is not None:
        keys = [k for k in keys if in_range(ip, k, bound if first else None,
                                            None if first else bound, False, False)]
    if not keys:
        raise ip.exc('ValueError', 'empty tree')
    best = keys[0]
    for k in keys[1:]:
        if (ip.free_lt(k, best) if first else ip.free_lt(best, k)):
            best = k
    for k in keys:
        ip.need_single(It(k))
    return best


def map_popitem(ip, m):
    if not m.d:
        raise ip.exc('KeyError', 'empty')
    k = ip.sorted_keys([k for k, _ in m.d.values()], m.bt)[0 if m.bt else -1]
    ip.need_single(It(k))
    v = ip.map_del(m, k)
    return (k, v)


def map_copy(ip, m):
    return ip.new(E.MapObj(m.bt, m.d.values(), default=m.default, kind=m.kind))


def counter_most_common(ip, m, n=None):
    ip.fail('most_common')


def map_fromkeys(ip, m, keys, v=None):
    if m.bt is not None:
        ip.fail('fromkeys of a BTree')
    r = ip.new(E.MapObj())
    ip.foreach(keys, lambda x: ip.map_set(r, x, v))
    return r


MAP = {
    'get': map_getd,
    'has_key': lambda ip, m, k: ip.map_get(m, k) is not MISSING,
    '__contains__': lambda ip, m, k: ip.map_get(m, k) is not MISSING,
    '__getitem__': lambda ip, m, k: getitem(ip, m, k),
    '__setitem__': lambda ip, m, k, v: ip.map_set(m, k, v),
    '__delitem__': lambda ip, m, k: ip.map_del(m, k) and None,
    '__len__': lambda ip, m: ip.length(m),
    '__iter__': lambda ip, m: ip.new(E.IterObj(ip.iter_items(m))),
    'keys': lambda ip, m, *a, **k: ranged(ip, m, 'keys', a, k),
    'values': lambda ip, m, *a, **k: ranged(ip, m, 'values', a, k),
    'items': lambda ip, m, *a, **k: ranged(ip, m, 'items', a, k),
    'iterkeys': lambda ip, m, *a, **k: ip.new(E.IterObj(ranged(ip, m, 'keys', a, k).items(ip))),
    'itervalues': lambda ip, m, *a, **k: ip.new(E.IterObj(ranged(ip, m, 'values', a, k).items(ip))),
    'iteritems': lambda ip, m, *a, **k: ip.new(E.IterObj(ranged(ip, m, 'items', a, k).items(ip))),
    'pop': map_pop,
    'popitem': map_popitem,
    'setdefault': map_setdefault,
    'insert': map_insert,
    'update': lambda ip, m, o=(), **kw: map_update(ip, m, o, **kw) if m.kind != 'Counter'
    else pylib.count_update(ip, m, o, kw, 1),
    'clear': lambda ip, m: ip.map_clear(m),
    'copy': map_copy,
    'fromkeys': map_fromkeys,
    'minKey': minkey,
    'maxKey': maxkey,
}


def set_update(ip, s, *os):
    n = 0
    for o in os:
        if o is None and s.bt is not None:
            continue
        ip.foreach(o, lambda x: ip.set_add(s, x))
    return n


def set_remove(ip, s, k):
    if not ip.set_remove(s, k):
        raise ip.exc('KeyError', k)


def set_pop(ip, s):
    if not s.d:
        raise ip.exc('KeyError', 'pop from an empty set')
    k = ip.sorted_keys(s.d.values(), s.bt)[0]
    ip.need_single(It(k))
    ip.set_remove(s, k)
    return k


def set_clear(ip, s):
    for k in list(s.d.values()):
        ip.set_remove(s, k)
    ip.event('clear', s)


def py_setop(ip, s, op, *os):
    r = ip.new(E.SetObj(None, s.d.values(), frozen=s.frozen))
    for o in os:
        r = set_binop(ip, r, as_set(ip, o), op)
    return r


def as_set(ip, o):
    if isinstance(o, E.SetObj):
        return o
    s = ip.new(E.SetObj())
    ip.foreach(o, lambda x: ip.set_add(s, x))
    return s


def set_binop(ip, a, b, op, bt=None, frozen=False):
    ka = list(a.d.values())
    kb = list(b.d.values())
    if op == '&':
        ks = [k for k in ka if ip.set_find(b, k) is not None]
    elif op == '|':
        ks = ka + [k for k in kb if ip.set_find(a, k) is None]
    elif op == '-':
        ks = [k for k in ka if ip.set_find(b, k) is None]
    else:
        ks = [k for k in ka if ip.set_find(b, k) is None] + \
            [k for k in kb if ip.set_find(a, k) is None]
    r = ip.new(E.SetObj(bt, ks, frozen=frozen))
    if bt:
        for k in ks:
            ip.family_key(r, k)
    return r


def set_inplace(ip, s, o, n):
    o = as_set(ip, o)
    if n == 'BitOr':
        set_update(ip, s, o)
    else:
        for k in list(s.d.values()):
            inn = ip.set_find(o, k) is not None
            if inn == (n == 'Sub'):
                ip.set_remove(s, k)


SET = {
    'add': lambda ip, s, k: int(ip.set_add(s, k)) if s.bt else (ip.set_add(s, k), None)[1],
    'insert': lambda ip, s, k: int(ip.set_add(s, k)),
    'remove': set_remove,
    'discard': lambda ip, s, k: (ip.set_remove(s, k), None)[1],
    'has_key': lambda ip, s, k: ip.set_find(s, k) is not None,
    '__contains__': lambda ip, s, k: ip.set_find(s, k) is not None,
    '__len__': lambda ip, s: ip.length(s),
    '__iter__': lambda ip, s: ip.new(E.IterObj(ip.iter_items(s))),
    'keys': lambda ip, s, *a, **k: ranged(ip, s, 'keys', a, k),
    'iterkeys': lambda ip, s, *a, **k: ip.new(E.IterObj(ranged(ip, s, 'keys', a, k).items(ip))),
    'update': set_update,
    'pop': set_pop,
    'clear': set_clear,
    'minKey': minkey,
    'maxKey': maxkey,
    'isdisjoint': lambda ip, s, o: not any(ip.set_find(as_set(ip, o), k) is not None
                                           for k in s.d.values()),
    'copy': lambda ip, s: ip.new(E.SetObj(s.bt, s.d.values(), frozen=s.frozen)),
    'union': lambda ip, s, *o: py_setop(ip, s, '|', *o),
    'intersection': lambda ip, s, *o: py_setop(ip, s, '&', *o),
    'difference': lambda ip, s, *o: py_setop(ip, s, '-', *o),
    'symmetric_difference': lambda ip, s, *o: py_setop(ip, s, '^', *o),
    'intersection_update': lambda ip, s, o: set_inplace(ip, s, o, 'BitAnd'),
    'difference_update': lambda ip, s, o: set_inplace(ip, s, o, 'Sub'),
    'issubset': lambda ip, s, o: all(ip.set_find(as_set(ip, o), k) is not None
                                     for k in s.d.values()),
    'issuperset': lambda ip, s, o: all(ip.set_find(s, k) is not None
                                       for k in as_set(ip, o).d.values()),
}

VIEW = {
    '__len__': lambda ip, v: ip.length(v),
    '__iter__': lambda ip, v: ip.new(E.IterObj(v.items(ip))),
    '__contains__': lambda ip, v, k: contains(ip, v, k),
    'isdisjoint': lambda ip, s, o: not any(contains(ip, s, k) for k in ip.single_items(o)),
}


def obj_eq(ip, a, b):
    """== of two mutable objects."""
    if isinstance(a, E.MapObj) and isinstance(b, E.MapObj) and not a.bt and not b.bt:
        if len(a.d) != len(b.d):
            return False
        pairs = []
        for k, v in a.d.values():
            f = ip.map_find(b, k)
            if f is None:
                return False
            pairs.append((k, v, b.d[f][1]))
        res = True
        for k, v, w in pairs:
            if ip.maybe(v, w) is None and isinstance(k, E.Elem) and k.multi:
                ip.need_single(It(k))
            if not ip.eq(v, w):
                return False
        return res
    if isinstance(a, E.ListObj) and isinstance(b, E.ListObj):
        if a.kind != b.kind:
            return False
        if [(E.hk(i.v), E.hk(i.occ), i.over) for i in a.items] == \
                [(E.hk(i.v), E.hk(i.occ), i.over) for i in b.items]:
            return True
        xs, ys = ip.single_items(a), ip.single_items(b)
        return len(xs) == len(ys) and all(ip.eq(x, y) for x, y in zip(xs, ys))
    if isinstance(a, E.SetObj) and isinstance(b, E.SetObj) and not a.bt and not b.bt:
        return len(a.d) == len(b.d) and all(ip.set_find(b, k) is not None for k in a.d.values())
    if isinstance(a, ViewObj) or isinstance(b, ViewObj):
        if any(isinstance(x, ViewObj) and (x.m.bt is not None or x.what == 'values') or
               not isinstance(x, (ViewObj, E.SetObj)) for x in (a, b)):
            ip.fail('comparison of views')
        return obj_eq(ip, as_set(ip, a), as_set(ip, b))
    if isinstance(a, E.InstObj) or isinstance(b, E.InstObj):
        return False
    return False


# BTrees module functions ------------------------------------------------------

def operand(ip, fm, o, ctx=''):
    """A set-operation operand as (SetObj|MapObj)."""
    if isinstance(o, (E.SetObj, E.MapObj)):
        return o
    if isinstance(o, (ViewObj, E.ListObj, E.IterObj, tuple)):
        s = ip.new(E.SetObj(None))
        ip.foreach(o, lambda x: ip.set_add(s, x))
        return s
    raise ip.exc('TypeError', 'invalid argument of set operation')


def keys_of(o):
    return list(o.d.values()) if isinstance(o, E.SetObj) else [k for k, _ in o.d.values()]


def has(ip, o, k):
    return ip.set_find(o, k) is not None if isinstance(o, E.SetObj) else \
        ip.map_get(o, k) is not MISSING


def mkset(ip, fm, ks):
    s = ip.new(E.SetObj((fm.fam, fm.kv, 'Set')))
    for k in ks:
        if not ip.check_key(s, k):
            raise ip.exc('TypeError', 'expected integer key')
        ip.family_key(s, k)
        s.d[E.hk(k)] = k
    return s


def f_union(ip, fm, a, b):
    if a is None:
        return b
    if b is None:
        return a
    a, b = operand(ip, fm, a), operand(ip, fm, b)
    return mkset(ip, fm, keys_of(a) + [k for k in keys_of(b) if not has(ip, a, k)])


def f_intersection(ip, fm, a, b):
    if a is None:
        return b
    if b is None:
        return a
    a, b = operand(ip, fm, a), operand(ip, fm, b)
    return mkset(ip, fm, [k for k in keys_of(a) if has(ip, b, k)])


def f_difference(ip, fm, a, b):
    if a is None:
        return None
    if b is None:
        return a
    a, b = operand(ip, fm, a), operand(ip, fm, b)
    ks = [k for k in keys_of(a) if not has(ip, b, k)]
    if isinstance(a, E.MapObj):
        m = ip.new(E.MapObj((fm.fam, fm.kv, 'Bucket')))
        for k in ks:
            ip.family_key(m, k)
            m.d[E.hk(k)] = (k, a.d[E.hk(k)][1])
        return m
    return mkset(ip, fm, ks)


def f_multiunion(ip, fm, seq):
    if fm.kv[0] not in 'IUL':
        raise ip.exc('AttributeError', 'multiunion')
    out = mkset(ip, fm, [])
    if not sequence(ip, seq):
        raise ip.exc('TypeError', f'multiunion of {type(seq).__name__}: not a sequence')

    def body(o):
        if isinstance(o, (int, Num)) or (isinstance(o, E.Elem) and o.kind == 'int'):
            ks = [o]
        elif o is None:
            raise ip.exc('TypeError', 'multiunion of None')
        else:
            ks = keys_of(operand(ip, fm, o))
        for k in ks:
            ip.set_add(out, k)
    ip.foreach(seq, body)
    return out


def val(ip, o, k):
    if isinstance(o, E.SetObj):
        return Num.const(1)
    h = ip.map_find(o, k)
    v = o.d[h][1]
    if isinstance(v, (int, Num)):
        return to_num(v)
    ip.fail(f'weight {v!r}')


def numv(ip, w):
    if isinstance(w, (int, Num)):
        return to_num(w)
    ip.fail(f'weight {w!r}')


def f_wunion(ip, fm, a, b, w1=1, w2=1):
    if a is None:
        return (w2 if b is not None else 0, b)
    if b is None:
        return (w1, a)
    for o in (a, b):
        if not isinstance(o, (E.SetObj, E.MapObj)) or o.bt is None:
            raise ip.exc('TypeError', 'invalid argument of weightedUnion')
    w1, w2 = numv(ip, w1), numv(ip, w2)
    if isinstance(a, E.SetObj) and isinstance(b, E.SetObj):
        return (1, f_union(ip, fm, a, b))
    m = ip.new(E.MapObj((fm.fam, fm.kv, 'Bucket')))
    for k in keys_of(a):
        v = w1 * val(ip, a, k)
        if has(ip, b, k):
            v = v + w2 * val(ip, b, k)
        ip.family_key(m, k)
        m.d[E.hk(k)] = (k, v)
    for k in keys_of(b):
        if not has(ip, a, k):
            ip.family_key(m, k)
            m.d[E.hk(k)] = (k, w2 * val(ip, b, k))
    return (1, m)


def f_wintersection(ip, fm, a, b, w1=1, w2=1):
    if a is None:
        return (w2 if b is not None else 0, b)
    if b is None:
        return (w1, a)
    for o in (a, b):
        if not isinstance(o, (E.SetObj, E.MapObj)) or o.bt is None:
            raise ip.exc('TypeError', 'invalid argument of weightedIntersection')
    n1, n2 = numv(ip, w1), numv(ip, w2)
    if isinstance(a, E.SetObj) and isinstance(b, E.SetObj):
        return (ip.simp(n1 + n2), f_intersection(ip, fm, a, b))
    m = ip.new(E.MapObj((fm.fam, fm.kv, 'Bucket')))
    for k in keys_of(a):
        if has(ip, b, k):
            ip.family_key(m, k)
            m.d[E.hk(k)] = (k, n1 * val(ip, a, k) + n2 * val(ip, b, k))
    return (1, m)


SETFN = {'union': f_union, 'intersection': f_intersection, 'difference': f_difference,
         'multiunion': f_multiunion, 'weightedUnion': f_wunion,
         'weightedIntersection': f_wintersection}


def len_change(ip, o, delta):
    if not isinstance(delta, (int, Num)):
        raise ip.exc('TypeError', 'bad delta')
    ip.len_set(o, ip.simp(to_num(o.value) + to_num(delta)), 'lenchange')


# ------------------------------------------------------------------ lists

def list_index(ip, l, x, *a):
    for i, it in enumerate(l.items):
        ip.need_single(it)
        if ip.eq(it.v, x):
            return i
    raise ip.exc('ValueError', 'not in list')


def idx(ip, n, i, clamp=False):
    if isinstance(i, E.Elem):
        raise ip.exc('TypeError', 'index') if i.kind == 'str' else ip.fail('index') or 0
    if isinstance(i, Num):
        if i.is_const() and i.cval().denominator == 1:
            i = int(i.cval())
        else:
            ip.fail('symbolic index')
    if not isinstance(i, int):
        raise ip.exc('TypeError', 'indices must be integers')
    if i < 0:
        i += n
        if clamp:
            i = max(i, 0)
    if clamp:
        i = min(i, n)
    elif not 0 <= i < n:
        raise ip.exc('IndexError', 'index out of range')
    return i


def plain(ip, l):
    """Force a list to consist of single items; returns the list of It."""
    out = ip.singles(l.items)
    if len(out) != len(l.items):
        l.items = out
    return l.items


def list_pop(ip, l, i=-1):
    if not l.items:
        raise ip.exc('IndexError', 'pop from empty list')
    items = plain(ip, l)
    i = idx(ip, len(items), i)
    v = items[i].v
    ip.list_set(l, items[:i] + items[i + 1:])
    return v


def list_insert(ip, l, i, x):
    items = plain(ip, l) if not (isinstance(i, int) and i == 0) else l.items
    i = idx(ip, len(items), i, True)
    ip.list_set(l, items[:i] + [It(x)] + items[i:])


def list_remove(ip, l, x):
    i = list_index(ip, l, x)
    ip.list_set(l, l.items[:i] + l.items[i + 1:])


def list_extend(ip, l, o):
    for it in ip.collect(o):
        ip.list_append(l, it)


def list_sort(ip, l, key=None, reverse=False):
    ip.list_set(l, sort_items(ip, l.items, key, reverse), 'sort')


def sort_items(ip, items, key=None, reverse=False):
    rev = ip.truth(reverse)
    items = list(items)
    keyed = []
    for it in items:
        k = it.v if key is None else None
        if key is not None:
            res = []
            ip.run_item(It(it.v, None, it.over), lambda v: res.append(ip.call(key, [v])))
            k = res[0]
        keyed.append((k, it))
    blocks = [x for x in keyed if x[1].occ is not None or x[1].over or
              (isinstance(x[1].v, E.Elem) and x[1].v.root().multi)]
    if blocks and len(keyed) > 1:
        for k, it in blocks:
            if isinstance(k, Num) and any(a.members for a in k.atoms()):
                ip.need_single(it)
    if rev:
        keyed.reverse()
    out = []
    for k, it in keyed:
        pos = len(out)
        # binary position is not needed: linear from the right keeps stability
        while pos > 0 and ip.lt(k, out[pos - 1][0]):
            pos -= 1
        out.insert(pos, (k, it))
    if rev:
        out.reverse()
    return [it for _, it in out]


LIST = {
    'append': lambda ip, l, x: ip.list_append(l, x),
    'extend': list_extend,
    'insert': list_insert,
    'pop': list_pop,
    'popleft': lambda ip, l: list_pop(ip, l, 0),
    'appendleft': lambda ip, l, x: list_insert(ip, l, 0, x),
    'remove': list_remove,
    'index': list_index,
    'count': lambda ip, l, x: sum(1 for it in plain(ip, l) if ip.eq(it.v, x)),
    'sort': list_sort,
    'reverse': lambda ip, l: ip.list_set(l, l.items[::-1]),
    'clear': lambda ip, l: ip.list_set(l, []),
    'copy': lambda ip, l: ip.new(E.ListObj(l.items, kind=l.kind)),
    '__len__': lambda ip, l: ip.length(l),
    '__iter__': lambda ip, l: ip.new(E.IterObj(list(l.items))),
    '__contains__': lambda ip, l, x: contains(ip, l, x),
    '__getitem__': lambda ip, l, k: getitem(ip, l, k),
    '__setitem__': lambda ip, l, k, v: setitem(ip, l, k, v),
}


# ------------------------------------------------------------------ arrays of bytes

def byte(ip, v):
    """v as an element of a byte array."""
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, (int, Num)):
        if isinstance(v, (E.Obj, str, tuple, bytes, float)) or v is None:
            raise ip.exc('TypeError', 'array item must be integer')
        ip.fail('array item')
    n = to_num(v)
    lo, hi = n.interval()
    if hi < 0 or lo > 255:
        raise ip.exc('OverflowError', 'unsigned byte integer is out of range')
    if lo < 0 or hi > 255:
        if ip.ctx.cmp(n, Num.const(0), '<') or ip.ctx.cmp(Num.const(255), n, '<'):
            raise ip.exc('OverflowError', 'unsigned byte integer is out of range')
    return v


def byte_items(ip, src):
    if isinstance(src, E.Sym) and src.op == 'bytes':
        return [It(x) for x in src.args]
    if isinstance(src, bytes):
        return [It(x) for x in src]
    if isinstance(src, (E.ListObj, tuple, E.IterObj, RangeV)):
        items = ip.singles(ip.collect(src))
        return [It(byte(ip, it.v)) for it in items]
    ip.fail('initial bytes')


def array_new(ip, code, src=()):
    if code != 'B':
        ip.fail(f'array({code!r})')
    return ip.new(E.ListObj(byte_items(ip, src), kind='array'))


def bi_bytearray(ip, src=()):
    if isinstance(src, int):
        src = tuple([0] * src)
    return ip.new(E.ListObj(byte_items(ip, src), kind='bytearray'))


def bi_bytes(ip, src=()):
    if isinstance(src, int):
        src = tuple([0] * src)
    return E.Sym('bytes', *[it.v for it in byte_items(ip, src)])


def array_extend(ip, l, src):
    ip.list_set(l, l.items + byte_items(ip, src))


ARRAY = {
    'append': lambda ip, l, x: ip.list_append(l, byte(ip, x)),
    'extend': array_extend, 'frombytes': array_extend, 'fromlist': array_extend,
    'tobytes': lambda ip, l: E.Sym('bytes', *[it.v for it in plain(ip, l)]),
    'tolist': lambda ip, l: ip.new(E.ListObj(plain(ip, l))),
    'pop': list_pop, 'reverse': lambda ip, l: ip.list_set(l, l.items[::-1]),
    '__len__': lambda ip, l: ip.length(l),
    '__iter__': lambda ip, l: ip.new(E.IterObj(list(l.items))),
    '__getitem__': lambda ip, l, k: getitem(ip, l, k),
    '__setitem__': lambda ip, l, k, v: setitem(ip, l, k, v),
}


# ------------------------------------------------------------------ subscripts

def getitem(ip, o, k):
    if isinstance(o, E.MapObj):
        v = ip.map_get(o, k)
        if v is MISSING:
            if o.default is not None:
                if o.kind == 'Counter':
                    return 0
                v = ip.call(o.default, [])
                ip.map_set(o, k, v)
                return v
            raise ip.exc('KeyError', k)
        return v
    if isinstance(o, E.ListObj):
        if isinstance(k, slice):
            return ip.new(E.ListObj(slice_items(ip, o.items, k), kind=o.kind))
        if getattr(o, 'arr', None):
            return template_index(ip, o, k)
        if isinstance(k, int) and k >= 0 and len(o.items) > k and \
                all(not i.over and i.occ is None and not
                    (isinstance(i.v, E.Elem) and i.v.root().multi) for i in o.items[:k + 1]):
            return o.items[k].v
        items = plain(ip, o)
        return items[idx(ip, len(items), k)].v
    if isinstance(o, tuple):
        if isinstance(k, slice):
            return tuple(i.v for i in slice_items(ip, [It(x) for x in o], k))
        if getattr(ip, '_', None):
            pass
        return o[idx(ip, len(o), k)]
    if isinstance(o, (str, bytes)):
        if isinstance(k, slice):
            xs = [i.v for i in slice_items(ip, [It(x) for x in o], k)]
            return ''.join(xs) if isinstance(o, str) else bytes(xs)
        return o[idx(ip, len(o), k)]
    if isinstance(o, ViewObj):
        items = o.items(ip)
        if isinstance(k, slice):
            return ip.new(E.ListObj(slice_items(ip, items, k)))
        for it in items:
            ip.need_single(it)
        if isinstance(k, int) and o.what == 'keys' and o.m.bt is not None:
            return ip.position([it.v for it in items], k)
        return items[idx(ip, len(items), k)].v
    if isinstance(o, E.SetObj) and o.bt is not None:
        if isinstance(k, int):
            return ip.position(o.d.values(), k)
        ks = ip.sorted_keys(o.d.values(), o.bt)
        for x in ks:
            ip.need_single(It(x))
        return ks[idx(ip, len(ks), k)]
    if isinstance(o, E.Sym):
        cs = chars(o)
        if cs is not None:
            if isinstance(k, slice):
                return concat([i.v for i in slice_items(ip, [It(c) for c in cs], k)])
            c = cs[idx(ip, len(cs), k)]
            return E.Sym('str', c) if isinstance(c, E.Sym) else c
        h = ip.ctx.hooks.get('sym_item')
        if h:
            r = h(ip, o, k)
            if r is not MISSING:
                return r
        ip.fail(f'{o!r}[...]')
    if isinstance(o, E.Elem):
        h = o.info.get('item')
        if h:
            return h(ip, k)
        h = ip.ctx.hooks.get('sym_item')
        if h:
            r = h(ip, o, k)
            if r is not MISSING:
                return r
        cs = chars(o)
        if cs is not None:
            if isinstance(k, slice):
                return concat([i.v for i in slice_items(ip, [It(c) for c in cs], k)])
            return cs[idx(ip, len(cs), k)]
        if o.kind == 'str' and deep_native(k):
            kk = ('item', o.uid, k)
            if kk not in ip.ctx.derived:
                d = E.Elem(f'{o.name}[{k}]', o.sort + '[]', 'str', base=o)
                d.splitname = getattr(o, 'splitname', None)
                ip.ctx.derived[kk] = d
            return ip.ctx.derived[kk]
        if o.kind == 'int':
            raise ip.exc('TypeError', 'not subscriptable')
        if o.kind == 'str' and isinstance(k, slice) and isinstance(k.stop, int) and \
                k.stop > 1 and not k.start and k.step in (None, 1) and 'part' not in o.info:
            return prefix(ip, o, k.stop)
        ip.fail(f'{o!r}[...]')
    if isinstance(o, E.InstObj):
        f = o.cls.lookup('__getitem__')
        if f:
            return ip.call(f[0], [o, k])
        raise ip.exc('TypeError', 'not subscriptable')
    if isinstance(o, E.StubObj) and '__getitem__' in o.attrs:
        return ip.call(o.attrs['__getitem__'], [k])
    if o is None or isinstance(o, (int, Num, E.IterObj, E.SetObj, E.LenObj, E.FuncV)):
        raise ip.exc('TypeError', 'not subscriptable')
    if isinstance(o, RangeV):
        items = o.items(ip)
        return items[idx(ip, len(items), k)].v
    if isinstance(o, E.Ext) and o.path == 'os.environ':
        return environ(ip, k, MISSING)
    ip.fail(f'subscript of {o!r}')


def slice_items(ip, items, s):
    if s.step not in (None, 1) and not (s.step == -1 and s.start is None and s.stop is None):
        sl = [pylib.concrete(x) for x in (s.start, s.stop, s.step)]
        if any(x is MISSING for x in sl):
            ip.fail('slice step')
        if sl[2] == 0:
            raise ip.exc('ValueError', 'slice step cannot be zero')
        for it in items:
            ip.need_single(it)
        return list(items)[slice(*sl)]
    n = len(items)

    def fix(i, d):
        if i is None:
            return d
        return idx(ip, n, i, True)
    if s.step == -1:
        if s.start is None and s.stop is None:
            return items[::-1]
        ip.fail('slice step')
    if s.start in (None, 0) and s.stop is None:
        return list(items)
    st = s.stop
    if isinstance(st, Num) or isinstance(s.start, Num):
        if isinstance(st, Num):
            for i in range(n + 1):
                if ip.ctx.cmp(st, Num.const(i), '<=') and True:
                    st = i
                    break
            else:
                st = n
    for it in items:
        ip.need_single(it)
    return items[fix(s.start, 0):fix(st, n)]


def setitem(ip, o, k, v):
    if isinstance(o, E.MapObj):
        ip.map_set(o, k, v)
        return
    if isinstance(o, E.ListObj):
        if isinstance(k, slice):
            if k.start in (None, 0) and k.stop is None and k.step is None:
                ip.list_set(o, ip.collect(v))
                return
            items = plain(ip, o)
            n = len(items)
            a = 0 if k.start is None else idx(ip, n, k.start, True)
            b = n if k.stop is None else idx(ip, n, k.stop, True)
            ip.list_set(o, items[:a] + ip.collect(v) + items[max(a, b):])
            return
        if isinstance(k, Num) and not k.is_const() or getattr(o, 'arr', None):
            k = to_num(k)
            o.arr = [(k, v)] + list(getattr(o, 'arr', None) or [])
            ip.event('listset', o, k, v)
            return
        items = list(plain(ip, o))
        i = idx(ip, len(items), k)
        items[i] = It(byte(ip, v) if o.kind in ('array', 'bytearray') else v)
        ip.list_set(o, items)
        return
    if isinstance(o, E.InstObj):
        f = o.cls.lookup('__setitem__')
        if f:
            return ip.call(f[0], [o, k, v])
        raise ip.exc('TypeError', 'item assignment')
    if isinstance(o, E.StubObj) and '__setitem__' in o.attrs:
        return ip.call(o.attrs['__setitem__'], [k, v])
    if isinstance(o, (tuple, str, E.SetObj, ViewObj, int)) or o is None:
        raise ip.exc('TypeError', 'does not support item assignment')
    ip.fail(f'item assignment on {o!r}')


def delitem(ip, o, k):
    if isinstance(o, E.MapObj):
        ip.map_del(o, k)
        return
    if isinstance(o, E.ListObj):
        items = plain(ip, o)
        n = len(items)
        if isinstance(k, slice):
            a = 0 if k.start is None else idx(ip, n, k.start, True)
            b = n if k.stop is None else idx(ip, n, k.stop, True)
            ip.list_set(o, items[:a] + items[max(a, b):])
            return
        i = idx(ip, n, k)
        ip.list_set(o, items[:i] + items[i + 1:])
        return
    if isinstance(o, E.InstObj) and o.cls.lookup('__delitem__'):
        return ip.call(o.cls.lookup('__delitem__')[0], [o, k])
    raise ip.exc('TypeError', 'item deletion')


def contains(ip, o, x):
    if isinstance(o, E.MapObj):
        return ip.map_get(o, x) is not MISSING
    if isinstance(o, E.SetObj):
        return ip.set_find(o, x) is not None
    if isinstance(o, ViewObj):
        if o.what == 'keys' and o.fixed is None:
            return contains(ip, o.m, x)
        return any(ip.eq(it.v, x) for it in o.items(ip))
    if isinstance(o, (E.ListObj, tuple, E.IterObj, RangeV)):
        if isinstance(o, RangeV) and isinstance(x, Num):
            return ip.lt(o.start, x, '<=') and ip.lt(x, o.stop)
        if isinstance(o, E.IterObj):
            while o.pull():
                if ip.eq(o.take_it().v, x):
                    return True
            return False
        return any(ip.eq(it.v, x) for it in ip.iter_items(o))
    if isinstance(o, str):
        if isinstance(x, str):
            return x in o
        cs = chars(x)
        if cs is not None and len(cs) == 1:
            return any(ip.eq(cs[0], c) for c in o)
        if isinstance(x, E.Elem) and x.kind == 'str':
            if x.sort.endswith('[]') or x.info.get('char'):
                return any(ip.eq(x, c) for c in o)
            ip.fail('substring test')
        if isinstance(x, E.Sym):
            ip.fail('substring test')
        raise ip.exc('TypeError', 'in <string> requires string')
    if isinstance(o, E.Elem):
        h = o.info.get('contains')
        if h:
            return h(ip, x)
        if o.kind == 'str':
            if x == '':
                return True
            return ip.ctx.ask(('in', E.hk(x), o.uid), f'{x!r} in {o!r}')
        if o.kind == 'int' or o.kind == 'obj':
            raise ip.exc('TypeError', 'not iterable')
        ip.fail('membership')
    if isinstance(o, E.Sym):
        h = ip.ctx.hooks.get('sym_contains')
        if h:
            r = h(ip, o, x)
            if r is not None:
                return r
        cs = chars(o)
        cx = chars(x)
        if cs is not None and cx is not None and len(cx) == 1:
            return any(ip.eq(c, cx[0]) for c in cs)
        ip.fail(f'membership in {o!r}')
    if isinstance(o, bytes) and isinstance(x, (int, bytes)):
        return x in o
    if isinstance(o, E.InstObj):
        f = o.cls.lookup('__contains__')
        if f:
            return ip.truth(ip.call(f[0], [o, x]))
        if o.cls.lookup('__iter__'):
            return any(ip.eq(it.v, x) for it in ip.iter_items(o))
    if isinstance(o, E.StubObj) and '__contains__' in o.attrs:
        return ip.truth(ip.call(o.attrs['__contains__'], [x]))
    if o is None or isinstance(o, (int, Num, E.LenObj)):
        raise ip.exc('TypeError', 'argument is not iterable')
    if isinstance(o, E.Ext) and o.path == 'os.environ':
        return environ(ip, x, MISSING) is not MISSING
    ip.fail(f'membership in {o!r}')


# ------------------------------------------------------------------ templates (generic ranges)

def is_template(ip, k):
    if isinstance(k, (E.Sym, tuple)):
        return any(is_template(ip, a) for a in (k.args if isinstance(k, E.Sym) else k))
    if isinstance(k, Num):
        return any(m in ip.multi and m.sort == 'index' for at in k.atoms() for m in at.members)
    return False


def template_index(ip, l, w):
    """l[w] for a list filled by generic-range assignments l[i] = f(i)."""
    w = to_num(w)
    for k, v in l.arr:
        if k.is_const():
            if ip.ctx.cmp(w, k, '=='):
                return v
            continue
        if len(k.n) == 1 and next(iter(k.n)) and k.d == Num.const(1).d:
            ((a, e),) = next(iter(k.n))
            if e == 1 and next(iter(k.n.values())) == 1:
                lo, hi = w.interval()
                if lo >= a.lo and hi <= a.hi:
                    return subst(v, a, w)
                if hi < a.lo or lo > a.hi:
                    continue
                if ip.ctx.cmp(w, to_num(a.lo), '<') or ip.ctx.cmp(to_num(a.hi), w, '<'):
                    continue
                return subst(v, a, w)
        ds = radix(ip, k, w)
        if ds is MISSING:
            continue
        if ds is not None:
            for a, x in ds:
                v = subst(v, a, x)
            return v
        ip.fail('list template')
    n = ip.length(l)
    if isinstance(n, int) and not ip.lt(w, n):
        raise ip.exc('IndexError', 'list index out of range')
    vs = {E.hk(i.v) for i in l.items}
    if len(vs) == 1:
        return l.items[0].v
    ip.fail('list template')


def radix(ip, k, w):
    """Digits a_j of w = sum c_j * a_j where the lower ones are full ranges; MISSING: out of range."""
    import bits
    if k.d != Num.const(1).d or k.n.get((), 0):
        return None
    ts = []
    for m, c in k.n.items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].fn is not None or c.denominator != 1:
            return None
        ts.append((int(c), m[0][0]))
    ts.sort(key=lambda t: -t[0])
    if ts[-1][0] != 1 or any(a.lo != 0 or c0 != c * (a.hi + 1)
                             for (c0, _), (c, a) in zip(ts, ts[1:])):
        return None
    c, a = ts[0]
    if ip.ctx.cmp(w, to_num(a.lo * c), '<') or ip.ctx.cmp(to_num((a.hi + 1) * c), w, '<='):
        return MISSING
    out = []
    for c, a in ts:
        out.append((a, bits.floordiv(ip, w, c)))
        w = bits.mod(ip, w, c)
    return out


def subst(v, atom, w):
    if isinstance(v, Num):
        if any(a.fn in ('or', 'xor') for a in v.atoms()):
            raise E.Inconclusive('substitution')
        if atom not in v.atoms() and not any(a.fn and atom in a.arg.atoms() for a in v.atoms()):
            return v
        total = Num.const(0)
        if v.d != Num.const(1).d:
            raise E.Inconclusive('substitution')
        for m, c in v.n.items():
            t = Num.const(c)
            for a, e in m:
                if a is atom:
                    x = w
                elif a.fn and atom in a.arg.atoms():
                    if a.fn == 'div' or a.fn == 'mod':
                        x = None
                        arg = subst(a.arg, atom, w)
                        import bits
                        x = bits.floordiv(None, arg, a.k) if a.fn == 'div' else \
                            bits.mod(None, arg, a.k)
                    else:
                        raise E.Inconclusive('substitution')
                else:
                    x = Num.atom(a)
                for _ in range(e):
                    t = t * to_num(x)
            total = total + t
        return total
    if isinstance(v, E.Sym):
        return E.Sym(v.op, *[subst(x, atom, w) for x in v.args])
    if isinstance(v, tuple):
        return tuple(subst(x, atom, w) for x in v)
    return v


def template_get(ip, m, k):
    """Lookup of a key among generic-range entries str(f(i)) -> g(i)."""
    cs = chars(k)
    if cs is None:
        ip.fail('template lookup')
    for tk, tv in m.templates:
        ts = chars(tk)
        if ts is None:
            ip.fail('template lookup')
        if len(ts) != len(cs):
            continue
        # all characters within the ranges of the template's?
        ok = True
        for c, t in zip(cs, ts):
            lo, hi = char_num(ip, c).interval()
            tlo, thi = char_num(ip, t).interval()
            if hi < tlo or lo > thi:
                ok = False
                break
            if lo < tlo or hi > thi:
                if ip.ctx.cmp(char_num(ip, c), to_num(tlo), '<') or \
                        ip.ctx.cmp(to_num(thi), char_num(ip, c), '<'):
                    ok = False
                    break
        if not ok:
            continue
        import bits
        return bits.invert(ip, [char_num(ip, c) for c in cs], [char_num(ip, t) for t in ts], tv)
    return MISSING


# ------------------------------------------------------------------ operators

def binop(ip, op, a, b):
    for x, y, pre in ((a, b, '__'), (b, a, '__r')):
        if isinstance(x, E.InstObj):
            nm = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'BitAnd': 'and',
                  'BitOr': 'or', 'Mod': 'mod'}.get(op, op.lower())
            f = x.cls.lookup(pre + nm + '__')
            if f:
                r = ip.call(f[0], [x, y])
                if not (isinstance(r, E.Sym) and r.op == 'NotImplemented'):
                    return r
    na, nb = isinstance(a, (int, Num)), isinstance(b, (int, Num))
    if na and nb:
        return num_op(ip, op, a, b)
    if op == 'BitOr':
        ty = (E.BT, E.ClassV, E.FamCls, E.Ext, pylib.NTClass)
        if (isinstance(a, ty) or type(a) is tuple) and (isinstance(b, ty) or b is None):
            return (a if isinstance(a, tuple) else (a,)) + \
                (E.BT('NoneType') if b is None else b,)
    if any(isinstance(x, (E.MapObj, E.ListObj)) and x.kind in ('Counter', 'deque', 'array')
           for x in (a, b)):
        ip.fail(f'{op} on {a!r}')
    if op == 'Add':
        if is_str(a) and is_str(b):
            return concat([a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, E.ListObj) and isinstance(b, E.ListObj):
            return ip.new(E.ListObj(a.items + b.items))
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, tuple, bytes)) and isinstance(y, int):
                return x * y
            if isinstance(x, E.ListObj) and isinstance(y, (int, Num)):
                if isinstance(y, int) and y <= 64:
                    return ip.new(E.ListObj(x.items * y))
                if len(x.items) == 1:
                    return ip.new(E.ListObj([It(x.items[0].v, to_num(y))]))
    if op == 'Mod' and is_str(a):
        cb = pylib.concrete(b) if isinstance(a, str) else MISSING
        if cb is not MISSING:
            try:
                return a % cb
            except Exception as e:
                raise ip.exc(type(e).__name__, str(e))
        if isinstance(a, str) and _re.fullmatch(r'(?:[^%]|%[cs])*', a):
            parts = _re.split(r'%([cs])', a)
            args = list(b) if isinstance(b, tuple) else [b]
            if len(args) == len(parts) // 2:
                out = [parts[0]]
                for d, v, lit in zip(parts[1::2], args, parts[2::2]):
                    if d == 'c' and isinstance(v, (int, Num)):
                        v = bi_chr(ip, v)
                    elif not is_str(v):
                        break
                    out += [v, lit]
                else:
                    return concat(out)
        return E.Sym('fmt', a, b if not isinstance(b, (E.ListObj, E.MapObj)) else 'obj')
    if isinstance(a, ViewObj) and a.m.bt is None and a.what != 'values' and \
            isinstance(b, (E.MapObj, E.ListObj, tuple)) and op in ('BitAnd', 'BitOr', 'Sub', 'BitXor'):
        b = ip.call(E.BT('set'), [b])
    if isinstance(a, (E.SetObj, ViewObj)) and isinstance(b, (E.SetObj, ViewObj)) and \
            op in ('BitAnd', 'BitOr', 'Sub', 'BitXor'):
        sym = {'BitAnd': '&', 'BitOr': '|', 'Sub': '-', 'BitXor': '^'}[op]
        bt = None
        if isinstance(a, E.SetObj) and a.bt is not None:
            bt = (a.bt[0], a.bt[1], 'Set')
        if isinstance(a, ViewObj) and a.m.bt is not None:
            raise ip.exc('TypeError', 'unsupported operand')
        return set_binop(ip, as_set(ip, a), as_set(ip, b), sym, bt)
    if isinstance(a, E.MapObj) and isinstance(b, E.MapObj) and op == 'BitOr' and \
            a.bt is None and b.bt is None:
        m = map_copy(ip, a)
        map_update(ip, m, b)
        return m
    if isinstance(a, E.MapObj) and a.bt and isinstance(b, (E.SetObj, E.MapObj)) and \
            op in ('BitAnd', 'BitOr', 'Sub'):
        fn = {'BitAnd': f_intersection, 'BitOr': f_union, 'Sub': f_difference}[op]
        return fn(ip, E.FamMod(a.bt[0], a.bt[1]), a, b)
    if isinstance(a, E.SetObj) and a.bt and isinstance(b, E.MapObj) and \
            op in ('BitAnd', 'BitOr', 'Sub'):
        fn = {'BitAnd': f_intersection, 'BitOr': f_union, 'Sub': f_difference}[op]
        return fn(ip, E.FamMod(a.bt[0], a.bt[1]), a, b)
    ok = (E.Elem, E.Sym)
    if isinstance(a, E.Unknown) or isinstance(b, E.Unknown):
        ip.fail('unknown operand')
    if isinstance(a, ok) or isinstance(b, ok):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, E.Elem):
                if x.kind == 'str' and (isinstance(y, (int, Num, E.Obj, tuple)) or y is None) and op != 'Mod' \
                        or x.kind == 'int' and (isinstance(y, (str, E.Obj, tuple)) or y is None) \
                        or x.kind == 'obj':
                    if x.kind == 'str' and op == 'Mult' and isinstance(y, int):
                        break
                    raise ip.exc('TypeError', 'unsupported operand')
        n = elem_num(ip, a), elem_num(ip, b)
        if n[0] is not None and n[1] is not None:
            return num_op(ip, op, n[0], n[1])
        return E.Sym(op, a, b)
    if isinstance(a, (E.Obj, tuple, str, int, Num, bytes)) or a is None or \
            isinstance(b, (E.Obj, tuple, str, int, Num)) or b is None:
        raise ip.exc('TypeError', f'unsupported operand for {op}')
    ip.fail(f'{op} on {a!r}, {b!r}')


def elem_num(ip, v):
    if isinstance(v, (int, Num)):
        return v
    if isinstance(v, E.Elem) and v.kind == 'int' and not v.root().multi:
        k = ('num', v.uid)
        if k not in ip.ctx.derived:
            ip.ctx.derived[k] = Num.atom(Atom(v.name, None, None, True))
        return ip.ctx.derived[k]
    return None


def num_op(ip, op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Pow':
                if b >= 0:
                    return a ** b
                return Num.const(Fraction(a) ** b, True)
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op == 'Div':
                if b == 0:
                    raise ZeroDivisionError('division by zero')
                return Num.const(Fraction(a, b), True)
        except (ZeroDivisionError, ValueError) as e:
            raise ip.exc(type(e).__name__, str(e))
        ip.fail(op)
    x, y = to_num(a), to_num(b)
    if op == 'Add':
        return ip.simp(x + y)
    if op == 'Sub':
        return ip.simp(x - y)
    if op == 'Mult':
        return ip.simp(x * y)
    if op == 'Div':
        if y.is_const() and y.cval() == 0 or (not y.is_const() and may_zero(ip, y)):
            raise ip.exc('ZeroDivisionError', 'division by zero')
        return x.div(y)
    if op == 'Pow':
        if y.is_const():
            e = y.cval()
            if e.denominator == 1 and 0 <= e <= 8:
                r = Num.const(1, x.fl or y.fl)
                for _ in range(int(e)):
                    r = r * x
                return r
            if e == Fraction(1, 2):
                return msqrt(ip, x)
            if e.denominator == 1 and -4 <= e < 0:
                r = Num.const(1, True)
                for _ in range(int(-e)):
                    r = r.div(x)
                return r
        ip.fail('power')
    if op in ('FloorDiv', 'Mod', 'LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
        import bits
        return ip.simp(bits.op(ip, op, x, y))
    ip.fail(op)


def may_zero(ip, y):
    lo, hi = y.interval()
    if lo > 0 or hi < 0:
        return False
    h = ip.ctx.hooks.get('nonzero')
    if h and h(y):
        return False
    return ip.ctx.cmp(y, Num.const(0), '==')


def msqrt(ip, x):
    if x.is_const():
        from math import isqrt
        c = x.cval()
        if c < 0:
            raise ip.exc('ValueError', 'math domain error')
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Num.const(Fraction(a, b), True)
    lo, hi = x.interval()
    if hi < 0:
        raise ip.exc('ValueError', 'math domain error')
    # sqrt(y**2) = y for y >= 0
    if len(x.n) == 1 and x.d == Num.const(1).d:
        (m, c), = x.n.items()
        if c == 1 and m and all(e % 2 == 0 and a.lo >= 0 for a, e in m):
            return Num({tuple((a, e // 2) for a, e in m): Fraction(1)}, None, True)
    return Num.atom(ip.ctx.fn_atom('sqrt', x, lo=0 if lo <= 0 else Fraction(1, 10 ** 6)))


def mlog(ip, x, *base):
    x = to_num(x)
    if base:
        return mlog(ip, x).div(to_num(mlog(ip, to_num(base[0]))))
    if x.is_const():
        c = x.cval()
        if c <= 0:
            raise ip.exc('ValueError', 'math domain error')
        if c == 1:
            return Num.const(0, True)
    lo, hi = x.interval()
    if hi <= 0:
        raise ip.exc('ValueError', 'math domain error')
    if lo <= 0 and not x.is_const():
        if not ip.ctx.cmp(Num.const(0), x, '<'):
            raise ip.exc('ValueError', 'math domain error')
    b = 0 if lo >= 1 else None
    if lo > 1:
        b = Fraction(1, 10 ** 9)
    elif lo == 1 and not x.is_const():
        # 1 + positive
        d = x - Num.const(1)
        if d.n and d.interval()[0] >= 0 and pos(d):
            b = Fraction(1, 10 ** 9)
    return Num.atom(ip.ctx.fn_atom('log', x, lo=b))


def pos(d):
    """Numerator and denominator are sums of positive terms of positive atoms."""
    for p in (d.n, d.d):
        for m, c in p.items():
            if c <= 0 or any(a.lo <= 0 for a, e in m):
                return False
    return True


# ------------------------------------------------------------------ builtins

def type_of(ip, v):
    if isinstance(v, pylib.NTuple):
        return v.cls
    if v is None:
        return E.BT('NoneType')
    if isinstance(v, bool):
        return E.BT('bool')
    if isinstance(v, int):
        return E.BT('int')
    if isinstance(v, str):
        return E.BT('str')
    if isinstance(v, bytes):
        return E.BT('bytes')
    if isinstance(v, tuple):
        return E.BT('tuple')
    if isinstance(v, Num):
        return E.BT('float' if v.fl else 'int')
    if isinstance(v, E.MapObj):
        return E.FamCls(*v.bt) if v.bt else E.BT('dict')
    if isinstance(v, E.SetObj):
        return E.FamCls(*v.bt) if v.bt else E.BT('frozenset' if v.frozen else 'set')
    if isinstance(v, E.ListObj):
        return E.BT('list')
    if isinstance(v, E.InstObj):
        return v.cls
    if isinstance(v, E.LenObj):
        return E.Ext('BTrees.Length.Length')
    if isinstance(v, E.ExcV):
        return v.cls
    if is_str(v):
        return E.BT('str')
    if isinstance(v, E.Elem) and v.kind == 'int':
        return E.BT('int')
    if isinstance(v, E.StubObj) and v.cls is not None:
        return v.cls
    if isinstance(v, (E.FuncV, E.BoundV, E.NativeV)):
        return E.BT('function')
    if isinstance(v, (E.ClassV, E.BT, E.FamCls)):
        return E.BT('type')
    if isinstance(v, (ViewObj, E.IterObj)):
        return E.BT('iterator')
    ip.fail(f'type({v!r})')


def isinst(ip, v, c):
    if isinstance(c, tuple):
        return any(isinst(ip, v, x) for x in c)
    if isinstance(c, E.Unknown):
        ip.fail(c.why)
    if isinstance(v, E.Elem):
        if isinstance(c, (E.ClassV, E.FamCls)):
            if v.kind == 'obj' and 'isinst' in v.info:
                return v.info['isinst'](c)
            if v.kind == 'obj' or v.kind == 'any':
                return False
            return False
        if isinstance(c, E.BT):
            if c.name == 'object':
                return True
            if v.kind == 'str':
                return c.name == 'str'
            if v.kind == 'int':
                return c.name == 'int'
            if v.kind == 'obj':
                return False
            if ip.is_none(v):
                return c.name == 'NoneType'
            return ip.ctx.ask(('isinst', v.uid, c.name), f'isinstance({v!r}, {c.name})')
        if isinstance(c, E.Ext):
            return False
    if isinstance(c, E.ClassV):
        if isinstance(v, E.InstObj):
            return c in v.cls.mro
        if isinstance(v, E.StubObj) and isinstance(v.cls, E.ClassV):
            return c in v.cls.mro
        if isinstance(v, E.ExcV) and isinstance(v.cls, E.ClassV):
            return c in v.cls.mro
        if isinstance(v, E.StubObj) and 'isinst' in v.attrs.get('__model__', ()):
            return v.attrs['__model__']['isinst'](c)
        return False
    if isinstance(c, E.FamCls):
        bt = getattr(v, 'bt', None)
        return bt is not None and bt == c.key()
    if isinstance(c, E.Ext):
        if c.path.endswith('Length.Length'):
            return isinstance(v, E.LenObj)
        if c.path.startswith('collections.abc.') or c.path.startswith('typing.'):
            n = c.path.rsplit('.', 1)[1]
            if n in ('Mapping', 'MutableMapping', 'Dict'):
                return isinstance(v, E.MapObj) and (v.bt is None or True)
            if n in ('Sequence', 'List'):
                return isinstance(v, (str, tuple, E.ListObj)) or is_str(v)
            if n in ('Iterable', 'Collection'):
                return isinstance(v, (str, tuple, E.ListObj, E.SetObj, E.MapObj, E.IterObj, ViewObj)) or is_str(v)
            if n == 'Set':
                return isinstance(v, E.SetObj)
            if n == 'Iterator':
                return isinstance(v, E.IterObj)
            if n == 'Callable':
                return isinstance(v, (E.FuncV, E.BoundV, E.NativeV, E.LenObj))
        if c.path in E.PERSISTENT:
            return isinstance(v, E.InstObj) and v.cls.persistent() or isinstance(v, E.LenObj) or \
                getattr(v, 'bt', None) is not None
        ip.fail(f'isinstance(_, {c.path})')
    if isinstance(c, pylib.NTClass):
        return isinstance(v, pylib.NTuple) and v.cls is c
    if isinstance(c, E.BT):
        n = c.name
        if n == 'object':
            return True
        if n in T_EXC:
            return isinstance(v, E.ExcV) and ip.exc_match(v, c)
        if n == 'int':
            return isinstance(v, int) or isinstance(v, Num) and not v.fl
        if n == 'bool':
            return isinstance(v, bool)
        if n == 'float':
            return isinstance(v, Num) and v.fl
        if n == 'str':
            return is_str(v)
        if n == 'bytes':
            return isinstance(v, bytes)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'list':
            return isinstance(v, E.ListObj) and v.kind == 'list'
        if n == 'dict':
            return isinstance(v, E.MapObj) and v.bt is None
        if n == 'set':
            return isinstance(v, E.SetObj) and v.bt is None and not v.frozen
        if n == 'frozenset':
            return isinstance(v, E.SetObj) and v.bt is None and v.frozen
        if n == 'type':
            return isinstance(v, (E.ClassV, E.BT, E.FamCls))
        if n == 'NoneType':
            return v is None
        if n == 'range':
            return isinstance(v, RangeV)
        if n == 'function':
            return isinstance(v, E.FuncV)
        return False
    raise ip.exc('TypeError', 'isinstance() arg 2 must be a type')


def do_next(ip, it, *d):
    if isinstance(it, E.InstObj) and it.cls.lookup('__next__'):
        try:
            return ip.call(it.cls.lookup('__next__')[0], [it])
        except E.RaiseEx as e:
            if d and ip.exc_match(e.exc, E.BT('StopIteration')):
                return d[0]
            raise
    if not isinstance(it, E.IterObj):
        raise ip.exc('TypeError', 'not an iterator')
    if isinstance(it, pylib.InfIter):
        return it.take()
    if not it.pull():
        if d:
            return d[0]
        raise ip.exc('StopIteration')
    ip.need_single(it._items[0])
    return it.take_it().v


def make_iter(ip, v):
    if isinstance(v, E.IterObj):
        return v
    return ip.new(E.IterObj(ip.iter_items(v)))


def call_builtin(ip, n, a, kw):
    f = BI.get(n)
    if f:
        return f(ip, *a, **kw)
    if n in T_EXC:
        e = E.ExcV(E.BT(n), a)
        e.loc = ip.locs()
        return e
    ip.fail(f'builtin {n}()')


def bi_minmax(first):
    def f(ip, *a, key=None, default=MISSING):
        items = ip.take_items(a[0]) if len(a) == 1 else list(a)
        if not items:
            if default is not MISSING:
                return default
            raise ip.exc('ValueError', 'empty sequence')
        best, bk = items[0], (ip.call(key, [items[0]]) if key else items[0])
        for x in items[1:]:
            k = ip.call(key, [x]) if key else x
            if (ip.free(ip.lt, k, bk) if first else ip.free(ip.lt, bk, k)):
                best, bk = x, k
        return best
    return f


def bi_sum(ip, seq, start=0):
    tot = [start]
    for it in ip.collect(seq):
        v = it.v
        if isinstance(v, (int, Num)):
            x = to_num(v)
            if it.occ is not None:
                x = x * it.occ
            over = set(it.over) | {c for at in x.atoms() for c in at.members}
            for c in over:
                if c.multi and c not in ip.multi:
                    x = E.sumover(ip.ctx, c, x)
            tot[0] = num_op(ip, 'Add', tot[0], ip.simp(x))
        else:
            ip.need_single(it)
            tot[0] = binop(ip, 'Add', tot[0], v)
    return tot[0]


def bi_anyall(want):
    def f(ip, seq):
        if isinstance(seq, E.IterObj):
            while seq.pull():
                if ip.truth(seq.take_it().v) == want:
                    return want
            return not want
        for it in ip.iter_items(seq):
            if ip.truth(it.v) == want:
                return want
        return not want
    return f


def bi_int(ip, v=0, *base, **kw):
    base = base or tuple(kw.values())
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Num):
        if v.integral():
            return ip.simp(Num(v.n, v.d, False))
        if v.is_const():
            return int(v.cval())
        return Num.atom(ip.ctx.fn_atom('int', v, integral=True))
    if isinstance(v, str):
        try:
            return int(v, *base)
        except ValueError as e:
            raise ip.exc('ValueError', str(e))
    if isinstance(v, E.Elem):
        if v.kind == 'int':
            return v
        return E.Sym('int', v)
    if isinstance(v, E.Sym):
        return E.Sym('int', v)
    raise ip.exc('TypeError', 'int() argument')


def bi_float(ip, v=0):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return Num.const(v, True)
    if isinstance(v, Num):
        return Num(v.n, v.d, True)
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError as e:
            raise ip.exc('ValueError', str(e))
        if f in (math.inf, -math.inf):
            return E.Sym('inf', 1 if f > 0 else -1)
        if f != f:
            ip.fail('NaN')
        return to_num(f)
    if isinstance(v, E.Elem) and v.kind == 'int':
        return v
    if v is None or isinstance(v, (E.Obj, tuple)):
        raise ip.exc('TypeError', 'float() argument')
    ip.fail('float()')


def bi_enumerate(ip, seq, start=0):
    out = []
    i = start
    for it in ip.singles(ip.collect(seq)):
        out.append(It((i, it.v)))
        i = num_op(ip, 'Add', i, 1)
    return ip.new(E.IterObj(out))


def bi_zip(ip, *seqs, strict=False):
    inf = [s for s in seqs if isinstance(s, pylib.InfIter)]
    if inf and len(inf) == len(seqs):
        return ip.new(pylib.InfIter(lambda i: tuple(s.take() for s in seqs)))
    ls = [s if isinstance(s, pylib.InfIter) else ip.collect(s) for s in seqs]
    if not ls:
        return ip.new(E.IterObj([]))
    if inf:
        some = [x for x in ls if not isinstance(x, pylib.InfIter)]
        if len(some) == 1 and all(s.const for s in inf):
            return ip.new(E.IterObj([It(tuple(x.nth(0) if isinstance(x, pylib.InfIter) else it.v
                                              for x in ls), it.occ, it.over or elem_over(it))
                                     for it in some[0]]))
        some = [ip.singles(x) for x in some]
        n = min(map(len, some))
        ls = [[It(x.take()) for _ in range(n)] if isinstance(x, pylib.InfIter) else ip.singles(x)
              for x in ls]
        return ip.new(E.IterObj([It(tuple(x.v for x in b)) for b in zip(*ls)]))
    if len({len(x) for x in ls}) == 1 and all(
            all(a.occ is None and a.over == b[0].over for a in b) and
            not any(isinstance(x.v, E.Elem) and x.v.root().multi and not x.over for x in b)
            or all(a is b[0] for a in b) or same_shape(b)
            for b in zip(*ls)):
        return ip.new(E.IterObj([It(tuple(x.v for x in b), b[0].occ, b[0].over or elem_over(b[0]))
                                 for b in zip(*ls)]))
    ls = [ip.singles(l_) for l_ in ls]
    return ip.new(E.IterObj([It(tuple(x.v for x in b)) for b in zip(*ls)]))


def elem_over(it):
    if isinstance(it.v, E.Elem) and it.v.root().multi:
        return (it.v.root(),)
    return ()


def same_shape(b):
    def sh(it):
        return (it.occ if it.occ is None else str(it.occ), it.over or elem_over(it))
    return all(sh(x) == sh(b[0]) for x in b)


def bi_map(ip, f, *seqs):
    if len(seqs) == 1:
        return pylib.mapped(ip, seqs[0], lambda x: ip.call(f, [x]))
    return pylib.mapped(ip, bi_zip(ip, *seqs), lambda t: ip.call(f, list(t)))


def bi_filter(ip, f, seq):
    def fn(x):
        ok = ip.truth(x) if f is None else ip.truth(ip.call(f, [x]))
        return x if ok else MISSING
    return pylib.mapped(ip, seq, fn)


def bi_sorted(ip, seq, key=None, reverse=False):
    return ip.new(E.ListObj(sort_items(ip, ip.collect(seq), key, reverse)))


def bi_getattr(ip, o, name, *d):
    if not isinstance(name, str):
        ip.fail('getattr with computed name')
    try:
        v = get_attr(ip, o, name)
    except E.RaiseEx as e:
        if d and ip.exc_match(e.exc, E.BT('AttributeError')):
            return d[0]
        raise
    if v is MISSING:
        if d:
            return d[0]
        raise ip.exc('AttributeError', f'{o!r} has no attribute {name}')
    return v


def bi_dict(ip, *a, **kw):
    m = ip.new(E.MapObj())
    if a:
        map_update(ip, m, a[0])
    for k, v in kw.items():
        ip.map_set(m, k, v)
    return m


def bi_set(frozen):
    def f(ip, *a):
        s = ip.new(E.SetObj())
        if a:
            ip.foreach(a[0], lambda x: ip.set_add(s, x))
        s.frozen = frozen
        return s
    return f


def bi_list(ip, *a):
    if a and getattr(a[0], 'arr', None):
        return copy_arr(ip, a[0], 'list')
    return ip.new(E.ListObj(ip.collect(a[0]) if a else []))


def copy_arr(ip, o, kind):
    r = ip.new(E.ListObj(list(o.items), kind=kind))
    r.arr = list(o.arr)
    return r


def bi_tuple(ip, *a):
    if not a:
        return ()
    if getattr(a[0], 'arr', None):
        return copy_arr(ip, a[0], 'tuple')
    items = ip.collect(a[0])
    if any(it.occ is not None or it.over or
           (isinstance(it.v, E.Elem) and it.v.root().multi) for it in items):
        l_ = ip.new(E.ListObj(items, kind='tuple'))
        return l_
    return tuple(it.v for it in items)


def bi_chr(ip, v):
    if isinstance(v, int):
        if not 0 <= v < 0x110000:
            raise ip.exc('ValueError', 'chr() arg not in range(0x110000)')
        return chr(v)
    if isinstance(v, Num):
        return plain_chr(v) or E.Sym('str', E.Sym('chr', v))
    if isinstance(v, E.Elem) and v.kind == 'int':
        return E.Sym('str', E.Sym('chr', v))
    raise ip.exc('TypeError', 'chr()')


def bi_ord(ip, v):
    if isinstance(v, str):
        if len(v) != 1:
            raise ip.exc('TypeError', 'ord() expected a character')
        return ord(v)
    cs = chars(v)
    if cs and len(cs) == 1 and isinstance(cs[0], E.Sym):
        return cs[0].args[0]
    if isinstance(v, E.Elem):
        return E.Sym('ord', v)
    raise ip.exc('TypeError', 'ord() expected a character')


def bi_divmod(ip, a, b):
    return (num_op(ip, 'FloorDiv', a, b), num_op(ip, 'Mod', a, b))


def bi_round(ip, v, *n):
    if isinstance(v, int):
        return v
    if isinstance(v, Num) and v.is_const() and all(isinstance(x, int) or x is None for x in n):
        r = round(float(v.cval()), *n)
        return r if isinstance(r, int) else to_num(r)
    return Num.atom(ip.ctx.fn_atom('round' + str(n), to_num(v)))


def bi_abs(ip, v):
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, Num):
        return ip.simp(-v) if ip.ctx.cmp(v, Num.const(0), '<') else v
    if isinstance(v, E.Elem) and v.kind == 'int':
        ctx = ip.ctx
        if v.sort in ('wid', 'weight'):
            return v
        k = ('abs', E.hk(v))
        if k in ctx.derived:
            return ctx.derived[k]
        # all of a sort have the same sign, or one is the negative of another
        how = ctx.pick(('signs', v.sort), ['none is negative', 'all are negative', 'one is'],
                       f'signs of {v.sort}')
        r = v
        if how == 'all are negative':
            r = E.Elem(f'abs({v.name})', v.sort, 'int', falsy=False)
        elif how == 'one is' and ('negative', v.sort) not in ctx.derived:
            twins = [e for e in ctx.elems.values() if e.sort == v.sort and not e.multi and
                     e is not v and ('abs', E.hk(e)) not in ctx.derived]
            if not v.multi and twins:
                ctx.derived['negative', v.sort] = v
                r = twins[0]
        ctx.derived[k] = r
        return r
    ip.fail('abs')


def bi_type(ip, *a):
    if len(a) == 1:
        return type_of(ip, a[0])
    ip.fail('type()')


def bi_repr(ip, v):
    return pylib.fmt(ip, v, 114, '')


def bi_str(ip, *a):
    if not a:
        return ''
    if is_str(a[0]):
        return a[0]
    if len(a) > 1:
        ip.fail('str() with an encoding')
    return pylib.fmt(ip, a[0], 115 if not isinstance(a[0], (E.InstObj, E.ExcV)) else -1, '')


def bi_range(ip, *a):
    a = [int(x.cval()) if isinstance(x, Num) and x.is_const() else x for x in a]
    for x in a:
        if not isinstance(x, (int, Num)):
            if isinstance(x, E.Elem) and x.kind == 'int':
                continue
            raise ip.exc('TypeError', 'range()')
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


def bi_hasattr(ip, o, name):
    if not isinstance(name, str):
        ip.fail('hasattr with computed name')
    try:
        if get_attr0(ip, o, name) is not MISSING:
            return True
    except E.RaiseEx as e:
        if ip.exc_match(e.exc, E.BT('AttributeError')):
            return False
        raise
    if isinstance(o, E.Elem) and o.kind == 'any' and pylib.real_has(o, name):
        ip.fail(f'hasattr {name} of {o!r}')
    return pylib.real_has(o, name)


def bi_property(ip, fget=None, fset=None, fdel=None, doc=None):
    return E.PropV(fget, fset)


def bi_iter(ip, v, *s):
    if s:
        ip.fail('iter with sentinel')
    return make_iter(ip, v)


def bi_callable(ip, v):
    return isinstance(v, (E.FuncV, E.BoundV, E.NativeV, E.ClassV, E.BT, E.LenObj, E.FamCls)) or \
        (isinstance(v, E.InstObj) and bool(v.cls.lookup('__call__')))


def bi_reversed(ip, v):
    return ip.new(E.IterObj(list(reversed(ip.iter_items(v)))))


def bi_compile(ip, source, filename='', mode='exec', *a, **kw):
    if isinstance(source, E.Sym) and source.op == 'code':
        return source
    h = ip.ctx.hooks.get('eval')
    if h is None or mode != 'eval':
        ip.fail('compile')
    bad = ip.ctx.hooks.get('compile')
    if bad and bad(source):
        raise ip.exc('SyntaxError', 'invalid syntax')
    return E.Sym('code', source)


def bi_eval(ip, expr, *a):
    h = ip.ctx.hooks.get('eval')
    if isinstance(expr, E.Sym) and expr.op == 'code':
        expr = expr.args[0]
    if h:
        return h(ip, expr, a)
    ip.fail('eval')


def bi_issubclass(ip, c, b):
    if isinstance(b, tuple):
        return any(bi_issubclass(ip, c, x) for x in b)
    if isinstance(c, E.ClassV):
        return E._in(b, c.mro)
    if isinstance(c, E.BT) and isinstance(b, E.BT):
        x, y = getattr(builtins, c.name, None), getattr(builtins, b.name, None)
        if isinstance(x, type) and isinstance(y, type):
            return issubclass(x, y)
        return c.name == b.name
    if isinstance(c, E.FamCls):
        return isinstance(b, E.FamCls) and c.key() == b.key()
    ip.fail('issubclass')


BI = {
    'len': lambda ip, v: ip.length(v),
    'isinstance': isinst,
    'issubclass': bi_issubclass,
    'type': bi_type,
    'list': bi_list, 'tuple': bi_tuple, 'dict': bi_dict,
    'set': bi_set(False), 'frozenset': bi_set(True),
    'sorted': bi_sorted, 'reversed': bi_reversed, 'enumerate': bi_enumerate, 'zip': bi_zip,
    'map': bi_map, 'filter': bi_filter, 'range': bi_range,
    'min': bi_minmax(True), 'max': bi_minmax(False), 'sum': bi_sum,
    'any': bi_anyall(True), 'all': bi_anyall(False), 'abs': bi_abs,
    'int': bi_int, 'float': bi_float,
    'bool': lambda ip, v=False: ip.truth(v),
    'str': bi_str, 'repr': bi_repr, 'chr': bi_chr, 'ord': bi_ord, 'divmod': bi_divmod,
    'pow': lambda ip, a, b: num_op(ip, 'Pow', a, b), 'round': bi_round,
    'hasattr': bi_hasattr, 'getattr': bi_getattr,
    'setattr': lambda ip, o, n, v: ip.set_attr(o, n, v),
    'delattr': lambda ip, o, n: ip.del_attr(o, n),
    'callable': bi_callable, 'iter': bi_iter, 'next': do_next,
    'print': lambda ip, *a, **k: None,
    'id': lambda ip, v: E.Sym('id', v), 'hash': lambda ip, v: E.Sym('hash', v) if pylib.copy_of(ip, [v]) else None,
    'property': bi_property,
    'staticmethod': lambda ip, f: E.StaticV(f, 'static'),
    'classmethod': lambda ip, f: E.StaticV(f, 'class'),
    'object': lambda ip: ip.new(E.InstObj(OBJECT_CLS)),
    'eval': bi_eval,
    'vars': lambda ip, v: ip.getattr(v, '__dict__'),
    'compile': bi_compile,
    'slice': lambda ip, *a: slice(*a),
    'bytes': bi_bytes, 'bytearray': bi_bytearray,
}


class _NS:
    vars = {}


OBJECT_CLS = E.ClassV('object', [], _NS, None)


# ------------------------------------------------------------------ other modules

def environ(ip, k, d):
    if k == 'PURE_PYTHON':
        return '1' if ip.prog.pure else (d if d is not MISSING else MISSING)
    return d


def decorate(ip, dec, v):
    if isinstance(dec, E.Sym) and dec.op == 'identity':
        return v
    if isinstance(dec, E.Ext):
        if dec.path in ('abc.abstractmethod', 'typing.final', 'typing.override'):
            return v
        if dec.path == 'functools.total_ordering' and isinstance(v, E.ClassV):
            v.total = True
            return v
    return ip.call(dec, [v])


def call_ext(ip, path, a, kw):
    h = ip.ctx.hooks.get('ext')
    if h and path in h:
        return h[path](ip, a, kw)
    f = EXT.get(path)
    if f is None:
        if path.startswith('zope.interface.'):
            return E.Sym('identity')
        ip.fail(f'call of {path}')
    return f(ip, *a, **kw)


def itemgetter(ip, *ks):
    if len(ks) == 1:
        return E.NativeV('itemgetter', lambda ip, a, kw: getitem(ip, a[0], ks[0]))
    return E.NativeV('itemgetter', lambda ip, a, kw: tuple(getitem(ip, a[0], k) for k in ks))


def attrgetter(ip, n):
    return E.NativeV('attrgetter', lambda ip, a, kw: ip.getattr(a[0], n))


def methodcaller(ip, n, *xs, **kk):
    return E.NativeV('methodcaller', lambda ip, a, kw: ip.call(ip.getattr(a[0], n), list(xs), kk))


def islice(ip, seq, *a):
    if len(a) == 1:
        start, stop = 0, a[0]
    elif len(a) >= 2 and (len(a) == 2 or a[2] in (None, 1)):
        start, stop = a[0] or 0, a[1]
    else:
        vs = pylib.vals(ip, seq)
        sl = [pylib.concrete(x) for x in a]
        if any(x is MISSING for x in sl):
            ip.fail('islice step')
        return ip.new(E.IterObj([It(x) for x in vs[slice(*sl)]]))
    it = make_iter(ip, seq)
    if isinstance(it, pylib.InfIter):
        if not isinstance(stop, int):
            ip.fail('islice of an infinite iterator')
        return ip.new(E.IterObj([It(it.take()) for _ in range(stop)][start:]))
    if it.steps is not None and isinstance(stop, int):
        got = []
        while len(got) < stop and it.pull():
            got.append(it.take_it())
            ip.need_single(got[-1])
        return ip.new(E.IterObj(got[start:]))
    items = it.force()
    if stop is None:
        ip_stop = None
    elif isinstance(stop, int):
        ip_stop = stop
    else:
        ip.fail('islice bound')
    if ip_stop is not None and ip_stop < 0:
        raise ip.exc('ValueError', 'islice')
    need = items if ip_stop is None else items[:ip_stop]
    if ip_stop is not None or start:
        n = 0
        for x in items:
            if ip_stop is not None and n >= ip_stop:
                break
            ip.need_single(x)
            n += 1
    it.set([] if ip_stop is None else items[ip_stop:])
    return ip.new(E.IterObj(list(need[start:])))


def nbest(largest):
    def f(ip, n, seq, key=None):
        items = ip.collect(seq)
        if n is None or isinstance(n, (str, float)):
            raise ip.exc('TypeError', 'number of items')
        if not isinstance(n, int):
            ip.fail('nlargest bound')
        s = sort_items(ip, items, key, largest)
        for it in s:
            ip.need_single(it)
        return ip.new(E.ListObj(s[:max(n, 0)]))
    return f


def bisect(right, insert):
    def f(ip, l, x, lo=0, hi=None, key=None):
        items = plain(ip, l)
        hi = len(items) if hi is None else hi
        if not isinstance(lo, int) or not isinstance(hi, int):
            ip.fail('bisect bounds')
        kx = ip.call(key, [x]) if key and insert else x
        while lo < hi:
            mid = (lo + hi) // 2
            y = items[mid].v
            ky = ip.call(key, [y]) if key else y
            if right:
                if ip.lt(kx, ky):
                    hi = mid
                else:
                    lo = mid + 1
            else:
                if ip.lt(ky, kx):
                    lo = mid + 1
                else:
                    hi = mid
        if insert:
            list_insert(ip, l, lo, x)
            return None
        return lo
    return f


def heappush(ip, l, x):
    list_insert(ip, l, len(l.items), x)
    ip.list_set(l, sort_items(ip, l.items))


def heappop(ip, l):
    if not l.items:
        raise ip.exc('IndexError', 'index out of range')
    ip.list_set(l, sort_items(ip, l.items))
    return list_pop(ip, l, 0)


def heapify(ip, l):
    ip.list_set(l, sort_items(ip, l.items))


def heapreplace(ip, l, x):
    r = heappop(ip, l)
    heappush(ip, l, x)
    return r


def heappushpop(ip, l, x):
    heappush(ip, l, x)
    return heappop(ip, l)


def chain(ip, *seqs):
    return ip.new(E.IterObj(None, lambda: [x for s in seqs for x in ip.collect(s)]))


def chain_from(ip, seqs):
    def run():
        out = ip.new(E.ListObj())
        ip.foreach(seqs, lambda s: [ip.list_append(out, it) for it in ip.collect(s)] and None)
        return out.items
    return ip.new(E.IterObj(None, run))


def takewhile(ip, f, seq):
    out = []
    for it in ip.collect(seq):
        r = []
        ip.run_item(It(it.v, None, it.over), lambda v: r.append(ip.truth(ip.call(f, [v]))))
        if not r[0]:
            break
        out.append(it)
    return ip.new(E.IterObj(out))


def dropwhile(ip, f, seq):
    items = ip.collect(seq)
    for i, it in enumerate(items):
        if not ip.truth(ip.call(f, [it.v])):
            return ip.new(E.IterObj(items[i:]))
    return ip.new(E.IterObj([]))


def reduce(ip, f, seq, *init):
    items = ip.single_items(seq) if not isinstance(seq, E.IterObj) else \
        [x.v for x in ip.collect(seq)]
    if init:
        acc = init[0]
    else:
        if not items:
            raise ip.exc('TypeError', 'reduce() of empty sequence')
        acc, items = items[0], items[1:]
    for x in items:
        acc = ip.call(f, [acc, x])
    return acc


def partial(ip, f, *a, **kw):
    return E.NativeV('partial', lambda ip, b, k2: ip.call(f, list(a) + b, {**kw, **k2}))


def defaultdict(ip, factory=None, *a, **kw):
    m = ip.new(E.MapObj(None, kind='defaultdict'))
    m.default = factory
    if a:
        map_update(ip, m, a[0])
    return m


def counter(ip, *a, **kw):
    m = ip.new(E.MapObj(None, kind='Counter'))
    m.default = E.BT('int')
    pylib.count_update(ip, m, a[0] if a else (), kw, 1)
    return m


def mk_length(ip, v=0):
    if not isinstance(v, (int, Num)):
        ip.fail('Length of non-number')
    return ip.new(E.LenObj(v))


def re_compile(ip, pat, flags=0):
    if isinstance(pat, E.Sym) and pat.op == 'regex':
        return pat
    import rx
    rx.check_pattern(ip, pat)
    return E.Sym('regex', pat, flags)


def re_escape(ip, s):
    if isinstance(s, str):
        return _re.escape(s)
    cs = chars(s)
    if cs is not None:
        return concat([_re.escape(c) if isinstance(c, str) else E.Sym('esc', c) for c in cs])
    if is_str(s):
        return E.Sym('esc', s)
    raise ip.exc('TypeError', 're.escape')


def re_fn(name):
    def f(ip, pat, *a, **kw):
        r = re_compile(ip, pat, kw.pop('flags', 0))
        return ip.call(regex_attr(ip, r, name), list(a), kw)
    return f


def copy_(ip, v):
    if isinstance(v, E.MapObj):
        return map_copy(ip, v)
    if isinstance(v, E.SetObj):
        return ip.new(E.SetObj(v.bt, v.d.values(), frozen=v.frozen))
    if isinstance(v, E.ListObj):
        return ip.new(E.ListObj(v.items, kind=v.kind))
    if native(v) or isinstance(v, (Num, E.Elem, tuple)):
        return v
    if isinstance(v, E.InstObj) and not v.cls.lookup('__copy__'):
        return ip.new(E.InstObj(v.cls, v.attrs))
    ip.fail('copy')


EXT = {
    'BTrees.Length.Length': mk_length,
    'math.log': mlog, 'math.sqrt': lambda ip, x: msqrt(ip, to_num(x)),
    'math.log1p': lambda ip, x: mlog(ip, to_num(x) + Num.const(1)),
    'math.pow': lambda ip, a, b: num_op(ip, 'Pow', a, b),
    'math.fsum': bi_sum,
    'math.floor': bi_int, 'math.hypot': lambda ip, *a: msqrt(ip, to_num(bi_sum(
        ip, tuple(num_op(ip, 'Mult', x, x) for x in a)))),
    'operator.itemgetter': itemgetter, 'operator.attrgetter': attrgetter,
    'operator.methodcaller': methodcaller,
    'operator.contains': lambda ip, a, b: contains(ip, a, b),
    'operator.add': lambda ip, a, b: binop(ip, 'Add', a, b),
    'operator.mul': lambda ip, a, b: binop(ip, 'Mult', a, b),
    'operator.not_': lambda ip, a: not ip.truth(a),
    'itertools.islice': islice, 'itertools.chain': chain,
    'itertools.chain.from_iterable': chain_from,
    'itertools.takewhile': takewhile, 'itertools.dropwhile': dropwhile,
    'itertools.count': lambda ip, *a: ip.fail('itertools.count'),
    'itertools.repeat': lambda ip, v, *n: ip.new(E.IterObj([It(v)] * n[0])) if n else ip.fail('repeat'),
    'itertools.filterfalse': lambda ip, f, s: ip.new(E.IterObj(None, lambda: ip.collect(
        s, lambda x: MISSING if ip.truth(x if f is None else ip.call(f, [x])) else x))),
    'heapq.nlargest': nbest(True), 'heapq.nsmallest': nbest(False),
    'heapq.heappush': heappush, 'heapq.heappop': heappop, 'heapq.heapify': heapify,
    'heapq.heapreplace': heapreplace, 'heapq.heappushpop': heappushpop,
    'bisect.bisect': bisect(True, False), 'bisect.bisect_right': bisect(True, False),
    'bisect.bisect_left': bisect(False, False), 'bisect.insort': bisect(True, True),
    'bisect.insort_right': bisect(True, True), 'bisect.insort_left': bisect(False, True),
    'functools.reduce': reduce, 'functools.partial': partial,
    'functools.wraps': lambda ip, *a, **k: E.Sym('identity'),
    'collections.defaultdict': defaultdict, 'collections.OrderedDict': bi_dict,
    'collections.Counter': counter,
    'collections.deque': lambda ip, s=(), maxlen=None: ip.new(E.ListObj(ip.collect(s), kind='deque'))
    if maxlen is None else ip.fail('deque maxlen'),
    'contextlib.suppress': lambda ip, *a: E.Sym('suppress', *a),
    'array.array': array_new,
    'sys.intern': lambda ip, s: s,
    're.compile': re_compile, 're.escape': re_escape,
    're.findall': re_fn('findall'), 're.match': re_fn('match'), 're.search': re_fn('search'),
    're.fullmatch': re_fn('fullmatch'), 're.sub': re_fn('sub'), 're.split': re_fn('split'),
    'copy.copy': copy_,
    'os.environ.get': lambda ip, k, d=None: environ(ip, k, d),
    'os.getenv': lambda ip, k, d=None: environ(ip, k, d),
    'platform.python_implementation': lambda ip: 'CPython',
    'warnings.warn': lambda ip, *a, **k: None,
    'logging.getLogger': lambda ip, *a: E.StubObj('logger', {
        n: E.NativeV(n, lambda ip, a, kw: None)
        for n in ('debug', 'info', 'warning', 'error', 'exception', 'log')}, origin='new'),
}

import pylib  # noqa: E402  (extends the tables above)
