"""The evaluator: statements, expressions and the primitive heap effects."""
import ast
import builtins as _pyb
from fractions import Fraction

import engine as E
from num import Atom, Num, to_num

T_EXC = {n: getattr(_pyb, n) for n in dir(_pyb)
         if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException)}
MAX_UNDECIDED_ITER = 4
MAX_ITER = 6000
MAX_DEPTH = 60


def native(v):
    return v is None or isinstance(v, (bool, int, str, bytes))


def deep_native(v):
    return native(v) or (isinstance(v, tuple) and all(deep_native(x) for x in v))


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.ctx = E.Ctx()
        self.stack = []
        self.frames = []
        self.multi = []
        self.loadmode = True
        self.undo = []
        self.local_names = {}
        self.carried = {}
        self.depth = 0
        self.used_lines = set()
        import lib
        self.lib = lib

    # ------------------------------------------------------------ plumbing
    def start(self, ctx):
        self.ctx = ctx
        self.stack, self.frames, self.multi = [], [], []
        self.loadmode = False
        self.depth = 0
        self.rollback()

    def rollback(self):
        for fn in reversed(self.undo):
            fn()
        self.undo = []

    def push(self, f, name):
        self.stack.append([f, name, 0])

    def loc(self):
        if not self.stack:
            return ('?', '?', 0)
        f, name, line = self.stack[-1]
        return (self.prog.rel(f), name, line)

    def locs(self):
        f, n, line = self.loc()
        return f'{f}:{line} in {n}'

    def fail(self, why):
        raise E.Inconclusive(f'{why} ({self.locs()})')

    def exc(self, name, *args):
        e = E.ExcV(E.BT(name), args)
        e.loc = self.locs()
        return E.RaiseEx(e)

    # ------------------------------------------------------------ effects
    def _cap(self, kind, obj, key, old):
        ck = (kind, id(obj) if isinstance(obj, E.Env) else obj.uid,
              E.hk(key) if kind in 'ms' else key)
        for fr in self.frames:
            if ck not in fr.cells:
                fr.cells[ck] = (kind, obj, key, old)

    def event(self, kind, obj, key=None, val=None, old=None):
        if self.loadmode:
            obj.born_load = True
            return
        self.ctx.events.append(E.Event(kind, obj, key, val, self.loc(), old))

    def _save(self, obj, *attrs):
        if not self.loadmode and getattr(obj, 'born_load', False):
            vals = [(a, (lambda x: x.copy() if hasattr(x, 'copy') else x)(getattr(obj, a)))
                    for a in attrs]

            def restore():
                for a, v in vals:
                    setattr(obj, a, v)
            self.undo.append(restore)

    def new(self, o):
        o.per = o.per | frozenset(self.multi)
        if self.loadmode:
            o.born_load = True
            o.origin = 'load'
        self.ctx_check_alloc(o)
        return o

    def ctx_check_alloc(self, o):
        pass

    def set_attr(self, o, name, v):
        if isinstance(o, E.ClassV):
            old = o.ns.vars.get(name, E.MISSING)
            ns = o.ns
            if not self.loadmode:
                self.undo.append(lambda: ns.vars.__setitem__(name, old) if old is not E.MISSING
                                 else ns.vars.pop(name, None))
                if not hasattr(o, 'uid'):
                    o.uid = E.next_uid()
                self.ctx.events.append(E.Event('attr', _clsobj(o), name, v, self.loc(), old))
            ns.vars[name] = v
            return
        if isinstance(o, E.FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, E.ExcV):
            if name == 'args':
                o.args = tuple(self.single_items(v))
            else:
                o.attrs[name] = v
            return
        if isinstance(o, E.InstObj):
            d = o.cls.lookup(name)
            if d and isinstance(d[0], E.PropV):
                if d[0].fset is None:
                    raise self.exc('AttributeError', f"can't set {name}")
                return self.call(d[0].fset, [o, v])
            s = o.cls.lookup('__setattr__')
            if s and name not in ():
                return self.call(s[0], [o, name, v])
        if isinstance(o, E.LenObj) and name == 'value':
            return self.len_set(o, v)
        if not isinstance(o, (E.InstObj, E.StubObj)):
            if isinstance(o, E.ExcV):
                return
            self.fail(f'attribute assignment on {o!r}')
        self.raw_set_attr(o, name, v)

    def raw_set_attr(self, o, name, v):
        old = o.attrs.get(name, E.MISSING)
        self._save(o, 'attrs')
        self._cap('a', o, name, old)
        o.attrs[name] = v
        self.event('attr', o, name, v, old)

    def del_attr(self, o, name):
        if not isinstance(o, (E.InstObj, E.StubObj)):
            self.fail('del attribute')
        if name not in o.attrs:
            raise self.exc('AttributeError', name)
        old = o.attrs[name]
        self._save(o, 'attrs')
        self._cap('a', o, name, old)
        del o.attrs[name]
        self.event('delattr', o, name, None, old)

    def map_find(self, m, k):
        h = E.hk(k)
        if h in m.d:
            return h
        for h2, (k2, _) in list(m.d.items()):
            if self.maybe(k, k2) is not False and self.eq(k, k2):
                return h2
        return None

    def check_key(self, o, k):
        """Key type check of BTrees containers."""
        if o.bt is None:
            if isinstance(k, (E.ListObj, E.MapObj)) or (isinstance(k, E.SetObj) and not k.frozen):
                raise self.exc('TypeError', 'unhashable type')
            return True
        kt = o.bt[1][0]
        if kt == 'O' and o.d:
            k2 = next(iter(o.d.values()))
            if not self.ordered(k, k2[0] if isinstance(o, E.MapObj) else k2):
                raise self.exc('TypeError', "'<' not supported between the keys")
        if kt in 'IL':
            if type(k) is int and not -1 << 31 <= k < 1 << 31 and \
                    (kt == 'I' and o.bt[0] != '64' or not -1 << 63 <= k < 1 << 63):
                return False
            if k is None or isinstance(k, (str, bytes, tuple)) or \
                    (isinstance(k, E.Elem) and k.kind == 'str') or \
                    (isinstance(k, (E.Obj, E.ClassV, E.FuncV)) and not isinstance(k, E.IterObj)):
                return False
        return True

    def ordered(self, a, b):
        """May keys a and b stand in one tree?"""
        if isinstance(a, E.Elem) and isinstance(b, E.Elem) and \
                getattr(a, 'odd', False) != getattr(b, 'odd', False):
            return False

        def kind(x):
            if isinstance(x, E.Elem):
                return x.kind if x.kind in ('int', 'str') else None
            if isinstance(x, (bool, int, float, Num)):
                return 'int'
            return type(x).__name__ if isinstance(x, (str, bytes)) else None
        a, b = kind(a), kind(b)
        return a is None or b is None or a == b

    def map_get(self, m, k):
        """Value or MISSING."""
        if not self.check_key(m, k):
            return E.MISSING
        h = self.map_find(m, k)
        if h is None:
            t = getattr(m, 'templates', None)
            if t:
                return self.lib.template_get(self, m, k)
            return E.MISSING
        return m.d[h][1]

    def map_set(self, m, k, v):
        if not self.check_key(m, k):
            raise self.exc('TypeError', 'expected integer key')
        if m.bt is not None:
            self.family_key(m, k)
            if m.bt[1][1] == 'F' and not self.is_numeric(v):
                if v is None or isinstance(v, (str, bytes, tuple, E.Obj)):
                    raise self.exc('TypeError', 'expected float or int value')
        if self.lib.is_template(self, k):
            self._save(m, 'templates') if hasattr(m, 'templates') else None
            m.templates = [(k, v)] + list(getattr(m, 'templates', []))
            return
        h = self.map_find(m, k)
        self._save(m, 'd')
        if h is None:
            old = E.MISSING
            self._cap('m', m, k, old)
            m.d[E.hk(k)] = (k, v)
        else:
            k0, old = m.d[h]
            self._cap('m', m, k0, old)
            m.d[h] = (k0, v)
        self.event('mapset', m, k, v, old)

    def map_del(self, m, k):
        h = self.map_find(m, k) if self.check_key(m, k) else None
        if h is None:
            raise self.exc('KeyError', k)
        k0, old = m.d[h]
        self._save(m, 'd')
        self._cap('m', m, k0, old)
        del m.d[h]
        self.event('mapdel', m, k0, None, old)
        return old

    def map_clear(self, m):
        for k, v in list(m.d.values()):
            self.map_del(m, k)
        self.event('clear', m)

    def set_find(self, s, k):
        if not self.check_key(s, k):
            return None
        h = E.hk(k)
        if h in s.d:
            return h
        for h2, k2 in list(s.d.items()):
            if self.maybe(k, k2) is not False and self.eq(k, k2):
                return h2
        return None

    def set_add(self, s, k):
        if not self.check_key(s, k):
            raise self.exc('TypeError', 'expected integer key')
        if s.bt is not None:
            self.family_key(s, k)
        if self.set_find(s, k) is not None:
            return False
        self._save(s, 'd')
        self._cap('s', s, k, False)
        s.d[E.hk(k)] = k
        self.event('setadd', s, k)
        return True

    def set_remove(self, s, k):
        h = self.set_find(s, k)
        if h is None:
            return False
        self._save(s, 'd')
        self._cap('s', s, k, True)
        k0 = s.d.pop(h)
        self.event('setdel', s, k0)
        return True

    def list_set(self, l, items, what='listset'):
        self._save(l, 'items')
        self._cap('l', l, None, l.items)
        l.items = [i if isinstance(i, E.It) else E.It(i) for i in items]
        self.event(what, l)

    def list_append(self, l, it):
        self._save(l, 'items')
        self._cap('l', l, None, l.items)
        l.items = l.items + [it if isinstance(it, E.It) else E.It(it)]
        self.event('append', l, None, it)

    def len_set(self, o, v, kind='lenset'):
        old = o.value
        self._save(o, 'value')
        self._cap('n', o, None, old)
        o.value = v
        self.event(kind, o, None, v, old)

    def var_set(self, env, name, v):
        self._cap('v', env, name, env.vars.get(name, E.MISSING))
        env.vars[name] = v

    def family_key(self, o, k):
        """Rule material: docids only in containers of the scenario's family."""
        fam = self.ctx.hooks.get('family')
        if fam and isinstance(k, E.Elem) and k.sort == 'docid' and o.bt[0] is not None \
                and o.bt[1][0] in 'IL' and o.bt[0] != fam:
            self.event('badfamily', o, k, f'docid stored in a {o.tname()} container of an '
                       f'index of family {fam}')

    # ------------------------------------------------- summary classes, repeats
    def run_item(self, it, body, carried=None):
        """Evaluate body(value) for one item of a sequence."""
        over = [c for c in it.over if c.multi]
        occ = it.occ
        if isinstance(it.v, E.Elem) and it.v.root().multi and not over:
            over = [it.v.root()]
        if not over and occ is None:
            return body(it.v)
        if isinstance(occ, Num) and occ.is_const() and not over and occ.cval() <= 8:
            for _ in range(int(occ.cval())):
                body(it.v)
            return
        if len(over) > 1:
            raise E.NeedSplit(over[0].splitname)
        if over and over[0] in self.multi:
            raise E.NeedSplit(over[0].splitname)
        name = over[0].splitname if over else ('occ', str(occ))
        fr = E.Frame()
        self.frames.append(fr)
        self.multi.extend(over)
        try:
            try:
                body(it.v)
                if occ is not None:
                    fr2 = E.Frame()
                    self.frames.append(fr2)
                    try:
                        body(it.v)
                    finally:
                        self.frames.remove(fr2)
                    self.accelerate(fr2, None, occ - Num.const(2), name, carried)
            except (E.BreakEx, E.ReturnEx, E.RaiseEx) as e:
                if isinstance(e, E.RaiseEx) and self.ctx.hooks.get('raise_final'):
                    raise
                raise E.NeedSplit(name)
        finally:
            self.frames.remove(fr)
            for c in over:
                self.multi.remove(c)
        if over:
            self.accelerate(fr, over[0], None, name, carried)

    def accelerate(self, fr, c, times, splitname, carried):
        for kind, obj, key, old in list(fr.cells.values()):
            if obj.uid > fr.uid0:
                continue            # created inside the pass
            if kind == 'v':
                new = obj.vars.get(key, E.MISSING)
                if carried is not None and obj.uid == carried['env'] and \
                        key not in carried['names']:
                    continue
                if self.same_val(old, new):
                    continue
                if old is E.MISSING:
                    continue
                if self.is_num(old) and self.is_num(new):
                    self.var_set(obj, key, self._acc(old, new, c, times))
                    continue
                if c is not None and not E.mentions(new, c) and deep_native(new) and \
                        self.ctx.facts.get(('idem', splitname)):
                    continue
                raise E.NeedSplit(splitname)
            elif kind == 'a':
                new = obj.attrs.get(key, E.MISSING)
            elif kind == 'm':
                h = E.hk(key)
                new = obj.d[h][1] if h in obj.d else E.MISSING
            elif kind == 'n':
                new = obj.value
            elif kind == 'l':
                if c is not None and c in obj.per:
                    continue
                n = len(old)
                if len(obj.items) < n or any(a is not b for a, b in zip(old, obj.items)):
                    raise E.NeedSplit(splitname)
                tail = []
                for it in obj.items[n:]:
                    if c is not None:
                        if E.mentions(it.v, c) or (it.occ is not None and E.mentions(it.occ, c)):
                            tail.append(E.It(it.v, it.occ, it.over + ((c,) if c not in it.over else ())))
                        else:
                            o = it.occ if it.occ is not None else Num.const(1)
                            tail.append(E.It(it.v, o * c.card, it.over))
                    else:
                        o = it.occ if it.occ is not None else Num.const(1)
                        tail.append(E.It(it.v, o * (times + Num.const(1)), it.over))
                obj.items = old + tail
                continue
            else:
                continue
            if c is not None and (c in obj.per or (kind == 'm' and E.mentions(key, c))):
                continue
            if self.same_val(old, new):
                continue
            if old is not E.MISSING and new is not E.MISSING and self.is_num(old) and self.is_num(new):
                v = self._acc(old, new, c, times)
                if kind == 'a':
                    obj.attrs[key] = v
                elif kind == 'm':
                    k0, _ = obj.d[E.hk(key)]
                    obj.d[E.hk(key)] = (k0, v)
                else:
                    obj.value = v
                continue
            if new is not E.MISSING and c is not None and E.mentions(new, c):
                raise E.NeedSplit(splitname)
            if old is E.MISSING or new is E.MISSING:
                continue
            if c is None and not self.same_val(old, new) and not isinstance(new, E.Obj):
                raise E.NeedSplit(splitname)

    def _acc(self, old, new, c, times):
        delta = to_num(new) - to_num(old)
        if c is not None:
            return self.simp(to_num(old) + E.sumover(self.ctx, c, delta))
        return self.simp(to_num(new) + delta * times)

    def simp(self, n):
        if isinstance(n, Num) and n.is_const() and not n.fl and n.cval().denominator == 1:
            return int(n.cval())
        return n

    def is_num(self, v):
        return isinstance(v, Num) or (isinstance(v, int) and not isinstance(v, bool))

    def is_numeric(self, v):
        return isinstance(v, (Num, int)) or (isinstance(v, E.Elem) and v.kind in ('int', 'any'))

    def same_val(self, a, b):
        if a is b:
            return True
        if a is E.MISSING or b is E.MISSING:
            return False
        if self.is_num(a) and self.is_num(b):
            return to_num(a).same(to_num(b))
        return E.hk(a) == E.hk(b) if not isinstance(a, (E.Obj,)) and not isinstance(b, E.Obj) else False

    # ------------------------------------------------------------ queries
    def bt_lt(self, a, b):
        return self.lib.bt_lt(self, a, b)

    def maybe(self, a, b):
        """True / False / None (undecided) equality of scalar-ish values."""
        if a is b:
            return True
        if type(a) is E.InstObj and a.cls.lookup('__eq__') or \
                type(b) is E.InstObj and b.cls.lookup('__eq__'):
            return None
        if native(a) and native(b):
            return a == b
        ea, eb = isinstance(a, E.Elem), isinstance(b, E.Elem)
        if ea and eb:
            if 'part' in a.info or 'part' in b.info:
                return self.lib.part_eq(self, a, b)
            al = self.ctx.hooks.get('alias')
            if al:
                r = al(a, b)
                if r is not None:
                    return {True: True, False: False, 'maybe': None}[r]
            return False
        if ea or eb:
            e, o = (a, b) if ea else (b, a)
            if o is None:
                return None if e.nullable else False
            if native(o) or isinstance(o, Num):
                h = self.ctx.hooks.get('const_eq')
                if h:
                    r = h(e, o)
                    if r is not None:
                        return r
                if 'part' in e.info:
                    self.fail('part of a word compared')
                if isinstance(o, (str, bytes)):
                    if e.kind in ('int', 'obj'):
                        return False
                    if o in e.info.get('not', ()) or (o == '' and not e.falsy):
                        return False
                    return None
                if e.kind in ('str', 'obj'):
                    return False
                if not isinstance(o, Num) and not o and not e.falsy:
                    return False
                return None
            if isinstance(o, E.Sym):
                return None
            return False
        if isinstance(a, (Num, int)) and isinstance(b, (Num, int)):
            d = to_num(a) - to_num(b)
            if d.is_const():
                return not d.cval()
            return None
        if isinstance(a, E.Sym) and isinstance(b, E.Sym):
            if a.op == b.op and len(a.args) == len(b.args):
                rs = [self.maybe(x, y) for x, y in zip(a.args, b.args)]
                if all(r is True for r in rs):
                    return True
                if a.op in E_INJ and any(r is False for r in rs):
                    return False
            return None
        if isinstance(a, E.Sym) or isinstance(b, E.Sym):
            s, o = (a, b) if isinstance(a, E.Sym) else (b, a)
            if o is None or isinstance(o, (E.Obj, tuple)):
                return False
            if s.op in ('str', 'chr', 'fmt', 'esc') and not isinstance(o, (str, E.Elem)):
                return False
            if s.op in ('str', 'chr') and isinstance(o, str):
                return self.lib.str_maybe_eq(self, s, o)
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.maybe(x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if isinstance(a, E.ExcV) or isinstance(b, E.ExcV):
            return False
        if isinstance(a, E.BT) and isinstance(b, E.BT):
            return a.name == b.name
        if isinstance(a, E.Ext) and isinstance(b, E.Ext):
            return a.path == b.path
        if isinstance(a, E.FamCls) and isinstance(b, E.FamCls):
            return a.key() == b.key()
        if isinstance(a, E.FamV) and isinstance(b, E.FamV):
            return a.name == b.name
        if isinstance(a, E.Obj) and isinstance(b, E.Obj):
            return None
        return False

    def eq(self, a, b):
        r = self.maybe(a, b)
        if r is not None:
            return r
        if isinstance(a, E.InstObj) or isinstance(b, E.InstObj):
            for x, y in ((a, b), (b, a)):
                f = x.cls.lookup('__eq__') if isinstance(x, E.InstObj) else None
                if f:
                    r = self.call(f[0], [x, y])
                    if not (isinstance(r, E.Sym) and r.op == 'NotImplemented'):
                        return self.truth(r)
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (Num, int)) and isinstance(b, (Num, int)):
            return self.ctx.cmp(to_num(a), to_num(b), '==')
        if isinstance(a, E.Obj) and isinstance(b, E.Obj):
            return self.lib.obj_eq(self, a, b)
        if isinstance(a, E.Sym) and isinstance(b, (str, E.Sym)) or isinstance(a, str):
            ca, cb = self.lib.chars(a), self.lib.chars(b)
            if ca is not None and cb is not None and len(ca) == len(cb) and \
                    all(isinstance(c, (str, E.Sym)) for c in ca + cb):
                return all(self.ctx.cmp(self.lib.char_num(self, x), self.lib.char_num(self, y),
                                        '==') for x, y in zip(ca, cb))
        ka, kb = E.hk(a), E.hk(b)
        key = ('eq',) + tuple(sorted([ka, kb], key=repr))
        if key not in self.ctx.facts:
            # one element equals at most one constant
            for e, o in ((ka, kb), (kb, ka)):
                if e[0] == 'e' and ('eqc', e) in self.ctx.facts and o[0] == 'c':
                    self.ctx.facts[key] = self.ctx.facts[('eqc', e)] == o
            for e, o in ((a, b), (b, a)):
                if isinstance(e, E.Elem) and self.is_num(o) and ('eqn', E.hk(e)) in self.ctx.facts:
                    d = E.decided(self.ctx, to_num(o), self.ctx.facts['eqn', E.hk(e)], '==')
                    if d is not None:
                        self.ctx.facts[key] = d
        r = self.ctx.ask(key, f'{a!r} == {b!r}')
        if r:
            for e, o in ((a, b), (b, a)):
                if isinstance(e, E.Elem) and self.is_num(o):
                    self.ctx.facts['eqn', E.hk(e)] = to_num(o)
            for e, o in ((ka, kb), (kb, ka)):
                if e[0] == 'e' and o[0] == 'c':
                    self.ctx.facts[('eqc', e)] = o
                    ov = o[1]
                    self.ctx.facts[('truth', e)] = bool(ov)
        return r

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Num):
            return not self.ctx.cmp(v, Num.const(0), '==')
        if isinstance(v, E.Elem):
            if v.kind == 'obj' or not v.falsy:
                if not v.nullable:
                    return True
            h = self.ctx.hooks.get('truth')
            if h:
                r = h(v)
                if r is not None:
                    return r
            k = ('truth', E.hk(v))
            if k not in self.ctx.facts:
                if v.falsy:
                    r = self.ctx.ask(k, f'bool({v!r})')
                else:
                    r = not self.is_none(v)
                    self.ctx.facts[k] = r
            return self.ctx.facts[k]
        if isinstance(v, E.ListObj):
            return bool(v.items)
        if isinstance(v, (E.MapObj, E.SetObj)):
            return bool(v.d)
        if isinstance(v, E.Sym):
            if v.op == 'str' and any(isinstance(a, str) and a for a in v.args):
                return True
            if v.op in ('chr', 'match'):
                return True
            if v.op == 'str':
                ch = self.lib.chars(v)
                if ch is not None:
                    return bool(ch)
            if v.op == 'bool':
                return self.ctx.ask(('sym', E.hk(v)), f'{v!r}')
            return self.ctx.ask(('truth', E.hk(v)), f'bool({v!r})')
        if isinstance(v, self.lib.ViewObj):
            return bool(v.m.d)
        if isinstance(v, E.InstObj):
            f = v.cls.lookup('__bool__')
            if f:
                return self.truth(self.call(f[0], [v]))
            f = v.cls.lookup('__len__')
            if f:
                return self.truth(self.call(f[0], [v]))
            return True
        if isinstance(v, E.Unknown):
            self.fail(v.why)
        if isinstance(v, E.StubObj) and 'truth' in v.attrs.get('__model__', ()):
            return v.attrs['__model__']['truth'](self)
        return True

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, E.Elem) and v.nullable:
            k = ('eq',) + tuple(sorted([E.hk(v), E.hk(None)], key=repr))
            if ('eqc', E.hk(v)) in self.ctx.facts:
                return self.ctx.facts[('eqc', E.hk(v))] == E.hk(None)
            if self.ctx.facts.get(('truth', E.hk(v))) is True:
                return False
            r = self.ctx.ask(k, f'{v!r} is None')
            if r:
                self.ctx.facts[('eqc', E.hk(v))] = E.hk(None)
                self.ctx.facts[('truth', E.hk(v))] = False
            return r
        return False

    def lt(self, a, b, op='<'):
        """a < b or a <= b."""
        h = self.ctx.hooks.get('lt')
        if h:
            r = h(self, a, b, op)
            if r is not None:
                return r
        if isinstance(a, (int, Num)) and isinstance(b, (int, Num)):
            return self.ctx.cmp(to_num(a), to_num(b), op)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, E.Sym) and x.op == 'inf':
                if isinstance(y, E.Sym) and y.op == 'inf':
                    return a.args[0] < b.args[0] if op == '<' else a.args[0] <= b.args[0]
                if isinstance(y, (int, Num)) or isinstance(y, E.Elem) and y.kind == 'int':
                    return (x.args[0] < 0) == (x is a)
                self.fail('comparison with infinity')
            if isinstance(x, E.InstObj):
                n = ('__lt__' if op == '<' else '__le__') if x is a else \
                    ('__gt__' if op == '<' else '__ge__')
                f = x.cls.lookup(n)
                if f:
                    return self.truth(self.call(f[0], [x, y]))
                if getattr(x.cls, 'total', False) and x is a and x.cls.lookup('__lt__'):
                    return self.truth(self.call(x.cls.lookup('__lt__')[0], [x, y])) or \
                        self.eq(x, y)
                if any(x.cls.lookup(m) for m in ('__lt__', '__le__', '__gt__', '__ge__')) and \
                        (x is b or not isinstance(y, E.InstObj)):
                    self.fail('ordering of objects')
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b if op == '<' else a <= b
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
            return a < b if op == '<' else a <= b
        if a is None or b is None or self.is_none(a) or self.is_none(b):
            raise self.exc('TypeError', "'<' not supported with None")
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.lt(x, y, '<')
            return len(a) < len(b) if op == '<' else len(a) <= len(b)
        if isinstance(a, E.Elem) and isinstance(b, E.Elem):
            if a is b:
                return op == '<='
            if not self.ordered(a, b):
                raise self.exc('TypeError', "'<' not supported")
            if a.rank is not None and b.rank is not None and a.sort == b.sort:
                return a.rank < b.rank if op == '<' else a.rank <= b.rank
            if a.sort == b.sort:
                r = self.order(a, b)
                return r
            if a.kind != b.kind and 'any' not in (a.kind, b.kind):
                raise self.exc('TypeError', "'<' not supported")
            if a.kind == 'obj' or b.kind == 'obj':
                raise self.exc('TypeError', "'<' not supported")
            return self.ctx.ask(('lt', E.hk(a), E.hk(b)), f'{a!r} < {b!r}')
        if isinstance(a, self.lib.ViewObj) and a.m.bt is None and a.what != 'values':
            a = self.lib.as_set(self, a)
        if isinstance(b, self.lib.ViewObj) and b.m.bt is None and b.what != 'values':
            b = self.lib.as_set(self, b)
        if isinstance(a, E.SetObj) and isinstance(b, E.SetObj):
            sub = all(self.set_find(b, k) is not None for k in a.d.values())
            return sub if op == '<=' else sub and len(a.d) < len(b.d)
        if isinstance(a, E.Obj) or isinstance(b, E.Obj):
            if isinstance(a, E.ListObj) and isinstance(b, E.ListObj) and a.kind == b.kind:
                return self.lt(tuple(self.single_items(a)), tuple(self.single_items(b)), op)
            raise self.exc('TypeError', "'<' not supported")
        if isinstance(a, E.Sym) or isinstance(b, E.Sym):
            r = self.lib.sym_lt(self, a, b, op)
            if r is not None:
                return r
            return self.ctx.ask(('lt' + op, E.hk(a), E.hk(b)), f'{a!r} {op} {b!r}')
        # an element against a constant
        e, o = (a, b) if isinstance(a, E.Elem) else (b, a)
        if isinstance(e, E.Elem) and native(o):
            h = self.ctx.hooks.get('const_lt')
            if h:
                r = h(a, b, op)
                if r is not None:
                    return r
            if isinstance(o, (int, bool)) and e.kind == 'str' or \
                    isinstance(o, str) and e.kind == 'int' or e.kind == 'obj':
                raise self.exc('TypeError', "'<' not supported")
            k = ('ordc', E.hk(e), E.hk(o))
            opts = ['<', '>'] + (['incomparable'] if e.kind == 'any' else [])
            if self.maybe(e, o) is None:
                if self.eq(e, o):
                    return op == '<='
            r = self.ctx.pick(k, opts, f'{e!r} ? {o!r}')
            if r == 'incomparable':
                raise self.exc('TypeError', f"'<' not supported between {a!r} and {b!r}")
            return (r == '<') == (e is a)
        if isinstance(e, E.Elem) and isinstance(o, Num) and e.kind in ('int', 'any'):
            return self.ctx.ask(('lt', E.hk(a), E.hk(b)), f'{a!r} < {b!r}')
        raise self.exc('TypeError', "'<' not supported")

    def order(self, a, b):
        """a < b for distinct elements of one totally ordered sort."""
        od = self.ctx.order
        ka, kb = a.uid, b.uid

        def reach(x, y):
            seen, todo = {x}, [x]
            while todo:
                n = todo.pop()
                for m in od.get(n, ()):
                    if m == y:
                        return True
                    if m not in seen:
                        seen.add(m)
                        todo.append(m)
            return False
        if reach(ka, kb):
            return True
        if reach(kb, ka):
            return False
        if self.ctx.hooks.get('order') == 'canonical':
            r = ka < kb
        else:
            r = self.ctx.choose(2, f'{a!r} < {b!r}', ['no', 'yes']) == 1
        x, y = (ka, kb) if r else (kb, ka)
        od.setdefault(x, set()).add(y)
        return r

    def length(self, v):
        if isinstance(v, (str, bytes, tuple)):
            return len(v)
        if isinstance(v, E.ListObj):
            return self.seq_len(v.items)
        if isinstance(v, (E.MapObj, E.SetObj)):
            ks = [k for k, _ in v.d.values()] if isinstance(v, E.MapObj) else v.d.values()
            n = Num.const(0)
            for k in ks:
                n = n + self.key_card(k)
            return self.simp(n)
        if isinstance(v, self.lib.ViewObj):
            return self.length(v.m)
        if isinstance(v, self.lib.RangeV):
            return len(v.items(self))
        if isinstance(v, E.InstObj):
            f = v.cls.lookup('__len__')
            if f:
                return self.call(f[0], [v])
            raise self.exc('TypeError', 'object has no len()')
        if isinstance(v, E.Sym):
            return self.lib.sym_len(self, v)
        if isinstance(v, E.Elem):
            if 'len' in v.info:
                return v.info['len']
            if 'char' in v.info:
                return 1
            if v.kind == 'str' or v.info.get('sized'):
                k = ('len', v.uid)
                if k not in self.ctx.derived:
                    self.ctx.derived[k] = self.ctx.natom(f'len({v.name})', 0, None, True)
                return self.ctx.derived[k]
        if isinstance(v, E.StubObj) and '__len__' in v.attrs:
            return self.call(v.attrs['__len__'], [])
        if v is None or isinstance(v, (int, Num, E.IterObj, E.LenObj)) or \
                isinstance(v, E.Elem) and v.kind in ('int', 'obj'):
            raise self.exc('TypeError', 'object has no len()')
        self.fail(f'len({v!r})')

    def key_card(self, k):
        if isinstance(k, E.Elem):
            r = k.root()
            return r.card if r.multi else Num.const(1)
        if isinstance(k, tuple):
            cs = {x.root() for x in k if isinstance(x, E.Elem) and x.root().multi}
            if len(cs) > 1:
                raise E.NeedSplit(next(iter(cs)).splitname)
            if cs:
                return cs.pop().card
        if isinstance(k, Num):
            cs = {c for a in k.atoms() for c in a.members}
            if cs:
                raise E.NeedSplit(next(iter(cs)).splitname)
        return Num.const(1)

    def seq_len(self, items):
        n = Num.const(0)
        for it in items:
            o = it.occ if it.occ is not None else Num.const(1)
            over = set(it.over)
            if isinstance(it.v, E.Elem) and it.v.root().multi:
                over.add(it.v.root())
            for c in over:
                if c.multi and c not in self.multi:
                    o = E.sumover(self.ctx, c, o)
            n = n + o
        return self.simp(n)

    # ------------------------------------------------------------ iteration
    def iter_items(self, v):
        """List of It of an iterable (does not consume iterators)."""
        if isinstance(v, tuple):
            return [E.It(x) for x in v]
        if isinstance(v, str):
            return [E.It(x) for x in v]
        if isinstance(v, bytes):
            return [E.It(x) for x in v]
        if isinstance(v, E.ListObj):
            return list(v.items)
        if isinstance(v, E.SetObj):
            return [E.It(k) for k in self.sorted_keys(v.d.values(), v.bt)]
        if isinstance(v, E.MapObj):
            return [E.It(k) for k in self.sorted_keys([k for k, _ in v.d.values()], v.bt)]
        if isinstance(v, self.lib.ViewObj):
            return v.items(self)
        if isinstance(v, E.IterObj):
            return v.force()
        if isinstance(v, self.lib.RangeV):
            return v.items(self)
        if isinstance(v, E.InstObj):
            f = v.cls.lookup('__iter__')
            if f:
                it = self.call(f[0], [v])
                if isinstance(it, E.InstObj):
                    return self.lib.pylib.stepped(self, it)
                return self.iter_items(it)
            if v.cls.lookup('__getitem__'):
                return self.lib.pylib.indexed(self, v)
            raise self.exc('TypeError', 'object is not iterable')
        if isinstance(v, E.StubObj) and '__iter__' in v.attrs:
            return self.iter_items(self.call(v.attrs['__iter__'], []))
        if isinstance(v, E.Sym):
            return self.lib.sym_iter(self, v)
        if isinstance(v, E.Elem) and 'items' in v.info:
            return [E.It(x) for x in v.info['items']]
        if v is None or isinstance(v, (int, Num, E.LenObj)) or \
                (isinstance(v, E.Elem) and v.kind in ('int', 'obj')):
            raise self.exc('TypeError', 'object is not iterable')
        self.fail(f'iteration over {v!r}')

    def sorted_keys(self, keys, bt):
        keys = list(keys)
        if bt is None or len(keys) < 2:
            return keys
        if all(k is None or isinstance(k, E.Elem) and k.rank is not None for k in keys):
            return sorted(keys, key=lambda k: float('-inf') if k is None else k.rank)
        if all(isinstance(k, str) for k in keys) or all(isinstance(k, int) for k in keys):
            return sorted(keys)
        def key(k):
            if isinstance(k, E.Elem) and k.rank is not None:
                return (0, k.rank, 0)
            return (1, 0, k.uid if isinstance(k, E.Elem) else 0)
        keys = sorted(keys, key=key)
        known = self.ctx.order
        if any(isinstance(k, E.Elem) and k.uid in known for k in keys):
            # an order that was chosen before
            out = []
            while keys:
                k = next((k for k in keys if not any(
                    x is not k and self.known_lt(x, k) for x in keys)), keys[0])
                keys.remove(k)
                out.append(k)
            keys = out
        for a, b in zip(keys, keys[1:]):
            # seen in this order from now on
            if isinstance(a, E.Elem) and isinstance(b, E.Elem) and a.rank is None and \
                    not a.multi and not b.multi:
                known.setdefault(a.uid, set()).add(b.uid)
        return keys

    def known_lt(self, a, b):
        if not (isinstance(a, E.Elem) and isinstance(b, E.Elem)):
            return False
        seen, todo = {a.uid}, [a.uid]
        while todo:
            for m in self.ctx.order.get(todo.pop(), ()):
                if m == b.uid:
                    return True
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        return False

    def free(self, fn, *a):
        """A comparison in every order there is, not just the one of creation."""
        h = self.ctx.hooks.pop('order', None)
        try:
            return fn(*a)
        finally:
            if h is not None:
                self.ctx.hooks['order'] = h

    def free_lt(self, a, b):
        return self.free(self.bt_lt, a, b)

    def position(self, keys, i):
        """The key at index i of a sorted container, in every order there is."""
        keys = list(keys)
        for k in keys:
            self.need_single(E.It(k))
        if i < 0:
            i += len(keys)
        if not 0 <= i < len(keys):
            raise self.exc('IndexError', 'out of range')
        last = i > len(keys) // 2
        for n in range(len(keys) - i if last else i + 1):
            best = keys[0]
            for k in keys[1:]:
                if self.free_lt(best, k) if last else self.free_lt(k, best):
                    best = k
            keys = [k for k in keys if k is not best]
        return best

    def single_items(self, v):
        """Items as plain values; refuses summaries."""
        return [it.v for it in self.singles(self.iter_items(v))]

    def take_items(self, v):
        """single_items of something that is used up if it is an iterator."""
        if isinstance(v, E.IterObj):
            return [it.v for it in self.singles(self.collect(v))]
        return self.single_items(v)

    def singles(self, items):
        """The items one by one; refuses summaries."""
        out = []
        for it in items:
            n = it.occ
            if isinstance(n, Num) and n.is_const() and n.cval() != 1 and n.cval() <= 16:
                it = E.It(it.v, None, it.over)
                self.need_single(it)
                out += [E.It(it.v) for _ in range(int(n.cval()))]
            else:
                self.need_single(it)
                out.append(it)
        return out

    def need_single(self, it):
        v = it.v
        if it.occ is not None and \
                not (isinstance(it.occ, Num) and it.occ.is_const() and it.occ.cval() == 1):
            raise E.NeedSplit(('occ', str(it.occ)))
        for c in it.over:
            if c.multi and c not in self.multi:
                raise E.NeedSplit(c.splitname)
        if isinstance(v, E.Elem) and v.root().multi and v.root() not in self.multi:
            raise E.NeedSplit(v.root().splitname)
        if isinstance(v, tuple):
            for x in v:
                if isinstance(x, E.Elem) and x.root().multi and x.root() not in self.multi:
                    raise E.NeedSplit(x.root().splitname)

    def snapshot_size(self, v):
        if isinstance(v, self.lib.ViewObj):
            v = v.m
        if isinstance(v, (E.MapObj, E.SetObj)):
            return v, tuple(v.d)
        return None, None

    def foreach(self, v, body, carried=None):
        """Run body for the items of v; iterators are consumed as they go."""
        if isinstance(v, E.InfIter):
            for n in range(self.ctx.hooks.get('loop_max', MAX_ITER)):
                self.run_item(E.It(v.take()), body, carried)
            raise E.PathBounded('loop over an infinite iterator')
        if isinstance(v, E.IterObj):
            n = 0
            while v.pull():
                it = v.take_it()
                self.run_item(it, body, carried)
                n += 1
                if n > self.ctx.hooks.get('loop_max', MAX_ITER):
                    self.fail('iteration bound')
            return
        src, before = self.snapshot_size(v)
        items = self.iter_items(v)
        if len(items) > self.ctx.hooks.get('loop_max', MAX_ITER):
            self.fail('iteration bound')
        if isinstance(v, E.ListObj):
            i = 0
            while i < len(v.items):
                it = v.items[i]
                self.run_item(it, body, carried)
                i += 1
                if i > self.ctx.hooks.get('loop_max', MAX_ITER):
                    self.fail('iteration bound')
            return
        for n, it in enumerate(items):
            self.run_item(it, body, carried)
            if src is not None and tuple(src.d) != before and \
                    (n + 1 < len(items) or self._several(it)) and set(src.d) != set(before):
                raise self.exc('RuntimeError', 'container changed size during iteration')

    def _several(self, it):
        return isinstance(it.v, E.Elem) and it.v.root().multi

    def collect(self, v, fn=None):
        """List of It of v with fn applied (fn(value) -> value or MISSING to drop)."""
        out = E.ListObj()
        self.new(out)

        def body(x):
            r = fn(x) if fn else x
            if r is not E.MISSING:
                self.list_append(out, r)
        if fn is None:
            if isinstance(v, E.IterObj):
                items = list(v.force())
                v.set([])
            else:
                items = list(self.iter_items(v))
            return items
        self.foreach(v, body)
        return out.items

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, node=None):
        kw = kw or {}
        if isinstance(f, E.BoundV):
            return self.call(f.func, [f.obj] + list(args), kw, node)
        if isinstance(f, E.NativeV):
            return f.fn(self, list(args), kw)
        if isinstance(f, E.FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, E.ClassV):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, E.BT):
            return self.lib.call_builtin(self, f.name, list(args), kw)
        if isinstance(f, E.FamCls):
            return self.lib.new_container(self, f, list(args), kw)
        if isinstance(f, E.Ext):
            return self.lib.call_ext(self, f.path, list(args), kw)
        if isinstance(f, E.LenObj):
            if args or kw:
                raise self.exc('TypeError', 'Length takes no arguments')
            return f.value
        if isinstance(f, E.InstObj):
            m = f.cls.lookup('__call__')
            if m:
                return self.call(m[0], [f] + list(args), kw)
            raise self.exc('TypeError', f'{f!r} object is not callable')
        if isinstance(f, E.StubObj) and '__call__' in f.attrs:
            return self.call(f.attrs['__call__'], args, kw)
        if isinstance(f, E.StaticV):
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, (int, str, Num, tuple, E.ListObj, E.MapObj, E.SetObj)):
            raise self.exc('TypeError', f'{f!r} object is not callable')
        if isinstance(f, E.Unknown):
            self.fail(f.why)
        self.fail(f'call of {f!r}')

    def call_func(self, f, args, kw):
        a = f.node.args
        env = E.Env(f.env, f.mod.env)
        env.fn = f
        env.cls = f.cls
        env.on_yield, self.on_yield = getattr(self, 'on_yield', None), None
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if not a.vararg:
                raise self.exc('TypeError', f'{f.name}() takes {len(names)} positional arguments')
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        only = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in only and a.kwarg:
                extra[k] = v
                continue
            if k in vals or k in only or (k not in names and k not in kwonly and not a.kwarg):
                raise self.exc('TypeError', f'{f.name}() got an unexpected argument {k}')
            if k in names or k in kwonly:
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            vals[a.kwarg.arg] = self.new(E.MapObj(None, extra.items()))
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            vals.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            vals.setdefault(n, d)
        for n in names + kwonly:
            if n not in vals:
                raise self.exc('TypeError', f"{f.name}() missing argument '{n}'")
        env.vars.update(vals)
        st = self.ctx.hooks.get('summaries')
        if st and f.name in st:
            r = st[f.name](self, f, vals)
            if r is not E.MISSING:
                return r
        if f.isgen and not env.on_yield:
            it = self.new(E.IterObj())
            it.thunk = lambda: self.run_gen(f, env, it)
            return it
        return self.run_body(f, env)

    def run_body(self, f, env):
        self.depth += 1
        if self.depth > self.ctx.hooks.get('max_depth', MAX_DEPTH):
            self.depth = 0
            raise E.PathBounded('call depth')
        self.push(f.mod.path, f.qual if hasattr(f, 'qual') else f.name)
        self.prog.funcs_seen.add((self.prog.rel(f.mod.path), self.stack[-1][1]))
        try:
            if isinstance(f.node, ast.Lambda):
                self.stack[-1][2] = f.node.lineno
                return self.ev(f.node.body, env, f.mod)
            try:
                self.block(f.node.body, env, f.mod)
            except E.ReturnEx as r:
                return r.v
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def run_gen(self, f, env, it):
        env.yields = self.new(E.ListObj())
        it.result = self.run_body(f, env)
        return env.yields.items

    def instantiate(self, c, args, kw):
        if c.lookup('__new__'):
            self.fail(f'{c.name}.__new__')
        exts = [b for b in c.ext_bases()]
        if any(isinstance(b, E.BT) and b.name in T_EXC for b in exts):
            e = E.ExcV(c, args)
            e.loc = self.locs()
            init = c.lookup('__init__')
            if init:
                self.call(init[0], [e] + args, kw)
            elif kw:
                raise self.exc('TypeError', f'{c.name}() takes no keyword arguments')
            return e
        if hasattr(c, 'members'):
            for m in c.members.values():
                if len(args) == 1 and self.eq(m.attrs['value'], args[0]):
                    return m
            raise self.exc('ValueError', f'not a valid {c.name}')
        for b in exts:
            if isinstance(b, E.BT) and b.name == 'object':
                continue
            if isinstance(b, E.Ext) and (b.path in E.PERSISTENT or b.path in self.lib.PLAIN_BASES):
                continue
            self.fail(f'instance of {c.name} with base {b!r}')
        o = self.new(E.InstObj(c))
        init = c.lookup('__init__')
        if init:
            self.call(init[0], [o] + args, kw)
        elif args or kw:
            raise self.exc('TypeError', f'{c.name}() takes no arguments')
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        v = self.lib.get_attr(self, o, name)
        if v is E.MISSING:
            raise self.exc('AttributeError', f'{o!r} has no attribute {name}')
        return v

    # ------------------------------------------------------------ statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        if self.stack:
            self.stack[-1][2] = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.fail(f'statement {type(s).__name__}')
        return m(s, env, mod)

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Break(self, s, env, mod):
        raise E.BreakEx()

    def s_Continue(self, s, env, mod):
        raise E.ContinueEx()

    def s_Return(self, s, env, mod):
        raise E.ReturnEx(self.ev(s.value, env, mod) if s.value else None)

    def s_Global(self, s, env, mod):
        env.globals.update(s.names)

    def s_Nonlocal(self, s, env, mod):
        env.nonlocals.update(s.names)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            if s.msg is not None:
                raise self.exc('AssertionError', self.ev(s.msg, env, mod))
            raise self.exc('AssertionError')

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, env)
            self.store(t.id, self.augop(s.op, cur, self.ev(s.value, env, mod)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            a = self.mangle(t.attr, env)
            cur = self.getattr(o, a)
            self.set_attr(o, a, self.augop(s.op, cur, self.ev(s.value, env, mod)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.ev(t.slice, env, mod)
            cur = self.lib.getitem(self, o, k)
            self.lib.setitem(self, o, k, self.augop(s.op, cur, self.ev(s.value, env, mod)))
        else:
            self.fail('augmented assignment')

    def augop(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, E.InstObj):
            f = a.cls.lookup({'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__',
                              'BitOr': '__ior__', 'BitAnd': '__iand__', 'Div': '__itruediv__',
                              'BitXor': '__ixor__', 'Mod': '__imod__'}.get(n, '__i__'))
            if f:
                return self.call(f[0], [a, b])
        if isinstance(a, E.ListObj) and n == 'Mult' and a.kind != 'tuple':
            self.list_set(a, self.binop(op, a, b).items)
            return a
        if isinstance(a, E.MapObj) and n == 'BitOr' and a.bt is None and a.kind != 'Counter':
            self.lib.map_update(self, a, b)
            return a
        if isinstance(a, E.ListObj) and n == 'Add' and a.kind != 'tuple':
            items = self.collect(b)
            for it in items:
                self.list_append(a, it)
            return a
        if isinstance(a, E.SetObj) and n in ('BitOr', 'BitAnd', 'Sub'):
            self.lib.set_inplace(self, a, b, n)
            return a
        return self.binop(op, a, b)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            self.delete(t, env, mod)

    def delete(self, t, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.globals:
                env = env.glob
            if t.id not in env.vars:
                raise self.exc('NameError', t.id)
            self._cap('v', env, t.id, env.vars[t.id])
            del env.vars[t.id]
        elif isinstance(t, ast.Attribute):
            self.del_attr(self.ev(t.value, env, mod), self.mangle(t.attr, env))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.lib.delitem(self, o, self.ev(t.slice, env, mod))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, env, mod)
        else:
            self.fail('del')

    def s_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.block(s.body, env, mod)
        else:
            self.block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        undecided = n = 0
        while True:
            before = len(self.ctx.taken)
            self.stack[-1][2] = s.lineno
            if not self.truth(self.ev(s.test, env, mod)):
                self.block(s.orelse, env, mod)
                return
            try:
                self.block(s.body, env, mod)
            except E.BreakEx:
                return
            except E.ContinueEx:
                pass
            n += 1
            if len(self.ctx.taken) > before:
                undecided += 1
            if undecided > self.ctx.hooks.get('while_bound', MAX_UNDECIDED_ITER) or \
                    n > self.ctx.hooks.get('loop_max', MAX_ITER):
                if self.loadmode:
                    self.fail('loop bound')
                raise E.PathBounded('loop at ' + self.locs())

    def carried_vars(self, s, env):
        """Variables of the loop body that may be read before they are written."""
        key = id(s)
        if key not in self.carried:
            self.carried[key] = read_first(s.body, s.target)
        return {'env': env.uid, 'names': self.carried[key]}

    def s_For(self, s, env, mod):
        it = self.ev(s.iter, env, mod)
        carried = self.carried_vars(s, env)

        def body(v):
            self.assign(s.target, v, env, mod)
            try:
                self.block(s.body, env, mod)
            except E.ContinueEx:
                pass
        old = getattr(self, 'fills', False)
        self.fills = self.loadmode and self.fills_table(s, env, mod)
        try:
            self.foreach(it, body, carried)
        except E.BreakEx:
            return
        finally:
            self.fills = old
        self.block(s.orelse, env, mod)

    def fills_table(self, s, env, mod):
        """Does the loop assign to elements of a list of many equal items?"""
        for t in ast.walk(s):
            if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store) and \
                    isinstance(t.value, ast.Name):
                try:
                    v = self.ev(t.value, env, mod)
                except E.RaiseEx:
                    continue
                if isinstance(v, E.ListObj) and any(i.occ is not None for i in v.items):
                    return True
        return False

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if not cur:
                raise self.exc('RuntimeError', 'No active exception to reraise')
            raise E.RaiseEx(cur[-1])
        v = self.ev(s.exc, env, mod)
        if s.cause is not None:
            self.ev(s.cause, env, mod)
        if isinstance(v, (E.ClassV, E.BT, E.Ext)):
            v = self.call(v, []) if not isinstance(v, E.Ext) else E.ExcV(v)
        if isinstance(v, E.Sym):
            self.fail('raise of unknown')
        if not isinstance(v, E.ExcV):
            raise self.exc('TypeError', 'exceptions must derive from BaseException')
        v.loc = self.locs()
        raise E.RaiseEx(v)

    def exc_match(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        if isinstance(cls, E.BT):
            want = T_EXC.get(cls.name)
            if want is None:
                raise self.exc('TypeError', 'catching non-exception')
            c = exc.cls
            if isinstance(c, E.BT):
                return issubclass(T_EXC[c.name], want)
            if isinstance(c, E.ClassV):
                return any(isinstance(b, E.BT) and issubclass(T_EXC.get(b.name, object), want)
                           for b in c.mro if isinstance(b, E.BT) and b.name in T_EXC)
            if want in (BaseException, Exception):
                return True
            self.fail(f'does {exc!r} match {cls!r}')
        if isinstance(cls, E.ClassV):
            return isinstance(exc.cls, E.ClassV) and cls in exc.cls.mro
        if isinstance(cls, E.Ext):
            return isinstance(exc.cls, E.Ext) and exc.cls.path == cls.path
        self.fail('except clause')

    def s_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except E.RaiseEx as r:
                depth = None
                for h in s.handlers:
                    if h.type is None or self.exc_match(r.exc, self.ev(h.type, env, mod)):
                        depth = h
                        break
                if depth is None:
                    raise
                h = depth
                if not hasattr(self, 'handling'):
                    self.handling = []
                self.handling.append(r.exc)
                try:
                    if h.name:
                        self.var_set(env, h.name, r.exc)
                    self.block(h.body, env, mod)
                finally:
                    self.handling.pop()
            else:
                self.block(s.orelse, env, mod)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env, mod)

    def s_With(self, s, env, mod):
        def go(items):
            if not items:
                self.block(s.body, env, mod)
                return
            cm = self.ev(items[0].context_expr, env, mod)
            if isinstance(cm, E.Sym) and cm.op == 'suppress':
                try:
                    go(items[1:])
                except E.RaiseEx as r:
                    if not self.exc_match(r.exc, tuple(cm.args)):
                        raise
                return
            if isinstance(cm, E.InstObj) and cm.cls.lookup('__enter__') and cm.cls.lookup('__exit__'):
                v = self.call(cm.cls.lookup('__enter__')[0], [cm])
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, v, env, mod)
                try:
                    go(items[1:])
                except E.RaiseEx as r:
                    if not self.truth(self.call(cm.cls.lookup('__exit__')[0],
                                                [cm, r.exc.cls, r.exc, None])):
                        raise
                except (E.ReturnEx, E.BreakEx, E.ContinueEx):
                    self.call(cm.cls.lookup('__exit__')[0], [cm, None, None, None])
                    raise
                else:
                    self.call(cm.cls.lookup('__exit__')[0], [cm, None, None, None])
                return
            if isinstance(cm, self.lib.pylib.NullCtx):
                if items[0].optional_vars is not None:
                    self.assign(items[0].optional_vars, cm.v, env, mod)
                go(items[1:])
                return
            if isinstance(cm, self.lib.pylib.CtxGen):
                self.with_generator(cm, items[0].optional_vars, lambda: go(items[1:]), env, mod)
                return
            self.fail('with statement')
        go(list(s.items))

    def with_generator(self, cm, target, body, env, mod):
        """The generator runs; the body of the with statement runs at its yield."""
        left = []
        here = self.stack[-1] if self.stack else None

        def at(v):
            if left:
                raise self.exc('RuntimeError', "generator didn't stop")
            left.append(None)
            if here:
                self.stack.append(list(here))
            try:
                if target is not None:
                    self.assign(target, v, env, mod)
                body()
            except (E.ReturnEx, E.BreakEx, E.ContinueEx) as e:
                left[0] = e
            finally:
                if here:
                    self.stack.pop()
            return None
        self.on_yield = at
        self.call_func(cm.f, list(cm.call_args), dict(cm.kw))
        if not left:
            raise self.exc('RuntimeError', "generator didn't yield")
        if left[0] is not None:
            raise left[0]

    def s_Match(self, s, env, mod):
        v = self.ev(s.subject, env, mod)
        for c in s.cases:
            binds = {}
            if self.matches(c.pattern, v, binds, env, mod):
                for n, x in binds.items():
                    self.store(n, x, env)
                if c.guard is None or self.truth(self.ev(c.guard, env, mod)):
                    self.block(c.body, env, mod)
                    return

    def matches(self, p, v, binds, env, mod):
        if isinstance(p, ast.MatchValue):
            return self.eq_full(v, self.ev(p.value, env, mod))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, binds, env, mod):
                return False
            if p.name is not None:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, binds, env, mod) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (str, bytes, E.MapObj, E.SetObj, int, Num)) or v is None or \
                    isinstance(v, E.Elem) and v.kind in ('str', 'int'):
                return False
            if not isinstance(v, (tuple, E.ListObj)):
                self.fail('match against a sequence')
            xs = list(v) if isinstance(v, tuple) else self.single_items(v)
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if not star:
                return len(xs) == n and all(
                    self.matches(q, x, binds, env, mod) for q, x in zip(p.patterns, xs))
            i = star[0]
            if len(xs) < n - 1:
                return False
            k = n - i - 1
            if not all(self.matches(q, x, binds, env, mod)
                       for q, x in zip(p.patterns[:i], xs)) or \
                    not all(self.matches(q, x, binds, env, mod)
                            for q, x in zip(p.patterns[i + 1:], xs[len(xs) - k:])):
                return False
            if p.patterns[i].name:
                binds[p.patterns[i].name] = self.new(E.ListObj(xs[i:len(xs) - k]))
            return True
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, E.Elem) and v.kind not in ('str', 'int') or isinstance(v, E.Sym) or \
                    getattr(v, 'bt', None):
                self.fail('match against a mapping')
            if not isinstance(v, E.MapObj):
                return False
            keys = [self.ev(k, env, mod) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                h = self.map_find(v, k)
                if h is None or not self.matches(q, v.d[h][1], binds, env, mod):
                    return False
            if p.rest:
                binds[p.rest] = self.new(E.MapObj(None, [
                    (a, b) for a, b in v.d.values() if not any(self.eq(a, k) for k in keys)]))
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env, mod)
            if not self.lib.isinst(self, v, c):
                return False
            names = []
            if p.patterns:
                if isinstance(c, E.BT) and len(p.patterns) == 1:
                    if not self.matches(p.patterns[0], v, binds, env, mod):
                        return False
                elif isinstance(c, self.lib.pylib.NTClass):
                    names = list(zip(c.fields, p.patterns))
                elif hasattr(c, 'dcfields'):
                    names = list(zip(c.dcfields, p.patterns))
                else:
                    self.fail('match against a class')
            for a, q in names + list(zip(p.kwd_attrs, p.kwd_patterns)):
                x = self.lib.get_attr(self, v, a)
                if x is E.MISSING or not self.matches(q, x, binds, env, mod):
                    return False
            return True
        self.fail('match pattern')

    def s_Import(self, s, env, mod):
        for a in s.names:
            if a.name.split('.')[0] == 'zope' and self.prog.find(a.name) and \
                    a.name.startswith('zope.index'):
                m = self.prog.load(a.name)
                if a.asname:
                    self.store(a.asname, m, env)
                else:
                    self.store('zope', E.Ext('zope'), env)
                continue
            if a.asname:
                self.store(a.asname, E.Ext(a.name), env)
            else:
                self.store(a.name.split('.')[0], E.Ext(a.name.split('.')[0]), env)

    def s_ImportFrom(self, s, env, mod):
        base = s.module or ''
        if s.level:
            parts = mod.name.split('.')
            if not mod.path.endswith('__init__.py'):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([base] if base else []))
        for a in s.names:
            self.store(a.asname or a.name, self.lib.import_from(self, base, a.name), env)

    def s_FunctionDef(self, s, env, mod):
        f = self.make_func(s, env, mod)
        v = f
        for d in reversed(s.decorator_list):
            v = self.lib.decorate(self, self.ev(d, env, mod), v)
        self.store(s.name, v, env)

    def make_func(self, node, env, mod):
        a = node.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {x.arg: self.ev(d, env, mod) for x, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None}
        fenv = env
        while fenv is not None and fenv.isclass:
            fenv = fenv.parent
        f = E.FuncV(node, fenv, mod, getattr(node, 'name', '<lambda>'), defaults, kwd)
        f.clsenv = env if env.isclass else None
        q = getattr(env, 'qual', '')
        f.qual = (q + '.' if q else '') + f.name
        self.prog.nfuncs += 1
        return f

    def s_ClassDef(self, s, env, mod):
        bases = [self.ev(b, env, mod) for b in s.bases]
        for b in bases:
            if isinstance(b, E.Unknown):
                self.fail(b.why)
        if not bases:
            bases = [E.BT('object')]
        ns = E.Env(env, env.glob)
        ns.isclass = True
        ns.qual = s.name
        self.block(s.body, ns, mod)
        lead = bases[0]
        if isinstance(lead, self.lib.pylib.NTClass) or \
                isinstance(lead, E.Ext) and lead.path == 'typing.NamedTuple':
            names = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)] \
                if isinstance(lead, E.Ext) else lead.fields
            c = self.lib.pylib.NTClass(
                s.name, names, lead.defaults if not isinstance(lead, E.Ext) else
                [ns.vars[n] for n in names if n in ns.vars],
                {**(lead.ns if not isinstance(lead, E.Ext) else {}), **{
                    n: v for n, v in ns.vars.items() if n not in names}})
            if len(bases) > 1 or '__new__' in ns.vars:
                self.fail('bases of a named tuple')
            self.store(s.name, c, env)
            return
        c = E.ClassV(s.name, bases, ns, mod)
        c.annotated = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and
                       isinstance(x.target, ast.Name) and 'ClassVar' not in ast.dump(x.annotation)]
        if any(isinstance(b, E.Ext) and b.path == 'enum.Enum' for b in bases):
            self.lib.pylib.make_enum(self, c, list(ns.vars))
        for v in ns.vars.values():
            for f in (v, getattr(v, 'f', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                if isinstance(f, E.FuncV) and f.cls is None and f.clsenv is ns:
                    f.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.lib.decorate(self, self.ev(d, env, mod), v)
        self.store(s.name, v, env)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, env, mod), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.lib.setitem(self, o, self.ev(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc('ValueError', 'not enough values to unpack')
                mid = self.new(E.ListObj(vals[i:len(vals) - k]))
                vals = vals[:i] + [mid] + vals[len(vals) - k:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
            if len(vals) != len(elts):
                raise self.exc('ValueError', 'wrong number of values to unpack')
            for x, y in zip(elts, vals):
                self.assign(x, y, env, mod)
        else:
            self.fail('assignment target')

    def unpack(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, E.Sym) and v.op == 'pair':
            return list(v.args)
        return self.take_items(v)

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            e = env
            while e is not None:
                c = getattr(e, 'cls', None)
                if c is not None:
                    return '_' + c.name.lstrip('_') + name
                if e.isclass:
                    return '_' + e.qual.lstrip('_') + name
                e = e.parent
        return name

    def store(self, name, v, env):
        if name in env.globals:
            if not self.loadmode:
                g = env.glob
                old = g.vars.get(name, E.MISSING)
                self.undo.append(lambda: g.vars.__setitem__(name, old))
                self.ctx.events.append(E.Event('global', _modobj(g), name, v, self.loc(), old))
            env.glob.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            self.var_set(e or env, name, v)
            return
        self.var_set(env, name, v)

    def name(self, id_, env):
        e = env
        if id_ in env.globals:
            e = env.glob
        first = True
        while e is not None:
            if id_ in e.vars:
                v = e.vars[id_]
                if isinstance(v, E.Unknown):
                    self.fail(f'{id_}: {v.why}')
                return v
            fn = getattr(e, 'fn', None)
            if first and fn is not None and id_ in self.locals_of(fn.node) and \
                    id_ not in e.nonlocals:
                raise self.exc('UnboundLocalError', id_)
            first = False
            e = e.parent
        e = env.glob
        if id_ in e.vars:
            v = e.vars[id_]
            if isinstance(v, E.Unknown):
                self.fail(f'{id_}: {v.why}')
            return v
        v = self.lib.builtin(self, id_)
        if v is E.MISSING:
            raise self.exc('NameError', id_)
        return v

    def locals_of(self, node):
        k = id(node)
        if k not in self.local_names:
            names = set()
            if not isinstance(node, ast.Lambda):
                todo = list(node.body)
                glob = set()
                while todo:
                    n = todo.pop()
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        names.add(n.name)
                        continue
                    if isinstance(n, ast.Lambda):
                        continue
                    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        glob.update(n.names)
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        names.add(n.id)
                    if isinstance(n, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and n.name:
                        names.add(n.name)
                    if isinstance(n, ast.MatchMapping) and n.rest:
                        names.add(n.rest)
                    todo.extend(ast.iter_child_nodes(n))
                names -= glob
            self.local_names[k] = names
        return self.local_names[k]

    # ------------------------------------------------------------ expressions
    def ev(self, x, env, mod):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None:
            self.fail(f'expression {type(x).__name__}')
        return m(x, env, mod)

    def e_Constant(self, x, env, mod):
        v = x.value
        if isinstance(v, float):
            return to_num(v)
        if v is Ellipsis:
            return E.Sym('Ellipsis')
        return v

    def e_Name(self, x, env, mod):
        return self.name(x.id, env)

    def e_Tuple(self, x, env, mod):
        return tuple(self.elts(x.elts, env, mod))

    def e_List(self, x, env, mod):
        return self.new(E.ListObj(self.elts(x.elts, env, mod, True)))

    def e_Set(self, x, env, mod):
        s = self.new(E.SetObj())
        for v in self.elts(x.elts, env, mod):
            self.set_add(s, v)
        return s

    def e_Dict(self, x, env, mod):
        m = self.new(E.MapObj())
        for k, v in zip(x.keys, x.values):
            if k is None:
                o = self.ev(v, env, mod)
                self.lib.map_update(self, m, o)
            else:
                kk = self.ev(k, env, mod)
                self.map_set(m, kk, self.ev(v, env, mod))
        return m

    def elts(self, elts, env, mod, keep=False):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, mod)
                if keep:
                    out.extend(self.collect(v))
                else:
                    out.extend(self.take_items(v))
            else:
                out.append(self.ev(e, env, mod))
        return out

    def e_Starred(self, x, env, mod):
        self.fail('starred expression')

    def e_NamedExpr(self, x, env, mod):
        v = self.ev(x.value, env, mod)
        e = env
        while getattr(e, 'iscomp', False):
            e = e.parent
        self.store(x.target.id, v, e)
        return v

    def e_BoolOp(self, x, env, mod):
        isand = isinstance(x.op, ast.And)
        for v in x.values[:-1]:
            r = self.ev(v, env, mod)
            if self.truth(r) != isand:
                return r
        return self.ev(x.values[-1], env, mod)

    def e_UnaryOp(self, x, env, mod):
        v = self.ev(x.operand, env, mod)
        if isinstance(x.op, ast.Not):
            return not self.truth(v)
        if isinstance(x.op, ast.USub):
            if isinstance(v, (int, bool)):
                return -v
            if isinstance(v, Num):
                return self.simp(-v)
        if isinstance(x.op, ast.UAdd) and isinstance(v, (int, Num)):
            return v
        if isinstance(x.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            if isinstance(v, Num):
                return self.simp(-v - Num.const(1))
        if isinstance(v, E.Sym) and v.op == 'inf' and isinstance(x.op, (ast.USub, ast.UAdd)):
            return E.Sym('inf', -v.args[0]) if isinstance(x.op, ast.USub) else v
        if isinstance(v, (E.Elem, E.Sym)):
            return E.Sym(type(x.op).__name__, v)
        if isinstance(v, E.InstObj):
            f = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__',
                              'Invert': '__invert__'}[type(x.op).__name__])
            if f:
                return self.call(f[0], [v])
        raise self.exc('TypeError', 'bad operand type for unary operator')

    def e_BinOp(self, x, env, mod):
        a = self.ev(x.left, env, mod)
        return self.binop(x.op, a, self.ev(x.right, env, mod))

    def binop(self, op, a, b):
        return self.lib.binop(self, type(op).__name__, a, b)

    def e_Compare(self, x, env, mod):
        left = self.ev(x.left, env, mod)
        for op, r in zip(x.ops, x.comparators):
            right = self.ev(r, env, mod)
            if not self.compare(type(op).__name__, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op == 'Eq':
            return self.eq_full(a, b)
        if op == 'NotEq':
            return not self.eq_full(a, b)
        if op in ('Lt', 'Gt', 'LtE', 'GtE'):
            if op[0] == 'G':
                a, b = b, a
            return self.free(self.lt, a, b, '<=' if op[2:] else '<')
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return not self.is_(a, b)
        if op == 'In':
            return self.lib.contains(self, b, a)
        if op == 'NotIn':
            return not self.lib.contains(self, b, a)
        self.fail(op)

    def eq_full(self, a, b):
        if a is b and isinstance(a, E.InstObj):
            f = a.cls.lookup('__eq__')
            if f:
                r = self.call(f[0], [a, b])
                return isinstance(r, E.Sym) and r.op == 'NotImplemented' or self.truth(r)
        return self.eq(a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            o = b if a is None else a
            return self.is_none(o)
        if isinstance(a, (bool, E.BT, E.Ext, E.FamV, E.FamCls, str, int)) or \
                isinstance(b, (bool, E.BT, E.Ext, E.FamV, E.FamCls)):
            if isinstance(a, bool) != isinstance(b, bool):
                if isinstance(a, (E.Elem, E.Sym)) or isinstance(b, (E.Elem, E.Sym)):
                    return self.eq(a, b)
                return False
            if isinstance(a, E.Obj) or isinstance(b, E.Obj):
                return False
            return self.eq(a, b)
        if isinstance(a, E.Elem) and isinstance(b, E.Elem):
            return self.eq(a, b)
        if isinstance(a, E.BoundV) or isinstance(b, E.BoundV):
            return False
        if isinstance(a, (Num, E.Sym)) and isinstance(b, (Num, E.Sym, E.Elem)):
            return self.eq(a, b)
        return False

    def e_IfExp(self, x, env, mod):
        if self.truth(self.ev(x.test, env, mod)):
            return self.ev(x.body, env, mod)
        return self.ev(x.orelse, env, mod)

    def e_Lambda(self, x, env, mod):
        return self.make_func(x, env, mod)

    def e_Attribute(self, x, env, mod):
        o = self.ev(x.value, env, mod)
        return self.getattr(o, self.mangle(x.attr, env))

    def e_Subscript(self, x, env, mod):
        o = self.ev(x.value, env, mod)
        return self.lib.getitem(self, o, self.ev(x.slice, env, mod))

    def e_Slice(self, x, env, mod):
        g = lambda n: None if n is None else self.ev(n, env, mod)  # noqa: E731
        return slice(g(x.lower), g(x.upper), g(x.step))

    def e_Call(self, x, env, mod):
        if isinstance(x.func, ast.Name) and x.func.id == 'super' and \
                self.name('super', env) is self.lib.SUPER:
            return self.make_super(x, env, mod)
        f = self.ev(x.func, env, mod)
        args = self.elts(x.args, env, mod)
        kw = {}
        for k in x.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, E.MapObj):
                    self.fail('** argument')
                for kk, vv in v.d.values():
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        if isinstance(f, E.BT) and f.name in ('locals', 'globals', 'vars', 'eval'):
            self.cur_env = env
        r = self.call(f, args, kw, x)
        if self.stack:
            self.stack[-1][2] = x.lineno
        return r

    def make_super(self, x, env, mod):
        if x.args:
            a = [self.ev(y, env, mod) for y in x.args]
            return E.SuperV(a[0], a[1])
        e = env
        while e is not None and getattr(e, 'cls', None) is None:
            e = e.parent
        if e is None:
            self.fail('super()')
        first = e.fn.node.args.posonlyargs + e.fn.node.args.args
        return E.SuperV(e.cls, e.vars[first[0].arg])

    def comp(self, gens, env, mod, emit):
        body = self.comp_body(gens, env, mod, emit)
        self.foreach(self.ev(gens[0].iter, env, mod), body, {'env': -1, 'names': set()})

    def comp_body(self, gens, env, mod, emit):
        """What is done for an item of the outermost iterable."""
        e2 = E.Env(env, env.glob)
        e2.iscomp = True

        def body(i):
            def run(v):
                self.assign(gens[i].target, v, e2, mod)
                for c in gens[i].ifs:
                    if not self.truth(self.ev(c, e2, mod)):
                        return
                if i + 1 == len(gens):
                    emit(e2)
                else:
                    self.foreach(self.ev(gens[i + 1].iter, e2, mod), body(i + 1),
                                 {'env': -1, 'names': set()})
            return run
        return body(0)

    def e_ListComp(self, x, env, mod):
        out = self.new(E.ListObj())
        self.comp(x.generators, env, mod,
                  lambda e: self.list_append(out, self.ev(x.elt, e, mod)))
        return out

    def e_GeneratorExp(self, x, env, mod):
        out = [None]
        body = self.comp_body(x.generators, env, mod,
                              lambda e: self.list_append(out[0], self.ev(x.elt, e, mod)))
        return self.lib.pylib.each(self, self.ev(x.generators[0].iter, env, mod), body, out)

    def e_SetComp(self, x, env, mod):
        out = self.new(E.SetObj())
        self.comp(x.generators, env, mod, lambda e: self.set_add(out, self.ev(x.elt, e, mod)))
        return out

    def e_DictComp(self, x, env, mod):
        out = self.new(E.MapObj())

        def emit(e):
            k = self.ev(x.key, e, mod)
            self.map_set(out, k, self.ev(x.value, e, mod))
        self.comp(x.generators, env, mod, emit)
        return out

    def yields_env(self, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            self.fail('yield')
        return e

    def e_Yield(self, x, env, mod):
        v = self.ev(x.value, env, mod) if x.value else None
        e = env
        while e is not None and getattr(e, 'fn', None) is None:
            e = e.parent
        if e is not None and getattr(e, 'on_yield', None):
            return e.on_yield(v)
        self.list_append(self.yields_env(env).yields, v)
        return None

    def e_YieldFrom(self, x, env, mod):
        src = self.ev(x.value, env, mod)
        for it in self.collect(src):
            self.list_append(self.yields_env(env).yields, it)
        return getattr(src, 'result', None)

    def e_JoinedStr(self, x, env, mod):
        parts = []
        for v in x.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                val = self.ev(v.value, env, mod)
                spec = '' if v.format_spec is None else self.ev(v.format_spec, env, mod)
                parts.append(self.lib.pylib.fmt(self, val, v.conversion, spec))
        return self.lib.concat(parts)

    def e_FormattedValue(self, x, env, mod):
        return E.Sym('fmt', self.ev(x.value, env, mod))


E_INJ = {'chr', 'pair', 'code'}


class _Holder(E.Obj):
    pass


def _modobj(g):
    o = getattr(g, 'modobj', None)
    if o is None:
        o = g.modobj = _Holder('pre', 'module globals')
    return o


def _clsobj(c):
    o = getattr(c, 'clsobj', None)
    if o is None:
        o = c.clsobj = _Holder('pre', f'class {c.name}')
    return o


def read_first(body, target=None):
    """Names possibly read before being written in straight body order."""
    carried, written = set(), set()

    def expr(n, w):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                if x.id not in w:
                    carried.add(x.id)

    def tgt(t, w):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Store):
                    pass
                elif x.id not in w:
                    carried.add(x.id)
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                w.add(x.id)

    def stmts(body, w):
        for s in body:
            if isinstance(s, ast.Assign):
                expr(s.value, w)
                for t in s.targets:
                    tgt(t, w)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    expr(s.value, w)
                    tgt(s.target, w)
            elif isinstance(s, ast.AugAssign):
                expr(s.value, w)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in w:
                        carried.add(s.target.id)
                else:
                    expr(s.target, w)
            elif isinstance(s, ast.If):
                expr(s.test, w)
                w1, w2 = set(w), set(w)
                stmts(s.body, w1)
                stmts(s.orelse, w2)
                t1 = _leaves(s.body)
                t2 = _leaves(s.orelse)
                w |= (w2 if t1 else w1 if t2 else (w1 & w2))
            elif isinstance(s, (ast.For, ast.While)):
                if isinstance(s, ast.For):
                    expr(s.iter, w)
                    w1 = set(w)
                    tgt(s.target, w1)
                else:
                    expr(s.test, w)
                    w1 = set(w)
                stmts(s.body, w1)
                stmts(s.orelse, set(w))
            elif isinstance(s, ast.Try):
                w1 = set(w)
                stmts(s.body, w1)
                for h in s.handlers:
                    if h.type is not None:
                        expr(h.type, w)
                    w2 = set(w)
                    if h.name:
                        w2.add(h.name)
                    stmts(h.body, w2)
                    if not _leaves(h.body):
                        w1 &= w2
                stmts(s.orelse, w1)
                stmts(s.finalbody, set(w))
                w |= w1
            elif isinstance(s, ast.With):
                for i in s.items:
                    expr(i.context_expr, w)
                    if i.optional_vars is not None:
                        tgt(i.optional_vars, w)
                stmts(s.body, w)
            else:
                expr(s, w)
    if target is not None:
        tgt(target, written)
    stmts(body, written)
    return carried


def _leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
