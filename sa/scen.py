"""Scenarios: an abstract pre-state, one or more operations, obligations on the outcome.

A scenario is run for one property at a time: ``S.check(prop, ...)`` only counts for
the property under examination, so one scenario can serve several properties.
"""
import time
import traceback

import engine as E
from engine import It, MISSING
from num import Atom, Num, to_num

REG = []                # (name, props, fn, opts)


def scenario(*props, name=None, tier='quick', entry=None, **opts):
    def deco(fn):
        REG.append({'name': name or fn.__name__, 'props': props, 'fn': fn, 'tier': tier,
                    'entry': entry, 'opts': opts})
        return fn
    return deco


class Violated(Exception):
    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg, self.loc = msg, loc


class PathEnd(Exception):
    """The rest of the path is of no interest to the property under examination."""


class S:
    def __init__(self, prog, ctx, prop, tier, opts, singles=()):
        self.singles = singles
        self.prog, self.ctx, self.prop, self.tier, self.opts = prog, ctx, prop, tier, opts
        self.ip = prog.interp
        self.ip.start(ctx)
        self.obligations = 0
        self.main = opts.get('main')
        ctx.hooks['order'] = 'canonical'
        self.setup = True
        self.mark = 0
        self.fam = '64'
        if prop == 'C13':
            self.fam = ctx.pick('family', ['64', '32'], 'key family of the index')
        ctx.hooks['family'] = self.fam

    # -- decisions and facts
    def pick(self, tag, options):
        return self.ctx.pick(('S', tag), options, tag)

    def yes(self, tag):
        return self.ctx.ask(('S', tag), tag)

    def check(self, props, cond, msg, loc=None):
        if isinstance(props, str):
            props = props.split()
        if self.prop not in props:
            return
        self.obligations += 1
        if not cond:
            self.viol(msg, loc)

    def viol(self, msg, loc=None):
        if loc is None:
            evs = [e for e in self.ctx.events[self.mark:] if e.kind not in ('deactivate',)]
            loc = evs[-1].loc if evs else None
        raise Violated(msg, loc)

    # -- objects
    def family(self):
        return E.FamV(self.fam)

    def omit_family(self):
        """C13: the 32-bit family may also be the default one."""
        return self.prop == 'C13' and self.fam == '32' and \
            self.ctx.pick(('S', 'family argument'), ['given', 'omitted'], 'family') == 'omitted'

    def cls(self, dotted):
        return self.prog.cls(dotted)

    def container(self, kv, kind, items=(), label=None):
        bt = (None if kv == 'OO' else self.fam, kv, kind)
        if kind in ('Set', 'TreeSet'):
            return E.SetObj(bt, items, label=label)
        return E.MapObj(bt, items, label=label)

    def create(self, dotted, *args, **kw):
        if 'family' in kw and self.omit_family():
            self.op(self.cls(dotted), None, *args, **dict(kw, family=E.FamV('64')))
            del kw['family']
            k, v = self.op(self.cls(dotted), None, *args, **kw)
            if k == 'raise':
                self.unexpected(v, f'{dotted.split(".")[-1]} without a family', 'C13')
            return v
        if 'family' in kw and self.prop == 'C13' and self.fam == '64':
            self.op(self.cls(dotted), None, *args, **{k: v for k, v in kw.items() if k != 'family'})
        return self.do(self.cls(dotted), *args, **kw)

    def settle(self, *roots):
        """Everything reachable becomes the pre-state of the following operation."""
        self.known = {}
        for r in roots:
            for o in reach(r):
                o.origin = 'pre' if o.origin != 'load' else 'load'
                self.known[o.uid] = o
        self.mark = len(self.ctx.events)

    def op(self, obj, meth, *args, **kw):
        """Run an operation; ('ok', value) or ('raise', ExcV)."""
        try:
            f = self.ip.getattr(obj, meth) if meth else obj
            v = self.ip.call(f, list(args), kw)
            if isinstance(v, E.IterObj):
                v.force()
            return 'ok', v
        except E.RaiseEx as r:
            return 'raise', r.exc
        except (E.ReturnEx, E.BreakEx, E.ContinueEx):
            raise E.Inconclusive('control flow escaped')

    def do(self, f, *args, **kw):
        """Run something that must not raise."""
        k, v = self.op(f, None, *args, **kw)
        if k == 'raise':
            self.unexpected(v)
        return v

    def run(self, obj, meth, *args, props=None, **kw):
        k, v = self.op(obj, meth, *args, **kw)
        if k == 'raise':
            self.unexpected(v, meth, props)
        return v

    def unexpected(self, exc, what='', props=None):
        mains = (props or self.opts.get('mains') or self.opts['props'])
        if isinstance(mains, str):
            mains = mains.split()
        if self.prop in mains:
            raise Violated(f'{what or "operation"} raises {exc!r}', getattr(exc, 'loc', None))
        raise PathEnd()

    def expect_raise(self, props, obj, meth, name, *args, **kw):
        k, v = self.op(obj, meth, *args, **kw)
        if k == 'ok':
            self.check(props, False, f'{meth}{args!r} returns {v!r} instead of raising {name}')
        else:
            ok = any(self.ip.exc_match(v, c) for c in self._exc(name))
            self.check(props, ok, f'{meth}{args!r} raises {v!r} instead of {name}',
                       getattr(v, 'loc', None))
        return v

    def _exc(self, name):
        if '.' in name:
            return [self.cls(name)]
        return [E.BT(name)]

    def events(self, *kinds):
        return [e for e in self.ctx.events[self.mark:] if not kinds or e.kind in kinds]

    # -- comparing
    def num(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, Num)):
            return None
        return to_num(v)

    def same_num(self, a, b):
        a, b = self.num(a), self.num(b)
        if a is None or b is None:
            return False
        return a.same(b) or E.decided(self.ctx, a, b, '==') is True

    def occ(self, name, of=None):
        """A positive number of occurrences."""
        if ('occ', name) in self.singles:
            return Num.const(self.pick(name, [1, 2, 3] if self.ctx.wide(('occ', name)) else [1, 2]))
        return self.ctx.natom(name, 1, None, True, of)

    def keys(self, o):
        """Keys of a set-like or mapping result."""
        if isinstance(o, E.MapObj):
            return [k for k, _ in o.d.values()]
        if isinstance(o, E.SetObj):
            return list(o.d.values())
        if o is None:
            return None
        if isinstance(o, (E.ListObj, E.IterObj, tuple)):
            return [i.v for i in self.ip.iter_items(o)]
        return None

    def same_keys(self, o, want):
        ks = self.keys(o)
        if ks is None:
            return False
        return sorted(map(repr, map(E.hk, ks))) == sorted(map(repr, map(E.hk, want)))

    def dict_of(self, o):
        return {E.hk(k): v for k, v in o.d.values()}

    # -- generic rules
    def rule_pure(self, props, what, allow=()):
        """No effect on anything that existed before (C11)."""
        for e in self.events():
            if e.kind in ('badfamily', 'deactivate'):
                continue
            o = e.obj
            if o.origin == 'pre' or (o.origin == 'load' and not self._noeffect(e)):
                if (e.kind, e.key) in allow:
                    continue
                if self._noeffect(e):
                    continue
                if self._cache(e):
                    continue
                self.check(props, False, f'{what} modifies {o!r}: {e.kind} {e.key!r}', e.loc)
        self.check(props, True, what)

    def _noeffect(self, e):
        return e.kind in ('mapset', 'attr') and e.old is not MISSING and (
            e.old is e.val or self.ip.same_val(e.old, e.val))

    def _cache(self, e):
        """Attributes of its own the code keeps besides the pinned state."""
        return e.kind == 'attr' and e.obj.uid in self.known and \
            isinstance(e.key, str) and e.key not in PINNED and \
            (e.old is MISSING or e.old is None or e.key.startswith('_v_'))

    def rule_fresh(self, props, result, what, *roots):
        """The result is an object of its own (C12)."""
        keep = {}
        for r in roots:
            for o in reach(r):
                keep[o.uid] = o
        for o in reach(result):
            if isinstance(o, (E.MapObj, E.SetObj, E.ListObj)) and o.uid in keep:
                self.check(props, False, f'{what} returns {o!r}, which the index keeps')
        self.check(props, True, what)

    def rule_family(self, props='C13'):
        for e in self.events('badfamily'):
            self.check(props, False, e.val, e.loc)
        self.check(props, True, 'family')

    def rule_result_family(self, o, what, props='C13'):
        if isinstance(o, (E.SetObj, E.MapObj)):
            if o.bt is None:
                return
            self.check(props, o.bt[0] == self.fam,
                       f'{what} returns a {o.tname()} for an index of family {self.fam}')

    def rule_scores(self, props, o, what):
        """The set operations on scores take mappings of integers to floats."""
        if isinstance(o, E.MapObj) and o.bt is not None and o.bt[1] != 'IF':
            self.check(props, False, f'{what} returns a {o.tname()}, which cannot be combined '
                       f'with other results')

    def rule_persist(self, *roots, props='C14'):
        """Changes to plain objects are registered with a persistent owner."""
        if self.prop not in props.split():
            return
        evs = [e for e in self.events() if e.kind not in ('badfamily', 'deactivate', 'append_it')]
        changed = {e.obj.uid for e in evs}
        for e in evs:
            if e.obj.origin == 'load' and not self._noeffect(e):
                self.check(props, False, f'state kept in {e.obj!r}, outside the database '
                           f'({e.kind} {e.key!r})', e.loc)
            if e.kind == 'global' and not isinstance(e.val, (int, str)):
                self.check(props, False, f'state kept in a module global {e.key}', e.loc)
        first = {}
        for e in evs:
            first.setdefault(e.obj.uid, e)
        for r in roots:
            for o, owner in owners(r):
                if is_persistent(o) or o.uid not in changed or o.origin != 'pre':
                    continue
                e = first[o.uid]
                if isinstance(o, E.StubObj):
                    continue
                self.check(props, owner is not None and owner.uid in changed,
                           f'{o!r} is modified in place but its persistent owner '
                           f'{owner!r} is not told', e.loc)
        self.check(props, True, 'persistence')

    def rule_counters(self, what, props='C15', replace_ok=()):
        for e in self.events():
            if e.kind == 'lenset' and e.obj.origin == 'pre':
                self.check(props, False, f'{what} overwrites the counter {e.obj!r}', e.loc)
            if e.kind in ('attr', 'delattr') and isinstance(e.old, E.LenObj) and \
                    e.old is not e.val and e.obj.origin == 'pre':
                self.check(props, False, f'{what} replaces the counter {e.key}', e.loc)
        self.check(props, True, 'counters')


PINNED = {'_fwd_index', '_rev_index', '_num_docs', '_wordinfo', '_docweight', '_docwords',
          '_totaldoclen', 'wordCount', '_wordCount', 'documentCount', '_documentCount', '_wids',
          '_words', '_lexicon', 'lexicon', 'index', '_filters', '_ids', 'family', 'expr', 'id',
          'context', 'normalize', 'tree_threshold', '_pipeline', '_nbest', '_capacity'}


def children(o):
    if isinstance(o, (E.InstObj, E.StubObj)):
        return [v for k, v in o.attrs.items() if not k.startswith('__')]
    if isinstance(o, E.MapObj):
        return [x for kv in o.d.values() for x in kv]
    if isinstance(o, E.SetObj):
        return list(o.d.values())
    if isinstance(o, E.ListObj):
        return [i.v for i in o.items]
    if isinstance(o, tuple):
        return list(o)
    if isinstance(o, E.IterObj):
        return [i.v for i in (o._items or ())]
    if isinstance(o, E.BoundV):
        return [o.obj]
    m = getattr(o, 'm', None)
    if isinstance(m, E.Obj):
        return [m]
    return []


def reach(root):
    seen, todo, out = set(), [root], []
    while todo:
        o = todo.pop()
        if isinstance(o, (E.Obj,)):
            if o.uid in seen:
                continue
            seen.add(o.uid)
            out.append(o)
        elif not isinstance(o, (tuple, E.BoundV)):
            continue
        todo.extend(children(o))
    return out


def is_persistent(o):
    if isinstance(o, E.InstObj):
        return o.cls.persistent()
    if isinstance(o, (E.MapObj, E.SetObj)):
        return o.bt is not None
    return isinstance(o, E.LenObj)


def owners(root):
    """(object, nearest persistent owner) for everything reachable."""
    seen, todo, out = set(), [(root, None)], []
    while todo:
        o, ow = todo.pop()
        if isinstance(o, E.Obj):
            k = (o.uid, ow.uid if ow is not None else None)
            if k in seen:
                continue
            seen.add(k)
            out.append((o, ow))
            nxt = o if is_persistent(o) else ow
        elif isinstance(o, (tuple, E.BoundV)):
            nxt = ow
        else:
            continue
        todo.extend((c, nxt) for c in children(o))
    return out


# ---------------------------------------------------------------- driver

class Report:
    def __init__(self, name):
        self.name = name
        self.paths = self.decided = self.undecided = self.bounded = self.infeasible = 0
        self.obligations = 0
        self.reasons = {}
        self.violations = []
        self.splits = []
        self.wall = 0


def run_scenario(prog, sc, prop, tier, max_paths=20000, deadline=None, keep=3):
    rep = Report(sc['name'])
    t0 = time.time()
    opts = dict(sc['opts'])
    opts['props'] = sc['props']
    singles = {}                # in the order of the splits

    def one(ctx):
        s = S(prog, ctx, prop, tier, opts, singles)
        try:
            sc['fn'](s)
        except Violated as v:
            rep.obligations += s.obligations
            return 'violation', v
        except PathEnd:
            rep.obligations += s.obligations
            return 'ended', None
        except E.RaiseEx as r:
            return 'undecided', f'exception outside an operation: {r.exc!r}'
        except (E.ReturnEx, E.BreakEx, E.ContinueEx):
            return 'undecided', 'control flow escaped'
        except (E.Inconclusive, E.NeedSplit, E.PathBounded, E.Infeasible):
            raise
        except RecursionError:
            return 'undecided', 'recursion'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return 'undecided', f'analyser: {type(e).__name__}: {e} at ' \
                f'{tb.filename.split("/")[-1]}:{tb.lineno} ({prog.interp.locs()})'
        rep.obligations += s.obligations
        return 'ok', None

    for attempt in range(60):
        rep.paths = rep.decided = rep.undecided = rep.bounded = rep.infeasible = 0
        rep.obligations = 0
        rep.reasons = {}
        rep.violations = []
        try:
            for ctx, (k, v) in E.explore(one, singles, max_paths):
                rep.paths += 1
                if k in ('ok', 'ended'):
                    rep.decided += 1
                elif k == 'violation':
                    rep.decided += 1
                    rep.violations.append({
                        'scenario': sc['name'], 'message': v.msg,
                        'where': f'{v.loc[0]}:{v.loc[2]} in {v.loc[1]}'
                        if isinstance(v.loc, tuple) else v.loc,
                        'decisions': ctx.path[-40:]})
                    if len(rep.violations) >= keep:
                        break
                elif k == 'bounded':
                    rep.bounded += 1
                elif k == 'infeasible':
                    rep.infeasible += 1
                else:
                    rep.undecided += 1
                    rep.reasons[v] = rep.reasons.get(v, 0) + 1
                if deadline and time.time() > deadline:
                    rep.undecided += 1
                    rep.reasons['time limit'] = 1
                    break
            break
        except E.NeedSplit as n:
            if n.what in singles or n.what is None:
                rep.undecided += 1
                rep.reasons[f'cannot split {n.what}'] = 1
                break
            singles[n.what] = True
            rep.splits.append(str(n.what))
    else:
        rep.undecided += 1
        rep.reasons['too many splits'] = 1
    prog.interp.rollback()
    rep.wall = time.time() - t0
    return rep
