"""Weighted set operations (C22) and NBest (C23)."""
import engine as E
from num import Num, to_num
from props_field import docid, some
from props_keyword import classes
from scen import scenario

SO = 'zope.index.text.setops.'
NB = 'zope.index.nbest.NBest'


@scenario('C22', 'C11', 'C12', 'C13', mains='C22', entry='setops.mass_weighted*')
def mass_ops(s):
    op = s.pick('operation', ['mass_weightedUnion', 'mass_weightedIntersection'])
    n = s.pick('operands', [0, 1, 2, 3] + ([4] if s.tier != 'quick' else []))
    kind = s.pick('operands are', ['Bucket', 'BTree'])
    maps = [s.container('IF', kind, label=f'x{i + 1}') for i in range(n)]
    for m in maps:
        m.name = m.label
    ws = [s.ctx.natom(f'w{i + 1}') for i in range(n)]
    cls = classes(s, maps, 'docs_') if n else []
    vals = {}
    for e, ms in cls:
        for m in ms:
            v = s.ctx.natom(f'v[{m.name},{e.name}]', of=e)
            vals[m.uid, e.uid] = v
            m.d[E.hk(e)] = (e, v)
    pairs = [(m, w) for m, w in zip(maps, ws)]
    union = op == 'mass_weightedUnion'
    if not union and s.yes('missing operands'):
        pairs = [(None, s.ctx.natom('w0'))] + pairs[:1] + [(None, 1)] + pairs[1:]
    arg = E.ListObj(pairs, label='operands')
    s.settle(arg, *maps)
    f = s.cls(SO + op)
    k, r = s.op(f, None, arg, *([] if s.omit_family() else [s.family()]))
    if k == 'raise':
        s.unexpected(r, op)
    what = f'{op} of {n} operands'
    want = {}
    for e, ms in cls:
        if union or (n and len(ms) == n):
            t = Num.const(0)
            for m in ms:
                t = t + vals[m.uid, e.uid] * ws[maps.index(m)]
            want[E.hk(e)] = (e, t)
    s.check('C22', isinstance(r, E.MapObj) and s.same_keys(r, [e for e, _ in want.values()]),
            f'{what} has keys {s.keys(r)}, should be {[e for e, _ in want.values()]}')
    if s.prop == 'C22':
        for h, (e, t) in want.items():
            s.check('C22', s.same_num(r.d[h][1], t),
                    f'{what} scores {e!r} with {r.d[h][1]!r}, should be {t}')
    s.rule_pure('C11 C22'.split(), what)
    s.rule_fresh('C12', r, what, arg)
    s.rule_family()
    s.rule_result_family(r, what)


def weak_order(s, n):
    """Ranks of n items, each weak order once."""
    ranks = []
    for i in range(n):
        ranks.append(s.pick(f'rank of score {i + 1}', list(range(n))))
    if sorted(set(ranks)) != list(range(max(ranks) + 1)):
        raise E.Infeasible()
    return ranks


@scenario('C23', mains='C23', entry='NBest.add, addmany, getbest, pop_smallest')
def nbest(s):
    m = 4 if s.tier == 'quick' else 5
    cap = s.pick('capacity', [1, 2, 3])
    ranks = weak_order(s, m)
    nbest_run(s, cap, ranks, s.pick('added', ['singly', 'in bulk', 'mixed',
                                              'with a removal between',
                                              'in bulk from a generator']))


@scenario('C23', mains='C23', entry='NBest.add, addmany, getbest, pop_smallest')
def nbest_many(s):
    """Large capacities and long sequences of scores of a few patterns."""
    cap = s.pick('capacity', [2, 5, 8, 11, 40] if s.tier == 'quick' else [2, 4, 5, 7, 8, 11, 17, 40])
    m = s.pick('items', [12] if s.tier == 'quick' else [9, 12, 20])
    ranks = s.pick('scores', [list(range(m)), list(range(m))[::-1],
                              [i // 2 if i % 2 else m - 1 - i // 2 for i in range(m)],
                              [i * 5 % m for i in range(m)], [0] * m, [i % 3 for i in range(m)],
                              [2 - i % 3 for i in range(m)], [1] * (m - 2) + [0, 2]])
    nbest_run(s, cap, ranks, s.pick('added', ['singly', 'in bulk', 'mixed',
                                              'with a removal between',
                                              'in bulk from a generator']))


def nbest_run(s, cap, ranks, how):
    m = len(ranks)
    sc = {r: s.ctx.elem(f"score{r}", "score", "any", rank=r)[0] for r in set(ranks)}
    items = [s.ctx.elem(f'item{i + 1}', 'item', 'obj')[0] for i in range(m)]
    o = s.create(NB, cap)
    held = []           # (item, rank) according to the specification, ties free

    def verify(what):
        n = s.run(o, '__len__')
        s.check('C23', s.same_num(n, len(held)), f'{what}: length is {n!r}, not {len(held)}')
        c = s.run(o, 'capacity')
        s.check('C23', s.same_num(c, cap), f'{what}: capacity is {c!r}, not {cap}')
        b = s.run(o, 'getbest')
        got = s.keys(b)
        ok = got is not None and all(isinstance(x, tuple) and len(x) == 2 for x in got)
        s.check('C23', ok, f'{what}: getbest() returns {b!r}')
        rk = []
        for it, score in got:
            i = next((i for i, x in enumerate(items) if x is it), None)
            s.check('C23', i is not None and score is sc[ranks[i]],
                    f'{what}: getbest() reports {it!r} with {score!r}')
            s.check('C23', (i, ranks[i]) in pool, f'{what}: {it!r} should not be held')
            rk.append(ranks[i])
        s.check('C23', len({id(x) for x, _ in got}) == len(got), f'{what}: an item is held twice')
        s.check('C23', sorted(rk, reverse=True) == rk, f'{what}: getbest() is not best first')
        s.check('C23', sorted(rk) == sorted(r for _, r in held),
                f'{what}: scores held have ranks {sorted(rk)}, should be '
                f'{sorted(r for _, r in held)}')
        return got

    pool = set()

    def added(i):
        pool.add((i, ranks[i]))
        held.append((i, ranks[i]))
        held.sort(key=lambda x: x[1])
        while len(held) > cap:
            held.pop(0)

    def pop(what):
        k, v = s.op(o, 'pop_smallest')
        if not held:
            s.check('C23', k == 'raise' and s.ip.exc_match(v, E.BT('IndexError')),
                    f'{what}: pop_smallest() of an empty collection gives {v!r}')
            return
        if k == 'raise':
            s.unexpected(v, 'pop_smallest')
        s.check('C23', isinstance(v, tuple) and len(v) == 2, f'{what}: removes {v!r}')
        i = next((i for i, x in enumerate(items) if x is v[0]), None)
        s.check('C23', i is not None and v[1] is sc[ranks[i]] and ranks[i] == held[0][1],
                f'{what}: pop_smallest() returns {v!r}, should be of rank {held[0][1]}')
        pool.discard((i, ranks[i]))
        held.pop(0)

    def add(i):
        s.run(o, 'add', items[i], sc[ranks[i]])
        added(i)

    def bulk(idx, gen=False):
        seq = E.ListObj([(items[i], sc[ranks[i]]) for i in idx])
        if gen:
            seq = E.IterObj([E.It((items[i], sc[ranks[i]])) for i in idx])
        s.run(o, 'addmany', seq)
        for i in idx:
            added(i)
    if how == 'singly':
        for i in range(m):
            add(i)
            verify(f'after {i + 1} additions')
    elif how == 'mixed':
        add(0)
        bulk(range(1, m - 1))
        verify('after adding')
        add(m - 1)
    elif how == 'with a removal between':
        bulk(range(0, m - 2))
        pop('between')
        verify('after a removal')
        add(m - 2)
        add(m - 1)
    else:
        bulk(range(m), how != 'in bulk')
    verify('at the end')
    while held:
        pop('at the end')
        verify('after a removal')
    pop('when empty')


@scenario('C23', mains='C23', entry='NBest.__init__')
def nbest_capacity(s):
    c = s.pick('capacity', [0, -1, -7])
    k, v = s.op(s.cls(NB), None, c)
    s.check('C23', k == 'raise' and s.ip.exc_match(v, E.BT('ValueError')),
            f'NBest({c}) gives {v!r} instead of ValueError')
    n = s.ctx.natom('N', 1, None, True)
    o = s.create(NB, n)
    s.check('C23', s.same_num(s.run(o, 'capacity'), n), 'capacity() is not N')
    s.check('C23', s.same_num(s.run(o, '__len__'), 0), 'a new collection is not empty')
