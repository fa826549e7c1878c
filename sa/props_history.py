"""Query, change, query again: answers depend on the current state only."""
import engine as E
from num import Num
from props_field import FI, Field, anchor, docid, ranked, some
from props_keyword import CI, KI, PF, TI, Topic, Words, expected, seen, word
from props_score import Query, c_scorer, check_scores, prop_of
from props_text import CO, OK, Text, text, wid
from scen import scenario


@scenario('C02', 'C03', 'C12', mains='C02 C03', entry='FieldIndex, queries around a change')
def field_history(s):
    lo, mid, hi, out = ranked(s, 4)
    d = docid(s, 'd', rank=1)
    e = docid(s, 'e', rank=2)
    old = s.pick('old value', [None, lo, out])
    new = s.pick('new value', [None, hi, out])
    rev = [(e, mid)] + ([(d, old)] if old is not None else [])
    crowd = [docid(s, f'c{i}', rank=2 + i) for i in range(1, s.pick('more documents', [0, 4]) + 1)]
    rev += [(c, mid) for c in crowd]
    f = Field(s, rev)
    docs = s.container('IF', 'Set', [d, e] + crowd, label='docids')
    q = (lo, hi)

    def ask():
        if s.prop == 'C03':
            return s.run(f.o, 'sort', docs)
        return s.run(f.o, 'apply', q)

    def want():
        r = {E.hk(x): v for x, v in f.rev.values()}
        if s.prop == 'C03':
            return sorted([x for x in [d, e] + crowd if E.hk(x) in r], key=lambda x: r[E.hk(x)].rank)
        return [x for x in [d, e] + crowd if E.hk(x) in r and r[E.hk(x)].rank <= hi.rank]
    w1 = want()
    first = ask()
    k1 = s.keys(first)
    if s.prop == 'C03':
        ok = list(map(repr, k1)) == list(map(repr, w1))
    else:
        ok = s.same_keys(first, w1)
    s.check('C02 C03', ok, f'the first answer is {k1}, should be {w1}')
    how = s.pick('change', ['index', 'unindex', 'clear'] + (['swap'] if old is not None else []))
    if how == 'swap':
        # as many documents and values as before
        for x, v in ((d, mid), (e, old)):
            s.run(f.o, 'index_doc', x, v)
            f.rev[E.hk(x)] = (x, v)
    elif how == 'index':
        v = new if new is not None else mid
        s.run(f.o, 'index_doc', d, v)
        f.rev[E.hk(d)] = (d, v)
    elif how == 'unindex':
        s.run(f.o, 'unindex_doc', d)
        f.rev.pop(E.hk(d), None)
    else:
        s.run(f.o, 'clear')
        f.rev = {}
    if s.prop == 'C12':
        s.check('C12', s.same_keys(first, w1), f'{how} changes an earlier result '
                f'from {w1} to {s.keys(first)}')
        if isinstance(first, (E.SetObj, E.MapObj)):
            s.run(first, 'clear')
    w2 = want()
    second = ask()
    k2 = s.keys(second)
    if s.prop == 'C03':
        ok = list(map(repr, k2)) == list(map(repr, w2))
    else:
        ok = s.same_keys(second, w2)
    s.check('C02 C03 C12', ok, f'after {how} the answer is {k2}, should be {w2}')


@scenario('C05', 'C12', mains='C05', entry='KeywordIndex, queries around a change')
def keyword_history(s):
    w1, w2, w3 = (word(s, f'w{i}')[0] for i in (1, 2, 3))
    d, e = docid(s, 'd'), docid(s, 'e')
    old = s.pick('old words', [None, [w1], [w1, w2]])
    new = s.pick('new words', [[w2], [w1, w2], [w3]])
    rev = [(e, [w1, w2])] + ([(d, old)] if old else [])
    if s.yes('more documents'):
        rev += [(docid(s, f'c{i}'), [w1, w2, w3]) for i in range(4)]
    k = Words(s, rev)
    op = s.pick('operator', ['and', 'or'])
    q = E.ListObj(s.pick('query', [[w1, w2], [w1], [w1, w2, w1, w2], [w3, w2, w1]]))
    qs = s.keys(q)

    def want():
        return expected([(x, list(ws.values())) for x, ws in k.rev.values()], qs, op)
    first = s.run(k.o, 'search', q, op)
    f1 = want()
    s.check('C05', s.same_keys(first, f1), f'the first answer is {s.keys(first)}, not {f1}')
    how = s.pick('change', ['index', 'unindex', 'clear', 'optimize'] +
                 (['swap'] if old else []))
    if how == 'swap':
        for x, ws in ((d, [w1, w2, w3]), (e, old)):
            s.run(k.o, 'index_doc', x, E.ListObj(ws))
            k.rev[E.hk(x)] = (x, {E.hk(w): w for w in ws})
    elif how == 'index':
        s.run(k.o, 'index_doc', d, E.ListObj(new))
        k.rev[E.hk(d)] = (d, {E.hk(w): w for w in new})
    elif how == 'unindex':
        s.run(k.o, 'unindex_doc', d)
        k.rev.pop(E.hk(d), None)
    elif how == 'clear':
        s.run(k.o, 'clear')
        k.rev = {}
    else:
        s.run(k.o, 'optimize')
    if s.prop == 'C12':
        s.check('C12', s.same_keys(first, f1), f'{how} changes an earlier result '
                f'from {f1} to {s.keys(first)}')
        s.run(first, 'clear')
    second = s.run(k.o, 'search', q, op)
    f2 = want()
    s.check('C05 C12', s.same_keys(second, f2),
            f'after {how} the answer is {s.keys(second)}, should be {f2}')


@scenario('C07', 'C12', mains='C07', entry='TopicIndex, queries around a change')
def topic_history(s):
    ids = [s.ctx.elem(f'f{i}', 'filterid', 'str')[0] for i in (1, 2)]
    ex = [s.ctx.elem(f'expr{i}', 'expr', 'str')[0] for i in (1, 2)]
    d, e = docid(s, 'd'), docid(s, 'e')
    has = s.pick('filters with d', [[], [0], [0, 1]])
    crowd = [docid(s, f'c{i}') for i in range(s.pick('more documents', [0, 4]))]
    docs = [[e] + ([d] if i in has else []) + crowd for i in (0, 1)]
    t = Topic(s, list(zip(ids, ex, docs)))
    cur = {E.hk(i): ds for i, ds in zip(ids, docs)}
    op = s.pick('operator', ['and', 'or'])
    q = E.ListObj(s.pick('query', [ids, ids[:1]]))
    qs = s.keys(q)

    def want():
        sets = [cur[E.hk(i)] for i in qs if E.hk(i) in cur]
        if not sets:
            return []
        f = all if op == 'and' else any
        return [x for x in [d, e] + crowd if f(x in c for c in sets)]
    truth = {}

    def ev(ip, expr, env):
        return truth[E.hk(expr)]
    s.ctx.hooks['eval'] = ev
    first = s.run(t.o, 'search', q, op)
    f1 = want()
    s.check('C07', s.same_keys(first, f1), f'the first answer is {s.keys(first)}, not {f1}')
    how = s.pick('change', ['index', 'unindex', 'clearFilters', 'delFilter', 'clear', 'swap'])
    if how == 'swap':
        # filter by filter as many documents as before
        for x, on in ((d, [i for i in (0, 1) if i not in has]), (e, has)):
            for i, y in enumerate(ex):
                truth[E.hk(y)] = i in on
            s.run(t.o, 'index_doc', x, s.ctx.elem(f'obj_{x!r}', 'object', 'obj')[0])
            for i in (0, 1):
                cur[E.hk(ids[i])] = [z for z in cur[E.hk(ids[i])] if z is not x] + [x] * (i in on)
    elif how == 'index':
        m = s.pick('matching', [[], [0], [1], [0, 1]])
        for i, x in enumerate(ex):
            truth[E.hk(x)] = i in m
        s.run(t.o, 'index_doc', d, s.ctx.elem('obj', 'object', 'obj')[0])
        cur = {E.hk(ids[i]): [e] + ([d] if i in m else []) + crowd for i in (0, 1)}
    elif how == 'unindex':
        s.run(t.o, 'unindex_doc', d)
        cur = {E.hk(ids[i]): [e] + crowd for i in (0, 1)}
    elif how == 'clearFilters':
        s.run(t.o, 'clearFilters')
        cur = {E.hk(ids[i]): [] for i in (0, 1)}
    elif how == 'delFilter':
        s.run(t.o, 'delFilter', ids[0])
        del cur[E.hk(ids[0])]
    else:
        s.run(t.o, 'clear')
        cur = {}
    if s.prop == 'C12':
        s.check('C12', s.same_keys(first, f1), f'{how} changes an earlier result '
                f'from {f1} to {s.keys(first)}')
        s.run(first, 'clear')
    second = s.run(t.o, 'search', q, op)
    f2 = want()
    s.check('C07 C12', s.same_keys(second, f2),
            f'after {how} the answer is {s.keys(second)}, should be {f2}')


@scenario('C06', 'C12', mains='C06', entry='PythonFilteredSet, TopicIndex, operation after operation')
def topic_filter_history(s):
    """Expressions set anew, filters added and deleted between operations."""
    d, e = docid(s, 'd'), docid(s, 'e')
    ids = [s.ctx.elem(f'f{i}', 'filterid', 'str')[0] for i in (1, 2, 3)]
    ex = [s.ctx.elem(f'expr{i}', 'expr', 'str')[0] for i in (1, 2, 3)]
    obj = {E.hk(d): s.ctx.elem('obj_d', 'object', 'obj')[0],
           E.hk(e): s.ctx.elem('obj_e', 'object', 'obj')[0]}
    t = Topic(s, [(ids[0], ex[0], []), (ids[1], ex[1], [])])
    fs = dict(enumerate(t.f))
    now = {0: [], 1: []}
    cur = {0: ex[0], 1: ex[1]}
    on = [0, 1]
    truth = {}

    def true(x, doc):
        k = E.hk(x), E.hk(doc)
        if k not in truth:
            truth[k] = s.pick(f'{x!r} for {doc!r}', ['true', 'false', 'raises'])
        return truth[k] == 'true'

    doing = [None]

    def ev(ip, expr, env):
        o = seen(ip, env, 'context')
        doc = [x for x in (d, e) if obj[E.hk(x)] is o]
        s.check('C06', doc, 'the expression is evaluated without the indexed object as "context"')
        if not true(expr, doc[0]) and truth[E.hk(expr), E.hk(doc[0])] == 'raises':
            raise ip.exc('NameError', 'in expression')
        return true(expr, doc[0])
    s.ctx.hooks['eval'] = ev
    s.ctx.hooks['compile'] = lambda x: truth.get((E.hk(x), E.hk(doing[0]))) == 'raises' \
        and s.yes('not even valid')
    steps = s.pick('operations', [
        ['d', 'set', 'd'], ['d', 'set', 'e'], ['d', 'set', 'd', 'set back', 'd'],
        ['d', 'set', 'undo'], ['d', 'e', 'set', 'd'], ['d', 'delete', 'd', 'add', 'd'],
        ['d', 'add', 'e', 'undo'], ['d', 'delete', 'add back'], ['d', 'd'], ['d', 'e', 'd'],
        ['d', 'clear', 'd'], ['d', 'undo', 'd'], ['set', 'set', 'd']])
    for i, step in enumerate(steps):
        last = f'{step} after {", ".join(steps[:i]) or "nothing"}'
        if step in ('d', 'e'):
            doc = d if step == 'd' else e
            doing[0] = doc
            for j in on:
                true(cur[j], doc)
            s.run(t.o, 'index_doc', doc, obj[E.hk(doc)])
            for j in on:
                now[j] = [x for x in now[j] if x is not doc]
                if true(cur[j], doc):
                    now[j].append(doc)
        elif step == 'set':
            cur[0] = ex[2]
            s.run(fs[0], 'setExpression', ex[2])
        elif step == 'set back':
            cur[0] = ex[0]
            s.run(fs[0], 'setExpression', ex[0])
        elif step == 'undo':
            s.run(t.o, 'unindex_doc', d)
            for j in on:
                now[j] = [x for x in now[j] if x is not d]
        elif step == 'clear':
            s.run(t.o, 'clearFilters')
            for j in on:
                now[j] = []
        elif step == 'delete':
            s.run(t.o, 'delFilter', ids[0])
            on.remove(0)
        elif step == 'add back':
            s.run(t.o, 'addFilter', fs[0])
            on.append(0)
        elif step == 'add':
            f = fs[2] = s.create(PF, ids[2], ex[2], family=s.family())
            anchor(f, '_ids')
            cur[2], now[2] = ex[2], []
            s.run(t.o, 'addFilter', f)
            on.append(2)
        for j, f in fs.items():
            got = s.run(f, 'getIds')
            s.check('C06', s.same_keys(got, now[j]), f'{last}: filter {j + 1} contains '
                    f'{s.keys(got)}, should be {now[j]}')
        got = s.run(fs[0], 'getExpression')
        s.check('C06', E.hk(got) == E.hk(cur[0]),
                f'{last}: the expression is {got!r}, should be {cur[0]!r}')


def history(s, kind):
    c_scorer(s)
    P = prop_of(kind)
    a, b = wid(s, 'a')[0], wid(s, 'b')[0]
    d, e = docid(s, 'd'), docid(s, 'e')
    known = [(e, [a, b])]
    if s.yes('d is indexed'):
        known.append((d, [a]))
    t = Text(s, kind, known, [])
    term = text(s, 'term')
    wids = s.pick('query words', [[a], [a, b]])
    t.lex.tables['termToWordIds', E.hk(term)] = wids
    t.lex.tables['globToWordIds', E.hk(term)] = wids
    src = text(s, 'text')
    op = s.pick('query', ['search', 'search_glob', 'query_weight'])

    def ask(what, P, term=term, wids=wids):
        arg = E.ListObj([term]) if op == 'query_weight' else term
        q = Query(s, t)
        r = s.run(t.o, op, arg, props=P)
        if op == 'query_weight':
            s.check(P, s.same_num(r, q.weight(wids)), f'{what} query_weight() is {r}, '
                    f'should be {q.weight(wids)}')
        else:
            check_scores(s, P, r, q.union(wids), f'{what} {op}()')
        return r, q
    first, q1 = ask('first', P)
    how = s.pick('change', ['index', 'unindex', 'clear'])
    if how == 'index':
        new = s.pick('new words', [[b], [a, a, b], []])
        t.lex.tables['sourceToWordIds', E.hk(src)] = new
        s.run(t.o, 'index_doc', d, src)
        t.known[E.hk(d)] = (d, [E.It(w) for w in new])
    elif how == 'unindex':
        s.run(t.o, 'unindex_doc', d)
        t.known.pop(E.hk(d), None)
    else:
        s.run(t.o, 'clear')
        t.known = {}
    if s.prop == 'C12' and op != 'query_weight':
        check_scores(s, 'C12', first, q1.union(wids), f'after {how} an earlier result of {op}()')
        s.run(first, 'clear')
        k2 = Query(s, t).union(wids)
        r = s.run(t.o, op, term)
        s.check('C12', s.same_keys(r, [x for x, _ in k2.values()]),
                f'after an earlier result was emptied {op}() finds {s.keys(r)}')
        return
    if s.yes('the same words again'):
        ask(f'after {how}', P)
        return
    other = text(s, 'other')
    wids = [[b], [a, b]][wids == [a]]
    for m in ('termToWordIds', 'globToWordIds'):
        t.lex.tables[m, E.hk(other)] = wids
    ask(f'after {how}, of other words,', P, other, wids)


@scenario('C24', 'C12', mains='C24', entry='OkapiIndex, queries around a change')
def okapi_history(s):
    history(s, OK)


@scenario('C24', 'C12', mains='C24', entry='OkapiIndex, queries around a change, Python scorer',
          pure=True)
def okapi_history_python(s):
    history(s, OK)


@scenario('C28', 'C12', mains='C28', entry='CosineIndex, queries around a change')
def cosine_history(s):
    history(s, CO)
