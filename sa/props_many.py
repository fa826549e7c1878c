"""Many operands, words and documents: behaviour that changes with sizes and counts."""
from fractions import Fraction

import engine as E
from num import Num
from props_field import Field, docid
from props_keyword import TI, Topic, Words, crowd, expected
from props_keyword import word as kword
from props_lexicon import Lex, counted, glob_hooks, word
from props_score import Query, c_scorer, check_scores, prop_of
from props_text import CO, OK, Text, text, which, wid
from props_textindex import Fake, TX
from props_tree import start
from scen import scenario

NB = 'zope.index.nbest.NBest'
SO = 'zope.index.text.setops.'


EDGES = sorted({(1 << k) + d for k in range(2, 12) for d in (-1, 0, 1)} |
               {m + d for m in (6, 10, 12, 20, 25, 50, 100, 200, 250, 300, 500, 1000, 5000, 10000)
                for d in (0, 1)})


def size(s, tag, quick, more, edge):
    """Pick a size: some in full, and those up to `edge` at which code likes to change course.

    Returns the size and a pick() that offers all the options for the former, and only the
    first one for the latter.
    """
    full = quick if s.tier == 'quick' else sorted(set(quick + more))
    edge *= 1 if s.tier == 'quick' else 3
    found = {c + i for c in s.prog.constants() for i in (0, 1) if 3 <= c < max(edge, min(4 * edge, 1300))}
    n = s.pick(tag, full + sorted(({x for x in EDGES if x <= edge} | found) - set(full)))
    return n, lambda t, opts, keep=1: s.pick(t, opts if n in full else opts[:keep])


@scenario('C22', 'C11', 'C12', mains='C22', entry='setops.mass_weighted*')
def mass_ops_many(s):
    op = s.pick('operation', ['mass_weightedUnion', 'mass_weightedIntersection'])
    n, pick = size(s, 'operands', [4, 7, 40], [5, 6, 9, 12, 70], 130)
    maps = [s.container('IF', 'Bucket', label=f'x{i + 1}') for i in range(n)]
    at = {}
    for i, m in enumerate(maps):
        m.name = m.label
        at[m.uid] = i
    ws = [s.ctx.natom(f'w{i + 1}') for i in range(n)]
    cls = crowd(s, maps, pick)
    vals = {}
    for e, ms in cls:
        for m in ms:
            vals[m.uid, e.uid] = v = s.ctx.natom(f'v[{m.name},{e.name}]')
            m.d[E.hk(e)] = (e, v)
    arg = E.ListObj(list(zip(maps, ws)), label='operands')
    s.settle(arg, *maps)
    k, r = s.op(s.cls(SO + op), None, arg, s.family())
    if k == 'raise':
        s.unexpected(r, op)
    what = f'{op} of {n} operands'
    want = {}
    for e, ms in cls:
        if op == 'mass_weightedUnion' or len(ms) == n:
            t = Num.const(0)
            for m in ms:
                t = t + vals[m.uid, e.uid] * ws[at[m.uid]]
            want[E.hk(e)] = (e, t)
    s.check('C22', isinstance(r, E.MapObj) and s.same_keys(r, [e for e, _ in want.values()]),
            f'{what} has keys {s.keys(r)}, should be {[e for e, _ in want.values()]}')
    if s.prop == 'C22':
        for h, (e, t) in want.items():
            s.check('C22', s.same_num(r.d[h][1], t),
                    f'{what} scores {e!r} with {r.d[h][1]!r}, should be {t}')
    s.rule_pure('C11 C22'.split(), what)
    s.rule_fresh('C12', r, what, arg)


@scenario('C20', 'C11', mains='C20', entry='AndNode, OrNode')
def node_many(s):
    t = start(s)
    n, pick = size(s, 'operands', [5, 8, 17], [6, 7, 11, 40], 33)
    kind = s.pick('node', ['AndNode', 'OrNode'])
    how = pick('operands are', ['words', 'one ignored'] +
                 (['last two negated', 'alternately negated'] if kind == 'AndNode' else []))
    parts = []
    for i in range(n):
        p = t.leaf(how == 'one ignored' and i == n // 2)
        t.leaves[-1][0].rank = (i * 5 + 2) % n      # not in alphabetical order
        neg = how == 'last two negated' and i >= n - 2 or how == 'alternately negated' and i % 2
        parts.append(t.neg(p) if neg else p)
    node, d = t.node(kind, parts)
    t.fill(lambda s, names, *a: crowd(s, names, pick))
    t.verify(node, d)


@scenario('C16', 'C14', mains='C16', entry='Lexicon.sourceToWordIds')
def lexicon_many(s):
    """Long texts: many new words, among known ones, some repeated."""
    known = [word(s, f'k{i}') for i in range(3)]
    n, pick = size(s, 'new words', [6, 11, 300], [8, 16, 25, 1100], 300)
    new = [word(s, f'n{i}') for i in range(n)]
    lx = Lex(s, [(known[0], 2), (known[1], 4), (known[2], 9)])
    counted(s, lx, pick('counter', [9, 0, 3]))
    s.ctx.hooks['while_bound'] = n + 12
    seq = {'new': new, 'repeated': new + new[::-1],
           'mixed': known[:1] + new[:3] + known[1:2] + new[2:5] + known[:1] + new[4:] + known[2:]}[
               pick('text', ['new', 'repeated', 'mixed'])]
    arg = E.ListObj(seq)
    s.settle(lx.o, arg)
    got = s.run(lx.o, 'sourceToWordIds', arg)
    lx.rules('sourceToWordIds', seq, got)
    if s.prop == 'C16':
        got = s.run(lx.o, 'sourceToWordIds', E.ListObj(seq[::-1]))
        lx.verify('a second sourceToWordIds', seq[::-1], got)


@scenario('C08', 'C09', mains='C08 C09', entry='BaseIndex.index_doc')
def text_long(s):
    """Long texts with many words, each once or often."""
    kind = which(s)
    d = docid(s, 'd')
    n, pick = size(s, 'words', [7, 13, 150], [9, 21, 300], 260)
    ws = [wid(s, f'w{i}')[0] for i in range(n)]
    shapes = {'each once': ws, 'all twice': ws + ws, 'one often': ws + [ws[0]] * 11,
              'half': ws[::2], 'none': []}
    old = pick('old words', [None, 'half'] + list(shapes)[:3], 2)
    new = pick('new words', list(shapes))
    if old == new:
        return
    other = [(docid(s, f'o{i}', rank=i), ws[i:i + 3]) for i in range(3)]
    t = Text(s, kind, [(d, shapes[old])] if old else [], other)
    src = text(s, 'text')
    t.lex.tables['sourceToWordIds', E.hk(src)] = shapes[new]
    s.settle(t.o)
    s.run(t.o, 'index_doc', d, src)
    t.known[E.hk(d)] = (d, shapes[new])
    t.rules('index_doc')


@scenario('C08', 'C09', mains='C08 C09', entry='BaseIndex.index_doc, a word again and again')
def text_often(s):
    """A word that occurs as often as integers in the source say, and a little more."""
    kind = which(s)
    d = docid(s, 'd')
    often = [c + 3 for c in sorted(s.prog.constants()) if 60 < c < 70000]
    n = s.pick('occurrences', sorted({70, 300} | set(often)))
    a, b = wid(s, 'a')[0], wid(s, 'b')[0]
    many = [b] + [a] * n
    few = [a, b]
    old, new = s.pick('texts', [(None, many), (few, many), (many, few)])
    t = Text(s, kind, [(d, old)] if old else [], [(docid(s, 'o'), [a])])
    src = text(s, 'text')
    t.lex.tables['sourceToWordIds', E.hk(src)] = new
    s.ctx.hooks.update(loop_max=2 * n + 100, while_bound=2 * n + 100)
    s.settle(t.o)
    s.run(t.o, 'index_doc', d, src)
    t.known[E.hk(d)] = (d, new)
    t.rules('index_doc')


@scenario('C28', 'C11', 'C12', mains='C28', entry='CosineIndex.search, query_weight')
def cosine_search_many(s):
    search_many(s, CO)


@scenario('C24', 'C11', 'C12', mains='C24', entry='OkapiIndex.search, query_weight')
def okapi_search_many(s):
    search_many(s, OK)


@scenario('C24', 'C11', 'C12', mains='C24', entry='OkapiIndex.search, Python scorer', pure=True)
def okapi_search_many_python(s):
    search_many(s, OK)


class Numbers(Text):
    """Documents of given lengths and word weights."""

    def weight_atom(self, d, w):
        n = 1 + (7 * d.rank + int(w.name[1:] or 0)) % 5
        return Num.const(n if self.kind == OK else Fraction(n, 8))

    def length_atom(self, d):
        return Num.const(20 + 3 * (d.rank or 0) % 11)


def near(s, low, high):
    """Sizes just above the integers in the source."""
    return sorted({c + 2 for c in s.prog.constants() if low <= c + 2 <= high})


def search_many(s, kind):
    c_scorer(s)
    P = prop_of(kind)
    n, pick = size(s, 'query words', [4, 7], [5, 9], 130)
    ws = [wid(s, f'w{i}')[0] for i in range(n)]
    other = crowd(s, ws, pick)
    t = Numbers(s, kind, [], other + [(docid(s, 'rest', rank=99), [wid(s, 'z')[0]])])
    q = Query(s, t)
    seq = {'in order': ws, 'one twice': ws + ws[1:2], 'one unknown': ws[:2] + [0] + ws[2:]}[
        pick('query', ['in order', 'one twice', 'one unknown'])]
    term = text(s, 'term')
    op = s.pick('operation', ['search', 'search_glob', 'query_weight'])
    t.lex.tables['globToWordIds' if op == 'search_glob' else 'termToWordIds', E.hk(term)] = seq
    arg = E.ListObj([term], label='terms')
    s.settle(t.o, arg)
    what = f'{op} for {seq}'
    if op == 'query_weight':
        r = s.run(t.o, op, arg, props=P)
        s.check(P, s.same_num(r, q.weight(seq)), f'{what} is {r!r}, should be {q.weight(seq)}')
    else:
        r = s.run(t.o, op, term, props=P)
        check_scores(s, P, r, q.union(seq), what)
        s.rule_fresh('C12', r, what, t.o)
    s.rule_pure('C11', what)


@scenario('C04', 'C15', mains='C04', entry='KeywordIndex.index_doc')
def keyword_index_many(s):
    """A document with many keywords among others that share some."""
    d = docid(s, 'd')
    n, pick = size(s, 'keywords', [6, 10, 200], [17, 600], 520)
    ws = [kword(s, f'w{i}')[0] for i in range(n)]
    old, new = pick('change', [(None, ws), (ws, ws[:-1]), (ws, ws[::2]), (ws[::2], ws),
                                 (ws[:n // 2], ws[n // 2:]), (ws, [])], 2)
    rev = [(docid(s, f'o{i}', rank=i), ws[i:i + 2]) for i in range(0, n, 3)]
    k = Words(s, rev + ([(d, old)] if old else []))
    arg = E.ListObj(new + new[:1])
    s.settle(k.o, arg)
    s.run(k.o, 'index_doc', d, arg)
    k.rev.pop(E.hk(d), None)
    if new:
        k.rev[E.hk(d)] = (d, {E.hk(w): w for w in new})
    k.rules('index_doc', Num.const(bool(new) - bool(old)))


@scenario('C18', mains='C18', entry='Lexicon.globToWordIds')
def glob_many(s):
    """Hundreds of words match, others before, between and after them do not."""
    n, pick = size(s, 'matching words', [40, 1100], [300, 2500], 1100)
    c = E.Elem('c', 'char', 'str', falsy=False, info={'char': True})
    kinds = ['before'] * 3 + ['prefixed'] * n + ['after'] * 3
    ws = [(E.Elem(f'{k}{i}', 'lword', 'str', rank=i, falsy=False), k)
          for i, k in enumerate(kinds)]
    lx = Lex(s, [(w, 10 + i) for i, (w, _) in enumerate(ws)])
    tokens = [c, '*']
    pattern = s.ip.lib.concat(tokens)
    every = pick('of the words with the prefix match', ['all', 'every third'])
    glob_hooks(s, pattern, tokens, ws, 1)
    want = []
    for i, (w, k) in enumerate(ws):
        hit = k == 'prefixed' and (every == 'all' or i % 3 == 0)
        s.ctx.facts['glob', w.uid] = hit
        if hit:
            want.append(10 + i)
    counted(s, lx, 3)
    s.settle(lx.o)
    got = s.run(lx.o, 'globToWordIds', pattern)
    items = s.ip.single_items(got)
    s.check('C18', sorted(map(repr, items)) == sorted(map(repr, want)),
            f'globToWordIds finds {len(items)} of {len(want)} words')


# ---------------------------------------------------------------- field indexes

def orders(n):
    return {'up': list(range(n)), 'down': list(range(n))[::-1],
            'zigzag': [i // 2 if i % 2 else n - 1 - i // 2 for i in range(n)],
            'mixed': [i * 7 % n for i in range(n)], 'few values': [i % 3 for i in range(n)],
            'one value': [0] * n, 'groups': [i // 5 for i in range(n)]}


@scenario('C03', mains='C03', entry='FieldIndex.sort')
def field_sort_many(s):
    """Enough documents for every strategy to be chosen by itself."""
    n, pick = size(s, 'documents', [9, 30], [17, 60, 250], 260)
    order = pick('values', ['mixed'] + [x for x in orders(n) if x != 'mixed'])
    ranks = orders(n)[order]
    vs = {r: s.ctx.elem(f'v{r}', 'value', 'any', rank=r)[0] for r in ranks}
    docs = [docid(s, f'd{i}', rank=i) for i in range(n)]
    few = pick('asked for', ['all', 'half', 'with as many unknown ones', 'last ones'])
    f = Field(s, [(d, vs[r]) for d, r in zip(docs, ranks)])
    asked = {'all': docs, 'half': docs[::2], 'last ones': docs[-6:],
             'with as many unknown ones':
                 docs + [docid(s, f'u{i}', rank=n + i) for i in range(n)]}[few]
    arg = E.ListObj(asked[::-1]) if pick('docids given as', ['list', 'Set']) == 'list' else \
        s.container('IF', 'Set', asked)
    arg.label = 'docids'
    reverse = s.yes('reverse')
    s.settle(f.o, arg)
    full = s.keys(s.run(f.o, 'sort', arg, reverse=reverse))
    want = [d for d in asked if d in docs]
    what = f'sort({n} docids, reverse={reverse})'
    s.check('C03', full is not None and len(full) == len(want) and
            {E.hk(d) for d in full} == {E.hk(d) for d in want},
            f'{what} yields {full}, should be an ordering of {want}')
    val = {E.hk(d): r for d, r in zip(docs, ranks)}
    got = [val[E.hk(d)] for d in full]
    s.check('C03', got == sorted(got, reverse=reverse), f'{what} is not ordered by value: {got}')
    for limit in (1, 2, 3, 5, 7, n // 2, n - 1, n, n + 3) if n < 40 else (1, n // 2, n - 1, n):
        r = s.keys(s.run(f.o, 'sort', arg, limit=limit, reverse=reverse))
        s.check('C03', r is not None and list(map(E.hk, r)) == list(map(E.hk, full[:limit])),
                f'{what} yields {full}, with limit {limit} it yields {r}')


@scenario('C02', 'C12', mains='C02', entry='FieldIndex.apply')
def field_apply_many(s):
    n, pick = size(s, 'values', [12, 70], [30, 300], 1100)
    vs = [s.ctx.elem(f'v{i}', 'value', 'any', rank=i)[0] for i in range(n)]
    per = pick('documents per value', [1, 3])
    rev = [(docid(s, f'd{i}', rank=i), vs[i * 7 % n]) for i in range(per * n)]
    f = Field(s, rev)
    lo, hi = pick('range', [(None, None), (0, n - 1), (n // 2, None), (None, n // 2), (3, 4),
                              (5, n - 2), (n - 1, n - 1)])
    q = (None if lo is None else vs[lo], None if hi is None else vs[hi])
    s.settle(f.o)
    r = s.run(f.o, 'apply', q)
    want = [d for d, v in rev if (lo is None or v.rank >= lo) and (hi is None or v.rank <= hi)]
    s.check('C02', isinstance(r, (E.SetObj, E.MapObj)) and s.same_keys(r, want),
            f'apply({q!r}) of {len(rev)} documents returns {s.keys(r)}, should be {want}')
    s.rule_fresh('C12', r, f'apply({q!r})', f.o)


# ---------------------------------------------------------------- thresholds

@scenario('C04', 'C13', 'C14', mains='C04', entry='KeywordIndex.index_doc, unindex_doc, optimize')
def keyword_threshold(s):
    """A word gains and loses documents, across the size at which its set becomes a tree."""
    limit = s.pick('tree_threshold', [None, 2, 3, 6])
    if limit is not None:
        words_attr = limit
    n = limit + 4 if limit else s.pick('documents', [68] + near(s, 69, 300))
    w, v = kword(s, 'w')[0], kword(s, 'v')[0]
    k = Words(s, [])
    if limit is not None:
        k.o.attrs['tree_threshold'] = words_attr
    docs = [docid(s, f'd{i}', rank=i) for i in range(n)]
    other = s.pick('also a second word', ['no', 'every other'])
    s.settle(k.o)
    delta = 0

    def put_(i, ws):
        nonlocal delta
        arg = E.ListObj(ws)
        s.run(k.o, 'index_doc', docs[i], arg)
        delta += E.hk(docs[i]) not in k.rev
        k.rev[E.hk(docs[i])] = (docs[i], {E.hk(x): x for x in ws})

    def drop(i):
        nonlocal delta
        s.run(k.o, 'unindex_doc', docs[i])
        delta -= k.rev.pop(E.hk(docs[i]), None) is not None
    for i in range(n):
        put_(i, [w, v] if other != 'no' and i % 2 else [w])
        if n < 20:
            k.verify(f'{i + 1} documents')
    k.verify('indexing')
    how = s.pick('then', ['removed in order', 'removed backwards', 'threshold lowered',
                          'word replaced'][:4 if n <= 68 else 1] +
                 [f'threshold raised to {m}' for m in (n // 2, n // 2 + 1, n - 1, n, n + 1, n + 2,
                                                       2 * n) if n <= 68 or m == n + 1])
    if 'removed' in how:
        for i in (range(n) if 'order' in how else reversed(range(n))):
            drop(i)
            if n < 20 or abs(n - i - n // 2) < 3:
                k.verify('removals')
    elif 'threshold' in how:
        k.o.attrs['tree_threshold'] = int(how.split()[-1]) if 'raised' in how else 1
        s.run(k.o, 'optimize')
        k.verify('optimize')
        drop(1)
        k.verify('a removal')
        put_(0, [v])
    else:
        for i in range(n):
            put_(i, [v])
            if n < 20:
                k.verify('a replacement')
    k.rules('all operations')


@scenario('C08', 'C09', 'C13', 'C14', mains='C08 C09', entry='BaseIndex, at DICT_CUTOFF')
def text_threshold(s):
    """A word gains and loses documents, across the size at which its postings become a BTree."""
    kind = which(s)
    cut = s.pick('DICT_CUTOFF', [None, 1, 3] if s.tier != 'quick' else [None, 2])
    n = cut + 3 if cut else s.pick('documents', [13] + near(s, 14, 300))
    few = n < 20
    w, v, x = (wid(s, c)[0] for c in 'wvx')
    t = Text(s, kind, [], [])
    if cut is not None:
        t.o.attrs['DICT_CUTOFF'] = cut
    texts = {}
    for c, seq in (('w', [w]), ('wv', [w, v]), ('vww', [v, w, w]), ('x', [x]), ('', [])):
        texts[c] = (text(s, f'text {c}'), seq)
        t.lex.tables['sourceToWordIds', E.hk(texts[c][0])] = seq
    docs = [docid(s, f'd{i}', rank=i) for i in range(n)]
    s.settle(t.o)

    def put_(i, c):
        s.run(t.o, 'index_doc', docs[i], texts[c][0])
        t.known[E.hk(docs[i])] = (docs[i], texts[c][1])

    def drop(i):
        s.run(t.o, 'unindex_doc', docs[i])
        t.known.pop(E.hk(docs[i]), None)
    for i in range(n):
        put_(i, ['w', 'wv', 'vww'][i % 3])
        if few or i % 50 == 49:
            t.verify(f'{i + 1} documents')
    t.verify(f'{n} documents')
    how = s.pick('then', ['removed in order', 'changed', 'removed backwards', 'replaced',
                          'emptied and filled'][:5 if few else 2])
    if 'removed' in how:
        for i in (range(n) if 'order' in how else reversed(range(n))):
            drop(i)
            if few or i % 50 == 49:
                t.verify('removals')
    elif how == 'changed':
        for i in range(n):
            put_(i, ['vww', 'w', 'wv'][i % 3])
            if few or i % 50 == 49:
                t.verify('changes')
    else:
        for i in range(n):
            put_(i, 'x' if how == 'replaced' else '')
            if few or i % 50 == 49:
                t.verify('replacing')
        if how != 'replaced':
            for i in range(n):
                put_(i, 'wv')
    t.rules('all operations')


@scenario('C05', mains='C05', entry='KeywordIndex.search')
def keyword_search_large(s):
    """Hundreds of documents per keyword, and keywords per query."""
    shape = s.pick('size', ['many documents', 'many keywords'])
    if shape == 'many documents':
        ws = [kword(s, f'w{i}')[0] for i in range(3)]
        n = s.pick('documents', [400] if s.tier == 'quick' else [400, 1500] + near(s, 5, 300))
        cls = [(docid(s, f'd{i}', rank=i), [w for j, w in enumerate(ws) if i % (j + 2)])
               for i in range(n)]
    else:
        n = s.pick('keywords', [60] + near(s, 5, 260))
        ws = [kword(s, f'w{i}')[0] for i in range(n - s.pick('fewer', [0, 1]))]
        cls = crowd(s, ws)
    cls = [(d, m) for d, m in cls if m]
    k = Words(s, cls, kinds=lambda w: 'TreeSet' if shape == 'many documents' else 'Set')
    op = s.pick('operator', ['and', 'or'])
    arg = E.ListObj(ws)
    s.settle(k.o, arg)
    r = s.run(k.o, 'search', arg, op)
    want = expected(cls, ws, op)
    s.check('C05', isinstance(r, (E.SetObj, E.MapObj)) and s.same_keys(r, want),
            f'search for {len(ws)} keywords ({op}) in {len(cls)} documents finds '
            f'{s.keys(r)}, should be {want}')


@scenario('C06', 'C07', mains='C06 C07', entry='TopicIndex with many filters')
def topic_many(s):
    n, pick = size(s, 'filters', [5, 40], [12, 80], 130)
    ids = [s.ctx.elem(f'f{i}', 'filterid', 'str')[0] for i in range(n)]
    exprs = [s.ctx.elem(f'e{i}', 'expr', 'str')[0] for i in range(n)]
    d = docid(s, 'd')
    obj = s.ctx.elem('obj', 'object', 'obj')[0]
    mod = pick('expressions true for', [1, 2, 3, n + 1])
    truth = {E.hk(e): i % mod == 0 for i, e in enumerate(exprs)}
    old = pick('d is in', [1, 2, n + 1])
    o = docid(s, 'o')
    pre = [[o] + ([d] if i % old == 0 else []) for i in range(n)]
    t = Topic(s, list(zip(ids, exprs, pre)))
    s.ctx.hooks['eval'] = lambda ip, expr, env: truth[E.hk(expr)]
    s.settle(t.o)
    op = pick('operation', ['index_doc', 'unindex_doc'], 2)
    s.run(t.o, op, *([d, obj] if op == 'index_doc' else [d]))
    now = {}
    for i, f in enumerate(t.f):
        now[i] = [o] + ([d] if op == 'index_doc' and truth[E.hk(exprs[i])] else [])
        got = t.ids(f)
        s.check('C06', s.same_keys(got, now[i]), f'after {op} filter {i + 1} of {n} contains '
                f'{s.keys(got)}, should be {now[i]}')
    if s.prop == 'C07':
        how = pick('operator', ['and', 'or'], 2)
        q = ids[:n - 2]
        r = s.run(t.o, 'search', E.ListObj(q), how)
        some_ = [d in now[i] for i in range(n - 2)]
        want = [o] + ([d] if (all if how == 'and' else any)(some_) else [])
        s.check('C07', s.same_keys(r, want),
                f'search of {n - 2} filters ({how}) finds {s.keys(r)}, should be {want}')


@scenario('C29', mains='C29', entry='TextIndex.apply, many documents')
def textindex_many(s):
    n, pick = size(s, 'documents', [12], [60, 300], 10001)
    s.ctx.hooks['loop_max'] = 50000
    f = Fake(s)
    o = s.create(TX, f.lex, f.index)
    res = s.container('IF', pick('result', ['Bucket', 'BTree']), label='result')
    least = pick('scores from', [1, -2, 10 ** 6])
    docs = [docid(s, f'd{i}', rank=i) for i in range(n)]
    for i, d in enumerate(docs):
        res.d[E.hk(d)] = (d, Num.const(least + i % 7))
    w = pick('weight', [4, 1, 0, Fraction(1, 10 ** 9), 10 ** 9])
    f.ret['executeQuery'] = lambda a: res
    f.ret['query_weight'] = lambda a: Num.const(w)
    s.settle(o, f.lex, f.index, f.tree, f.terms)
    r = s.run(o, 'apply', text(s, 'query'), *pick('arguments', [(), (0, 10), (10,)]))
    s.check('C29', s.same_keys(r, docs), f'of {n} documents found apply() returns '
            f'{len(s.keys(r) or ())}')
    for i, d in enumerate(docs):
        want = Num.const(Fraction(least + i % 7) / (w or 1))
        s.check('C29', s.same_num(r.d[E.hk(d)][1], want), f'of {n} documents number {i + 1} has '
                f'the score {r.d[E.hk(d)][1]!r}, should be {want}')


@scenario('C23', mains='C23', entry='NBest.addmany, getbest, pop_smallest')
def nbest_many(s):
    """Collections of any size, fed with given scores in various orders."""
    n, pick = size(s, 'capacity', [7, 30], [9, 100], 1100)
    m = pick('items', [2 * n + 3, n, n // 2, n + 1])
    order = pick('scores', ['mixed', 'rising', 'falling', 'many equal'])
    sc = {'mixed': lambda i: (i * 7919 + 13) % 4001, 'rising': lambda i: i,
          'falling': lambda i: m - i, 'many equal': lambda i: i % 3}[order]
    items = [docid(s, f'i{i}', rank=i) for i in range(m)]
    o = s.create(NB, n)
    s.ctx.hooks['while_bound'] = 4 * m + 50
    half = pick('in bulk', [m, m // 2, 0])
    s.run(o, 'addmany', E.ListObj([(items[i], sc(i)) for i in range(half)]))
    for i in range(half, m):
        s.run(o, 'add', items[i], sc(i))
    got = s.ip.single_items(s.run(o, 'getbest'))
    want = sorted((sc(i) for i in range(m)), reverse=True)[:n]
    s.check('C23', [x for _, x in got] == want and len({id(d) for d, _ in got}) == len(got) and
            all(sc(d.rank) == x for d, x in got),
            f'the best {n} of {m} items are {got[:9]}..., scores should be {want[:9]}...')
    s.check('C23', s.same_num(s.run(o, '__len__'), len(want)),
            f'the length is not {len(want)} for capacity {n} and {m} items')
    for x in want[::-1][:3]:
        v = s.run(o, 'pop_smallest')
        s.check('C23', isinstance(v, tuple) and len(v) == 2 and v[1] == x and sc(v[0].rank) == x,
                f'pop_smallest() of {m} items in a collection of {n} is {v}, score should be {x}')
