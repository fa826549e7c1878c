"""Scores of text searches (C24, C28), the C scorer (C25) and the rules for text queries."""
import os
import re
from fractions import Fraction

import ccheck
import engine as E
from num import Num, to_num
from props_field import docid, some
from props_text import CO, OK, Text, containers, log, sqrt, text, wid
from scen import Violated, scenario

K1, B = Num.const(Fraction(6, 5)), Num.const(Fraction(3, 4))
ONE = Num.const(1)


def c_source(s):
    return os.path.join(s.prog.root, 'zope', 'index', 'text', 'okascore.c')


def c_scorer(s):
    """Calls of the C extension run its syntax tree."""
    def call(ip, a, kw):
        try:
            return ccheck.CInterp(ip, c_source(s)).call_method('score', a)
        except ccheck.CBug as b:
            raise Violated(b.msg, b.loc)
    s.ctx.hooks.setdefault('ext', {})['zope.index.text.okascore.score'] = call


def bm25(f, ln, avg, idf):
    return (f * (K1 + ONE)).div(f + K1 * ((ONE - B) + (B * ln).div(avg))) * idf


class Query:
    """Expected scores over a Text state."""

    def __init__(self, s, t):
        self.s, self.t = s, t
        st = t.state()
        self.st = st
        _, self.n, self.length = t.counts(st)

    def docs(self, w):
        e = self.st['wordinfo'].get(E.hk(w))
        return e[1] if e else {}

    def idf(self, w):
        n = Num.const(0)
        for d, _ in self.docs(w).values():
            n = n + self.s.ip.key_card(d)
        return log(self.s, ONE + self.n.div(n))

    def score(self, w, d):
        f = to_num(self.docs(w)[E.hk(d)][1])
        if self.t.kind == CO:
            return f * self.idf(w)
        ln = to_num(self.st['docweight'][E.hk(d)][1])
        return bm25(f, ln, self.length.div(self.n), self.idf(w))

    def union(self, wids):
        out = {}
        for w in wids:
            for k, (d, _) in self.docs(w).items():
                x = self.score(w, d)
                out[k] = (d, out[k][1] + x if k in out else x)
        return out

    def weight(self, wids):
        t = Num.const(0)
        for w in wids:
            if not self.docs(w):
                continue
            i = self.idf(w)
            t = t + (i * i if self.t.kind == CO else i * (ONE + K1))
        if self.t.kind == CO:
            return sqrt(self.s, t)
        return t


def check_scores(s, P, r, want, what):
    s.check(P, isinstance(r, E.MapObj) and s.same_keys(r, [d for d, _ in want.values()]),
            f'{what} finds {s.keys(r)}, should be {[d for d, _ in want.values()]}')
    if s.prop not in P.split():
        return
    s.rule_scores(P, r, what)
    for k, (d, x) in want.items():
        s.check(P, s.same_num(r.d[k][1], x),
                f'{what} scores {d!r} with {r.d[k][1]!r}, should be {x}')


def query_state(s, kind):
    """A state with words a and b, and the wids a query asks for."""
    a, b = wid(s, 'a')[0], wid(s, 'b')[0]
    oov = wid(s, 'unused')[0]
    wids = s.pick('query words', [[a], [a, b], [a, a], [a, oov], [0, a], [a, oov, b, 0], [oov],
                                  [0], []])
    other = []
    use = [w for w in (a, b) if any(w is x for x in wids)]
    if use:
        other += [(x, use) for x in some(s, 'docs_all')]
    if len(use) == 2:
        for w in use:
            other += [(x, [w]) for x in some(s, f'docs_{w.name}')]
    rest = [x for x in (a, b) if not any(w is x for _, ws in other for w in ws)]
    if s.yes('other documents'):
        other += [(x, [wid(s, 'c')[0]]) for x in some(s, 'docs_other')]
    legacy = kind == OK and s.tier != 'quick' and s.yes('stored with plain counters')
    t = Text(s, kind, [], other, containers=containers(s))
    if kind == OK and not legacy and s.yes('length not upgraded'):
        t.o.attrs['_totaldoclen'] = t.o.attrs['_totaldoclen'].value
    return t, wids


def prop_of(kind):
    return 'C28' if kind == CO else 'C24'


def text_search(s, kind):
    c_scorer(s)
    P = prop_of(kind)
    t, wids = query_state(s, kind)
    q = Query(s, t)
    term = text(s, 'term')
    op = s.pick('operation', ['search', 'search_glob'])
    t.lex.tables['termToWordIds' if op == 'search' else 'globToWordIds', E.hk(term)] = wids
    s.settle(t.o)
    r = s.run(t.o, op, term, props=P)
    what = f'{op} for {wids}'
    if op == 'search' and not wids:
        s.check(P, r is None, f'{what} returns {r!r}, should be None')
    else:
        check_scores(s, P, r, q.union(wids), what)
        s.rule_result_family(r, what)
    s.rule_pure('C11', what)
    s.rule_fresh('C12', r, what, t.o)
    s.rule_family()


def query_weight(s, kind):
    c_scorer(s)
    P = prop_of(kind)
    t, wids = query_state(s, kind)
    q = Query(s, t)
    terms = [text(s, 'term1'), text(s, 'term2')]
    cut = s.pick('words of the first term', list(range(len(wids) + 1)))
    for x, ws in zip(terms, (wids[:cut], wids[cut:])):
        t.lex.tables['termToWordIds', E.hk(x)] = ws
    how = s.pick('terms are', ['list', 'none']) if not wids else 'list'
    arg = E.ListObj(terms if how == 'list' else [], label='terms')
    s.settle(t.o, arg)
    r = s.run(t.o, 'query_weight', arg, props=P)
    s.check(P, s.same_num(r, q.weight(wids)),
            f'query_weight for {wids} is {r!r}, should be {q.weight(wids)}')
    s.rule_pure('C11', 'query_weight')
    s.rule_family()


@scenario('C24', 'C11', 'C12', 'C13', mains='C24', entry='OkapiIndex.search, C scorer')
def okapi_search_c(s):
    text_search(s, OK)


@scenario('C24', 'C11', 'C12', 'C13', mains='C24', entry='OkapiIndex.search, Python scorer',
          pure=True)
def okapi_search_python(s):
    text_search(s, OK)


@scenario('C24', 'C11', 'C13', mains='C24', entry='OkapiIndex.query_weight')
def okapi_query_weight(s):
    query_weight(s, OK)


@scenario('C28', 'C11', 'C12', 'C13', mains='C28', entry='CosineIndex.search')
def cosine_search(s):
    text_search(s, CO)


@scenario('C28', 'C11', 'C13', mains='C28', entry='CosineIndex.query_weight')
def cosine_query_weight(s):
    query_weight(s, CO)


def many(s):
    """Sizes around the integers in the C source."""
    with open(c_source(s)) as h:
        src = re.sub(r'/\*.*?\*/|"(\\.|[^"\\])*"', ' ', h.read(), flags=re.S)
    found = {int(x, 0) for x in re.findall(r'(?<![\w.])(0x[0-9a-fA-F]+|[1-9][0-9]*)(?![\w.])', src)}
    return sorted({130} | {c + i for c in found for i in (0, 1) if 3 <= c <= 5000})


@scenario('C25', 'C24', mains='C25 C24', entry='okascore.c score()')
def c_score(s):
    """Every path through the C function, every call succeeding or failing."""
    inject = s.prop == 'C25'
    n = s.pick('items', [0, 1, 2] + ([3] if s.tier != 'quick' else []) +
               ([] if inject else many(s)))
    items, docs, want, bad = [], [], [], False
    d2len = s.container('IF', 'BTree', label='d2len')
    result = s.container('IF', 'Bucket', label='result')
    idf, avg = s.ctx.natom('idf', 0), s.ctx.natom('meandoclen', 0, None)
    if n > 10:
        s.ctx.hooks['while_bound'] = s.ctx.hooks['loop_max'] = n + 9
        idf, avg = Num.const(Fraction(3, 2)), Num.const(Fraction(49, 2))
    for i in range(n):
        d = docid(s, f'd{i}')
        f, ln = s.ctx.natom(f'f{i}'), s.ctx.natom(f'len{i}')
        if n > 10:
            f, ln = Num.const(1 + 7 * i % 5), Num.const(20 + 3 * i % 11)
        kind = 'pair'
        if inject and not bad:
            kind = s.pick(f'item {i} is', ['pair', 'no tuple', 'tuple of 1', 'tuple of 3',
                                           'list of 2'])
        if kind == 'pair':
            items.append((d, f))
        else:
            bad = True
            items.append({'no tuple': s.ctx.elem(f'x{i}', 'x', 'obj')[0], 'tuple of 1': (d,),
                          'tuple of 3': (d, f, f), 'list of 2': E.ListObj([d, f])}[kind])
        d2len.d[E.hk(d)] = (d, ln)
        want.append((d, bm25(f, ln, avg, idf)))
    c = ccheck.CInterp(s.ip, c_source(s), inject)
    c.limit = max(400, 3 * n)
    lst = E.ListObj(items)
    s.settle(lst, d2len)
    try:
        try:
            r = c.call_method('score', [result, lst, d2len, idf, avg])
        except E.RaiseEx as e:
            s.check('C25', c.failed, f'an error is reported although nothing failed: {e.exc}')
            s.check('C24', False, f'score() raises {e.exc!r}')
            return
    except ccheck.CBug as b:
        s.check('C25 C24', False, b.msg, b.loc)
        return
    s.check('C24', r is None, f'score() returns {r!r}')
    s.check('C24', s.same_keys(result, [d for d, _ in want]),
            f'{s.keys(result)} are scored, should be {[d for d, _ in want]}')
    if s.prop == 'C24':
        for d, x in want:
            v = result.d[E.hk(d)][1]
            s.check('C24', s.same_num(v, x), f'score() gives {v}, should be {x}')
        s.rule_pure('C24', 'score()', allow=())
    s.check('C25', True, 'success')
