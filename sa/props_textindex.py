"""TextIndex (C29) and the rules for it."""
import engine as E
from num import Num, to_num
from props_field import docid, some
from props_text import OK, CO, text
from scen import reach, scenario

TX = 'zope.index.text.textindex.TextIndex'


class Fake:
    """The underlying index, the parser and the tree as the text index sees them."""

    def __init__(self, s):
        self.s = s
        self.calls = []
        self.lex = E.StubObj('lexicon')
        self.own = E.StubObj('lexicon of the index')
        self.index = E.StubObj('underlying index')
        self.index.attrs['lexicon'] = self.own
        self.index.attrs['family'] = s.family()
        self.tree = E.StubObj('tree')
        t1, t2 = text(s, 'term1'), text(s, 'term2')
        self.terms = E.ListObj([t1, t2], origin='pre', label='terms')
        self.pair = t1, t2
        self.ret = {}
        for n in ('index_doc', 'unindex_doc', 'clear', 'documentCount', 'wordCount',
                  'query_weight', 'has_doc'):
            self.index.attrs[n] = self.native(n)
        self.tree.attrs['executeQuery'] = self.native('executeQuery')
        self.tree.attrs['terms'] = self.native('terms')
        self.ret['terms'] = lambda a: self.terms
        self.parsed = []
        s.ctx.hooks.setdefault('summaries', {})['parseQuery'] = self.parse

    def native(self, name):
        def f(ip, a, kw):
            self.calls.append((name, list(a), dict(kw)))
            r = self.ret.get(name)
            return r(a) if r else None
        return E.NativeV(name, f)

    def parse(self, ip, f, vals):
        if not f.mod.name.endswith('.queryparser'):
            return E.MISSING
        me = list(vals.values())[0]
        self.parsed.append((me, [v for v in vals.values()][1]))
        return self.tree


@scenario('C29', 'C11', mains='C29', entry='TextIndex.apply')
def textindex_apply(s):
    f = Fake(s)
    o = s.create(TX, f.lex, f.index)
    times = s.pick('queries', [1, 2])
    q = text(s, 'query')
    for i in range(times):
        f.parsed.clear()
        f.calls.clear()
        kind = s.pick(f'result {i + 1}', ['none', 'empty', 'documents'])
        scores = {}
        res = None
        if kind != 'none':
            res = s.container('IF', s.pick(f'result {i + 1} is', ['Bucket', 'BTree']),
                              label='result')
            if kind == 'documents':
                for n in ('x', 'y')[:s.pick('classes', [1, 2])]:
                    for d in some(s, f'{n}{i}'):
                        v = s.ctx.natom(f'score[{d.name}]', of=d)
                        scores[E.hk(d)] = (d, v)
                        res.d[E.hk(d)] = (d, v)
        w = s.pick(f'weight {i + 1} of the terms', [0, None]) if kind == 'documents' else None
        if w is None:
            w = s.ctx.natom(f'weight{i}', None, None, of=None)
            w = Num.atom(next(iter(w.atoms())))
            next(iter(w.atoms())).lo = 0
            next(iter(w.atoms())).strict = True
        s.ctx.hooks['nonzero'] = lambda y: True
        f.ret['executeQuery'] = lambda a: res
        f.ret['query_weight'] = lambda a: w
        extra = s.pick('arguments', [(), (0, 10)]) if i == 0 else ()
        if i == 0 and kind == 'documents' and not extra and s.yes('a term twice'):
            f.terms = E.ListObj([f.pair[0], f.pair[1], f.pair[0]], origin='pre', label='terms')
        s.settle(o, f.lex, f.index, f.tree, f.terms)
        k, r = s.op(o, 'apply', q, *extra)
        if k == 'raise':
            s.unexpected(r, 'apply')
        P = 'C29'
        what = f'apply() number {i + 1}'
        ex = [c for c in f.calls if c[0] == 'executeQuery']
        s.check(P, f.parsed and all(x[1] is q for x in f.parsed),
                f'{what} parses {[x[1] for x in f.parsed]}')
        s.check(P, f.parsed and all(any(y is f.lex for y in reach(x[0])) for x in f.parsed),
                f'{what} parses with a lexicon other than that of the index')
        s.check(P, ex and all(c[1] and c[1][0] is f.index for c in ex),
                f'{what} evaluates the query on {[c[1] for c in ex]}')
        for c in f.calls:
            if c[0] == 'query_weight':
                s.check(P, s.same_keys(c[1][0], s.keys(f.terms)),
                        f'{what} weighs the terms {s.keys(c[1][0])}')
        s.check(P, not [c for c in f.calls if c[0] in ('index_doc', 'unindex_doc', 'clear')],
                f'{what} modifies the index')
        s.check('C11', not [c for c in f.calls if c[0] in ('index_doc', 'unindex_doc', 'clear')],
                f'{what} modifies the index')
        if kind == 'none':
            s.check(P, r is None or s.same_keys(r, []), f'{what} returns {r!r}')
        else:
            s.check(P, s.same_keys(r, [d for d, _ in scores.values()]),
                    f'{what} finds {s.keys(r)}, should be {[d for d, _ in scores.values()]}')
            zero = s.same_num(w, 0)
            for h, (d, v) in scores.items():
                want = v if zero else v.div(to_num(w))
                s.check(P, isinstance(r, E.MapObj) and s.same_num(r.d[h][1], want),
                        f'{what} scores {d!r} with {r.d[h][1]!r}, should be {want}')
        s.rule_pure('C11', what)


@scenario('C29', 'C14', 'C15', mains='C29', entry='TextIndex, delegation')
def textindex_delegates(s):
    f = Fake(s)
    o = s.create(TX, f.lex, f.index)
    d, src = docid(s, 'd'), text(s, 'text')
    n = s.ctx.natom('n', 0, None, True)
    f.ret['documentCount'] = f.ret['wordCount'] = lambda a: n
    m, args = s.pick('operation', [('index_doc', (d, src)), ('unindex_doc', (d,)), ('clear', ()),
                                   ('documentCount', ()), ('wordCount', ())])
    s.settle(o, f.lex, f.index)
    for i in range(s.pick('times', [1, 2])):
        f.calls.clear()
        r = s.run(o, m, *args)
        did = [c for c in f.calls if c[0] == m or
               c[0] not in ('documentCount', 'wordCount', 'has_doc')]
        ok = (len(did) == 1 or did and m.endswith('Count')) and all(
            c[0] == m and len(c[1]) + len(c[2]) == len(args) and
            all(x is y for x, y in zip(c[1], args)) and
            all(any(x is y for y in args) for x in c[2].values()) for c in did)
        s.check('C29', ok, f'{m}() calls {f.calls} of the underlying index')
        if m.endswith('Count'):
            s.check('C29', s.same_num(r, n), f'{m}() returns {r}')
    s.rule_persist(o)
    s.rule_counters(m)


@scenario('C29', 'C13', mains='C29', entry='TextIndex.__init__')
def textindex_create(s):
    f = Fake(s)
    lex = s.pick('lexicon', [f.lex, None])
    index = s.pick('index', [f.index, None])
    o = s.create(TX, lex, index)
    P = 'C29'
    for a in ('lexicon', 'index'):
        if a not in o.attrs and not o.cls.lookup(a):
            raise LookupError(f'TextIndex.{a}')
    gi, gl = s.run(s.ip.getattr, None, o, 'index') if False else s.ip.getattr(o, 'index'), \
        s.ip.getattr(o, 'lexicon')
    if index is not None:
        s.check(P, gi is index, f'the given index is replaced by {gi!r}')
        s.check(P, gl is (lex if lex is not None else f.own), f'the lexicon is {gl!r}')
        return
    s.check(P, isinstance(gi, E.InstObj), f'the index is {gi!r}')
    il = s.ip.getattr(gi, 'lexicon')
    s.check(P, gl is il, f'text index and index have lexicons {gl!r} and {il!r}')
    if lex is not None:
        s.check(P, gl is lex, f'the given lexicon is replaced by {gl!r}')
    else:
        s.check(P, isinstance(gl, E.InstObj) and gl.cls.lookup('sourceToWordIds'),
                f'the lexicon is {gl!r}')
    o2 = s.create(TX)
    s.check(P, s.ip.getattr(o2, 'index') is not gi and s.ip.getattr(o2, 'lexicon') is not il,
            'two text indexes share their state')
