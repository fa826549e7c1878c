"""KeywordIndex (C04, C05) and TopicIndex (C06, C07)."""
import engine as E
from engine import It
from num import Num
from props_field import anchor, counter, docid, put, some, total
from scen import reach, scenario

KI = 'zope.index.keyword.index.KeywordIndex'
CI = 'zope.index.keyword.index.CaseInsensitiveKeywordIndex'
TI = 'zope.index.topic.index.TopicIndex'
PF = 'zope.index.topic.filter.PythonFilteredSet'
FB = 'zope.index.topic.filter.FilteredSetBase'


class Words:
    """words: doc -> list of normalized words."""

    def __init__(self, s, rev, dotted=KI, kinds=None):
        self.s = s
        self.o = s.create(dotted, family=s.family())
        anchor(self.o, '_fwd_index', '_rev_index', '_num_docs')
        self.rev = {E.hk(d): (d, {E.hk(w): w for w in ws}) for d, ws in rev}
        f, r = self.o.attrs['_fwd_index'], self.o.attrs['_rev_index']
        for w in self.words():
            k = kinds(w) if kinds else 'Set'
            o = s.container('IF', k, self.docs_of(w), f'_fwd_index[{w!r}]')
            if w.root().multi:
                o.per = frozenset([w.root()])
            put(f, w, o)
        for d, ws in rev:
            o = s.container('OO', 'Set', ws, f'_rev_index[{d!r}]')
            if d.root().multi:
                o.per = frozenset([d.root()])
            put(r, d, o)
        f.label, r.label = '_fwd_index', '_rev_index'
        self.o.attrs['_num_docs'].label = '_num_docs'
        self.n0 = counter(s, self.o.attrs['_num_docs'],
                          total(s, [d for d, _ in rev]), 'documents')
        self.o.label = 'index'

    def words(self):
        out = {}
        for _, ws in self.rev.values():
            out.update(ws)
        return list(out.values())

    def docs_of(self, w):
        return [d for d, ws in self.rev.values() if E.hk(w) in ws]

    def verify(self, what, delta=None):
        s, o, P = self.s, self.o, 'C04'
        f, r = o.attrs.get('_fwd_index'), o.attrs.get('_rev_index')
        docs = [d for d, _ in self.rev.values()]
        if s.prop == P:
            s.check(P, s.same_keys(r, docs),
                    f'after {what} the documents are {s.keys(r)}, should be {docs}')
            for k, (d, ws) in self.rev.items():
                got = r.d[k][1]
                s.check(P, s.same_keys(got, ws.values()),
                        f'after {what} the keywords of {d!r} are {s.keys(got)}, '
                        f'should be {list(ws.values())}')
            s.check(P, s.same_keys(f, self.words()),
                    f'after {what} the keywords in use are {s.keys(f)}, '
                    f'should be {self.words()}')
            for w in self.words():
                got = f.d[E.hk(w)][1]
                s.check(P, s.same_keys(got, self.docs_of(w)),
                        f'after {what} the documents with keyword {w!r} are {s.keys(got)}, '
                        f'should be {self.docs_of(w)}')
            for n, m in ((total(s, docs), 'documentCount'), (total(s, self.words()), 'wordCount')):
                got = s.run(o, m)
                s.check(P, s.same_num(got, n), f'after {what} {m}() is {got}, not {n}')
        if s.prop == 'C15' and delta is not None:
            ln = o.attrs.get('_num_docs')
            want = self.n0 + delta
            s.check('C15', isinstance(ln, E.LenObj) and s.same_num(ln.value, want),
                    f'{what} turns the document counter {self.n0} into {ln!r}, should be {want}')
        if s.prop == 'C13':
            for _, x in f.d.values():
                s.rule_result_family(x, what)
            s.rule_result_family(r, what)

    def rules(self, what, delta=None):
        self.s.rule_family()
        self.s.rule_persist(self.o)
        self.s.rule_counters(what)
        self.verify(what, delta)


def word(s, name, multi=False, **kw):
    return s.ctx.elem(name, 'word', 'str', multi=multi, falsy=False, **kw)


def words_state(s):
    """(d, rev, words of d that go, that stay, new words)."""
    d = docid(s, 'd')
    rev, gone, stay, fresh = [], [], [], []
    full = s.tier != 'quick'
    opts = ['none', 'own', 'shared'] + (['own and shared'] if full else [])
    if s.yes('d is indexed'):
        k1 = s.pick('keywords that go', opts)
        k2 = s.pick('keywords that stay', opts)
        for k, name, out in ((k1, 'gone', gone), (k2, 'stay', stay)):
            if 'own' in k:
                out += word(s, name, True)
            if 'shared' in k:
                w = word(s, name + '_shared', True)
                out += w
                rev.append((some(s, 'sharing_' + name)[0], w))
        if not gone and not stay:
            raise E.Infeasible()
        rev.append((d, gone + stay))
    k3 = s.pick('keywords that are new', ['none', 'unknown', 'known'] +
                (['both'] if full else []))
    if k3 in ('unknown', 'both'):
        fresh += word(s, 'new', True)
    if k3 in ('known', 'both'):
        w = word(s, 'new_known', True)
        fresh += w
        rev.append((some(s, 'having_new')[0], w))
    if s.prop == 'C04' and s.yes('unrelated documents'):
        rev.append((some(s, 'others')[0], word(s, 'unrelated', True)))
    return d, rev, gone, stay, fresh


@scenario('C04', 'C13', 'C14', 'C15', mains='C04', entry='KeywordIndex.index_doc')
def keyword_index_doc(s):
    d, rev, gone, stay, fresh = words_state(s)
    kind = s.pick('stored sets', ['Set', 'TreeSet'])
    k = Words(s, rev, kinds=lambda w: kind)
    new = stay + fresh
    how = s.pick('keywords given as', ['list', 'tuple with repetition', 'Set'])
    if how == 'Set':
        arg = E.SetObj((None, 'OO', 'Set'), new)
    elif how == 'list':
        arg = E.ListObj(new)
    else:
        arg = tuple(new + new[:1])
    s.settle(k.o, arg)
    s.run(k.o, 'index_doc', d, arg)
    known = E.hk(d) in k.rev
    k.rev.pop(E.hk(d), None)
    if new:
        k.rev[E.hk(d)] = (d, {E.hk(w): w for w in new})
    if isinstance(arg, E.Obj):
        s.check('C04', all(x is not arg for x in reach(k.o)),
                'index_doc keeps the collection of keywords it was given, so changing that '
                'later changes the index')
    k.rules('index_doc', Num.const(bool(new) - known))


@scenario('C04', 'C13', 'C14', 'C15', mains='C04', entry='KeywordIndex.unindex_doc')
def keyword_unindex_doc(s):
    d, rev, gone, stay, fresh = words_state(s)
    kind = s.pick('stored sets', ['Set', 'TreeSet'])
    k = Words(s, rev, kinds=lambda w: kind)
    s.settle(k.o)
    s.run(k.o, 'unindex_doc', d)
    known = k.rev.pop(E.hk(d), None) is not None
    k.rules('unindex_doc', Num.const(-known))
    if s.prop == 'C04':
        for x, want in [(d, False)] + [(x, True) for x, _ in k.rev.values()]:
            s.check('C04', s.run(k.o, 'has_doc', x) is want, f'has_doc({x!r}) is not {want}')


def normalizer(s, o, table):
    """Give o a normalize() described by table: raw word -> list of normalized words."""
    def norm(ip, a, kw):
        out = []
        for it in ip.iter_items(a[0]):
            out += table[E.hk(it.v)]
        return ip.new(E.ListObj(out))
    o.attrs['normalize'] = E.NativeV('normalize', norm)


@scenario('C04', 'C15', mains='C04', entry='KeywordIndex.index_doc')
def keyword_normalize(s):
    """Keywords count as normalized; two may become one and some none."""
    d = docid(s, 'd')
    n1, n2 = word(s, 'n1')[0], word(s, 'n2')[0]
    raws = {n1: [word(s, 'N1a')[0], word(s, 'N1b')[0]], n2: [word(s, 'N2')[0]],
            None: [word(s, 'void')[0]]}
    old = s.pick('old normalized keywords', [(), (n1,), (n1, n2)])
    rev = [(d, list(old))] if old else []
    if s.yes('another document with n1'):
        rev.append((some(s, 'others')[0], [n1]))
    variant = s.pick('index', ['subclass', 'case insensitive'])
    k = Words(s, rev, CI if variant == 'case insensitive' else KI)
    given = []
    if s.yes('first form of n1'):
        given.append(raws[n1][0])
    if s.yes('second form of n1'):
        given.append(raws[n1][1])
    if s.yes('a form of n2'):
        given.append(raws[n2][0])
    if variant == 'subclass':
        if s.yes('a keyword that normalizes to nothing'):
            given.append(raws[None][0])
        normalizer(s, k.o, {E.hk(r): ([n] if n is not None else [])
                            for n, rs in raws.items() for r in rs})
    else:
        lower(s, {r: n for n, rs in raws.items() if n is not None for r in rs})
    want = {E.hk(n): n for n, rs in raws.items() if n is not None and
            any(r in given for r in rs)}
    s.settle(k.o)
    s.run(k.o, 'index_doc', d, E.ListObj(given) if s.yes('given as list') else tuple(given))
    known = E.hk(d) in k.rev
    k.rev.pop(E.hk(d), None)
    if want:
        k.rev[E.hk(d)] = (d, want)
    k.rules('index_doc', Num.const(bool(want) - known))


def lower(s, table):
    for r, n in table.items():
        s.ctx.derived[(r.uid, 'lower')] = n
        s.ctx.derived[(n.uid, 'lower')] = n


@scenario('C04', 'C13', 'C14', mains='C04', entry='KeywordIndex.optimize')
def keyword_optimize(s):
    ws = [word(s, 'w1', True)[0], word(s, 'w2')[0], word(s, 'w3')[0]]
    rev = [(some(s, 'docs_12')[0], ws[:2])]
    if s.yes('documents with w3'):
        rev.append((some(s, 'docs_23')[0], ws[1:]))
    kinds = {E.hk(w): s.pick(f'set of {w!r}', ['Set', 'TreeSet']) for w in ws}
    k = Words(s, rev, kinds=lambda w: kinds[E.hk(w)])
    if s.yes('threshold changed'):
        k.o.attrs['tree_threshold'] = s.pick('threshold', [1, 2, 1000])
    s.settle(k.o)
    s.run(k.o, 'optimize')
    k.rules('optimize', Num.const(0))


# ---------------------------------------------------------------- keyword search

def classes(s, names, prefix, sort='docid'):
    """Classes of documents by the set of names they belong to."""
    out = []
    n = len(names)
    subsets = [m for m in range(1, 2 ** n)]
    if n < 3:
        present = [m for m in subsets if s.yes('documents in ' + tag(names, m))]
    else:
        shape = s.pick('documents', ['all combinations', 'none in all', 'single only',
                                     'in all only', 'pairs'])
        c = lambda m: bin(m).count('1')         # noqa: E731
        present = {'all combinations': subsets,
                   'none in all': [m for m in subsets if c(m) < n],
                   'single only': [m for m in subsets if c(m) == 1],
                   'in all only': [subsets[-1]],
                   'pairs': [m for m in subsets if c(m) == 2]}[shape]
    for m in present:
        mem = [x for i, x in enumerate(names) if m >> i & 1]
        for e in some(s, prefix + tag(names, m)):
            out.append((e, mem))
    return out


def tag(names, m):
    return '+'.join(getattr(x, 'name', str(x)) for i, x in enumerate(names) if m >> i & 1)


def expected(cls, words, op):
    """Documents carrying all / any of the words."""
    hs = [E.hk(w) for w in words]
    out = []
    for e, mem in cls:
        m = {E.hk(x) for x in mem}
        if op == 'or' and any(h in m for h in hs) or \
                op == 'and' and hs and all(h in m for h in hs):
            out.append(e)
    return out


def crowd(s, names, pick=None):
    """Many names: documents in all, in all but one, in one only, in two; sizes up or down."""
    n = len(names)
    out = [('all', names)]
    shape = (pick or s.pick)('documents', (['a few'] if pick else []) + [
        'all but one', 'one only', 'sizes up', 'sizes down', 'one common'])
    if shape == 'a few':
        at = sorted({0, 1, n // 2, n - 2, n - 1})
        out += [(f'no{i}', names[:i] + names[i + 1:]) for i in at] + \
            [(f'only{i}', [names[i]]) for i in at]
    elif shape == 'all but one':
        out += [(f'no{i}', names[:i] + names[i + 1:]) for i in range(n)]
    elif shape == 'one only':
        out = [(f'only{i}', [x]) for i, x in enumerate(names)]
    elif shape == 'one common':
        out = [(f'first{i}', [names[0], x]) for i, x in enumerate(names[1:])]
    else:
        up = names if shape == 'sizes up' else names[::-1]
        out += [(f'from{i}', up[i:]) for i in range(1, n)] + [('mid', [up[n // 2]])]
    return [(s.ctx.elem(f'd_{k}', 'docid', 'int', rank=i + 1, falsy=False)[0], m)
            for i, (k, m) in enumerate(out)]


def check_result(s, P, idx, what, r, want):
    s.check(P, isinstance(r, (E.SetObj, E.MapObj)) and s.same_keys(r, want),
            f'{what} returns {s.keys(r) if r is not None else None}, should be {want}')
    s.rule_pure('C11', what)
    s.rule_fresh('C12', r, what, idx)
    s.rule_family()
    s.rule_result_family(r, what)


@scenario('C05', 'C11', 'C12', 'C13', mains='C05', entry='KeywordIndex.search')
def keyword_search(s):
    n = s.pick('known words', [1, 2, 3])
    ws = [word(s, f'w{i + 1}')[0] for i in range(n)]
    cls = classes(s, ws, 'docs_')
    kind = s.pick('stored sets', ['Set', 'TreeSet'] if s.prop == 'C12' or n < 3 else ['Set'])
    k = Words(s, cls, kinds=lambda w: kind)
    unknown = word(s, 'unknown')[0]
    q = [w for w in ws]
    shape = s.pick('query', ['all', 'with unknown', 'with repetition', 'reversed'] +
                   (['empty', 'unknown only', 'first only'] if n == 2 else []))
    q = {'all': ws, 'with unknown': ws[:1] + [unknown] + ws[1:],
         'with repetition': ws + ws[:1], 'reversed': ws[::-1], 'empty': [],
         'unknown only': [unknown], 'first only': ws[:1]}[shape]
    op = s.pick('operator', ['and', 'or', None])
    arg = E.ListObj(q) if s.pick('query type', ['list', 'tuple']) == 'list' else tuple(q)
    s.settle(k.o, arg)
    via = s.pick('called through', ['search', 'apply', 'apply dict'])
    what = f'{via}({q}, {op})'
    if via == 'search':
        r = s.run(k.o, 'search', arg, *([op] if op else []))
    elif via == 'apply':
        if op:
            raise E.Infeasible()
        r = s.run(k.o, 'apply', arg)
    else:
        m = E.MapObj(None, [('query', arg)] + ([('operator', op)] if op else []))
        s.settle(k.o, arg, m)
        r = s.run(k.o, 'apply', m)
    check_result(s, 'C05', k.o, what, r, expected(cls, q, op or 'and'))


@scenario('C05', 'C11', 'C12', mains='C05', entry='KeywordIndex.search')
def keyword_search_many(s):
    n = s.pick('known words', [4, 6, 9] if s.tier == 'quick' else [4, 5, 6, 7, 9, 12, 17])
    ws = [word(s, f'w{i + 1}')[0] for i in range(n)]
    cls = crowd(s, ws)
    k = Words(s, cls)
    q = {'all': ws, 'reversed': ws[::-1], 'most': ws[1:-1] + ws[:1],
         'with unknown': ws[:3] + [word(s, 'unknown')[0]] + ws[3:]}[
             s.pick('query', ['all', 'reversed', 'most', 'with unknown'])]
    op = s.pick('operator', ['and', 'or'])
    arg = E.ListObj(q)
    s.settle(k.o, arg)
    r = s.run(k.o, 'search', arg, op)
    check_result(s, 'C05', k.o, f'search({q}, {op})', r, expected(cls, q, op))


@scenario('C05', 'C11', 'C13', mains='C05', entry='CaseInsensitiveKeywordIndex.search')
def keyword_search_ci(s):
    n1, n2 = word(s, 'n1')[0], word(s, 'n2')[0]
    raw = {word(s, 'N1a')[0]: n1, word(s, 'N1b')[0]: n1, word(s, 'N2')[0]: n2,
           word(s, 'X')[0]: word(s, 'x')[0], n1: n1}
    lower(s, raw)
    cls = classes(s, [n1, n2], 'docs_')
    k = Words(s, cls, CI)
    rs = list(raw)
    q = s.pick('query', [[rs[0]], [rs[0], rs[2]], [rs[0], rs[1]], [rs[2], rs[3]], [rs[4]], []])
    op = s.pick('operator', ['and', 'or'])
    if len(q) == 1 and s.yes('as a single string'):
        arg = q[0]
    else:
        arg = E.ListObj(q)
    s.settle(k.o, arg)
    if s.yes('through apply'):
        r = s.run(k.o, 'apply', E.MapObj(None, [('query', arg), ('operator', op)]))
    else:
        r = s.run(k.o, 'search', arg, op)
    check_result(s, 'C05', k.o, f'search({q}, {op})', r,
                 expected(cls, [raw[x] for x in q], op))


@scenario('C05', 'C11', mains='C05', entry='KeywordIndex.search')
def keyword_search_str(s):
    w, other = word(s, 'w')[0], word(s, 'other')[0]
    cls = classes(s, [w, other], 'docs_')
    k = Words(s, cls)
    s.settle(k.o)
    how = s.pick('called through', ['search', 'search or', 'apply', 'apply dict'])
    if how == 'search':
        r = s.run(k.o, 'search', w)
    elif how == 'search or':
        r = s.run(k.o, 'search', w, 'or')
    elif how == 'apply':
        r = s.run(k.o, 'apply', w)
    else:
        r = s.run(k.o, 'apply', E.MapObj(None, [('query', w)]))
    check_result(s, 'C05', k.o, f'{how}({w!r})', r, expected(cls, [w], 'and'))


@scenario('C05', mains='C05', entry='KeywordIndex.search')
def keyword_search_operator(s):
    w = word(s, 'w')[0]
    cls = classes(s, [w], 'docs_')
    k = Words(s, cls)
    s.settle(k.o)
    op = s.pick('operator', ['not', 'AND', '', 'xor', None])
    q = E.ListObj(s.pick('query', [[w], []]))
    if s.yes('through apply'):
        s.expect_raise('C05', k.o, 'apply', 'TypeError',
                       E.MapObj(None, [('query', q), ('operator', op)]))
    else:
        s.expect_raise('C05', k.o, 'search', 'TypeError', q, op)


# ---------------------------------------------------------------- topic index

class Topic:
    def __init__(self, s, filters, dotted=PF):
        """filters: list of (id, expr, [docs])"""
        self.s = s
        self.o = s.create(TI, family=s.family())
        anchor(self.o, '_filters')
        self.o.label = 'index'
        self.f = []
        for i, ex, docs in filters:
            f = s.create(dotted, i, ex, family=s.family())
            anchor(f, '_ids')
            f.label = f'filter {i!r}'
            for d in docs:
                f.attrs['_ids'].d[E.hk(d)] = d
            f.attrs['_ids'].label = f'_ids of {i!r}'
            s.run(self.o, 'addFilter', f)
            self.f.append(f)

    def ids(self, f):
        return self.s.run(f, 'getIds')


def seen(ip, args, name):
    """What eval()'d code sees under a name."""
    for m in reversed(args):
        if isinstance(m, E.MapObj) and E.hk(name) in m.d:
            return m.d[E.hk(name)][1]
    if args:
        return None
    e = ip.cur_env
    while getattr(e, 'iscomp', False):
        e = e.parent
    return e.vars.get(name, e.glob.vars.get(name))


@scenario('C06', 'C13', 'C14', mains='C06', entry='TopicIndex.index_doc')
def topic_index_doc(s):
    d = docid(s, 'd')
    obj = s.ctx.elem('obj', 'object', 'obj')[0]
    fl = []
    truth = {}
    n = s.pick('filters', [1, 2, 3])
    pre = {}
    for i in range(n):
        fid = s.ctx.elem(f'f{i + 1}', 'filterid', 'str')[0]
        ex = s.ctx.elem(f'expr{i + 1}', 'expr', 'str')[0]
        docs = []
        if s.yes(f'd is in filter {i + 1}'):
            docs.append(d)
        if i == 0 and s.yes('other documents in filter 1'):
            docs += some(s, 'others')
        pre[i] = docs
        fl.append((fid, ex, docs))
        truth[E.hk(ex)] = s.pick(f'expression {i + 1}', ['true', 'false', 'Exception', 'exit'][:4 if n == 1 else 3])
    t = Topic(s, fl)

    def ev(ip, expr, env):
        r = truth[E.hk(expr)]
        s.check('C06', seen(ip, env, 'context') is obj,
                'the expression is evaluated without the indexed object as "context"')
        if r == 'Exception':
            raise ip.exc('NameError', 'in expression')
        if r == 'exit':
            raise ip.exc('SystemExit', 'in expression')
        if r == 'true':
            v = s.pick('true value', ['object', True, -1, 'list', 'string'][:9 if n == 1 else 2])
            return s.ctx.elem('result', 'flag', 'obj')[0] if v == 'object' else \
                s.ip.new(E.ListObj([0])) if v == 'list' else 'False' if v == 'string' else v
        v = s.pick('false value', [False, '[]', 'object', '{}', 0.0, ''][:9 if n == 1 else 2])
        if v == 'object':
            v = E.Elem('falsy', 'flag', 'any', falsy=True)
            s.ctx.facts[('truth', E.hk(v))] = False
        return s.ip.new(E.ListObj()) if v == '[]' else s.ip.new(E.MapObj()) if v == '{}' else v
    s.ctx.hooks['eval'] = ev
    s.settle(t.o)
    target, direct = t.o, False
    if n == 1 and s.yes('filter used directly'):
        target = t.f[0]
    s.run(target, 'index_doc', d, obj)
    for i, f in enumerate(t.f):
        want = [x for x in pre[i] if x is not d]
        if truth[E.hk(fl[i][1])] == 'true':
            want.append(d)
        got = t.ids(f)
        s.check('C06', s.same_keys(got, want),
                f'after index_doc with expression {i + 1} {truth[E.hk(fl[i][1])]} the filter '
                f'contains {s.keys(got)}, should be {want}')
        s.rule_result_family(got, 'filter')
    s.rule_family()
    s.rule_persist(t.o)


@scenario('C06', 'C13', 'C14', mains='C06', entry='TopicIndex.unindex_doc')
def topic_unindex_doc(s):
    d = docid(s, 'd')
    n = s.pick('filters', [0, 1, 2, 3])
    fl = []
    for i in range(n):
        docs = [d] if s.yes(f'd is in filter {i + 1}') else []
        if s.yes(f'others in filter {i + 1}'):
            docs += some(s, f'others{i + 1}')
        fl.append((s.ctx.elem(f'f{i + 1}', 'filterid', 'str')[0],
                   s.ctx.elem(f'expr{i + 1}', 'expr', 'str')[0], docs))
    t = Topic(s, fl)
    s.settle(t.o)
    op = s.pick('operation', ['unindex_doc', 'clearFilters'])
    s.run(t.o, op, *([d] if op == 'unindex_doc' else []))
    for f, (_, _, docs) in zip(t.f, fl):
        want = [x for x in docs if x is not d] if op == 'unindex_doc' else []
        got = t.ids(f)
        s.check('C06', s.same_keys(got, want),
                f'after {op} {f!r} contains {s.keys(got)}, should be {want}')
        s.rule_result_family(got, 'filter')
    if s.prop == 'C06':
        fs = t.o.attrs['_filters']
        s.check('C06', s.same_keys(fs, [x[0] for x in fl]), f'{op} changes the set of filters')
    s.rule_family()
    s.rule_persist(t.o)


@scenario('C07', 'C11', 'C12', 'C13', mains='C07', entry='TopicIndex.search')
def topic_search(s):
    n = s.pick('filters', [1, 2, 3])
    ids = [s.ctx.elem(f'f{i + 1}', 'filterid', 'str')[0] for i in range(n)]
    cls = classes(s, ids, 'docs_')
    t = Topic(s, [(i, 'expr', [e for e, m in cls if i in m]) for i in ids])
    unknown = s.ctx.elem('unknown', 'filterid', 'str')[0]
    shape = s.pick('query', ['all', 'with unknown', 'with repetition', 'all but last'] +
                   (['empty', 'unknown only', 'reversed'] if n == 2 else []))
    q = {'all': ids, 'with unknown': ids[:1] + [unknown] + ids[1:],
         'with repetition': ids + ids[:1], 'all but last': ids[:-1] or ids,
         'empty': [], 'unknown only': [unknown], 'reversed': ids[::-1]}[shape]
    op = s.pick('operator', ['and', 'or', None])
    kind = s.pick('query type', ['list', 'tuple'] + (['str'] if len(q) == 1 else []))
    arg = E.ListObj(q) if kind == 'list' else tuple(q) if kind == 'tuple' else q[0]
    s.settle(t.o, arg)
    via = s.pick('called through', ['search', 'apply', 'apply dict'])
    if via == 'search':
        r = s.run(t.o, 'search', arg, *([op] if op else []))
    elif via == 'apply':
        if op:
            raise E.Infeasible()
        r = s.run(t.o, 'apply', arg)
    else:
        m = E.MapObj(None, [('query', arg)] + ([('operator', op)] if op else []))
        s.settle(t.o, arg, m)
        r = s.run(t.o, 'apply', m)
        if s.prop == 'C11':
            s.rule_pure('C11', 'apply(dict)')
    known = [x for x in q if x is not unknown]
    check_result(s, 'C07', t.o, f'{via}({q}, {op})', r, expected(cls, known, op or 'and'))


@scenario('C07', 'C11', 'C12', mains='C07', entry='TopicIndex.search')
def topic_search_many(s):
    n = s.pick('filters', [4, 6, 9] if s.tier == 'quick' else [4, 5, 6, 7, 9, 12, 17])
    ids = [s.ctx.elem(f'f{i + 1}', 'filterid', 'str')[0] for i in range(n)]
    cls = crowd(s, ids)
    t = Topic(s, [(i, 'expr', [e for e, m in cls if i in m]) for i in ids])
    q = {'all': ids, 'reversed': ids[::-1], 'most': ids[1:-1] + ids[:1],
         'with unknown': ids[:3] + [s.ctx.elem('unknown', 'filterid', 'str')[0]] + ids[3:]}[
             s.pick('query', ['all', 'reversed', 'most', 'with unknown'])]
    op = s.pick('operator', ['and', 'or'])
    arg = E.ListObj(q)
    s.settle(t.o, arg)
    r = s.run(t.o, 'search', arg, op)
    known = [x for x in q if x in ids]
    check_result(s, 'C07', t.o, f'search({q}, {op})', r, expected(cls, known, op))


@scenario('C07', mains='C07', entry='TopicIndex.search')
def topic_search_bad(s):
    f1 = s.ctx.elem('f1', 'filterid', 'str')[0]
    t = Topic(s, [(f1, 'expr', some(s, 'docs') if s.yes('documents') else [])])
    s.settle(t.o)
    if s.yes('bad query'):
        q = {'dict': lambda: E.MapObj(None, [(f1, 1)]), 'none': lambda: None, 'int': lambda: 3,
             'set': lambda: E.SetObj(None, [f1]), 'frozenset': lambda: E.SetObj(None, [f1], frozen=True),
             'bytes': lambda: b'f1'}[
            s.pick('query', ['dict', 'none', 'int', 'set', 'frozenset', 'bytes'])]()
        s.expect_raise('C07', t.o, 'search', 'TypeError', q, s.pick('operator', ['and', 'or']))
    else:
        op = s.pick('operator', ['not', 'AND', '', 'xor', None])
        q = E.ListObj(s.pick('query', [[f1], []]))
        if s.yes('through apply'):
            s.expect_raise('C07', t.o, 'apply', 'TypeError',
                           E.MapObj(None, [('query', q), ('operator', op)]))
        else:
            s.expect_raise('C07', t.o, 'search', 'TypeError', q, op)
