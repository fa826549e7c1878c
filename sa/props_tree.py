"""Parse tree nodes (C20)."""
import engine as E
from num import Num
from props_keyword import classes
from props_lexicon import word
from scen import scenario

PT = 'zope.index.text.parsetree.'
LEAF = {'AtomNode': 'search', 'GlobNode': 'search_glob', 'PhraseNode': 'search_phrase'}


class Index:
    """An index that answers each lookup with a given mapping, or None for ignored words."""

    def __init__(self, s, kind):
        self.s, self.kind = s, kind
        self.o = E.StubObj('index')
        self.o.attrs['family'] = s.family()
        self.answers = {}       # (method, value) -> mapping or None
        self.asked = []
        for m in LEAF.values():
            self.o.attrs[m] = self.method(m)

    def method(self, m):
        def f(ip, a, kw):
            if len(a) != 1 or kw:
                raise ip.exc('TypeError', m)
            k = (m, key(ip, a[0]))
            if k not in self.answers:
                self.s.check('C20', False, f'{m}({a[0]!r}) is looked up')
                ip.fail('lookup')
            r = self.answers[k]
            if r is not None and k in self.asked:
                # a mapping of its own for every lookup
                r = self.s.container('IF', self.kind, list(r.d.values()), label=r.label)
            self.asked.append(k)
            return r
        return E.NativeV(m, f)


def key(ip, v):
    if isinstance(v, (E.ListObj, tuple)):
        return tuple(E.hk(x) for x in ip.single_items(v))
    return E.hk(v)


class Tree:
    """Nodes of the code together with what they mean."""

    def __init__(self, s, index):
        self.s, self.index = s, index
        self.leaves = []

    def again(self, part):
        """Another leaf for the same word."""
        i = part[1][1]
        self.leaves.append(self.leaves[i])
        return self.s.create(PT + 'AtomNode', self.leaves[i][0]), ('leaf', len(self.leaves) - 1)

    def leaf(self, ignored=False, cls='AtomNode', words=None):
        s, i = self.s, len(self.leaves) + 1
        w = word(s, f't{i}')
        val = E.ListObj(words or [w, word(s, f't{i}b')]) if cls == 'PhraseNode' else \
            words[0] if words else w
        m = None
        if not ignored:
            m = s.container('IF', self.index.kind, label=f'm{i}')
            m.name = f'm{i}'
        self.index.answers[LEAF[cls], key(s.ip, val)] = m
        self.leaves.append((val, m))
        return s.create(PT + cls, val), ('leaf', i - 1)

    def node(self, cls, parts):
        return self.s.create(PT + cls, E.ListObj([n for n, _ in parts])), \
            (cls, [d for _, d in parts])

    def neg(self, part):
        return self.s.create(PT + 'NotNode', part[0]), ('NotNode', part[1])

    def fill(self, how=classes):
        s = self.s
        maps = list({id(m): m for _, m in self.leaves if m is not None}.values())
        self.vals = {}
        self.cls = how(s, maps, 'docs_') if maps else []
        for e, ms in self.cls:
            for m in ms:
                v = s.ctx.natom(f'v[{m.name},{e.name}]', of=e)
                self.vals[m.uid, e.uid] = v
                m.d[E.hk(e)] = (e, v)

    def ignored(self, d):
        """Does the operand consist of ignored words only?"""
        return d[0] == 'leaf' and self.leaves[d[1]][1] is None

    def score(self, d, e, ms):
        """Score of document class e for the tree, None if it does not match."""
        if d[0] == 'leaf':
            m = self.leaves[d[1]][1]
            return self.vals[m.uid, e.uid] if any(m is x for x in ms) else None
        parts = [p for p in d[1] if not self.ignored(p[1] if p[0] == 'NotNode' else p)]
        yes = [self.score(p, e, ms) for p in parts if p[0] != 'NotNode']
        no = [self.score(p[1], e, ms) for p in parts if p[0] == 'NotNode']
        t = [x for x in yes if x is not None]
        if d[0] == 'AndNode' and (len(t) < len(yes) or any(x is not None for x in no)):
            return None
        if not t:
            return None
        r = Num.const(0)
        for x in t:
            r = r + x
        return r

    def rotate(self):
        """Every word finds what another one found before."""
        keys = list(dict.fromkeys(k for k in self.index.answers))
        maps = [self.index.answers[k] for k in keys]
        maps = maps[1:] + maps[:1] if len(maps) > 1 else [
            self.s.container('IF', self.index.kind, label='nothing')]
        new = dict(zip(keys, maps))
        if len(keys) == 1:
            self.cls = []
        self.index.answers = new
        self.leaves = [(v, new[next(k for k in keys if k[1] == key(self.s.ip, v))])
                       for v, _ in self.leaves]

    def terms(self, d):
        if d[0] == 'leaf':
            return [self.leaves[d[1]][0]]
        if d[0] == 'NotNode':
            return []
        return [t for p in d[1] for t in self.terms(p)]

    def show(self, d):
        if d[0] == 'leaf':
            return f't{d[1] + 1}' + ('(ignored)' if self.leaves[d[1]][1] is None else '')
        if d[0] == 'NotNode':
            return 'NOT ' + self.show(d[1])
        return '(' + f' {d[0][:-4].upper()} '.join(map(self.show, d[1])) + ')'

    def verify(self, node, d):
        s = self.s
        what = self.show(d)
        s.settle(node, self.index.o, *[m for _, m in self.leaves if m is not None])
        got = s.run(node, 'terms')
        want = self.terms(d)
        items = s.ip.single_items(got)
        s.check('C20', len(items) == len(want) and all(a is b for a, b in zip(items, want)),
                f'terms() of {what} are {items}, should be {want}')
        turns = ('', ' evaluated again', ' evaluated after the index has changed')
        for turn in turns if s.prop == 'C20' else turns[:1]:
            if turn == turns[2]:
                self.rotate()
            r = s.run(node, 'executeQuery', self.index.o)
            exp = {}
            for e, ms in self.cls:
                t = self.score(d, e, ms)
                if t is not None:
                    exp[E.hk(e)] = (e, t)
            s.check('C20', isinstance(r, E.MapObj) and
                    s.same_keys(r, [e for e, _ in exp.values()]),
                    f'{what}{turn} matches {s.keys(r)}, should be {[e for e, _ in exp.values()]}')
            if s.prop == 'C20':
                for h, (e, t) in exp.items():
                    s.check('C20', s.same_num(r.d[h][1], t),
                            f'{what}{turn} scores {e!r} with {r.d[h][1]!r}, should be {t}')
            s.rule_result_family(r, what)
        s.rule_pure('C11 C20', f'evaluating {what}')
        s.rule_family()


def start(s):
    return Tree(s, Index(s, s.pick('lookups give', ['Bucket', 'BTree'])))


@scenario('C20', 'C11', 'C13', mains='C20', entry='AndNode.executeQuery, terms')
def node_and(s):
    t = start(s)
    n = s.pick('operands', [1, 2, 3] + ([4] if s.tier != 'quick' else []))
    parts = []
    for i in range(n):
        k = s.pick(f'operand {i + 1}', ['word', 'not', 'ignored', 'not ignored'])
        p = t.leaf('ignored' in k)
        parts.append(t.neg(p) if 'not' in k else p)
    node, d = t.node('AndNode', parts)
    t.fill()
    t.verify(node, d)


@scenario('C20', 'C11', 'C13', mains='C20', entry='OrNode.executeQuery, terms')
def node_or(s):
    t = start(s)
    n = s.pick('operands', [1, 2, 3] + ([4] if s.tier != 'quick' else []))
    parts = [t.leaf(s.yes(f'operand {i + 1} ignored')) for i in range(n)]
    node, d = t.node('OrNode', parts)
    t.fill()
    t.verify(node, d)


SHAPES = {
    'a AND NOT (b OR c)': lambda t, a, b, c:
        t.node('AndNode', [a, t.neg(t.node('OrNode', [b, c]))]),
    'a AND NOT (b AND c)': lambda t, a, b, c:
        t.node('AndNode', [a, t.neg(t.node('AndNode', [b, c]))]),
    'a AND NOT (b AND NOT c)': lambda t, a, b, c:
        t.node('AndNode', [a, t.neg(t.node('AndNode', [b, t.neg(c)]))]),
    '(a OR b) AND c': lambda t, a, b, c: t.node('AndNode', [t.node('OrNode', [a, b]), c]),
    '(a AND b) OR c': lambda t, a, b, c: t.node('OrNode', [t.node('AndNode', [a, b]), c]),
    'a OR (b AND NOT c)': lambda t, a, b, c:
        t.node('OrNode', [a, t.node('AndNode', [b, t.neg(c)])]),
    'a AND b AND a': lambda t, a, b, c: t.node('AndNode', [a, b, t.again(a)]),
    'a OR b OR a': lambda t, a, b, c: t.node('OrNode', [a, b, t.again(a)]),
    '(a OR b) AND (a OR c)': lambda t, a, b, c:
        t.node('AndNode', [t.node('OrNode', [a, b]), t.node('OrNode', [t.again(a), c])]),
    '(a AND b) OR (c AND NOT a)': lambda t, a, b, c:
        t.node('OrNode', [t.node('AndNode', [a, b]), t.node('AndNode', [c, t.neg(t.again(a))])]),
    '(a AND NOT b) OR (c AND NOT b)': lambda t, a, b, c:
        t.node('OrNode', [t.node('AndNode', [a, t.neg(b)]), t.node('AndNode', [c, t.neg(b)])]),
}


@scenario('C20', 'C11', 'C13', mains='C20', entry='nested AndNode, OrNode, NotNode')
def node_nested(s):
    t = start(s)
    shape = s.pick('tree', list(SHAPES))
    kinds = s.pick('leaves', [('AtomNode',) * 3, ('GlobNode', 'PhraseNode', 'AtomNode'),
                              ('PhraseNode', 'AtomNode', 'GlobNode')])
    if kinds[0] != 'AtomNode' and shape.count('a') > 1:
        return
    leaves = [t.leaf(False, k) for k in kinds]
    node, d = SHAPES[shape](t, *leaves)
    t.fill()
    t.verify(node, d)


RELATED = {
    'a OR "a b"': lambda t, a, b, p: t.node('OrNode', [a, p]),
    '"a b" OR b OR a': lambda t, a, b, p: t.node('OrNode', [p, b, a]),
    'a AND "a b"': lambda t, a, b, p: t.node('AndNode', [a, p]),
    '"a b" AND b AND a': lambda t, a, b, p: t.node('AndNode', [p, b, a]),
    'a AND NOT "a b"': lambda t, a, b, p: t.node('AndNode', [a, t.neg(p)]),
    'a AND b AND NOT "a b"': lambda t, a, b, p: t.node('AndNode', [a, b, t.neg(p)]),
    '"a b" AND NOT a': lambda t, a, b, p: t.node('AndNode', [p, t.neg(a)]),
    'b AND NOT a OR "a b"': lambda t, a, b, p:
        t.node('OrNode', [t.node('AndNode', [b, t.neg(a)]), p]),
    'a AND NOT a': lambda t, a, b, p: t.node('AndNode', [a, t.neg(t.again(a))]),
    'a OR b AND NOT a': lambda t, a, b, p:
        t.node('OrNode', [a, t.node('AndNode', [b, t.neg(t.again(a))])]),
    'a AND (a OR b)': lambda t, a, b, p:
        t.node('AndNode', [a, t.node('OrNode', [t.again(a), b])]),
    'a OR a AND b': lambda t, a, b, p:
        t.node('OrNode', [a, t.node('AndNode', [t.again(a), b])]),
}


@scenario('C20', 'C11', mains='C20', entry='AndNode, OrNode, NotNode over words and their phrase')
def node_related(s):
    t = start(s)
    shape = s.pick('tree', list(RELATED))
    words = [word(s, 'a'), word(s, 'b')]
    a = t.leaf(False, 'AtomNode', words[:1])
    b = t.leaf(s.yes('b is ignored'), s.pick('b is', ['AtomNode', 'GlobNode']), words[1:])
    p = t.leaf(False, 'PhraseNode', words if '"a b"' in shape else [words[1], words[0]])
    node, d = RELATED[shape](t, a, b, p)
    t.fill()
    t.verify(node, d)


@scenario('C20', 'C11', mains='C20', entry='AtomNode, GlobNode, PhraseNode')
def node_leaf(s):
    t = start(s)
    cls = s.pick('leaf', list(LEAF))
    ignored = s.yes('ignored')
    node, d = t.leaf(ignored, cls)
    s.settle(node, t.index.o)
    r = s.run(node, 'executeQuery', t.index.o)
    m = t.leaves[0][1]
    s.check('C20', r is m, f'{cls} gives {r!r} instead of the result of {LEAF[cls]}()')
    if s.prop == 'C20':
        t.rotate()
        t.index.asked = []
        r = s.run(node, 'executeQuery', t.index.o)
        s.check('C20', r is t.leaves[0][1], f'after a change of the index {cls} gives {r!r} '
                f'instead of the result of {LEAF[cls]}()')
    val = t.leaves[0][0]
    got = s.ip.single_items(s.run(node, 'terms'))
    s.check('C20', len(got) == 1 and got[0] is val, f'terms() of a {cls} are {got}')
    s.check('C20', s.run(node, 'getValue') is val, f'getValue() of a {cls}')
    s.rule_pure('C11', f'evaluating a {cls}')
    neg, _ = t.neg((node, d))
    s.expect_raise('C20', neg, 'executeQuery', PT + 'QueryError', t.index.o)
    s.check('C20', s.ip.single_items(s.run(neg, 'terms')) == [], 'terms() of a NOT node')
    want = {'AtomNode': 'ATOM', 'GlobNode': 'GLOB', 'PhraseNode': 'PHRASE'}[cls]
    k = s.run(node, 'nodeType')
    s.check('C20', k == want, f'nodeType() of a {cls} is {k!r}')
