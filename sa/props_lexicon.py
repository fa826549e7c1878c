"""Lexicon and pipeline (C16, C17) and the cross-cutting rules for them."""
import engine as E
from engine import It
from num import Num, to_num
from props_field import anchor, put
from scen import reach, scenario

LX = 'zope.index.text.lexicon.Lexicon'


def word(s, name):
    return s.ctx.elem(name, 'lword', 'str', falsy=False)[0]


def element(s, name, glob=False, behaviour='map', log=None):
    """A pipeline element as a table: each word becomes none, one or two words."""
    o = E.StubObj(name)

    def make(meth):
        def f(ip, a, kw):
            if log is not None:
                log.append((name, meth))
            if len(a) != 1 or kw:
                raise ip.exc('TypeError', meth)
            x = a[0]
            if not isinstance(x, (E.ListObj, tuple, E.IterObj)):
                raise ip.exc('TypeError', f'{meth} of {x!r}')
            return ip.new(E.ListObj(process(s, f'{name}.{meth}', behaviour,
                                            [it.v for it in list(ip.iter_items(x))])))
        return E.NativeV(f'{name}.{meth}', f)
    o.attrs['process'] = make('process')
    if glob:
        o.attrs['processGlob'] = make('processGlob')
    else:
        o.attrs['__absent__'] = ('processGlob',)
    return o


def process(s, name, behaviour, words):
    out = []
    for n, w in enumerate(words):
        out += apply(s, name, behaviour, w, n)
    if behaviour == 'add':      # even to nothing
        out += apply(s, name, 'map', '', 0)
    return out


def apply(s, name, behaviour, w, n):
    """The words an element makes of the n-th word."""
    def derive(k):
        key = (name, k, E.hk(w))
        if key not in s.ctx.derived:
            s.ctx.derived[key] = E.Elem(f'{name}({w!r}){k}', 'lword', 'str', falsy=False)
        return s.ctx.derived[key]
    if behaviour == 'map':
        return [derive('')]
    if behaviour == 'split':
        return [derive('/1'), derive('/2')]
    if behaviour == 'drop':
        return [] if n == 0 else [derive('')]
    return [w]


class Lex:
    """A lexicon with given words and ids and any value of the counter."""

    def __init__(self, s, words, pipeline=(), legacy=False):
        self.s = s
        self.o = s.create(LX, *pipeline)
        anchor(self.o, '_wids', '_words', 'wordCount')
        self.o.label = 'lexicon'
        self.ids = dict()
        a, b = self.o.attrs['_wids'], self.o.attrs['_words']
        a.label, b.label = '_wids', '_words'
        for w, i in words:
            put(a, w, i)
            put(b, i, w)
            self.ids[E.hk(w)] = (w, i)
        if legacy:
            del self.o.attrs['wordCount']

    def same_id(self, i, j):
        if isinstance(i, E.Elem) or isinstance(j, E.Elem):
            return i is j
        return self.s.same_num(i, j)

    def distinct(self, i, j):
        s = self.s
        if isinstance(i, E.Elem) or isinstance(j, E.Elem):
            if i is j:
                return False
            if isinstance(i, E.Elem) and isinstance(j, E.Elem):
                return True
            key = ('eq',) + tuple(sorted([E.hk(i), E.hk(j)], key=repr))
            return s.ctx.facts.get(key) is False
        d = to_num(i) - to_num(j)
        return E.decided(s.ctx, d, Num.const(0), '==') is False

    def verify(self, what, seq=None, got=None):
        """Mappings are inverse, ids are unique, old ones unchanged; seq got the ids got."""
        s, P = self.s, 'C16'
        a, b = self.o.attrs.get('_wids'), self.o.attrs.get('_words')
        for w, i in self.ids.values():
            k = E.hk(w)
            s.check(P, k in a.d and self.same_id(a.d[k][1], i),
                    f'{what} changes the id {i!r} of {w!r} into {a.d.get(k, (0, None))[1]!r}')
        if seq is not None:
            want = dict(self.ids)
            for w in seq:
                want.setdefault(E.hk(w), (w, None))
            s.check(P, s.same_keys(a, [w for w, _ in want.values()]),
                    f'after {what} the words are {s.keys(a)}, should be '
                    f'{[w for w, _ in want.values()]}')
        s.check(P, len(a.d) == len(b.d),
                f'after {what} there are {len(a.d)} words but {len(b.d)} ids')
        plain = [to_num(i).cval() for w, i in a.d.values()
                 if not isinstance(i, E.Elem) and to_num(i).is_const()]
        if len(a.d) > 20 and len(plain) == len(a.d):
            inverse = {to_num(j).cval(): x for j, x in b.d.values()}
            s.check(P, 0 not in plain and len(set(plain)) == len(plain) and
                    all(inverse.get(to_num(i).cval()) is w for w, i in a.d.values()),
                    f'after {what} ids and words do not correspond')
            plain = None
        ids = []
        for w, i in a.d.values() if plain is not None else ():
            back = [x for j, x in b.d.values() if self.same_id(i, j)]
            s.check(P, len(back) == 1 and back[0] is w,
                    f'after {what} the id {i!r} of {w!r} stands for {back!r}')
            known = E.hk(w) in self.ids
            s.check(P, known or isinstance(i, E.Elem) or
                    E.decided(s.ctx, to_num(i), Num.const(0), '==') is False,
                    f'{what} gives {w!r} the id {i!r}, which can be 0')
            for j, v in ids:
                s.check(P, self.distinct(i, j), f'after {what} {w!r} and {v!r} have the same id')
            ids.append((i, w))
        if seq is not None:
            s.check(P, isinstance(got, E.ListObj), f'{what} returns {got!r}')
            items = s.ip.single_items(got)
            want = [a.d[E.hk(w)][1] for w in seq]
            s.check(P, len(items) == len(want) and all(map(self.same_id, items, want)),
                    f'{what} returns {items}, the ids of {seq} are {want}')

    def rules(self, what, *a):
        self.s.rule_persist(self.o)
        self.s.rule_counters(what)
        self.verify(what, *a)


def counted(s, lx, n=None):
    """Set the counter: any number, also one that lags behind the ids in use."""
    ln = lx.o.attrs['wordCount']
    ln.label = 'wordCount'
    c = n if n is not None else s.ctx.natom('counter', 0, None, True)
    ln.value = c
    return c


def alterable(s, words):
    """Changing the case of a word or stripping it may give another of the words."""
    ids = {w.uid for w in words}

    def str_method(ip, o, name, a):
        if isinstance(o, E.Elem) and o.uid in ids and \
                name in ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize', 'strip',
                         'lstrip', 'rstrip', 'replace', 'removeprefix', 'removesuffix'):
            k = ('altered', o.uid, name) + tuple(E.hk(x) for x in a)
            if k not in s.ctx.derived:
                w = s.ctx.pick(k, [o] + [w for w in words if w is not o], f'{o!r}.{name}()')
                s.ctx.derived[k] = w
                s.ctx.derived[('altered', w.uid) + k[2:]] = w
            return s.ctx.derived[k]
        return E.MISSING
    s.ctx.hooks['str_method'] = str_method


SEQS = ['', 'n', 'k', 'nn', 'kn', 'nk', 'nm', 'nkn', 'mnm', 'lkl', 'nmkn']


@scenario('C16', 'C14', 'C15', mains='C16', entry='Lexicon.sourceToWordIds')
def lexicon_source(s):
    """Ids are arbitrary, the counter is arbitrary."""
    k, l, n, m = (word(s, x) for x in 'klnm')
    alterable(s, [k, l, n, m])
    ids = [s.ctx.elem(f'id_{x}', 'wid', 'int', falsy=False)[0] for x in 'kl']
    legacy = s.yes('stored before the counter was an object')
    symbolic = not legacy and s.pick('ids', ['any', 'small']) == 'any'
    if symbolic:
        lx = Lex(s, [(k, ids[0]), (l, ids[1])])
        c = counted(s, lx)
    else:
        lx = Lex(s, [(k, s.pick('id of k', [1, 2, 4])), (l, 3)], legacy=legacy)
        c = None if legacy else counted(s, lx, s.pick('counter', [0, 1, 2, 3, 5]))
    s.ctx.hooks['while_bound'] = 4
    seqs = SEQS if not symbolic or s.tier != 'quick' else SEQS[:8]
    seq = [{'k': k, 'l': l, 'n': n, 'm': m}[x] for x in s.pick('words', seqs)]
    arg = E.ListObj(seq)
    s.settle(lx.o, arg)
    got = s.run(lx.o, 'sourceToWordIds', arg)
    lx.rules('sourceToWordIds', seq, got)
    if legacy and not {E.hk(x) for x in seq} - {E.hk(k), E.hk(l)}:
        n = s.run(lx.o, 'wordCount')
        s.check('C16', s.same_num(n, 2), f'the counter of an upgraded lexicon of 2 words is {n!r}')
    if s.prop == 'C15' and c is not None:
        ln = lx.o.attrs.get('wordCount')
        s.check('C15', isinstance(ln, E.LenObj), f'the counter becomes {ln!r}')
    if s.prop == 'C16':
        got = s.run(lx.o, 'sourceToWordIds', E.ListObj(seq[::-1]))
        lx.verify('a second sourceToWordIds', seq[::-1], got)


@scenario('C16', 'C11', mains='C16', entry='Lexicon.termToWordIds, get_wid, get_word, words, wids, items')
def lexicon_lookup(s):
    k, l, u = (word(s, x) for x in 'klu')
    alterable(s, [k, l, u])
    lx = Lex(s, [(k, 3), (l, 1)])
    counted(s, lx)
    seq = [{'k': k, 'l': l, 'u': u}[x] for x in s.pick('words', ['', 'k', 'u', 'kul', 'kk', 'lu'])]
    arg = E.ListObj(seq, origin='pre')
    s.settle(lx.o, arg)
    ids = {E.hk(k): 3, E.hk(l): 1, E.hk(u): 0}
    got = s.run(lx.o, 'termToWordIds', arg)
    s.check('C16', isinstance(got, (E.ListObj, tuple)) and
            s.ip.single_items(got) == [ids[E.hk(w)] for w in seq],
            f'termToWordIds({seq}) is {got!r}, should be {[ids[E.hk(w)] for w in seq]}')
    for w in (k, l, u):
        i = s.run(lx.o, 'get_wid', w)
        s.check('C16', i == ids[E.hk(w)], f'get_wid({w!r}) is {i!r}, should be {ids[E.hk(w)]}')
        if w is not u:
            x = s.run(lx.o, 'get_word', ids[E.hk(w)])
            s.check('C16', x is w, f'get_word({ids[E.hk(w)]}) is {x!r}, should be {w!r}')
    s.expect_raise('C16', lx.o, 'get_word', 'KeyError', s.pick('unknown id', [0, 2, 4]))
    for m, want in (('words', [k, l]), ('wids', [3, 1])):
        v = s.run(lx.o, m)
        xs = s.ip.single_items(v)
        s.check('C16', sorted(map(repr, xs)) == sorted(map(repr, want)),
                f'{m}() is {xs}, should be {want}')
    its = s.ip.single_items(s.run(lx.o, 'items'))
    s.check('C16', sorted(map(repr, its)) == sorted(map(repr, [(k, 3), (l, 1)])),
            f'items() is {its}')
    s.run(lx.o, 'parseTerms', arg)
    s.run(lx.o, 'isGlob', u)
    s.rule_pure('C11', 'looking up words')
    lx.verify('looking up words')


@scenario('C17', 'C11', mains='C17', entry='Lexicon.sourceToWordIds, termToWordIds, parseTerms')
def lexicon_pipeline(s):
    n = s.pick('elements', [0, 1, 2, 3] if s.tier != 'quick' else [0, 1, 2])
    log = []
    conf = [(s.yes(f'element {i} knows globs'),
             s.pick(f'element {i}', [['map', 'split', 'drop'], ['map', 'split', 'drop', 'add'],
                                     ['map', 'add']][i]))
            for i in range(n)]
    els = [element(s, f'p{i}', g, b, log) for i, (g, b) in enumerate(conf)]
    lx = Lex(s, [], els)
    counted(s, lx, 0)
    a, b = word(s, 'a'), word(s, 'b')
    how = s.pick('text', ['string', 'list', 'tuple', 'list of one', 'empty list'])
    words = {'string': [a], 'list': [a, b], 'tuple': [b, a], 'list of one': [a],
             'empty list': []}[how]
    arg = a if how == 'string' else tuple(words) if how == 'tuple' else E.ListObj(words)

    def through(globs):
        ws = list(words)
        for i, (g, beh) in enumerate(conf):
            meth = 'processGlob' if g and globs else 'process'
            ws = process(s, f'p{i}.{meth}', beh, ws)
        return ws
    op = s.pick('operation', ['sourceToWordIds', 'termToWordIds', 'parseTerms'])
    want = through(op == 'parseTerms')
    if op == 'termToWordIds':
        for i, w in enumerate(want):
            put(lx.o.attrs['_wids'], w, i + 1)
            put(lx.o.attrs['_words'], i + 1, w)
    s.settle(lx.o, *els, *([arg] if isinstance(arg, E.Obj) else []))
    got = s.run(lx.o, op, arg)
    s.check('C17', isinstance(got, (E.ListObj, tuple)), f'{op} returns {got!r}')
    items = s.ip.single_items(got)
    if op == 'parseTerms':
        have = items
    else:
        back = {E.hk(i): w for w, i in lx.o.attrs['_wids'].d.values()}
        have = [back.get(E.hk(i)) for i in items]
    s.check('C17', list(map(repr, have)) == list(map(repr, want)),
            f'{op}({how}) with {[x.label for x in els]} processes to {have}, should be {want}')
    if op != 'sourceToWordIds':
        s.rule_pure('C11', op)


@scenario('C17', mains='C17', entry='Lexicon.sourceToWordIds')
def lexicon_none(s):
    lx = Lex(s, [], [element(s, 'p0', False, 'map')])
    counted(s, lx, 0)
    s.settle(lx.o)
    got = s.run(lx.o, 'sourceToWordIds', None)
    empty = apply(s, 'p0.process', 'map', '', 0)
    have = [w for w, _ in lx.o.attrs['_wids'].d.values()]
    s.check('C17', list(map(repr, have)) == list(map(repr, empty)),
            f'text None is processed to {have}, should be like the empty string: {empty}')


@scenario('C17', mains='C17', entry='Lexicon.isGlob')
def lexicon_isglob(s):
    lx = Lex(s, [])
    s.settle(lx.o)
    for w, want in (('foo', False), ('f*', True), ('f?o', True), ('*', True), ('', False),
                    ('fo?*', True), ('f.o', False), ('f[o]', False)):
        got = s.run(lx.o, 'isGlob', w)
        s.check('C17', s.ip.truth(got) is want, f'isGlob({w!r}) is {got!r}')


# ---------------------------------------------------------------- C18: globs

def glob_hooks(s, pattern, tokens, words, prefix_len):
    """words: list of (elem, relation) with relation before/prefixed/after the literal prefix."""
    import re as _re
    import rx
    ctx = s.ctx
    rel = {w.uid: r for w, r in words}
    private = {}
    lits = [t for t in tokens if isinstance(t, E.Elem)]

    def const_eq(e, o):
        if 'char' in e.info and o in ('*', '?'):
            return False
        if e.uid in rel and isinstance(o, str):
            return False if '*' in o or '?' in o or o == '' else None
        if e.uid in rel and rel[e.uid] != 'prefixed' and isinstance(o, str):
            return None
        return None

    def is_prefix(v):
        """Length of the literal prefix of the pattern that v is, or None."""
        cs = s.ip.lib.chars(v)
        if cs is None or len(cs) > prefix_len:
            return None
        return len(cs) if all(a is b for a, b in zip(cs, tokens)) else None

    def lt(ip, a, b, op):
        w, other, flip = (a, b, False) if isinstance(a, E.Elem) and a.uid in rel else \
            (b, a, True) if isinstance(b, E.Elem) and b.uid in rel else (None, None, None)
        if w is None or isinstance(other, E.Elem) and other.uid in rel:
            return None
        n = is_prefix(other)
        if n is None or rel[w.uid] == 'changed':
            return None
        if rel[w.uid] == 'identical':
            return (op == '<=') if n == prefix_len else flip
        if rel[w.uid] == 'after':
            less = False
        elif rel[w.uid] == 'before':
            less = True if n == prefix_len else ctx.ask(('before', w.uid, n),
                                                        f'{w!r} < prefix {n}')
        else:
            less = False
        return less if not flip else not less

    def str_method(ip, o, name, a):
        if isinstance(o, E.Elem) and o.uid in rel and \
                name in ('lower', 'upper', 'casefold', 'swapcase', 'title', 'capitalize') and not a:
            d = ctx.derived.setdefault((o.uid, name), E.Elem(f'{o!r}.{name}()', 'lword', 'str',
                                                             falsy=False))
            rel.setdefault(d.uid, 'changed')
            return d
        if isinstance(o, E.Elem) and o.uid in rel and name == 'startswith' and len(a) == 1:
            n = is_prefix(a[0])
            if n == 0:
                return True
            if n is not None:
                if rel[o.uid] in ('prefixed', 'identical'):
                    return True
                if n == prefix_len and rel[o.uid] != 'changed':
                    return False
                return ctx.ask(('starts', o.uid, n), f'{o!r} starts with prefix {n}')
        return E.MISSING

    private = {}

    def spec():
        out = ''
        for t in tokens:
            if t == '*':
                out += '.*'
            elif t == '?':
                out += '.'
            else:
                out += private[t.uid]
        return out

    def regex(ip, sym, name, a, kw):
        if name not in ('match', 'fullmatch', 'search') or len(a) != 1 or kw:
            return E.MISSING
        w = a[0]
        if not isinstance(w, E.Elem) or w.uid not in rel:
            return E.MISSING
        try:
            pat, table, raw = rx.flat(sym.args[0])
        except rx.Bad:
            return E.MISSING
        for x in raw:
            s.check('C18', False, f'the character {x!r} of the pattern is used as part of a '
                    f'regular expression without being escaped')
        private.clear()
        for p, x in table.items():
            private[x.uid] = p
        n = len(private)
        for t in lits:
            if t.uid not in private:
                private[t.uid] = chr(rx.PUA + 0x100 + n)
                n += 1
        try:
            fl = sym.args[1]
            d = rx.difference(pat, fl if isinstance(fl, int) else 0, name, spec(), _re.S,
                              'fullmatch')
        except rx.Bad as e:
            raise E.Inconclusive(f'regular expression: {e}')
        except _re.error as e:
            raise ip.exc('re.error', str(e))
        if d is not None:
            shown = ''.join(next((repr(t).strip("'") for t in lits if private.get(t.uid) == c),
                                 'the other case of a character' if ord(c) >= rx.PUA else c)
                            for c in d)
            s.check('C18', False, f'for the pattern {show(tokens)} the regular expression '
                    f'{pat!r} decides wrongly about the word {shown!r}')
        if rel[w.uid] not in ('prefixed', 'identical', 'changed'):
            return None
        return True if matches(w) else None

    def matches(w):
        if rel[w.uid] == 'identical':
            return '?' not in tokens and len(tokens) > prefix_len
        return ctx.ask(('glob', w.uid), f'{w!r} matches {show(tokens)}')

    ctx.hooks.update(const_eq=const_eq, lt=lt, str_method=str_method, regex=regex)
    return matches


def show(tokens):
    return ''.join(t if isinstance(t, str) else f'{{{t!r}}}' for t in tokens)


def shapes(depth):
    out = ['']
    level = ['']
    for _ in range(depth):
        level = [x + c for x in level for c in 'l*?']
        out += level
    return out


@scenario('C18', 'C11', mains='C18', entry='Lexicon.globToWordIds')
def lexicon_glob(s):
    depth = 3 if s.prop == 'C11' else 4 if s.tier == 'quick' else 6
    shape = s.pick('pattern', shapes(depth))
    tokens = [c if c != 'l' else
              E.Elem(f'c{i}', 'char', 'str', falsy=False, info={'char': True})
              for i, c in enumerate(shape)]
    pattern = s.ip.lib.concat(tokens) if tokens else ''
    wild = [i for i, c in enumerate(shape) if c != 'l']
    plen = wild[0] if wild else len(shape)
    P = 'C18'
    if not wild:
        # no wildcards: only the identical word
        known = s.pick('words', ['none', 'other', 'identical', 'identical and other'])
        other = word(s, 'other')
        wid = s.pick('id', [1, 3])
        ws = ([(other, 7)] if 'other' in known else []) + \
            ([(pattern, wid)] if 'identical' in known and shape else [])
        lx = Lex(s, ws)
        s.ctx.hooks['const_eq'] = lambda e, o: False
        s.ctx.facts[('eq',) + tuple(sorted([E.hk(other), E.hk(pattern)], key=repr))] = False
        for t in tokens:
            s.ctx.facts[('eq',) + tuple(sorted([E.hk(other), E.hk(t)], key=repr))] = False
        want = [wid] if 'identical' in known and shape else []
    else:
        rels = ['before', 'identical', 'prefixed', 'prefixed', 'after']
        have = s.pick('words', [(), (2,), (0, 4), (0, 2, 4), (1, 2), (2, 3), (1,), (0, 1, 4),
                                (0, 1, 2, 3, 4)])
        ws = []
        for i in have:
            e = E.Elem(f'{rels[i]}{i}', 'lword', 'str', rank=i, falsy=False)
            ws.append((e, rels[i]))
        lx = Lex(s, [(w, 10 + i) for i, (w, _) in enumerate(ws)])
        matches = glob_hooks(s, pattern, tokens, ws, plen)
    counted(s, lx, 3)
    s.settle(lx.o)
    if wild and plen == 0:
        s.expect_raise(P, lx.o, 'globToWordIds', 'zope.index.text.parsetree.QueryError', pattern)
        s.rule_pure('C11', 'globToWordIds')
        return
    got = s.run(lx.o, 'globToWordIds', pattern)
    s.rule_pure('C11', 'globToWordIds')
    if wild:
        want = [10 + i for i, (w, r) in enumerate(ws)
                if r in ('prefixed', 'identical') and matches(w)]
    items = s.ip.single_items(got)
    s.check(P, sorted(map(repr, items)) == sorted(map(repr, want)),
            f'globToWordIds({show(tokens)}) with the words '
            f'{s.keys(lx.o.attrs["_wids"])} returns {items}, should be {want}')


# ---------------------------------------------------------------- C30: pipeline elements

SPL = 'zope.index.text.lexicon.Splitter'
HTM = 'zope.index.text.htmlsplitter.HTMLWordSplitter'
NORM = 'zope.index.text.lexicon.CaseNormalizer'
STOP = 'zope.index.text.lexicon.StopWordRemover'
STOP1 = 'zope.index.text.lexicon.StopWordAndSingleCharRemover'
WORDS = r'\w+'
GLOBS = r'\w+[\w*?]*'
MARKUP = r'<[^<>]*>|&[A-Za-z]+;'
_diff = {}
_agree = {}


def splits_like(s, o, want, html, pat, flags, spec):
    """Where the pattern finds other matches than the documented one, what do the words say?

    A splitter may well use another pattern and make up for it elsewhere."""
    import rx
    from props_pairs import shown, tokens_of, unmarked
    key = (pat, flags, spec, html)
    if key not in _diff:
        _diff[key] = rx.split_differences(pat, flags, spec, 0)
    if not _diff[key]:
        return
    if (key, want) in _agree:
        s.ip.fail(_agree[key, want])
    keep = dict(s.ctx.hooks)
    del s.ctx.hooks['regex']
    for d in _diff[key]:
        for t in (d, 'a' + d + 'b'):
            exp = tokens_of(unmarked(t.lower()) if html else t, want == 'processGlob')
            got = s.keys(s.run(o, want, E.ListObj([t])))
            s.check('C30', got == exp, f'{want}([{t!r}]) is {shown(got)}, should be {shown(exp)}')
    s.ctx.hooks.update(keep)
    _agree[key, want] = f'the pattern {pat!r} differs from {spec!r} on {_diff[key][0]!r}'
    s.ip.fail(_agree[key, want])


def split_hooks(s, o, want, texts, html):
    """Regular expressions on texts: split into tokens, or markup dropped."""
    ctx = s.ctx
    state = {}          # uid of derived string -> (text, lowered, markup dropped)
    for t in texts:
        state[t.uid] = (t, False, False)
    spec = GLOBS if want == 'processGlob' else WORDS

    def tokens(t, low, drop):
        n = ctx.pick(('tokens', t.uid), [1, 0, 2] if t is texts[0] else [1, 0], f'words in {t!r}')
        out = []
        for i in range(n):
            k = ('tok', t.uid, low, drop, i)
            if k not in ctx.derived:
                mark = ('lower ' if low else '') + ('clean ' if drop else '')
                ctx.derived[k] = E.Elem(f'{mark}{t.name}#{i + 1}', 'token', 'str', falsy=False)
            out.append(ctx.derived[k])
        return out

    def put_(t, low, drop):
        k = ('txt', t.uid, low, drop)
        if k not in ctx.derived:
            e = E.Elem(f'{t.name}{".lower" if low else ""}{".clean" if drop else ""}', 'src', 'str')
            ctx.derived[k] = e
            state[e.uid] = (t, low, drop)
        return ctx.derived[k]

    def str_method(ip, o, name, a):
        if isinstance(o, E.Elem) and o.uid in state and name == 'lower':
            t, low, drop = state[o.uid]
            return put_(t, True, drop)
        return E.MISSING

    def regex(ip, sym, name, a, kw):
        pat, flags = sym.args
        if not isinstance(pat, str) or not isinstance(flags, int):
            return E.MISSING
        if name == 'sub' and len(a) >= 2 and isinstance(a[1], E.Elem) and a[1].uid in state:
            t, low, drop = state[a[1].uid]
            splits_like(s, o, want, html, pat, flags, MARKUP)
            if len(a) > 2 or kw:
                ip.fail('sub')
            by = a[0]
            if not isinstance(by, str):
                by = ip.call(by, [E.Sym('match', a[1])], {})
            if not isinstance(by, str):
                ip.fail(f'markup is replaced by {by!r}')
            s.check('C30', by != '' and not any(c.isalnum() or c in '_*?' for c in by),
                    f'markup is replaced by {by!r}, which does not separate words')
            return put_(t, low, True)
        if name in ('findall', 'finditer') and len(a) == 1 and isinstance(a[0], E.Elem) and \
                a[0].uid in state:
            t, low, drop = state[a[0].uid]
            splits_like(s, o, want, html, pat, flags, spec)
            toks = tokens(t, low, drop)
            if name == 'findall':
                return ip.new(E.ListObj(toks))
            return ip.new(E.IterObj([It(match_of(x)) for x in toks]))
        return E.MISSING

    ctx.hooks.update(str_method=str_method, regex=regex)
    return lambda t: tokens(t, html, html)


def match_of(x):
    y = E.Sym('match', x)
    y.info['group'] = x
    return y


@scenario('C30', mains='C30', entry='Splitter, HTMLWordSplitter')
def pipeline_split(s):
    cls = s.pick('splitter', [SPL, HTM])
    want = s.pick('method', ['process', 'processGlob'])
    texts = [s.ctx.elem(f't{i}', 'src', 'str')[0] for i in range(s.pick('texts', [0, 1, 2, 3]))]
    o = s.create(cls)
    toks = split_hooks(s, o, want, texts, cls == HTM) if texts else None
    how = s.pick('texts given as', ['list', 'tuple'])
    arg = tuple(texts) if how == 'tuple' else E.ListObj(texts)
    times = s.pick('calls', [1, 2])
    for _ in range(times):
        s.settle(o, *([arg] if isinstance(arg, E.Obj) else []))
        got = s.run(o, want, arg)
        items = s.ip.single_items(got)
        exp = [w for t in texts for w in toks(t)]
        s.check('C30', list(map(repr, items)) == list(map(repr, exp)),
                f'{want}({texts}) returns {items}, should be {exp}')


@scenario('C30', mains='C30', entry='CaseNormalizer.process')
def pipeline_case(s):
    o = s.create(NORM)
    n = s.pick('words', [0, 1, 2, 3])
    ws = [word(s, f'w{i}') for i in range(n)]
    if n == 3 and s.yes('a word twice'):
        ws[2] = ws[0]
    arg = E.ListObj(ws)
    s.settle(o, arg)
    got = s.run(o, 'process', arg)
    low = [s.ip.lib.str_method(s.ip, w, 'lower', [], {}) for w in ws]
    items = s.ip.single_items(got)
    s.check('C30', len(items) == len(low) and all(a is b for a, b in zip(items, low)),
            f'process({ws}) returns {items}, should be {low}')


@scenario('C30', mains='C30', entry='StopWordRemover.process')
def pipeline_stop(s):
    cls = s.pick('remover', [STOP, STOP1])
    o = s.create(cls)
    stop = s.run(s.prog.load('zope.index.text.stopdict'), 'get_stopdict')
    words = [k for k, _ in stop.d.values()]
    s.check('C30', all(isinstance(w, str) for w in words) and len(words) > 0, 'stop words')
    real = [w for w in words if len(w) > 1]
    single = cls == STOP1
    a, b = word(s, 'a1'), word(s, 'b1')
    s.ctx.hooks['const_eq'] = lambda e, v: False      # not a stop word, not one character
    s.ctx.hooks['sym_len'] = lambda ip, x: None
    seq = s.pick('words', [[], [a], [real[0]], [a, real[0], b, a], [real[-1], a, real[0]],
                           ['b', a], ['x', '\xfe', '\x00', '_'], ['The', a, 'AND'], ['xyz'],
                           real[1:] + [b]])
    want = []
    for w in seq:
        if isinstance(w, str) and (w in real or (len(w) == 1 and (w in SINGLE_STOP or single))):
            continue
        want.append(w)
    arg = E.ListObj(seq)
    s.settle(o, arg)
    got = s.run(o, 'process', arg)
    items = s.ip.single_items(got)
    s.check('C30', list(map(repr, items)) == list(map(repr, want)),
            f'{cls.split(".")[-1]}.process({seq}) returns {items}, should be {want}')


SINGLE_STOP = {'a'}
