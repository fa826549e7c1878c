"""The query parser (C19)."""
import random
import re

import engine as E
from engine import It
from props_field import anchor
from props_lexicon import match_of, word
from scen import reach, scenario

QP = 'zope.index.text.queryparser.QueryParser'
ERR = 'zope.index.text.parsetree.ParseError'
TOKENS = r'[()]|-?(?:"[^"]*"|[^()\s"]+)'
# one letter per kind of token: A and, O or, N not, ( ), atoms that the lexicon makes one word
# (a), no word (s), several words (p) or one glob (g) of, with a hyphen b, t, q
ATOMS = {'a': (1, False), 's': (0, False), 'p': (2, False), 'g': ('glob', False),
         'b': (1, True), 't': (0, True), 'q': (2, True)}
SHOW = {'A': 'AND', 'O': 'OR', 'N': 'NOT', 'a': 'word', 's': 'stop', 'p': 'two-words',
        'g': 'glob*', 'b': '-word', 't': '-stop', 'q': '-two-words'}
KW = {'A': 'AND', 'O': 'OR', 'N': 'NOT'}


def moves(state, atoms):
    """Tokens that can follow, with the state after them."""
    depth, at = state
    out = []
    if at in ('need', 'and'):
        out += [(c, (depth, 'atom')) for c in atoms]
        out.append(('(', (depth + 1, 'need')))
        if at == 'and':
            out.append(('N', (depth, 'need')))
    else:
        if at == 'atom':
            out += [(c, (depth, 'atom')) for c in atoms]
        out += [('A', (depth, 'and')), ('O', (depth, 'need')), ('N', (depth, 'need'))]
        if depth:
            out.append((')', (depth - 1, 'closed')))
    return out


def sequences(n, atoms):
    """All prefixes of queries of up to n tokens, and each with one token that cannot follow."""
    level = [('', (0, 'need'))]
    out = []
    for k in range(n + 1):
        nxt = []
        for w, st in level:
            out.append(w)
            if k == n:
                continue
            mv = moves(st, atoms)
            good = {c for c, _ in mv}
            for c in list(KW) + ['(', ')', atoms[0]]:
                if c not in good:
                    out.append(w + c)
                    if k + 1 < n:
                        out.append(w + c + atoms[0])
            nxt += [(w + c, s) for c, s in mv]
        level = nxt
    return out


def samples(count, atoms):
    """Longer queries, evenly spread over what may follow what."""
    rnd = random.Random(19)
    out = set()
    while len(out) < count:
        n, st, w = rnd.randint(6, 14), (0, 'need'), ''
        while len(w) < n or st[1] in ('need', 'and'):
            mv = moves(st, atoms)
            kind = rnd.choice(sorted({c if c in 'AON()' else '' for c, _ in mv}))
            c, st = rnd.choice([m for m in mv if (m[0] if m[0] in 'AON()' else '') == kind])
            w += c
        w += ')' * st[0]
        if rnd.random() < 0.1:
            i = rnd.randrange(len(w))
            w = w[:i] + w[i + 1:]
        out.add(w)
    return sorted(out)


class Bad(Exception):
    pass


def grammar(seq):
    """The tree the documented grammar prescribes: nested lists over token positions.

    Returns (tree or None, positions of ignored atoms); raises Bad."""
    pos = [0]
    ignored = []

    def cur():
        return seq[pos[0]] if pos[0] < len(seq) else ''

    def expr():
        parts = [conj()]
        while cur() == 'O':
            pos[0] += 1
            parts.append(conj())
        return join('OR', parts)

    def conj():
        yes, no = [term()], []
        while cur() in ('A', 'N') and cur():
            neg = cur() == 'N'
            pos[0] += 1
            if not neg and cur() == 'N':
                neg = True
                pos[0] += 1
            (no if neg else yes).append(term())
        if all(t is None for t in yes):
            return None
        return join('AND', yes + [('NOT', t) for t in no if t is not None])

    def term():
        if cur() == '(':
            pos[0] += 1
            t = expr()
            if cur() != ')':
                raise Bad()
            pos[0] += 1
            return t
        if not cur() or cur() not in ATOMS:
            raise Bad()
        yes, no = [], []
        while cur() and cur() in ATOMS:
            n, hyphen = ATOMS[cur()]
            if n == 0:
                ignored.append(pos[0])
            else:
                leaf = ({1: 'ATOM', 2: 'PHRASE', 'glob': 'GLOB'}[n], pos[0])
                no.append(('NOT', leaf)) if hyphen else yes.append(leaf)
            pos[0] += 1
        if no and not yes:
            raise Bad()
        return join('AND', yes + no)

    def join(kind, parts):
        parts = [p for p in parts if p is not None]
        return None if not parts else parts[0] if len(parts) == 1 else (kind, parts)

    t = expr()
    if pos[0] != len(seq):
        raise Bad()
    return t, ignored


class Query:
    """Abstract tokens for a sequence of kinds, and the lexicon that knows them."""

    def __init__(self, s, seq, tag=''):
        self.s, self.seq = s, seq
        self.query = s.ctx.elem(f'query{tag}', 'query', 'str')[0]
        self.toks, self.words, self.rest = [], {}, {}
        for i, c in enumerate(seq):
            if c in '()':
                self.toks.append(c)
                continue
            e = E.Elem(f'{SHOW[c]}{tag}{i}', 'qtoken', 'str', falsy=False, info={'tok': c})
            self.toks.append(e)
            if c in ATOMS:
                n = ATOMS[c][0]
                ws = [E.Elem(f'w{i}.{k}', 'qword', 'str', falsy=False)
                      for k in range({'glob': 1}.get(n, n))]
                if n == 'glob' or n == 2:
                    ws[-1].info['glob'] = True
                self.words[e.uid] = ws


def install(s, queries):
    ctx = s.ctx
    by = {q.query.uid: q for q in queries}
    words = {u: ws for q in queries for u, ws in q.words.items()}
    base = {}           # derived token -> token

    def derived(e, how, strip=False):
        k = (e.uid, 'tok', how)
        if k not in ctx.derived:
            d = E.Elem(f'{e!r}.{how}', 'qtoken', 'str', falsy=False,
                       info={'tok': e.info['tok'], 'strip': strip})
            ctx.derived[k] = d
            base[d.uid] = base.get(e.uid, e)
        return ctx.derived[k]

    def tok(e):
        return e.info.get('tok') if isinstance(e, E.Elem) else None

    def hyphen(e):
        return tok(e) in ATOMS and ATOMS[tok(e)][1] and not e.info.get('strip')

    def const_eq(e, o):
        c = tok(e)
        if c is None or not isinstance(o, str):
            return None
        if c in KW:
            return None if o.upper() == KW[c] else False
        if o == '-' and ATOMS[c][0] == 0 and hyphen(e):
            return None
        return False if o.upper() in list(KW.values()) + ['(', ')', '', '-', 'EOF', 'ATOM'] \
            else None

    def str_method(ip, o, name, a):
        c = tok(o)
        if c is None:
            return E.MISSING
        if name in ('upper', 'lower', 'casefold', 'swapcase', 'title', 'capitalize') and not a:
            if c in KW:
                return getattr(KW[c], name)() if name != 'swapcase' else E.MISSING
            return derived(o, name, o.info.get('strip', False))
        if name == 'startswith' and len(a) == 1 and isinstance(a[0], str):
            if a[0] == '':
                return True
            if a[0] == '-':
                return hyphen(o)
            if a[0][0] in '()' or c in KW and a[0] == '"':
                return False
        if name in ('lstrip', 'removeprefix') and a == ['-']:
            return derived(o, 'rest', True) if hyphen(o) else o
        return E.MISSING

    def sym_item(ip, o, k):
        c = tok(o)
        if c is None:
            return E.MISSING
        if k == 0 or isinstance(k, slice) and (k.start, k.stop, k.step) in (
                (None, 1, None), (0, 1, None)):
            if hyphen(o):
                return '-'
            d = derived(o, 'first')
            d.info = {'first': True}
            return d
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (1, None, None):
            return derived(o, 'rest' if hyphen(o) else 'tail', True)
        return E.MISSING

    def old_eq(e, o):
        if isinstance(e, E.Elem) and e.info.get('first') and o == '-':
            return False
        return const_eq(e, o)

    def regex(ip, sym, name, a, kw):
        pat, flags = sym.args
        if name in ('findall', 'finditer') and len(a) == 1 and isinstance(a[0], E.Elem) and \
                a[0].uid in by and isinstance(pat, str) and isinstance(flags, int):
            splits_like(s, pat, flags)
            ts = by[a[0].uid].toks
            if name == 'findall':
                return ip.new(E.ListObj(list(ts)))
            return ip.new(E.IterObj([It(match_of(x)) for x in ts]))
        return E.MISSING

    def parse_terms(ip, a, kw):
        vals = list(a) + list(kw.values())
        if len(vals) != 1:
            raise ip.exc('TypeError', 'parseTerms')
        ts = [vals[0]] if isinstance(vals[0], E.Elem) else ip.single_items(vals[0])
        out = []
        for t in ts:
            b = base.get(t.uid, t) if isinstance(t, E.Elem) else None
            if b is None or b.uid not in words or t.name.endswith(('.upper', '.lower', '.tail')):
                ip.fail(f'parseTerms({t!r})')
            out += words[b.uid]
        return ip.new(E.ListObj(out))

    def is_glob(ip, a, kw):
        if len(a) != 1 or not isinstance(a[0], E.Elem):
            ip.fail('isGlob')
        if a[0].sort != 'qword':
            # wildcards of the token need not survive the pipeline
            return ctx.ask(('isglob', a[0].uid), f'isGlob({a[0]!r})')
        return bool(a[0].info.get('glob'))

    lex = E.StubObj('lexicon')
    lex.attrs['parseTerms'] = E.NativeV('parseTerms', parse_terms)
    lex.attrs['isGlob'] = E.NativeV('isGlob', is_glob)
    ctx.hooks.update(const_eq=old_eq, str_method=str_method, sym_item=sym_item, regex=regex)
    return lex


_split = {}
_agree = {}


def splits_like(s, pat, flags):
    """Where the pattern finds other tokens than the documented ones, what does the parser say?"""
    import rx
    if (pat, flags) not in _split:
        _split[pat, flags] = rx.split_differences(pat, flags, TOKENS, 0)
    if not _split[pat, flags]:
        return
    if (pat, flags) in _agree:
        s.ip.fail(_agree[pat, flags])
    keep = dict(s.ctx.hooks)
    del s.ctx.hooks['regex']
    o = s.create(QP, word_lexicon())
    for d in _split[pat, flags]:
        for q in (d, 'a' + d + 'b', 'foo ' + d):
            toks = re.findall(TOKENS, q)
            parse_words(s, o, classes(toks, STOP), toks, q)
    s.ctx.hooks.update(keep)
    _agree[pat, flags] = f'the pattern {pat!r} differs from {TOKENS!r} on {_split[pat, flags][0]!r}'
    s.ip.fail(_agree[pat, flags])


def describe(s, q, node, depth=0):
    """The tree in the form of the oracle."""
    if depth > 90 or not isinstance(node, E.InstObj):
        return repr(node)
    kind = s.run(node, 'nodeType')
    val = s.run(node, 'getValue')
    if kind in ('AND', 'OR'):
        return (kind, [describe(s, q, x, depth + 1) for x in s.ip.single_items(val)])
    if kind == 'NOT':
        return (kind, describe(s, q, val, depth + 1))
    ws = [val] if isinstance(val, E.Elem) else s.ip.single_items(val)
    for i, t in enumerate(q.toks):
        if isinstance(t, E.Elem) and t.uid in q.words and \
                [x.uid for x in q.words[t.uid]] == [getattr(w, 'uid', None) for w in ws] and \
                isinstance(val, E.Elem) == (len(ws) == 1) and ws:
            return (kind, i)
    return (kind, repr(val))


def text(seq):
    return ' '.join(SHOW.get(c, c) for c in seq) or '(nothing)'


def parse_one(s, o, q, how):
    n = 200 + 10 * len(q.seq)
    s.ctx.hooks.update(loop_max=n, while_bound=n, max_depth=60 + 10 * len(q.seq))
    try:
        parse_checked(s, o, q, how)
    except E.PathBounded as e:
        # no terminating parser loops or recurses that often
        s.check('C19', False, f'parsing the query {text(q.seq)} does not end ({e})')


def parse_checked(s, o, q, how):
    seq, P = q.seq, 'C19'
    try:
        tree, ignored = grammar(seq)
        if tree is None:
            raise Bad()
    except Bad:
        s.expect_raise(P, o, how, ERR, q.query)
        return
    k, v = s.op(o, how, q.query)
    if k == 'raise':
        s.check(P, False, f'the query {text(seq)} raises {v!r}, should be parsed as {tree}',
                getattr(v, 'loc', None))
        return
    ign = None
    if how == 'parseQueryEx':
        s.check(P, isinstance(v, tuple) and len(v) == 2, f'parseQueryEx returns {v!r}')
        v, ign = v
    got = describe(s, q, v)
    s.check(P, got == tree, f'the query {text(seq)} is parsed as {got}, should be {tree}')
    if how != 'parseQueryEx':
        ign = s.run(o, 'getIgnored')
    items = s.ip.single_items(ign)
    want = [q.toks[i] for i in ignored]
    s.check(P, len(items) == len(want) and all(a is b for a, b in zip(items, want)),
            f'the query {text(seq)} reports {items} as ignored, should be {want}')


def shard(n, i, seqs):
    return [x for k, x in enumerate(seqs) if k % n == i]


def parser_scenario(i, n):
    def f(s):
        deep = s.tier != 'quick'
        key = ('seqs', deep)
        if key not in _split:
            a = sequences(4 if deep else 3, 'asgpbtq')
            b = sequences(6 if deep else 5, 'asb')
            c = sequences(8 if deep else 7, 'a')
            c += samples(12000 if deep else 1500, 'asgpbtqaass')
            _split[key] = sorted(set(a + b + c), key=lambda x: (len(x), x))
        seq = s.pick('tokens', shard(n, i, _split[key]))
        q = Query(s, seq)
        o = s.create(QP, install(s, [q]))
        s.settle(o)
        parse_one(s, o, q, 'parseQuery')
    f.__name__ = f'parser_{i}'
    scenario('C19', mains='C19', entry='QueryParser.parseQuery, getIgnored')(f)


for _i in range(8):
    parser_scenario(_i, 8)


@scenario('C19', mains='C19', entry='QueryParser.parseQueryEx, parseQuery after another query')
def parser_again(s):
    """One parser, two queries: the first leaves nothing behind."""
    first = s.pick('first query', ['', 's', 'asb', 'a)', '(aOs', 'sNa', 'tOs', 'aA', 'asOgNp', 'ssa', 'sasAsOsNa'])
    second = s.pick('second query', sequences(2, 'asgpbtq') + ['asOta', 'aANs', '(aOs)Ab', 'sas', 'ssassAsOas'])
    q1, q2 = Query(s, first, 'x'), Query(s, second, 'y')
    o = s.create(QP, install(s, [q1, q2]))
    s.settle(o)
    h1 = s.pick('first by', ['parseQuery', 'parseQueryEx'])
    parse_one(s, o, q1, h1)
    parse_one(s, o, q2, 'parseQueryEx' if h1 == 'parseQuery' else 'parseQuery')


LONG = ['a' + 'Aa' * 30, 'a' + 'Oa' * 30, 'a' + 'Na' * 30, 'a' + 'ANa' * 15, 'a' * 40, 'as' * 20,
        'ab' * 20, 'p' * 30, 's' + 'As' * 12, 's' + 'Os' * 12 + 'Oa', '(' * 20 + 'a' + ')' * 20,
        '(' * 8 + 'a' + 'Oa)' * 8, '(aOb)' + 'A(aOab)' * 9, '(aAa)' + 'O(aNa)' * 9,
        'aOaAaOaAaNaOa' * 1 + 'AaOsAa', 'a' + 'O(a' * 15 + ')' * 15, 'a' + 'N(a' * 12 + ')' * 12,
        'aAs' * 1 + 'AaAs' * 8, 's' * 30 + 'a', 'a' + 's' * 30, 'a' + 'Aa' * 20 + 'A',
        '(' * 12 + 'a' + ')' * 11, '(' * 12 + 'a' + ')' * 13, 'a' + 'Oa' * 20 + ')',
        'a' + 'Aa' * 12 + 'Ab', 'b' * 12 + 'a', 'b' * 20, 'g' + 'Og' * 20, 'pgab' * 8]


@scenario('C19', mains='C19', entry='QueryParser.parseQuery, long queries')
def parser_long(s):
    q = Query(s, s.pick('tokens', LONG))
    o = s.create(QP, install(s, [q]))
    s.settle(o)
    parse_one(s, o, q, 'parseQuery')


# ---------------------------------------------------------------- queries word for word

STOP = ('the', 'of')
LITERAL = {'a': ['foo', 'bar', 'Foo', 'andy', 'n\xe9', 'or2', 'x', '"foo"', 'x_y'],
           's': ['the', 'of', 'the', '"the of"', '""', '.', 'the.the'],
           'p': ['"foo bar"', 'foo.bar', '"bar the foo"', 'foo.foo', '"and or"', '"b (c"',
                 '"fo* bar"'],
           'g': ['fo*', 'b?r', '*', '"?"'], 'b': ['-foo', '-bar', '-"foo"', '--x', '-and'],
           't': ['-the', '-', '-of', '-""'], 'q': ['-"foo bar"', '-foo-bar', '-"not not"'],
           'A': ['and', 'AND', 'And', 'aND'], 'O': ['or', 'OR', 'oR', 'Or'],
           'N': ['not', 'NOT', 'Not', 'noT'], '(': ['('], ')': [')']}


def terms_of(text, stop=STOP):
    return [w for w in re.findall(r'[\w*?]+', text) if w not in stop]


def spell(seq, start, step):
    """Words for the tokens of seq."""
    count = {}
    toks = []
    for c in seq:
        k = count[c] = count.get(c, -1) + 1
        pool = LITERAL[c]
        toks.append(pool[(start + step * k) % len(pool)])
    return toks


def word_lexicon(stop=STOP):
    """A lexicon whose pipeline splits words and drops stop words."""
    lex = E.StubObj('lexicon')

    def parse_terms(ip, a, kw):
        ts = [a[0]] if isinstance(a[0], str) else ip.single_items(a[0])
        return ip.new(E.ListObj([w for t in ts for w in terms_of(t, stop)]))
    lex.attrs['parseTerms'] = E.NativeV('parseTerms', parse_terms)
    lex.attrs['isGlob'] = E.NativeV('isGlob', lambda ip, a, kw: '*' in a[0] or '?' in a[0])
    return lex


def parse_words(s, o, seq, toks, query, stop=STOP, note=''):
    """o.parseQueryEx(query) for a query of known words; seq are the tokens' classes."""
    n = 200 + 10 * len(seq)
    s.ctx.hooks.update(loop_max=n, while_bound=n, max_depth=60 + 10 * len(seq))
    P = 'C19'

    def literally(t):
        if t is None:
            return None
        if t[0] in ('AND', 'OR'):
            return (t[0], [literally(x) for x in t[1]])
        if t[0] == 'NOT':
            return (t[0], literally(t[1]))
        ws = terms_of(toks[t[1]], stop)
        return (t[0], ws if t[0] == 'PHRASE' else ws[0])

    def shown(node, depth=0):
        if depth > 90 or not isinstance(node, E.InstObj):
            return repr(node)
        kind, val = s.run(node, 'nodeType'), s.run(node, 'getValue')
        if kind in ('AND', 'OR'):
            return (kind, [shown(x, depth + 1) for x in s.ip.single_items(val)])
        if kind == 'NOT':
            return (kind, shown(val, depth + 1))
        return (kind, val if isinstance(val, str) else s.ip.single_items(val))
    try:
        tree, ignored = grammar(seq)
        if tree is None:
            raise Bad()
    except Bad:
        s.expect_raise(P, o, 'parseQueryEx', ERR, query)
        return
    want = literally(tree)
    k, v = s.op(o, 'parseQueryEx', query)
    if k == 'raise':
        s.check(P, False, f'the query {query!r} raises {v!r}, should be parsed as {want}{note}',
                getattr(v, 'loc', None))
    s.check(P, isinstance(v, tuple) and len(v) == 2, f'parseQueryEx returns {v!r}')
    got = shown(v[0])
    s.check(P, got == want, f'the query {query!r} is parsed as {got}, should be {want}{note}')
    ign = s.ip.single_items(v[1])
    want = [toks[i] for i in ignored]
    s.check(P, ign == want,
            f'the query {query!r} reports {ign} as ignored, should be {want}{note}')


@scenario('C19', mains='C19', entry='QueryParser.parseQueryEx, queries word for word')
def parser_literal(s):
    more = ['aOaAaNa', 'saAsaOsNa', 'ssassOss', 'abAaqNg', '(aOp)N(gOp)', 'a(a', 'aA(sOs)Oa', 'sOsAs',
            'aaaa', 'ssss', 'bAa', 'aAbOa', 'tsa', 'ppgg', '((a)A(bO(c)))'.replace('c', 'p')]
    seqs = sequences(2 if s.tier == 'quick' else 3, 'asgpbtq') + more + LONG
    seq = s.pick('tokens', seqs)
    step, start = s.pick('words', [(0, 0), (1, 0)] if len(seq) > 2 or s.tier != 'quick' else
                         [(0, 0), (1, 1), (0, 2), (1, 3), (0, 4), (0, 5), (0, 6)])
    toks = spell(seq, start, step)
    space = {0: ' ', 1: '  ', 3: '\n'}.get(start, ' ')
    o = s.create(QP, word_lexicon())
    s.settle(o)
    parse_words(s, o, seq, toks, space.join(toks))


def classes(toks, stop):
    """The tokens' classes for a lexicon with other stop words."""
    out = ''
    for t in toks:
        if t in ('(', ')'):
            out += t
        elif t.upper() in ('AND', 'OR', 'NOT'):
            out += t[0].upper()
        else:
            ws = terms_of(t, stop)
            k = 's' if not ws else 'p' if len(ws) > 1 else \
                'g' if '*' in ws[0] or '?' in ws[0] else 'a'
            out += {'s': 't', 'p': 'q', 'a': 'b'}.get(k, k) if t[0] == '-' else k
    return out


@scenario('C19', mains='C19', entry='QueryParser.parseQueryEx, one query and several lexicons')
def parser_lexicons(s):
    """What a query means is up to the parser's own lexicon, as it is at that time."""
    query = s.pick('query', ['foo the bar', 'the OR foo', 'foo AND NOT bar', 'foo-bar', '"the foo"',
                             'foo -the', 'bar', 'foo'])
    toks = query.split() if '"' not in query else [query]
    lex = word_lexicon()
    o = s.create(QP, lex)
    stop = ('foo', 'x')
    how = s.pick('second lexicon', ['of another parser', 'set afterwards', 'of a later parser'])
    if how == 'of another parser':
        o2 = s.create(QP, word_lexicon(stop))
    s.settle(o)
    if s.yes('the other first') and how == 'of another parser':
        o, o2, stop, first = o2, o, STOP, stop
    else:
        first = STOP
    parse_words(s, o, classes(toks, first), toks, query, first)
    if how == 'set afterwards':
        # the same lexicon after a change of its pipeline
        o2 = o
        lex.attrs['parseTerms'] = word_lexicon(stop).attrs['parseTerms']
    elif how == 'of a later parser':
        o2 = s.create(QP, word_lexicon(stop))
    parse_words(s, o2, classes(toks, stop), toks, query, stop,
                f', although it is parsed with the stop words {list(stop)}')
    if o2 is not o:
        parse_words(s, o, classes(toks, first), toks, query, first, ', when parsed again')
