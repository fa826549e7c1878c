"""Several queries after each other, and concrete words: no query leaves anything behind."""
import engine as E
from num import Num
from props_field import FI, Field, docid, ranked
from props_keyword import CI, KI, TI, Topic, Words, expected, word
from props_lexicon import Lex, counted
from props_many import Numbers
from props_score import Query, c_scorer, check_scores, prop_of
from props_text import CO, OK, Text, text, wid
from scen import scenario


@scenario('C18', 'C11', mains='C18', entry='Lexicon.globToWordIds, one pattern after another')
def glob_pairs(s):
    words = ['fo', 'foo', 'foot', 'fox', 'fo.x', 'bar', 'f', 'f\nx', 'zoo']
    lx = Lex(s, [(w, i + 1) for i, w in enumerate(words)])
    counted(s, lx, len(words))
    s.settle(lx.o)
    pats = {'fo*': [1, 2, 3, 4, 5], 'fo?': [2, 4], 'f*': [1, 2, 3, 4, 5, 7, 8], 'fo?x': [5],
            'foo': [2], 'f?x': [4, 8]}
    for i in range(2):
        p = s.pick(f'pattern {i}', list(pats))
        got = sorted(s.keys(s.run(lx.o, 'globToWordIds', p)))
        s.check('C18', got == pats[p], f'{p} gives {got}, should be {pats[p]}')
    s.rule_pure('C11', 'globToWordIds')
    s.run(lx.o, 'sourceToWordIds', E.ListObj(['foa', 'fob', 'f']))
    got = sorted(s.keys(s.run(lx.o, 'globToWordIds', p)))
    d = lx.o.attrs['_wids'].d
    new = [d[E.hk(w)][1] for w in ('foa', 'fob') if p in ('fo*', 'f*', 'fo?')]
    s.check('C18', len(got) == len(pats[p]) + len(new) and all(x in got for x in new),
            f'after two more words {p} gives {got}, should be {pats[p] + new}')


@scenario('C05', mains='C05', entry='KeywordIndex, one query after another')
def keyword_pairs(s):
    a, b, c = (word(s, n)[0] for n in 'abc')
    d, e, f, g = (docid(s, n, rank=i) for i, n in enumerate('defg'))
    cls = [(d, [a, b]), (e, [a]), (f, [b, c]), (g, [c])]
    k = Words(s, cls)
    s.settle(k.o)
    for i in range(s.pick('queries', [2, 3]) if s.tier != 'quick' else 2):
        ws, op = s.pick(f'query {i}', [([a, b], 'and'), ([a, c], 'or'), ([c], 'and'), ([b], 'or')])
        how = s.pick(f'query {i} by', ['search', 'apply', 'search default', 'apply default'] if
                     op == 'and' else ['search', 'apply'])
        if how == 'search':
            r = s.run(k.o, 'search', E.ListObj(ws), op)
        elif how == 'search default':
            r = s.run(k.o, 'search', E.ListObj(ws))
        else:
            r = s.run(k.o, 'apply', s.ip.new(E.MapObj(None, [
                ('query', E.ListObj(ws))] + ([('operator', op)] if how == 'apply' else []))))
        want = expected(cls, ws, op)
        s.check('C05', isinstance(r, (E.SetObj, E.MapObj)) and s.same_keys(r, want),
                f'query {i + 1}, {how} of {ws} ({op}), finds {s.keys(r)}, should be {want}')


@scenario('C07', mains='C07', entry='TopicIndex, one query after another')
def topic_pairs(s):
    ids = [s.ctx.elem(n, 'filterid', 'str')[0] for n in 'abc']
    exprs = [s.ctx.elem('expr ' + n, 'expr', 'str')[0] for n in 'abc']
    d, e, f = (docid(s, n, rank=i) for i, n in enumerate('def'))
    pre = [[d, e], [d, f], [f]]
    t = Topic(s, list(zip(ids, exprs, pre)))
    s.settle(t.o)
    for i in range(2):
        q, op = s.pick(f'query {i}', [([0, 1], 'and'), ([0, 1], 'or'), ([2], 'and'), ([2, 0], 'or')])
        how = s.pick(f'query {i} by', ['search', 'apply', 'search default', 'apply default'] if
                     op == 'and' else ['search', 'apply'])
        ws = [ids[j] for j in q]
        if how == 'search':
            r = s.run(t.o, 'search', E.ListObj(ws), op)
        elif how == 'search default':
            r = s.run(t.o, 'search', E.ListObj(ws))
        elif how == 'apply default':
            r = s.run(t.o, 'apply', E.ListObj(ws))
        else:
            r = s.run(t.o, 'apply', s.ip.new(E.MapObj(None, [
                ('query', E.ListObj(ws)), ('operator', op)])))
        want = [x for x in (d, e, f) if (all if op == 'and' else any)(x in pre[j] for j in q)]
        s.check('C07', s.same_keys(r, want),
                f'query {i + 1}, {how} of {ws} ({op}), finds {s.keys(r)}, should be {want}')


@scenario('C02', 'C03', mains='C02 C03', entry='FieldIndex, one query after another')
def field_pairs(s):
    vs = ranked(s, 4)
    docs = [docid(s, n, rank=i) for i, n in enumerate('defg')]
    order = [2, 0, 3, 1]
    f = Field(s, [(docs[i], vs[r]) for i, r in enumerate(order)])
    s.settle(f.o)
    for i in range(2):
        if s.prop == 'C02':
            lo, hi = s.pick(f'range {i}', [(0, 1), (2, 3), (None, 1), (1, None), (None, None), (2, 2),
                                           (3, 0)])
            q = (None if lo is None else vs[lo], None if hi is None else vs[hi])
            r = s.run(f.o, 'apply', q)
            want = [d for d, k in zip(docs, order)
                    if (lo is None or k >= lo) and (hi is None or k <= hi)]
            s.check('C02', s.same_keys(r, want), f'query {i + 1}, apply({q!r}), finds {s.keys(r)}, '
                    f'should be {want}')
        else:
            ask = s.pick(f'docids {i}', [docs, docs[:2], docs[1:]])
            rev = s.yes(f'reverse {i}')
            lim = s.pick(f'limit {i}', [None, 1, 2])
            r = s.keys(s.run(f.o, 'sort', s.container('IF', 'Set', ask), reverse=rev,
                             **({} if lim is None else {'limit': lim})))
            want = sorted(ask, key=lambda d: order[d.rank], reverse=rev)[:lim]
            s.check('C03', r is not None and len(r) == len(want) and
                    all(x is y for x, y in zip(r, want)),
                    f'call {i + 1}, sort({ask}, limit={lim}, reverse={rev}), yields {r}, should be {want}')


def text_pairs(s, kind):
    c_scorer(s)
    P = prop_of(kind)
    a, b, z = (wid(s, n)[0] for n in 'abz')
    for i, w in enumerate((a, b, z)):
        w.rank = i
    t = Pairs(s, kind, [], [(docid(s, n, rank=i), ws) for i, (n, ws) in enumerate(
        [('d', [a]), ('e', [a, b]), ('f', [b]), ('g', [z])])])
    q = Query(s, t)
    terms = {}
    for n, seq in (('a', [a]), ('b', [b]), ('ab', [a, b]), ('0', [0]), ('aa', [a, a])):
        terms[n] = x, g, seq = text(s, 'term ' + n), text(s, 'pattern ' + n), seq
        t.lex.tables['termToWordIds', E.hk(x)] = seq
        t.lex.tables['globToWordIds', E.hk(g)] = seq
    s.settle(t.o)
    for i in range(2):
        op = s.pick(f'operation {i}', ['search', 'search_glob', 'query_weight'])
        x, g, seq = terms[s.pick(f'term {i}', list(terms))]
        what = f'query {i + 1}, {op} for {seq},'
        if op == 'query_weight':
            r = s.run(t.o, op, E.ListObj([x]), props=P)
            s.check(P, s.same_num(r, q.weight(seq)), f'{what} is {r!r}, should be {q.weight(seq)}')
        else:
            r = s.run(t.o, op, x if op == 'search' else g, props=P)
            check_scores(s, P, r, q.union(seq), what)


class Pairs(Numbers):
    def weight_atom(self, d, w):
        return Num.const(1 + (d.rank + w.rank) % 3)


@scenario('C24', mains='C24', entry='OkapiIndex, one query after another')
def okapi_pairs(s):
    text_pairs(s, OK)


@scenario('C24', mains='C24', entry='OkapiIndex, one query after another, Python scorer',
          pure=True)
def okapi_pairs_python(s):
    text_pairs(s, OK)


@scenario('C28', mains='C28', entry='CosineIndex, one query after another')
def cosine_pairs(s):
    text_pairs(s, CO)


# ---------------------------------------------------------------- phrases, literally

# ids with codes of one to four characters, some special to regular expressions
IDS = [1, 2, 3, 10, 42, 46, 91, 92, 127, 128, 129, 130, 255, 256, 298, 5000, 5418, 5419,
       (1 << 14) - 1, 1 << 14, (1 << 14) + 5, (1 << 14) + 298, (1 << 21) - 1, 1 << 21,
       (1 << 21) + 92, (1 << 28) - 1]


@scenario('C21', mains='C21', entry='BaseIndex.index_doc, search_phrase, get_words')
def phrase_literal(s):
    """Long and changing documents of given words ids, with the codes they really have."""
    kind = s.pick('index', [OK, CO])
    t = Text(s, kind, [], [])
    c_scorer(s)
    s.ctx.hooks['summaries'].clear()
    n = s.pick('words around the phrase', [0, 3] + ([5000] if kind == OK or
                                                    s.tier != 'quick' else [20]))
    fill = [IDS[(7 * i + i // 20) % len(IDS)] for i in range(n)]
    fill = [i for i in fill if i not in (46, 5418)]
    phrase = [46, 5418]
    texts = {'after': fill + phrase, 'before': phrase + fill, 'between': fill + phrase + fill[:9],
             'apart': [46] + fill[:9] + [127] + [5418], 'reversed': fill[:99] + phrase[::-1],
             'only second': fill[:50] + [5418]}
    terms = {}

    def add(name, seq):
        terms[name] = x = text(s, name)
        t.lex.tables['sourceToWordIds', E.hk(x)] = seq
        t.lex.tables['termToWordIds', E.hk(x)] = seq
        return x
    for name, seq in texts.items():
        add(name, seq)
    q = add('phrase', phrase)
    q2 = add('other phrase', [127, 5418])
    docs = {name: docid(s, name, rank=i) for i, name in enumerate(texts)}
    s.settle(t.o)
    now = {}
    for name in texts:
        s.run(t.o, 'index_doc', docs[name], terms[name])
        now[name] = texts[name]

    def verify(what, q, phrase):
        k = len(phrase)
        want = [docs[m] for m, seq in now.items()
                if any(seq[i:i + k] == phrase for i in range(len(seq) - k + 1))]
        r = s.run(t.o, 'search_phrase', q)
        s.check('C21', isinstance(r, E.MapObj) and s.same_keys(r, want),
                f'{what} the phrase {phrase} is found in {s.keys(r)}, should be {want}')
    verify('at first', q, phrase)
    verify('at first', q2, [127, 5418])
    verify('a second time', q, phrase)
    changes = [('after', 'apart'), ('reversed', 'between'), ('apart', 'before'), ('before', None)]
    name, other = s.pick('change', changes if n < 30 else changes[1:2])
    if other is None:
        s.run(t.o, 'unindex_doc', docs[name])
        del now[name]
    else:
        s.run(t.o, 'index_doc', docs[name], terms[other])
        now[name] = texts[other]
    verify('after a change', q, phrase)
    verify('after a change', q2, [127, 5418])
    for name, seq in now.items():
        got = s.keys(s.run(t.o, 'get_words', docs[name]))
        s.check('C21', got == seq, f'the document {name!r} of {len(seq)} words has the words '
                f'{got if len(seq) < 20 else len(got)}')


# ---------------------------------------------------------------- texts, literally

LX = 'zope.index.text.lexicon.'
PIECES = ['', ' ', '.', 'The quick  brown-fox', "don't", 'foo_bar _x_ __', 'a1 1a 22', 'x' * 3000,
          'N\xc9E \xdf \u01c5 na\xefve \u4e2d\u6587 \u0660\u0661 \u2160 \xb2 \U0001d400',
          'fo* b?r *a ?b c** *? a*b?c', 'line\nnext\r\n\tlast\x00nul\x1f\x85\u2028\ufeffx', 'e\u0301t\xe9',
          'w' + ' w v' * 900, 'the THE The of a I', 'a' * 254 + ' ' + 'b' * 256, '\xad\u200d\u0130I\u0131']
MARKED = ['<b>Bold</b>text', 'a<br>b', '<a\nhref="x y">L</a>', 'x < y > z', 'a << b >> c', 'x<y', 'x>y',
          '&amp; &AMP;b &#39; &lt;p&gt; &x', '<!-- c <b> d -->', '<<b>c>', 'AT&T; R&D', '<>e</>', '<a*?>f*</a>?g',
          '<script>v</script>', '&eacute;t', '<p title="a>b">q', '<' + 'x' * 2000 + '>y', '&a1; &a_b; &;']


def is_word(c):
    return c.isalnum() or c == '_'


def tokens_of(text, glob=False):
    out, cur = [], ''
    for c in text:
        if is_word(c) or glob and cur and c in '*?':
            cur += c
        else:
            out.append(cur)
            cur = ''
    return [w for w in out + [cur] if w]


def unmarked(text):
    out, i = '', 0
    while i < len(text):
        j = i + 1
        if text[i] == '<':
            while j < len(text) and text[j] not in '<>':
                j += 1
            if j < len(text) and text[j] == '>':
                out, i = out + ' ', j + 1
                continue
        elif text[i] == '&':
            while j < len(text) and text[j].isascii() and text[j].isalpha():
                j += 1
            if j < len(text) and text[j] == ';' and j > i + 1:
                out, i = out + ' ', j + 1
                continue
        out += text[i]
        i += 1
    return out


def shown(x):
    x = repr(x)
    return x if len(x) < 200 else f'{x[:90]}...{x[-90:]}'


@scenario('C30', mains='C30', entry='Splitter, HTMLWordSplitter, on given texts')
def split_literal(s):
    cls = s.pick('splitter', ['lexicon.Splitter', 'htmlsplitter.HTMLWordSplitter'])
    html = cls.startswith('html')
    pieces = PIECES + MARKED
    n = s.pick('text', list(range(len(pieces))))
    texts = s.pick('with', [[], pieces[3:6] + pieces[3:4]])
    texts = texts[:2] + [pieces[n]] + texts[2:]
    o = s.create('zope.index.text.' + cls)
    meth = s.pick('method', ['process', 'processGlob'])
    want = [w for t in texts for w in tokens_of(unmarked(t.lower()) if html else t,
                                                meth == 'processGlob')]
    arg = E.ListObj(texts)
    s.settle(o, arg)
    got = s.keys(s.run(o, meth, arg))
    s.check('C30', got == want, f'{cls}.{meth}({shown(texts)}) is {shown(got)}, '
            f'should be {shown(want)}')


@scenario('C30', mains='C30', entry='CaseNormalizer, StopWordRemover, on given words')
def words_literal(s):
    cls = s.pick('element', ['CaseNormalizer', 'StopWordRemover', 'StopWordAndSingleCharRemover'])
    stop = s.run(s.prog.load('zope.index.text.stopdict'), 'get_stopdict')
    stops = [k for k, _ in stop.d.values()]
    own = tokens_of(' '.join(PIECES[3:]))
    words = s.pick('words', [own, stops, stops[::2] + own[:9] + stops[1::2], own[:1] * 3 + own,
                             ['\xdf', '\u0130', 'THE', 'the', 'tHe', 'the ', ' ', '', 'x', '\xfe', '\u4e2d'],
                             ['w'] * 1200 + ['zz'] + ['the'] * 50 + ['yy'],
                             [f(w) for w in stops for f in (str.title, str.upper, str.swapcase)],
                             [w + x for w in stops[::4] for x in ("'s", 's', '_', '\n')] +
                             [w[:-1] for w in stops] + [w[1:] for w in stops],
                             [x * n + y for n in (1, 2, 9, 40, 300) for x in ('\xdf', 'A\u0130', '\u03a3', 'Q',
                                                                              '\u1e9e', '\u0149', '\u01c4')
                              for y in ('', '\xdfA', '1', '\u03a3')]])
    o = s.create(LX + cls)
    if cls == 'CaseNormalizer':
        want = [w.lower() for w in words]
    else:
        want = [w for w in words if w not in stops and
                not (cls != 'StopWordRemover' and len(w) == 1 and ord(w) < 255)]
    arg = E.ListObj(words)
    s.settle(o, arg)
    for i in range(2):
        got = s.keys(s.run(o, 'process', arg))
        s.check('C30', got == want, f'{cls}.process({shown(words)}) is {shown(got)}, '
                f'should be {shown(want)}')


@scenario('C17', 'C16', mains='C17 C16', entry='Lexicon with the built-in elements')
def lexicon_literal(s):
    """Words of source texts are found by queries for them, whatever case and markup."""
    conf = s.pick('pipeline', [['Splitter'], ['Splitter', 'CaseNormalizer'],
                               ['Splitter', 'CaseNormalizer', 'StopWordRemover'],
                               ['Splitter', 'StopWordRemover', 'CaseNormalizer'],
                               ['html', 'StopWordAndSingleCharRemover'], ['CaseNormalizer', 'Splitter'],
                               ['CaseNormalizer'], ['StopWordAndSingleCharRemover']])
    els = [s.create('zope.index.text.htmlsplitter.HTMLWordSplitter' if c == 'html' else LX + c)
           for c in conf]
    lx = Lex(s, [], els)
    counted(s, lx, 0)
    stop = s.run(s.prog.load('zope.index.text.stopdict'), 'get_stopdict')
    stops = {k for k, _ in stop.d.values()}

    def through(texts, glob=False):
        for c in conf:
            if c == 'Splitter':
                texts = [w for t in texts for w in tokens_of(t, glob)]
            elif c == 'html':
                texts = [w for t in texts for w in tokens_of(unmarked(t.lower()), glob)]
            elif c == 'CaseNormalizer':
                texts = [t.lower() for t in texts]
            else:
                texts = [t for t in texts if t not in stops and
                         not ('Single' in c and len(t) == 1 and ord(t) < 255)]
        return texts
    texts = [PIECES[3] + ' ' + MARKED[0], PIECES[13], ' '.join(PIECES[8:10]), '']
    first = s.pick('first text', texts)
    s.settle(lx.o, *els)
    wids = {}
    asked = s.pick('asked', ['after all texts', 'before as well', 'between texts'])

    def ask():
        for q in (first, 'quick', 'QUICK Brown', ['the fox', 'Zebra new'], 'fo* New', ''):
            arg = E.ListObj(q) if isinstance(q, list) else q
            as_list = q if isinstance(q, list) else [q]
            got = s.keys(s.run(lx.o, 'termToWordIds', arg))
            want = [wids.get(w, 0) for w in through(as_list)]
            s.check('C17', got == want, f'the query {shown(q)} has the ids {shown(got)}, '
                    f'should be {shown(want)}')
            for w in through(as_list):
                i = s.run(lx.o, 'get_wid', w)
                s.check('C16', i == wids.get(w, 0), f'get_wid({shown(w)}) is {i!r}, should be '
                        f'{wids.get(w, 0)}')
            got = s.keys(s.run(lx.o, 'parseTerms', arg))
            want = through(as_list, True)
            s.check('C17', got == want, f'the terms {shown(q)} are parsed as {shown(got)}, '
                    f'should be {shown(want)}')
    if asked != 'after all texts':
        ask()
    for t in (first, [first, 'New words the New', 'x'], 'QUICK brown a', None, ''):
        as_list = t if isinstance(t, list) else [t or '']
        got = s.keys(s.run(lx.o, 'sourceToWordIds', E.ListObj(t) if isinstance(t, list) else t))
        want = through(as_list)
        s.check('C17', len(got) == len(want), f'{shown(t)} becomes {len(got)} words, '
                f'should be {shown(want)}')
        for w, i in zip(want, got):
            s.check('C17 C16', isinstance(i, int) and i > 0 and wids.setdefault(w, i) == i,
                    f'{shown(t)}: {shown(w)} has the id {i!r}, had {wids.get(w)}')
        s.check('C16 C17', len(set(wids.values())) == len(wids), f'{shown(t)}: ids are not unique')
        if asked == 'between texts':
            ask()
    for w, i in wids.items():
        got = s.run(lx.o, 'get_word', i)
        s.check('C16', got == w, f'get_word({i}) is {shown(got)}, should be {shown(w)}')
    got = s.run(lx.o, 'wordCount')
    s.check('C16', s.same_num(got, Num.const(len(wids))), f'wordCount() is {got}, should be '
            f'{len(wids)}')
    ask()


GLOB_WORDS = ['a', 'ab', 'abc', 'abcabc', 'ABC', 'Abc', 'ABc', 'aBC', 'AB', 'A', 'a.c', 'a+c', 'a\\c',
              'a^c', 'a$', 'a[b]c', 'a]c', 'a(b', 'a)b', 'a|b', 'a{2}', 'aa', 'aac', 'a\nc', 'a c', 'a\n',
              'ab\n', 'a-c', 'a#c', 'b', 'bab', 'ca', '\xdf', '\xdfs', 'ss', 'STRASSE', 'STRA\xdfE',
              '\u0130x', 'ix', 'Ix', '\u01c5a', '\u01c6a', 'e\u0301', '\xe9', '\ufb01n', 'fin',
              '\U00010400a', '\U00010428a', 'a\U0001f600', 'a\udc80', 'a\uffff', 'a\uffffb',
              'a' * 90, 'a' * 90 + 'b', 'K', '\u212a', '1', '12', '1.2', '_a', '__', 'a_b', 'word',
              'words', 'wordy', 'sword', 'wor', '\\', '\\a', '[a]', '(?i)a', '^a', '$']
GLOBBING = ['a*', 'A*', 'AB*', 'ab*', 'a?', 'A?', 'a??', 'A?C', 'a?c', 'a*c', 'A*C', 'ABC*', 'a.*', 'a\\*',
            'a[*', 'a[b]*', 'a[b]?', 'a(?', 'a|*', 'a$*', 'a^?', 'a{2}?', 'a{*', 'a\n*', 'a\n?', 'a*\n',
            'a ?', 'a-?', 'a#*', '\xdf*', '\xdf?', 'STRA*', 'STRA?E', 'STRA??E', '\u0130*', 'I*', 'i*',
            '\u01c5*', '\u01c6?', 'e*', 'e?', '\ufb01*', 'fi*', '\U00010400*', '\U00010400?',
            'a' * 90 + '*', 'a' * 80 + '?*', 'a*b', 'a*b*', 'a**', 'a*?', 'a?*', 'a*a', 'aa*', 'K?', 'K*',
            '\u212a*', '1*', '1?2', '1.*', '_*', '_?', 'word*', 'word?', 'wor*s', 'w*d', '\\*', '[*', '[a]*',
            '(?i)*', '(*', '^*', '$*', 'z*', 'abc', 'ABC', 'a.c', 'zz', '$', '*', '?a', '*a']


def globs(pat, word):
    """Does the word match?  '*' any run, '?' one character."""
    at = {0}
    for c in pat:
        if c == '*':
            at = set(range(min(at), len(word) + 1)) if at else at
        else:
            at = {i + 1 for i in at if i < len(word) and (c == '?' or word[i] == c)}
    return len(word) in at


@scenario('C18', mains='C18', entry='Lexicon.globToWordIds, given words')
def glob_literal(s):
    lx = Lex(s, [(w, 100 + i) for i, w in enumerate(GLOB_WORDS)])
    counted(s, lx, 3)
    s.settle(lx.o)
    pat = s.pick('pattern', GLOBBING)
    for i in range(2):
        if pat[0] in '*?':
            s.expect_raise('C18', lx.o, 'globToWordIds', 'zope.index.text.parsetree.QueryError', pat)
            continue
        got = s.keys(s.run(lx.o, 'globToWordIds', pat))
        want = [100 + i for i, w in enumerate(GLOB_WORDS) if globs(pat, w)]
        s.check('C18', sorted(map(repr, got)) == sorted(map(repr, want)),
                f'the pattern {pat!r} finds {[GLOB_WORDS[w - 100] for w in got]}, should find '
                f'{[GLOB_WORDS[w - 100] for w in want]}')


KEYWORDS = ['abc', 'Abc', 'ABC', 'Stra\xdfe', 'STRASSE', 'strasse', '\u0130x', '\u01c5', '\u03a3\u03a3', '\u03c3\u03c2',
            '', ' ', ' abc', 'abc ', 'a b', 'a-b', 'a_b', 'x' * 300, 'a*', '\ufb01', 'fi', '\xe9', 'e\u0301', '\xc9', '0', '\x00',
            '\U00010400', 'And', 'or', 'the', 'abc\n', '\xa0', 'query', 'operator']


@scenario('C04', 'C05', mains='C04 C05', entry='KeywordIndex, CaseInsensitiveKeywordIndex, given keywords')
def keyword_literal(s):
    ci = s.pick('index', ['plain', 'case insensitive']) != 'plain'
    norm = str.lower if ci else str
    o = s.create(CI if ci else KI, family=s.family())
    n = s.pick('keywords per document', [1, 2, 5])
    docs, now = [docid(s, f'd{i}', rank=i) for i in range(8)], {}

    def give(i, j):
        ws = [KEYWORDS[(j + k) % len(KEYWORDS)] for k in range(n)]
        s.run(o, 'index_doc', docs[i], E.ListObj(ws) if as_ == 'list' else tuple(ws))
        now[i] = {norm(w) for w in ws}
    first = s.pick('first', list(range(0, len(KEYWORDS), 7 if s.tier == 'quick' else 1)))
    step, as_ = (2, 1, 3)[first % 3], ('list', 'tuple')[first % 2]
    s.settle(o)
    for i in range(8):
        give(i, first + i * step)
    if s.yes('changed'):
        give(3, first + 4)
        give(0, first)
        s.run(o, 'unindex_doc', docs[5])
        del now[5]
        s.run(o, 'index_doc', docs[6], E.ListObj([]))
        del now[6]
    if s.prop == 'C04':
        for m, x in (('documentCount', len(now)), ('wordCount', len(set().union(*now.values())))):
            got = s.run(o, m)
            s.check('C04', s.same_num(got, Num.const(x)), f'{m}() is {got}, should be {x}')
    for w in KEYWORDS:
        for arg in (w, E.ListObj([w]), (w, w)):
            r = s.run(o, 'search', arg)
            want = [docs[i] for i in now if norm(w) in now[i]]
            s.check('C04 C05', s.same_keys(r, want), f'search({shown(arg)}) finds {s.keys(r)}, '
                    f'should be {want}')
    if s.prop == 'C05':
        for w in range(len(KEYWORDS)):
            ws = KEYWORDS[w:w + 3]
            for op, f in (('and', all), ('or', any)):
                for arg in (E.ListObj(ws), tuple(ws[:2])):
                    q = [norm(x) for x in s.keys(arg)] if isinstance(arg, E.ListObj) else \
                        [norm(x) for x in arg]
                    r = s.run(o, 'search', arg, op)
                    want = [docs[i] for i in now if f(x in now[i] for x in q)]
                    s.check('C05', s.same_keys(r, want), f'search({shown(q)}, {op}) finds '
                            f'{s.keys(r)}, should be {want}')


VALUES = {
    'ints': [5, 0, -1, 1, 2 ** 40, -2 ** 70, 10, 9, 100, 255, 256],
    'strings': ['b', '', 'a', 'A', 'aa', '\xe9', '\U00010000', '\uffff', 'a ', '10', '9', 'Z', 'a\x00'],
    'floats': [1.5, 0.0, -2.5, 1e300, 0.1, 1e-9, 2.0, 3.75, 1.25],
    'bytes': [b'b', b'', b'a', b'\xff', b'aa', b'\x00', b'B', b'ab', b'a '],
    'tuples': [(1,), (), (0,), (0, 0), (0, 7), (1, -1), (2,), (5,), (0, 0, 0)],
    'with None': [3, None, 0, -1, 7, 8, 2, 100, 11],
}


@scenario('C01', 'C02', 'C03', mains='C01 C02 C03', entry='FieldIndex, given values')
def field_literal(s):
    kind = s.pick('values', list(VALUES))
    vals = VALUES[kind]
    o = s.create(FI, family=s.family())
    docs = [docid(s, f'd{i}', rank=i) for i in range(len(vals) + 3)]
    now = {}

    def give(i, v):
        s.run(o, 'index_doc', docs[i], v)
        now[i] = v
    s.settle(o)
    for i, v in enumerate(vals):
        give(i, v)
    for i in range(len(vals), len(docs)):
        give(i, vals[(i * 5) % len(vals)])
    if s.yes('changed'):
        give(0, vals[3])
        give(1, vals[2])
        give(2, vals[2])
        s.run(o, 'unindex_doc', docs[5])
        del now[5]
    key = lambda v: (v is not None, v)                          # noqa: E731
    if s.prop == 'C01':
        for m, x in (('documentCount', len(now)), ('wordCount', len(set(now.values())))):
            got = s.run(o, m)
            s.check('C01', s.same_num(got, Num.const(x)), f'{m}() is {got}, should be {x}')
        for v in vals:
            r = s.run(o, 'apply', (v, v))
            want = [docs[i] for i, x in now.items() if v is None or x == v]
            s.check('C01', s.same_keys(r, want), f'the documents with value {v!r} are {s.keys(r)}, '
                    f'should be {want}')
    elif s.prop == 'C02':
        for lo in [None] + vals:
            for hi in [None] + vals:
                r = s.run(o, 'apply', (lo, hi))
                want = [docs[i] for i, x in now.items() if (lo is None or key(x) >= key(lo)) and
                        (hi is None or key(x) <= key(hi))]
                s.check('C02', s.same_keys(r, want), f'apply({(lo, hi)!r}) finds {s.keys(r)}, '
                        f'should be {want}')
    else:
        for ask in (docs, docs[::2], docs[1:4], docs[::-1]):
            for rev in (False, True):
                full = s.keys(s.run(o, 'sort', E.ListObj(ask), reverse=rev))
                at = {E.hk(docs[i]): x for i, x in now.items()}
                want = [d for d in ask if E.hk(d) in at]
                s.check('C03', full is not None and len(full) == len(want) and
                        {E.hk(d) for d in full} == {E.hk(d) for d in want},
                        f'sort({ask}, reverse={rev}) yields {full}, should order {want}')
                got = [at[E.hk(d)] for d in full]
                s.check('C03', got == sorted(got, key=key, reverse=rev),
                        f'sort({ask}, reverse={rev}) is not ordered by value: {got}')
                for lim in (1, 2, len(full) // 2 or 1, len(full) + 1):
                    r = s.keys(s.run(o, 'sort', E.ListObj(ask), reverse=rev, limit=lim))
                    s.check('C03', list(map(E.hk, r)) == list(map(E.hk, full[:lim])),
                            f'sort({ask}, reverse={rev}, limit={lim}) yields {r}, not the '
                            f'beginning of {full}')
