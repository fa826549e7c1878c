"""Phrase search (C21)."""
import itertools
import re

import engine as E
from num import Num, to_num
from props_text import CO, OK, Text, coded, lexicon
from scen import scenario

# Encodings of (first phrase word, second phrase word, other words): the encodings of some
# begin those of others, and some contain characters special to regular expressions.
CODES = [
    ('\x81', '\x82', ['\x81\x05', '\x82\x05', '\x83']),
    ('\x81\x05', '\x82*', ['\x81', '\x81\x05\x06', '\x82', '\x82*\n', '\x82**']),
    ('\x85\n', '\x81.', ['\x85', '\x85\n\n', '\x81', '\x81x', '\x81.\x7f']),
    ('\xff\x7f\x7f\x7f', '\x80\x00\x01', ['\xff', '\xff\x7f\x7f', '\x80', '\x80\x00']),
    ('\x81(', '\x81[', ['\x81', '\x81(\x00', '\x81[[', '\x81]']),
]
_judged = {}


def judge(pattern, flags, name, order):
    """A document (list of codes) on which the pattern decides wrongly, or None.

    pattern: parts, strings or lists of word numbers (escaped codes); order: the phrase."""
    k = (repr(pattern), flags, name, tuple(order))
    if k in _judged:
        return _judged[k]
    bad = None
    for a, b, more in CODES:
        code = {0: a, 1: b, 2: more[0]}
        pool = [a, b] + more
        phrase = [code[i] for i in order]
        src = ''.join(p if isinstance(p, str) else re.escape(''.join(code[i] for i in p))
                      for p in pattern)
        try:
            f = getattr(re.compile(src, flags), name)
        except re.error as e:
            bad = (f'{src!r}: {e}', None)
            break
        n = len(phrase)
        for k2 in range(n - 1, n + 3):
            docs = itertools.product(pool, repeat=k2)
            for doc in itertools.islice(docs, 3000):
                want = any(list(doc[i:i + n]) == phrase for i in range(len(doc) - n + 1))
                if (f(''.join(doc)) is not None) != want:
                    bad = (src, (list(doc), phrase))
                    break
            if bad:
                break
        if bad:
            break
    _judged[k] = bad
    return bad


def contains(seq, phrase):
    n = len(phrase)
    return any(all(a is b for a, b in zip(seq[i:i + n], phrase))
               for i in range(len(seq) - n + 1))


def wids_of(code):
    if isinstance(code, E.Sym) and code.op == 'code':
        return [i.v for i in code.info['items']]
    if isinstance(code, E.Sym) and code.op == 'str' and not any(isinstance(p, str)
                                                               for p in code.args):
        out = [wids_of(p) for p in code.args]
        return None if any(o is None for o in out) else [w for o in out for w in o]
    return None


def install(s, words, phrase):
    ctx = s.ctx
    num = {w.uid: i for i, w in enumerate(words)}

    def parts(pat):
        out = []
        for p in (pat.args if isinstance(pat, E.Sym) and pat.op == 'str' else [pat]):
            if isinstance(p, str):
                out.append(p)
                continue
            esc = isinstance(p, E.Sym) and p.op == 'esc'
            ws = wids_of(p.args[0] if esc else p)
            if ws is None:
                return None
            s.check('C21', esc, 'the code of a phrase is used as a regular expression '
                    'without being escaped')
            if not esc or any(w.uid not in num for w in ws):
                return None
            out.append([num[w.uid] for w in ws])
        return out

    def cut(ws, pos):
        """Are all occurrences of the phrase before the position?"""
        p = to_num(pos) if isinstance(pos, (int, Num)) else None
        if p is None or not p.is_const():
            return None
        p = p.cval()
        n = len(phrase)
        at = [i for i in range(len(ws) - n + 1)
              if all(a is b for a, b in zip(ws[i:i + n], phrase))]
        if p <= 0 or not at or any(i >= p for i in at):
            return False
        return True if at == [0] else None

    def regex(ip, sym, name, a, kw):
        ws = wids_of(a[0]) if 1 <= len(a) <= 2 and not kw else None
        late = False
        if ws is not None and len(a) == 2:
            late = cut(ws, a[1])
            if late is None or name != 'search':
                return E.MISSING
        if ws is None or name not in ('search', 'match', 'fullmatch', 'findall'):
            return E.MISSING
        pat, flags = sym.args
        ps = parts(pat)
        if ps is None or not isinstance(flags, int):
            return E.MISSING
        if name == 'findall':
            name = 'search'
            lst = True
        else:
            lst = False
        bad = judge(ps, flags, name, [num[w.uid] for w in phrase])
        if bad is not None:
            s.check('C21', False, f'{name}() of {bad[0]!r} decides wrongly whether '
                    f'document and phrase {bad[1]!r} match')
        hit = contains(ws, phrase) and not late
        if lst:
            return ip.new(E.ListObj(['match'] if hit else []))
        return E.Sym('match', a[0]) if hit else None

    def raw_in(doc, code):
        """Is the code a substring of the document's code?  Similar codes may be."""
        w, c = wids_of(doc), wids_of(code)
        if w is None or c is None:
            return None
        if contains(w, c):
            return True
        if len(w) < len(c):
            return False
        return ctx.ask(('raw', E.hk(doc), E.hk(code)), f'the code of {c} is inside that of {w}')

    def sym_contains(ip, o, x):
        return raw_in(o, x)

    def str_method(ip, o, name, a):
        if name in ('find', 'index', 'count', '__contains__') and 1 <= len(a) <= 2:
            r = raw_in(o, a[0])
            if len(a) == 2:
                w, c = wids_of(o), wids_of(a[0])
                late = None if w is None or c is None or len(c) != len(phrase) or \
                    any(x is not y for x, y in zip(c, phrase)) else cut(w, a[1])
                if late is None or late and r is None:
                    return E.MISSING
                r = r and not late
            if r is None:
                return E.MISSING
            if name == '__contains__':
                return r
            if not r:
                if name == 'index':
                    raise ip.exc('ValueError', 'substring not found')
                return -1 if name == 'find' else 0
            return ctx.natom(f'position{len(ctx.path)}', 1 if name == 'count' else 0, None, True)
        return E.MISSING

    def sym_len(ip, x):
        ws = wids_of(x)
        if ws is None:
            return None
        k = ('len', E.hk(x))
        if k not in ctx.derived:
            ctx.derived[k] = ctx.natom(f'length of the code of {ws}', len(ws), 4 * len(ws), True)
        return ctx.derived[k]

    ctx.hooks.update(sym_len=sym_len, regex=regex, sym_contains=sym_contains, str_method=str_method)


def sequences(ws, n):
    return [list(x) for k in range(1, n + 1) for x in itertools.product(ws, repeat=k)]


def setup(s):
    kind = s.pick('index', [OK, CO])
    a, b, x = (s.ctx.elem(f'wid_{c}', 'wid', 'int', falsy=False)[0] for c in 'abx')
    phrase = s.pick('phrase', [[a, b], [a], [b, a], [a, a], [a, b, a]] +
                    ([[a, a, b], [a, b, a, b]] if s.tier != 'quick' else []))
    docs = [(s.ctx.elem('doc_hit', 'docid', 'int')[0], phrase)]
    if s.yes('a second document'):
        ws = {w.uid: w for w in phrase}
        seq = s.pick('its words', sequences([a, b, x], max(3, len(phrase))) +
                     [[x] + phrase, [x] + phrase + [x], phrase + phrase, phrase[::-1] + phrase,
                      phrase[:-1] + phrase, phrase[:-1] + [x] + phrase[-1:], phrase[1:] + phrase[:1],
                      list(ws.values())[::-1] + [x] + phrase[:-1]])
        docs.append((s.ctx.elem('doc_other', 'docid', 'int')[0], seq))
    if s.pick('phrase occurs', ['yes', 'no']) == 'no':
        docs = docs[1:]
        if not docs:
            docs = [(s.ctx.elem('doc_x', 'docid', 'int')[0], [x])]
    t = Text(s, kind, docs, [])
    return t, phrase, docs, (a, b, x)


@scenario('C21', 'C11', 'C12', 'C13', mains='C21', entry='BaseIndex.search_phrase')
def phrase_search(s):
    phrase_run(s, *setup(s))


@scenario('C21', 'C11', mains='C21', entry='BaseIndex.search_phrase')
def phrase_long(s):
    kind = s.pick('index', [OK, CO])
    a, b, x = (s.ctx.elem(f'wid_{c}', 'wid', 'int', falsy=False)[0] for c in 'abx')
    phrase = [{'a': a, 'b': b}[c] for c in s.pick('phrase', ['aabab', 'abbbbba', 'aaaaaaaab'])]
    n = len(phrase)
    docs = [(s.ctx.elem(f'doc{i}', 'docid', 'int', rank=i)[0], seq) for i, seq in enumerate(
        [phrase, [x] * 9 + phrase + [x] * 3, phrase[:-1], phrase[1:], phrase[:-1] + [x],
         [x] + phrase[1:], phrase[:n // 2] + [x] + phrase[n // 2:], phrase[::-1],
         phrase[:-1] * 2 + [x], phrase[:-1] + phrase, phrase[1:] + phrase[:-1],
         phrase + phrase + phrase, sorted(phrase, key=lambda w: w is a)])]
    if s.pick('documents', ['all', 'some']) == 'some':
        docs = docs[2:9]
    phrase_run(s, Text(s, kind, docs, []), phrase, docs, (a, b, x))


def phrase_run(s, t, phrase, docs, words):
    install(s, words, phrase)
    scores, asked = {}, []

    def search_wids(ip, a, kw):
        ws = ip.single_items((a + list(kw.values()))[0])
        asked.append(ws)
        out = []
        for w in ws:
            m = s.container('IF', 'Bucket', label=f'scores[{w!r}]')
            for d, seq in docs:
                if any(w is y for y in seq):
                    if (d.uid, w.uid) not in scores:
                        scores[d.uid, w.uid] = s.ctx.natom(f'v[{d.name},{w.name}]')
                    v = scores[d.uid, w.uid]
                    m.d[E.hk(d)] = (d, v)
            s.check('C21', bool(m.d), f'scores of the unknown word {w!r} are asked for')
            if w.uid not in scores:
                scores[w.uid] = s.ctx.natom(f'idf[{w.name}]')
            out.append((m, scores[w.uid]))
        return ip.new(E.ListObj(out))
    t.o.attrs['_search_wids'] = E.NativeV('_search_wids', search_wids)
    term = s.ctx.elem('phrase', 'query', 'str')[0]
    t.lex.tables['termToWordIds', E.hk(term)] = phrase
    s.settle(t.o)
    r = s.run(t.o, 'search_phrase', term)
    inverted = {w.uid for _, seq in docs for w in seq}
    oov = any(w.uid not in inverted for w in phrase)
    want = [] if oov else [d for d, seq in docs if contains(seq, phrase)]
    show = f'the phrase {phrase} in {[q for _, q in docs]}'
    s.check('C21', isinstance(r, E.MapObj) and s.same_keys(r, want),
            f'{show} is found in {s.keys(r)}, should be {want}')
    s.rule_scores('C21', r, show)
    if s.prop == 'C21':
        for d in want:
            v = Num.const(0)
            for w in phrase:
                if (d.uid, w.uid) not in scores:
                    s.check('C21', False, f'{show} is scored without asking for {w!r}')
                v = v + scores[d.uid, w.uid] * scores[w.uid]
            got = r.d[E.hk(d)][1]
            s.check('C21', s.same_num(got, v), f'{show} scores {got!r}, should be {v}')
    s.rule_pure('C11', 'search_phrase')
    s.rule_fresh('C12', r, 'search_phrase', t.o)
    s.rule_family()
    s.rule_result_family(r, 'search_phrase')


@scenario('C21', 'C11', 'C12', 'C13', mains='C21', entry='BaseIndex.search_phrase, unknown words')
def phrase_unknown(s):
    """A word unknown to the lexicon (id 0) or to the index."""
    t, phrase, docs, words = setup(s)
    install(s, words, phrase)
    u = s.pick('unknown word', [0, 'other index'])
    w = 0 if u == 0 else s.ctx.elem('wid_u', 'wid', 'int', falsy=False)[0]
    at = s.pick('position', ['first', 'last', 'only'])
    seq = {'first': [w] + phrase, 'last': phrase + [w], 'only': [w]}[at]
    term = s.ctx.elem('phrase', 'query', 'str')[0]
    t.lex.tables['termToWordIds', E.hk(term)] = seq
    s.settle(t.o)
    r = s.run(t.o, 'search_phrase', term)
    s.check('C21', isinstance(r, E.MapObj) and s.same_keys(r, []),
            f'the phrase {seq} with an unknown word is found in {s.keys(r)}')
    s.rule_scores('C21', r, f'the phrase {seq}')
    s.rule_pure('C11', 'search_phrase')
    s.rule_fresh('C12', r, 'search_phrase', t.o)
    s.rule_family()
    s.rule_result_family(r, 'search_phrase')
