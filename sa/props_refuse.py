"""Changes that are refused (C35)."""
import engine as E
from engine import It
from props_field import Field, docid, some
from props_keyword import CI, KI, Topic, Words, word
from props_lexicon import Lex, element
from props_lexicon import word as lword
from props_text import CO, OK, Text, containers, text, wid
from scen import scenario


def bad_docid(s):
    """A document id no container of the family takes."""
    k = s.pick('document id', ['not an integer', 'too large'])
    return 1 << 70 if k == 'too large' else s.ctx.elem('no id', 'docid', 'str')[0]


def under(s, props, fn):
    """Evaluate checks written for other properties."""
    own = s.prop
    try:
        for s.prop in props.split():
            fn()
    finally:
        s.prop = own
    s.check(own, True, 'unchanged')


def odd(s, name, sort='value', kind='any'):
    """Something that cannot be ordered with other values."""
    x = s.ctx.elem(name, sort, kind, falsy=False)[0]
    x.odd = True
    return x


def value(s, name):
    return s.ctx.elem(name, 'value', 'any')[0]


@scenario('C35', entry='FieldIndex.index_doc')
def field_refused(s):
    d = docid(s, 'd')
    v, w = value(s, 'v'), value(s, 'w')
    rev = [(x, w) for x in some(s, 'others')]
    if s.yes('d is indexed'):
        rev.append((d, s.pick('value of d', [v, w])))
    f = Field(s, rev)
    if s.pick('refused for', ['document id', 'value']) == 'value':
        d, new = s.pick('document', [d, docid(s, 'e')]), odd(s, 'unordered')
        if not rev:
            raise E.Infeasible()
    else:
        d, new = bad_docid(s), s.pick('value', [v, w])
    s.settle(f.o)
    k, _ = s.op(f.o, 'index_doc', d, new)
    under(s, 'C01', lambda: f.verify(f'index_doc({d!r}, {new!r})'))


@scenario('C35', entry='KeywordIndex.index_doc')
def keyword_refused(s):
    cls = s.pick('index', [KI, CI])
    d = docid(s, 'd')
    a, b, c = (word(s, n)[0] for n in 'abc')
    if cls == CI:
        for x in (a, b, c):
            s.ctx.derived[x.uid, 'lower'] = x
    rev = [(x, [b]) for x in some(s, 'others')]
    if s.yes('d is indexed'):
        rev.append((d, s.pick('keywords of d', [[a], [a, b]])))
    kind = s.pick('stored sets', ['Set', 'TreeSet'])
    k = Words(s, rev, dotted=cls, kinds=lambda w: kind)
    why = s.pick('refused for', ['document id', 'text', 'number'] +
                 (['keyword'] if cls == CI else ['order']))
    new = s.pick('keywords', [[c], [b], [b, c], [c, b]])
    if why == 'document id':
        d = bad_docid(s)
    if why == 'keyword':
        x = s.ctx.elem('no text', 'word', 'int')[0]
        new = s.pick('the others', [[], new])
        new = new[:s.pick('place', [0, 1])] + [x] + new[1:]
    if why == 'order':
        # no two of the new keywords, or none of them and the stored ones
        x = odd(s, 'unordered', 'word')
        new = s.pick('the others', [[], new, [odd(s, 'unordered2', 'word')]])
        new = new[:1] + [x] + new[1:] if s.yes('later') else [x] + new
    arg = text(s, 'keywords') if why == 'text' else \
        s.ctx.elem('number', 'number', 'int', falsy=False)[0] if why == 'number' else \
        E.ListObj(new, label='keywords')
    s.settle(k.o, arg)
    r, _ = s.op(k.o, 'index_doc', d, arg)
    under(s, 'C04', lambda: k.verify(f'index_doc({d!r}, {arg!r})'))


@scenario('C35', entry='OkapiIndex.index_doc, CosineIndex.index_doc')
def text_refused(s):
    kind = s.pick('index', [OK, CO])
    d = docid(s, 'd')
    a, b, c = (wid(s, n)[0] for n in 'abc')
    known = []
    if s.yes('d is indexed'):
        known.append((d, s.pick('words of d', [[], [a], [a, b, a]])))
    other = [(x, [b]) for x in some(s, 'others')] if s.yes('others') else []
    t = Text(s, kind, known, other, containers=containers(s))
    src = text(s, 'text')
    new = s.pick('words', [[a], [c], [b, c, b], []])
    t.lex.tables['sourceToWordIds', E.hk(src)] = new
    if s.pick('refused for', ['text', 'document id']) == 'document id':
        d = bad_docid(s)
    else:
        def refuse(ip, x, kw):
            raise ip.exc('TypeError', 'in the pipeline')
        t.lex.attrs['sourceToWordIds'] = E.NativeV('lexicon.sourceToWordIds', refuse)
    s.settle(t.o)
    r, _ = s.op(t.o, 'index_doc', d, src)
    under(s, 'C08 C09', lambda: t.verify(f'index_doc({d!r})'))


@scenario('C35', entry='Lexicon.sourceToWordIds')
def lexicon_refused(s):
    a, b = lword(s, 'a'), lword(s, 'b')

    def refuse(ip, x, kw):
        raise ip.exc('TypeError', 'in the pipeline')
    bad = E.StubObj('bad')
    bad.attrs['process'] = E.NativeV('bad.process', refuse)
    bad.attrs['__absent__'] = ('processGlob',)
    n = s.pick('elements before', [0, 1, 2])
    after = s.pick('elements after', [0, 1])
    pipe = [element(s, f'p{i}') for i in range(n)] + [bad] + \
        [element(s, f'q{i}') for i in range(after)]
    i = s.ctx.elem('i', 'wid', 'int', falsy=False)[0]
    lx = Lex(s, [(a, i)] if s.yes('a known word') else [], pipe)
    count = lx.o.attrs['wordCount']
    if isinstance(count, E.LenObj) and lx.ids:
        count.value = s.ctx.natom('counter', 0, None, True)
    n0 = count.value
    s.settle(lx.o)
    op = s.pick('operation', ['sourceToWordIds', 'termToWordIds', 'parseTerms'])
    arg = s.pick('text', ['word', 'list'])
    r, _ = s.op(lx.o, op, b if arg == 'word' else E.ListObj([b, a]))
    now = lx.o.attrs.get('wordCount')
    s.check('C35', isinstance(now, E.LenObj) and s.same_num(now.value, n0),
            f'the refused {op}() changes the counter')
    under(s, 'C16', lambda: lx.verify(f'the refused {op}()'))
    words = lx.o.attrs.get('_wids')
    s.check('C35', s.same_keys(words, [w for w, _ in lx.ids.values()]),
            f'after the refused {op}() the words are {s.keys(words)}')


@scenario('C35', entry='TopicIndex.index_doc')
def topic_refused(s):
    obj = s.ctx.elem('obj', 'object', 'obj')[0]
    fl, truth = [], {}
    for i in range(s.pick('filters', [1, 2])):
        fid = s.ctx.elem(f'f{i + 1}', 'filterid', 'str')[0]
        ex = s.ctx.elem(f'expr{i + 1}', 'expr', 'str')[0]
        fl.append((fid, ex, some(s, 'others') if s.yes(f'documents in filter {i + 1}') else []))
        truth[E.hk(ex)] = s.yes(f'expression {i + 1}')
    t = Topic(s, fl)
    s.ctx.hooks['eval'] = lambda ip, expr, env: truth[E.hk(expr)]
    d = bad_docid(s)
    s.settle(t.o)
    op = s.pick('operation', ['index_doc', 'unindex_doc'])
    s.op(t.o, op, d, *([obj] if op == 'index_doc' else []))
    for f, (_, _, docs) in zip(t.f, fl):
        got = f.attrs.get('_ids')
        s.check('C35', s.same_keys(got, docs),
                f'after the refused {op}({d!r}) {f!r} has {s.keys(got)}, should have {docs}')
