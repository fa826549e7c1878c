"""clear() compared with a newly created index (C10), and short histories around it."""
import engine as E
from num import Num
from props_textindex import TX
from props_field import FI, Field, docid, field_state, some, value
from props_keyword import CI, KI, PF, TI, Topic, Words, word, words_state
from props_text import CO, OK, Text, containers, text, wid
from scen import PINNED, is_persistent, reach, scenario

FS = 'zope.index.topic.filter.FilteredSetBase'


def old_things(s, *roots):
    """Elements and objects of the state before."""
    objs, elems = set(), set()
    for r in roots:
        for o in reach(r):
            if isinstance(o, (E.MapObj, E.SetObj, E.ListObj, E.LenObj)):
                objs.add(o.uid)
            if isinstance(o, (E.MapObj, E.SetObj)):
                for x in o.d.values():
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, E.Elem):
                            elems.add(y.uid)
    return objs, elems


def remembers(v, elems, depth=0):
    """Does a value mention something that was indexed before?"""
    if depth > 8:
        return False
    if isinstance(v, E.Elem):
        return v.uid in elems
    if isinstance(v, Num):
        return not v.is_const()
    if isinstance(v, (tuple,)):
        return any(remembers(x, elems, depth + 1) for x in v)
    if isinstance(v, E.Sym):
        return any(remembers(x, elems, depth + 1) for x in v.args)
    if isinstance(v, E.MapObj):
        return any(remembers(x, elems, depth + 1) for kv in v.d.values() for x in kv)
    if isinstance(v, E.SetObj):
        return any(remembers(x, elems, depth + 1) for x in v.d.values())
    if isinstance(v, E.ListObj):
        return any(remembers(i.v, elems, depth + 1) for i in v.items)
    if isinstance(v, E.LenObj):
        return remembers(v.value, elems, depth + 1)
    if isinstance(v, E.StubObj):
        return False
    return False


def compare(s, what, a, b, elems, skip=(), seen=None, path=''):
    """a (cleared) looks like b (new)."""
    P = 'C10'
    seen = seen if seen is not None else set()
    if isinstance(a, E.Obj):
        if a.uid in seen:
            return
        seen.add(a.uid)
    if isinstance(b, E.InstObj) and not isinstance(b, E.StubObj):
        s.check(P, isinstance(a, E.InstObj) and a.cls is b.cls, f'{what}: {path} is {a!r}')
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k.startswith('__') or k in skip:
                continue
            p = f'{path}.{k}'
            if k not in b.attrs:
                s.check(P, not remembers(a.attrs[k], elems),
                        f'after {what} {p} still is {a.attrs[k]!r}')
            elif k not in a.attrs:
                s.check(P, k not in PINNED and k.startswith('_v_'),
                        f'after {what} {p} is missing')
            elif k in PINNED or not isinstance(b.attrs[k], (int, str, bool, type(None), Num)):
                compare(s, what, a.attrs[k], b.attrs[k], elems, skip, seen, p)
            else:
                s.check(P, not remembers(a.attrs[k], elems),
                        f'after {what} {p} still is {a.attrs[k]!r}')
        return
    if isinstance(b, (E.MapObj, E.SetObj)):
        s.check(P, type(a) is type(b), f'after {what} {path} is {a!r}')
        s.check(P, a.bt == b.bt, f'after {what} {path} is a {a.tname()} instead of a {b.tname()}')
        s.check(P, not s.keys(a) or s.same_keys(a, s.keys(b)),
                f'after {what} {path} has keys {s.keys(a)}, in a new one {s.keys(b)}')
        s.check(P, len(a.d) == len(b.d), f'after {what} {path} has keys {s.keys(a)}, '
                f'in a new one {s.keys(b)}')
        return
    if isinstance(b, E.LenObj):
        s.check(P, isinstance(a, E.LenObj) and s.same_num(a.value, b.value),
                f'after {what} {path} is {a!r}, in a new one {b!r}')
        return
    if isinstance(b, E.ListObj):
        s.check(P, isinstance(a, E.ListObj) and len(a.items) == len(b.items),
                f'after {what} {path} is {a!r}, in a new one {b!r}')
        return
    if isinstance(b, E.Elem) or isinstance(b, E.StubObj):
        s.check(P, a is b, f'after {what} {path} is {a!r}, in a new one {b!r}')
        return
    if isinstance(b, E.FamV):
        s.check(P, isinstance(a, E.FamV) and a.name == b.name,
                f'after {what} {path} is {a!r} instead of {b!r}')
        return
    if isinstance(b, (int, Num)) and not isinstance(b, bool):
        s.check(P, s.same_num(a, b), f'after {what} {path} is {a!r}, in a new one {b!r}')
        return
    s.check(P, a is b or E.hk(a) == E.hk(b) or type(a) is type(b),
            f'after {what} {path} is {a!r}, in a new one {b!r}')


def cleared(s, o, new, what='clear()', meth='clear', by=None):
    objs, elems = old_things(s, o)
    by = by or o
    s.settle(by)
    s.run(by, meth)
    s.rule_family()
    if s.prop == 'C14':
        s.rule_persist(by)
    if s.prop == 'C10':
        compare(s, what, o, new, elems, path='index')
        for x in reach(o):
            if x.uid in objs and isinstance(x, (E.MapObj, E.SetObj)):
                s.check('C10', not x.d, f'after {what} {x!r} is still in use')


MAINS = dict(mains='C10 C08 C09')


@scenario('C10', 'C13', 'C14', entry='FieldIndex.clear', **MAINS)
def field_clear(s):
    d, old, rev = field_state(s)
    f = Field(s, rev)
    if s.yes('queries before'):
        s.run(f.o, 'apply', (None, None))
        s.run(f.o, 'documentCount')
    new = s.create(FI, family=s.family())
    cleared(s, f.o, new)
    f.rev = {}
    f.verify('clear()')
    if s.prop != 'C10':
        return
    v = value(s, 'later')
    s.run(f.o, 'index_doc', d, v)
    r = s.run(f.o, 'apply', (None, None))
    s.check('C10', s.same_keys(r, [d]), f'after clear() and index_doc() all values give {s.keys(r)}')
    s.check('C10', s.same_num(s.run(f.o, 'documentCount'), 1) and
            s.same_num(s.run(f.o, 'wordCount'), 1), 'counts after clear() and index_doc()')


@scenario('C10', 'C13', 'C14', entry='KeywordIndex.clear', **MAINS)
def keyword_clear(s):
    cls = s.pick('class', [KI, CI])
    ws = [word(s, f'w{i}')[0] for i in (1, 2)]
    rev = []
    if s.yes('documents'):
        rev += [(x, ws) for x in some(s, 'docs_both')]
    if s.yes('more documents'):
        rev += [(x, ws[:1]) for x in some(s, 'docs_w1')]
    k = Words(s, rev, cls)
    if s.yes('queries before'):
        s.run(k.o, 'search', E.ListObj(ws))
    new = s.create(cls, family=s.family())
    cleared(s, k.o, new)
    if s.prop != 'C10':
        return
    d = docid(s, 'd')
    s.run(k.o, 'index_doc', d, E.ListObj(ws[1:]))
    for w, want in zip(ws, ([], [d])):
        if cls == CI:
            break
        r = s.run(k.o, 'search', E.ListObj([w]))
        s.check('C10', s.same_keys(r, want), f'after clear() and index_doc() {w!r} finds '
                f'{s.keys(r)}, should be {want}')
    s.check('C10', s.same_num(s.run(k.o, 'documentCount'), 1) and
            s.same_num(s.run(k.o, 'wordCount'), 1), 'counts after clear() and index_doc()')


@scenario('C10', 'C13', 'C14', entry='FilteredSetBase.clear, TopicIndex.clearFilters', **MAINS)
def topic_clear(s):
    ids = [s.ctx.elem(f'f{i}', 'filterid', 'str')[0] for i in (1, 2)]
    ex = [s.ctx.elem(f'expr{i}', 'expr', 'str')[0] for i in (1, 2)]
    docs = some(s, 'docs') if s.yes('documents') else []
    base = s.pick('filter class', [PF, FS])
    t = Topic(s, list(zip(ids, ex, (docs, docs))), base)
    how = s.pick('cleared', ['filter', 'filters of the index', 'index'])
    new = s.create(base, ids[0], ex[0], family=s.family())
    if s.yes('queries before'):
        s.run(t.o, 'search', E.ListObj(ids))
    if how == 'filter':
        cleared(s, t.f[0], new, 'filter.clear()')
        r = s.run(t.f[1], 'getIds')
        s.check('C10', s.same_keys(r, docs), f'clearing a filter leaves another with {s.keys(r)}')
        return
    objs, elems = old_things(s, t.o)
    if how == 'index':
        new = s.create(TI, family=s.family())
        cleared(s, t.o, new)
        return
    s.settle(t.o)
    s.run(t.o, 'clearFilters')
    s.rule_family()
    s.rule_persist(t.o)
    if s.prop == 'C10':
        for i, f in enumerate(t.f):
            new = s.create(base, ids[i], ex[i], family=s.family())
            compare(s, 'clearFilters()', f, new, elems, path=f'filter {i + 1}')
        fl = t.o.attrs['_filters']
        s.check('C10', s.same_keys(fl, ids) and
                all(fl.d[E.hk(i)][1] is f for i, f in zip(ids, t.f)),
                f'after clearFilters() the filters are {s.keys(fl)}')
        r = s.run(t.o, 'search', E.ListObj(ids))
        s.check('C10', s.same_keys(r, []), f'after clearFilters() a search finds {s.keys(r)}')


@scenario('C10', 'C13', 'C14', entry='OkapiIndex.clear, CosineIndex.clear, TextIndex.clear', **MAINS)
def text_clear(s):
    kind = s.pick('index', [OK, CO])
    d = docid(s, 'd')
    a, b = wid(s, 'a')[0], wid(s, 'b')[0]
    old = s.pick('words of d', [None, [], [a], [a, b, a]])
    known = [(d, [E.It(w) for w in old])] if old is not None else []
    old = known[0][1] if known else []
    other = [(x, [a]) for x in some(s, 'others')] if s.yes('others') else []
    t = Text(s, kind, known, other, containers=containers(s))
    if kind == OK and s.yes('length not upgraded'):
        t.o.attrs['_totaldoclen'] = t.o.attrs['_totaldoclen'].value
    term = text(s, 'term')
    if old:
        t.lex.tables['termToWordIds', E.hk(term)] = [old[0].v]
        if s.yes('queries before'):
            from props_score import c_scorer
            c_scorer(s)
            s.run(t.o, 'search', term)
            s.run(t.o, 'query_weight', E.ListObj([term]))
    by = s.create(TX, t.lex, t.o) if s.yes('through a text index') else None
    new = s.create(kind, t.lex, family=s.family())
    cleared(s, t.o, new, by=by)
    t.known, t.other = {}, []
    if s.prop == 'C10':
        src = text(s, 'text')
        w = s.ctx.elem('later', 'wid', 'int', falsy=False)[0]
        t.lex.tables['sourceToWordIds', E.hk(src)] = [w]
        s.run(t.o, 'index_doc', d, src)
        t.known[E.hk(d)] = (d, [E.It(w)])
        s.prop = 'C08'
        try:
            t.verify('clear() and index_doc()')
            s.prop = 'C09'
            t.verify('clear() and index_doc()')
        finally:
            s.prop = 'C10'
