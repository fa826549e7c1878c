"""FieldIndex and its sorting (C01, C02, C03 and the cross-cutting rules)."""
import engine as E
from num import Num
from scen import PathEnd, S, scenario

FI = 'zope.index.field.index.FieldIndex'


def put(m, k, v):
    m.d[E.hk(k)] = (k, v)


def add(s, k):
    s.d[E.hk(k)] = k


def anchor(o, *names):
    for n in names:
        if n not in o.attrs:
            raise LookupError(f'attribute {n} of {o!r} not found')


def total(s, keys):
    n = Num.const(0)
    for k in keys:
        n = n + s.ip.key_card(k)
    return n


def counter(s, lenobj, n, name):
    """A counter holds n; for C15 it holds any number (others changed it too)."""
    if s.prop == 'C15':
        n = s.ctx.natom(name, None, None, True)
    lenobj.value = s.ip.simp(n)
    return n


class Field:
    """FieldIndex in an arbitrary consistent state given by rev: doc -> value."""

    def __init__(self, s, rev, dotted=FI):
        self.s = s
        self.o = s.create(dotted, family=s.family())
        anchor(self.o, '_fwd_index', '_rev_index', '_num_docs')
        self.rev = {E.hk(d): (d, v) for d, v in rev}
        f, r = self.o.attrs['_fwd_index'], self.o.attrs['_rev_index']
        for v in self.values():
            put(f, v, s.container('IF', 'TreeSet', self.docs_of(v), f'_fwd_index[{v!r}]'))
        for d, v in rev:
            put(r, d, v)
        f.label, r.label = '_fwd_index', '_rev_index'
        self.o.attrs['_num_docs'].label = '_num_docs'
        self.n0 = counter(s, self.o.attrs['_num_docs'],
                          total(s, [d for d, _ in rev]), 'documents')
        self.o.label = 'index'

    def values(self):
        out = {}
        for d, v in self.rev.values():
            out[E.hk(v)] = v
        return list(out.values())

    def docs_of(self, v):
        return [d for d, w in self.rev.values() if E.hk(w) == E.hk(v)]

    def verify(self, what, delta=None):
        """The state is the one described by self.rev."""
        s, o = self.s, self.o
        f, r = o.attrs.get('_fwd_index'), o.attrs.get('_rev_index')
        P = 'C01'
        s.check(P, isinstance(f, E.MapObj) and isinstance(r, E.MapObj), f'{what}: no mappings')
        docs = [d for d, _ in self.rev.values()]
        if s.prop == 'C01':
            s.check(P, s.same_keys(r, docs),
                    f'after {what} the documents are {s.keys(r)}, should be {docs}')
            for k, (d, v) in self.rev.items():
                s.check(P, s.ip.same_val(r.d[k][1], v) or E.hk(r.d[k][1]) == E.hk(v),
                        f'after {what} the value of {d!r} is {r.d[k][1]!r}, should be {v!r}')
            s.check(P, s.same_keys(f, self.values()),
                    f'after {what} the values in use are {s.keys(f)}, should be {self.values()}')
            for v in self.values():
                got = f.d[E.hk(v)][1]
                s.check(P, s.same_keys(got, self.docs_of(v)),
                        f'after {what} the documents with value {v!r} are {s.keys(got)}, '
                        f'should be {self.docs_of(v)}')
            n = total(s, docs)
            got = s.run(o, 'documentCount')
            s.check(P, s.same_num(got, n), f'after {what} documentCount() is {got}, not {n}')
            n = total(s, self.values())
            got = s.run(o, 'wordCount')
            s.check(P, s.same_num(got, n), f'after {what} wordCount() is {got}, not {n}')
        if s.prop == 'C15' and delta is not None:
            ln = o.attrs.get('_num_docs')
            s.check('C15', isinstance(ln, E.LenObj), f'{what}: document counter is {ln!r}')
            want = self.n0 + delta
            s.check('C15', s.same_num(ln.value, want),
                    f'{what} turns the document counter {self.n0} into {ln.value}, '
                    f'should be {want}')
        if s.prop == 'C13':
            for m, kv in ((f, 'OO'), (r, 'IO')):
                if isinstance(m, E.MapObj) and m.bt is not None:
                    s.check('C13', m.bt[0] in (None, s.fam), f'{what}: {m!r} is a {m.tname()}')
            for _, x in f.d.values():
                s.rule_result_family(x, what)

    def rules(self, what, delta=None):
        self.s.rule_family()
        self.s.rule_persist(self.o)
        self.s.rule_counters(what)
        self.verify(what, delta)


def docid(s, name, **kw):
    return s.ctx.elem(name, 'docid', 'int', **kw)[0]


def some(s, name, sort='docid', kind='int', **kw):
    return s.ctx.elem(name, sort, kind, multi=True, **kw)


def value(s, name, **kw):
    return s.ctx.elem(name, 'value', 'any', nullable=True, **kw)[0]


def field_state(s, indexed=None):
    """A document d that is (not) indexed, among arbitrary others."""
    d = docid(s, 'd')
    rev = []
    old = None
    if indexed is None:
        indexed = s.yes('d is indexed')
    if indexed:
        old = value(s, 'old')
        rev.append((d, old))
        if s.yes('other documents share the old value'):
            rev += [(x, old) for x in some(s, 'others_old')]
    if s.yes('documents with unrelated values'):
        u = value(s, 'unrelated')
        rev += [(x, u) for x in some(s, 'others')]
    return d, old, rev


@scenario('C01', 'C13', 'C14', 'C15', mains='C01', entry='FieldIndex.index_doc')
def field_index_doc(s):
    d, old, rev = field_state(s)
    new = None
    kind = s.pick('new value', (['same'] if old is not None else []) + ['other'])
    if kind == 'same':
        new = old
    else:
        new = value(s, 'new')
        if s.yes('other documents have the new value'):
            rev += [(x, new) for x in some(s, 'others_new')]
    f = Field(s, rev)
    s.settle(f.o, new)
    s.run(f.o, 'index_doc', d, new)
    if old is not None and kind == 'same':
        for e in s.events():
            if e.obj.origin == 'pre' and e.kind not in ('badfamily', 'deactivate') and \
                    not s._noeffect(e):
                s.check('C01', False, f're-indexing an unchanged value modifies {e.obj!r}', e.loc)
    known = E.hk(d) in f.rev
    f.rev[E.hk(d)] = (d, new)
    f.rules('index_doc', Num.const(0 if known else 1))


@scenario('C01', 'C13', 'C14', 'C15', mains='C01', entry='FieldIndex.unindex_doc')
def field_unindex_doc(s):
    d, old, rev = field_state(s)
    f = Field(s, rev)
    s.settle(f.o)
    s.run(f.o, 'unindex_doc', d)
    known = f.rev.pop(E.hk(d), None) is not None
    if not known:
        for e in s.events():
            if e.obj.origin == 'pre' and e.kind not in ('badfamily', 'deactivate'):
                s.check('C01', False, f'un-indexing an unknown document modifies {e.obj!r}', e.loc)
    f.rules('unindex_doc', Num.const(-1 if known else 0))


def ranked(s, n):
    return [s.ctx.elem(f'v{i + 1}', 'value', 'any', rank=i + 1)[0] for i in range(n)]


@scenario('C02', 'C11', 'C12', 'C13', mains='C02', entry='FieldIndex.apply')
def field_apply(s):
    below, low, mid, high, above = ranked(s, 5)
    rev = []
    present = [v for v in (below, mid, above)]
    shape = s.pick('values in the index', ['none', 'all', 'outside only', 'one', 'bounds'])
    if shape == 'none':
        present = []
    elif shape == 'outside only':
        present = [below, above]
    elif shape == 'one':
        present = [s.pick('the value', [below, low, mid, high, above])]
    elif shape == 'bounds':
        present = [v for v in (below, low, mid, high, above)
                   if s.yes(f'{v!r} is in the index')]
    else:
        present = [below, low, mid, high, above]
    for v in present:
        rev += [(d, v) for d in some(s, f'docs_{v.name}')]
    f = Field(s, rev)
    lo = s.pick('low', [None, low])
    hi = s.pick('high', [None, high, 'same', 'reversed'])
    if hi == 'same':
        hi = lo
    elif hi == 'reversed':
        if lo is None:
            raise E.Infeasible()
        lo, hi = high, low
    s.settle(f.o)
    q = (lo, hi)
    r = s.run(f.o, 'apply', q)
    want = [d for d, v in rev if (lo is None or v.rank >= lo.rank) and
            (hi is None or v.rank <= hi.rank)]
    s.check('C02', isinstance(r, (E.SetObj, E.MapObj)) and s.same_keys(r, want),
            f'apply({q!r}) with values {present} returns {s.keys(r)}, should be {want}')
    s.rule_pure('C11', f'apply({q!r})')
    s.rule_fresh('C12', r, f'apply({q!r})', f.o)
    s.rule_family()
    s.rule_result_family(r, f'apply({q!r})')
    if s.prop == 'C02':
        f.verify('apply')


@scenario('C02', mains='C02', entry='FieldIndex.apply')
def field_apply_bad(s):
    v1, v2, v3 = ranked(s, 3)
    f = Field(s, [(d, v1) for d in some(s, 'docs')])
    s.settle(f.o)
    kind = s.pick('query', ['list', 'one', 'three', 'empty', 'str', 'none', 'int', 'dict', 'set'])
    q = {'list': lambda: E.ListObj([v1, v2]), 'one': lambda: (v1,), 'three': lambda: (v1, v2, v3),
         'empty': lambda: (), 'str': lambda: 'ab', 'none': lambda: None, 'int': lambda: 7,
         'dict': lambda: E.MapObj(None, [(v1, v2), (v2, v3)]),
         'set': lambda: E.SetObj(None, [v1, v2])}[kind]()
    s.expect_raise('C02', f.o, 'apply', 'TypeError', q)


@scenario('C03', 'C11', 'C13', mains='C03', entry='FieldIndex.sort')
def field_sort(s):
    n = 3 if s.tier == 'quick' else 4
    if s.prop != 'C03':
        n = 2
    values = ranked(s, 3)
    values[0] = s.pick('smallest value', [values[0], None]) if s.prop == 'C03' else values[0]
    docs = [docid(s, f'd{i + 1}', rank=i + 1) for i in range(n)]
    rev = []
    used = []
    for i, d in enumerate(docs):
        v = s.pick(f'value of {d!r}', [0, 1, 2, 'not indexed'])
        if v == 'not indexed':
            continue
        used.append(v)
        rev.append((d, values[v]))
    if 2 in used and 1 not in used or 1 in used and 0 not in used:
        raise E.Infeasible()        # the same up to renaming of values
    want_docs = [d for d, _ in rev]
    if s.yes('documents not asked for'):
        e = s.ctx.elem('ve', 'value', 'any', rank=1.5)[0]
        rev += [(d, e) for d in some(s, 'rest', rank=99)]
    f = Field(s, rev)
    asked = list(docs)
    if s.yes('unknown docids asked for'):
        asked += some(s, 'unknown', rank=50)
    how = s.pick('docids given as', ['Set', 'TreeSet', 'list', 'IFBTree'])
    if how in ('Set', 'TreeSet'):
        arg = s.container('IF', how, asked)
    elif how == 'list':
        arg = E.ListObj(list(reversed(asked)) + docs[:1])
    else:
        arg = s.container('IF', 'BTree', [(d, Num.const(1)) for d in asked])
    arg.label = 'docids'
    reverse = s.yes('reverse')
    limit = s.pick('limit', [None, 1, 2, 3][:n + 1] + ([4, 5] if s.tier != 'quick' else []))
    s.settle(f.o, arg)
    kw = {'reverse': reverse}
    full = s.run(f.o, 'sort', arg, **kw)
    got = s.keys(full)
    what = f'sort({how} {asked}, reverse={reverse})'
    s.check('C03', got is not None and len(got) == len(want_docs) and
            s.same_keys(full, want_docs),
            f'{what} yields {got}, should be an ordering of {want_docs}')
    if s.prop == 'C03':
        val = {E.hk(d): (v.rank if v is not None else -1) for d, v in rev}
        order = [val[E.hk(d)] for d in got]
        s.check('C03', order == sorted(order, reverse=reverse),
                f'{what} yields {got}, which is not ordered by value')
    if limit is not None:
        lim = s.run(f.o, 'sort', arg, limit=limit, **kw)
        lk = s.keys(lim)
        s.check('C03', lk is not None and list(map(E.hk, lk)) == list(map(E.hk, got[:limit])),
                f'{what} yields {got}, with limit {limit} it yields {lk}')
    s.rule_pure('C11', what)
    s.rule_family()


@scenario('C03', mains='C03', entry='FieldIndex.sort')
def field_sort_limit(s):
    v1, v2 = ranked(s, 2)
    d1, d2 = docid(s, 'd1', rank=1), docid(s, 'd2', rank=2)
    f = Field(s, [(d1, v1), (d2, v2)] if s.yes('index is not empty') else [])
    arg = s.container('IF', 'Set', [d1, d2] if s.yes('docids given') else [])
    s.settle(f.o)
    limit = s.pick('limit', [0, -1, -5])
    s.expect_raise('C03', f.o, 'sort', 'ValueError', arg, limit=limit)
