"""Text indexes: postings and statistics (C08, C09, C10) and the rules."""
import engine as E
from engine import It
from num import Num, to_num
from props_field import FI, anchor, counter, docid, put, some, total
from scen import reach, scenario

OK = 'zope.index.text.okapiindex.OkapiIndex'
CO = 'zope.index.text.cosineindex.CosineIndex'


def codec(s):
    """widcode.encode/decode as inverse functions (established by C26)."""
    def enc(ip, f, vals):
        if not f.mod.name.endswith('.widcode'):
            return E.MISSING
        items = list(ip.collect(list(vals.values())[0]))
        y = E.Sym('code', *[(i.v, i.occ, i.over) for i in items])
        y.info['items'] = items
        return y

    def dec(ip, f, vals):
        if not f.mod.name.endswith('.widcode'):
            return E.MISSING
        y = list(vals.values())[0]
        if not isinstance(y, E.Sym) or y.op != 'code':
            ip.fail('decode of something else')
        return ip.new(E.ListObj(list(y.info['items'])))
    s.ctx.hooks['summaries'] = {'encode': enc, 'decode': dec}


def coded(items):
    items = [i if isinstance(i, It) else It(i) for i in items]
    y = E.Sym('code', *[(i.v, i.occ, i.over) for i in items])
    y.info['items'] = items
    return y


def seq_key(items):
    return [(E.hk(i.v), E.hk(i.occ if i.occ is not None else 1), tuple(c.uid for c in i.over))
            for i in (x if isinstance(x, It) else It(x) for x in items)]


def lexicon(s, **words):
    """A lexicon as the index sees it: text -> list of word ids."""
    lx = E.StubObj('lexicon')

    def meth(name):
        def f(ip, a, kw):
            k = E.hk(a[0])
            t = lx.tables.get((name, k))
            if t is None and name == 'sourceToWordIds':
                # of a query: unknown words enter the lexicon
                t = lx.tables.get(('termToWordIds', k), lx.tables.get(('globToWordIds', k)))
                if t is not None:
                    ip.event('words added', lx, 'words', a[0])
                    t = [s.ctx.elem('added word', 'wid', 'int', falsy=False)[0]
                         if isinstance(x, int) and x == 0 else x for x in t]
            elif t is None and ('sourceToWordIds', k) in lx.tables:
                # of a text: unknown words are not entered
                t = [0 for x in lx.tables['sourceToWordIds', k]]
            elif t is None and name == 'globToWordIds' and ('termToWordIds', k) in lx.tables:
                # of a term that is not a pattern: it is not processed, so it is no known word
                t = []
            elif t is None and name == 'termToWordIds' and ('globToWordIds', k) in lx.tables:
                # of a pattern: it is not a word
                t = [0]
            if t is None:
                ip.fail(f'lexicon.{name}({a[0]!r}) is not part of the scenario')
            if name == 'sourceToWordIds':
                lx.asked.append(a[0])
            return ip.new(E.ListObj(list(t)))
        return E.NativeV('lexicon.' + name, f)
    lx.tables, lx.asked = {}, []
    for n in ('sourceToWordIds', 'termToWordIds', 'globToWordIds'):
        lx.attrs[n] = meth(n)
    return lx


def freqs(s, items):
    """wid -> number of occurrences of a word sequence."""
    out = {}
    for i in items:
        i = i if isinstance(i, It) else It(i)
        k = E.hk(i.v)
        n = i.occ if i.occ is not None else Num.const(1)
        out[k] = (i.v, out[k][1] + n if k in out else to_num(n))
    return out


def log(s, x):
    return to_num(s.ip.lib.mlog(s.ip, to_num(x)))


def sqrt(s, x):
    return to_num(s.ip.lib.msqrt(s.ip, to_num(x)))


def statistics(s, kind, items):
    """({wid: weight}, document weight, number of words) of a word sequence."""
    fs = freqs(s, items)
    n = Num.const(0)
    for w, f in fs.values():
        n = n + E.sumover(s.ctx, w.root(), f)
    if kind == OK:
        return {k: (w, f) for k, (w, f) in fs.items()}, n, n
    raw = {k: (w, Num.const(1) + log(s, f)) for k, (w, f) in fs.items()}
    sq = Num.const(0)
    for w, x in raw.values():
        sq = sq + E.sumover(s.ctx, w.root(), x * x)
    if not raw:
        return {}, Num.const(0), n
    norm = sqrt(s, sq)
    return {k: (w, x.div(norm)) for k, (w, x) in raw.items()}, norm, n


class Text:
    """A text index in an arbitrary consistent state.

    known: documents with known word sequences: doc -> items
    other: further documents: (doc, [wids]) with arbitrary weights
    """

    def __init__(self, s, kind, known, other, legacy=False, containers=None):
        self.s, self.kind = s, kind
        codec(s)
        self.lex = lexicon(s)
        self.o = s.create(kind, self.lex, family=s.family())
        o = self.o
        anchor(o, '_wordinfo', '_docweight', '_docwords', 'wordCount', 'documentCount', '_lexicon')
        o.label = 'index'
        self.known = {E.hk(d): (d, items) for d, items in known}
        self.other = list(other)
        self.ow = {}
        wi, dw, dc = (o.attrs[a] for a in ('_wordinfo', '_docweight', '_docwords'))
        wi.label, dw.label, dc.label = '_wordinfo', '_docweight', '_docwords'
        self.olen, self.ocode = {}, {}
        for d, wids in self.other:
            for w in wids:
                self.ow[E.hk(d), E.hk(w)] = self.weight_atom(d, w)
            self.olen[E.hk(d)] = self.length_atom(d)
            self.ocode[E.hk(d)] = E.Sym('codeof', d)
        self.totaldoc = Num.const(0)
        st = self.state()
        for k, (w, docs) in st['wordinfo'].items():
            c = containers(w) if containers else 'dict'
            m = E.MapObj(None if c == 'dict' else (s.fam, 'IF', 'BTree'), docs.values(),
                         label=f'_wordinfo[{w!r}]')
            if w.root().multi:
                m.per = frozenset([w.root()])
            put(wi, w, m)
        for k, (d, x) in st['docweight'].items():
            put(dw, d, x)
        for d, items in self.known.values():
            put(dc, d, coded(items))
        for d, _ in self.other:
            put(dc, d, self.ocode[E.hk(d)])
        nw, nd, nl = self.counts(st)
        self.c0 = {}
        if legacy:
            for a, n in (('wordCount', nw), ('documentCount', nd)):
                del o.attrs[a]
            if kind == OK:
                o.attrs['_totaldoclen'] = s.ip.simp(nl)
        else:
            self.c0['wordCount'] = counter(s, o.attrs['wordCount'], nw, 'words')
            self.c0['documentCount'] = counter(s, o.attrs['documentCount'], nd, 'documents')
            if kind == OK:
                anchor(o, '_totaldoclen')
                self.c0['_totaldoclen'] = counter(s, o.attrs['_totaldoclen'], nl, 'total')
        self.st0 = st

    def weight_atom(self, d, w):
        a = E.Atom(f'w[{d.name},{w.name}]', 1 if self.kind == OK else 0, None, self.kind == OK,
                   [c for c in (d.root(), w.root()) if c.multi])
        return Num.atom(a)

    def length_atom(self, d):
        return self.s.ctx.natom(f'len[{d.name}]', 1, None, self.kind == OK, d)

    def state(self):
        s = self.s
        wi, dw = {}, {}
        nl = Num.const(0)
        for d, items in self.known.values():
            ws, docw, n = statistics(s, self.kind, items)
            dw[E.hk(d)] = (d, docw)
            nl = nl + n
            for k, (w, x) in ws.items():
                wi.setdefault(k, (w, {}))[1][E.hk(d)] = (d, x)
        for d, wids in self.other:
            dw[E.hk(d)] = (d, self.olen[E.hk(d)])
            nl = nl + E.sumover(s.ctx, d.root(), self.olen[E.hk(d)])
            for w in wids:
                wi.setdefault(E.hk(w), (w, {}))[1][E.hk(d)] = (d, self.ow[E.hk(d), E.hk(w)])
        return {'wordinfo': wi, 'docweight': dw, 'length': nl}

    def counts(self, st):
        return (total(self.s, [w for w, _ in st['wordinfo'].values()]),
                total(self.s, [d for d, _ in st['docweight'].values()]), st['length'])

    def verify(self, what, changed=()):
        s, o = self.s, self.o
        wi, dw, dc = (o.attrs.get(a) for a in ('_wordinfo', '_docweight', '_docwords'))
        st = self.state()
        docs = [d for d, _ in st['docweight'].values()]
        words = [w for w, _ in st['wordinfo'].values()]
        if s.prop in ('C08', 'C09'):
            P = 'C08'
            s.check(P, s.same_keys(dc, docs), f'after {what} the words of {s.keys(dc)} are kept, '
                    f'should be those of {docs}')
            s.check(P, s.same_keys(dw, docs), f'after {what} weights of {s.keys(dw)} are kept, '
                    f'should be those of {docs}')
            s.check(P, s.same_keys(wi, words), f'after {what} the words in use are {s.keys(wi)}, '
                    f'should be {words}')
            if s.prop == 'C09' and not (s.same_keys(dw, docs) and s.same_keys(wi, words)):
                s.check('C09', False, f'after {what} statistics are kept for words {s.keys(wi)} '
                        f'and documents {s.keys(dw)}, should be {words} and {docs}')
            for d, items in self.known.values():
                got = dc.d[E.hk(d)][1] if E.hk(d) in dc.d else None
                s.check(P, isinstance(got, E.Sym) and got.op == 'code' and
                        seq_key(got.info['items']) == seq_key(items),
                        f'after {what} the words of {d!r} are {got!r}, should be {items}')
                if s.prop == P:
                    gw = s.run(o, 'get_words', d)
                    s.check(P, isinstance(gw, E.ListObj) and seq_key(gw.items) == seq_key(items),
                            f'after {what} get_words({d!r}) is {gw!r}, should be {items}')
            for d, _ in self.other:
                got = dc.d.get(E.hk(d), (0, None))[1]
                s.check(P, got is self.ocode[E.hk(d)],
                        f'{what} changes the words of {d!r}')
            for k, (w, want) in st['wordinfo'].items():
                got = wi.d[k][1]
                s.check('C08 C09'.split(), isinstance(got, E.MapObj) and
                        s.same_keys(got, [d for d, _ in want.values()]),
                        f'after {what} the documents with word {w!r} are {s.keys(got)}, '
                        f'should be {[d for d, _ in want.values()]}')
                for kd, (d, x) in want.items():
                    s.check('C09', s.same_num(got.d[kd][1], x),
                            f'after {what} the weight of {w!r} in {d!r} is {got.d[kd][1]!r}, '
                            f'should be {x}')
            for k, (d, x) in st['docweight'].items():
                s.check('C09', s.same_num(dw.d[k][1], x),
                        f'after {what} the weight of {d!r} is {dw.d[k][1]!r}, should be {x}')
            nw, nd, nl = self.counts(st)
            for m, n in (('wordCount', nw), ('documentCount', nd)):
                if s.prop == P:
                    got = s.run(o, m)
                    s.check(P, s.same_num(got, n), f'after {what} {m}() is {got}, should be {n}')
            if s.prop == P:
                for d in docs:
                    s.check(P, s.run(o, 'has_doc', d) is True, f'has_doc({d!r}) is not True')
            if self.kind == OK and s.prop == 'C09':
                t = o.attrs.get('_totaldoclen')
                got = t.value if isinstance(t, E.LenObj) else t
                s.check('C09', s.same_num(got, nl),
                        f'after {what} the total document length is {got}, should be {nl}')
        if s.prop == 'C15' and self.c0:
            for a, n, n0 in zip(('wordCount', 'documentCount', '_totaldoclen'),
                                self.counts(st), self.counts(self.st0)):
                if a in self.c0:
                    ln = o.attrs.get(a)
                    want = self.c0[a] + (n - n0)
                    s.check('C15', isinstance(ln, E.LenObj) and s.same_num(ln.value, want),
                            f'{what} turns {a} from {self.c0[a]} into {ln!r}, should be {want}')
        if s.prop == 'C13':
            for m in (dw, dc):
                s.rule_result_family(m, what)
            for _, m in wi.d.values():
                s.rule_result_family(m, what)

    def rules(self, what):
        self.s.rule_family()
        self.s.rule_persist(self.o)
        self.s.rule_counters(what)
        self.verify(what)


def wid(s, name, multi=False):
    return s.ctx.elem(name, 'wid', 'int', multi=multi, falsy=False)


def text(s, name):
    return s.ctx.elem(name, 'text', 'str')[0]


def occurrences(s, ws, tag):
    return [It(w, s.occ(f'{tag}[{w.name}]', w)) for w in ws]


def text_state(s, indexed=None):
    """d, known, other, its old items, its new items."""
    d = docid(s, 'd')
    known, other, old, new = [], [], [], []
    shared = []
    full = s.tier != 'quick'
    if indexed is None:
        indexed = s.yes('d is indexed')
    if indexed:
        k1 = s.pick('words that go', ['none', 'own', 'shared'] + (['both'] if full else []))
        k2 = s.pick('words that stay', ['none', 'same own', 'same shared', 'changed own',
                                        'changed shared'] +
                    (['same and changed', 'many own'] if full else ['same and changed']))
        for tag, k in (('gone', 'own'), ('gone_shared', 'shared')):
            if k1 in (k, 'both'):
                ws = wid(s, tag, True)
                old += occurrences(s, ws, 'f')
                if 'shared' in tag:
                    shared.append(ws)
        parts = {'none': [], 'same own': ['same'], 'same shared': ['same_shared'],
                 'changed own': ['changed'], 'changed shared': ['changed_shared'],
                 'same and changed': ['same', 'changed_shared'],
                 'many own': ['same', 'changed']}[k2]
        for p in parts:
            ws = wid(s, p, True)
            o = occurrences(s, ws, 'f')
            old += o
            new += o if 'same' in p else occurrences(s, ws, 'g')
            if 'shared' in p:
                shared.append(ws)
        known.append((d, old))
    k3 = s.pick('words that are new', ['none', 'unknown', 'known'] + (['both'] if full else []))
    if k3 in ('unknown', 'both'):
        new += occurrences(s, wid(s, 'new', True), 'g')
    if k3 in ('known', 'both'):
        ws = wid(s, 'new_known', True)
        new += occurrences(s, ws, 'g')
        shared.append(ws)
    if shared:
        for x in some(s, 'others'):
            other.append((x, [w for ws in shared for w in ws]))
    if s.yes('unrelated documents') and (full or not shared):
        ws = wid(s, 'unrelated', True)
        other += [(x, ws) for x in some(s, 'unrelated_docs')]
    return d, known, other, old, new


def which(s):
    return s.pick('index', [OK, CO])


def containers(s):
    k = s.pick('shared postings are', ['dict', 'IFBTree'])
    return lambda w: k


@scenario('C08', 'C09', 'C13', 'C14', 'C15', mains='C08 C09', entry='BaseIndex.index_doc')
def text_index_doc(s):
    kind = which(s)
    d, known, other, old, new = text_state(s)
    t = Text(s, kind, known, other, containers=containers(s))
    src = text(s, 'text')
    t.lex.tables['sourceToWordIds', E.hk(src)] = new
    s.settle(t.o)
    r = s.run(t.o, 'index_doc', d, src)
    t.known[E.hk(d)] = (d, new)
    t.rules('index_doc')


@scenario('C08', 'C09', 'C13', 'C14', 'C15', mains='C08 C09', entry='BaseIndex.unindex_doc')
def text_unindex_doc(s):
    kind = which(s)
    d, known, other, old, new = text_state(s)
    t = Text(s, kind, known, other, containers=containers(s))
    s.settle(t.o)
    s.run(t.o, 'unindex_doc', d)
    t.known.pop(E.hk(d), None)
    t.rules('unindex_doc')
    if s.prop == 'C08':
        s.check('C08', s.run(t.o, 'has_doc', d) is False, 'has_doc() of an un-indexed document')


@scenario('C08', 'C09', 'C15', mains='C08 C09', entry='BaseIndex, stored with plain counters')
def text_legacy(s):
    kind = which(s)
    d, known, other, old, new = text_state(s)
    t = Text(s, kind, known, other, legacy=True)
    src = text(s, 'text')
    t.lex.tables['sourceToWordIds', E.hk(src)] = new
    s.settle(t.o)
    indexed = bool(known)
    op = s.pick('operation', ['index', 'unindex'] if indexed else ['index'])
    if op == 'index':
        s.run(t.o, 'index_doc', d, src)
        t.known[E.hk(d)] = (d, new)
    else:
        s.run(t.o, 'unindex_doc', d)
        t.known.pop(E.hk(d))
    # the counters that were never touched are still not objects: not reported on
    for m in ('wordCount', 'documentCount'):
        if m not in t.o.attrs:
            t.o.attrs[m] = E.LenObj(0)
            st = t.state()
            t.o.attrs[m].value = s.ip.simp(t.counts(st)[m == 'documentCount'])
    t.rules(op)


@scenario('C08', 'C09', mains='C08 C09', entry='BaseIndex.index_doc')
def text_interleaved(s):
    """Word sequences in which words repeat out of order."""
    kind = which(s)
    d = docid(s, 'd')
    a, b, c = (wid(s, n)[0] for n in 'abc')
    old = s.pick('old words', [None, [], [a, b, a], [c], [b, a]])
    new = s.pick('new words', [[a, b, a], [b, a, b, b, a], [a], [], [c, a, c, b], [a, a, b],
                               [a, b]])
    other = [(x, [b]) for x in some(s, 'others')] if s.yes('others') else []
    t = Text(s, kind, [(d, old)] if old is not None else [], other)
    src = text(s, 'text')
    t.lex.tables['sourceToWordIds', E.hk(src)] = new
    s.settle(t.o)
    s.run(t.o, 'index_doc', d, src)
    t.known[E.hk(d)] = (d, new)
    t.rules('index_doc')
