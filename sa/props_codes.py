"""Encodings of number lists: widcode (C26) and Rice codes (C27)."""
import bits
import engine as E
from num import Num, to_num
from scen import scenario

WC = 'zope.index.text.widcode'


def digits(s, name, size):
    """A word id of the given number of base-128 digits: (value, digits)."""
    ds = [s.ctx.natom(f'{name}.{i}', 1 if i == 0 and size > 1 else 0, 127, True)
          for i in range(size)]
    v = Num.const(0)
    for d in ds:
        v = v * Num.const(128) + d
    return v, ds


def code_chars(s, v):
    cs = s.ip.lib.chars(v)
    if cs is None:
        return None
    return [to_num(ord(c)) if isinstance(c, str) else s.ip.lib.char_num(s.ip, c) for c in cs]


def same(s, a, b):
    if a is None or b is None:
        return False
    a, b = s.num(a), s.num(b)
    return a is not None and b is not None and \
        (s.same_num(a, b) or not bits.differ(s.ctx, a, b))


@scenario('C26', mains='C26', entry='widcode.encode, decode')
def widcode_lists(s):
    n = s.pick('words', [0, 1, 2] + ([3] if s.tier != 'quick' else []))
    ws = [digits(s, f'w{i}', s.pick(f'digits of word {i}', [1, 2, 3, 4])) for i in range(n)]
    vals = [v for v, _ in ws]
    mod = s.prog.load(WC)
    how = s.pick('words given as', ['list', 'tuple']) if n else 'list'
    arg = tuple(vals) if how == 'tuple' else E.ListObj(vals)
    s.settle(*([arg] if how == 'list' else []))
    code = s.run(mod, 'encode', arg)
    cs = code_chars(s, code)
    if cs is None and isinstance(code, E.Sym):
        raise E.Inconclusive(f'characters of {code!r}')
    s.check('C26', cs is not None, f'encode({vals}) gives {code!r}')
    want = []
    for v in vals:
        one = code_chars(s, s.run(mod, 'encode', E.ListObj([v])))
        s.check('C26', bool(one), f'encode([{v}]) is empty')
        for i, c in enumerate(one):
            lo, hi = c.interval()
            ok = lo >= 128 and hi <= 255 if i == 0 else lo >= 0 and hi <= 127
            s.check('C26', ok, f'character {i} of encode([{v}]) is {c} in {lo}..{hi}')
        want += one
    s.check('C26', len(cs) == len(want) and all(same(s, a, b) for a, b in zip(cs, want)),
            f'encode({vals}) is {cs}, should be {want}')
    back = s.run(mod, 'decode', code)
    items = s.ip.single_items(back)
    s.check('C26', isinstance(back, E.ListObj) and len(items) == n and
            all(same(s, a, b) for a, b in zip(items, vals)),
            f'decode(encode({vals})) is {items}')


# ------------------------------------------------------------------ Rice codes

RC = 'zope.index.text.ricecode'


def bit(s, name):
    return s.ctx.natom(name, 0, 1, True)


def pinned(s, v):
    """v with the atoms replaced whose values the path has settled."""
    import lib
    v = s.num(v)
    for a in sorted(v.atoms()) if v is not None else ():
        st = s.ctx.forms.get(((((a.uid, 1),), 1),))
        if st and st[0] == st[1]:
            v = lib.subst(v, a, to_num(int(st[0])))
    return v


def equal(s, a, b):
    if isinstance(a, E.Sym) or isinstance(b, E.Sym):
        raise E.Inconclusive(f'comparison of {a!r} and {b!r}')
    a, b = pinned(s, a), pinned(s, b)
    return a is not None and b is not None and same(s, a, b)


def same_list(s, got, want):
    items = s.ip.single_items(got) if isinstance(got, E.ListObj) else None
    return items is not None and len(items) == len(want) and \
        all(equal(s, a, b) for a, b in zip(items, want))


def bit_array(s, bits_):
    """A BitArray holding the given bits, restored from its stored state."""
    n = len(bits_)
    bs = []
    for i in range(0, n, 8):
        v = Num.const(0)
        for k, b in enumerate(bits_[i:i + 8]):
            v = v + to_num(b) * Num.const(1 << k)
        bs.append(int(v.cval()) if v.is_const() else v)
    a = E.InstObj(s.cls(RC + '.BitArray'))
    s.run(a, '__setstate__', (n, -n % 8, E.Sym('bytes', *bs)))
    return a


@scenario('C27', mains='C27', entry='BitArray.append, []')
def bit_array_step(s):
    size = s.pick('bytes before', [0, 1] + ([2] if s.tier != 'quick' else []))
    n = 8 * size + s.pick('extra bits', [0, 1, 6, 7] if s.tier == 'quick' else list(range(8)))
    what = s.pick('operation', ['append', 'set']) if n else 'append'
    bits_ = [bit(s, f'bit {i}') for i in range(n)]
    new = s.pick('bit', ['0', '1', 'some'])
    if new == 'some':
        given, value = s.ctx.natom('given', 1, 65535, True), 1
    else:
        given = value = int(new)
    at = n if what == 'append' else s.pick('position', sorted({0, n // 2, n - 1}))
    look = s.pick('inspected', sorted({0, n // 2, n - 1, at, max(n - 8, 0)} & set(range(n + 1))))
    if look < n:
        bits_[look] = s.pick('inspected bit', [0, 1])
    elif what != 'append':
        return
    a = bit_array(s, bits_)
    ln = s.run(a, '__len__')
    s.check('C27', equal(s, ln, n), f'restored length is {ln}, not {n}')
    s.settle(a)
    if what == 'append':
        s.run(a, 'append', given)
        n += 1
    else:
        s.run(a, '__setitem__', at, given)
    want = value if look == at else bits_[look]

    def holds(x, how):
        ln = s.run(x, '__len__')
        s.check('C27', equal(s, ln, n), f'{how}: length is {ln}, not {n}')
        got = s.run(x, '__getitem__', look)
        s.check('C27', equal(s, got, want),
                f'{how}: bit {look} is {got}, not {want} (of {n}, bit {at} written)')
    holds(a, what)
    st = s.run(a, '__getstate__')
    b = E.InstObj(s.cls(RC + '.BitArray'))
    s.run(b, '__setstate__', st)
    holds(b, 'stored and loaded')
    s.run(b, 'append', 1 - value)
    n += 1
    holds(b, 'extended after loading')
    got = s.run(b, '__getitem__', n - 1)
    s.check('C27', equal(s, got, 1 - value), f'bit appended after loading is {got}')
    n -= 1
    shape = isinstance(st, tuple) and len(st) == 3 and isinstance(st[2], E.Sym) and \
        st[2].op == 'bytes' and len(st[2].args) == (n + 7) // 8 and \
        equal(s, st[0], n) and equal(s, st[1], -n % 8)
    if not shape:
        raise E.Inconclusive('stored state of a BitArray of another shape')


def summarise(s):
    """BitArray as the sequence of bits bit_array_step shows it to be."""
    store = {}

    def of(vals):
        me = next(iter(vals.values()))
        if me.uid not in store:
            s.ip.fail('BitArray of unknown contents')
        return store[me.uid]

    def guard(fn):
        def f(ip, func, vals):
            if func.cls is None or func.cls.name != 'BitArray' or \
                    not func.mod.name.endswith('.ricecode'):
                return E.MISSING
            return fn(ip, *vals.values(), vals=vals)
        return f

    def init(ip, me, *a, vals):
        if any(x is not None for x in a):
            ip.fail('BitArray of a buffer')
        store[me.uid] = []
        me.attrs = {k: E.Sym('opaque', k) for k in ('bytes', 'nbits', 'bitsleft')}

    def as_bit(ip, v):
        n = s.num(v)
        if n is None:
            ip.fail('bit')
        if n.is_const():
            return int(n.cval() != 0)
        (m, c), = n.n.items() if len(n.n) == 1 else ip.fail('bit')
        if len(m) == 1 and m[0][1] == 1 and m[0][0].lo == 0 and m[0][0].hi == 1 and c > 0:
            return Num.atom(m[0][0])
        ip.fail('bit')

    def append(ip, me, b, vals):
        of(vals).append(as_bit(ip, b))

    def index(ip, bs, i):
        if not isinstance(i, int):
            i = s.num(i)
            i = int(i.cval()) if i is not None and i.is_const() else ip.fail('bit index')
        if i < 0:
            ip.fail('bit index')
        if i >= (len(bs) + 7) // 8 * 8:
            raise ip.exc('IndexError', 'array index out of range')
        if i >= len(bs):
            ip.fail('padding')
        return i

    def get(ip, me, i, vals):
        bs = of(vals)
        return bs[index(ip, bs, i)]

    def put(ip, me, i, b, vals):
        bs = of(vals)
        bs[index(ip, bs, i)] = as_bit(ip, b)

    def length(ip, me, vals):
        return len(of(vals))

    def opaque(ip, me, *a, vals):
        ip.fail('BitArray state')
    s.ctx.hooks['summaries'] = {
        '__init__': guard(init), 'append': guard(append), '__getitem__': guard(get),
        '__setitem__': guard(put), '__len__': guard(length), '__getstate__': guard(opaque),
        '__setstate__': guard(opaque), 'tostring': guard(opaque)}


def rice_value(s, name, m, quotients):
    """A positive number: 2**m*q + m arbitrary bits + 1."""
    v = Num.const((s.pick(f'quotient of {name}', quotients) << m) + 1)
    for k in range(m):
        v = v + bit(s, f'{name}.{k}') * Num.const(1 << k)
    return v if m else int(v.cval())


def rice_check(s, m, vals):
    code = s.create(RC + '.RiceCode', m)
    for i, v in enumerate(vals):
        s.settle(code)
        s.run(code, 'append', v)
        ln = s.ip.length(code)
        s.check('C27', equal(s, ln, i + 1), f'{i + 1} numbers, length {ln}')
    s.settle(code)
    for how in ('', ' again'):
        got = s.run(code, 'tolist')
        s.check('C27', same_list(s, got, vals), f'RiceCode({m}) of {vals} lists{how} as {got}')


@scenario('C27', mains='C27', entry='RiceCode.append, tolist')
def rice_list(s):
    summarise(s)
    m = s.pick('m', list(range(17)))
    n = s.pick('numbers', [0, 1, 2] + ([3] if s.tier != 'quick' else []))
    qs = [0, 1, 2] if s.tier == 'quick' else [0, 1, 2, 7]
    vals = [rice_value(s, f'x{i}', m, qs) for i in range(n)]
    if s.pick('by', ['append', 'encode()']) == 'append':
        return rice_check(s, m, vals)
    arg = E.ListObj(vals)
    s.settle(arg)
    code = s.run(s.prog.load(RC), 'encode', m, arg)
    ln = s.ip.length(code)
    s.check('C27', equal(s, ln, n), f'encode({m}, {vals}) has length {ln}')
    got = s.run(code, 'tolist')
    s.check('C27', same_list(s, got, vals), f'encode({m}, {vals}) lists as {got}')
    s.check('C27', same_list(s, arg, vals), f'encode changes the list to {arg}')


@scenario('C27', mains='C27', entry='RiceCode on BitArray')
def rice_whole(s):
    m = s.pick('m', [0, 1, 2, 3] if s.tier == 'quick' else [0, 1, 2, 3, 4, 9])
    most = {0: 3, 1: 3, 2: 3 if s.tier != 'quick' else 2, 3: 2}.get(m, 1)
    n = s.pick('numbers', list(range(1, most + 1)))
    vals = [rice_value(s, f'x{i}', m, [0, 1, 3]) for i in range(n)]
    rice_check(s, m, vals)


@scenario('C27', mains='C27', entry='RiceCode, RiceCode.append')
def rice_reject(s):
    how = s.pick('reject', ['m below', 'm above', 'value', -1, 17])
    if how == 'value':
        code = s.create(RC + '.RiceCode', s.pick('m', [0, 6, 16]))
        s.run(code, 'append', 1)
        s.settle(code)
        v = s.ctx.natom('v', None, 0, True)
        s.expect_raise('C27', code, 'append', 'ValueError', v)
        ln = s.ip.length(code)
        s.check('C27', equal(s, ln, 1), f'a rejected number leaves length {ln}')
        got = s.run(code, 'tolist')
        s.check('C27', same_list(s, got, [1]), f'a rejected number leaves {got}')
    else:
        v = s.ctx.natom('m', None, -1, True) if how == 'm below' else \
            s.ctx.natom('m', 17, None, True) if how == 'm above' else how
        s.expect_raise('C27', s.cls(RC + '.RiceCode'), None, 'ValueError', v)


@scenario('C27', mains='C27', entry='encode_deltas, decode_deltas')
def rice_deltas(s):
    summarise(s)
    n = s.pick('numbers', [1, 2, 3] + ([4] if s.tier != 'quick' else []))
    vals = [s.ctx.natom('first', None, None, True)]
    for i in range(1, n):
        vals.append(vals[-1] + to_num(rice_value(s, f'delta {i}', 6, [0, 1, 2])))
    arg = E.ListObj(vals)
    s.settle(arg)
    mod = s.prog.load(RC)
    got = s.run(mod, 'encode_deltas', arg)
    s.check('C27', isinstance(got, tuple) and len(got) == 2, f'encode_deltas gives {got!r}')
    s.check('C27', same_list(s, arg, vals), f'encode_deltas changes the list to {arg}')
    back = s.run(mod, 'decode_deltas', *got)
    s.check('C27', same_list(s, back, vals), f'delta code of {vals} decodes as {back}')


@scenario('C27', mains='C27', entry='RiceCode, encode_deltas with many numbers')
def rice_many(s):
    n = s.pick('numbers', [70] if s.tier == 'quick' else [70, 300])
    m = s.pick('m', [0, 2, 5, 16])
    vals = [1 + i * i % 97 for i in range(n)] if m else [1 + i % 5 for i in range(n)]
    vals = s.pick('values', [vals, [1] * n, [1 << m] * n, vals[::-1]])
    s.ctx.hooks.update(generic_range=False)
    arg = E.ListObj(vals)
    s.settle(arg)
    code = s.run(s.prog.load(RC), 'encode', m, arg)
    got = s.run(code, 'tolist')
    s.check('C27', same_list(s, got, vals), f'encode({m}, {vals}) lists as {got}')
    ln = s.ip.length(code)
    s.check('C27', equal(s, ln, n), f'encode({m}, {vals}) has length {ln}')


@scenario('C27', mains='C27', entry='encode_deltas, decode_deltas with many numbers')
def deltas_many(s):
    summarise(s)
    steps = s.pick('steps', [
        [1 + i * i % 97 for i in range(100)], [1] * 300, [64, 65, 1, 128, 4096, 70000, 2],
        [1 << 18, 1], [1, 1 << 21], list(range(1, 130))])
    first = s.pick('first', [0, -5, 1, 1 << 20])
    vals = [first]
    for x in steps:
        vals.append(vals[-1] + x)
    s.ctx.hooks.update(generic_range=False, loop_max=100000)
    arg = E.ListObj(vals)
    s.settle(arg)
    mod = s.prog.load(RC)
    got = s.run(mod, 'encode_deltas', arg)
    s.check('C27', isinstance(got, tuple) and len(got) == 2, f'encode_deltas gives {got!r}')
    back = s.run(mod, 'decode_deltas', *got)
    s.check('C27', same_list(s, back, vals), f'delta code of {vals} decodes as {back}')


#: list lengths around the sizes at which an implementation might switch to another strategy
SIZES = sorted({x + d for k in range(3, 11) for x in [1 << k] for d in (-1, 0, 1)} |
               {20, 50, 99, 100, 101, 300, 999, 1000, 1001})


@scenario('C26', mains='C26', entry='widcode.encode, decode with many words')
def widcode_many(s):
    edge = [0, 1, 127, 128, 129, 0x3FFF, 0x4000, 0x4001, 0x1FFFFF, 0x200000, 0xFFFFFFF]
    n = s.pick('words', SIZES if s.tier == 'quick' else SIZES + [3000, 4095, 4096, 4097])
    vals = [[edge[i * i % 11] for i in range(n)], list(range(n)),
            [(i * 104729) % 0xFFFFFFF for i in range(n)], [0] * n]
    vals = s.pick('ids', vals if n in (257, 3000) else vals[:1])
    arg = E.ListObj(vals)
    s.settle(arg)
    mod = s.prog.load(WC)
    code = s.run(mod, 'encode', arg)
    one = {v: [int(c.cval()) for c in code_chars(s, s.run(mod, 'encode', E.ListObj([v])))]
           for v in dict.fromkeys(vals)}
    want = [c for v in vals for c in one[v]]
    got = code_chars(s, code)
    s.check('C26', got is not None and [int(c.cval()) for c in got] == want,
            f'encode() of {n} ids is not the concatenation of their codes')
    back = s.run(mod, 'decode', code)
    items = s.ip.single_items(back)
    s.check('C26', [int(to_num(x).cval()) for x in items] == vals,
            f'decode(encode()) of {n} ids gives {items}')
