"""Interpreter of the clang syntax tree of the C extension on abstract values.

References are tracked per handle: every handle knows how many references the code owns and
from which other handle it was borrowed.
"""
import bisect
import json
import os
import struct
import subprocess
from fractions import Fraction

import engine as E
import lib
from num import Num, to_num

CACHE = {}


class CBug(Exception):
    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.msg, self.loc = msg, loc


class _Null:
    def __repr__(self):
        return 'NULL'


NULL = _Null()
PY_INCLUDES = ['/usr/include/python3.12']


def load_c(path):
    """The declarations of the file itself."""
    if path in CACHE:
        return CACHE[path]
    import sysconfig
    inc = [d for d in [sysconfig.get_paths()['include']] + PY_INCLUDES if os.path.isdir(d)][:1]
    r = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-DNDEBUG',
                        *('-I' + d for d in inc), path], capture_output=True)
    if r.returncode or not r.stdout:
        raise E.Inconclusive('clang: ' + r.stderr.decode()[:300])
    tu = json.loads(r.stdout)
    out, cur, mine = {}, None, False
    for d in tu['inner']:
        loc = d.get('loc', {})
        if 'spellingLoc' in loc:
            loc = loc.get('expansionLoc', {})
        if 'file' in loc:
            cur = loc['file']
        # 'includedFrom' is given for everything that is not in the main file
        if 'includedFrom' in loc or 'offset' not in loc:
            continue
        mine = cur is not None and os.path.basename(cur) == os.path.basename(path)
        if mine and d.get('name'):
            out.setdefault(d['name'], []).append(d)
    fns, glob, meths = {}, {}, {}
    for n, ds in out.items():
        for d in ds:
            if d['kind'] == 'FunctionDecl' and any(
                    c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())):
                fns[n] = d
            elif d['kind'] == 'VarDecl':
                glob[n] = d
    for n, d in glob.items():
        if 'PyMethodDef' in d['type']['qualType']:
            for row in find(d, 'InitListExpr'):
                lits = list(find(row, 'StringLiteral'))
                refs = [r['referencedDecl']['name'] for r in find(row, 'DeclRefExpr')
                        if r['referencedDecl'].get('kind') == 'FunctionDecl']
                if lits and refs and not list(find(row, 'InitListExpr'))[1:]:
                    meths[json.loads(lits[0]['value'])] = refs[0]
    src = open(path, 'rb').read()
    lines = [i + 1 for i, c in enumerate(src) if c == 10]
    CACHE[path] = fns, glob, meths, lines
    return CACHE[path]


def find(n, kind):
    if n.get('kind') == kind:
        yield n
    for c in n.get('inner', ()):
        yield from find(c, kind)


class Handle:
    """A PyObject* obtained from one call."""
    n = 0

    def __init__(self, val, name, owner=None, refs=0, root=False, immortal=False):
        self.val, self.name, self.owner, self.refs = val, name, owner, refs
        self.root, self.immortal = root, immortal
        self.released = None

    def alive(self):
        return self.root or self.immortal or self.refs > 0 or \
            (self.owner is not None and self.owner.alive())

    def __repr__(self):
        return self.name


class Ref:
    def __init__(self, env, name):
        self.env, self.name = env, name


class CRet(Exception):
    def __init__(self, v):
        self.v = v


class CBreak(Exception):
    pass


class CContinue(Exception):
    pass


class CGoto(Exception):
    def __init__(self, label):
        self.label = label


class CInterp:
    def __init__(self, ip, path, inject=False):
        self.ip, self.ctx, self.inject = ip, ip.ctx, inject
        self.fns, self.globs, self.meths, self.lines = load_c(path)
        self.file = os.path.basename(path)
        self.err = None
        self.handles = []
        self.failed = []            # calls that failed
        self.seq = 0
        self.line = 0
        self.fn = '?'
        self.depth = 0
        self.stored = []
        self.steps, self.limit = 0, 400
        self.none = Handle(None, 'Py_None', immortal=True)
        self.globals = {}

    # -- helpers
    def bug(self, msg):
        raise CBug(msg, (self.file, self.fn, self.line))

    def fail(self, why):
        raise E.Inconclusive(f'{self.file}:{self.line}: {why}')

    def new(self, val, name, owner=None, refs=1, **kw):
        h = Handle(val, name, owner, refs, **kw)
        self.handles.append(h)
        return h

    def use(self, h, what):
        if h is NULL:
            self.bug(f'{what} of a NULL pointer')
        if not isinstance(h, Handle):
            self.fail(f'{what} of {h!r}')
        if not h.alive():
            self.bug(f'{what} uses {h} after its reference was released')
        return h

    def fails(self, name):
        """An injected failure."""
        if self.err is not None:
            self.bug(f'{name}() is called with an exception pending')
        if not self.inject:
            return False
        self.seq += 1
        if self.ctx.ask(('cfail', self.seq), f'{name} at line {self.line} fails'):
            self.err = f'error of {name}'
            self.failed.append(f'{name} at line {self.line}')
            return True
        return False

    def attempt(self, name, fn):
        """(ok, value): run a Python-level operation."""
        if self.fails(name):
            return False, None
        try:
            return True, fn()
        except E.RaiseEx as r:
            self.err = r.exc
            self.failed.append(f'{name} at line {self.line}')
            return False, None

    # -- running
    def call_method(self, pyname, args):
        """Call an exported function; the engine value, or RaiseEx."""
        cname = self.meths.get(pyname)
        if cname is None or cname not in self.fns:
            raise LookupError(f'C function {pyname} not found')
        hs = [Handle(a, f'argument {i + 1}', root=True) for i, a in enumerate(args)]
        tup = Handle(tuple(args), 'args', root=True)
        tup.parts = hs
        r = self.call_fn(self.fns[cname], [Handle(None, 'self', root=True), tup])
        self.finish(r)
        if r is NULL:
            if self.err is None:
                self.bug('NULL is returned without an exception')
            if isinstance(self.err, E.ExcV):
                raise E.RaiseEx(self.err)
            raise E.RaiseEx(E.ExcV(E.BT('Exception'), (self.err,)))
        return r.val

    def finish(self, r):
        if r is not NULL:
            if not isinstance(r, Handle):
                self.bug(f'{r!r} is returned')
            if self.failed:
                self.bug(f'success is reported although {self.failed[0]} failed')
            if self.err is not None:
                self.bug('success is reported with an exception pending')
            if not r.immortal:
                if r.refs < 1:
                    self.bug(f'{r} is returned without a reference of its own')
                r.refs -= 1
        elif self.err is None:
            self.bug('NULL is returned without an exception'
                     + (f' ({self.failed[0]} failed)' if self.failed else ''))
        for h in self.handles:
            if h.refs > 0 and not h.immortal:
                self.bug(f'the reference to {h} is never released')

    def call_fn(self, d, args):
        self.depth += 1
        if self.depth > 30:
            self.fail('recursion')
        saved = self.fn, self.line
        self.fn = d['name']
        env = {}
        params = [c for c in d['inner'] if c['kind'] == 'ParmVarDecl']
        for p, a in zip(params, args):
            env[p['id']] = a
        body = next(c for c in d['inner'] if c['kind'] == 'CompoundStmt')
        try:
            self.compound(body, env)
            r = None
        except CRet as x:
            r = x.v
        finally:
            self.depth -= 1
            self.fn = saved[0]
        return r

    def at(self, n):
        r = n.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        if 'offset' in r and 'includedFrom' not in r:
            self.line = bisect.bisect_right(self.lines, r['offset']) + 1

    def compound(self, n, env):
        self.seqs(n.get('inner', ()), env)

    def seqs(self, stmts, env, start=0):
        stmts = list(stmts)
        i = start
        while i < len(stmts):
            try:
                self.stmt(stmts[i], env)
                i += 1
            except CGoto as g:
                for j, x in enumerate(stmts):
                    if self.has_label(x, g.label):
                        break
                else:
                    raise
                self.steps += 1
                if self.steps > self.limit:
                    raise E.PathBounded()
                i = j
                if stmts[j]['kind'] != 'LabelStmt':
                    self.fail('goto into a block')

    def has_label(self, n, label):
        return any(x.get('declId') == label for x in find(n, 'LabelStmt'))

    def stmt(self, n, env):
        self.at(n)
        k = n.get('kind')
        f = getattr(self, 's_' + k, None) if k else None
        if f:
            return f(n, env)
        if k is None:
            return
        self.ev(n, env)

    def s_CompoundStmt(self, n, env):
        self.compound(n, env)

    def s_NullStmt(self, n, env):
        pass

    def s_LabelStmt(self, n, env):
        self.stmt(n['inner'][0], env)

    def s_GotoStmt(self, n, env):
        raise CGoto(n['targetLabelDeclId'])

    def s_DeclStmt(self, n, env):
        for v in n['inner']:
            if v['kind'] != 'VarDecl':
                continue
            init = [c for c in v.get('inner', ()) if not c['kind'].endswith('Attr')]
            if init:
                env[v['id']] = self.conv(self.ev(init[-1], env), v['type'])
            else:
                env[v['id']] = E.MISSING

    def conv(self, v, ty):
        return v

    def s_IfStmt(self, n, env):
        parts = [c for c in n['inner']]
        if n.get('hasVar') or n.get('hasInit'):
            self.fail('if with declaration')
        if self.cond(parts[0], env):
            self.stmt(parts[1], env)
        elif n.get('hasElse'):
            self.stmt(parts[2], env)

    def loop(self, cond, body, inc, env, post=False):
        first = post
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise E.PathBounded()
            if not first and cond is not None and cond.get('kind') and not self.cond(cond, env):
                break
            first = False
            try:
                self.stmt(body, env)
            except CBreak:
                break
            except CContinue:
                pass
            if inc is not None and inc.get('kind'):
                self.ev(inc, env)

    def s_ForStmt(self, n, env):
        init, var, cond, inc, body = n['inner']
        if init.get('kind'):
            self.stmt(init, env)
        self.loop(cond, body, inc, env)

    def s_WhileStmt(self, n, env):
        self.loop(n['inner'][0], n['inner'][-1], None, env)

    def s_DoStmt(self, n, env):
        self.loop(n['inner'][1], n['inner'][0], None, env, True)

    def s_BreakStmt(self, n, env):
        raise CBreak()

    def s_ContinueStmt(self, n, env):
        raise CContinue()

    def s_ReturnStmt(self, n, env):
        raise CRet(self.ev(n['inner'][0], env) if n.get('inner') else None)

    def s_SwitchStmt(self, n, env):
        self.fail('switch')

    # -- expressions
    def cond(self, n, env):
        return self.true(self.ev(n, env))

    def true(self, v):
        if v is NULL:
            return False
        if isinstance(v, (Handle, Ref)):
            return True
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Num):
            return not self.ctx.cmp(v, 0, '==')
        if isinstance(v, tuple) and v[0] in ('type', 'global', 'str', 'err'):
            return True
        self.fail(f'truth of {v!r}')

    def ev(self, n, env):
        f = getattr(self, 'e_' + n['kind'], None)
        if f is None:
            self.fail(n['kind'])
        return f(n, env)

    def e_ParenExpr(self, n, env):
        return self.ev(n['inner'][0], env)

    e_ConstantExpr = e_ParenExpr

    def e_CStyleCastExpr(self, n, env):
        if n['castKind'] == 'NullToPointer':
            return NULL
        if n['castKind'] == 'ToVoid':
            self.ev(n['inner'][-1], env)
            return None
        v = self.ev(n['inner'][-1], env)
        if n['castKind'] == 'FloatingToIntegral':
            return self.to_int(v)
        if n['castKind'] == 'FloatingCast' and n['type']['qualType'].split()[-1] == 'float':
            return self.single(v)
        return v

    def single(self, v):
        """v rounded to a C float."""
        if isinstance(v, Num) and v.is_const():
            x = v.cval()
            near = Fraction(struct.unpack('f', struct.pack('f', float(x)))[0])
            if float(near) == float(x):
                return v
            return Num.const(near)
        return Num.atom(self.ctx.fn_atom('float', v)) if isinstance(v, Num) else v

    e_ImplicitCastExpr = e_CStyleCastExpr

    def to_int(self, v):
        if isinstance(v, int):
            return v
        if isinstance(v, Num) and v.is_const():
            return int(v.cval())
        if isinstance(v, Num) and v.integral():
            return v
        return Num.atom(self.ctx.fn_atom('trunc', v, integral=True))

    def e_IntegerLiteral(self, n, env):
        return int(n['value'])

    def e_FloatingLiteral(self, n, env):
        return Num.const(Fraction(n['value']))

    def e_StringLiteral(self, n, env):
        return 'str', n['value']

    def e_PredefinedExpr(self, n, env):
        return 'str', '?'

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        return 8

    def e_DeclRefExpr(self, n, env):
        d = n['referencedDecl']
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            if d['id'] in env:
                v = env[d['id']]
                if v is E.MISSING:
                    self.bug(f'{d["name"]} is used before it is set')
                return v
            nm = d['name']
            if nm in ('_Py_NoneStruct',):
                return self.none
            if nm in self.globs:
                if nm not in self.globals:
                    init = [c for c in self.globs[nm].get('inner', ())]
                    self.globals[nm] = self.ev(init[-1], {}) if init else 0
                return self.globals[nm]
            if nm.startswith('PyExc_'):
                return 'err', nm[6:]
            return 'global', nm
        if d['kind'] == 'FunctionDecl':
            return 'fn', d['name']
        if d['kind'] == 'EnumConstantDecl':
            self.fail('enum')
        self.fail(f'reference to {d["kind"]}')

    def lvalue(self, n, env):
        k = n['kind']
        if k == 'ParenExpr':
            return self.lvalue(n['inner'][0], env)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['id'] in env:
                return Ref(env, d['id'])
            if d['name'] in self.globs:
                self.e_DeclRefExpr(n, env)
                return Ref(self.globals, d['name'])
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(n['inner'][0], env)
            if isinstance(v, Ref):
                return v
        self.fail(f'assignment to {k}')

    def e_UnaryOperator(self, n, env):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            y = x
            while y['kind'] == 'ParenExpr':
                y = y['inner'][0]
            if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] in env:
                return Ref(env, y['referencedDecl']['id'])
            v = self.ev(y, env)
            return v
        if op == '*':
            v = self.ev(x, env)
            if isinstance(v, Ref):
                w = v.env[v.name]
                if w is E.MISSING:
                    self.bug('an unset variable is used')
                return w
            if isinstance(v, tuple):
                return v
            self.fail('dereference')
        if op in ('++', '--'):
            r = self.lvalue(x, env)
            old = r.env[r.name]
            if old is E.MISSING:
                self.bug('an unset variable is used')
            new = self.arith('+' if op == '++' else '-', old, 1)
            r.env[r.name] = new
            return old if n.get('isPostfix') else new
        if op == '__extension__':
            return self.ev(x, env)
        v = self.ev(x, env)
        if op == '!':
            return 0 if self.true(v) else 1
        if op == '-':
            return -v if isinstance(v, int) else -to_num(v)
        if op == '+':
            return v
        self.fail(f'operator {op}')

    def e_StmtExpr(self, n, env):
        b = n['inner'][0].get('inner', [])
        self.seqs(b[:-1], env)
        if b:
            x = b[-1]
            if hasattr(self, 's_' + x['kind']):
                self.stmt(x, env)
                return None
            return self.ev(x, env)

    def e_BinaryOperator(self, n, env):
        op = n['opcode']
        a, b = n['inner']
        self.at(n)
        if op == '=':
            r = self.lvalue(a, env)
            v = self.ev(b, env)
            if v is None:
                self.fail('assignment of nothing')
            r.env[r.name] = v
            return v
        if op == ',':
            self.ev(a, env)
            return self.ev(b, env)
        if op == '&&':
            return 1 if self.cond(a, env) and self.cond(b, env) else 0
        if op == '||':
            return 1 if self.cond(a, env) or self.cond(b, env) else 0
        x, y = self.ev(a, env), self.ev(b, env)
        return self.arith(op, x, y)

    def e_CompoundAssignOperator(self, n, env):
        r = self.lvalue(n['inner'][0], env)
        old = r.env[r.name]
        if old is E.MISSING:
            self.bug('an unset variable is used')
        v = self.arith(n['opcode'][:-1], old, self.ev(n['inner'][1], env))
        r.env[r.name] = v
        return v

    def e_ConditionalOperator(self, n, env):
        c, a, b = n['inner']
        return self.ev(a if self.cond(c, env) else b, env)

    def ptr(self, v):
        return v is NULL or isinstance(v, (Handle, tuple, Ref))

    def arith(self, op, x, y):
        if self.ptr(x) or self.ptr(y):
            if op in ('==', '!='):
                if x == 0 and isinstance(x, int):
                    x = NULL
                if y == 0 and isinstance(y, int):
                    y = NULL
                same = x is y or (isinstance(x, tuple) and x == y) or (
                    isinstance(x, Handle) and isinstance(y, Handle) and
                    isinstance(x.val, E.Obj) and x.val is y.val)
                return int(same == (op == '=='))
            self.fail(f'pointer {op}')
        if x is None or y is None:
            self.fail('arithmetic on nothing')
        if isinstance(x, int) and isinstance(y, int):
            if op == '/':
                if y == 0:
                    self.bug('integer division by zero')
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            f = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                 '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y,
                 '|': lambda: x | y, '^': lambda: x ^ y, '%': lambda: x % y,
                 '<': lambda: int(x < y), '>': lambda: int(x > y), '<=': lambda: int(x <= y),
                 '>=': lambda: int(x >= y), '==': lambda: int(x == y),
                 '!=': lambda: int(x != y)}.get(op)
            if f is None:
                self.fail(f'operator {op}')
            return f()
        if not isinstance(x, (int, Num)) or not isinstance(y, (int, Num)):
            self.fail(f'{op} of {x!r} and {y!r}')
        x, y = to_num(x), to_num(y)
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        if op == '/':
            if y.is_const() and y.cval() == 0:
                self.fail('division by zero')
            return x.div(y)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return int(bool(self.ctx.cmp(x, y, op)))
        self.fail(f'operator {op}')

    def e_MemberExpr(self, n, env):
        base = self.ev(n['inner'][0], env)
        if n['name'] == 'ob_item':
            return 'items', base
        if n['name'] == 'ob_type':
            return 'typeof', self.use(base, 'ob_type')
        if n['name'] == 'ob_fval':
            return self.as_double(base, check=False)
        if n['name'] == 'ob_size':
            return self.size_of(base)
        self.fail(f'member {n["name"]}')

    def e_ArraySubscriptExpr(self, n, env):
        base = self.ev(n['inner'][0], env)
        i = self.ev(n['inner'][1], env)
        if isinstance(base, tuple) and base[0] == 'items':
            return self.item(base[1], i)
        self.fail('subscript')

    def item(self, h, i):
        """A borrowed reference to an element of a tuple or list."""
        self.use(h, 'reading an item')
        v = h.val
        if isinstance(v, E.ListObj):
            v = tuple(self.ip.need_single(x) or x.v for x in v.items)
        if not isinstance(v, tuple) or (getattr(h, 'subclass', False) and False):
            self.bug(f'an item of {h} is read although it need not be a tuple')
        if not isinstance(i, int):
            self.fail('symbolic index')
        if not 0 <= i < len(v):
            self.bug(f'item {i} of {h} is read, which has {len(v)} items')
        return self.borrow(v[i], h, f'{h}[{i}]')

    def borrow(self, val, owner, name):
        return self.new(val, name, owner, 0)

    def size_of(self, h):
        self.use(h, 'size')
        if isinstance(h.val, tuple):
            return len(h.val)
        if isinstance(h.val, E.ListObj):
            for x in h.val.items:
                self.ip.need_single(x)
            return len(h.val.items)
        self.bug(f'the size of {h} is read although it need not be a tuple')

    def e_CallExpr(self, n, env):
        self.at(n)
        f = self.ev(n['inner'][0], env)
        args = [self.ev(x, env) for x in n['inner'][1:]]
        if not (isinstance(f, tuple) and f[0] == 'fn'):
            self.fail('indirect call')
        name = f[1]
        if name in self.fns:
            return self.call_fn(self.fns[name], args)
        a = getattr(self, 'c_' + name, None)
        if a is None:
            self.fail(f'call of {name}')
        return a(*args)

    # -- the C API
    def c_PyArg_ParseTuple(self, args, fmt, *refs):
        if self.fails('PyArg_ParseTuple'):
            return 0
        f = json.loads(fmt[1]).split(':')[0].split(';')[0]
        hs = args.parts
        if len(f) != len(hs) or len(refs) != len(f):
            self.bug(f'PyArg_ParseTuple with {f!r} for {len(hs)} arguments')
        for c, h, r in zip(f, hs, refs):
            if c == 'O':
                r.env[r.name] = h
            elif c in 'df':
                r.env[r.name] = self.number(h.val)
            else:
                self.fail(f'argument format {c}')
        return 1

    def number(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, Num)):
            v = self.ip.lib.bi_float(self.ip, v)
        return v if isinstance(v, int) else to_num(v)

    def c_PyArg_UnpackTuple(self, args, name, lo, hi, *refs):
        if self.fails('PyArg_UnpackTuple'):
            return 0
        for r, h in zip(refs, args.parts):
            r.env[r.name] = h
        return 1

    def size(self, h, name):
        self.use(h, name)
        ok, v = self.attempt(name, lambda: self.size_val(h))
        return v if ok else -1

    def size_val(self, h):
        if isinstance(h.val, (tuple, E.ListObj)):
            return self.size_of(h)
        v = self.ip.length(h.val)
        return v

    def c_PyObject_Size(self, h):
        return self.size(h, 'PyObject_Size')

    c_PyObject_Length = c_PySequence_Size = c_PySequence_Length = c_PyList_Size = c_PyObject_Size

    def c_PyTuple_Size(self, h):
        self.use(h, 'PyTuple_Size')
        if not isinstance(h.val, tuple):
            self.err = 'SystemError'
            self.failed.append('PyTuple_Size')
            return -1
        return len(h.val)

    def c_PyTuple_GET_SIZE(self, h):
        return self.size_of(h)

    c_PyList_GET_SIZE = c_Py_SIZE = c_PyTuple_GET_SIZE

    def fresh(self, name, fn, label, *hs):
        for h in hs:
            self.use(h, name)
        ok, v = self.attempt(name, fn)
        return self.new(v, label) if ok else NULL

    def c_PySequence_GetItem(self, h, i):
        return self.fresh('PySequence_GetItem', lambda: self.get_index(h, i), f'{h}[{i}]', h)

    def get_index(self, h, i):
        if isinstance(h.val, E.ListObj) and isinstance(i, int):
            for x in h.val.items:
                self.ip.need_single(x)
            if not -len(h.val.items) <= i < len(h.val.items):
                raise E.RaiseEx(E.ExcV(E.BT('IndexError'), ()))
            return h.val.items[i].v
        return self.ip.lib.getitem(self.ip, h.val, i)

    def c_PyList_GetItem(self, h, i):
        self.use(h, 'PyList_GetItem')
        ok, v = self.attempt('PyList_GetItem', lambda: self.get_index(h, i))
        return self.borrow(v, h, f'{h}[{i}]') if ok else NULL

    def c_PyTuple_GetItem(self, h, i):
        self.use(h, 'PyTuple_GetItem')
        if not isinstance(h.val, tuple) or not 0 <= i < len(h.val):
            self.err = 'IndexError'
            self.failed.append('PyTuple_GetItem')
            return NULL
        return self.borrow(h.val[i], h, f'{h}[{i}]')

    def c_PyObject_GetItem(self, h, k):
        return self.fresh('PyObject_GetItem',
                          lambda: self.ip.lib.getitem(self.ip, h.val, k.val),
                          f'{h}[{k}]', h, k)

    def c_PyObject_SetItem(self, h, k, v):
        for x in (h, k, v):
            self.use(x, 'PyObject_SetItem')

        def go():
            self.stored.append((h.val, k.val, v.val))
            self.ip.lib.setitem(self.ip, h.val, k.val, v.val)
        ok, _ = self.attempt('PyObject_SetItem', go)
        return 0 if ok else -1

    def c_PyObject_GetIter(self, h):
        return self.fresh('PyObject_GetIter', lambda: ['iter', h, 0], f'iterator of {h}', h)

    def c_PyIter_Next(self, h):
        self.use(h, 'PyIter_Next')
        src = h.val[1]
        n = self.size_of(src)
        if self.fails('PyIter_Next'):
            return NULL
        i = h.val[2]
        if i >= n:
            return NULL
        h.val[2] += 1
        return self.new(self.get_index(src, i), f'{src}[{i}]')

    def c_PyNumber_Float(self, h):
        return self.fresh('PyNumber_Float', lambda: self.number(h.val), f'float({h})', h)

    def c_PyFloat_AsDouble(self, h):
        self.use(h, 'PyFloat_AsDouble')
        return self.as_double(h)

    def as_double(self, h, check=True):
        if not check:
            return self.number(h.val)
        ok, v = self.attempt('PyFloat_AsDouble', lambda: self.number(h.val))
        return v if ok else Num.const(-1)

    def c_PyFloat_AS_DOUBLE(self, h):
        self.use(h, 'PyFloat_AS_DOUBLE')
        if self.inject:
            self.bug(f'{h} is read as a float although it need not be one')
        return self.as_double(h, False)

    def c_PyFloat_FromDouble(self, x):
        ok, v = self.attempt('PyFloat_FromDouble', lambda: x)
        return self.new(v, 'new float') if ok else NULL

    def c_PyErr_Occurred(self):
        return ('err', 'pending') if self.err is not None else NULL

    def c_PyErr_Clear(self):
        self.err = None

    def c_PyErr_SetString(self, t, msg):
        self.err = E.ExcV(E.BT(t[1]), ())
        self.failed.append(f'check at line {self.line}')

    def c_PyErr_Format(self, t, *a):
        self.c_PyErr_SetString(t, None)
        return NULL

    def c_PyErr_SetObject(self, t, o):
        self.c_PyErr_SetString(t, None)

    def c_PyErr_SetNone(self, t):
        self.c_PyErr_SetString(t, None)

    def c_PyErr_NoMemory(self):
        self.c_PyErr_SetString(('err', 'MemoryError'), None)
        return NULL

    def c_PyErr_BadArgument(self):
        self.c_PyErr_SetString(('err', 'TypeError'), None)
        return 0

    def c_Py_INCREF(self, h):
        self.use(h, 'Py_INCREF')
        h.refs += 1

    c_Py_IncRef = c_Py_INCREF

    def c_Py_XINCREF(self, h):
        if h is not NULL:
            self.c_Py_INCREF(h)

    def c_Py_NewRef(self, h):
        self.c_Py_INCREF(h)
        return h

    c__Py_NewRef = c_Py_NewRef

    def c_Py_XNewRef(self, h):
        return h if h is NULL else self.c_Py_NewRef(h)

    c__Py_XNewRef = c_Py_XNewRef

    def c_Py_DECREF(self, h):
        if h is NULL:
            self.bug('Py_DECREF of NULL')
        if h.immortal:
            return
        if not isinstance(h, Handle):
            self.fail('Py_DECREF')
        if h.refs <= 0:
            if not h.alive():
                self.bug(f'the reference to {h} is released twice')
            self.bug(f'the reference to {h} is released although it is only borrowed')
        h.refs -= 1

    c_Py_DecRef = c_Py_DECREF

    def c_Py_XDECREF(self, h):
        if h is not NULL:
            self.c_Py_DECREF(h)

    def c_Py_TYPE(self, h):
        return 'typeof', self.use(h, 'Py_TYPE')

    def type_name(self, h):
        v = h.val
        if isinstance(v, tuple):
            return 'PyTuple_Type'
        if isinstance(v, E.ListObj):
            return 'PyList_Type'
        if isinstance(v, Num) or isinstance(v, int):
            return 'PyFloat_Type'
        return 'other'

    def c_Py_IS_TYPE(self, h, t):
        self.use(h, 'Py_IS_TYPE')
        return int(self.type_name(h) == t[1])

    c_PyObject_TypeCheck = c_Py_IS_TYPE

    def c_PyType_HasFeature(self, t, flag):
        if not (isinstance(t, tuple) and t[0] == 'typeof'):
            self.fail('type flags')
        n = self.type_name(t[1])
        if flag == 1 << 26:
            return int(n == 'PyTuple_Type')
        if flag == 1 << 25:
            return int(n == 'PyList_Type')
        self.fail('type flags')

    def c_PySequence_Fast(self, h, msg):
        return self.fresh('PySequence_Fast', lambda: h.val, f'sequence of {h}', h)

    def c___builtin_expect(self, a, b):
        return a
