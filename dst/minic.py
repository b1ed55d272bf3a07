"""A small C dialect: what bic supports and C defines.

Programs are JSON-able trees, so that a failing one can be shrunk and stored.
`render` prints a program, `Interp` is the reference model: it executes the
tree directly with C's semantics and rejects whatever C leaves undefined or
unspecified (overflow, evaluation order, out of bounds, ...).

Expressions
  ["n", 5] ["s", "text"] ["v", name] ["bin", op, a, b] ["not", a]
  ["cond", c, a, b] ["call", f, [args]] ["pcall", var, [args]]
  ["idx", base, e] ["mem", base, field] ["arrow", base, field]
  ["deref", base] ["addr", lvalue] ["faddr", f] ["callmem", f, [args], field]
  (a base is a name or an expression)
  ["cast", type, e] ["compl", e] ["sizeof", type] ["comma", [exprs]]
  ["macro", name] ["failx", text] (cannot be evaluated)
  ["set", op, lvalue, e]  (op: "=", "+=", "-=")   ["inc", "x++"/"++x"/.., lvalue]
Statements
  ["e", expr] ["decl", type, name, init] ["arr", type, name, n]
  ["decls", type, [[name, init]...]]
  ["st", struct, name] ["static", type, name, init] ["if", c, body, else]
  ["while", c, body] ["for0", name or null, body] ["for", name, from, cond, step, body, declare?]
  ["block", body] ["ret", expr] ["break"] ["print", fmt, [args]]
  ["repl", [entries]] ["fail", text] ["exit", expr]
Top level
  ["struct", name, [[type, field]...]] ["func", ret, name, [[type, p]...], body]
  ["proto", ret, name, [[type, p]...]] and statements
Types: int long short char str (char *), "p<type>" pointers, "p:S" (struct S *),
  "st:S" (struct S), "<type>[n]" arrays, the function pointers in FP, "t:T"
  (typedef name).
"""


class Reject(Exception):
    """The program isn't one whose behaviour C defines (or it is too long)."""


INTS = {'char': 8, 'short': 16, 'int': 32, 'long': 64}


def rng_of(ty):
    b = INTS[ty]
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


def wrap(ty, v):
    b = INTS[ty]
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


# ------------------------------------------------------------------- printing

CT = {'int': 'int ', 'long': 'long ', 'short': 'short ', 'char': 'char ',
      'str': 'char *', 'pint': 'int *', 'plong': 'long *', 'void': 'void ',
      'double': 'double '}


# Function pointers: return type, parameter types.
FP = {'fp2': ('int', ['int', 'int']), 'fpl': ('long', ['long', 'long']),
      'fps': ('int', ['str', 'int']), 'fpv': ('void', ['int']),
      'fp1': ('int', ['int']), 'fpc': ('char', ['char', 'char']),
      'fph': ('short', ['short', 'short'])}


def cdecl(ty, name):
    if ty.endswith(']'):
        base, n = ty[:-1].rsplit('[', 1)
        return cdecl(base, name + '[%s]' % n)
    if ty in FP:
        r, ps = FP[ty]
        return '%s(*%s)(%s)' % (CT[r], name, ', '.join(CT[t].strip() for t in ps))
    if ty in CT:
        return CT[ty] + name
    if ty.startswith('p:'):
        return 'struct %s *%s' % (ty[2:], name)
    if ty.startswith('st:'):
        return 'struct %s %s' % (ty[3:], name)
    if ty.startswith('t:'):
        return '%s %s' % (ty[2:], name)
    if ty.startswith('p'):
        return cdecl(ty[1:], '*' + name)
    raise ValueError(ty)


def rbase(b):
    if isinstance(b, str):
        return b
    if b[0] in ('deref', 'addr', 'cast'):
        return '(' + rx(b) + ')'
    return rx(b)


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t') + '"'


def rx(e):
    k = e[0]
    if k == 'n':
        return str(e[1])
    if k == 's':
        return cstr(e[1])
    if k == 'v':
        return e[1]
    if k == 'bin':
        return '(%s %s %s)' % (rx(e[2]), e[1], rx(e[3]))
    if k == 'not':
        return '(!%s)' % rx(e[1])
    if k == 'cond':
        return '(%s ? %s : %s)' % (rx(e[1]), rx(e[2]), rx(e[3]))
    if k in ('call', 'pcall'):
        return '%s(%s)' % (rbase(e[1]), ', '.join(rx(a) for a in e[2]))
    if k == 'cast':
        return '((%s)%s)' % (cdecl(e[1], '').strip(), rx(e[2]))
    if k == 'compl':
        return '(~%s)' % rx(e[1])
    if k == 'sizeof':
        return 'sizeof(%s)' % cdecl(e[1], '').strip()
    if k == 'comma':
        return '(' + ', '.join(rx(a) for a in e[1]) + ')'
    if k in ('macro', 'failx'):
        return e[1]
    if k == 'callmem':
        return '%s(%s).%s' % (e[1], ', '.join(rx(a) for a in e[2]), e[3])
    if k == 'idx':
        return '%s[%s]' % (rbase(e[1]), rx(e[2]))
    if k == 'mem':
        return '%s.%s' % (rbase(e[1]), e[2])
    if k == 'arrow':
        return '%s->%s' % (rbase(e[1]), e[2])
    if k == 'deref':
        return '*%s' % rbase(e[1])
    if k in ('addr', 'faddr'):
        return '&%s' % (rx(e[1]) if k == 'addr' else e[1])
    if k == 'set':
        return '%s %s %s' % (rx(e[2]), e[1], rx(e[3]))
    if k == 'inc':
        lv = rx(e[2])
        if e[2][0] == 'deref':
            lv = '(' + lv + ')'
        return e[1].replace('x', lv)
    raise ValueError(e)


def rs(st, out, ind):
    p = '    ' * ind
    k = st[0]
    if k == 'e':
        out.append(p + rx(st[1]) + ';')
    elif k == 'decl':
        out.append(p + cdecl(st[1], st[2]) + (' = ' + rx(st[3]) if st[3] is not None else '') + ';')
    elif k == 'decls':
        out.append(p + CT[st[1]] + ', '.join(n + (' = ' + rx(i) if i is not None else '') for n, i in st[2]) + ';')
    elif k == 'static':
        out.append(p + 'static ' + cdecl(st[1], st[2]) + (' = ' + rx(st[3]) if st[3] is not None else '') + ';')
    elif k == 'arr':
        out.append(p + cdecl('%s[%d]' % (st[1], st[3]), st[2]) + ';')
    elif k == 'st':
        out.append(p + 'struct %s %s;' % (st[1], st[2]))
    elif k == 'if':
        out.append(p + 'if (%s) {' % rx(st[1]))
        rb(st[2], out, ind + 1)
        if st[3]:
            out.append(p + '} else {')
            rb(st[3], out, ind + 1)
        out.append(p + '}')
    elif k == 'if1':        # a single statement as the body, no braces
        out.append(p + 'if (%s)' % rx(st[1]))
        rb(st[2], out, ind + 1)
        if st[3]:
            out.append(p + 'else')
            rb(st[3], out, ind + 1)
    elif k == 'while':
        out.append(p + 'while (%s) {' % rx(st[1]))
        rb(st[2], out, ind + 1)
        out.append(p + '}')
    elif k == 'for':
        _, name, frm, cond, step, body, dcl = st
        out.append(p + 'for (%s%s = %s; %s; %s) {' % ('int ' if dcl else '', name, rx(frm), rx(cond), rx(step)))
        rb(body, out, ind + 1)
        out.append(p + '}')
    elif k == 'for0':       # without condition; perhaps with a counter
        out.append(p + ('for (;;) {' if st[1] is None else 'for (%s = 0; ; %s++) {' % (st[1], st[1])))
        rb(st[2], out, ind + 1)
        out.append(p + '}')
    elif k == 'block':
        out.append(p + '{')
        rb(st[1], out, ind + 1)
        out.append(p + '}')
    elif k == 'ret':
        out.append(p + 'return' + (' ' + rx(st[1]) if st[1] is not None else '') + ';')
    elif k == 'break':
        out.append(p + 'break;')
    elif k == 'print':
        out.append(p + 'printf(%s);' % ', '.join([cstr(st[1])] + [rx(a) for a in st[2]]))
    elif k == 'exit':
        out.append(p + 'exit(%s);' % rx(st[1]))
    elif k == 'fail':
        out.append(p + st[1])
    elif k == 'repl':
        out.append(p + '<REPL>;')
    elif k == 'struct':
        out.append(p + 'struct %s { %s };' % (st[1], ' '.join(cdecl(t, n) + ';' for t, n in st[2])))
    elif k == 'enum':
        out.append(p + 'enum %s { %s };' % (st[1], ', '.join(n if v is None else '%s = %d' % (n, v) for n, v in st[2])))
    elif k == 'sarr':
        out.append(p + 'static ' + cdecl('%s[%d]' % (st[1], st[3]), st[2]) + ';')
    elif k == 'typedef':
        out.append(p + 'typedef %s;' % cdecl(st[1], st[2]))
    elif k == 'func':
        ret = ('struct %s ' % st[1][3:]) if st[1].startswith('st:') else CT[st[1]]
        out.append(p + '%s%s(%s)' % (ret, st[2], ', '.join(cdecl(t, n) for t, n in st[3])))
        out.append(p + '{')
        rb(st[4], out, ind + 1)
        out.append(p + '}')
    elif k == 'proto':
        out.append(p + '%s%s(%s);' % (CT[st[1]], st[2], ', '.join(cdecl(t, n) for t, n in st[3])))
    elif k == 'raw':
        out.append(p + st[1])
    elif k == 'use':        # only for the declarations of native functions
        pass
    else:
        raise ValueError(st)


def rb(body, out, ind):
    for s in body:
        rs(s, out, ind)


EXTERNS = [
    'extern int printf(const char *fmt, ...);',
    'extern void exit(int n);',
    'extern int atexit(void *fn);',
    'extern int sim_on(int slot, void *fn);',
    'extern int sim_on_v(int slot, void *fn);',
    'extern int sim_on_l(int slot, void *fn);',
    'extern int sim_on_c(int slot, void *fn);',
    'extern int sim_on_s(int slot, void *fn);',
    'extern int sim_on_p(int slot, void *fn);',
    'extern int sim_run(int n);',
    'extern int sim_pending();',
    'extern int sim_call(void *fn, int a, int b);',
    'extern int sim_each(int *v, int n, void *fn);',
    'extern int sim_mark(int k);',
    'extern int sim_keep(int i, char *s);',
    'extern int sim_show(int i);',
    'extern void qsort(void *base, long n, long size, void *cmp);',
]


def render(prog):
    out = []
    body = []
    rb(prog['top'], body, 0)
    text = '\n'.join(body)
    import re
    used = set(re.findall(r'\w+', text))
    for s in prog['top']:
        if s[0] == 'use':
            used |= set(s[1])
    for x in EXTERNS:
        name = re.search(r'(\w+)\(', x).group(1)
        if name in used:
            out.append(x)
    return '\n'.join(out + body) + '\n'


# ---------------------------------------------------------------- interpreter

class Cell:
    __slots__ = ('ty', 'v', 'dead', 'init')

    def __init__(self, ty, v, init=True):
        self.ty, self.v, self.dead, self.init = ty, v, False, init


class Arr:
    def __init__(self, ty, cells):
        self.ty, self.cells = ty, cells


class St:
    def __init__(self, name, f):
        self.name, self.f = name, f


class Break(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Fail(Exception):
    """The program runs into an error that stops it."""


class Func:
    def __init__(self, ret, name, params, body):
        self.ret, self.name, self.params, self.body = ret, name, params, body
        self.statics = {}


def mentions(e, name):
    """Does an expression refer to a variable of that name?"""
    if not isinstance(e, list) or not e:
        return False
    if e[0] in ('v', 'idx', 'mem', 'arrow', 'deref', 'pcall') and e[1] == name:
        return True
    return any(mentions(x, name) for x in e)


def is_int(ty):
    return ty in INTS


class Interp:
    def __init__(self, prog, events=(), max_steps=6000, repl=None):
        self.prog = prog
        self.events = list(events)
        self.ei = 0
        self.slots = {}
        self.out = []
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.protos = {}
        self.typedefs = {}
        self.enums = {}
        self.steps = 0
        self.max = max_steps
        self.depth = 0
        self.loop_depth = 0
        self.scopes = [self.globals]
        self.atexit = []
        self.kept = {}
        self.repl_session = repl
        self.trace = []
        self.macros = {}
        self.tags = set()
        self.missing = set()        # native functions that aren't found

    # -- scopes

    def lookup(self, name):
        for s in reversed(self.scopes):
            if s is None:           # a function boundary: on to the globals
                return self.globals.get(name)
            if name in s:
                return s[name]
        return None

    def need(self, name):
        x = self.lookup(name)
        if x is None:
            raise Reject('unbound ' + name)
        return x

    def bind(self, name, obj):
        s = self.scopes[-1]
        if name in s or (s is self.globals and name in self.funcs):
            raise Reject('redeclared ' + name)
        s[name] = obj

    def push(self):
        self.scopes.append({})

    def kill(self, obj):
        if isinstance(obj, Cell):
            obj.dead = True
        elif isinstance(obj, Arr):
            for c in obj.cells:
                self.kill(c)
        elif isinstance(obj, St):
            for c in obj.f.values():
                self.kill(c)

    def make(self, ty, init):
        """An object without initialiser."""
        if ty.startswith('t:'):
            if ty[2:] not in self.typedefs:
                raise Reject('typedef')
            return self.make(self.typedefs[ty[2:]], init)
        if ty.endswith(']'):
            base, n = ty[:-1].rsplit('[', 1)
            return Arr(base, [self.make(base, init) for _ in range(int(n))])
        if ty.startswith('st:'):
            if ty[3:] not in self.structs:
                raise Reject('struct')
            return St(ty[3:], {n: self.make(t, init) for t, n in self.structs[ty[3:]]})
        return Cell(ty, 0 if is_int(ty) else None, init)

    def pop(self):
        for n, o in self.scopes.pop().items():
            if not getattr(o, 'static', False) and not (isinstance(o, tuple)):
                self.kill(o)

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.max:
            raise Reject('too long')

    # -- values

    def load(self, c):
        if c.dead:
            raise Reject('dangling')
        if not c.init:
            raise Reject('uninitialised')
        return c.ty, c.v

    def store(self, c, val):
        if c.dead:
            raise Reject('dangling')
        ty, v = val
        if is_int(c.ty):
            if not is_int(ty):
                raise Reject('type')
            v = wrap(c.ty, v)
        elif ty == 'fp':
            if c.ty not in FP or FP[c.ty] != (v.ret, [t for t, _ in v.params]):
                raise Reject('signature')
        elif c.ty != ty and not (v is None and not is_int(c.ty)):
            if not (ty == 'int' and v == 0):
                raise Reject('type %s = %s' % (c.ty, ty))
            v = None
        c.v = v
        c.init = True
        return c.ty, v

    def sizeof(self, ty):
        if ty in INTS:
            return INTS[ty] // 8, INTS[ty] // 8
        if ty.endswith(']'):
            base, n = ty[:-1].rsplit('[', 1)
            s, a = self.sizeof(base)
            return s * int(n), a
        if ty.startswith('st:'):
            if ty[3:] not in self.structs:
                raise Reject('struct')
            o, al = 0, 1
            for t, _ in self.structs[ty[3:]]:
                s, a = self.sizeof(t)
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        return 8, 8

    def base(self, b):
        return ['v', b] if isinstance(b, str) else b

    def deref(self, v):
        ty, p = v
        if isinstance(p, tuple):
            arr, off = p
            if not 0 <= off < len(arr.cells):
                raise Reject('bounds')
            return arr.cells[off]
        if not isinstance(p, (Cell, St)):
            raise Reject('bad ptr')
        return p

    def obj(self, e):
        """The object that an lvalue designates."""
        k = e[0]
        if k == 'v':
            c = self.need(e[1])
            if isinstance(c, tuple):
                c = c[1]
            return c
        if k == 'idx':
            b = self.base(e[1])
            if b[0] == 'pcall' or b[0] == 'call':
                raise Reject('call as base')
            a = self.obj(b)
            i = self.int(e[2])
            if isinstance(a, Cell):
                _, p = self.load(a)
                if not isinstance(p, tuple):
                    raise Reject('not an array')
                arr, off = p
                i += off
                a = arr
            if not isinstance(a, Arr):
                raise Reject('not an array')
            if not 0 <= i < len(a.cells):
                raise Reject('bounds')
            return a.cells[i]
        if k in ('mem', 'arrow'):
            if k == 'arrow':
                s = self.deref(self.ev(self.base(e[1])))
            else:
                s = self.obj(self.base(e[1]))
            if not isinstance(s, St) or e[2] not in s.f:
                raise Reject('no member')
            return s.f[e[2]]
        if k == 'deref':
            return self.deref(self.ev(self.base(e[1])))
        raise Reject('not an lvalue')

    def lval(self, e):
        c = self.obj(e)
        if not isinstance(c, Cell):
            raise Reject('not scalar')
        return c

    def int(self, e):
        ty, v = self.ev(e)
        if not is_int(ty):
            raise Reject('not an integer')
        return v

    def truth(self, e):
        ty, v = self.ev(e)
        if is_int(ty):
            return v != 0
        if ty == 'str' or ty in FP:
            raise Reject('truth')
        return v is not None

    def arith(self, op, a, b):
        (ta, va), (tb, vb) = a, b
        if not is_int(ta) or not is_int(tb):
            if op in ('==', '!='):
                if is_int(ta):
                    (ta, va), (tb, vb) = (tb, vb), (ta, va)
                if is_int(tb):
                    if vb != 0:
                        raise Reject('operands')
                    same = va is None
                else:
                    if ta in ('str', 'fp') or ta in FP or tb != ta:
                        raise Reject('unspecified')
                    if isinstance(va, tuple) or isinstance(vb, tuple):
                        raise Reject('unspecified')
                    same = va is vb
                return 'int', int(same == (op == '=='))
            raise Reject('operands')
        ty = 'long' if 'long' in (ta, tb) else 'int'
        if op in ('<<', '>>'):
            ty = 'long' if ta == 'long' else 'int'
            if vb < 0 or vb > 15 or va < 0:
                raise Reject('shift')
            v = va << vb if op == '<<' else va >> vb
        elif op == '+':
            v = va + vb
        elif op == '-':
            v = va - vb
        elif op == '*':
            v = va * vb
        elif op in ('/', '%'):
            if vb == 0:
                raise Reject('div')
            q = abs(va) // abs(vb)
            if (va < 0) != (vb < 0):
                q = -q
            v = q if op == '/' else va - q * vb
        elif op == '&':
            v = va & vb
        elif op == '|':
            v = va | vb
        elif op == '^':
            v = va ^ vb
        elif op in ('<', '>', '<=', '>=', '==', '!='):
            return 'int', int({'<': va < vb, '>': va > vb, '<=': va <= vb, '>=': va >= vb,
                               '==': va == vb, '!=': va != vb}[op])
        else:
            raise Reject(op)
        lo, hi = rng_of(ty)
        if not lo <= v <= hi:
            raise Reject('overflow')
        return ty, v

    def ev(self, e):
        self.tick()
        k = e[0]
        if k == 'n':
            if not -(1 << 31) < e[1] < 1 << 31:
                raise Reject('literal')
            return 'int', e[1]
        if k == 's':
            return 'str', e[1]
        if k in ('v', 'idx', 'mem', 'arrow', 'deref'):
            if k == 'v' and e[1] in self.enums and self.lookup(e[1]) is None:
                return 'int', self.enums[e[1]]
            x = self.obj(e)
            if isinstance(x, Arr):
                return 'p' + x.ty.replace('st:', ':'), (x, 0)
            if isinstance(x, Cell):
                return self.load(x)
            raise Reject('struct value')
        if k == 'cast':
            if e[1] not in INTS:
                raise Reject('cast')
            return e[1], wrap(e[1], self.int(e[2]))
        if k == 'compl':
            ty, v = self.ev(e[1])
            if ty not in ('int', 'long'):
                raise Reject('compl')
            return ty, ~v
        if k == 'sizeof':
            return 'int', self.sizeof(e[1])[0]
        if k == 'comma':
            for x in e[1]:
                r = self.ev(x)
            return r
        if k == 'failx':
            raise Fail()
        if k == 'macro':
            if e[1] not in self.macros:
                raise Reject('macro')
            return self.ev(self.macros[e[1]])
        if k == 'bin':
            op = e[1]
            if op == '&&':
                return 'int', int(self.truth(e[2]) and self.truth(e[3]))
            if op == '||':
                return 'int', int(self.truth(e[2]) or self.truth(e[3]))
            a = self.ev(e[2])
            return self.arith(op, a, self.ev(e[3]))
        if k == 'not':
            return 'int', int(not self.truth(e[1]))
        if k == 'cond':
            return self.ev(e[2]) if self.truth(e[1]) else self.ev(e[3])
        if k == 'addr':
            if e[1][0] == 'idx':
                b = self.obj(self.base(e[1][1]))
                if isinstance(b, Arr) and not b.ty.startswith('st:'):
                    i = self.int(e[1][2])
                    if not 0 <= i < len(b.cells):
                        raise Reject('bounds')
                    return 'p' + b.ty, (b, i)
            x = self.obj(e[1])
            if isinstance(x, St):
                return 'p:' + x.name, x
            if isinstance(x, Arr):
                raise Reject('addr of array')
            return 'p' + x.ty, x
        if k == 'faddr':
            if e[1] not in self.funcs:
                raise Reject('no function')
            return 'fp', self.funcs[e[1]]
        if k == 'set':
            if e[1] == '=':
                # Neither order of evaluation may matter: the generator's duty.
                v = self.ev(e[3])
                return self.store(self.lval(e[2]), v)
            c = self.lval(e[2])
            r = self.arith(e[1][:-1], self.load(c), self.ev(e[3]))
            return self.store(c, r)
        if k == 'inc':
            c = self.lval(e[2])
            old = self.load(c)
            if not is_int(old[0]):
                raise Reject('inc')
            new = self.arith('+' if '+' in e[1] else '-', old, ('int', 1))
            if wrap(c.ty, new[1]) != new[1]:
                raise Reject('overflow')
            r = self.store(c, new)
            return old if e[1][0] == 'x' else r
        if k in ('call', 'pcall'):
            if k == 'call' and e[1] in self.missing:
                raise Fail()
            args = [self.ev(a) for a in e[2]]
            if k == 'pcall':
                ty, f = self.ev(self.base(e[1]))
                if ty not in FP:
                    raise Reject('not a function pointer')
                if f is None:
                    raise Reject('null call')
                return self.call(f, args)
            if e[1] in self.funcs:
                if self.lookup(e[1]) is not None:
                    raise Reject('shadowed function')
                return self.call(self.funcs[e[1]], args)
            return self.native(e[1], args)
        if k == 'callmem':
            if e[1] not in self.funcs:
                raise Reject('no function')
            args = [self.ev(a) for a in e[2]]
            s = self.call(self.funcs[e[1]], args, want_struct=True)
            if e[3] not in s.f:
                raise Reject('member')
            c = s.f[e[3]]
            return c.ty, c.v
        raise Reject('expr ' + k)

    # -- calls

    def call(self, f, args, want_struct=False):
        if len(args) != len(f.params):
            raise Reject('arity')
        self.depth += 1
        if self.depth > 60:
            raise Reject('too deep')
        saved = self.scopes
        self.scopes = [self.globals, None, {}]
        for (ty, name), a in zip(f.params, args):
            c = Cell(ty, None, False)
            self.store(c, a)
            self.bind(name, c)
        self.fstack = getattr(self, 'fstack', [])
        self.fstack.append(f)
        ret = None
        depth = len(self.scopes)
        try:
            self.body(f.body)
        except Ret as r:
            ret = r.v
        except Break:
            raise Reject('stray break')
        finally:
            self.fstack.pop()
        while len(self.scopes) > depth:
            self.pop()
        self.pop()
        self.scopes = saved
        self.depth -= 1
        if f.ret == 'void':
            return 'void', None
        if ret is None:
            raise Reject('no value returned')
        if f.ret.startswith('st:'):
            if not want_struct:
                raise Reject('struct')
            return ret
        # bic doesn't convert the value to the return type: it has to fit.
        lo, hi = rng_of(f.ret)
        if not is_int(ret[0]) or not lo <= ret[1] <= hi:
            raise Reject('return type')
        return f.ret, ret[1]

    def native(self, name, args):
        vals = [a[1] for a in args]
        if name.startswith('sim_on'):
            self.slots[vals[0]] = (vals[1], name[7:] or 'i')
            return 'int', 0
        if name == 'sim_run':
            return 'int', self.run_events(vals[0])
        if name == 'sim_pending':
            return 'int', len(self.events) - self.ei
        if name == 'sim_call':
            if vals[0] is None:
                raise Reject('null')
            return self.call(vals[0], args[1:])
        if name == 'sim_each':
            arr, off = vals[0]
            r = 0
            for i in range(vals[1]):
                if off + i >= len(arr.cells):
                    raise Reject('bounds')
                v = self.call(vals[2], [self.load(arr.cells[off + i]), ('int', i)])[1]
                r = self.cmod(r + v, 100000)
            return 'int', r
        if name == 'sim_mark':
            return 'int', vals[0]
        if name == 'sim_keep':
            self.kept[vals[0] & 63] = vals[1]
            return 'int', vals[0]
        if name == 'sim_show':
            if vals[0] & 63 not in self.kept:
                raise Reject('nothing kept')
            self.out.append('kept %d=%s\n' % (vals[0], self.kept[vals[0] & 63]))
            return 'int', vals[0]
        if name == 'atexit':
            if len(self.atexit) >= 24:
                raise Reject('atexit')
            self.atexit.append(vals[0])
            return 'int', 0
        if name == 'qsort':
            arr, off = vals[0]
            n = vals[1]
            cells = arr.cells[off:off + n]
            if len(cells) != n or vals[2] != INTS[arr.ty] // 8:
                raise Reject('qsort')
            data = [self.load(c) for c in cells]
            if len(set(d[1] for d in data)) != n:
                raise Reject('ties')
            import functools
            f = vals[3]

            def cmp(a, b):
                # The comparator has to be pure: its calls aren't specified.
                mark, st = len(self.out), self.steps
                ca, cb = Cell(arr.ty, a[1]), Cell(arr.ty, b[1])
                r = self.call(f, [('p' + arr.ty, ca), ('p' + arr.ty, cb)])[1]
                if len(self.out) != mark:
                    raise Reject('comparator output')
                return r
            data.sort(key=functools.cmp_to_key(cmp))
            for c, d in zip(cells, data):
                c.v = d[1]
            return 'void', None
        raise Reject('native ' + name)

    @staticmethod
    def cmod(a, b):
        r = abs(a) % b
        return -r if a < 0 else r

    def run_events(self, n):
        total = 0
        self.loop_depth += 1
        strs = ['zero', 'one', 'two', 'three', 'four']
        while n > 0 and self.ei < len(self.events):
            n -= 1
            slot, a, b = self.events[self.ei]
            self.ei += 1
            if slot not in self.slots:
                continue
            f, kind = self.slots[slot]
            if kind == 'i':
                r = self.call(f, [('int', a), ('int', b)])[1]
            elif kind == 'v':
                self.call(f, [('int', a)])
                r = 0
            elif kind == 'l':
                r = self.call(f, [('long', a), ('long', b)])[1]
            elif kind == 'c':
                r = self.call(f, [('char', wrap('char', a)), ('char', wrap('char', b))])[1]
            elif kind == 's':
                r = self.call(f, [('short', wrap('short', a)), ('short', wrap('short', b))])[1]
            elif kind == 'p':
                r = self.call(f, [('str', strs[a % 5]), ('int', b)])[1]
            else:
                raise Reject('kind')
            self.trace.append('event %d(%d,%d) = %d depth %d' % (slot, a, b, r, self.loop_depth))
            total = self.cmod(total * 7 + self.cmod(r, 1000), 100000)
        self.loop_depth -= 1
        return total

    # -- statements

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def scoped(self, stmts):
        self.push()
        n = len(self.scopes)
        try:
            self.body(stmts)
        except (Ret, Break):
            del self.scopes[n:]
            self.pop()
            raise
        del self.scopes[n:]
        self.pop()

    def stmt(self, s):
        self.tick()
        k = s[0]
        if k == 'e':
            self.ev(s[1])
        elif k == 'decl':
            ty = s[1]
            if ty.startswith('t:'):
                if ty[2:] not in self.typedefs:
                    raise Reject('typedef')
                ty = self.typedefs[ty[2:]]
            if s[3] is not None and mentions(s[3], s[2]):
                raise Reject('initialised with itself')
            v = self.ev(s[3]) if s[3] is not None else None
            c = self.make(ty, len(self.scopes) == 1)
            if v is not None and not isinstance(c, Cell):
                raise Reject('initialiser')
            # The initialiser mustn't refer to the new object.
            self.bind(s[2], c)
            if v is not None:
                self.store(c, v)
        elif k == 'decls':
            for n, i in s[2]:
                self.stmt(['decl', s[1], n, i])
        elif k == 'static':
            f = self.fstack[-1] if getattr(self, 'fstack', None) else self
            if not hasattr(f, 'statics'):
                f.statics = {}
            key = id(s)
            if key not in f.statics:
                c = Cell(s[1], 0 if is_int(s[1]) else None)
                if s[3] is not None:
                    if s[3][0] not in ('n', 's'):
                        raise Reject('static init')
                    self.store(c, self.ev(s[3]))
                f.statics[key] = c
            self.bind(s[2], ('static', f.statics[key]))
        elif k == 'arr':
            self.bind(s[2], self.make('%s[%d]' % (s[1], s[3]), len(self.scopes) == 1))
        elif k == 'sarr':
            f = self.fstack[-1]
            key = id(s)
            if key not in f.statics:
                f.statics[key] = self.make('%s[%d]' % (s[1], s[3]), True)
            self.bind(s[2], ('static', f.statics[key]))
        elif k == 'st':
            self.bind(s[2], self.make('st:' + s[1], len(self.scopes) == 1))
        elif k in ('if', 'if1'):
            if self.truth(s[1]):
                self.scoped(s[2])
            elif s[3]:
                self.scoped(s[3])
        elif k == 'while':
            while self.truth(s[1]):
                self.tick()
                try:
                    self.scoped(s[2])
                except Break:
                    break
        elif k == 'for':
            _, name, frm, cond, step, body, dcl = s
            self.push()
            if dcl:
                if mentions(frm, name):
                    raise Reject('initialised with itself')
                c = Cell('int', None, False)
                v = self.ev(frm)
                self.bind(name, c)
                self.store(c, v)
            else:
                self.store(self.lval(['v', name]), self.ev(frm))
            n = len(self.scopes)
            while self.truth(cond):
                self.tick()
                try:
                    self.scoped(body)
                except Break:
                    break
                self.ev(step)
            del self.scopes[n:]
            self.pop()
        elif k == 'for0':
            c = self.lval(['v', s[1]]) if s[1] is not None else None
            if c is not None:
                self.store(c, ('int', 0))
            while True:
                self.tick()
                try:
                    self.scoped(s[2])
                except Break:
                    break
                if c is not None:
                    self.store(c, ('int', self.load(c)[1] + 1))
        elif k == 'block':
            self.scoped(s[1])
        elif k == 'ret':
            if s[1] is None:
                raise Ret(None)
            if s[1][0] == 'v':
                x = self.lookup(s[1][1])
                if isinstance(x, St):
                    if any(not isinstance(c, Cell) or not c.init for c in x.f.values()):
                        raise Reject('uninit')
                    raise Ret(St(x.name, {n: Cell(c.ty, c.v) for n, c in x.f.items()}))
            raise Ret(self.ev(s[1]))
        elif k == 'break':
            raise Break()
        elif k == 'print':
            if 'printf' in self.missing:
                raise Fail()
            self.printf(s[1], [self.ev(a) for a in s[2]])
        elif k == 'exit':
            if 'exit' in self.missing:
                raise Fail()
            raise Exit(self.int(s[1]) & 255)
        elif k == 'fail':
            raise Fail()
        elif k == 'repl':
            if not self.repl_session:
                raise Reject('repl')
            self.repl_session(self, s[1])
        elif k == 'struct':
            if s[1] in self.structs:
                raise Reject('struct redefined')
            self.structs[s[1]] = s[2]
        elif k == 'enum':
            self.tags.add(s[1])
            v = -1
            for n, x in s[2]:
                v = v + 1 if x is None else x
                if n in self.enums or n in self.globals:
                    raise Reject('enum')
                self.enums[n] = v
        elif k == 'typedef':
            if s[2] in self.typedefs or s[2] in self.globals:
                raise Reject('typedef')
            self.typedefs[s[2]] = s[1]
        elif k == 'func':
            if s[2] in self.funcs or s[2] in self.globals:
                raise Reject('redefined')
            self.funcs[s[2]] = Func(*s[1:5])
        elif k == 'proto':
            self.protos[s[2]] = s
        elif k in ('raw', 'use'):
            pass
        else:
            raise Reject('stmt ' + k)

    def printf(self, fmt, args):
        out, i, n = '', 0, 0
        while i < len(fmt):
            if fmt[i] != '%':
                out += fmt[i]
                i += 1
                continue
            if n >= len(args):
                raise Reject('printf')
            ty, v = args[n]
            n += 1
            if fmt.startswith('%d', i):
                if not is_int(ty) or ty == 'long':
                    raise Reject('printf %d')
                out += str(v)
                i += 2
            elif fmt.startswith('%ld', i):
                if ty != 'long':
                    raise Reject('printf %ld')
                out += str(v)
                i += 3
            elif fmt.startswith('%s', i):
                if ty != 'str' or v is None:
                    raise Reject('printf %s')
                out += v
                i += 2
            else:
                raise Reject('printf')
        if n != len(args):
            raise Reject('printf')
        self.out.append(out)

    # -- whole programs

    def run(self):
        """Returns (stdout, exit status or None if an error stops the program)."""
        code = 0
        try:
            # File scope first: like bic, in order.
            for s in self.prog['top']:
                self.stmt(s)
            if 'main' in self.funcs:
                m = self.funcs['main']
                try:
                    r = self.call(m, [('int', 1)] if m.params else [])
                    code = r[1] & 255
                except Reject as e:
                    if str(e) != 'no value returned':
                        raise
                    code = 0
        except Ret as r:
            code = r.v[1] & 255 if r.v else 0
        except Break:
            raise Reject('stray break')
        except Exit as x:
            code = x.code
        except Fail:
            code = None
        self.main_out = len(self.out)
        self.finish()
        return ''.join(self.out), code

    def finish(self):
        while self.atexit:
            f = self.atexit.pop()
            self.scopes = [self.globals]
            self.depth = 0
            try:
                self.call(f, [])
            except (Exit, Fail):
                raise Reject('exit in atexit handler')
