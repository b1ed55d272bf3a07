"""Random programs of the dialect in minic.py.

What a program does is decided by one random.Random.  The features that are
enabled (swarm style) are drawn for every program; the generator keeps to what
C defines (the model rejects the rest) and to what bic supports."""
from minic import FP, INTS, mentions

POOL = ['a', 'b', 'c', 'd', 'i', 'k', 'n', 'x', 'y', 'z']
WORDS = ['', 'a', 'ab', 'zero', 'lorem', 'ipsum dolor', 'x=y', 'tab\there', 'q"q', '100%', 'end.']

FEATURES = ['structs', 'arrays', 'pointers', 'strings', 'statics', 'fps', 'recursion',
            'mutual', 'loops', 'blocks', 'breaks', 'returns', 'events', 'nested', 'natives',
            'qsort', 'list', 'callmem', 'longs', 'small', 'enums', 'shadow', 'typedefs',
            'kept', 'long_bodies', 'ptrglobals']


class Var:
    __slots__ = ('name', 'ty', 'ro', 'glob', 'n')

    def __init__(self, name, ty, ro=False, glob=False, n=0):
        self.name, self.ty, self.ro, self.glob, self.n = name, ty, ro, glob, n


class Fn:
    __slots__ = ('name', 'ret', 'params', 'kind', 'bound')

    def __init__(self, name, ret, params, kind, bound=None):
        # kind: 'pure' (no effects at all), 'any'; bound: first argument is a
        # recursion depth, at most that.
        self.name, self.ret, self.params, self.kind, self.bound = name, ret, params, kind, bound


class Gen:
    def __init__(self, r, want=(), avoid=(), size=1.0):
        self.r = r
        self.f = set(x for x in FEATURES if r.random() < 0.55) | set(want)
        self.f -= set(avoid)
        self.size = size
        self.scopes = [{}]
        self.fns = []
        self.structs = {}
        self.enums = []
        self.typedefs = []
        self.top = []
        self.in_loop = 0
        self.in_fn = None
        self.budget = 0
        self.slots = []
        self.slot_of = {}
        self.nfn = 0
        self.label = 0
        self.calls_ok = True
        self.cb_depth = 0

    # -- helpers

    def has(self, x):
        return x in self.f

    def ch(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def vars(self, pred):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for n, v in s.items():
                if n not in seen:
                    seen.add(n)
                    if pred(v):
                        out.append(v)
        return out

    def fresh(self, glob=False, unlike=None):
        """A name that isn't declared in this scope (but may be shadowed)."""
        s = self.scopes[-1]
        for _ in range(20):
            n = self.ch(POOL if self.has('shadow') or glob else POOL + ['v%d' % self.r.randrange(40)])
            if n in s or (unlike is not None and mentions(unlike, n)):
                continue
            if not self.has('shadow') and any(n in x for x in self.scopes):
                continue
            return n
        self.label += 1
        return 'u%d' % self.label

    def add(self, v):
        self.scopes[-1][v.name] = v
        return v

    def num(self, lo=-9, hi=60):
        n = self.r.randint(lo, hi)
        if n < 0:
            return ['bin', '-', ['n', 0], ['n', -n]]
        return ['n', n]

    # -- pure integer expressions (type int after promotion)

    def atom(self):
        r = self.r
        o = self.r.random()
        if o < 0.22:
            return self.num()
        if o < 0.30 and self.enums:
            return ['v', self.ch(self.enums)]
        lv = self.readable()
        return lv if lv else self.num()

    def readable(self, tys=('int', 'char', 'short')):
        def ok(v):
            if v.ty in tys:
                return True
            if v.n and v.ty in tys:
                return True
            return v.ty == 'p' + tys[0] or (v.ty[:3] in ('st:',) or v.ty[:2] == 'p:')
        for _ in range(4):
            vs = self.vars(ok)
            if not vs:
                return None
            v = self.ch(vs)
            e = self.path(v, tys)
            if e is not None:
                return e
        return None

    def index(self, n):
        """An expression in 0 .. n - 1."""
        vs = self.vars(lambda v: v.ty == 'int' and not v.n)
        if vs and self.p(0.3):
            m = ['bin', '%', ['v', self.ch(vs).name], ['n', n]]
            return ['bin', '%', ['bin', '+', m, ['n', n]], ['n', n]]
        return ['n', self.r.randrange(n)]

    def path(self, v, tys):
        """An access to a member of type in tys that v leads to."""
        e = ['v', v.name]
        ty = v.ty
        if v.n:
            e = ['idx', v.name, self.index(v.n)]
        if ty in tys:
            return e
        if ty[:1] == 'p' and ty[1:] in tys:
            return ['deref', v.name]
        if ty[:3] == 'st:' or ty[:2] == 'p:':
            op = 'mem' if ty[:3] == 'st:' else 'arrow'
            fs = [(t, n) for t, n in self.structs[ty.split(':')[1]] if t.split('[')[0] in tys]
            if not fs:
                return None
            t, n = self.ch(fs)
            e = [op, e if e[0] != 'v' else v.name, n]
            if t.endswith(']'):
                e = ['idx', e, self.index(int(t[:-1].split('[')[1]))]
            return e
        return None

    def writable(self, ty):
        def ok(v):
            if v.ro:
                return False
            return v.ty == ty or v.ty == 'p' + ty or v.ty[:3] == 'st:' or v.ty[:2] == 'p:'
        for _ in range(4):
            vs = self.vars(ok)
            if not vs:
                return None
            e = self.path(self.ch(vs), (ty,))
            if e is not None:
                return e
        return None

    def expr(self, d=2):
        if d <= 0 or self.p(0.25):
            return self.atom()
        o = self.r.random()
        if o < 0.42:
            return ['bin', self.ch(['+', '-']), self.expr(d - 1), self.expr(d - 1)]
        if o < 0.52:
            return ['bin', '*', ['bin', '%', self.expr(d - 1), ['n', 31]], self.num(0, 7)]
        if o < 0.60:
            return ['bin', self.ch(['/', '%']), self.expr(d - 1), ['n', self.r.randint(1, 9)]]
        if o < 0.68:
            return ['bin', self.ch(['&', '|', '^']), self.expr(d - 1), self.expr(d - 1)]
        if o < 0.76:
            return self.cond(d)
        if o < 0.82:
            return ['cond', self.cond(d - 1), self.expr(d - 1), self.expr(d - 1)]
        if o < 0.86:
            return ['compl', self.expr(d - 1)]
        if o < 0.89:
            return ['cast', 'char' if self.p(.5) else 'short', self.expr(d - 1)]
        if o < 0.92:
            return ['not', self.expr(d - 1)]
        f = self.pick_fn(lambda f: f.kind == 'pure' and f.ret == 'int')
        if f and self.calls_ok:
            return ['call', f.name, self.args(f, 0)]
        return self.atom()

    def cond(self, d=1):
        o = self.r.random()
        if o < 0.7 or d <= 0:
            return ['bin', self.ch(['<', '>', '<=', '>=', '==', '!=']), self.expr(d - 1), self.expr(d - 1)]
        if o < 0.9:
            return ['bin', self.ch(['&&', '||']), self.cond(d - 1), self.cond(d - 1)]
        return ['not', self.cond(d - 1)]

    def small_expr(self, m=97, d=2):
        return ['bin', '%', self.expr(d), ['n', m]]

    # -- strings

    def strx(self):
        vs = self.vars(lambda v: v.ty == 'str' and not v.n)
        if vs and self.p(0.5):
            return ['v', self.ch(vs).name]
        return ['s', self.ch(WORDS) + (str(self.r.randrange(10)) if self.p(.5) else '')]

    # -- calls

    def pick_fn(self, pred):
        fs = [f for f in self.fns if pred(f)]
        return self.ch(fs) if fs else None

    def arg(self, ty, d=1):
        if ty == 'int':
            return self.small_expr(97, d)
        if ty == 'long':
            return self.small_expr(97, d)
        if ty in ('char', 'short'):
            return self.small_expr(60, d)
        if ty == 'str':
            return self.strx()
        if ty == 'pint':
            return self.intptr()
        if ty in FP:
            return ['faddr', self.match_fp(ty).name]
        raise ValueError(ty)

    def intptr(self):
        vs = self.vars(lambda v: v.ty == 'int' and not v.ro)
        if not vs:
            return None
        v = self.ch(vs)
        if v.n:
            return ['addr', ['idx', v.name, ['n', self.r.randrange(v.n)]]]
        return ['addr', ['v', v.name]]

    def match_fp(self, ty):
        ret, ps = FP[ty]
        return self.pick_fn(lambda f: f.ret == ret and [t for t, _ in f.params] == ps and f.bound is None)

    def args(self, f, d=1):
        out = []
        for i, (t, _) in enumerate(f.params):
            if i == 0 and f.bound is not None:
                out.append(['n', self.r.randint(0, f.bound)])
            else:
                a = self.arg(t, d)
                if a is None:
                    return None
                out.append(a)
        return out

    def callx(self, ret=('int',)):
        """One call, which may have effects, or None."""
        o = self.r.random()
        if o < 0.22 and self.has('fps'):
            e = self.fpcall()
            if e:
                return e
        if o < 0.40 and self.has('events') and self.slots and self.can_run():
            return ['call', 'sim_run', [['n', self.r.randint(1, 3)]]]
        if o < 0.50 and self.has('natives'):
            f = self.match_fp('fp2')
            if f:
                return ['call', 'sim_call', [['faddr', f.name], self.small_expr(50, 1), self.small_expr(50, 1)]]
        if o < 0.58 and self.has('natives'):
            f = self.match_fp('fp2')
            vs = self.vars(lambda v: v.ty == 'int' and v.n)
            if f and vs:
                v = self.ch(vs)
                return ['call', 'sim_each', [['addr', ['idx', v.name, ['n', 0]]], ['n', v.n], ['faddr', f.name]]]
        f = self.pick_fn(lambda f: f.ret in ret)
        if not f:
            return None
        a = self.args(f)
        return None if a is None else ['call', f.name, a]

    def can_run(self):
        return self.in_fn is None or self.has('nested')

    def fpcall(self):
        def ok(v):
            return v.ty in ('fp2', 'fp1', 'fps') or v.ty[:3] == 'st:' or v.ty[:2] == 'p:'
        vs = self.vars(ok)
        if not vs:
            return None
        v = self.ch(vs)
        e = self.path(v, ('fp2', 'fp1', 'fps'))
        if e is None:
            return None
        ty = v.ty if v.ty in FP else 'fp2'
        args = [self.arg(t) for t in FP[ty][1]]
        return ['pcall', v.name if e[0] == 'v' else e, args]

    # -- statements

    def decl(self, out, ty=None):
        r = self.r
        kinds = ['int'] * 5
        if self.has('arrays'):
            kinds += ['arr'] * 2
        if self.has('structs') and self.structs:
            kinds += ['st', 'pst']
        if self.has('pointers'):
            kinds += ['pint'] * 2
        if self.has('strings'):
            kinds += ['str'] * 2
        if self.has('fps'):
            kinds += ['fp2', 'fp2', 'fp1']
        if self.has('longs'):
            kinds += ['long']
        if self.has('small'):
            kinds += ['char', 'short']
        if self.has('typedefs') and self.typedefs:
            kinds += ['t']
        k = ty or self.ch(kinds)
        if k == 'int':
            e = self.expr()
            n = self.fresh(unlike=e)
            if self.p(0.8):
                out.append(['decl', 'int', n, e])
            else:
                out.append(['decl', 'int', n, None])
                out.append(['e', ['set', '=', ['v', n], self.num()]])
            self.add(Var(n, 'int'))
        elif k == 't':
            e = self.small_expr()
            n = self.fresh(unlike=e)
            out.append(['decl', 't:' + self.ch(self.typedefs), n, e])
            self.add(Var(n, 'int'))
        elif k in ('long', 'char', 'short'):
            e = self.small_expr()
            n = self.fresh(unlike=e)
            out.append(['decl', k, n, e])
            self.add(Var(n, k))
        elif k == 'str':
            e = self.strx()
            n = self.fresh(unlike=e)
            out.append(['decl', 'str', n, e])
            self.add(Var(n, 'str'))
        elif k == 'pint':
            e = self.intptr()
            if e is None:
                return
            n = self.fresh(unlike=e)
            out.append(['decl', 'pint', n, e])
            self.add(Var(n, 'pint', ro=False))
        elif k in FP:
            f = self.match_fp(k)
            if not f:
                return
            n = self.fresh()
            out.append(['decl', k, n, None])
            out.append(['e', ['set', '=', ['v', n], ['faddr', f.name]]])
            self.add(Var(n, k))
        elif k == 'arr':
            n = self.fresh()
            m = r.randint(2, 5)
            ty = self.ch(['int', 'int', 'int', 'char'])
            out.append(['arr', ty, n, m])
            if self.p(0.6):
                it = self.fresh()
                while it == n:
                    self.label += 1
                    it = 'u%d' % self.label
                out.append(['for', it, ['n', 0], ['bin', '<', ['v', it], ['n', m]], ['inc', 'x++', ['v', it]],
                            [['e', ['set', '=', ['idx', n, ['v', it]],
                                    ['bin', '+', ['bin', '*', ['v', it], ['n', r.randint(1, 5)]], ['n', r.randint(0, 5)]]]]], True])
            else:
                for i in range(m):
                    out.append(['e', ['set', '=', ['idx', n, ['n', i]], ['n', r.randint(0, 50)]]])
            self.add(Var(n, ty, n=m))
        elif k == 'st':
            s = self.ch(sorted(self.structs))
            self.label += 1
            n = 's%d' % self.label
            out.append(['st', s, n])
            v = Var(n, 'st:' + s)
            for t, f in self.structs[s]:
                self.init_member(out, ['mem', n, f], t)
            self.add(v)
        elif k == 'pst':
            vs = self.vars(lambda v: v.ty[:3] == 'st:')
            if not vs:
                return
            t = self.ch(vs)
            tgt = ['v', t.name] if not t.n else ['idx', t.name, self.index(t.n)]
            n = self.fresh(unlike=tgt)
            out.append(['decl', 'p:' + t.ty[3:], n, ['addr', tgt]])
            self.add(Var(n, 'p:' + t.ty[3:]))

    def init_member(self, out, lv, t):
        if t.endswith(']'):
            b, n = t[:-1].split('[')
            for i in range(int(n)):
                self.init_member(out, ['idx', lv, ['n', i]], b)
        elif t in INTS:
            out.append(['e', ['set', '=', lv, self.num(0, 60)]])
        elif t == 'str':
            out.append(['e', ['set', '=', lv, self.strx()]])
        elif t in FP:
            f = self.match_fp(t)
            out.append(['e', ['set', '=', lv, ['faddr', f.name] if f else ['n', 0]]])
        else:
            out.append(['e', ['set', '=', lv, ['n', 0]]])

    def assign(self, out):
        o = self.r.random()
        if o < 0.12 and self.has('strings'):
            lv = self.writable('str')
            if lv:
                v = self.strx()
                if self.p(0.3):
                    v = ['cond', self.cond(), v, ['s', self.ch(WORDS)]]
                out.append(['e', ['set', '=', lv, v]])
                return
        if o < 0.2 and self.has('fps'):
            lv = self.writable('fp2')
            f = self.match_fp('fp2')
            if lv and f:
                out.append(['e', ['set', '=', lv, ['faddr', f.name]]])
                return
        if o < 0.28 and self.has('pointers'):
            vs = self.vars(lambda v: v.ty == 'pint' and not v.ro)
            if vs:
                a = self.intptr()
                v = self.ch(vs)
                if a:
                    # Only to something that outlives it: the model rejects the rest.
                    out.append(['e', ['set', '=', ['v', v.name], a]])
                    return
        ty = 'int'
        if o > 0.85 and self.has('small'):
            ty = self.ch(['char', 'short'])
        elif o > 0.75 and self.has('longs'):
            ty = 'long'
        lv = self.writable(ty)
        if not lv:
            return
        o = self.r.random()
        if o < 0.5:
            out.append(['e', ['set', '=', lv, self.small_expr(self.ch([97, 101, 53]))]])
        elif o < 0.7 and ty != 'char':
            out.append(['e', ['set', self.ch(['+=', '-=']), lv, self.small_expr(19, 1)]])
        elif o < 0.85 and ty != 'char':
            out.append(['e', ['inc', self.ch(['x++', '++x', 'x--', '--x']), lv]])
        else:
            vs = self.vars(lambda v: v.ty == 'int' and not v.ro and not v.n)
            if vs and ty == 'int':
                out.append(['e', ['set', '=', ['v', self.ch(vs).name], ['set', '=', lv, self.small_expr(50)]]])
            else:
                out.append(['e', ['set', '=', lv, self.small_expr(60)]])

    def print_(self, out, extra=None):
        self.label += 1
        fmt, args = 'L%d' % self.label, []
        if extra is not None:
            fmt += ' %d'
            args.append(extra)
        for _ in range(self.r.randint(0 if extra is not None else 1, 3)):
            o = self.r.random()
            if o < 0.15 and self.has('strings'):
                fmt += ' [%s]'
                s = self.strx() if self.p(.6) else (self.readable(('str',)) or self.strx())
                args.append(s)
            elif o < 0.25 and self.has('longs'):
                v = self.vars(lambda v: v.ty == 'long' and not v.n)
                if v:
                    fmt += ' %ld'
                    args.append(['v', self.ch(v).name])
            else:
                fmt += ' %d'
                args.append(self.expr(1) if extra is None or True else self.num())
        if extra is not None:
            # Whether the call comes before the other arguments is open.
            fmt, args = fmt.split(' ')[0] + ' %d', [extra]
        out.append(['print', fmt + '\n', args])

    def usecall(self, out):
        e = self.callx()
        if e is None:
            return self.print_(out)
        o = self.r.random()
        if o < 0.3:
            self.print_(out, e)
        elif o < 0.45:
            out.append(['e', e])
        elif o < 0.6:
            vs = self.vars(lambda v: v.ty == 'int' and not v.ro and not v.n)
            if vs:
                out.append(['e', ['set', '=', ['v', self.ch(vs).name], ['bin', '%', e, ['n', 997]]]])
        elif o < 0.75:
            n = self.fresh(unlike=e)
            out.append(['decl', 'int', n, ['bin', '%', e, ['n', 997]]])
            self.add(Var(n, 'int'))
        elif o < 0.85:
            b, _ = self.sub(1, 1)
            out.append(['if', ['bin', self.ch(['<', '>', '!=']), e, self.num()], b, []])
        else:
            loc = [v for v in self.vars(lambda v: v.ty == 'int' and not v.ro and not v.n)
                   if not v.glob]
            pure = e[0] == 'call' and any(f.name == e[1] and f.kind == 'pure' for f in self.fns)
            if loc and pure:
                out.append(['e', ['set', '+=', ['v', self.ch(loc).name], ['bin', '%', e, ['n', 50]]]])
            else:
                self.print_(out, e)

    def sub(self, lo, hi):
        self.scopes.append({})
        out = []
        self.stmts(out, self.r.randint(lo, hi))
        self.scopes.pop()
        return out, None

    def loop(self, out):
        k = self.r.randint(1, 4)
        if self.has('breaks') and self.p(.25):
            # Left by a break (or return) only.
            n = self.fresh()
            out.append(['decl', 'int', n, ['n', 0]])
            v = self.add(Var(n, 'int', ro=True))
            self.in_loop += 1
            body, _ = self.sub(1, 3)
            self.in_loop -= 1
            v.ro = False
            leave = ['if', ['bin', '>=', ['v', n], ['n', k]], [['break']], []]
            o = self.r.random()
            if o < .4:
                out.append(['for0', n, [leave] + body if self.p(.5) else body + [leave]])
            else:
                body = [['e', ['inc', 'x++', ['v', n]]], leave] + body
                out.append(['for0', None, body] if o < .7 else ['while', ['n', 1], body])
            return
        if self.p(0.6):
            dcl = self.p(0.6)
            n = self.fresh()
            self.scopes.append({}) if dcl else None
            if not dcl:
                out.append(['decl', 'int', n, self.num(0, 3)])
            v = self.add(Var(n, 'int', ro=True))
            self.in_loop += 1
            body, _ = self.sub(1, 3)
            self.in_loop -= 1
            if self.p(.7):
                out.append(['for', n, ['n', 0], ['bin', '<', ['v', n], ['n', k]], ['inc', self.ch(['x++', '++x']), ['v', n]], body, dcl])
            else:
                out.append(['for', n, ['n', k], ['bin', '>', ['v', n], ['n', 0]], ['inc', self.ch(['x--', '--x']), ['v', n]], body, dcl])
            if dcl:
                self.scopes.pop()
            else:
                v.ro = False
        else:
            n = self.fresh()
            out.append(['decl', 'int', n, ['n', k]])
            v = self.add(Var(n, 'int', ro=True))
            self.in_loop += 1
            body, _ = self.sub(1, 3)
            self.in_loop -= 1
            dec = ['e', self.ch([['inc', 'x--', ['v', n]], ['inc', '--x', ['v', n]], ['set', '-=', ['v', n], ['n', 1]],
                                 ['set', '=', ['v', n], ['bin', '-', ['v', n], ['n', 1]]]])]
            out.append(['while', ['bin', '>', ['v', n], ['n', 0]], [dec] + body])
            v.ro = False

    def escape(self, out):
        """A break or a return, conditionally (or as the last thing)."""
        opts = []
        if self.in_loop and self.has('breaks'):
            opts += ['break'] * 2
        if self.in_fn and self.has('returns'):
            opts += ['ret']
        if not opts:
            return self.print_(out)
        o = self.ch(opts)
        pre = []
        self.scopes.append({})
        if self.p(.3):
            self.stmts(pre, 1)
        st = ['break'] if o == 'break' else self.ret(pre)
        self.scopes.pop()
        if self.p(.25):
            st = ['block', [st]]
        form = self.r.random()
        if form < 0.15 and not pre:
            out.append(['if1', self.cond(), [st], []])
        elif form < 0.3:
            els, _ = self.sub(1, 1)
            out.append(['if', self.cond(), els, pre + [st]])
        else:
            out.append(['if', self.cond(), pre + [st], []])

    def ret(self, out):
        t = self.in_fn
        if t == 'void':
            return ['ret', None]
        if t.startswith('st:'):
            vs = self.vars(lambda v: v.ty == t and not v.n)
            return ['ret', ['v', self.ch(vs).name]]
        if self.p(.25):
            e = self.callx()
            if e is not None:
                return ['ret', ['bin', '%', e, ['n', 60 if t in ('char', 'short') else 997]]]
        if t in ('char', 'short'):
            return ['ret', self.small_expr(60)]
        return ['ret', self.small_expr(997)]

    def stmt(self, out):
        self.budget -= 1
        o = self.r.random()
        if o < 0.16:
            return self.decl(out)
        if o < 0.38:
            return self.assign(out)
        if o < 0.50:
            return self.print_(out)
        if o < 0.66 and self.calls_ok and self.in_loop < 3:
            return self.usecall(out)
        if self.budget < 0 or len(self.scopes) > 7:
            return self.print_(out)
        if o < 0.74:
            a, _ = self.sub(1, 2)
            b = self.sub(1, 2)[0] if self.p(.5) else []
            if len(a) == 1 and len(b) < 2 and self.p(.3) and a[0][0] in ('e', 'print', 'if', 'while', 'for') and \
                    (not b or b[0][0] in ('e', 'print', 'while', 'for')):
                if not (a[0][0] in ('if', 'while', 'for') and b):
                    out.append(['if1', self.cond(), a, b])
                    return
            out.append(['if', self.cond(), a, b])
            return
        if o < 0.84 and self.has('loops') and self.in_loop < 3:
            return self.loop(out)
        if o < 0.88 and self.has('blocks'):
            b, _ = self.sub(1, 3)
            out.append(['block', b])
            return
        if o < 0.94:
            return self.escape(out)
        return self.special(out)

    def special(self, out):
        opts = []
        if self.has('qsort'):
            opts.append(self.t_qsort)
        if self.has('list') and 'node' in self.structs:
            opts.append(self.t_list)
        if self.has('callmem'):
            opts.append(self.t_callmem)
        if self.has('kept'):
            opts.append(self.t_kept)
        if self.has('events') and self.slots:
            opts.append(self.t_events)
        if not opts:
            return self.print_(out)
        self.ch(opts)(out)

    def stmts(self, out, n):
        for _ in range(n):
            self.stmt(out)

    # -- templates

    def t_qsort(self, out):
        f = self.pick_fn(lambda f: f.kind == 'cmp')
        vs = self.vars(lambda v: v.ty == 'int' and v.n)
        if not f or not vs:
            return
        v = self.ch(vs)
        base = self.r.randrange(5, 23)
        self.label += 1
        ln, sz = 'qn%d' % self.label, 'qs%d' % self.label
        for i in range(v.n):
            out.append(['e', ['set', '=', ['idx', v.name, ['n', i]], ['n', (i * base + 3) % 47]]])
        out.append(['decl', 'long', ln, ['n', v.n]])
        out.append(['decl', 'long', sz, ['n', 4]])
        out.append(['e', ['call', 'qsort', [['addr', ['idx', v.name, ['n', 0]]], ['v', ln], ['v', sz], ['faddr', f.name]]]])
        out.append(['print', 'q' + ' %d' * v.n + '\n', [['idx', v.name, ['n', i]] for i in range(v.n)]])

    def t_list(self, out):
        """Links nodes of a global pool and walks them."""
        vs = self.vars(lambda v: v.ty == 'st:node' and v.n)
        if not vs:
            return
        v = self.ch(vs)
        self.label += 1
        h = 'h%d' % self.label
        out.append(['decl', 'p:node', h, None])
        out.append(['e', ['set', '=', ['v', h], ['n', 0]]])
        order = list(range(v.n))
        self.r.shuffle(order)
        for i in order[:self.r.randint(1, v.n)]:
            out.append(['e', ['set', '=', ['mem', ['idx', v.name, ['n', i]], 'v'], self.small_expr(50, 1)]])
            out.append(['e', ['set', '=', ['mem', ['idx', v.name, ['n', i]], 'next'], ['v', h]]])
            out.append(['e', ['set', '=', ['v', h], ['addr', ['idx', v.name, ['n', i]]]]])
        body = [['print', 'node %d [%s]\n', [['arrow', h, 'v'], ['arrow', h, 's']]]]
        if self.p(.5) and self.calls_ok:
            f = self.match_fp('fp2')
            if f:
                body.append(['e', ['set', '=', ['arrow', h, 'v'], ['bin', '%', ['call', f.name, [['arrow', h, 'v'], self.num()]], ['n', 97]]]])
        body.append(['e', ['set', '=', ['v', h], ['arrow', h, 'next']]])
        out.append(['while', ['bin', '!=', ['v', h], ['n', 0]] if self.p(.5) else ['v', h], body])

    def t_callmem(self, out):
        f = self.pick_fn(lambda f: f.ret.startswith('st:'))
        if not f:
            return
        m = self.ch([n for t, n in self.structs[f.ret[3:]] if t == 'int'])
        a = self.args(f)
        if a is None:
            return
        self.print_(out, ['callmem', f.name, a, m])

    def t_kept(self, out):
        i = self.r.randrange(8)
        out.append(['e', ['call', 'sim_keep', [['n', i], ['s', self.ch(WORDS) + str(self.r.randrange(100))]]]])
        self.stmt(out)
        out.append(['e', ['call', 'sim_show', [['n', i]]]])

    def t_events(self, out):
        if not self.can_run():
            return
        k = self.r.randint(1, 3)
        self.label += 1
        n = 'e%d' % self.label
        out.append(['decl', 'int', n, ['n', 4]])
        out.append(['while', ['bin', '>', ['v', n], ['n', 0]],
                    [['e', ['inc', 'x--', ['v', n]]],
                     ['print', 'ev %d\n', [['call', 'sim_run', [['n', k]]]]]]])

    # -- functions

    def body(self, n):
        out = []
        self.stmts(out, n)
        return out

    def function(self, name, ret, params, kind, bound=None, rec_call=None):
        """Appends the definition."""
        self.scopes.append({})
        for i, (t, pn) in enumerate(params):
            self.add(Var(pn, t, ro=(bound is not None and i == 0)))
        self.in_fn = ret
        self.budget = self.r.randint(3, 9)
        out = []
        save = self.calls_ok
        if self.has('statics') and kind == 'any' and self.p(.6):
            n = self.fresh()
            o = self.r.random()
            if o < .6:
                out.append(['static', 'int', n, ['n', self.r.randint(0, 9)] if self.p(.7) else None])
                self.add(Var(n, 'int'))
            elif o < .8:
                out.append(['static', 'str', n, ['s', self.ch(WORDS)]])
                self.add(Var(n, 'str'))
            else:
                m = self.r.randint(2, 4)
                out.append(['static', 'int', n, None])
                self.add(Var(n, 'int'))
            if self.has('ptrglobals') and self.scopes[-1][n].ty == 'int':
                gp = [v for v in self.vars(lambda v: v.ty == 'pint' and v.glob)]
                if gp:
                    out.append(['e', ['set', '=', ['v', self.ch(gp).name], ['addr', ['v', n]]]])
        if bound is not None:
            self.decl(out, 'int') if self.p(.5) else None
            base = [['ret', self.small_expr(50)]]
            out.append(['if', ['bin', '<=', ['v', params[0][1]], ['n', 0]], base, []])
        n = self.r.randint(1, 4 if not self.has('long_bodies') else 7)
        self.stmts(out, max(1, int(n * self.size)))
        if rec_call:
            d = ['bin', '-', ['v', params[0][1]], ['n', 1]]
            e = self.expr()
            loc = self.fresh(unlike=e)
            out.append(['decl', 'int', loc, e])
            self.add(Var(loc, 'int'))
            e = ['call', rec_call, [d] + [self.arg(t) for t, _ in params[1:]]]
            v = self.fresh(unlike=e)
            out.append(['decl', 'int', v, e])
            self.add(Var(v, 'int'))
            if self.p(.3) and all(t != 'pint' for t, _ in params):
                out.append(['e', ['set', '=', ['v', v], ['bin', '%', ['bin', '+', ['v', v], ['call', rec_call, [d] + [self.arg(t) for t, _ in params[1:]]]], ['n', 500]]]])
            self.stmts(out, self.r.randint(1, 2))
            if kind == 'any' and self.p(.6):
                out.append(['print', name + ' %d %d\n', [['v', loc], ['v', v]]])
            out.append(['ret', ['bin', '%', ['bin', '+', ['v', v], ['v', loc]], ['n', 997]]])
        elif ret.startswith('st:'):
            s = ret[3:]
            self.label += 1
            n = 's%d' % self.label
            out.append(['st', s, n])
            for t, f in self.structs[s]:
                out.append(['e', ['set', '=', ['mem', n, f], self.small_expr(60)]] if t in INTS else
                           ['e', ['set', '=', ['mem', n, f], self.strx()]])
            self.add(Var(n, ret))
            out.append(['ret', ['v', n]])
        elif ret == 'void':
            pass
        else:
            if self.p(.3) and kind == 'any' and ret == 'int':
                # Ends in a loop that always returns.
                out.append(['while', ['n', 1], [['if', self.cond(), [['ret', self.small_expr(50)]], []], ['ret', self.small_expr(77)]]])
            out.append(self.ret(out))
        self.calls_ok = save
        self.in_fn = None
        self.scopes.pop()
        self.top.append(['func', ret, name, params, out])

    def params(self, tys):
        ns = self.r.sample(POOL, len(tys))
        return [[t, n] for t, n in zip(tys, ns)]

    def pure_fn(self):
        """Computes its result from its arguments only; no calls, no output."""
        name = 'f%d' % self.nfn
        self.nfn += 1
        ps = self.params(['int'] * self.r.choice([1, 2, 2, 2, 3]))
        saved, self.scopes = self.scopes, [{}, {}]
        feats, self.f = self.f, self.f - {'statics', 'structs', 'fps', 'strings', 'typedefs', 'longs'}
        ok, self.calls_ok = self.calls_ok, False
        en, self.enums = self.enums, []
        for _, n in ps:
            self.add(Var(n, 'int'))
        out = []
        for _ in range(self.r.randint(1, 3)):
            o = self.r.random()
            if o < .3:
                self.decl(out, 'int')
            elif o < .6:
                self.assign(out)
            else:
                self.in_loop += 1
                b = []
                self.scopes.append({})
                self.decl(b, 'int')
                self.assign(b)
                if self.p(.4):
                    b.append(['if', self.cond(), [['ret', self.small_expr()]] if self.p(.6) else [['break']], []])
                self.scopes.pop()
                self.in_loop -= 1
                self.label += 1
                it = 'w%d' % self.label
                out.append(['for', it, ['n', 0], ['bin', '<', ['v', it], ['n', self.r.randint(1, 3)]],
                            ['inc', 'x++', ['v', it]], b, True])
        out.append(['ret', self.small_expr(997)])
        self.scopes, self.f, self.calls_ok, self.enums = saved, feats, ok, en
        self.top.append(['func', 'int', name, ps, out])
        self.fns.append(Fn(name, 'int', ps, 'pure'))

    def cmp_fn(self):
        name = 'f%d' % self.nfn
        self.nfn += 1
        ps = self.params(['pint', 'pint'])
        a, b = ps[0][1], ps[1][1]
        if self.p(.5):
            a, b = b, a
        out = []
        if self.p(.5):
            out = [['decl', 'int', 'u', ['deref', a]], ['decl', 'int', 'w', ['deref', b]],
                   ['ret', ['bin', '-', ['v', 'u'], ['v', 'w']]]]
        else:
            out = [['if', ['bin', '<', ['deref', a], ['deref', b]], [['ret', ['n', 1]]], []],
                   ['ret', ['cond', ['bin', '>', ['deref', a], ['deref', b]], ['bin', '-', ['n', 0], ['n', 1]], ['n', 0]]]]
        self.top.append(['func', 'int', name, ps, out])
        self.fns.append(Fn(name, 'int', ps, 'cmp'))

    def any_fn(self):
        name = 'f%d' % self.nfn
        self.nfn += 1
        o = self.r.random()
        if o < .2 and self.has('recursion'):
            ps = self.params(['int'] + self.ch([[], ['int'], ['str'], ['char', 'int'], ['pint']]))
            if self.has('mutual') and self.p(.5):
                other = 'f%d' % self.nfn
                self.nfn += 1
                ps2 = self.params([t for t, _ in ps])
                self.top.append(['proto', 'int', other, ps2])
                # Arguments by type only: they may be called before they are defined.
                self.function(name, 'int', ps, 'any', 3, other)
                self.function(other, 'int', ps2, 'any', 3, name)
                self.fns.append(Fn(other, 'int', ps2, 'any', 3))
            else:
                self.function(name, 'int', ps, 'any', 3, name)
            self.fns.append(Fn(name, 'int', ps, 'any', 3))
            return
        if o < .3 and self.has('callmem') and self.has('structs'):
            ss = [s for s in self.structs if all(t in ('int', 'str', 'char') for t, _ in self.structs[s]) and
                  any(t == 'int' for t, _ in self.structs[s])]
            if ss:
                s = self.ch(sorted(ss))
                ps = self.params(['int'] * self.r.randint(1, 2))
                f = self.f
                self.f = f - {'returns'}
                self.function(name, 'st:' + s, ps, 'any')
                self.f = f
                self.fns.append(Fn(name, 'st:' + s, ps, 'any'))
                return
        ret, tys = 'int', ['int', 'int']
        if o > .5:
            opts = [['int'], ['int', 'int', 'int'], []]
            if self.has('strings'):
                opts += [['str', 'int']] * 2
            if self.has('pointers'):
                opts.append(['pint', 'int'])
            if self.has('small'):
                opts.append(['char', 'short'])
            if self.has('fps') and self.match_fp('fp2'):
                opts.append(['fp2', 'int'])
            tys = self.ch(opts)
        if o > .92:
            tys = [t for t in tys if t not in FP]
            ret = 'void'
        ps = self.params(tys)
        self.function(name, ret, ps, 'any')
        if ret == 'int' or ret == 'void':
            self.fns.append(Fn(name, ret, ps, 'any'))

    def callback_fn(self, kind):
        """A function for an event slot."""
        name = 'f%d' % self.nfn
        self.nfn += 1
        ret, tys = {'i': ('int', ['int', 'int']), 'v': ('void', ['int']), 'l': ('long', ['long', 'long']),
                    'c': ('char', ['char', 'char']), 's': ('short', ['short', 'short']),
                    'p': ('int', ['str', 'int'])}[kind]
        ps = self.params(tys)
        self.function(name, ret, ps, 'any')
        self.fns.append(Fn(name, ret, ps, 'any'))
        return name

    # -- whole programs

    def globals_(self):
        r = self.r
        if self.has('enums'):
            ns = ['RED', 'GREEN', 'BLUE', 'CYAN']
            self.top.append(['enum', 'colour', [[n, r.randint(1, 40) if self.p(.4) else None] for n in ns]])
            self.enums = ns
        if self.has('typedefs'):
            self.top.append(['typedef', 'int', 'num_t'])
            self.typedefs.append('num_t')
        if self.has('structs'):
            self.structs['pt'] = [['int', 'px'], ['int', 'py']]
            self.top.append(['struct', 'pt', self.structs['pt']])
            f = [['int', 'm0']]
            for i in range(r.randint(1, 4)):
                t = self.ch(['int', 'char', 'str', 'int[3]'] + (['fp2'] if self.has('fps') else []))
                if t == 'fp2' and any(x == 'fp2' for x, _ in f):
                    t = 'int'
                f.append([t, 'm%d' % (i + 1)])
            self.structs['rec'] = f
            self.top.append(['struct', 'rec', f])
        if self.has('list'):
            self.structs['node'] = [['int', 'v'], ['p:node', 'next'], ['str', 's']]
            self.top.append(['struct', 'node', self.structs['node']])

        for _ in range(r.randint(1, 4)):
            n = self.fresh(True)
            o = r.random()
            if o < .5:
                self.top.append(['decl', 'int', n, ['n', r.randint(0, 60)] if self.p(.7) else None])
                self.add(Var(n, 'int', glob=True))
            elif o < .65 and self.has('longs'):
                self.top.append(['decl', 'long', n, ['n', r.randint(0, 60)]])
                self.add(Var(n, 'long', glob=True))
            elif o < .8 and self.has('arrays'):
                m = r.randint(2, 5)
                self.top.append(['arr', 'int', n, m])
                self.add(Var(n, 'int', glob=True, n=m))
            elif self.has('strings'):
                self.top.append(['decl', 'str', n, ['s', self.ch(WORDS)]])
                self.add(Var(n, 'str', glob=True))
        if self.has('structs') and self.p(.7):
            self.top.append(['st', 'pt', 'gpt'])
            self.add(Var('gpt', 'st:pt', glob=True))
        if self.has('list'):
            self.top.append(['arr', 'st:node', 'pool', 4])
            self.add(Var('pool', 'st:node', glob=True, n=4))
        if self.has('ptrglobals'):
            self.top.append(['decl', 'int', 'gi', ['n', r.randint(0, 9)]])
            self.add(Var('gi', 'int', glob=True))
            self.top.append(['decl', 'pint', 'gp', ['addr', ['v', 'gi']]])
            self.add(Var('gp', 'pint', glob=True))

    def program(self, nevents=None):
        r = self.r
        self.globals_()
        for _ in range(r.randint(0, 2)):
            self.pure_fn()
        if self.has('qsort'):
            self.cmp_fn()
        for _ in range(max(1, int(r.randint(1, 3) * self.size))):
            self.any_fn()
        kinds = []
        if self.has('events'):
            for i in range(r.randint(1, 3)):
                kind = self.ch(['i', 'i', 'i', 'v', 'l', 'c', 's'] + (['p'] if self.has('strings') else []))
                self.slots = list(range(i))     # callbacks may run the loop themselves
                kinds.append((kind, self.callback_fn(kind)))
        self.slots = list(range(len(kinds)))
        self.main(kinds)
        ne = nevents if nevents is not None else r.randint(2, 10)
        events = []
        if kinds:
            for _ in range(ne):
                events.append([r.randrange(len(kinds)), r.randint(-40, 90), r.randint(-40, 90)])
        return {'top': self.top}, events

    def main(self, kinds, pre=()):
        self.scopes.append({})
        self.in_fn = 'int'
        self.budget = int(self.r.randint(4, 12) * self.size)
        f, self.f = self.f, self.f - {'returns'}
        out = list(pre)
        self.in_fn = None
        if any(s == 'node' for s in self.structs):
            for i in range(4):
                out.append(['e', ['set', '=', ['mem', ['idx', 'pool', ['n', i]], 's'], ['s', self.ch(WORDS)]]])
        for i, (kind, name) in enumerate(kinds):
            out.append(['e', ['call', 'sim_on' + ('' if kind == 'i' else '_' + kind), [['n', i], ['faddr', name]]]])
        self.stmts(out, int(self.r.randint(4, 10) * self.size))
        if kinds:
            self.t_events(out)
        self.stmts(out, self.r.randint(0, 2))
        gl = [v for v in self.scopes[0].values() if v.ty == 'int' and not v.n and v.name not in self.scopes[-1]]
        for v in gl:
            out.append(['print', v.name + '=%d\n', [['v', v.name]]])
        out.append(['ret', ['n', self.r.choice([0, 0, 0, 3])]])
        self.f = f
        self.top.append(['func', 'int', 'main', [], out])
        self.scopes.pop()
