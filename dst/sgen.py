"""Random sessions: at the prompt, and from inside running programs."""
import json, random
import minic, session
from gen import Gen, Var, POOL
from minic import Arr, Cell, Exit, Fail, Reject, St

# Lines that aren't statements of the language: a diagnostic, nothing else.
BAD = ['@', '1 +;', 'int;;x', 'if (1) { x_z; }', 'while (1) { }', '{ int q_z; }', 'return 4;', 'break;',
       'int f_z(int a) { return a; }', '"open', '"open;', '#error no', '#include "nosuch.h"',
       '#define Q_Z 5', '<REPL>;', '-q_z;', 'struct { int a; ', '5 5;', ')', '}', 'x_z y_z z_z;', 'int 5;',
       '/* comment */', 'int a_z = ;', '(1 + 2;', '$', '`', "'", 'a_z[;', 'sizeof;']
# Lines that end the session with a diagnostic.
DIE = ['#include <nosuch.h>', '4; 5;', 'int m_zz; int n_zz;', 'undefined_zz;', 'undefined_zz = 4;', 'int k_zz = undefined_zz;', '5 = 6;', 'undefined_fn(1);', '&5;',
       '"s" - 1;', '"abc" = 4;', '5(1);', 'extern int nosuchv_zz;', 'undefs.a = 1;', 'undef_zz++;', 'sizeof(undefq_zz);',
       'printf("%d\\n", undef_zz);']

NATIVES = ['printf', 'sim_run', 'sim_on', 'sim_on_v', 'sim_on_l', 'sim_on_c', 'sim_on_p', 'sim_call', 'sim_each',
           'sim_keep', 'sim_show', 'qsort', 'exit', 'atexit']


def J(x):
    """Without shared parts, as it comes out of a replay file."""
    return json.loads(json.dumps(x))


class SGen(Gen):
    def __init__(self, r, want=(), avoid=(), size=1.0):
        Gen.__init__(self, r, want, set(avoid) | {'typedefs'}, size)
        self.macros = {}
        self.headers = {}
        self.included = []
        self.nstruct = 0

    def rc(self):
        r = self.r
        self.globals_()
        for _ in range(r.randint(0, 2)):
            self.pure_fn()
        if self.has('qsort'):
            self.cmp_fn()
        for _ in range(r.randint(1, 3)):
            self.any_fn()
        kinds = []
        if self.has('events'):
            for i in range(r.randint(1, 2)):
                kind = self.ch(['i', 'i', 'v', 'l', 'c'] + (['p'] if self.has('strings') else []))
                self.slots = list(range(i))
                kinds.append((kind, self.callback_fn(kind)))
        self.kinds = kinds
        self.slots = []
        return self.top

    def group(self):
        """One or a few lines that belong together."""
        r = self.r
        out = []
        o = r.random()
        if o < .20:
            self.decl(out)
        elif o < .38:
            self.assign(out)
        elif o < .56:
            out.append(['e', self.shown()])
        elif o < .70:
            e = self.callx()
            if e is not None:
                out.append(['e', e])
        elif o < .75:
            self.print_(out)
        elif o < .79:
            if self.kinds and len(self.slots) < len(self.kinds):
                i = len(self.slots)
                kind, name = self.kinds[i]
                out.append(['e', ['call', 'sim_on' + ('' if kind == 'i' else '_' + kind), [['n', i], ['faddr', name]]]])
                self.slots.append(i)
            elif self.slots:
                out.append(['e', ['call', 'sim_run', [['n', r.randint(1, 3)]]]])
        elif o < .83:
            out.append(self.newtype())
        elif o < .86 and self.has('qsort'):
            self.t_qsort(out)
        elif o < .89 and self.has('kept'):
            self.t_kept(out)
        elif o < .93:
            n = self.fresh()
            m = self.fresh()
            if n != m:
                out.append(['decls', 'int', [[n, self.num()], [m, self.num() if self.p(.6) else None]]])
                self.add(Var(n, 'int'))
                self.add(Var(m, 'int'))
        else:
            n = self.fresh()
            out.append(['static', 'int', n, ['n', r.randint(0, 9)]])
            self.add(Var(n, 'int'))
        ok = ('e', 'decl', 'decls', 'arr', 'st', 'static', 'typedef', 'struct', 'enum', 'print')
        if any(s[0] not in ok for s in out):
            return []
        return [{'k': 'st', 's': s} for s in out]

    def newtype(self):
        self.nstruct += 1
        o = self.r.random()
        if o < .4:
            n = 'ty%d' % self.nstruct
            f = [['int', 'm0'], ['str', 'm1'], ['char', 'm2']][:self.r.randint(1, 3)]
            if self.p(.3):
                f.append(['int[3]', 'm3'])
            self.structs[n] = f
            return ['struct', n, f]
        if o < .7:
            ns = ['K%d_%d' % (self.nstruct, i) for i in range(self.r.randint(1, 3))]
            self.enums += ns
            return ['enum', 'en%d' % self.nstruct, [[n, self.r.randint(1, 30) if self.p(.4) else None] for n in ns]]
        n = 'td%d' % self.nstruct
        self.typedefs.append(n)
        self.f.add('typedefs')
        return ['typedef', 'int', n]

    def shown(self):
        vs = self.vars(lambda v: True)
        o = self.r.random()
        if o < .5 and vs:
            v = self.ch(vs)
            if v.n:
                return ['idx', v.name, self.index(v.n)]
            if v.ty[:3] == 'st:' and self.p(.5):
                t, n = self.ch(self.structs[v.ty[3:]])
                return ['mem', v.name, n]
            if v.ty[:2] == 'p:' and self.p(.5):
                t, n = self.ch(self.structs[v.ty[2:]])
                return ['arrow', v.name, n]
            return ['v', v.name]
        if o < .6:
            return ['s', self.ch(['text', 'a b', 'q"q', '100%', ''])]
        if o < .7 and self.included:
            ms = [m for h in self.included for m in self.headers[h]['macros']]
            if ms:
                m = ['macro', self.ch(ms)]
                return m if self.p(.4) else ['bin', self.ch('+-'), m, self.num()]
        return self.expr(2)

    def header(self):
        n = 'h%d.h' % len(self.headers)
        ms = {}
        for i in range(self.r.randint(0, 3)):
            ms['M%d_%d' % (len(self.headers), i)] = ['bin', '+', ['n', self.r.randint(0, 50)], ['n', self.r.randint(0, 50)]] \
                if self.p(.7) else ['n', self.r.randint(0, 99)]
        top = []
        k = len(self.headers)
        for _ in range(self.r.randint(0, 3)):
            o = self.r.random()
            if o < .4:
                v = 'hv%d_%d' % (k, len(top))
                top.append(['decl', 'int', v, ['n', self.r.randint(0, 60)]])
                self.scopes[0][v] = Var(v, 'int', ro=True)
            elif o < .7:
                self.pure_fn()
                top.append(self.top.pop())
            elif o < .85:
                v = 'hs%d_%d' % (k, len(top))
                f = [['int', 'm0'], ['char', 'm1'], ['int', 'm2']][:self.r.randint(1, 3)]
                self.structs[v] = f
                top.append(['struct', v, f])
            else:
                ns = ['H%d_%d_%d' % (k, len(top), i) for i in range(2)]
                self.enums += ns
                top.append(['enum', 'he%d_%d' % (k, len(top)), [[x, None] for x in ns]])
        self.headers[n] = {'macros': ms, 'text': self.ch(['', '\n\n']), 'top': top}
        return n

    def items(self, n, bad=.12, inc=.06, blank=.02, dup=.1):
        out = []
        while len(out) < n:
            o = self.r.random()
            if o < bad:
                out.append({'k': 'bad', 't': self.ch(BAD)})
            elif o < bad + inc:
                again = [h for h in self.included if not self.headers[h]['top']]
                if again and self.p(.3):
                    h = self.ch(again)
                else:
                    h = self.header()
                    self.included.append(h)
                out.append({'k': 'inc', 'f': h})
            elif o < bad + inc + blank:
                out.append({'k': 'blank'})
            elif out and o < bad + inc + blank + dup and out[-1]['k'] == 'st' and out[-1]['s'][0] in ('e', 'print'):
                out.append(J(out[-1]))
            else:
                out += self.group()
        return out


def try_items(rc, items, headers, events, max_steps=20000):
    """Evaluate in the model what can be, drop the rest."""
    items = list(items)
    while True:
        i = minic.Interp({'top': rc or []}, events, max_steps=max_steps)
        if rc is not None:
            i.globals['argc'] = Cell('int', 1)
            i.globals['argv'] = Cell('pargv', ())
        for s in rc or []:
            i.stmt(s)
        drop = None
        for n, it in enumerate(items):
            try:
                session.do_line(i, it, headers)
            except (Reject, RecursionError):
                drop = n
                break
            except (Exit, Fail):
                return items[:n + 1]
        if drop is None:
            return items
        del items[drop]


def make_session(r, want=(), avoid=(), n=None, bad=.12, norc=.15, size=.6, end=.25, inc=.06):
    """A case of kind "session"."""
    for _ in range(50):
        g = SGen(r, want, avoid, size)
        has_rc = r.random() >= norc
        rc = g.rc() if has_rc else None
        if rc is None:
            g.kinds = []
            g.f -= {'qsort', 'natives', 'kept', 'fps', 'events', 'list'}
        k = n or r.randint(4, 24)
        items = g.items(k, bad, inc)
        events = [[r.randrange(3), r.randint(-40, 90), r.randint(-40, 90)] for _ in range(r.randint(2, 10))]
        # printf isn't declared without a start-up file that uses it.
        case = J({'kind': 'session', 'rc': rc, 'items': items, 'headers': g.headers, 'events': events})
        if rc is not None:
            # Declares all native functions.
            case['rc'] = case['rc'] + [['use', NATIVES]]
        else:
            case['items'] = [it for it in case['items'] if not (it['k'] == 'st' and 'printf' in session.line_text(it))]
        try:
            case['items'] = try_items(case['rc'], case['items'], case['headers'], events)
        except (Reject, Exit, Fail, RecursionError):
            continue
        if r.random() < end:
            if rc is not None and r.random() < .5:
                case['items'].append({'k': 'st', 's': ['exit', ['n', r.choice([1, 2, 7, 42, 77, 100, 199, 255])]]})
            else:
                case['items'].append({'k': 'die', 't': r.choice(DIE[:-1] if rc is None else DIE)})
        if len(case['items']) < 2:
            continue
        return case
    raise RuntimeError('no session')


# ------------------------------------------------- from inside a program

def blocks_of(prog, funcs=True):
    """All statement lists of the functions of a program."""
    out = []

    def walk(b):
        out.append(b)
        for s in b:
            k = s[0]
            if k in ('if', 'if1'):
                if k == 'if':
                    walk(s[2])
                    if s[3]:
                        walk(s[3])
            elif k == 'while':
                walk(s[2])
            elif k == 'for':
                walk(s[5])
            elif k == 'for0':
                walk(s[2])
            elif k == 'block':
                walk(s[1])
    for s in prog['top']:
        if s[0] == 'func':
            walk(s[4])
    return out


class Nest:
    """Makes up the lines of the sessions while the program runs."""

    def __init__(self, r, funcs, limit=8):
        self.r = r
        self.limit = limit
        self.n = 0
        self.sessions = []
        self.cur = self.sessions
        self.depth = 0
        self.funcs = funcs

    def ints(self, i):
        return [n for n, x in self.vis(i).items() if isinstance(x, Cell) and x.ty == 'int' and x.init and not x.dead]

    def vis(self, i):
        d = dict(i.globals)
        loc = []
        for s in reversed(i.scopes):
            if s is None:
                break
            if s is not i.globals:
                loc.append(s)
        for s in reversed(loc):
            d.update(s)
        return {n: (x[1] if isinstance(x, tuple) else x) for n, x in d.items()}

    def e(self, i):
        r = self.r
        v = self.ints(i)
        a = ['v', r.choice(v)] if v and r.random() < .8 else ['n', r.randint(0, 60)]
        if r.random() < .5:
            return a
        b = ['v', r.choice(v)] if v and r.random() < .5 else ['n', r.randint(0, 60)]
        return ['bin', r.choice('+-'), a, b]

    def line(self, i):
        r = self.r
        vis = self.vis(i)
        o = r.random()
        ints = self.ints(i)
        if o < .07:
            return {'k': 'bad', 't': r.choice(BAD)}
        if o < .34 and ints:
            n = r.choice(ints)
            return {'k': 'st', 's': ['e', r.choice([
                ['set', '=', ['v', n], ['bin', '%', self.e(i), ['n', 53]]],
                ['set', r.choice(['+=', '-=']), ['v', n], ['n', r.randint(1, 9)]],
                ['inc', r.choice(['x++', '--x']), ['v', n]]])]}
        if o < .42:
            self.n += 1
            return {'k': 'st', 's': ['decl', 'int', 'zz%d' % self.n, self.e(i)]}
        if o < .52:
            fs = [f for f in self.funcs if f[0] not in vis]
            if fs:
                f = r.choice(fs)
                return {'k': 'st', 's': ['e', ['call', f[0], [['bin', '%', self.e(i), ['n', 40]] for _ in range(f[1])]]]}
        if not vis:
            return {'k': 'st', 's': ['e', ['n', 5]]}
        n = r.choice(sorted(vis))
        x = vis[n]
        if isinstance(x, Arr) and len(x.cells) and isinstance(x.cells[0], Cell) and x.cells[0].ty == 'int':
            k = ['idx', n, ['n', r.randrange(len(x.cells))]]
            return {'k': 'st', 's': ['e', k if r.random() < .4 else ['set', '=', k, ['bin', '%', self.e(i), ['n', 53]]]]}
        if isinstance(x, St) and r.random() < .7:
            f = r.choice(sorted(x.f))
            c = x.f[f]
            if isinstance(c, Cell) and c.ty == 'int' and r.random() < .6:
                return {'k': 'st', 's': ['e', ['set', '=', ['mem', n, f], ['bin', '%', self.e(i), ['n', 53]]]]}
            if isinstance(c, Cell):
                return {'k': 'st', 's': ['e', ['mem', n, f]]}
        if isinstance(x, Cell) and x.ty == 'pint' and r.random() < .6:
            return {'k': 'st', 's': ['e', ['deref', n] if r.random() < .5 else ['set', '=', ['deref', n], ['bin', '%', self.e(i), ['n', 53]]]]}
        if isinstance(x, Cell) and x.ty == 'str' and r.random() < .4:
            return {'k': 'st', 's': ['e', ['set', '=', ['v', n], ['s', r.choice(['set', 'by hand', ''])]]]}
        if isinstance(x, Cell) and x.ty == 'str':
            return {'k': 'st', 's': ['print', '<%s>\n', [['v', n]]]}
        return {'k': 'st', 's': ['e', ['v', n]]}

    def __call__(self, i, _):
        items = []
        self.cur.append(items)
        self.limit -= 1
        if self.limit < 0:
            raise Reject('sessions')
        self.depth += 1
        for _ in range(self.r.randint(0, 4) if self.depth < 3 else 0):
            it = self.line(i)
            save, sub = self.cur, []
            self.cur = sub
            mark = len(items)
            items.append(it)
            try:
                session.do_line(i, it, {})
            except (Exit, Fail):
                if sub:
                    it['sub'] = sub
                raise
            self.cur = save
            if sub:
                it['sub'] = sub
        self.depth -= 1


def make_nested(r, want=(), avoid=(), size=.7):
    """A case of kind "nested"."""
    for _ in range(200):
        g = Gen(r, want, set(avoid) | {'qsort'}, size)
        prog, events = g.program()
        prog = J(prog)
        pure = {f.name: len(f.params) for f in g.fns if f.kind == 'pure'}
        any2 = [(f.name, len(f.params)) for f in g.fns if f.bound is None and f.ret == 'int' and
                all(t == 'int' for t, _ in f.params)]
        bl = [b for b in blocks_of({'top': [s for s in prog['top'] if not (s[0] == 'func' and s[2] in pure)]})]
        for _ in range(r.randint(1, 3)):
            b = r.choice(bl)
            b.insert(r.randint(0, len(b)), ['repl', []])
        prog['top'].insert(0, ['use', ['printf']])
        nest = Nest(r, any2)
        try:
            i = minic.Interp(prog, events, max_steps=4000, repl=nest)
            i.run()
        except (Reject, RecursionError, KeyError):
            continue
        if not nest.sessions:
            continue
        case = J({'kind': 'nested', 'prog': prog, 'events': events, 'sessions': nest.sessions})
        return case
    raise RuntimeError('no nested case')
