"""Per property: what is simulated (cases) and under which plans.

CASES[pid](r, k) -> case       (r: random.Random of the case, k: its number)
PLANS[pid](r, case, probe, tier) -> plans, each with its oracle
`probe` is the Result of the case's natural run without faults: how often each
fault site and collection point occurs in it."""
import json
import minic
import sgen
from gen import Gen
from minic import Reject
from sgen import J, blocks_of, make_nested, make_session

HEAPS = [
    ['bump', 'a5', 221, 1],
    ['lifo', 'stale', -1, 1],
    ['fifo', 'ff', 0, 1],
    ['rand', 'rand', 221, 7],
    ['lifo', '00', 255, 1],
    ['rand', 'stale', -1, 3],
    ['bump', '01', 254, 1],
    ['lifo', '7f', 129, 1],
]
GUARD = HEAPS[0]            # freed memory is never reused and is poisoned


def sites(probe):
    out = {}
    for l in probe.log:
        if l.startswith('site '):
            _, n, c = l.split()
            out[n] = int(c)
    return out


# ------------------------------------------------------------------ programs

def accept(prog, events, max_steps=6000):
    try:
        out, code = minic.Interp(prog, events, max_steps=max_steps).run()
    except (Reject, RecursionError):
        return None
    if code in (96, 97, 98):
        return None
    return out, code


def make_prog(r, want=(), avoid=(), size=1.0, nevents=None, change=None, ok=None, max_steps=6000):
    """A case of kind "prog".  change(prog, r) modifies the program; ok(prog,
    events, (out, code)) says whether that had the desired effect."""
    for _ in range(300):
        prog, events = Gen(r, want, avoid, size).program(nevents)
        prog = J(prog)
        if change is not None:
            base = accept(prog, events, max_steps)
            if base is None:
                continue
            for _ in range(12):
                p = J(prog)
                if change(p, r) is False:
                    continue
                x = accept(p, events, max_steps)
                if x is not None and (ok is None or ok(p, events, x)):
                    return {'kind': 'prog', 'prog': p, 'events': events, 'max_steps': max_steps}
            continue
        x = accept(prog, events, max_steps)
        if x is not None:
            return {'kind': 'prog', 'prog': prog, 'events': events, 'max_steps': max_steps}
    raise RuntimeError('no program')


def pure_names(prog):
    """Functions whose calls may be parts of expressions: left alone."""
    return {s[2] for s in prog['top'] if s[0] == 'func' and
            not any(k in json.dumps(s) for k in ('"print"', '"call"', '"pcall"'))}


def blocks(prog):
    pure = pure_names(prog) - {'main'}
    return blocks_of({'top': [s for s in prog['top'] if not (s[0] == 'func' and s[2] in pure)]})


def insert(prog, r, st, n=1):
    bl = blocks(prog)
    for _ in range(n):
        b = r.choice(bl)
        b.insert(r.randint(0, len(b)), J(st))


# Statements that cannot be evaluated, wherever they are.
FAIL_ST = ['undefined_zz;', 'undefined_zz = 4;', 'int k_zz = undefined_zz;', '5 = 6;', 'undefined_fn(1);',
           '"s" - 1;', '&5;', '"abc" = 4;', 'extern int nosuchv_zz;', 'int va_zz[undefn_zz];', '5(1);',
           'sizeof(undefq_zz);', 'if (undef_zz) { }', 'while (undef_zz) { break; }', 'undef_zz++;', '--undef_zz;',
           'printf("%d\\n", undef_zz);', 'return undef_zz;', 'undefs.a = 1;', 'undefs->a;', 'undefa[1] = 2;',
           'printf("%d\\n", undef_fn(3));', 'undef_zz += 2;', 'for (undef_zz = 0; ; ) { break; }',
           'printf("no %d\\n", 5(2));', 'undefp = &undefq;', '*undefp = 2;', 'extern int nosuchf_zz(int a_zz); nosuchf_zz(1);',
           '5++;', '5 += 1;', '*5;', 'if ("a" - 1) { }']
FAIL_EX = ['undefined_zz', 'undefined_fn(1)', '5(1)', 'sizeof(undefq_zz)', '(5 = 6)', '("s" - 1)', 'undefs.a',
           '(undef_zz++)', 'undefa[0]']


def ends_in_error(p, ev, x):
    return x[1] is None


def leaves(e, out):
    """Places in an expression where another one can be put."""
    for i, x in enumerate(e):
        if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ('n', 'v') and len(x) == 2 and \
                e[0] in ('bin', 'not', 'cond', 'set', 'cast', 'compl', 'comma'):
            if not (e[0] == 'set' and i == 2):
                out.append((e, i))
        elif isinstance(x, list):
            leaves(x, out)


def has_call(e):
    return isinstance(e, list) and bool(e) and (e[0] in ('call', 'pcall', 'callmem') or any(has_call(x) for x in e))


def fail_inside(prog, r):
    """Makes a part of some expression impossible to evaluate."""
    cands = []
    for b in blocks(prog):
        for s in b:
            if s[0] in ('e', 'decl', 'print', 'ret', 'if', 'while'):
                heads = {'e': [1], 'decl': [3], 'print': [2], 'ret': [1], 'if': [1], 'while': [1]}[s[0]]
                for h in heads:
                    if s[h] and not has_call(s[h]):
                        got = []
                        leaves([s[h]] if s[h][0] != 'n' else ['set', '=', None, s[h]], got)
                        cands += [c for c in got if c[0] is not None]
    if not cands:
        return False
    e, i = r.choice(cands)
    e[i] = ['failx', r.choice(FAIL_EX)]


def wrong_call(prog, r):
    """A call with an argument too many or too few."""
    cands = []
    names = {s[2] for s in prog['top'] if s[0] == 'func' and s[3]}

    def walk(e):
        if isinstance(e, list):
            if e and e[0] in ('call', 'pcall') and isinstance(e[1], str) and (e[0] == 'pcall' or e[1] in names) and \
                    not any(has_call(a) for a in e[2]):
                cands.append(e)
            for x in e:
                walk(x)
    for b in blocks(prog):
        for s in b:
            if s[0] == 'e':
                walk(s[1])
    if not cands:
        return False
    e = r.choice(cands)
    t = J(e)
    if t[2] and r.random() < .5:
        t[2].pop()
    else:
        t[2].append(['n', 4])
    t = ['failx', minic.rx(t)]
    e[:] = t


def fail_somewhere(prog, r):
    o = r.random()
    if o < .45:
        insert(prog, r, ['fail', r.choice(FAIL_ST)])
    elif o < .75:
        return fail_inside(prog, r)
    elif o < .85:
        return wrong_call(prog, r)
    else:
        # Members and variables that exist, used in a way that isn't possible.
        structs = {s[1]: s[2] for s in prog['top'] if s[0] == 'struct'}
        opts = []
        for b in blocks(prog):
            for i, s in enumerate(b):
                if s[0] == 'st':
                    opts.append((b, i, '%s.nosuch_zz = 1;' % s[2]))
                    opts.append((b, i, '%s.nosuch_zz;' % s[2]))
                    opts.append((b, i, '%s + 1;' % s[2]))
                    opts.append((b, i, '%s(1);' % s[2]))
                elif s[0] == 'decl' and s[1] == 'int':
                    opts.append((b, i, '%s.nosuch_zz = 1;' % s[2]))
                    opts.append((b, i, 'int %s;' % s[2]))
                    opts.append((b, i, '%s(1);' % s[2]))
                elif s[0] == 'decl' and s[1][:2] == 'p:':
                    opts.append((b, i, '%s->nosuch_zz;' % s[2]))
                elif s[0] == 'arr':
                    opts.append((b, i, '%s.m_zz;' % s[2]))
        if not opts:
            return False
        b, i, t = r.choice(opts)
        b.insert(r.randint(i + 1, min(len(b), i + 2)), ['fail', t])


def exit_somewhere(prog, r):
    code = r.choice([0, 1, 2, 7, 42, 77, 100, 199, 255, 300, 256])
    o = r.random()
    if o < .55:
        insert(prog, r, ['exit', ['n', code] if r.random() < .6 else
                         ['bin', '+', ['n', code // 2], ['n', code - code // 2]]])
    else:
        main = [s for s in prog['top'] if s[0] == 'func' and s[2] == 'main'][0][4]
        if r.random() < .5:
            main[-1] = ['ret', ['n', code & 255]]
        else:
            main.insert(r.randint(0, len(main)), ['if', ['bin', r.choice(['<', '>', '!=']), ['n', r.randint(0, 3)], ['n', 2]],
                                                  [['ret', ['n', code & 255]]], []])


def add_handlers(prog, r):
    """Functions registered to run at exit, registered in various places."""
    gl = [s for s in prog['top'] if s[0] == 'decl' and s[1] == 'int']
    mains = [s for s in prog['top'] if s[0] == 'func' and s[2] == 'main'][0]
    pos = prog['top'].index(mains)
    pures = [s for s in prog['top'] if s[0] == 'func' and s[1] == 'int' and s[2] in pure_names(prog) and
             all(t == 'int' for t, _ in s[3]) and s[2] != 'main']
    n = r.randint(1, 4)
    for i in range(n):
        body = [['print', 'handler %d\n' % i, []]]
        for g in gl[:3]:
            body.append(['print', g[2] + ' %d\n', [['v', g[2]]]])
            if r.random() < .5:
                body.append(['e', ['set', '=', ['v', g[2]], ['bin', '%', ['bin', '+', ['v', g[2]], ['n', r.randint(1, 40)]], ['n', 71]]]])
        if r.random() < .4:
            body.append(['static', 'int', 'times', ['n', 0]])
            body.append(['e', ['inc', 'x++', ['v', 'times']]])
            body.append(['print', 'times %d\n', [['v', 'times']]])
        if pures and r.random() < .5:
            f = r.choice(pures)
            body.append(['print', 'computed %d\n', [['call', f[2], [['n', r.randint(0, 20)] for _ in f[3]]]]])
        if r.random() < .4:
            body.append(['for', 'j', ['n', 0], ['bin', '<', ['v', 'j'], ['n', 3]], ['inc', 'x++', ['v', 'j']],
                         [['if', ['bin', '==', ['v', 'j'], ['n', 2]], [['break']], []], ['print', 'round %d\n', [['v', 'j']]]], True])
        prog['top'].insert(pos, ['func', 'void', 'h%d' % i, [], body])
        pos += 1
    for i in range(n):
        st = ['e', ['call', 'atexit', [['faddr', 'h%d' % i]]]]
        if r.random() < .65:
            mains[4].insert(r.randint(0, min(2, len(mains[4]))), st)
        else:
            insert(prog, r, st)
    if r.random() < .3:
        mains[4].insert(0, ['e', ['call', 'atexit', [['faddr', 'h0']]]])


# --------------------------------------------------------------------- plans

def steps(probe):
    return 40 * probe.h['gc_points'] + 20000


def gc_dense(r, probe):
    """Collections everywhere, as far as that is affordable."""
    n = probe.h['gc_points']
    if n <= 1500:
        return ['every']
    if r.random() < .5:
        return ['bern', r.randrange(1 << 30), max(1, 400000 // n)]
    k = n // 400 + 1
    return ['period', k, r.randrange(k)]


def gc_some(r, probe):
    n = max(1, probe.h['gc_points'])
    o = r.random()
    if o < .30:
        # Around one point of the run.
        a = r.randrange(n)
        return ['list'] + [str(a + i) for i in range(r.choice([1, 1, 2, 5, 20]))]
    if o < .5:
        return ['list'] + sorted({str(r.randrange(n)) for _ in range(r.randint(2, 10))}, key=int)
    if o < .7:
        return ['bern', r.randrange(1 << 30), r.choice([5, 20, 60]) if n > 1500 else r.choice([20, 100, 300, 700])]
    if o < .85:
        k = max(2, n // 300, r.choice([2, 3, 7, 31]))
        return ['period', k, r.randrange(k)]
    return gc_dense(r, probe)


def plan(probe, oracle, **k):
    p = {'oracle': oracle, 'steps': steps(probe)}
    p.update(k)
    return p


def gc_plans(r, probe, n, heap=None, oracle='exact', **k):
    """The dense schedule and n - 1 others."""
    out = [plan(probe, oracle, gc=gc_dense(r, probe), heap=heap or GUARD, **k)]
    for _ in range(n - 1):
        out.append(plan(probe, oracle, gc=gc_some(r, probe), heap=heap or r.choice([GUARD, GUARD] + HEAPS), **k))
    return out


def errno(r, what):
    return r.choice({'io': ['EIO', 'ENOSPC', 'EINTR'], 'file': ['EMFILE', 'ENOSPC', 'EACCES', 'ENFILE'],
                     'proc': ['EAGAIN', 'ENOMEM'], 'pipe': ['EMFILE', 'ENFILE']}[what])


CASES, PLANS = {}, {}


def case(pid):
    def f(g):
        CASES[pid] = g
        return g
    return f


def plans(pid):
    def f(g):
        PLANS[pid] = g
        return g
    return f


# P01 ------------------------------------------------------------------------

@case('P01')
def _(r, k):
    o = k % 20
    if o < 12:
        return make_prog(r)
    if o < 17:
        return make_session(r)
    return make_nested(r)


@plans('P01')
def _(r, c, probe, tier):
    out = gc_plans(r, probe, 8 if tier == 'quick' else 24)
    out.append(plan(probe, 'exact', gc=['never'], heap=r.choice(HEAPS)))
    return out


# P02 ------------------------------------------------------------------------

def steady(prog, rounds):
    """The program's main, many times over."""
    top = prog['top']
    m = [s for s in top if s[0] == 'func' and s[2] == 'main'][0]
    body = m[4]
    m[1], m[2] = 'void', 'round_'
    m[3] = []
    if body and body[-1][0] == 'ret':
        body.pop()
    top.append(['func', 'int', 'main', [], [
        ['for', 'r', ['n', 0], ['bin', '<', ['v', 'r'], ['n', rounds]], ['inc', 'x++', ['v', 'r']],
         [['e', ['call', 'round_', []]], ['e', ['call', 'sim_mark', [['v', 'r']]]]], True],
        ['ret', ['n', 0]]]])


@case('P02')
def _(r, k):
    long = k % 8 == 7
    for _ in range(100):
        g = Gen(r, avoid=('typedefs',), size=.5 if long else .8)
        prog, events = g.program()
        prog = J(prog)
        m = [s for s in prog['top'] if s[0] == 'func' and s[2] == 'main'][0]
        if '"ret"' in json.dumps(m[4][:-1]):
            continue
        i = minic.Interp(prog, events)
        try:
            i.run()
        except (Reject, RecursionError):
            continue
        rounds = 24 if not long else min(2000, 250000 // i.steps)
        steady(prog, rounds)
        c = {'kind': 'prog', 'prog': prog, 'events': events * rounds, 'max_steps': 1000000, 'rounds': rounds, 'long': long}
        if accept(prog, c['events'], c['max_steps']):
            return c
    raise RuntimeError('no program')


@plans('P02')
def _(r, c, probe, tier):
    n, rounds = probe.h['gc_points'], c['rounds']
    if c['long']:
        return [plan(probe, 'growth_natural', gc=['natural'])] if n >= 200000 else []
    k = max(1, n // 2500)
    out = []
    for k in {k, 1 if n < 6000 else k, k + r.randint(1, 4)}:
        # A whole number of rounds and of collections need not coincide: the
        # minimum over several rounds is what counts.
        out.append(plan(probe, 'growth', gc=['every'] if k == 1 else ['period', k, r.randrange(k)], marks=rounds,
                        slack=64 if k == 1 else 64 + 400 * k))
    return out


# P03 ------------------------------------------------------------------------

@case('P03')
def _(r, k):
    o = k % 10
    if o < 6:
        return make_prog(r)
    if o < 9:
        return make_session(r)
    return make_nested(r)


@plans('P03')
def _(r, c, probe, tier):
    hs = HEAPS[1:]
    r.shuffle(hs)
    out = []
    for h in hs[:5 if tier == 'quick' else 7]:
        h = list(h)
        h[3] = r.randrange(1 << 20)
        gc = r.choice([['natural'], ['never'], gc_dense(r, probe), gc_some(r, probe)])
        out.append(plan(probe, 'exact', gc=gc, heap=h))
    out.append(plan(probe, 'exact', gc=gc_dense(r, probe), heap=GUARD))
    out.append(plan(probe, 'exact', gc=gc_dense(r, probe), heap=['lifo', 'stale', -1, 1]))
    return out


# P04 ------------------------------------------------------------------------

@case('P04')
def _(r, k):
    w = [('recursion', 'statics', 'shadow'), ('mutual', 'recursion', 'blocks'), ('events', 'nested', 'statics'),
         ('loops', 'shadow', 'blocks', 'statics'), ('fps', 'recursion', 'callmem', 'structs'),
         ('natives', 'pointers', 'ptrglobals', 'statics')][k % 6]
    return make_prog(r, want=w + (('long_bodies',) if r.random() < .4 else ()), size=1.2)


def shuffled(r, events):
    e = [list(x) for x in events]
    r.shuffle(e)
    return e


@plans('P04')
def _(r, c, probe, tier):
    out = gc_plans(r, probe, 3 if tier == 'quick' else 6)
    if c['events']:
        for _ in range(3 if tier == 'quick' else 8):
            ev = shuffled(r, c['events'])
            if not accept(c['prog'], ev):
                continue
            out.append(plan(probe, 'exact', gc=r.choice([['natural'], gc_some(r, probe)]), heap=GUARD, events=ev))
    return out


# P05 ------------------------------------------------------------------------

@case('P05')
def _(r, k):
    w = [('events', 'nested'), ('events', 'fps', 'kept'), ('qsort', 'natives', 'arrays', 'fps'),
         ('events', 'nested', 'strings', 'small', 'longs'), ('natives', 'fps', 'structs', 'events')][k % 5]
    if k % 10 == 9:
        return make_session(r, want=('events', 'fps', 'qsort', 'kept', 'arrays'), norc=0, bad=.04)
    return make_prog(r, want=w, size=1.0, nevents=r.randint(4, 16))


@plans('P05')
def _(r, c, probe, tier):
    out = gc_plans(r, probe, 3 if tier == 'quick' else 6)
    if c['kind'] == 'prog' and c['events']:
        for _ in range(4 if tier == 'quick' else 10):
            ev = [[e[0], r.randint(-40, 90), r.randint(-40, 90)] for e in shuffled(r, c['events'])]
            if not accept(c['prog'], ev):
                continue
            out.append(plan(probe, 'exact', gc=gc_some(r, probe), heap=r.choice([GUARD, HEAPS[1], HEAPS[3]]), events=ev))
    return out


# P06 ------------------------------------------------------------------------

@case('P06')
def _(r, k):
    if k % 8 == 7:
        c = make_session(r, norc=0, n=r.randint(2, 5), bad=.05, inc=0, end=.1)
        for _ in range(2):
            c['rc'].insert(r.randint(0, len(c['rc'])), ['print', 'rcmark\n', []])
        return c
    c = make_prog(r, size=.7)
    return c


def script_text(c):
    import case
    return case.files_of(c)


@plans('P06')
def _(r, c, probe, tier):
    s = sites(probe)
    files = script_text(c)
    text = files.get('cwd/p.c') or files.get('home/.bic') or ''
    size = len(text) + 60
    n = 10 if tier == 'quick' else 30
    out = []
    if c['kind'] == 'session':
        for _ in range(n // 2):
            o = r.random()
            if o < .5:
                f = [r.choice([['popen', 1, 'err', 0, 0], ['popen', 1, 'trunc', r.randrange(size), r.choice([0, 256, 9, 6])],
                               ['pclose', 1, 'err', r.choice([4, 5, 10]), 0], ['pclose', 1, 'ret', r.choice([256, 9, 11, 512]), 0]])]
            else:
                f = [['popen', 1, 'trunc', r.randrange(size), r.choice([256, 9, 11, 13, 139, 512])]]
            out.append(plan(probe, 'rc_norun', gc=['natural'], faults=f))
        return out
    for _ in range(n):
        o = r.random()
        if o < .08:
            out.append(plan(probe, 'norun', gc=['natural'], faults=[['popen', 1, 'err', r.choice([11, 12, 24, 32]), 0]]))
        elif o < .45:
            # Dies with a failure after any amount of its output.
            out.append(plan(probe, 'norun', gc=['natural'], chunk=r.choice([0, 1, 7, 64, 512]),
                            faults=[['popen', 1, 'trunc', r.randrange(size), r.choice([256, 9, 11, 13, 139, 512, 32512])]]))
        elif o < .60:
            out.append(plan(probe, 'norun', gc=['natural'], faults=[['pclose', 1, r.choice(['err', 'ret']), 10, 0]
                                                                    if r.random() < .5 else
                                                                    ['pclose', 1, 'ret', r.choice([256, 9, 11, 512]), 0]]))
        elif o < .75:
            # (The data may have ended before.)
            out.append(plan(probe, 'norun_or_exact', gc=['natural'], chunk=r.choice([0, 1, 7, 64]),
                            faults=[['popen', 1, 'eio', r.randrange(size), 0]]))
        elif o < .95:
            out.append(plan(probe, 'exact', gc=gc_some(r, probe), chunk=r.choice([1, 2, 3, 7, 16, 64, 500, 4096])))
        else:
            out.append(plan(probe, 'exact', gc=['natural'], cpp='real'))
    return out


# P07 ------------------------------------------------------------------------

def line_fault(r, s):
    """One fault of what a line at the prompt goes through."""
    kinds = [k for k in ('mkstemp', 'filewrite', 'fileclose', 'fdopen', 'system') if s.get(k)]
    if not kinds:
        return None
    k = r.choice(kinds)
    n = r.randint(1, s[k])
    if k == 'mkstemp':
        return [k, n, 'err', r.choice([13, 24, 28, 23]), 0]
    if k == 'filewrite':
        o = r.random()
        if o < .5:
            return [k, n, 'err', r.choice([4, 5, 28]), 0]
        return [k, n, 'short', r.randint(1, 12), 0]
    if k == 'fileclose':
        return [k, n, 'err', r.choice([5, 28, 122]), 0]
    if k == 'fdopen':
        return [k, n, 'err', r.choice([12, 24]), 0] if r.random() < .4 else [k, n, 'eio', r.randint(0, 30), 0]
    o = r.random()
    if o < .25:
        return [k, n, 'err', r.choice([11, 12]), 0]
    if o < .5:
        return [k, n, 'ret', r.choice([256, 9, 11, 139, 512, 32512]), 0]
    return [k, n, 'trunc', r.randint(0, 40), r.choice([256, 9, 11, 13, 512])]


@case('P07')
def _(r, k):
    return make_session(r, n=r.randint(3, 14), norc=.4, bad=.16, inc=.1, size=.5)


@plans('P07')
def _(r, c, probe, tier):
    s = sites(probe)
    out = [plan(probe, 'exact_lines', gc=['natural'], heap=GUARD),
           plan(probe, 'exact_lines', gc=gc_some(r, probe), chunk=r.choice([1, 2, 3, 5, 9, 17]))]
    for _ in range(8 if tier == 'quick' else 24):
        fs = [f for f in (line_fault(r, s) for _ in range(r.choice([1, 1, 1, 2]))) if f]
        if len({(f[0], f[1]) for f in fs}) != len(fs) or not fs:
            continue
        out.append(plan(probe, 'fault_session', gc=r.choice([['natural'], ['natural'], gc_some(r, probe)]), faults=fs,
                        chunk=r.choice([0, 0, 1, 7, 64])))
    return out


# P08 ------------------------------------------------------------------------

@case('P08')
def _(r, k):
    return make_session(r, n=r.randint(6, 40), bad=r.choice([.05, .15, .3]), inc=r.choice([0, .06, .12]))


@plans('P08')
def _(r, c, probe, tier):
    return gc_plans(r, probe, 5 if tier == 'quick' else 12, oracle='exact_lines')


# P09 ------------------------------------------------------------------------

COMPLETE_BAD = ['s1.', 'x.y.', 's1->', 'a.', 'gpt.', 'gpt.p', 'pool[1].', 'gp->', 'f0(1).', '(1 + ).', '5.', 'nosuch.',
                'nosuch->a', 'a->b->c', '.', '->', 'x..', 'a.b->', '"s".', 'gpt.px.', 'pool[9].']


def add_tabs(c, r, rate=.5):
    for n, it in enumerate(c['items']):
        if it['k'] == 'inc' and r.random() < .8:
            continue
        if r.random() < rate:
            import session
            t = session.line_text(it)
            it['tabs'] = [[r.randint(0, len(t)), r.choice([1, 2, 2, 3])] for _ in range(r.choice([1, 1, 2]))]
    # Lines that are only there to be completed: rejected as such.
    out = []
    for it in c['items']:
        if r.random() < .2:
            t = r.choice(COMPLETE_BAD)
            out.append({'k': 'bad', 't': t + ' @', 'tabs': [[len(t), 2]]})
        out.append(it)
    c['items'] = out


@case('P09')
def _(r, k):
    c = make_session(r, want=('structs',) + (('list',) if r.random() < .4 else ()), norc=.1, n=r.randint(4, 16), bad=.05,
                     inc=.06, size=.5)
    last = c['items'].pop() if c['items'][-1]['k'] in ('die',) or c['items'][-1].get('s', [''])[0] == 'exit' else None
    add_tabs(c, r)
    if last:
        c['items'].append(last)
    return c


@plans('P09')
def _(r, c, probe, tier):
    s = sites(probe)
    out = gc_plans(r, probe, 3 if tier == 'quick' else 6, oracle='tabs')
    for _ in range(6 if tier == 'quick' else 16):
        f = tab_fault(r, s)
        if f:
            out.append(plan(probe, 'tabs_faulty', gc=r.choice([['natural'], gc_some(r, probe)]), faults=[f]))
    return out


def tab_fault(r, s):
    kinds = [k for k in ('pipe', 'fork', 'pipewrite', 'piperead', 'childstart', 'waitpid', 'pipeclose') if s.get(k)]
    if s.get('fork'):
        # What happens in children isn't counted here.
        kinds = ['pipe', 'fork', 'pipewrite', 'pipewrite', 'piperead', 'childstart', 'waitpid']
    if not kinds:
        return None
    k = r.choice(kinds)
    n = r.randint(1, max(1, s.get('fork', 1)))
    if k == 'pipe':
        return [k, n, 'err', r.choice([23, 24]), 0]
    if k == 'fork':
        return [k, n, 'err', r.choice([11, 12]), 0]
    if k == 'pipewrite':
        n = r.randint(1, 6)
        return [k, n] + r.choice([['err', r.choice([4, 32]), 0], ['short', r.randint(1, 5), 0], ['die', r.choice([6, 9, 11]), 0],
                                  ['diepart', r.choice([9, 11]), 0], ['exit', r.choice([0, 1]), 0]])
    if k == 'piperead':
        n = r.randint(1, max(1, s.get('piperead', 1)))
        return [k, n] + r.choice([['err', r.choice([4, 5]), 0], ['short', r.randint(1, 4), 0]])
    if k == 'childstart':
        return [k, n] + r.choice([['die', r.choice([6, 9, 11]), 0], ['exit', r.choice([0, 3]), 0]])
    return ['waitpid', n, 'err', 4, 0]


# P10 ------------------------------------------------------------------------

@case('P10')
def _(r, k):
    c = make_session(r, n=r.randint(4, 20), norc=.4, bad=.2, inc=.12, size=.5, end=.4, want=('structs',))
    last = c['items'].pop() if c['items'][-1]['k'] in ('die',) or c['items'][-1].get('s', [''])[0] == 'exit' else None
    add_tabs(c, r, .3)
    if last:
        c['items'].append(last)
    return c


@plans('P10')
def _(r, c, probe, tier):
    s = sites(probe)
    out = [plan(probe, 'census', gc=['natural'])]
    for _ in range(8 if tier == 'quick' else 24):
        fs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            f = line_fault(r, s) if r.random() < .55 else tab_fault(r, s)
            if f:
                fs.append(f)
        if len({(f[0], f[1]) for f in fs}) != len(fs) or not fs:
            continue
        out.append(plan(probe, 'census', gc=['natural'], faults=fs))
    return out


# P11 ------------------------------------------------------------------------

@case('P11')
def _(r, k):
    o = k % 10
    if o < 6:
        return make_prog(r, size=.7)
    if o < 9:
        return make_session(r, n=r.randint(2, 8), size=.4, bad=.1, inc=.1, norc=.4)
    return make_nested(r, size=.5)


@plans('P11')
def _(r, c, probe, tier):
    n = sites(probe).get('alloc', 0)
    out = []
    if not n:
        return out
    for i in range(14 if tier == 'quick' else 50):
        a = r.randint(1, n)
        pers = r.random() < .35
        out.append(plan(probe, 'oom', gc=r.choice([['natural'], ['natural'], gc_some(r, probe)]), heap=GUARD if i % 2 else None,
                        faults=[['alloc', a, ('+' if pers else '') + 'fail', 0, 0]]))
    return out


# P12 ------------------------------------------------------------------------

@case('P12')
def _(r, k):
    o = k % 12
    if o == 11:
        # In the start-up file.
        for _ in range(200):
            c = make_session(r, norc=0, n=3, bad=0, inc=0, end=0)
            rc = c['rc']
            rc.insert(r.randint(0, len(rc)), ['fail', r.choice([t for t in FAIL_ST if not t.startswith('return')])])
            return c
    if o in (9, 10):
        c = make_session(r, n=r.randint(2, 12), bad=.05, end=0)
        c['items'].append({'k': 'die', 't': r.choice(sgen.DIE[:-1] if c['rc'] is None else sgen.DIE)})
        for _ in range(r.randint(0, 3)):
            c['items'].append({'k': 'st', 's': ['e', ['n', 4]]})
        return c
    want = [(), ('events', 'nested'), ('recursion', 'loops'), ('fps', 'natives')][k % 4]
    return make_prog(r, want=want, change=fail_somewhere, ok=ends_in_error)


@plans('P12')
def _(r, c, probe, tier):
    s = sites(probe)
    out = [plan(probe, 'exact', gc=['natural'], heap=r.choice(HEAPS))]
    out += gc_plans(r, probe, 2 if tier == 'quick' else 5)
    if c['kind'] == 'prog':
        if c['events']:
            for _ in range(2 if tier == 'quick' else 5):
                ev = shuffled(r, c['events'])
                x = accept(c['prog'], ev)
                if x:
                    out.append(plan(probe, 'exact', gc=gc_some(r, probe), heap=GUARD, events=ev))
        # Looked up when it is called for the first time.
        names = [l[6:] for l in probe.log if l.startswith('dlsym ')]
        if names:
            for _ in range(2):
                n = r.randrange(len(names))
                if names[n] in names[:n]:
                    continue
                out.append(plan(probe, 'missing', gc=['natural'], names=[names[n]],
                                faults=[['dlsym', n + 1, r.choice(['', '+']) + 'fail', 0, 0]]))
    return out


# P13 ------------------------------------------------------------------------

@case('P13')
def _(r, k):
    return make_nested(r, want=[(), ('events', 'nested'), ('recursion', 'loops', 'shadow')][k % 3])


@plans('P13')
def _(r, c, probe, tier):
    return gc_plans(r, probe, 5 if tier == 'quick' else 12)


# P14 ------------------------------------------------------------------------

@case('P14')
def _(r, k):
    w = [('loops', 'breaks', 'returns', 'blocks'), ('loops', 'breaks', 'returns', 'events', 'nested'),
         ('loops', 'breaks', 'recursion', 'returns'), ('loops', 'breaks', 'natives', 'fps', 'returns', 'arrays')][k % 4]
    return make_prog(r, want=w, size=1.3)


@plans('P14')
def _(r, c, probe, tier):
    out = [plan(probe, 'exact', gc=['natural'], heap=GUARD)]
    out += gc_plans(r, probe, 2 if tier == 'quick' else 5)
    if c['events']:
        for _ in range(4 if tier == 'quick' else 10):
            ev = shuffled(r, c['events'])
            if accept(c['prog'], ev):
                out.append(plan(probe, 'exact', gc=r.choice([['natural'], gc_some(r, probe)]), events=ev))
    return out


# P15 ------------------------------------------------------------------------

@case('P15')
def _(r, k):
    def change(p, r):
        if r.random() < .75:
            add_handlers(p, r)
        if r.random() < .75:
            exit_somewhere(p, r)
        elif r.random() < .4:
            return fail_somewhere(p, r)
    return make_prog(r, want=[(), ('events', 'nested'), ('recursion',), ('natives', 'fps', 'arrays')][k % 4], size=.8, change=change)


@plans('P15')
def _(r, c, probe, tier):
    out = [plan(probe, 'exact', gc=['natural'], heap=r.choice(HEAPS))]
    out += gc_plans(r, probe, 4 if tier == 'quick' else 10)
    return out
