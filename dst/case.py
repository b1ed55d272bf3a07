"""Cases: what is run, under which plans, and what has to come out.

A case is JSON:
  kind    "prog": a script, run with -s          (prog, events)
          "session": a session at the prompt       (rc, items, headers, events)
          "nested": a script with interruptions    (prog, events, sessions)
  plans   [plan + {"oracle": name}]: each is one simulated run
What is expected is computed from the model; nothing of it is stored."""
import re
import minic
import session
from minic import Reject

SCRIPT = 'cwd/p.c'
PTR = re.compile(r'0x[0-9a-f]+')


def rc_text(case):
    return minic.render({'top': case['rc']})


def files_of(case):
    f = {}
    if case['kind'] in ('prog', 'nested'):
        f[SCRIPT] = minic.render(case['prog'])
    if case.get('rc') is not None:
        f['home/.bic'] = rc_text(case)
    for n, h in case.get('headers', {}).items():
        f['include/' + n] = session.header_text(h)
    for n, t in case.get('files', {}).items():
        f[n] = t
    return f


def args_of(case):
    a = list(case.get('args', []))
    if case['kind'] in ('prog', 'nested'):
        a += ['-s', '@S@/' + SCRIPT]
    return a


def plan_of(case, plan):
    p = dict(plan)
    p.setdefault('events', case.get('events', []))
    if case['kind'] == 'session':
        p['keys'] = session.keys_of([case['items']])
    if case['kind'] == 'nested':
        p['keys'] = session.keys_of(case['sessions']) + '\x04'
    return p


class Expected:
    """out: stdout; code: exit status, None for "some failure"."""
    pass


def replayed_sessions(case):
    """The hook for `<REPL>;` that follows the recorded sessions."""
    cur = [iter(case['sessions'])]

    def hook(interp, _):
        for x in next(cur[-1], []):
            cur.append(iter(x.get('sub', [])))
            session.do_line(interp, x, case.get('headers', {}))
            cur.pop()
    return hook


def expect(case, events=None, skip=(), stop=None, missing=()):
    """Raises minic.Reject if the case isn't one that C defines."""
    x = Expected()
    ev = case.get('events', []) if events is None else events
    if case['kind'] == 'session':
        m = session.Model(case.get('rc'), case['items'], case.get('headers', {}), ev, skip, stop)
        x.out, x.code, x.trace = m.out, m.code, m.i.trace
        x.lines, x.rc_out, x.model = m.outs, getattr(m, 'rc_out', ''), m
        x.body = ''.join(m.i.out[:m.before_exit])
    else:
        i = minic.Interp(case['prog'], ev, max_steps=case.get('max_steps', 6000),
                         repl=replayed_sessions(case) if case['kind'] == 'nested' else None)
        i.missing |= set(missing)
        x.out, x.code = i.run()
        x.trace = i.trace
        x.body = ''.join(i.out[:i.main_out])
    return x


# ------------------------------------------------------------------- oracles

def norm(b):
    return PTR.sub('PTR', b.decode('latin-1'))


def died(res):
    """Ways for a run to end that are never right."""
    if res.hang:
        return 'hangs'
    if res.rc == 97:
        return 'does not end (step limit)'
    if res.rc < 0:
        return 'killed by signal %d' % -res.rc
    return None


def brief(s, n=160):
    s = repr(s)
    return s if len(s) <= n else s[:n // 2] + '...' + s[-n // 2:]


def diff(want, got):
    n = 0
    while n < len(want) and n < len(got) and want[n] == got[n]:
        n += 1
    n = max(0, want.rfind('\n', 0, n) + 1)
    return 'after %d characters of output: expected %s, got %s' % (n, brief(want[n:]), brief(got[n:]))


def heap(res):
    if res.h.get('heap_errors'):
        return 'memory error: ' + '; '.join(l for l in res.log if 'HEAP' in l)[:200]
    return None


def exact(x, res):
    bad = died(res) or heap(res)
    out = norm(res.out)
    want = PTR.sub('PTR', x.out)
    if bad:
        return bad + ('' if out == want else '; ' + diff(want, out))
    if out != want:
        return diff(want, out) + ' (exit status %d, %s)' % (res.rc, brief(res.err.decode('latin-1'), 120))
    if x.code is None:
        if res.rc == 0:
            return 'the error is reported as success'
        if not res.err:
            return 'stops without a diagnostic'
    elif res.rc != x.code:
        return 'exit status %d instead of %d (%s)' % (res.rc, x.code, brief(res.err.decode('latin-1'), 120))
    tr = [l for l in res.log if l.startswith('event ')]
    if tr != x.trace:
        n = 0
        while n < min(len(tr), len(x.trace)) and tr[n] == x.trace[n]:
            n += 1
        return 'callback %d: expected %s, got %s' % (n, x.trace[n:n + 1], tr[n:n + 1])
    return None


def norun(x, res):
    """Nothing of the script may have been executed."""
    bad = died(res) or heap(res)
    if bad:
        return bad
    if res.out:
        return 'executed in spite of the failure: ' + brief(res.out.decode('latin-1'))
    if any(l.startswith('event ') for l in res.log):
        return 'executed in spite of the failure (callback)'
    if res.rc == 0:
        return 'failure reported as success'
    if not res.err:
        return 'fails without a diagnostic'
    return None


def oom(x, res):
    bad = died(res) or heap(res)
    if bad:
        return bad
    if exact(x, res) is None:
        return None
    out, want = norm(res.out), PTR.sub('PTR', x.out)
    if not want.startswith(out):
        return diff(want, out)
    if res.rc == 0:
        return 'incomplete, but reported as success'
    if not res.err:
        return 'stops without a diagnostic'
    return None


def logged_lines(res):
    """[(line, [faults fired in it])]: element 0 is what comes before line 1."""
    L = [(None, [])]
    for l in res.log:
        if l.startswith('child: '):
            l = l[7:]
        if l.startswith('line ['):
            L.append((l[6:-1], []))
        elif l.startswith('FAULT'):
            L[-1][1].append(l)
    return L


def unesc(s):
    return re.sub(r'\\x(..)', lambda m: chr(int(m.group(1), 16)), s)


def lines_as_typed(case, res):
    want = [session.typed(it)[1] for it in case['items']]
    got = [unesc(l) for l, _ in logged_lines(res)[1:]]
    if got != want[:len(got)]:
        n = 0
        while got[n] == want[n]:
            n += 1
        return 'line %d became %s instead of %s' % (n, brief(got[n]), brief(want[n]))
    return None


def faulted_session(case, x, res):
    """Each line whose processing met a fault is evaluated completely, or not
    at all with a diagnostic; or it ends the session."""
    bad = died(res) or heap(res) or lines_as_typed(case, res)
    if bad:
        return bad
    L = logged_lines(res)
    out = norm(res.out)
    if exact(x, res) is None:
        return None
    hit = [n - 1 for n, (_, f) in enumerate(L) if n and f]
    if L[0][1] and len(L) == 1:
        # In the start-up file: all of it or nothing.
        return norun(x, res)
    last = len(L) - 2
    want = None
    from itertools import combinations
    for k in range(len(hit) + 1):
        for skip in combinations(hit, k):
            if k and res.err:
                y = expect(case, skip=skip)
                if exact(y, res) is None or y.model.vague and out.startswith(PTR.sub('PTR', y.body)):
                    return None
            if last in hit and res.rc > 0 and res.err:
                y = expect(case, skip=skip, stop=last)
                if PTR.sub('PTR', y.out) == out:
                    return None
                want = want or PTR.sub('PTR', y.out)
    return 'not a history of complete lines: exit status %d, faults %s; %s' % (
        res.rc, [f for _, f in L if f], diff(want or PTR.sub('PTR', x.out), out))


def census(res, slack=0):
    """Nothing may be held at any prompt, nor left behind."""
    bad = died(res)
    if bad:
        return bad
    first = None
    for l in res.log:
        m = re.match(r'census (\w+) fds=(-?\d+) tmp=(-?\d+) kids=(\d)', l)
        if not m:
            continue
        what, fds, tmp, kids = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4))
        if first is None:
            first = fds
        if fds > first and what == 'prompt':
            return '%d files open at %s, %d at the start' % (fds, what, first)
        if tmp > 0:
            return '%d temporary files exist at %s' % (tmp, what)
        if kids:
            return 'a child process was not waited for at ' + what
    if res.left:
        return 'left in the temporary directory: ' + ' '.join(sorted(res.left))
    return None


def completions(case, x, res, faulty):
    """Compare the candidates with those of the model.  The model is stepped
    through the session along with the log."""
    import minic
    i = minic.Interp({'top': case.get('rc') or []}, case.get('events', []), max_steps=20000)
    ext = set(re.findall(r'^extern .*?(\w+)\(', rc_text(case), re.M)) if case.get('rc') is not None else set()
    if case.get('rc') is not None:
        i.globals['argc'] = minic.Cell('int', 1)
        i.globals['argv'] = minic.Cell('pargv', ())
        for s in case['rc']:
            i.stmt(s)
    n = 0
    k = 0
    log = res.log
    headers = case.get('headers', {})
    while k < len(log):
        l = log[k]
        k += 1
        if l.startswith('line ['):
            try:
                session.do_line(i, case['items'][n], headers)
            except (minic.Exit, minic.Fail):
                return None
            n += 1
        elif l.startswith('complete ['):
            text = unesc(l[10:-1])
            got = []
            while k < len(log) and log[k].startswith('candidate ['):
                got.append(unesc(log[k][11:-1]))
                k += 1
            if len(got) > 1:
                if got[0] != text:
                    return 'completion of %r offers to replace it with %r' % (text, got[0])
                got = got[1:]
            must, may = session.candidates(i, text)
            if must is not None and not session.is_access(text):
                e = {w for w in ext if w.startswith(text)}
                must, may = must | e, may | e
            got = [w for w in got if not w.startswith('__builtin')]
            if len(set(got)) != len(got):
                return 'completion of %r offers a candidate twice: %s' % (text, got)
            if may is None:
                if any(not w.startswith(text) for w in got):
                    return 'completion of %r offers %s' % (text, got)
                continue
            if not set(got) <= may:
                return 'completion of %r offers %s' % (text, sorted(set(got) - may))
            if not faulty and not must <= set(got):
                return 'completion of %r does not offer %s' % (text, sorted(must - set(got)))
            if faulty and got and not must <= set(got):
                return 'completion of %r offers only a part: %s' % (text, got)
    return None


def marks_of(res):
    return [int(m.group(1)) for m in (re.match(r'mark \d+ live=(\d+)', l) for l in res.log) if m]


def growth(x, res, plan):
    """Live memory at the marks of a steady state."""
    bad = exact(x, res)
    if bad:
        return bad
    live = marks_of(res)
    if len(live) < plan['marks']:
        return 'MACHINERY: %d marks' % len(live)
    q = len(live) // 4
    a, b = min(live[q:2 * q]), min(live[3 * q:])
    if b > a + plan['slack']:
        return 'memory in use grows from %d to %d bytes between rounds %d and %d' % (a, b, 2 * q, len(live))
    return None


def growth_natural(x, res, plan):
    """The same with bic's own choice of when to collect."""
    bad = exact(x, res)
    if bad:
        return bad
    live = marks_of(res)
    q = len(live) // 4
    a, b = max(live[:q]), max(live[3 * q:])
    if b > a + a // 2 + (1 << 20):
        return 'memory in use grows from %d to %d bytes between rounds %d and %d' % (a, b, q, len(live))
    return None


def rc_norun(x, res):
    """The start-up file may not be executed, not even in part."""
    bad = died(res) or heap(res)
    if bad:
        return bad
    if 'rcmark' in norm(res.out):
        return 'start-up file executed in spite of the failure'
    if not res.err:
        return 'fails without a diagnostic'
    return None


def expected(case, plan, cache):
    ev = plan.get('events')
    key = repr(ev)
    if key not in cache:
        cache[key] = expect(case, ev)
    return cache[key]


def judge(case, plan, res, cache=None):
    """None, or what is wrong with a run."""
    o = plan['oracle']
    if not res.h:
        return died(res) or 'MACHINERY: no log'
    if res.rc in (96, 98):
        return 'MACHINERY: exit status %d' % res.rc
    x = expected(case, plan, {} if cache is None else cache)
    if o in ('norun', 'rc_norun', 'missing') and not any('FAULT ' in l for l in res.log):
        o = 'exact'
    if o == 'exact':
        return exact(x, res)
    if o == 'exact_lines':
        return exact(x, res) or lines_as_typed(case, res)
    if o == 'norun':
        return norun(x, res)
    if o == 'norun_or_exact':
        a = norun(x, res)
        return None if a is None or exact(x, res) is None else a
    if o == 'missing':
        return exact(expect(case, plan.get('events'), missing=plan['names']), res)
    if o == 'rc_norun':
        return rc_norun(x, res)
    if o == 'oom':
        return oom(x, res)
    if o == 'fault_session':
        return faulted_session(case, x, res)
    if o == 'census':
        return census(res)
    if o == 'tabs':
        return exact(x, res) or lines_as_typed(case, res) or completions(case, x, res, False)
    if o == 'tabs_faulty':
        return exact(x, res) or lines_as_typed(case, res) or completions(case, x, res, True)
    if o == 'growth':
        return growth(x, res, plan)
    if o == 'growth_natural':
        return growth_natural(x, res, plan)
    raise ValueError(o)
