"""Entry point of the checks.

  check.py run PID [quick|thorough]     decide a property
  check.py replay FILE                  run one recorded violation again
  check.py case PID K                   show a generated case (for people)"""
import collections, hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
import build, case as C, props, runner, shrink
from minic import Reject

VERIF = build.VERIF
# Number of cases, by property: what takes about a minute on 8 cores.
QUICK = {'P01': 700, 'P02': 260, 'P03': 800, 'P04': 900, 'P05': 800, 'P06': 800, 'P07': 900, 'P08': 900, 'P09': 700,
         'P10': 800, 'P11': 500, 'P12': 1200, 'P13': 900, 'P14': 900, 'P15': 1100}
LIMIT = {'quick': 240, 'thorough': 780}
SHRINK_S = {'quick': 60, 'thorough': 60}
PROBE_ORACLE = {'P07': 'exact_lines', 'P08': 'exact_lines', 'P09': 'tabs', 'P10': 'census'}

G = {}


def init(exe, base, counter, pid, tier, seed):
    with counter.get_lock():
        n = counter.value
        counter.value += 1
    root = os.path.join(base, 'w%03d' % n)
    os.mkdir(root)
    G.update(R=runner.Runner(exe, root), pid=pid, tier=tier, seed=seed)


def execute(R, c, plan):
    p = C.plan_of(c, plan)
    return R.run(p, C.args_of(c), C.files_of(c))


def fault_kind(l):
    if l.startswith('child: '):
        l = l[7:]
    w = l.split()
    if len(w) < 4:
        return None
    return w[1] + ':' + w[3].lstrip('+')


def work(k):
    pid, tier, seed, R = G['pid'], G['tier'], G['seed'], G['R']
    r = random.Random('%s/%s/%d' % (seed, pid, k))
    st = collections.Counter()
    out = {'k': k, 'st': st, 'faults': collections.Counter(), 'sigs': set(), 'bad': None, 'sample': None,
           'machinery': None, 'kinds': collections.Counter()}
    c = props.CASES[pid](r, k)
    src = hashlib.sha256(repr(sorted(C.files_of(c).items())).encode()).hexdigest()[:12]
    cache = {}
    out['kinds'][c['kind']] += 1

    def one(plan):
        res = execute(R, c, plan)
        st['runs'] += 1
        for f in ('gc_points', 'gc_collects', 'allocs', 'heap_errors'):
            st[f] += res.h.get(f, 0)
        st['keys'] += len(C.plan_of(c, plan).get('keys', ''))
        fired = [l for l in res.log if 'FAULT ' in l]
        for l in fired:
            out['faults'][fault_kind(l)] += 1
        cb = sum(1 for l in res.log if l.startswith('event '))
        st['callbacks'] += cb
        st['tabs'] += sum(1 for l in res.log if l.startswith('complete ['))
        st['lines'] += sum(1 for l in res.log if l.startswith('line ['))
        st['status_%d' % res.rc if res.rc in (0, 1, 2) else 'status_other'] += 1
        h = plan.get('heap')
        if res.h.get('gc_collects') or fired or cb or plan.get('chunk') or h or 'complete [' in '\n'.join(res.log[:400]):
            out['sigs'].add(hashlib.sha256(repr((src, res.h.get('gc_hash'), fired, plan.get('events', c.get('events')),
                                                 h, plan.get('chunk'), C.plan_of(c, plan).get('keys'))).encode()).hexdigest()[:16])
        m = C.judge(c, plan, res, cache)
        if m is None and (k % 10 == 0 and st['runs'] % 4 == 1):
            # The same plan has to give the very same execution.
            again = execute(R, c, plan)
            st['repeated'] += 1
            if again.digest() != res.digest():
                st['repeat_differs'] += 1
                out['differs'] = {'case': c, 'plan': plan}
        if m and m.startswith('MACHINERY'):
            out['machinery'] = {'msg': m, 'case': c, 'plan': plan, 'err': res.err[-400:].decode('latin-1')}
            return res, True
        if m:
            out['bad'] = {'msg': m, 'case': c, 'plan': plan, 'err': res.err[-2000:].decode('latin-1'),
                          'digest': res.digest()}
            return res, True
        return res, False

    probe, stop = one({'oracle': PROBE_ORACLE.get(pid, 'exact'), 'gc': ['natural'], 'steps': 5000000})
    if stop:
        return out
    n = 0
    for plan in props.PLANS[pid](r, c, probe, tier):
        n += 1
        res, stop = one(plan)
        if stop:
            break
        if n == 1 and k < 40:
            out['sample'] = {'case': k, 'files': {a: b[:700] for a, b in C.files_of(c).items()},
                             'plan': {a: b for a, b in plan.items() if a != 'events'},
                             'events': plan.get('events', c.get('events', []))[:12],
                             'keys': C.plan_of(c, plan).get('keys', '')[:400],
                             'collections': res.h.get('gc_collects'), 'stdout': res.out[:200].decode('latin-1'),
                             'status': res.rc}
    return out


def repeat(R, v, n=3):
    """Does the violation come back?  (times, same digest)"""
    same = got = 0
    for _ in range(n):
        res = execute(R, v['case'], v['plan'])
        m = C.judge(v['case'], v['plan'], res)
        if m and shrink.klass(m) == shrink.klass(v['msg']):
            got += 1
            same += res.digest() == v['digest']
    return got, same


def report(pid, tier, seed, v, exe, base):
    """Gate, minimise and store; returns the path of the replay or None."""
    root = os.path.join(base, 'shr0')
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    R = runner.Runner(exe, root)
    got, same = repeat(R, v)
    if not got:
        print('the violation %r does not come back in a fresh run' % v['msg'])
        return None
    s = shrink.Shrinker(lambda c, p: execute(R, c, p), v['case'], v['plan'], v['msg'], time.time() + SHRINK_S[tier])
    c, p, msg, res = s.run()
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha256((repr(c) + repr(p)).encode()).hexdigest()[:12]))
    x = C.expect(c, p.get('events'))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'case_number': v['k'], 'violation': msg, 'first_seen_as': v['msg'],
                   'exactly_reproducible': got == 3 and same == 3, 'digest': res.digest(), 'case': c, 'plan': p,
                   'files': C.files_of(c), 'args': C.args_of(c), 'keys': C.plan_of(c, p).get('keys', ''),
                   'expected_stdout': x.out, 'expected_status': x.code, 'stdout': res.out.decode('latin-1'),
                   'stderr': res.err.decode('latin-1'), 'status': res.rc, 'log': res.log[-200:],
                   'shrink_runs': s.n}, f, indent=1)
    print('violation: ' + msg)
    for n, t in C.files_of(c).items():
        print('--- %s\n%s' % (n, t[:3000]))
    if C.plan_of(c, p).get('keys'):
        print('--- keys: %r' % C.plan_of(c, p)['keys'][:1500])
    print('--- plan: %s' % json.dumps(p)[:600])
    return path


def known_findings(pid):
    """Entries of the known-findings file that are not repaired."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                w = l.split(None, 3)
                out.append((w[2], w[3].strip()))
    return out


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        exe = build.build()
    except build.BuildError as e:
        print('bic does not build with the simulator:\n%s' % e)
        return 2
    t1 = time.time()
    base = tempfile.mkdtemp(prefix='bicsim', dir='/tmp')
    os.chmod(base, 0o755)
    n = QUICK[pid] if tier == 'quick' else 10 ** 9
    if os.environ.get('DST_CASES'):
        n = int(os.environ['DST_CASES'])
    first = int(os.environ.get('DST_FIRST', '0'))
    tot = {'st': collections.Counter(), 'faults': collections.Counter(), 'sigs': set(), 'samples': [],
           'kinds': collections.Counter()}
    bad = mach = None
    cases = 0
    try:
        counter = mp.Value('i', 0)
        pool = mp.Pool(min(8, os.cpu_count() or 8), init, (exe, base, counter, pid, tier, seed))
        try:
            for o in pool.imap(work, cases_until(first, n, t0 + LIMIT[tier]), chunksize=1):
                cases += 1
                tot['st'].update(o['st'])
                tot['faults'].update(o['faults'])
                tot['kinds'].update(o['kinds'])
                tot['sigs'] |= o['sigs']
                if o['sample'] and len(tot['samples']) < 3:
                    tot['samples'].append(o['sample'])
                if o.get('differs'):
                    print('note: a repetition of case %d differs: %s' % (o['k'], json.dumps(o['differs'])[:300]))
                if o['machinery'] and not mach:
                    mach = o
                if o['bad']:
                    bad = dict(o['bad'], k=o['k'])
                    break
        finally:
            pool.terminate()
            pool.join()
        path = None
        if bad:
            path = report(pid, tier, seed, bad, exe, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = time.time() - t0
    st = tot['st']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': st['runs'],
            'distinct_nontrivial': len(tot['sigs']),
            'rule': RULE,
            'samples': tot['samples'],
            'cases': cases, 'case_kinds': dict(tot['kinds']),
            'first_seed': '%d/%s/%d' % (seed, pid, first), 'seeds': cases,
            'runs_per_hour': int(st['runs'] / max(.1, wall - (t1 - t0)) * 3600),
            'simulated_time': {'unit': 'allocation points (bic has no clock; each is a point at which a collection may happen)',
                               'total': st['gc_points']},
            'collections': st['gc_collects'], 'heap_operations': st['allocs'],
            'native_callbacks': st['callbacks'], 'lines_entered': st['lines'], 'keys_pressed': st['keys'],
            'completions_requested': st['tabs'],
            'faults_fired': dict(tot['faults']), 'faults_fired_total': sum(tot['faults'].values()),
            'distinct_interleavings': {'count': len(tot['sigs']),
                                       'measure': 'distinct (program, set of collections, faults fired, callback order, heap, chunking, keys)'},
            'repeated_for_determinism': st['repeated'], 'repetitions_that_differed': st['repeat_differs'],
            'exit_statuses': {k[7:]: v for k, v in st.items() if k.startswith('status_')},
            'components': COMPONENTS,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(wall, 1), 'violations': 1 if bad and path else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d runs (%d/h), %d distinct, %d collections, %d callbacks, %d faults, %.0f s' % (
        pid, tier, cases, st['runs'], ev['coverage']['runs_per_hour'], len(tot['sigs']), st['gc_collects'], st['callbacks'],
        sum(tot['faults'].values()), wall))
    if bad and path:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for ident, text in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if bad or mach:
        print('error of the check: %s' % (mach['machinery'] if mach else bad['msg']))
        return 3
    return 0


def cases_until(first, n, deadline):
    for k in range(first, first + n):
        if time.time() > deadline:
            return
        yield k


RULE = ('A case is a random program or session (seed/property/number); a run is a case under one plan (collection schedule, heap '
        'behaviour, faults, order of callbacks, keys). Non-trivial: at least one collection, fault, native callback, completion, '
        'split read or non-default heap in it. Distinct: by the measure given under distinct_interleavings.')
COMPONENTS = {
    'real': ['all of bic (src/*.c and generated code), readline, libffi, GMP, libc stdio'],
    'simulated': ['malloc family', 'decision to collect', 'preprocessor (stub; the real one in some runs of P06)', 'terminal input',
                  'failures of files, pipes, fork, wait, dlsym and dlopen', 'event loop that calls back into the program'],
}
ASSUMPTIONS = ['The reference model (dst/minic.py, dst/session.py) gives the semantics of the generated subset of C and of the prompt.',
               'The stub preprocessor handles object-like macros and #include as gcc does.',
               'No allocation failures are injected into libraries (readline, libffi, GMP, stdio).']


def replay(path):
    d = json.load(open(path))
    exe = build.build()
    base = tempfile.mkdtemp(prefix='bicsim', dir='/tmp')
    try:
        root = os.path.join(base, 'shr0')
        os.mkdir(root)
        R = runner.Runner(exe, root)
        res = execute(R, d['case'], d['plan'])
        m = C.judge(d['case'], d['plan'], res)
        print('stdout: %r\nstderr: %r\nstatus: %d' % (res.out.decode('latin-1'), res.err.decode('latin-1'), res.rc))
        if m:
            print('violation: %s' % m)
            print('the execution is %s' % ('the recorded one' if res.digest() == d['digest'] else 'NOT the recorded one'))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    if sys.argv[1:2] == ['run']:
        return run(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick'))
    if sys.argv[1:2] == ['replay']:
        return replay(sys.argv[2])
    if sys.argv[1:2] == ['case']:
        r = random.Random('%s/%s/%s' % (os.environ.get('VERIF_SEED', 1), sys.argv[2], sys.argv[3]))
        c = props.CASES[sys.argv[2]](r, int(sys.argv[3]))
        for n, t in C.files_of(c).items():
            print('---', n)
            print(t)
        print(C.plan_of(c, {}).get('keys', ''))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
