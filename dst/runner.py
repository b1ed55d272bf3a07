"""Run one simulated execution and collect what can be observed of it."""
import ctypes, hashlib, os, resource, shutil, signal, struct, subprocess, tempfile

HDR = struct.Struct('<8s11QII')
FIELDS = ('magic', 'gc_points', 'gc_collects', 'gc_hash', 'allocs', 'frees', 'live',
          'peak', 'bic_allocs', 'heap_errors', 'exit_seen', 'chunks', 'loglen',
          'truncated')
WALL_LIMIT = 30         # only a backstop: the step cap and RLIMIT_CPU come first
CPU_LIMIT = 15
OUT_LIMIT = 8 << 20

_libc = ctypes.CDLL(None)


def _child_setup():
    _libc.personality(0x0040000)        # ADDR_NO_RANDOMIZE
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 2))
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUT_LIMIT, OUT_LIMIT))
    os.setsid()


class Result:
    __slots__ = ('out', 'err', 'rc', 'log', 'h', 'left', 'hang')

    def events(self, prefix):
        return [l for l in self.log if l.startswith(prefix)]

    def digest(self):
        """Everything that a repetition of the run has to reproduce."""
        m = hashlib.sha256()
        m.update(self.out)
        m.update(self.err)
        m.update(repr((self.rc, self.hang, sorted(self.left))).encode())
        m.update('\n'.join(self.log).encode())
        m.update(repr(sorted((k, v) for k, v in self.h.items())).encode())
        return m.hexdigest()

    @property
    def crashed(self):
        return self.rc < 0


def plan_text(plan, scratch):
    L = ['scratch ' + scratch, 'log ' + scratch + '/log']
    gc = plan.get('gc', ['natural'])
    L.append('gc ' + ' '.join(str(x) for x in gc))
    if plan.get('gclog'):
        L.append('gclog 1')
    hp = plan.get('heap')
    if hp:
        L.append('heap %s %s %d %d' % tuple(hp))
    L.append('steps %d' % plan.get('steps', 400000))
    if plan.get('chunk') is not None:
        L.append('chunk %d' % plan['chunk'])
    L.append('cpp ' + plan.get('cpp', 'stub'))
    for e in plan.get('events', []):
        L.append('ev %d %d %d' % tuple(e))
    for f in plan.get('faults', []):
        L.append('fault ' + ' '.join(str(x) for x in f))
    if 'keys' in plan and plan['keys']:
        k = plan['keys'].encode('latin-1').hex()
        for i in range(0, len(k), 4000):
            L.append('in ' + k[i:i + 4000])
    return '\n'.join(L) + '\n'


class Runner:
    """Owns one scratch directory, the fixed path of which doesn't influence a
    run (names are constant in length for all workers)."""

    def __init__(self, exe, root=None):
        self.exe = exe
        self.root = root or tempfile.mkdtemp(prefix='bicsim', dir='/tmp')
        self.own = root is None
        self.n = 0

    def close(self):
        if self.own:
            shutil.rmtree(self.root, ignore_errors=True)

    def run(self, plan, args=(), files=None, argv_tail=()):
        """files: name -> text; 'cwd/x.c', 'home/.bic', 'include/h.h'."""
        s = self.root
        for d in ('tmp', 'include', 'home', 'cwd', 'log', 'out', 'err', 'plan'):
            p = os.path.join(s, d)
            if os.path.isdir(p):
                if os.listdir(p):
                    shutil.rmtree(p)
                    os.mkdir(p)
            elif os.path.exists(p):
                os.unlink(p)
            elif d in ('tmp', 'include', 'home', 'cwd'):
                os.mkdir(p)
        for name, text in (files or {}).items():
            p = os.path.join(s, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(text)
        with open(os.path.join(s, 'plan'), 'w') as f:
            f.write(plan_text(plan, s))
        env = {'BICSIM_PLAN': s + '/plan', 'HOME': s + '/home',
               'PATH': '/usr/local/bin:/usr/bin:/bin', 'TERM': 'dumb',
               'LC_ALL': 'C', 'INPUTRC': '/dev/null'}
        r = Result()
        r.hang = False
        with open(s + '/out', 'wb') as fo, open(s + '/err', 'wb') as fe:
            p = subprocess.Popen([self.exe] + [a.replace('@S@', s) for a in args] + list(argv_tail), env=env, cwd=s + '/cwd',
                                 stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                                 preexec_fn=_child_setup, close_fds=True)
            try:
                r.rc = p.wait(WALL_LIMIT)
            except subprocess.TimeoutExpired:
                r.hang = True
                r.rc = -999
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            if r.hang:
                p.wait()
        sb = s.encode()
        r.out = open(s + '/out', 'rb').read().replace(sb, b'@S@')
        r.err = open(s + '/err', 'rb').read().replace(sb, b'@S@')
        r.log, r.h = [], {}
        try:
            with open(s + '/log', 'rb') as f:
                hd = f.read(HDR.size)
                v = HDR.unpack(hd)
                r.h = dict(zip(FIELDS[1:], v[1:]))
                r.log = f.read(r.h['loglen']).replace(sb, b'@S@').decode('latin-1').split('\n')[:-1]
        except (OSError, struct.error):
            pass
        r.left = os.listdir(s + '/tmp')
        self.n += 1
        return r
