"""Build bicsim (bic from /repo's working tree + the simulator)."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BICSIM_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
EXT = ('.c', '.h', '.cpp', '.m4', '.lang', '.lpp')


class BuildError(Exception):
    pass


def _inputs():
    src = os.path.join(REPO, 'src')
    names = sorted(n for n in os.listdir(src) if n.endswith(EXT))
    # What the build of /repo generates there (if it was ever run in-tree) is
    # generated anew.
    gen = {'gc-internal.c', 'tree-dump.c', 'tree-dump-dot.c', 'ffi-types.c',
           'spec-resolver.c', 'replparser.c', 'replparser.h', 'repllex.c',
           'repllex.h', 'cscriptparser.c', 'cscriptparser.h', 'cscriptlex.c',
           'cscriptlex.h', 'lang_lexer.cpp', 'lang_lexer.h', 'tree-base.h',
           'tree-access.h'}
    return [os.path.join(src, n) for n in names if n not in gen]


def build(opt='-g -O2'):
    """Returns the path of an up-to-date bicsim."""
    os.makedirs(OUT, exist_ok=True)
    sim = [os.path.join(VERIF, 'sim', n) for n in ('sim.c', 'config.h', 'Makefile')]
    srcs = _inputs()
    h = hashlib.sha256(opt.encode())
    for p in srcs + sim:
        h.update(os.path.basename(p).encode() + b'\0')
        h.update(open(p, 'rb').read())
    key = h.hexdigest()[:20]
    dest = os.path.join(OUT, key)
    exe = os.path.join(dest, 'bicsim')
    with open(os.path.join(OUT, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, '.done')):
            os.utime(dest)
            return exe
        # Keep only the newest few builds.
        olds = sorted((os.path.join(OUT, d) for d in os.listdir(OUT)
                       if os.path.isdir(os.path.join(OUT, d))), key=os.path.getmtime)
        for d in olds[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.makedirs(os.path.join(dest, 'src'))
        for p in srcs:
            shutil.copy(p, os.path.join(dest, 'src'))
        shutil.copy(sim[1], dest)
        env = {k: v for k, v in os.environ.items()
               if k not in ('MAKEFLAGS', 'MFLAGS', 'MAKELEVEL', 'DESTDIR', 'CFLAGS')}
        p = subprocess.run(
            ['make', '-s', '-j8', '-f', sim[2], 'SRC=' + os.path.join(REPO, 'src'),
             'SIM=' + os.path.join(VERIF, 'sim'), 'OPT=' + opt],
            cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL)
        if p.returncode:
            log = p.stdout.decode(errors='replace')
            shutil.rmtree(dest, ignore_errors=True)
            raise BuildError(log[-4000:])
        # The objects aren't needed any more.
        for n in os.listdir(os.path.join(dest, 'src')):
            if n.endswith('.o'):
                os.unlink(os.path.join(dest, 'src', n))
        open(os.path.join(dest, '.done'), 'w').close()
    return exe


if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
