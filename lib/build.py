"""Builds the real daemon of /repo's working tree, instrumented, with the
interception shim, into /verif/build (ignored by git), keyed by content."""
import concurrent.futures, glob, hashlib, os, shlex, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'preload-src')
OUT = os.path.join(VERIF, 'build')

VARIANTS = {
    # everything on; the first report ends the run
    'san': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    # without the check for overflow of signed arithmetic on numbers taken from a hostile
    # file: such counters wrap, which the properties do not rule out
    'wrap': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,float-cast-overflow',
             '-fwrapv', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    # no sanitizer: for crash points and signals, where speed matters
    'plain': ['-O1', '-fno-omit-frame-pointer'],
}


class BuildError(Exception):
    pass


def sources():
    """(sources relative to SRC, compiler flags), from the project's own Makefile"""
    mk = 'include Makefile\nvp-print:\n\t@echo "VPSRCS $(SRCS)"\n\t@printf "%s\\n" \'VPFLAGS $(CFLAGS)\'\n'
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.mk', delete=False) as f:
            f.write(mk)
        r = subprocess.run(['make', '-s', '-f', f.name, 'vp-print'], cwd=SRC, capture_output=True, text=True, timeout=60)
        os.unlink(f.name)
        srcs, flags = [], []
        for line in r.stdout.splitlines():
            if line.startswith('VPSRCS '):
                srcs = line.split()[1:]
            elif line.startswith('VPFLAGS '):
                flags = shlex.split(line[8:])
        if srcs and flags and all(os.path.exists(os.path.join(SRC, s)) for s in srcs):
            return srcs, [f for f in flags if not f.startswith(('-O', '-W', '-g'))]
    except (OSError, subprocess.SubprocessError):
        pass
    raise BuildError('cannot get the list of sources from the Makefile')


def content_hash(extra):
    h = hashlib.sha256()
    for root in (os.path.join(SRC, 'src'),):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.c', '.h')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, SRC).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    for p in (os.path.join(SRC, 'Makefile'), os.path.join(VERIF, 'shim', 'shim.c'), os.path.abspath(__file__)):
        h.update(open(p, 'rb').read())
    h.update(extra.encode())
    return h.hexdigest()[:20]


def build(variant='san'):
    """path of the instrumented daemon"""
    key = content_hash(variant)
    final = os.path.join(OUT, variant + '-' + key)
    exe = os.path.join(final, 'preload')
    if os.path.exists(exe):
        return exe
    os.makedirs(OUT, exist_ok=True)
    for old in glob.glob(os.path.join(OUT, variant + '-*')):
        if len(os.path.basename(old)) == len(variant) + 21:
            try:
                if os.path.getmtime(old) < __import__('time').time() - 3600:
                    shutil.rmtree(old, ignore_errors=True)
            except OSError:
                pass
    srcs, flags = sources()
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=OUT)
    try:
        def cc(job):
            src, obj, fl = job
            r = subprocess.run(['gcc', '-g', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0'] + fl + ['-c', src, '-o', obj], cwd=SRC, capture_output=True, text=True)
            return src, r.returncode, r.stderr
        jobs = []
        for i, s in enumerate(srcs):
            jobs.append((s, os.path.join(tmp, '%d.o' % i), flags + VARIANTS[variant]))
        jobs.append((os.path.join(VERIF, 'shim', 'shim.c'), os.path.join(tmp, 'shim.o'), ['-O1', '-fno-builtin']))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(cc, jobs):
                if rc:
                    raise BuildError('compiling %s failed:\n%s' % (src, err))
        libs = subprocess.run(['pkg-config', '--libs', 'glib-2.0'], capture_output=True, text=True).stdout.split()
        r = subprocess.run(['gcc'] + [f for f in VARIANTS[variant] if f.startswith('-fsan')] + ['-rdynamic', '-o', os.path.join(tmp, 'preload')]
                           + [j[1] for j in jobs] + libs + ['-lm', '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('linking failed:\n' + r.stderr)
        for j in jobs:
            os.unlink(j[1])
        try:
            os.rename(tmp, final)
        except OSError:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(build(v))
