"""What the demonstrations share: builds the daemon of the tree in the current directory with an
interception layer (shim.c: a virtual clock and a scratch root), runs it on a small scenario, and
reads the state file it leaves."""
import atexit, os, re, shlex, shutil, subprocess, sys, tempfile, urllib.parse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run as R


def build(san=True):
    src = os.path.join(os.getcwd(), 'preload-src')
    tmp = tempfile.mkdtemp(prefix='demo-')
    atexit.register(shutil.rmtree, tmp, True)
    mk = os.path.join(tmp, 'p.mk')
    with open(mk, 'w') as f:
        f.write('include Makefile\nvp-print:\n\t@echo "VPSRCS $(SRCS)"\n\t@printf "%s\\n" \'VPFLAGS $(CFLAGS)\'\n')
    out = subprocess.run(['make', '-s', '-f', mk, 'vp-print'], cwd=src, capture_output=True, text=True).stdout
    srcs, flags = [], []
    for line in out.splitlines():
        if line.startswith('VPSRCS '):
            srcs = line.split()[1:]
        elif line.startswith('VPFLAGS '):
            flags = [x for x in shlex.split(line[8:]) if not x.startswith(('-O', '-W', '-g'))]
    fs = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else []
    exe = os.path.join(tmp, 'preload')
    libs = subprocess.run(['pkg-config', '--libs', 'glib-2.0'], capture_output=True, text=True).stdout.split()
    shim = os.path.join(tmp, 'shim.o')
    subprocess.check_call(['gcc', '-g', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-O1', '-fno-builtin', '-c', os.path.join(HERE, 'shim.c'), '-o', shim])
    subprocess.check_call(['gcc', '-g', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-O1'] + flags + fs + ['-rdynamic', '-o', exe] + srcs + [shim] + libs + ['-lm', '-ldl'], cwd=src)
    return exe


class Demo:
    MEM = {'MemTotal': 8000000, 'MemFree': 4000000, 'MemAvailable': 6000000, 'Buffers': 100000, 'Cached': 1000000}

    def __init__(self, san=True):
        self.exe = build(san)
        self.s = R.Scratch()
        atexit.register(self.s.close)
        self.sc = R.Scen()
        self.n = 0
        self.mem()
        self.s.write('/proc/vmstat', 'nr_free_pages 1\npgpgin 1000\npgpgout 1000\n')

    def mem(self, **kw):
        m = dict(self.MEM, **kw)
        self.s.write('/proc/meminfo', ''.join('%-16s %8d kB\n' % (k + ':', v) for k, v in m.items() if v is not None))

    def conf_text(self, **kw):
        d = dict(cycle=10, minsize=0, autosave=100000)
        d.update(kw)
        g = {'model': '', 'system': ''}
        for k, v in d.items():
            grp = 'model' if k in ('cycle', 'usecorrelation', 'minsize', 'memtotal', 'memfree', 'memcached', 'membuffers') else 'system'
            g[grp] += '%s=%s\n' % (k, str(v).lower() if isinstance(v, bool) else v)
        return '[model]\n%s[system]\n%s' % (g['model'], g['system'])

    def conf(self, **kw):
        self.s.write(R.CONF, self.conf_text(**kw))

    def maps(self, m):
        """m: list of (path, offset, length), or raw text"""
        self.n += 1
        p = '/vp/m%d' % self.n
        if not isinstance(m, (str, bytes)):
            t, a = '', 0x400000
            for path, off, ln in m:
                t += '%08x-%08x r-xp %08x 08:01 77 %s %s\n' % (a, a + ln, off, ' ' * 20, path)
                a += ln + 0x1000
            m = t
        self.s.write(p, m)
        return p

    def files(self, *paths):
        for p in paths:
            self.s.write(p, 'x')

    def start(self, t, pid, exe, maps=None):
        self.sc.at(t, 'proc', pid, exe, self.maps(maps or [(exe, 0, 4096)]))

    def stop(self, t, pid):
        self.sc.at(t, 'rmproc', pid)

    def at(self, t, *a):
        self.sc.at(t, *a)

    def end(self, t):
        self.sc.at(t, 'sig', 15)
        self.sc.at(t + 2000, 'quit')

    def run(self, **kw):
        r = R.run(self.exe, self.s, self.sc, **kw)
        self.sc = R.Scen()
        return r

    def ok(self, r):
        if r.rc != 0 or r.forced or r.hung or r.stuck or r.san:
            fail('the daemon ended with %s: %s' % (r.rc, (r.san or r.log + r.stderr)[-600:]))

    def state(self, path=R.STATE):
        return State(self.s.read(path))


class State:
    def __init__(self, data):
        self.time = None
        self.exes, self.maps, self.exemaps, self.markov, self.vomm = {}, set(), set(), {}, {}
        ex, mp, nodes = {}, {}, {}
        for line in (data or b'').decode('utf-8', 'surrogateescape').splitlines():
            f = line.split('\t')
            if f[0] == 'PRELOAD':
                self.time = int(f[2])
            elif f[0] == 'MAP':
                mp[f[1]] = (un(f[6]), int(f[3]), int(f[4]))
                self.maps.add(mp[f[1]])
            elif f[0] == 'EXE':
                ex[f[1]] = un(f[5])
                self.exes[un(f[5])] = int(f[3])
            elif f[0] == 'EXEMAP':
                self.exemaps.add((ex[f[1]], mp[f[2]]))
            elif f[0] == 'MARKOV':
                w = [int(x) for x in f[8:24]]
                self.markov[(ex[f[1]], ex[f[2]])] = (int(f[3]), [float(x) for x in f[4:8]], [w[i:i + 4] for i in (0, 4, 8, 12)])
            elif f[0] == 'VOMMNODE':
                nodes[f[1]] = nodes.get(f[4], ()) + (ex[f[2]],)
                self.vomm[nodes[f[1]]] = int(f[3])

    def pair(self, a, b):
        """the record of a pair, as seen with a first"""
        if (a, b) in self.markov:
            return self.markov[(a, b)]
        if (b, a) in self.markov:
            t, l, w = self.markov[(b, a)]
            p = [0, 2, 1, 3]
            return t, [l[i] for i in p], [[w[i][j] for j in p] for i in p]
        return None


def un(uri):
    assert uri.startswith('file://')
    return urllib.parse.unquote(uri[7:], errors='surrogateescape')


def reads(r, lo=None, hi=None):
    """the ranges requested, in order"""
    return [(e.a[0], int(e.a[1]), int(e.a[2])) for e in r.trace if e.name in ('readahead',) and (lo is None or lo <= e.t <= hi)]


def bids(r):
    """application -> logged need, of the last prediction"""
    out = {}
    for m in re.finditer(r'Final Bid: (.*) \(lnprob: (\S+)\)$', r.log, re.M):
        out[m.group(1)] = float(m.group(2))
    return out


def fail(msg):
    print('FAIL: ' + msg)
    sys.exit(1)


def expect(what, got, want):
    if got != want:
        fail('%s is %r, expected %r' % (what, got, want))
