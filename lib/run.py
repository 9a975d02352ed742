"""Runs the instrumented daemon on a scenario in a scratch root and parses what was recorded."""
import ctypes, os, re, resource, shutil, signal, subprocess, tempfile, threading, time


def base():
    for d in ('/dev/shm', '/tmp'):
        try:
            v = os.statvfs(d)
        except OSError:
            continue
        if os.access(d, os.W_OK) and v.f_bavail * v.f_frsize > 2 << 30:
            return d
    return tempfile.gettempdir()


BASE = base()


def sweep(pids=()):
    """remove what a run left behind that was ended before it could clean up"""
    for f in os.listdir(BASE):
        m = re.match(r'vp-(\d+)-', f)
        p = os.path.join(BASE, f)
        try:
            if m and int(m.group(1)) in pids or m and time.time() - os.stat(p).st_mtime > 7200 and not os.path.exists('/proc/' + m.group(1)):
                shutil.rmtree(p, ignore_errors=True)
        except OSError:
            pass


_libc = ctypes.CDLL(None)

CONF = '/etc/preload.conf'
STATE = '/var/lib/preload/preload.state'
LOG = '/var/log/preload.log'
SELF = 4242
EPOCH = 1700000000


def enc(b):
    """escape an argument of a scenario command"""
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogateescape')
    if not b:
        return '%e'
    return ''.join(chr(c) if 33 <= c < 127 and c != 37 else '%%%02x' % c for c in b)


def dec(s):
    """unescape a word of the trace; bytes above 127 become surrogates"""
    if '%' not in s:
        return s
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == '%' and s[i + 1:i + 2] == 'e' and i + 2 == len(s) and i == 0:
            return ''
        if s[i] == '%':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out).decode('utf-8', 'surrogateescape')


class Ev:
    __slots__ = ('t', 'pid', 'name', 'a', 'n')

    def __init__(self, t, pid, name, a, n):
        self.t, self.pid, self.name, self.a, self.n = t, pid, name, a, n

    def __repr__(self):
        return '%.3f %d %s %s' % (self.t, self.pid, self.name, ' '.join(self.a))


def parse_trace(path):
    evs = []
    try:
        data = open(path, 'rb').read().decode('latin-1')
    except OSError:
        return evs
    for n, line in enumerate(data.split('\n')):
        w = line.split(' ')
        if len(w) < 3:
            continue
        try:
            evs.append(Ev(int(w[0]) / 1e6 - 1000, int(w[1]), w[2], [dec(x) for x in w[3:]], n))
        except (ValueError, IndexError):
            continue
    return evs


class Scratch:
    """a scratch root, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp-%d-' % os.getpid(), dir=BASE)
        self.root = os.path.join(self.dir, 'r')
        for d in ('proc', 'etc', 'var/lib/preload', 'var/log', 'sys/class/power_supply', 'vp', 'tmp', 'dev'):
            os.makedirs(os.path.join(self.root, d))
        self.runs = 0

    def host(self, p):
        return self.root + p

    def write(self, p, data, mode=0o644):
        h = self.host(p)
        if isinstance(data, str):
            data = data.encode('utf-8', 'surrogateescape')
        os.makedirs(os.path.dirname(h), exist_ok=True)
        with open(h, 'wb') as f:
            f.write(data)
        os.chmod(h, mode)

    def read(self, p):
        try:
            with open(self.host(p), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def clear_proc(self):
        shutil.rmtree(self.host('/proc'), ignore_errors=True)
        os.makedirs(self.host('/proc'))

    def close(self):
        # readable again whatever a run did to modes
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Result:
    pass


class Scen:
    def __init__(self):
        self.lines = []

    def at(self, t, cmd, *args):
        self.lines.append((int(round(t * 1e6)), len(self.lines), '%s %s' % (cmd, ' '.join(enc(str(a) if not isinstance(a, (bytes, str)) else a) for a in args))))

    def group(self, g, cmd, *args):
        self.lines.append((-1, len(self.lines), '@%d %s %s' % (g, cmd, ' '.join(enc(str(a) if not isinstance(a, (bytes, str)) else a) for a in args))))

    def text(self):
        ls = sorted(self.lines, key=lambda l: (l[0], l[1]))
        return '\n'.join(l[2] if l[0] < 0 else '%d %s' % (l[0], l[2]) for l in ls) + '\n'


def run(exe, scratch, scen, args=None, env=None, timeout=60, stdin=None, daemon=False, leak=False, cwd=None, umask=0o022, ignchld=False, during=None, closed=()):
    """args None: -c CONF -s STATE -l LOG -f -V 9"""
    scratch.runs += 1
    n = scratch.runs
    r = Result()
    sp = os.path.join(scratch.dir, 'scen.%d' % n)
    with open(sp, 'w') as f:
        f.write(scen if isinstance(scen, str) else scen.text())
    tp = os.path.join(scratch.dir, 'trace.%d' % n)
    san = os.path.join(scratch.dir, 'san.%d' % n)
    e = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': '/nonexistent', 'DBUS_SESSION_BUS_ADDRESS': 'vp3',
         'VP_ROOT': scratch.root, 'VP_SCEN': sp, 'VP_TRACE': tp, 'VP_PID': str(SELF),
         'ASAN_OPTIONS': 'log_path=%s:exitcode=98:detect_leaks=%d:leak_check_at_exit=0:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1' % (san, 1 if leak else 0),
         'UBSAN_OPTIONS': 'log_path=%s:print_stacktrace=1:exitcode=98' % san,
         'LSAN_OPTIONS': 'log_path=%s:max_leaks=8' % san}
    if leak:
        e['VP_LEAK'] = '1'
    if daemon:
        e['VP_DAEMON'] = '1'
    e.update(env or {})
    if args is None:
        args = ['-c', CONF, '-s', STATE, '-l', LOG, '-f', '-V', '9']
    errp = os.path.join(scratch.dir, 'err.%d' % n)
    outp = os.path.join(scratch.dir, 'out.%d' % n)
    t0 = time.time()

    def pre():
        os.umask(umask)
        _libc.prctl(1, signal.SIGKILL, 0, 0, 0)   # PR_SET_PDEATHSIG
        resource.setrlimit(resource.RLIMIT_CPU, (300, 300))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if ignchld:
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        for fd in closed:
            os.close(fd)
    r.hung = False
    with open(errp, 'wb') as err, open(outp, 'wb') as out:
        p = subprocess.Popen([exe] + list(args), env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=err, cwd=cwd or scratch.dir,
                             start_new_session=True, preexec_fn=pre)
        if during:
            th = threading.Thread(target=during, args=(p, tp))
            th.start()
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.hung = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if during:
            th.join()
    # readahead children (or the daemonized process) may outlive the process started
    if daemon:
        end = time.time() + timeout
        while time.time() < end:
            if group_gone(scratch, tp):
                break
            time.sleep(0.005)
        else:
            r.hung = True
            for pid in daemon_pids(tp) or []:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    r.wall = time.time() - t0
    r.rc = p.returncode
    if os.environ.get('VP_MAXT'): open('/tmp/maxt', 'a').write('%d\n' % os.path.getsize(tp))
    r.trace = parse_trace(tp)
    r.stderr = open(errp, 'rb').read().decode('utf-8', 'surrogateescape')
    r.stdout = open(outp, 'rb').read().decode('utf-8', 'surrogateescape')
    r.san = ''
    for f in sorted(os.listdir(scratch.dir)):
        if f.startswith('san.%d.' % n):
            r.san += open(os.path.join(scratch.dir, f), 'rb').read().decode('utf-8', 'replace')
    r.log = (scratch.read(LOG) or b'').decode('utf-8', 'surrogateescape')
    r.scen = open(sp).read()
    r.args = args
    r.stuck = any(x.name == 'STUCK' for x in r.trace)
    r.forced = any(x.name == 'FORCED_QUIT' for x in r.trace)
    for f in (tp, sp, errp, outp):
        try:
            os.unlink(f)
        except OSError:
            pass
    return r


def daemon_pids(tp):
    """the daemonized processes named in the trace; None when none was named yet"""
    try:
        data = open(tp, 'rb').read().decode('latin-1')
    except OSError:
        return None
    pids = [int(x) for x in re.findall(r'^\d+ \d+ DAEMON (\d+)$', data, re.M)]
    if not pids and re.search(r'^\d+ \d+ DPARENT', data, re.M):
        return None
    return pids


def group_gone(scratch, tp):
    """whether the daemonized process named in the trace has ended"""
    pids = daemon_pids(tp)
    if pids is None:
        return False
    for pid in pids:
        try:
            st = open('/proc/%s/stat' % pid).read()
            if st.rsplit(')', 1)[1].split()[0] not in 'ZX':
                return False
        except OSError:
            pass
    return True
