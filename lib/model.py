"""Independent reference model of the daemon's documented behaviour, and parsing and
comparison of state files."""
from zlib import crc32
import math, os, re, urllib.parse

FILELEN = 512

DEFAULTS = dict(cycle=20, usecorrelation=True, minsize=2000000, memtotal=-10, memfree=50, memcached=0, membuffers=50,
                doscan=True, dopredict=True, autosave=3600, mapprefix=None, exeprefix=None,
                prediction_algorithm='VOMM', maxprocs=30, sortstrategy=3)
MODEL_KEYS = ('cycle', 'usecorrelation', 'minsize', 'memtotal', 'memfree', 'memcached', 'membuffers')
SYSTEM_KEYS = ('doscan', 'dopredict', 'autosave', 'mapprefix', 'exeprefix', 'prediction_algorithm', 'maxprocs', 'sortstrategy')


class Conf:
    def __init__(self, **kw):
        self.given = dict(kw)
        for k, v in DEFAULTS.items():
            setattr(self, k, kw.get(k, v))

    @property
    def vomm(self):
        return self.prediction_algorithm is not None and 'VOMM' in self.prediction_algorithm

    def text(self, processes_key=False):
        def val(v):
            if v is True or v is False:
                return 'true' if v else 'false'
            if isinstance(v, (list, tuple)):
                return ''.join(x.replace('\\', '\\\\').replace(';', '\\;').replace(' ', '\\s') + ';' for x in v)
            return str(v)
        out = []
        for grp, keys in (('model', MODEL_KEYS), ('system', SYSTEM_KEYS)):
            out.append('[%s]' % grp)
            for k in keys:
                if k in self.given and self.given[k] is not None:
                    name = 'processes' if processes_key and k == 'maxprocs' else k
                    out.append('%s=%s' % (name, val(self.given[k])))
        return '\n'.join(out) + '\n'


# ---------------------------------------------------------------- state files

class BadState(Exception):
    pass


def uri_to_path(u):
    if not u.startswith('file:///'):
        raise BadState('uri %r' % u)
    return urllib.parse.unquote_to_bytes(u[7:]).decode('utf-8', 'surrogateescape')


def path_to_uri(p):
    return 'file://' + urllib.parse.quote_from_bytes(p.encode('utf-8', 'surrogateescape'), safe="/!$&'()*+,:=@~-._")


class State:
    """contents of a state file"""

    def __init__(self):
        self.time = 0
        self.exes = {}      # path -> (update_time, time)
        self.maps = {}      # (path, offset, length) -> update_time
        self.exemaps = {}   # path -> list of (mapkey, prob)
        self.markovs = {}   # (a, b), a < b -> list of (time, ttl[4], weight[4][4])
        self.vomm = {}      # path -> [count, children]
        self.badexes = {}
        self.dups = []      # duplicates, which a well-formed file has not
        self.raw_bad = []

    @staticmethod
    def parse(data):
        """parse a file the daemon wrote; everything in it must be well-formed"""
        if data is None:
            raise BadState('no file')
        s = State()
        text = data.decode('utf-8', 'surrogateescape')
        lines = text.split('\n')
        if lines[-1] != '':
            raise BadState('last line incomplete: %r' % lines[-1][:80])
        lines.pop()
        if not lines:
            raise BadState('empty')
        h = lines[0].split('\t')
        if len(h) != 3 or h[0] != 'PRELOAD':
            raise BadState('header %r' % lines[0][:80])
        s.time = int(h[2])
        maps, exes, nodes = {}, {}, {0: s.vomm}
        for ln in lines[1:]:
            w = ln.split('\t')
            try:
                if w[0] == 'MAP':
                    key = (uri_to_path(w[6]), int(w[3]), int(w[4]))
                    if int(w[1]) in maps or key in s.maps:
                        s.dups.append(ln)
                    maps[int(w[1])] = key
                    s.maps[key] = int(w[2])
                    n = 7
                elif w[0] == 'BADEXE':
                    s.badexes[uri_to_path(w[3])] = int(w[1])
                    n = 4
                elif w[0] == 'EXE':
                    p = uri_to_path(w[5])
                    if int(w[1]) in exes or p in s.exes:
                        s.dups.append(ln)
                    exes[int(w[1])] = p
                    s.exes[p] = (int(w[2]), int(w[3]))
                    s.exemaps.setdefault(p, [])
                    n = 6
                elif w[0] == 'EXEMAP':
                    s.exemaps[exes[int(w[1])]].append((maps[int(w[2])], float(w[3])))
                    n = 4
                elif w[0] == 'MARKOV':
                    a, b = exes[int(w[1])], exes[int(w[2])]
                    ttl = [float(x) for x in w[4:8]]
                    wt = [[int(w[8 + 4 * i + j]) for j in range(4)] for i in range(4)]
                    if a == b:
                        raise BadState('chain of an exe with itself: ' + ln[:200])
                    k, ttl, wt = canon(a, b, ttl, wt)
                    s.markovs.setdefault(k, []).append((int(w[3]), ttl, wt))
                    n = 24
                elif w[0] == 'VOMMNODE':
                    par = nodes[int(w[4])]
                    p = exes[int(w[2])]
                    if p in par or int(w[1]) in nodes:
                        s.dups.append(ln)
                    node = [int(w[3]), {}]
                    par[p] = node
                    nodes[int(w[1])] = node[1]
                    n = 5
                else:
                    raise BadState('tag %r' % ln[:80])
                if len(w) != n:
                    raise BadState('fields: %r' % ln[:200])
            except (IndexError, ValueError, KeyError) as e:
                raise BadState('%s: %r' % (e.__class__.__name__, ln[:200]))
        return s


SW = [0, 2, 1, 3]


def canon(a, b, ttl, wt):
    if a <= b:
        return (a, b), ttl, wt
    return (b, a), [ttl[SW[i]] for i in range(4)], [[wt[SW[i]][SW[j]] for j in range(4)] for i in range(4)]


def close(x, y, rel=2e-5):
    return x == y or abs(x - y) <= rel * max(abs(x), abs(y), 1e-6)


def tree_diff(a, b, path=''):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return 'unexpected node %s > %s (count %d)' % (path, k, b[k][0])
        if k not in b:
            return 'missing node %s > %s (count %d)' % (path, k, a[k][0])
        if a[k][0] != b[k][0]:
            return 'node %s > %s has count %d, expected %d' % (path, k, b[k][0], a[k][0])
        d = tree_diff(a[k][1], b[k][1], path + ' > ' + k)
        if d:
            return d
    return None


ALL = ('wellformed', 'clock', 'exes', 'maps', 'exemaps', 'meta', 'exetime', 'pairs', 'pairtime', 'trans', 'vomm')


def diff(exp, got, what=ALL):
    """list of (category, text): how State got differs from State exp"""
    out = []

    def add(c, t):
        if c in what:
            out.append((c, t))
    if got.dups:
        add('wellformed', 'duplicate entry %r' % got.dups[0][:200])
    if exp.time != got.time:
        add('clock', 'model clock is %d, expected %d' % (got.time, exp.time))
    for p in exp.exes:
        if p not in got.exes:
            add('exes', 'application %r is missing' % p)
    for p in got.exes:
        if p not in exp.exes:
            add('exes', 'application %r should not be there' % p)
    for m in exp.maps:
        if m not in got.maps:
            add('maps', 'map %r is missing' % (m,))
        elif exp.maps[m] != got.maps[m]:
            add('meta', 'map %r has update time %d, expected %d' % (m, got.maps[m], exp.maps[m]))
    for m in got.maps:
        if m not in exp.maps:
            add('maps', 'map %r should not be there' % (m,))
    for p in exp.exes:
        if p not in got.exes:
            continue
        if exp.exes[p][0] != got.exes[p][0]:
            add('meta', 'application %r has update time %d, expected %d' % (p, got.exes[p][0], exp.exes[p][0]))
        if exp.exes[p][1] != got.exes[p][1]:
            add('exetime', 'application %r has running time %d, expected %d' % (p, got.exes[p][1], exp.exes[p][1]))
        a, b = sorted(exp.exemaps.get(p, [])), sorted(got.exemaps.get(p, []))
        if [x[0] for x in a] != [x[0] for x in b]:
            add('exemaps', 'application %r maps %r, expected %r' % (p, [x[0] for x in b][:6], [x[0] for x in a][:6]))
        elif any(not close(x[1], y[1]) for x, y in zip(a, b)):
            add('meta', 'map probabilities of %r differ' % p)
    for k in exp.markovs:
        if k not in got.markovs:
            add('pairs', 'pair %r has no statistics' % (k,))
            continue
        a, b = sorted(exp.markovs[k]), sorted(got.markovs[k])
        if len(a) != len(b):
            add('pairs', 'pair %r has %d records, expected %d' % (k, len(b), len(a)))
            continue
        for x, y in zip(a, b):
            if x[0] != y[0]:
                add('pairtime', 'pair %r ran together for %d, expected %d' % (k, y[0], x[0]))
            if x[2] != y[2]:
                add('trans', 'pair %r has transition counts %r, expected %r' % (k, y[2], x[2]))
            elif any(not close(u, v) for u, v in zip(x[1], y[1])):
                add('trans', 'pair %r has mean times to leave %r, expected %r' % (k, y[1], x[1]))
    for k in got.markovs:
        if k not in exp.markovs:
            add('pairs', 'pair %r should have no statistics' % (k,))
    d = tree_diff(exp.vomm, got.vomm)
    if d:
        add('vomm', 'sequence tree: ' + d)
    return out


# ---------------------------------------------------------------- reference model

def sanitize(path):
    """name as tracked, or None"""
    if not path.startswith('/'):
        return None
    i = path.find('.#prelink#.')
    if i >= 0:
        return path[:i]
    if '(deleted)' in path:
        return None
    return path


def accept(path, prefixes):
    for p in prefixes or ():
        if p.startswith('!'):
            if path.startswith(p[1:]):
                return False
        elif path.startswith(p):
            return True
    return True


def blen(s):
    return len(s.encode('utf-8', 'surrogateescape'))


# as the kernel writes them: devices have up to three digits before and five after the colon
PERMS = ('r-xp', 'rw-p', 'r--p', 'rw-s', '---p', 'r--s', 'rwxp', '--xp', '-w-p')
DEVS = ('08:01', '103:02', '00:1f', 'fd:00', '00:100a3', '08:01')


class App:
    """an application: the target of /proc/PID/exe and the mappings (shown path, offset, length)"""

    def __init__(self, exe, maps):
        self.exe, self.maps = exe, list(maps)

    def path(self, conf):
        if not 0 < blen(self.exe) < FILELEN:
            return None
        p = sanitize(self.exe)
        return p if p is not None and accept(p, conf.exeprefix) else None

    def ranges(self, conf):
        out = []
        for shown, off, ln in self.maps:
            if blen(shown) >= FILELEN:
                continue
            p = sanitize(shown)
            if p is not None and accept(p, conf.mapprefix):
                out.append((p, off, ln))
        return out

    def maps_text(self):
        out, addr = [], 0x400000
        for i, (shown, off, ln) in enumerate(self.maps):
            h = crc32(('%d %s' % (i, shown)).encode('utf-8', 'surrogatepass'))
            perm = PERMS[h % len(PERMS)]
            dev = DEVS[(h >> 8) % len(DEVS)]
            ino = (1000 + i, 1 << 33, (1 << 64) - 3, 5)[(h >> 16) % 4]
            s = '%08x-%08x %s %08x %s %d' % (addr, addr + ln, perm, off, dev, ino)
            if shown:
                s = s.ljust(73 if i % 2 else 50) + (' ' if len(s) >= 73 else '') + shown
            out.append(s + '\n')
            addr += ln + 0x10000
        return ''.join(out)


class Exe:
    def __init__(self, path):
        self.path = path
        self.time = 0
        self.update_time = -1
        self.change = -1
        self.running_ts = -1
        self.maps = []      # (mapkey, prob)
        self.ln = 0.0


class Markov:
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.time = 0
        self.ttl = [0.0] * 4
        self.w = [[0] * 4 for _ in range(4)]
        self.state = 0
        self.change = 0


class Node:
    def __init__(self, path, parent):
        self.path, self.parent = path, parent
        self.count = 0
        self.ch = {}

    def depth(self):
        n, d = self, 0
        while n.parent:
            n, d = n.parent, d + 1
        return d


MAXDEPTH = 5


class Model:
    def __init__(self):
        self.time = 0
        self.last_running = 0
        self.last_acct = 0
        self.exes = {}
        self.maps = {}       # key -> update_time
        self.markovs = {}    # frozenset -> list
        self.bad = {}
        self.root = None
        self.ctx = None
        self.hist = []
        self.changed = []
        self.new = {}
        self.dirty = False
        self.model_dirty = False
        self.double_new = False   # several new applications in one update: their order is open

    # -- files

    @staticmethod
    def from_state(s):
        m = Model()
        if s is None:
            return m
        m.time = m.last_acct = s.time
        used = {k for l in s.exemaps.values() for k, _ in l}
        m.maps = {k: v for k, v in s.maps.items() if k in used}
        for p, (ut, t) in s.exes.items():
            e = Exe(p)
            e.update_time, e.time = ut, t
            e.maps = list(s.exemaps.get(p, []))
            m.exes[p] = e
        for (a, b), lst in s.markovs.items():
            for t, ttl, w in lst:
                k = Markov(m.exes[a], m.exes[b])
                k.time, k.ttl, k.w = t, list(ttl), [list(r) for r in w]
                k.change = s.time
                m.markovs.setdefault(frozenset((a, b)), []).append(k)
        if s.vomm:
            m.root = Node(None, None)
            m.ctx = m.root

            def imp(par, d, depth=1):
                if depth > MAXDEPTH:   # what is deeper, as older versions left it, is skipped
                    return
                for p, (c, sub) in d.items():
                    n = Node(p, par)
                    n.count = c
                    par.ch[p] = n
                    imp(n, sub, depth + 1)
            imp(m.root, s.vomm)
        return m

    def to_state(self):
        s = State()
        s.time = self.time
        used = set()
        for p, e in self.exes.items():
            s.exes[p] = (e.update_time, e.time)
            s.exemaps[p] = list(e.maps)
            used.update(k for k, _ in e.maps)
        s.maps = {k: v for k, v in self.maps.items() if k in used}
        for lst in self.markovs.values():
            for k in lst:
                key, ttl, w = canon(k.a.path, k.b.path, list(k.ttl), [list(r) for r in k.w])
                s.markovs.setdefault(key, []).append((k.time, ttl, w))

        def exp(n):
            return {p: [c.count, exp(c)] for p, c in n.ch.items()}
        if self.root:
            s.vomm = exp(self.root)
        s.badexes = dict(self.bad)
        return s

    # -- running

    def running(self, e):
        return e.running_ts >= self.last_running

    def compute(self, k):
        return (1 if self.running(k.a) else 0) + (2 if self.running(k.b) else 0)

    def all_markovs(self):
        for lst in self.markovs.values():
            yield from lst

    def startup(self, paths, conf):
        """paths: of the running processes, in order"""
        for p in paths:
            e = self.exes.get(p)
            if e and not self.running(e):
                e.running_ts = self.time
                if conf.vomm:
                    self.vomm_update(p)
        self.last_running = self.time
        for k in self.all_markovs():
            k.state = self.compute(k)
        if conf.vomm:
            self.vomm_start()

    def scan(self, procs, conf):
        """procs: (pid, App) in order of pid"""
        before = [e for e in self.exes.values() if self.running(e)]
        self.changed, self.new = [], {}
        for pid, app in procs:
            p = app.path(conf)
            if p is None:
                continue
            e = self.exes.get(p)
            if e:
                if not self.running(e):
                    self.changed.append(e)
                    if conf.vomm:
                        self.vomm_update(p)
                e.running_ts = self.time
            elif p not in self.bad:
                self.new[p] = (pid, app)
        self.last_running = self.time
        for e in before:
            if not self.running(e):
                self.changed.append(e)
        self.dirty = self.model_dirty = True

    def update(self, alive, conf):
        """alive: pid -> App now"""
        for e in self.changed:
            e.change = self.time
            for k in list(self.all_markovs()):
                if k.a is e or k.b is e:
                    self.state_changed(k)
        self.changed = []
        n = 0
        for p, (pid, _) in self.new.items():
            app = alive.get(pid)
            if app is None:
                continue
            r = app.ranges(conf)
            size = sum(x[2] for x in r)
            if not size:
                continue
            if size < conf.minsize:
                self.bad[p] = size
                continue
            n += 1
            e = Exe(p)
            e.change = self.time
            e.update_time = e.running_ts = self.last_running
            for key in r:
                self.maps.setdefault(key, self.time)
                e.maps.append((key, 1.0))
            for o in list(self.exes.values()):
                self.new_markov(o, e)
            self.exes[p] = e
            if conf.vomm:
                self.vomm_update(p)
        if n > 1:
            self.double_new = True
        self.new = {}
        period = self.time - self.last_acct
        for e in self.exes.values():
            if self.running(e):
                e.time += period
        for k in self.all_markovs():
            if k.state == 3:
                k.time += period
        self.last_acct = self.time
        self.model_dirty = False

    def new_markov(self, a, b):
        k = Markov(a, b)
        k.state = self.compute(k)
        k.change = self.time
        if a.change > 0 and b.change > 0:
            if a.change < self.time:
                k.change = a.change
            if b.change < self.time and b.change > k.change:
                k.change = b.change
            if a.change > k.change:
                k.state ^= 1
            if b.change > k.change:
                k.state ^= 2
        self.state_changed(k)
        self.markovs.setdefault(frozenset((a.path, b.path)), []).append(k)

    def state_changed(self, k):
        if k.change == self.time:
            return
        old, new = k.state, self.compute(k)
        if old == new:
            return
        k.w[old][old] += 1
        k.ttl[old] += ((self.time - k.change) - k.ttl[old]) / k.w[old][old]
        k.w[old][new] += 1
        k.state = new
        k.change = self.time

    def cleanup(self, gone):
        """gone(path): the file no longer exists or is no regular file"""
        dropped = []
        for p in list(self.exes):
            e = self.exes[p]
            if self.running(e) or not (gone(p) or not p.startswith('/')):
                continue
            dropped.append(p)
            del self.exes[p]
            for f in [f for f in self.markovs if p in f]:
                del self.markovs[f]
            self.changed = [x for x in self.changed if x is not e]
            if self.root:
                self.hist = [h for h in self.hist if h != p]
                n = self.ctx
                while n:
                    if n.path == p:
                        self.ctx = self.root
                        break
                    n = n.parent

                def prune(n):
                    n.ch.pop(p, None)
                    for c in n.ch.values():
                        prune(c)
                prune(self.root)
        used = {k for e in self.exes.values() for k, _ in e.maps}
        self.maps = {k: v for k, v in self.maps.items() if k in used}
        self.bad = {}
        return dropped

    # -- VOMM

    def vomm_start(self):
        if self.root and self.root.ch:
            return
        if not self.root:
            self.root = Node(None, None)
            self.ctx = self.root
            self.hist = []

        def add(a, b, n):
            if n > 0:
                x = self.root.ch.setdefault(a, Node(a, self.root))
                y = x.ch.setdefault(b, Node(b, x))
                y.count += n
        for k in self.all_markovs():
            add(k.a.path, k.b.path, k.w[1][3])
            add(k.b.path, k.a.path, k.w[2][3])

    def vomm_update(self, p):
        if not self.root:
            return
        self.hist.append(p)
        self.hist = self.hist[-MAXDEPTH:]
        if self.ctx is None or self.ctx.depth() >= MAXDEPTH:
            self.ctx = self.root
        n = self.ctx.ch.get(p)
        if not n:
            n = self.ctx.ch[p] = Node(p, self.ctx)
        n.count += 1
        self.ctx = n
        if len(self.hist) >= 2:
            q = self.hist[-2]
            x = self.root.ch.get(q)
            if not x:
                x = self.root.ch[q] = Node(q, self.root)
            y = x.ch.get(p)
            if not y:
                y = x.ch[p] = Node(p, x)
            y.count += 1

    # -- prediction

    def need(self, conf):
        """map key -> log of the probability that it is not needed"""
        for e in self.exes.values():
            e.ln = 0.0
        if conf.vomm:
            self.vomm_bids()
        else:
            self.markov_bids(conf)
        out = {}
        for e in self.exes.values():
            for key, _ in e.maps:
                out[key] = out.get(key, 0.0) + (1.0 if self.running(e) else e.ln)
        return out

    def corr(self, k):
        t, a, b, ab = self.time, k.a.time, k.b.time, k.time
        if a in (0, t) or b in (0, t):
            return 0.0
        d = float(a) * b * (float(t) - a) * (float(t) - b)
        if d <= 0:
            return 0.0
        c = (float(t) * ab - float(a) * b) / math.sqrt(d)
        return abs(c) if abs(c) <= 1.00001 else 0.0

    def markov_bids(self, conf):
        for k in self.all_markovs():
            s = k.state
            if not k.w[s][s]:
                continue
            c = self.corr(k) if conf.usecorrelation else 1.0
            if not k.ttl[s] > 1:
                continue
            change = 1 - math.exp(-conf.cycle * 1.5 / k.ttl[s])
            for bit, e, ys in ((1, k.a, 1), (2, k.b, 2)):
                if s & bit:
                    continue
                runs = (k.w[s][ys] + k.w[s][3]) / (k.w[s][s] + 0.01)
                p = c * change * runs
                if p >= 1:
                    e.ln = -math.inf
                else:
                    e.ln += math.log(1 - p)

    def vomm_bids(self):
        if not self.root:
            return

        def ppm(n):
            tot = sum(c.count for c in n.ch.values())
            if not tot:
                return
            for c in n.ch.values():
                e = self.exes[c.path]
                if not self.running(e):
                    e.ln += math.log(1 - min(0.99, max(0.0, c.count / tot)))
        for h in self.hist:
            n = self.root.ch.get(h)
            if n and n.ch:
                ppm(n)
        if self.ctx is not None and self.ctx is not self.root and self.ctx.ch:
            ppm(self.ctx)
            for c in self.ctx.ch.values():
                e = self.exes[c.path]
                if not self.running(e) and c.count > 0:
                    e.ln += math.log(0.9)
        tot = sum(c.count for x in self.root.ch.values() for c in x.ch.values())
        if tot:
            for x in self.root.ch.values():
                for c in x.ch.values():
                    e = self.exes[c.path]
                    if not self.running(e) and c.count > 0:
                        e.ln += math.log(1 - min(0.5, 0.1 + 0.4 * c.count / tot))


def kb(n):
    return n // 1024 + (1 if n % 1024 else 0)


def tdiv(a, b):
    q = abs(a) // b
    return q if a >= 0 else -q


def budget(mem, conf):
    """mem: values of MemTotal, MemFree, MemAvailable, Buffers, Cached in kB (missing: absent)"""
    g = lambda k: mem.get(k) or 0
    cl = lambda v: max(-100, min(100, v))
    av = g('MemAvailable')
    if not av and g('MemFree'):
        av = g('MemFree') + tdiv(g('Cached') * 80, 100) + tdiv(g('Buffers') * 75, 100)
    base = cl(conf.memtotal) * tdiv(g('MemTotal'), 100) + cl(conf.memfree) * tdiv(av if av > 0 else g('MemFree'), 100)
    return max(0, base) + cl(conf.memcached) * tdiv(g('Cached'), 100) + cl(conf.membuffers) * tdiv(g('Buffers'), 100)


EPS = 1e-9


def judge_selection(need, avail, chosen):
    """chosen: set of map keys that were prefetched.  None, or what is wrong: chosen must be a
    leading part of the maps by need, extended as far as the budget allows."""
    for k in chosen:
        if k not in need:
            return 'prefetches %r, which is not in the model' % (k,)
        if not need[k] < 0:
            return 'prefetches %r, which is not predicted to be needed (%.6g)' % (k, need[k])
    used = sum(kb(k[2]) for k in chosen)
    if chosen and used > max(avail, 0):
        return 'prefetches %d kB with a budget of %d kB' % (used, avail)
    rest = {k: v for k, v in need.items() if k not in chosen and v < 0}
    if chosen and rest:
        worst = max(need[k] for k in chosen)
        best = min(rest.values())
        if best < worst - EPS * (1 + abs(worst)):
            b = min(rest, key=rest.get)
            w = max(chosen, key=lambda k: need[k])
            return 'prefetches %r (%.6g) but not %r (%.6g), which is more needed' % (w, need[w], b, need[b])
    rest = {k: v for k, v in rest.items() if v < -1e-12}
    if rest:
        best = min(rest.values())
        cand = [k for k, v in rest.items() if v <= best + EPS * (1 + abs(best))]
        if all(kb(k[2]) <= avail - used for k in cand):
            return 'does not prefetch %r (%.6g), though it is next and fits (%d of %d kB used)' % (cand[0], best, used, avail)
    return None


def judge_missing(need, avail, chosen, missing):
    """like judge_selection, when some maps are of files that cannot be opened: those leave no trace,
    but take their part of the budget"""
    ks = sorted((k for k in need if need[k] < 0), key=lambda k: need[k])
    n, left = 0, avail
    while n < len(ks) and need[ks[n]] < -1e-12 and kb(ks[n][2]) <= left:
        left -= kb(ks[n][2])
        n += 1
    if 0 < n < len(ks) and need[ks[n]] - need[ks[n - 1]] <= 2 * EPS * (1 + abs(need[ks[n]])) or n < len(ks) and not need[ks[n]] < -1e-12:
        return None   # a tie at the end
    if n == 0 and len(ks) > 1 and need[ks[1]] - need[ks[0]] <= 2 * EPS * (1 + abs(need[ks[0]])):
        return None
    exp = {k for k in ks[:n] if k not in missing}
    if exp != chosen:
        a, b = sorted(chosen - exp), sorted(exp - chosen)
        return 'prefetches %r though not among the first that fit' % (a[0],) if a else 'does not prefetch %r, which is among the first that fit' % (b[0],)
    return None


def judge_order(need, seq):
    for x, y in zip(seq, seq[1:]):
        if need[x] > need[y] + EPS * (1 + abs(need[y])) and not (need[x] == -math.inf):
            return '%r (%.6g) is requested before %r (%.6g)' % (x, need[x], y, need[y])
    return None


def coverage(ranges):
    """path -> sorted disjoint list of [start, end) of (path, off, len)s"""
    out = {}
    for p, o, l in ranges:
        if l > 0:
            out.setdefault(p, []).append((o, o + l))
    for p in out:
        m = []
        for s, e in sorted(out[p]):
            if m and s <= m[-1][1]:
                m[-1][1] = max(m[-1][1], e)
            else:
                m.append([s, e])
        out[p] = [tuple(x) for x in m]
    return out


def merged(seq):
    """requests for maps in the given order, adjacent ones of a file joined"""
    out = []
    for p, o, l in seq:
        if out and out[-1][0] == p and out[-1][1] <= o <= out[-1][1] + out[-1][2]:
            out[-1][2] = max(out[-1][2], o + l - out[-1][1])
        else:
            out.append([p, o, l])
    return [tuple(x) for x in out]
