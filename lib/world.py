"""Scenario building in lockstep with the reference model, and extraction of what a run did."""
import calendar, os, random, re, time
import run as R
import model as M

SNAP = '/vp/snap%d'


class World:
    """what is outside of the daemon: processes, files, memory, power; kept across restarts"""

    def __init__(self, scratch, rng):
        self.s, self.rng = scratch, rng
        self.procs = {}       # pid -> App
        self.files = {}       # path -> 'file' | 'dir' | 'gone'
        self.mem = {'MemTotal': 8000000, 'MemFree': 4000000, 'MemAvailable': 6000000, 'Buffers': 100000, 'Cached': 1000000}
        self.battery = None
        self.nmaps = 0
        self.nsnap = 0
        self.mapfile = {}
        scratch.write('/proc/meminfo', self.mem_text())
        scratch.write('/proc/vmstat', 'nr_free_pages 1\npgpgin 1000\npgpgout 1000\n')

    def mem_text(self):
        return ''.join('%-16s %8d kB\n' % (k + ':', v) for k, v in self.mem.items() if v is not None)

    def maps_of(self, app):
        """host file with the mappings of an application"""
        if id(app) not in self.mapfile:
            self.nmaps += 1
            p = '/vp/maps%d' % self.nmaps
            self.s.write(p, app.maps_text())
            self.mapfile[id(app)] = (p, app)
        return self.mapfile[id(app)][0]

    def mkfile(self, path, data=b'x'):
        self.s.write(path, data)
        self.files[path] = 'file'

    def mklink(self, path, data=b'x'):
        """a symbolic link to a file beside it"""
        t = path + '~real'
        self.s.write(t, data)
        os.symlink(os.path.basename(t), self.s.host(path))
        self.files[path] = 'file'

    def gone(self, path):
        st = self.files.get(path, 'gone')
        return st in ('gone', 'dir')

    def proclist(self):
        return sorted(self.procs.items())


class Seg:
    """one run of the daemon: from its start to its end"""

    def __init__(self, world, conf, statefile=True, model=None):
        self.w, self.conf = world, conf
        self.m = model or M.Model()
        self.sc = R.Scen()
        self.t = 0.0
        self.obs = []
        self.timers = []
        self.statefile = statefile
        self.ended = None
        self.ambiguous = False
        self.started = False
        world.s.write(R.CONF, conf.text())
        self.fail_stat = set()   # paths that cannot be examined

    # -- before the start: actions at time 0 change the world

    def start(self):
        assert not self.started
        self.started = True
        paths = [p for p in (a.path(self.conf) for _, a in self.w.proclist()) if p is not None]
        self.m.startup(paths, self.conf)
        self.timers = [(0, 0.0, 'tick')]
        if self.statefile:
            self.timers.append((self.conf.autosave, self.conf.autosave + .5, 'autosave'))
        return self

    def at(self, cmd, *args):
        self.sc.at(self.t if self.started else 0, cmd, *args)

    # -- time

    def next_timer(self):
        return min(x[1] for x in self.timers) if self.timers else None

    def goto(self, t):
        """go to the first time >= t that is clear of all timers"""
        assert self.started and not self.ended
        t = max(t, self.t + 0.05, 0.5)
        while True:
            self.timers.sort()
            nom, eff, kind = self.timers[0]
            gap = 0.4 if nom == 0 else 0.9
            if eff <= t - gap:
                for o in self.timers[1:]:
                    if abs(o[1] - eff) < 1.3:
                        self.ambiguous = True
                self.timers.pop(0)
                self.fire(nom, kind)
            elif eff < t + 0.9:
                t += 0.5
            else:
                break
        self.t = round(t, 3)
        return self

    def wait(self, dt):
        return self.goto(self.t + dt)

    def run_cycles(self, n, slack=None):
        """until n more ticks have been made, and a little after"""
        k = sum(1 for o in self.obs if o[0] in ('tick',))
        while sum(1 for o in self.obs if o[0] == 'tick') < k + n:
            self.goto(self.next_timer() + 1.0)
        if slack:
            self.wait(slack)
        return self

    def to_update(self):
        """until the next model update (or tick2) has been made"""
        k = sum(1 for o in self.obs if o[0] == 'tick2')
        while sum(1 for o in self.obs if o[0] == 'tick2') == k:
            self.goto(self.next_timer() + 1.0)
        return self

    def fire(self, nom, kind):
        c = self.conf
        if kind == 'tick':
            self.obs.append(('tick', nom, None))
            if self.w.battery and any((b or '').strip() == 'Discharging' for b in self.w.battery.values()):
                self.m.time += c.cycle
                self.timers.append((nom + 2 * c.cycle, nom + 2 * c.cycle + .5, 'tick2'))
                return
            if c.doscan:
                self.m.scan(self.w.proclist(), c)
                self.obs.append(('scan', nom, None))
            if c.dopredict:
                need = self.m.need(c)
                lns = {e.path: e.ln for e in self.m.exes.values() if not self.m.running(e)}
                if c.vomm and self.m.double_new:
                    need = None
                self.obs.append(('predict', nom, (need, M.budget(self.w.mem, c), c, self.m.time, lns, {k for k in need or () if self.w.files.get(k[0], 'gone') in ('gone', 'loop')})))
            self.m.time += c.cycle // 2
            self.timers.append((nom + c.cycle // 2, nom + c.cycle // 2 + .5, 'tick2'))
        elif kind == 'tick2':
            self.obs.append(('tick2', nom, self.m.model_dirty))
            if self.m.model_dirty:
                self.m.update(self.w.procs, c)
            self.m.time += (c.cycle + 1) // 2
            self.timers.append((nom + (c.cycle + 1) // 2, nom + (c.cycle + 1) // 2 + .5, 'tick'))
        elif kind == 'autosave':
            self.save('autosave', nom)
            self.timers.append((nom + c.autosave, nom + c.autosave + .5, 'autosave'))

    def save(self, how, nom):
        st = None
        full = self.m.to_state()
        full.vomm_open = self.m.double_new
        if self.m.dirty and self.statefile:
            st = full
            self.m.dirty = False
        self.w.nsnap += 1
        snap = SNAP % self.w.nsnap
        if how == 'exit':
            snap = None
        else:
            self.sc.at(nom + 1.4 if how == 'autosave' else nom + 0.02, 'snap', R.STATE, snap)
        dropped = self.m.cleanup(lambda p: self.w.gone(p) and p not in self.fail_stat)
        self.obs.append(('save', nom, (how, st, snap, dropped, full)))

    # -- actions

    def launch(self, pid, app):
        self.at('proc', pid, app.exe, self.w.maps_of(app))
        self.w.procs[pid] = app

    def kill(self, pid):
        self.at('rmproc', pid)
        del self.w.procs[pid]

    def setmem(self, **kw):
        self.w.mem.update(kw)
        self.at('put', '/proc/meminfo', '644', self.w.mem_text())

    def rm(self, path):
        self.at('rm', path)
        self.w.files[path] = 'gone'

    def touch(self, path):
        self.at('rm', path)
        self.at('put', path, '644', 'x')
        self.w.files[path] = 'file'

    def todir(self, path):
        self.at('rm', path)
        self.at('mkdir', path)
        self.w.files[path] = 'dir'

    def setbat(self, status):
        """status: dict BATn -> status (None: one that cannot be read), or None"""
        for b, v in (self.w.battery or {}).items():
            if not status or b not in status or v is None or status[b] is None:
                self.at('rm', '/sys/class/power_supply/%s/status' % b)
        for b, v in (status or {}).items():
            self.at('mkdir', '/sys/class/power_supply/' + b)
            if v is None:   # cannot be read
                self.at('mkdir', '/sys/class/power_supply/%s/status' % b)
            else:
                self.at('put', '/sys/class/power_supply/%s/status' % b, '644', v and v + '\n')
        self.w.battery = dict(status) if status else None

    def usr2(self):
        self.at('sig', 12)
        self.save('usr2', self.t)

    def usr1(self):
        self.at('sig', 10)

    def hup(self, conf):
        self.at('put', R.CONF, '644', conf.text())
        self.at('sig', 1)
        self.conf = conf
        if conf.vomm:
            self.m.vomm_start()

    def term(self, sig=15):
        self.at('sig', sig)
        self.save('exit', self.t)
        self.ended = 'term'
        self.sc.at(self.t + 2000, 'quit')

    def crash(self):
        """killed without saving"""
        self.at('quit')
        self.ended = 'crash'

    # -- run and compare

    def execute(self, exe, **kw):
        self.w.s.write(R.LOG, b'', 0o600)
        self.before = self.w.s.read(R.STATE)
        self.r = R.run(exe, self.w.s, self.sc, **kw)
        self.o = Observed(self.r)
        return self.r

    def basic(self):
        """problems that make every comparison pointless"""
        r = self.r
        if r.hung:
            return 'the daemon hangs'
        if r.san:
            return 'sanitizer report: ' + first_report(r.san)
        if r.stuck:
            return 'the daemon sleeps for ever'
        if self.ended == 'term' and (r.rc != 0 or r.forced):
            return 'the daemon ended with status %s%s' % (r.rc, ', not having ended on its own' if r.forced else '') + tail(r)
        if self.ended == 'crash' and r.rc != 77:
            return 'the daemon ended early with status %s' % r.rc + tail(r)
        return None

    def saves(self):
        """(nominal time, how, expected State or None, bytes of the file afterwards) for each save"""
        out = []
        for o in self.obs:
            if o[0] == 'save':
                how, st, snap, dropped, full = o[2]
                out.append((o[1], how, st, self.w.s.read(snap or R.STATE), dropped, full))
        return out

    def compare_saves(self, what):
        """list of (category, text)"""
        out = []
        prev = self.before
        for nom, how, st, data, _, full in self.saves():
            if st is None:
                # nothing to save: if it is written all the same, it must be right all the same
                if data == prev:
                    continue
                st = full
            prev = data
            try:
                got = M.State.parse(data)
            except M.BadState as e:
                out.append(('wellformed', 'state file after save (%s) at %.1f: %s' % (how, nom, e)))
                continue
            for c, txt in M.diff(st, got, what):
                if c == 'vomm' and st.vomm_open:
                    continue
                out.append((c, 'state file after save (%s) at %.1f: %s' % (how, nom, txt)))
        return out

    def predictions(self):
        """(nominal time, expectation, requests) for each expected prediction, and the other requests"""
        left = list(self.o.requests)
        out = []
        for o in self.obs:
            if o[0] == 'predict':
                mine = [q for q in left if near(q.t, o[1])]
                left = [q for q in left if not near(q.t, o[1])]
                out.append((o[1], o[2], mine))
        return out, left


    def bids(self):
        """nominal time of a prediction -> {application: logged bid}, as far as they are logged"""
        out = {}
        times = [o[1] for o in self.obs if o[0] == 'predict']
        for m in BID.finditer(self.r.log):
            try:
                t = calendar.timegm(time.strptime(m.group(1), '%a %b %d %H:%M:%S %Y')) - R.EPOCH
                v = float(m.group(3))
            except ValueError:
                continue
            for x in times:
                if abs(t - x) <= 1:
                    out.setdefault(x, {})[m.group(2)] = v
        return out


BID = re.compile(r'^\[([^]]*)\].*Final Bid: (.*) \(lnprob: (\S+)\)$', re.M)


def near(t, nom):
    return abs(t - (nom + .25)) <= 0.75


def tail(r):
    return ' (log: %s)' % ' | '.join([l for l in (r.log + r.stderr).splitlines() if l][-2:])[-300:]


def first_report(san):
    ls = [l for l in san.splitlines() if 'ERROR' in l or 'runtime error' in l or l.lstrip().startswith('#')]
    return ' / '.join(x.strip() for x in ls[:6])[:600]


class Request:
    __slots__ = ('t', 'path', 'off', 'len', 'pid', 'err', 'kind', 'order', 'n')

    def key(self):
        return (self.path, self.off, self.len)


class Observed:
    """the events of a run, put together"""

    def __init__(self, r):
        self.trace = r.trace
        self.requests = []
        self.scans = []       # times of listings of /proc, the first being that of the start
        self.meminfo = []
        order, fresh = {}, 0
        last = {}
        self.forks = []
        for e in r.trace:
            if e.name == 'opendir' and e.a and e.a[0] == '/proc' and e.pid == 0:
                self.scans.append(e.t)
            elif e.name == 'open' and e.a[0] == '/proc/meminfo' and e.pid == 0:
                self.meminfo.append(e.t)
            elif e.name == 'fork' and int(e.a[0]) > 0:
                order[int(e.a[0])] = (e.t, e.n)
                self.forks.append(e)
        for e in r.trace:
            if e.name in ('readahead', 'madvise', 'fadvise'):
                q = Request()
                q.t, q.path, q.off, q.len, q.pid, q.n = e.t, e.a[0], int(e.a[1]), int(e.a[2]), e.pid, e.n
                q.kind = e.name
                q.err = int(e.a[-1]) if e.name == 'readahead' else 0
                q.order = order.get(e.pid, (0, e.n))[1] if e.pid else e.n
                self.requests.append(q)
        self.requests.sort(key=lambda q: (q.t, q.order, q.n))
