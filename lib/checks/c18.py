"""C18: signals work at any moment."""
import os, random, signal, stat, time
from checks.common import *

VARIANTS = ['san', 'plain']
LEVEL = 'fault_enumeration'
RULE = ('random histories with saves, autosaves, predictions with and without children, battery and reloads are run once to number every call the daemon makes from the '
        'beginning of loading its state to its end; then again with one or several signals raised at such a call (a sample of the calls in the quick tier, every call for small '
        'histories in the thorough tier), and the whole run is compared with the reference in which the signal has its effect once the callback is over: reloaded values '
        'and reopened log, dumps with the values of that moment, saves, and an end with status 0 and a save; other cases are storms of signals sent from outside at random '
        'real times; non-trivial: a signal was delivered')
EXHAUSTIVE = 'the points at which a signal can interrupt the daemon, as numbered calls; all calls in the thorough tier'
ASSUMPTIONS = ['a signal between two calls acts like one at the beginning of the next call, except in the storms, which hit any instruction']
CONFIRM = 3
BEGIN = '/vp/begin'
BADCONF = ['gone', '[model\ncycle=50\n', '[model]\ncycle=x\nusecorrelation=false\n', '[system]\nmaxprocs=1;2\n', 'cycle=50\n', '[system]\nsortstrategy=\n', '[model]\ncycle=50\nminsize=\n']


def cases(tier, seed):
    if tier == 'quick':
        return cases_n('C18', 330, seed, runs=16, kind='call') + cases_n('C18s', 50, seed, kind='storm')
    return cases_n('C18', 900, seed, runs=1500, kind='call') + cases_n('C18s', 4000, seed, kind='storm')


class Done(Exception):
    pass


class ISeg(W.Seg):
    """a run in which signals arrive at a given call"""
    inj = None      # (time of the call, list of (signal, conf or None), before the first tick)
    applied = False

    def apply(self, part=None):
        # part: at the start the first tick may come before the signals, after them, or, as the end
        # comes only after everything that is due, between
        self.applied = part != 'first'
        term = any(x[0] in (2, 3, 15) for x in self.inj[1])
        k = self.inj[2] if type(self.inj[2]) is int else 10 ** 9
        for i, (sg, conf) in enumerate(self.inj[1]):
            if part and (part == 'first') == (sg in (2, 3, 15) or i >= k):
                continue
            if sg == 1:
                self.conf = conf
                if conf.vomm:
                    self.m.vomm_start()
                self.obs.append(('hup', self.t, None))
            elif sg == 12 and not term:
                self.save('usr2', self.t)
            elif sg == 10:
                self.obs.append(('usr1', self.t, (self.m.time, len(self.m.exes), sum(1 for e in self.m.exes.values() if self.m.running(e)), self.conf)))
            elif sg in (2, 3, 15):
                self.save('exit', self.t)
                ex = self.obs.pop()
                for old in [x for x in self.obs if x[0] == 'save' and x[1] > self.t - (3 if x[2][0] == 'autosave' else .3)]:
                    # a save just before the end: nobody looks between
                    self.obs.remove(old)
                    if ex[2][1] is None:
                        ex = (ex[0], ex[1], (ex[2][0], old[2][1], None, ex[2][3], old[2][4]))
                self.obs.append(ex)
                self.ended = 'term'
                self.sc.at(self.t + 2000, 'quit')
                raise Done

    def start(self):
        super().start()
        if self.inj and self.inj[2]:
            self.t = 0.05
            self.apply('first' if self.inj[2] is not True else None)
        return self

    def goto(self, t):
        t = max(t, self.t + .05, .5)
        if self.inj and not self.applied and self.t >= .4 and self.inj[0] <= self.t + .02:
            self.apply()
        if self.inj and not self.applied and self.inj[0] < t:
            super().goto(max(self.inj[0] + 1.4, self.t + .05))
            if any(x[0] in ('tick', 'tick2') and x[1] and x[1] + .5 > self.inj[0] + .3 for x in self.obs):
                # a timer soon after the signal was reached as well: which comes first is not told apart
                self.ambiguous = True
            self.apply('last' if self.inj[2] and self.inj[2] is not True else None)
            if self.t >= t:
                return self
        super().goto(t)
        if self.inj and not self.applied and self.inj[0] < self.t - .02:
            self.apply()
        return self


def build(s, case, inj=None, nth=0, mvlog=False, flood=0, badconf=None):
    rng = random.Random(case['seed'])
    w = W.World(s, rng)
    apps = G.make_apps(w, rng, rng.randint(1, 4), shared=2)
    conf = rand_conf(rng, cycle=rng.choice([8, 9, 12]), minsize=0, maxprocs=rng.choice([0, 0, 1, 3]), autosave=rng.choice([100000, 100000, 21, 37]), usecorrelation=False,
                     prediction_algorithm=rng.choice(['VOMM', 'Markov']))
    model = None
    if rng.random() < .6:
        st = gen_state(rng, rng.sample(apps, rng.randint(1, len(apps))), conf, tree=rng.choice([4, 10]))
        s.write(R.STATE, state_text(st, rng))
        model = M.Model.from_state(st)
    s.write(R.LOG, b'', 0o600)
    seg = ISeg(w, conf, model=model)
    seg.inj = inj
    seg.at('rule', 'open', R.STATE, 1, 1, 'do', 7)
    if model is None:
        # without a state file the attempt to open it fails, but is made
        seg.at('rule', 'opendir', '/proc', 1, 1, 'do', 6)
        seg.sc.group(6, 'mark', 'nofile')
    if inj is None:
        seg.sc.group(7, 'rule', '*', '-', 1, 1000000, 'none', 0)
    else:
        seg.sc.group(7, 'rule', '*', '-', nth, 1, 'do', 8)
        if mvlog:
            seg.sc.group(8, 'mv', R.LOG, R.LOG + '.1')
        for k, (sg, c) in enumerate(inj[1]):
            if sg == 1:
                if badconf is None:
                    seg.sc.group(8, 'put', R.CONF, '644', c.text())
                elif badconf == 'gone':
                    seg.sc.group(8, 'rm', R.CONF)
                else:
                    seg.sc.group(8, 'put', R.CONF, '644', badconf)
            seg.sc.group(8, 'sig', sg, *([flood] if flood and not k else []))
    h = G.Hist(seg, rng, apps)
    h.trim()
    h.step()
    try:
        seg.start()
        for _ in range(rng.randint(1, 4)):
            seg.run_cycles(1)
            h.step()
            x = rng.random()
            if x < .15:
                seg.usr2()
            elif x < .25:
                seg.setbat(rng.choice([None, {'BAT0': 'Discharging'}]))
            elif x < .35:
                g = dict(seg.conf.given)
                g['usecorrelation'] = rng.random() < .5
                if inj is None or not any(x == 1 for x, _ in inj[1]):
                    seg.hup(M.Conf(**g))
            elif x < .45:
                seg.usr1()
        seg.wait(.5)
        seg.term()
    except Done:
        pass
    return rng, w, seg, conf


def run_call(o, case, exes):
    with R.Scratch() as s:
        rng, w, seg, conf = build(s, case)
        if seg.ambiguous:
            o.nontrivial = False
            return
        tend = seg.t
        seg.execute(exes['san'])
        o.count('runs')
        b = seg.basic()
        if b:
            o.bad('run', b)
            return
        calls = [(e.t, e.a[0], e.a[1]) for e in seg.r.trace if e.name == 'INJ' and e.a[2] == '*' and not e.pid]
        tick0 = [i for i, c in enumerate(calls) if c[1] == 'opendir' and c[2] == '/proc']
        o.count('calls_numbered', len(calls))
        ndump0 = len(dumps(seg.r.log))
    if not calls:
        o.bad('run', 'no call is made after the state file is opened')
        return
    rng = random.Random(case['seed'] + 5)
    n = len(calls)
    if n <= case['runs']:
        points = list(range(n))
    else:
        # calls of every name, and others
        by = {}
        for i, c in enumerate(calls):
            by.setdefault(c[1], []).append(i)
        points = [rng.choice(v) for v in by.values()] + rng.sample(range(n), case['runs'])
        rng.shuffle(points)
        points = points[:case['runs']]
    for i in points:
        t, fn, path = calls[i]
        k = rng.random()
        sigs = [rng.choice([1, 10, 12, 15, 2, 3, 1, 10, 12])]
        if k < .35:
            sigs = [rng.choice([1, 10, 12, 10, 12, 17, 13]) for _ in range(rng.randint(1, 4))] + ([rng.choice([15, 2, 3])] if rng.random() < .4 else [])
        elif k < .42:
            sigs = [rng.choice([1, 10, 12])] * rng.choice([50, 300])
        flood = 0
        if rng.random() < .03:
            # more at once than fit into a pipe; the last one counts as well
            flood = rng.choice([65536, 66000, 70000])
            sigs = [12, rng.choice([1, 10, 15, 2, 3, 10, 1])]
        ended = t >= tend - .001
        g = dict(conf.given)
        if 1 in sigs:
            g.update(rng.choice([dict(cycle=rng.choice([7, 10, 13])), dict(usecorrelation=rng.random() < .5), dict(doscan=False), dict(dopredict=False), dict(maxprocs=2, cycle=11), {}]))
        badconf = None
        if 1 in sigs and rng.random() < .25:
            # what is not read has no effect; the rest of the reload has
            g = dict(conf.given)
            badconf = rng.choice(BADCONF)
        nc = M.Conf(**g)
        plan = [(sg, nc if sg == 1 else None) for sg in sigs]
        variants = [False]
        if t < .3:
            # the first tick may also come between two signals
            variants = ([True, False, 'mix'] if any(x in (2, 3, 15) for x in sigs) else [True, False]) if i < (tick0 + [0, 0])[1] + 400 else [False]
            if len(variants) > 1 and len(sigs) < 9:
                variants += list(range(1, len(sigs)))
        if ended:
            # the end has been asked for: signals need not have any effect any more
            variants = [None]
        mvlog = 1 in sigs and rng.random() < .5 and not ended
        what = 'signals %r at call %d of %d, %s %s at %.1f: ' % (sigs if len(sigs) < 9 else '%d times %d' % (len(sigs), sigs[0]), i + 1, n, fn, path, t)
        if badconf is not None:
            what += '(the configuration is then %r) ' % badconf
            o.count('failed_reloads')
        if flood:
            what = '%d ' % flood + what
            o.count('floods')
        problems = []
        for var in variants:
            with R.Scratch() as s:
                r2, w, seg, _ = build(s, case, (t if var is not None else 10 ** 9, plan, var or False), i + 1, mvlog, flood, badconf)
                if seg.ambiguous:
                    problems = []
                    break
                p = one(o, s, seg, exes['san'], sigs, what, mvlog, ended, ndump0, nc, t)
                if p is None:
                    problems = []
                    break
                problems.append(p)
        if problems:
            o.bad(*problems[0])
            return
        o.seen('points', (fn, sigs[0]))


def one(o, s, seg, exe, sigs, what, mvlog, ended, ndump0, nc, t):
    seg.before = s.read(R.STATE)
    seg.r = R.run(exe, s, seg.sc)
    seg.o = W.Observed(seg.r)
    r = seg.r
    o.count('runs')
    o.count('signals', len(sigs))
    if ended and r.rc == 0 and not (r.san or r.hung):
        pass
    else:
        b = seg.basic()
        if b:
            return ('run', what + b)
    if not any(e.name == 'INJ' and e.a[2] == '*' and abs(e.t - t) < .01 for e in r.trace) and not ended:
        o.count('not_reached')
        return None
    if not ended and not seg.applied:
        return ('run', what + 'not applied')
    d = seg.compare_saves(M.ALL)
    if d:
        return ('state:' + d[0][0], what + d[0][1])
    P, left = seg.predictions()
    if left:
        return ('prediction', what + 'reads ahead %r at %.1f, when no prediction is due' % (left[0].path, left[0].t))
    for tt, (need, av, cf, tm, lns, miss), qs in P:
        if need is None or miss:
            continue
        # ranges may be joined: coverage
        from checks.c06 import select
        sel, tie, border = select(need, av)
        if not border and M.coverage(sel) != M.coverage([q.key() for q in qs]):
            return ('prediction', what + 'at %.1f other ranges are read ahead than selected' % tt)
        o.count('predictions')
    if ended:
        return None
    term = any(x in (2, 3, 15) for x in sigs)
    if 1 in sigs and not (term and sigs[-1] != 1 and False):
        co = [e for e in r.trace if e.name in ('open', 'fopen') and e.a[0] == R.CONF and e.t >= t - .001 and e.n > 0]
        if len(co) < 1 + (0 if t > .001 else 1) and not term:
            return ('hup', what + 'the configuration is not read again')
        if not term:
            lo = [e for e in r.trace if e.name in ('open', 'fopen') and e.a[0] == R.LOG and e.t >= t - .001]
            if len(lo) < (1 if t > .001 else 2):
                return ('hup', what + 'the log is not opened again')
            if mvlog:
                try:
                    m = os.stat(s.host(R.LOG)).st_mode & 0o777
                except OSError:
                    return ('hup', what + 'there is no new log after the old one was moved away')
                if m & 0o077:
                    return ('hup', what + 'the new log has mode %o' % m)
                old = (s.read(R.LOG + '.1') or b'').decode('utf-8', 'replace')
                for l in old.splitlines():
                    x = stamp(l)
                    if x and x[0] > t + 2:
                        return ('hup', what + 'the old log is still written to: %r' % l)
                new = [x for x in map(stamp, r.log.splitlines()) if x and x[0] > t + 2]
                if not new and seg.t > t + 20:
                    return ('hup', what + 'nothing is written to the new log')
                o.count('logs_moved')
        o.count('reloads')
    if 10 in sigs and not term:
        ds = dumps((s.read(R.LOG + '.1') or b'').decode('utf-8', 'replace') + r.log)
        mine = [x for x in ds if abs(x[0] - t) <= 1.01]
        if not mine:
            return ('usr1', what + 'no dump')
        exp = [x[2] for x in seg.obs if x[0] == 'usr1']
        ok, why = False, ''
        for ts, st, cf in mine:
            for tm, ne, nr, c in exp:
                if st.get('preload time') != str(tm):
                    why = 'preload time %s, expected %d' % (st.get('preload time'), tm)
                elif st.get('num exes') != str(ne):
                    why = 'num exes %s, expected %d' % (st.get('num exes'), ne)
                elif st.get('num running exes') != str(nr):
                    why = 'num running exes %s, expected %d' % (st.get('num running exes'), nr)
                elif 1 not in sigs and diff_conf(conf_values(c), cf):
                    why = diff_conf(conf_values(c), cf)
                else:
                    ok = True
        if not ok:
            return ('usr1', what + 'the dump is wrong: %s' % why)
        o.count('dumps')
    if 12 in sigs and not term:
        o.count('saves')
    if term:
        o.count('ends')
    return None


def run_storm(o, case, exes):
    rng = random.Random(case['seed'])
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(3, 8))
        conf = rand_conf(rng, cycle=8, minsize=0, maxprocs=rng.choice([0, 0, 2]))
        st = gen_state(rng, apps, conf, tree=20)
        s.write(R.STATE, state_text(st, rng))
        seg = W.Seg(w, conf, model=M.Model.from_state(st))
        h = G.Hist(seg, rng, apps)
        h.step()
        seg.start()
        for _ in range(rng.randint(20, 60)):
            seg.run_cycles(1)
            h.step()
        seg.term()
        if seg.ambiguous:
            o.nontrivial = False
            return
        sent = []
        r2 = random.Random(case['seed'] + 1)
        gap = r2.choice([0, 20e-6, 100e-6, 500e-6])
        fatal = None

        def storm(p, tp):
            end = time.time() + 20
            while time.time() < end and p.poll() is None:
                try:
                    if b' opendir /proc ' in open(tp, 'rb').read(20000):
                        break
                except OSError:
                    pass
            while p.poll() is None and time.time() < end and len(sent) < 4000:
                sg = r2.choice([1, 10, 12, 1, 10, 12, 17, 13])
                try:
                    os.kill(p.pid, sg)
                except OSError:
                    break
                sent.append(sg)
                if gap:
                    time.sleep(r2.random() * gap)
        exe = exes[r2.choice(['san', 'plain'])]
        seg.execute(exe, during=storm, timeout=40, args=['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-f', '-V', '4'])
        o.count('storms')
        o.count('storm_signals', len(sent))
        b = seg.basic()
        if b:
            o.bad('storm', 'in a storm of %d signals: %s' % (len(sent), b))
            return
        try:
            got = M.State.parse(s.read(R.STATE))
        except M.BadState as e:
            o.bad('storm', 'after a storm of %d signals the state file is not well-formed: %s' % (len(sent), e))
            return
        exp = [x for x in seg.saves() if x[1] == 'exit'][0]
        d = M.diff(exp[2] or exp[5], got)
        d = [x for x in d if not (x[0] == 'vomm' and seg.m.double_new)]
        if d:
            o.bad('storm', 'after a storm of %d signals that change nothing: %s' % (len(sent), d[0][1]))
            return
        n = len(dumps(s.read(R.LOG).decode('utf-8', 'replace')))
        if n > sum(1 for x in sent if x == 10):
            o.bad('storm', '%d dumps for %d signals' % (n, sum(1 for x in sent if x == 10)))
        o.count('storm_dumps', n)


def run_case(case, exes):
    o = Out()
    if case['kind'] == 'call':
        run_call(o, case, exes)
    else:
        run_storm(o, case, exes)
    return o
