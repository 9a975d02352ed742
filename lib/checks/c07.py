"""C07: parallel readahead is bounded and always completes."""
import errno, random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('models of 3 to 60 files to read ahead, maxprocs from 0 to 30 (also changed by reloads), and at random: forks that fail (once, some, all), waits that are interrupted, '
        'children that are delayed, killed before or after they read, files that vanish, become directories, FIFOs or symbolic link loops or cannot be opened, and SIGCHLD '
        'ignored by the parent process; an online count of the forked and not yet waited-for children over the event log, checked at every event and when the main loop '
        'goes on, and a comparison of the requests with the selection less the files affected; non-trivial: some prediction forked two or more children or read two or more files')
ASSUMPTIONS = ['readahead is a recording stand-in']
ERR_FORK = [errno.EAGAIN, errno.ENOMEM]
DEATH = [('killb', 0), ('killb', 0), ('sig', 7), ('sig', 11), ('sig', 6), ('sig', 14), ('sig', 24), ('exit', 0), ('exit', 1), ('exit', 255)]


def cases(tier, seed):
    return cases_n('C07', 1500 if tier == 'quick' else 40000, seed)


def make(w, rng):
    apps = []
    n = rng.randint(2, 5)
    files = []
    for i in range(n):
        p = '/usr/bin/app%02d' % i
        w.mkfile(p)
        maps = [(p, 0, 4096 * rng.randint(1, 9))]
        for j in range(rng.choice([0, 0, 1, 3, 8, 15])):
            q = '/usr/lib/f%02d_%02d' % (i, j)
            w.mkfile(q)
            files.append(q)
            maps.append((q, 4096 * rng.randint(0, 3), 4096 * rng.randint(1, 9)))
            if rng.random() < .3:
                maps.append((q, 4096 * 100, 4096 * rng.randint(1, 9)))
        apps.append(M.App(p, maps))
        files.append(p)
    return apps, files


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps, files = make(w, rng)
        conf = rand_conf(rng, cycle=8, minsize=0, maxprocs=rng.choice([0, 1, 1, 2, 3, 5, 30]), sortstrategy=rng.choice([0, 1, 2, 3]), memfree=100, dopredict=True,
                         prediction_algorithm=rng.choice(['Markov', 'Markov', 'VOMM']))
        st = gen_state(rng, apps, conf, tree=rng.choice([5, 30]), p_zero=.1)
        s.write(R.STATE, state_text(st, rng))
        seg = W.Seg(w, conf, model=M.Model.from_state(st))
        h = G.Hist(seg, rng, apps)
        h.step(p_start=.2)
        bad = set()      # files that a fault concerns: their requests may be missing
        lost = 0         # any number of files may be missing
        kind = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(['fork', 'fork', 'forkall', 'eintr', 'slow', 'killopen', 'killread', 'killclose', 'gone', 'dir', 'fifo', 'loop', 'denied', 'rderr', 'slowfork', 'sig', 'sig'])
            kind.append(k)
            f = rng.choice(files)
            if k == 'fork':
                seg.at('rule', 'fork', '-', rng.randint(1, 12), rng.choice([1, 1, 3]), 'err', rng.choice(ERR_FORK))
            elif k == 'forkall':
                seg.at('rule', 'fork', '-', rng.randint(1, 4), 1000000, 'err', rng.choice(ERR_FORK))
            elif k == 'eintr':
                seg.at('rule', 'wait', '-', rng.randint(1, 8), rng.choice([1, 1, 2, 50]), 'err', errno.EINTR)
            elif k == 'slow':
                for g in rng.sample(files, min(len(files), 3)):
                    seg.at('rule', 'c:' + rng.choice(['open', 'readahead', 'close']), g, 1, 1, 'delay', rng.randint(500, 12000))
            elif k == 'slowfork':
                seg.at('rule', 'fork', '-', 1, 4, 'delay', rng.randint(300, 3000))
            elif k == 'killopen':
                for g in rng.sample(files, min(len(files), rng.randint(1, 4))):
                    seg.at('rule', 'c:open', g, 1, 1, *rng.choice(DEATH))
                    bad.add(g)
            elif k == 'killread':
                seg.at('rule', 'c:readahead', f, 1, 1, *rng.choice(DEATH))
                bad.add(f)
            elif k == 'killclose':
                seg.at('rule', 'c:close', f, 1, 1, *rng.choice(DEATH))
            elif k == 'sig':
                # meant for a child, they are nothing to the daemon
                for g in rng.sample(files, min(len(files), rng.randint(1, 3))):
                    seg.at('rule', rng.choice(['c:open', 'c:readahead', 'c:close']), g, 1, rng.choice([1, 5]), 'sig', rng.choice([15, 15, 2, 3, 12, 10, 1]))
                    bad.add(g)
            elif k == 'denied':
                e = rng.choice([errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.EPERM, errno.ESTALE])
                seg.at('rule', 'c:open', f, 1, 1000000, 'err', e)
                seg.at('rule', 'open', f, 1, 1000000, 'err', e)
                bad.add(f)
            elif k == 'rderr':
                e = rng.choice([errno.EIO, errno.EINVAL, errno.EBADF])
                seg.at('rule', 'c:readahead', f, 1, 1000000, 'err', e)
                seg.at('rule', 'readahead', f, 1, 1000000, 'err', e)
                bad.add(f)
        allslow = not kind and conf.maxprocs > 1 and rng.random() < .5
        if allslow:
            seg.at('rule', 'c:open', '-', 1, 1000000, 'delay', 20000)
        seg.at('rule', 'poll', '-', 1, 1000000, 'none', 0)
        late = rng.random() < .7
        seg.start()
        for _ in range(rng.randint(2, 5)):
            seg.run_cycles(1)
            h.step(p_start=.12)
            for k in [k for k in kind if k in ('gone', 'dir', 'fifo', 'loop')]:
                if late and rng.random() < .4:
                    continue
                kind.remove(k)
                f = rng.choice(files)
                bad.add(f)
                seg.at('rm', f)
                w.files[f] = 'gone' if k == 'gone' else 'dir'
                if k == 'dir':
                    seg.at('mkdir', f)
                elif k == 'fifo':
                    seg.at('fifo', f)
                elif k == 'loop':
                    seg.at('lnk', f, s.host(f))
            if rng.random() < .15:
                reconf(seg, rng, maxprocs=rng.choice([0, 1, 2, 4]))
        seg.term()
        ign = rng.random() < .12
        o.sample = {'conf': conf_brief(conf), 'faults': kind, 'files': len(files), 'sigchld_ignored': ign}
        o.seen('faults', tuple(sorted(kind)))
        seg.execute(exes['san'], ignchld=ign, timeout=25)
        o.count('runs')
        b = seg.basic()
        if b:
            o.bad('run', b + ' [faults %r, maxprocs %d]' % (kind, conf.maxprocs))
            return o
        tag = 'faults %r: ' % kind
        P, left = seg.predictions()
        if left:
            o.bad('extra', tag + 'reads ahead %r at %.1f, when no prediction is due' % (left[0].path, left[0].t))
            return o
        # the online monitor
        limit_at = [(t, x[2].maxprocs) for t, x, _ in P]
        alive, opened, maxalive, lastpoll, forks = set(), {}, 0, -1, {}
        most = {}
        for e in seg.r.trace:
            if e.name == 'fork' and int(e.a[0]) > 0:
                forks.setdefault(e.a[0], []).append(e.n)
        saves = [x[1] for x in seg.obs if x[0] == 'save']

        def saving(t):
            return any(abs(t - x) < 1.6 for x in saves)
        for e in seg.r.trace:
            if e.pid == 0:
                cur = [m for t, m in limit_at if W.near(e.t, t)]
                if e.name == 'fork' and int(e.a[0]) > 0:
                    pid = int(e.a[0])
                    alive.add(pid)
                    o.count('children')
                    maxalive = max(maxalive, len(alive))
                    for x, m in limit_at:
                        if W.near(e.t, x):
                            most[x] = max(most.get(x, 0), len(alive))
                    if not cur:
                        o.bad('fork', tag + 'a child at %.1f, when no prediction is due' % e.t)
                        return o
                    if len(alive) > cur[0]:
                        o.bad('bound', tag + '%d children at once at %.1f with maxprocs %d' % (len(alive), e.t, cur[0]))
                        return o
                elif e.name == 'wait':
                    pid = int(e.a[0])
                    if pid > 0:
                        alive.discard(pid)
                    elif pid == -errno.ECHILD:
                        alive.clear()
                    else:
                        o.count('failed_waits')
                elif e.name == 'fork':
                    o.count('failed_forks')
                elif e.name == 'rename' and not saving(e.t):
                    o.bad('child', tag + 'a save at %.1f, which nobody asked the daemon for' % e.t)
                    return o
                elif e.name == 'INJ' and e.a[0] == 'poll':
                    if alive:
                        o.bad('wait', tag + 'the daemon goes on at %.1f with %d children not waited for' % (e.t, len(alive)))
                        return o
                    lastpoll = e.n
                    opened = {}
            else:
                if not any(n > lastpoll for n in forks.get(str(e.pid), [])):
                    o.bad('wait', tag + 'child %d still does %s at %.1f, after the main loop went on' % (e.pid, e.name, e.t))
                    return o
                c = opened.setdefault(e.pid, [])
                if e.name == 'INJ':
                    continue
                if e.name == 'open':
                    c.append(e.a[0])
                    acc = int(e.a[1])
                    if acc & 3 or acc & (64 | 512 | 1024):
                        o.bad('child', tag + 'a child opens %r with flags %o' % (e.a[0], acc))
                        return o
                    if len(set(c)) > 1:
                        o.bad('child', tag + 'a child opens %r and %r' % (c[0], e.a[0]))
                        return o
                elif e.name not in ('readahead', 'madvise', 'mmap', 'munmap', 'fadvise', 'fstat', 'close', 'read', 'stat', 'access'):
                    o.bad('child', tag + 'a child does %s %r' % (e.name, e.a[:2]))
                    return o
        if alive:
            o.bad('wait', tag + '%d children are never waited for' % len(alive))
            return o
        o.seen('max_at_once', maxalive)
        # the requests
        pend = []
        for t, (need, av, cf, tm, lns, miss), qs in P:
            if need is None:
                continue
            o.count('predictions')
            ff = sum(1 for e in seg.r.trace if e.name == 'fork' and int(e.a[0]) < 0 and W.near(e.t, t))
            from checks.c06 import select
            sel, tie, border = select(need, av)
            if border:
                o.count('skipped_tie')
                continue
            got = M.coverage([q.key() for q in qs])
            exp = M.coverage(sel)
            if len(exp) > 1:
                o.nontrivial = True
            for p in got:
                if p not in exp:
                    o.bad('extra', tag + 'at %.1f %r is read, which is not selected' % (t, p))
                    return o
                if p not in bad and not ff and got[p] != exp[p]:
                    o.bad('ranges', tag + 'at %.1f of %r the ranges %r are read, selected are %r' % (t, p, got[p], exp[p]))
                    return o
            gone = sorted(p for p in exp if p not in got and p not in bad)
            o.count('files_read', len(got))
            if len(gone) > ff:
                o.bad('missing', tag + 'at %.1f %d files are not read, among them %r, though only %d forks failed' % (t, len(gone), gone[0], ff))
                return o
            if allslow and cf.maxprocs > 1 and not ign:
                o.count('checked_for_parallel')
                if most.get(t, 0) < min(cf.maxprocs, len(qs)):
                    o.bad('parallel', tag + 'at %.1f there are at most %d children at once for %d pieces with maxprocs %d, though each takes its time' % (t, most.get(t, 0), len(qs), cf.maxprocs))
                    return o
            if cf.maxprocs == 0 and any(q.pid for q in qs):
                o.bad('bound', tag + 'a child reads at %.1f with maxprocs 0' % t)
                return o
        rf = [e.t for e in seg.r.trace if e.name == 'rename' and e.a[1] == R.STATE]
        if not rf:
            o.bad('run', tag + 'the state is not saved at the end')
            return o
        d = seg.compare_saves(('wellformed', 'clock', 'exetime'))
        if d:
            o.bad('state:' + d[0][0], tag + d[0][1])
    return o
