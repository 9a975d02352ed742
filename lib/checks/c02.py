"""C02: a save is all-or-nothing under crashes and I/O errors."""
import errno, random, re
from checks.common import *

VARIANTS = ['plain', 'san']
LEVEL = 'fault_enumeration'
RULE = ('for each of many histories, one or two saves (USR2, autosave or exit) are observed first; then the history is run again once for every call the daemon makes '
        'during the save, killed just before that call (and just after those on the state file and its temporary), and once for every call on these files and each '
        'error it may return (also lasting ones, short writes, and errors in several saves), with and without an older state file, stale temporaries and files of up to '
        'hundreds of kilobytes; afterwards the state file must be the old one byte for byte or the new one as the reference has it, a failed save must be logged, done '
        'again at the next save, and the next start must resume from the file; non-trivial: the fault was injected')
EXHAUSTIVE = 'every call of the main process during the save as a crash point (at most 400 of them per history in the quick tier), every call on the state files as an error point'
ASSUMPTIONS = ['the file system keeps its promises for rename and written data (no power failure)']
CONFIRM = 2

ERRS = {'open': [errno.EACCES, errno.ENOSPC, errno.EMFILE], 'write': [errno.EIO, errno.ENOSPC, errno.EDQUOT], 'rename': [errno.EIO, errno.ENOSPC, errno.EACCES],
        'close': [errno.EIO], 'fsync': [errno.EIO], 'unlink': [errno.EACCES, errno.EPERM], 'fopen': [errno.ENOSPC], 'link': [errno.EIO], 'fchmod': [errno.EPERM], 'ftruncate': [errno.EIO]}
MORE = {'open': [errno.EROFS, errno.ENFILE, errno.ENOMEM, errno.EIO, errno.EPERM], 'write': [errno.EFBIG, errno.EPERM], 'rename': [errno.EPERM, errno.EROFS, errno.ENOENT, errno.EBUSY, errno.EXDEV],
        'close': [errno.ENOSPC, errno.EDQUOT], 'unlink': [errno.EROFS, errno.EBUSY]}
ARGS = ['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-f']
BAD = re.compile(r'fail|cannot|could not|error|unable|denied|no space', re.I)


def cases(tier, seed):
    return cases_n('C02', 120 if tier == 'quick' else 1200, seed, cap=400 if tier == 'quick' else 5000)


def setup(s, case):
    """the same world and the same history for every run of the case"""
    rng = random.Random(case['seed'])
    w = W.World(s, rng)
    big = rng.random() < .2
    n = rng.randint(1, 5) if not big else rng.randint(12, 40)
    apps = G.make_apps(w, rng, n)
    how = rng.choice(['usr2', 'usr2', 'usr2', 'exit', 'autosave'])
    conf = rand_conf(rng, cycle=10, minsize=0, dopredict=False, autosave=rng.choice([33, 47, 68]) if how == 'autosave' else 100000)
    model = None
    old = rng.random() < .8
    if old:
        st = gen_state(rng, rng.sample(apps, rng.randint(1, n)), conf, tree=rng.choice([0, 5, 30, 200 if big else 10]))
        s.write(R.STATE, state_text(st, rng))
        model = M.Model.from_state(st)
    stale = rng.choice(['', '', '', 'file', 'lnk', 'big'])
    if stale == 'lnk':
        import os
        s.write('/etc/precious', b'precious')
        os.symlink(s.host('/etc/precious'), s.host(R.STATE + '.tmp'))
    elif stale:
        s.write(R.STATE + '.tmp', b'PRELOAD\tjunk' * (1 if stale == 'file' else 3000))
    seg = W.Seg(w, conf, model=model)
    h = G.Hist(seg, rng, apps)
    h.trim()
    h.step()
    seg.start()
    for _ in range(rng.randint(1, 4)):
        seg.run_cycles(1)
        h.step()
        if rng.random() < .3:
            seg.to_update()
            h.step()
    return rng, w, seg, h, conf, how, stale


def do_save(seg, how, rules):
    """the save with the rules in force"""
    if how == 'autosave':
        # shortly before it is due
        while True:
            a = [x for x in seg.timers if x[2] == 'autosave'][0]
            if a[1] - seg.t < 3.5:
                break
            seg.goto(min(x[1] for x in seg.timers) + 1.0 if min(x[1] for x in seg.timers) < a[1] - 3 else a[1] - 3)
            if [x for x in seg.timers if x[2] == 'autosave'][0] != a:
                return None   # went past it
    t = seg.t
    for r in rules:
        seg.sc.at(t, 'rule', *r)
    seg.sc.at(t, 'mark', 'save')
    if how == 'usr2':
        seg.usr2()
    elif how == 'exit':
        seg.term()
    else:
        a = [x for x in seg.timers if x[2] == 'autosave'][0]
        seg.goto(a[1] + 1.0)
    t = [x[1] for x in seg.obs if x[0] == 'save'][-1]
    if how != 'exit':
        seg.sc.at(t + 2 if how == 'autosave' else t + .03, 'norules')
        seg.sc.at(t + 2 if how == 'autosave' else t + .03, 'mark', 'saved')
    return t


def expected(seg):
    return [x[2][4] for x in seg.obs if x[0] == 'save'][-1]


def is_new(data, exp):
    """None, or why data is not the expected new file"""
    try:
        got = M.State.parse(data)
    except M.BadState as e:
        return 'it is not well-formed: %s' % e
    d = [x for x in M.diff(exp, got) if not (x[0] == 'vomm' and exp.vomm_open)]
    return d[0][1] if d else None


def reload_ok(o, s, w, data, exe, what, tmp):
    """the next start resumes from the file and saves again, whatever temporary was left"""
    try:
        model = M.Model.from_state(M.State.parse(data) if data else None)
    except M.BadState:
        model = None
    seg = W.Seg(w, M.Conf(cycle=10, minsize=0, dopredict=False, autosave=100000), model=model)
    h = G.Hist(seg, random.Random(1), [])
    seen = 0
    for pid, app in sorted(w.procs.items()):
        if app.exe not in seg.m.exes:
            if seen:
                seg.kill(pid)
            seen = 1
    seg.start()
    seg.run_cycles(2)
    seg.term()
    seg.execute(exe)
    o.count('restarts')
    b = seg.basic()
    if b:
        o.bad('restart', 'the start after %s: %s' % (what, b))
        return False
    d = seg.compare_saves(M.ALL)
    if d:
        o.bad('restart', 'after %s and a restart: %s' % (what, d[0][1]))
        return False
    return True


def spoiled(r):
    """a write to the new file, or closing it, failed before it took the old one's place"""
    bad = set()
    gone = safe = None
    for e in r.trace:
        if e.name == 'INJ' and e.a[0] in ('write', 'close') and e.a[3] == '1' and e.a[1] != R.STATE and not e.pid:
            if e.a[1] != gone:
                bad.add(e.a[1])
            elif not safe:
                return gone
        elif e.name == 'fsync' and e.a[-1] == '0':
            safe = e.a[0]
        elif e.name == 'rename' and e.a[1] == R.STATE and e.a[2] == '0':
            if e.a[0] in bad:
                return e.a[0]
            gone, safe = e.a[0], safe == e.a[0]
        elif e.name in ('unlink', 'open') and e.a[0] in bad:
            bad.discard(e.a[0])   # done with, or begun anew
        if e.name == 'open' and e.a[0] == gone:
            gone = None
    return None


def one(o, case, exes, rules, kind, what, seen):
    """a run with faults; False when there was a violation"""
    with R.Scratch() as s:
        rng, w, seg, h, conf, how, stale = setup(s, case)
        old = None
        t = do_save(seg, how, rules)
        if t is None:
            return True
        exp = expected(seg)
        if kind == 'err' and how != 'exit':
            # the next save comes without new activity
            seg.wait(.5)
            active = seg.m.dirty
            seg.m.dirty = True
            seg.usr2()
            exp2 = expected(seg)
            seg.sc.at(seg.t + .01, 'mark', 'second')
            seg.wait(.5)
            if rng.random() < .5:
                seg.run_cycles(1)
            active3 = seg.m.dirty
            seg.term()
            exp3 = expected(seg)
        elif kind == 'kill' and how != 'exit':
            seg.wait(1)
            seg.crash()
        exe = exes['plain'] if kind == 'kill' else exes['san']
        before = s.read(R.STATE)
        seg.execute(exe, args=ARGS)
        r = seg.r
        o.count('runs')
        if r.hung or r.san or r.stuck:
            o.bad('run', '%s: %s' % (what, seg.basic()))
            return False
        if not any(e.name == 'INJ' for e in r.trace):
            o.count('no_injection')
            return None
        o.count('injected_' + kind)
        snaps = [x for x in seg.obs if x[0] == 'save']
        idx = [i for i, x in enumerate(snaps) if x[1] == t][0]

        def after(i):
            sn = snaps[i][2][2]
            return s.read(sn if sn and kind != 'kill' else R.STATE)
        # what an earlier autosave left
        old = before
        for i in range(idx):
            d = s.read(snaps[i][2][2])
            if d is not None:
                old = d
        now = after(idx)
        if kind == 'kill':
            if r.rc != -9:
                o.bad('run', '%s: ended with %s instead of by the signal' % (what, r.rc))
                return False
        elif r.rc != 0 and how != 'exit' or r.rc not in (0, 1):
            o.bad('run', '%s: the daemon ended with %s%s' % (what, r.rc, W.tail(r)))
            return False
        o.count('outcome_old' if now == old else 'outcome_new')
        if now == old or kind == 'err' and spoiled(r):
            if kind == 'err':
                lines = [l for l in (r.log + '\n' + r.stderr).splitlines() if BAD.search(l)]
                if not lines:
                    o.bad('log', '%s: the save fails and the log says nothing of it' % what)
                    return False
                o.count('failures_reported')
            if now != old:
                o.bad('atomic', '%s: the old state file is replaced by a new one that could not be written (%s)' % (what, spoiled(r)))
                return False
        else:
            x = is_new(now, exp) if now is not None else 'there is none'
            if x:
                o.bad('atomic', '%s: the state file is neither the old nor the new one: %s' % (what, x))
                return False
        if kind == 'err' and how != 'exit':
            a2 = after(idx + 1)
            x = is_new(a2, exp2)
            if x and not (now != old and not active and a2 == now):
                o.bad('again', '%s: the next save does not bring the file up to date: %s' % (what, x))
                return False
            x = is_new(s.read(R.STATE), exp3)
            if x and not (not active3 and s.read(R.STATE) == a2):
                o.bad('again', '%s: after the end the file is not up to date: %s' % (what, x))
                return False
            return True
        import os
        tmps = sorted(f for f in os.listdir(s.host('/var/lib/preload')) if f != 'preload.state')
        key = (now == old, bool(tmps), how)
        if key not in seen or rng.random() < .05:
            seen.add(key)
            return reload_ok(o, s, w, now, exes['san'], what, tmps)
        return True


def run_case(case, exes):
    o = Out()
    # observe
    with R.Scratch() as s:
        rng, w, seg, h, conf, how, stale = setup(s, case)
        t = do_save(seg, how, [('*', '-', 1, 1000000, 'none', 0)])
        if t is None or seg.ambiguous:
            o.nontrivial = False
            return o
        exp = expected(seg)
        if how != 'exit':
            seg.wait(1)
            seg.crash()
        seg.execute(exes['san'], args=ARGS)
        o.count('runs')
        b = seg.basic()
        if b:
            o.bad('run', b)
            return o
        x = is_new(s.read(R.STATE), exp)
        if x:
            o.bad('atomic', 'without any fault the state file is wrong after the save: %s' % x)
            return o
        calls = [(e.a[0], e.a[1]) for e in seg.r.trace if e.name == 'INJ' and not e.pid]
        import os
        o.sample = {'how': how, 'stale': stale, 'calls': ['%s %s' % c for c in calls[:40]], 'size': os.path.getsize(s.host(R.STATE))}
    mine = [i for i, c in enumerate(calls) if c[1].startswith('/var/lib/preload')]
    if not mine:
        o.bad('run', 'no call on the state file at the save (%s)' % how)
        return o
    o.count('calls_during_saves', len(calls))
    o.seen('hows', (how, stale))
    rng = random.Random(case['seed'] + 1)
    last = mine[-1] + 5 if how != 'exit' else len(calls)
    points = list(range(min(len(calls), last)))
    if len(points) > case['cap'] // 2:
        keep = set(rng.sample(points, case['cap'] // 2)) | {i for i in mine if calls[i][0] not in ('write', 'stat')} | set(mine[:2]) | set(mine[-4:])
        points = sorted(keep)
    nth = {}
    plan = []
    for i in points:
        plan.append(([('*', '-', i + 1, 1, 'killb', 0)], 'kill', 'killed before call %d of the save, %s %s (%s)' % (i + 1, calls[i][0], calls[i][1], how)))
        if i in mine and calls[i][0] in ('write', 'rename', 'open', 'unlink', 'link', 'ftruncate', 'close', 'fsync'):
            plan.append(([('*', '-', i + 1, 1, 'killa', 0)], 'kill', 'killed after call %d of the save, %s %s (%s)' % (i + 1, calls[i][0], calls[i][1], how)))
    errs = []
    for i in mine:
        fn, p = calls[i]
        nth[(fn, p)] = nth.get((fn, p), 0) + 1
        k = nth[(fn, p)]
        for e in ERRS.get(fn, []) + (rng.sample(MORE[fn], 1) if fn in MORE else []):
            errs.append(([(fn, p, k, 1, 'err', e)], 'err', '%s number %d on %s fails with %s (%s)' % (fn, k, p, errno.errorcode[e], how)))
            if rng.random() < .3:
                errs.append(([(fn, p, k, 100000, 'err', e)], 'err', '%s number %d and later ones on %s fail with %s (%s)' % (fn, k, p, errno.errorcode[e], how)))
        if fn == 'write':
            errs.append(([(fn, p, k, 1, 'short', 0), (fn, p, k + 1, 1, 'err', errno.ENOSPC)], 'err', 'write number %d on %s is short, the next fails (%s)' % (k, p, how)))
            errs.append(([(fn, p, k, rng.choice([1, 100000]), 'short', 0)], 'err', 'write number %d on %s is short (%s)' % (k, p, how)))
    files = sorted(set((calls[i][0], calls[i][1]) for i in mine if calls[i][0] in ERRS))
    for _ in range(6):
        rs = []
        for _ in range(rng.randint(2, 3)):
            fn, p = rng.choice(files)
            rs.append((fn, p, rng.randint(1, max(1, nth[(fn, p)])), rng.choice([1, 1, 100000]), 'err', rng.choice(ERRS[fn])))
        errs.append((rs, 'err', 'several errors %r (%s)' % (rs, how)))
    if len(errs) > case['cap'] // 4:
        keep = [x for x in errs if 'write' not in x[2]]
        errs = keep + rng.sample([x for x in errs if 'write' in x[2]], max(1, min(case['cap'] // 4, len(errs) - len(keep))))
    seen = set()
    for rules, kind, what in plan + errs:
        if one(o, case, exes, rules, kind, what, seen) is False:
            break
    o.count('kill_points', len(plan))
    o.count('error_points', len(errs))
    return o
