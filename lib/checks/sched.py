"""C08 and C20: schedule and gates.  What was done when, against the reference."""
import random
from checks.common import *

MARKER = 77   # a process whose mappings are empty: it is looked at in every update after a scan
GHOST = '/usr/bin/ghost%d'


def world(s, rng):
    """a world with applications that come and go, ghosts in the model that never run, so that there
    is always something to read ahead, and the marker process"""
    w = W.World(s, rng)
    apps = G.make_apps(w, rng, rng.randint(1, 4))
    ghosts = []
    for i in range(3):
        p = GHOST % i
        w.mkfile(p)
        ghosts.append(M.App(p, [(p, 0, 4096 * (i + 1))]))
    w.mkfile('/usr/bin/marker')
    marker = M.App('/usr/bin/marker', [])
    st = M.State()
    st.time = rng.randint(0, 100000)
    for i, a in enumerate(ghosts):
        st.exes[a.exe] = (st.time, rng.randint(1, st.time + 1) // 2)
        for k in a.maps:
            st.maps[k] = 0
            st.exemaps[a.exe] = [(k, 1.0)]
    ps = [a.exe for a in ghosts]
    for i in range(3):
        for j in range(i):
            w4 = [[0] * 4 for _ in range(4)]
            w4[0] = [6, 3, 2, 1]
            st.markovs[(ps[j], ps[i])] = [(0, [float(rng.randint(2, 500)), 0.0, 0.0, 0.0], w4)]
    st.vomm = {ps[0]: [2, {ps[1]: [3, {}], ps[2]: [2, {}], ps[0]: [1, {}]}]}
    s.write(R.STATE, state_text(st, rng))
    return w, apps, marker, st


def times_of(xs):
    return sorted(set(round(x, 2) for x in xs))


def match(o, exp, got, what, tag):
    """every expected nominal time has exactly one event time, and no other has"""
    got = list(got)
    for x in exp:
        m = [t for t in got if W.near(t, x)]
        if not m:
            o.bad(what, '%sno %s at %.1f' % (tag, what, x))
            return False
        if len(set(round(t, 3) for t in m)) > 1:
            o.bad(what, '%smore than one %s at %.1f' % (tag, what, x))
            return False
        got = [t for t in got if t not in m]
    if got:
        o.bad(what, '%sunexpected %s at %.1f' % (tag, what, got[0]))
        return False
    return True


def judge(o, seg, seen_scan=True):
    """scans, updates, predictions and saves, and their times"""
    r = seg.r
    tag = ''
    # listings of /proc: one at the start, then one per scan; several openings at one time are one
    sc = [e.t for e in r.trace if e.name == 'opendir' and e.a[0] == '/proc' and not e.pid]
    if not sc or sc[0] > 0.2:
        o.bad('scan', 'no listing of processes at the start')
        return False
    exp = [x[1] for x in seg.obs if x[0] == 'scan']
    o.count('scans', len(exp))
    late = sc[1:]
    if not match(o, exp, late, 'scan', tag):
        return False
    per = {}
    for t in late:
        per[round(t, 2)] = per.get(round(t, 2), 0) + 1
    if per and max(per.values()) > 1:
        o.bad('scan', 'the processes are listed %d times in one cycle' % max(per.values()))
        return False
    exp = [x[1] for x in seg.obs if x[0] == 'tick2' and x[2]]
    o.count('updates', len(exp))
    up = times_of(e.t for e in r.trace if e.name in ('fopen', 'open') and e.a[0] == '/proc/%d/maps' % MARKER and not e.pid)
    if not match(o, exp, up, 'model update', tag):
        return False
    P, left = seg.predictions()
    if left:
        o.bad('prediction', 'reads ahead %r at %.1f, when no prediction is due' % (left[0].path, left[0].t))
        return False
    for t, (need, av, cf, tm, lns, miss), qs in P:
        o.count('predictions')
        keys = [q.key() for q in qs]
        if need is None:
            continue
        if keys:
            o.count('nonempty_predictions')
        for k in keys:
            if keys.count(k) > 1:
                o.bad('prediction', 'reads ahead %r twice at %.1f' % (k, t))
                return False
        x = (M.judge_missing(need, av, set(keys), miss) if miss else M.judge_selection(need, av, set(keys)))
        if x:
            o.bad('prediction', 'at %.1f: %s' % (t, x))
            return False
    exp = [(x[1], x[2][0]) for x in seg.obs if x[0] == 'save' and x[2][1] is not None]
    ren = [e.t for e in r.trace if e.name == 'rename' and e.a[1] == R.STATE and e.a[-1] == '0']
    for x, how in exp:
        m = [t for t in ren if (W.near(t, x) if how == 'autosave' else abs(t - x) < .3)]
        o.count('saves')
        o.seen('save_kinds', how)
        if len(m) != 1:
            o.bad('save', 'the state is saved %d times at %.1f (%s)' % (len(m), x, how))
            return False
        ren = [t for t in ren if t not in m]
    none = [x[1] for x in seg.obs if x[0] == 'save' and x[2][1] is None]
    ren = [t for t in ren if not any(abs(t - y) < 1 for y in none)]
    if ren:
        o.bad('save', 'the state is saved at %.1f, when no save is due' % ren[0])
        return False
    return True


def run(o, exe, s, rng, conf, act, cycles, cats):
    w, apps, marker, st = world(s, rng)
    seg = W.Seg(w, conf, model=M.Model.from_state(st))
    h = G.Hist(seg, rng, apps)
    seg.launch(MARKER, marker)
    h.used = {MARKER}
    h.step()
    if rng.random() < .15:
        seg.setbat({'BAT0': 'Discharging'})
    seg.start()
    for c in range(rng.randint(*cycles)):
        seg.run_cycles(1)
        act(seg, h, rng)
        if rng.random() < .4:
            seg.to_update()
            act(seg, h, rng)
    seg.wait(rng.random() * conf.cycle)
    seg.term()
    if seg.ambiguous:
        return None
    o.sample = {'conf': conf_brief(conf), 'scenario': [l[:120] for l in seg.sc.text().splitlines()[:14]]}
    seg.execute(exe)
    o.count('runs')
    o.count('events', len(seg.r.trace))
    b = seg.basic()
    if b:
        o.bad('run', b)
        return False
    if not judge(o, seg):
        o.violations[-1] = (o.violations[-1][0], o.violations[-1][1] + ' [%s]' % describe(seg))
        return False
    d = seg.compare_saves(cats)
    if d:
        o.bad('state:' + d[0][0], d[0][1] + ' [%s]' % describe(seg))
        return False
    o.count('saves_compared', sum(1 for x in seg.saves() if x[2] is not None))
    return True
