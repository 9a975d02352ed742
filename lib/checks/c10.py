"""C10: running times are accounted exactly."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
CATS = ('wellformed', 'clock', 'exetime', 'pairtime')
MIX = mixer(battery=.1, gates=.05, cycle=.1, remove=.1, algo=.05)
RULE = ('random histories of starts and stops (several processes per application, several changes per cycle) over two or three runs with battery phases, '
        'reloads, removals and crashes, from an empty or a generated state; every saved state is compared with the reference accounting; '
        'others: cycles of 1 to 5 s with the same applications running all the time; non-trivial: at least one state with running times above 0 was compared')
ASSUMPTIONS = ['time is virtual: timers fire exactly when due']


def cases(tier, seed):
    if tier == 'quick':
        return cases_n('C10', 1450, seed) + cases_n('C10t', 60, seed, kind='tiny')
    return cases_n('C10', 28000, seed) + cases_n('C10t', 2000, seed, kind='tiny')


def run_tiny(o, rng, exes):
    """cycles of few seconds, in which the order of timers and other events is open: with the same applications
    running all the time the times add up to the clock whatever the order"""
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(2, 5))
        cyc = rng.choice([1, 1, 2, 3, 4, 5])
        conf = rand_conf(rng, cycle=cyc, minsize=0, dopredict=rng.random() < .5, exeprefix=None, mapprefix=None, autosave=rng.choice([7, 100000]))
        up = rng.sample(apps, rng.randint(2, len(apps)))
        last = {}, 0
        for run in range(rng.randint(1, 3)):
            seg = W.Seg(w, conf)
            seg.started = True   # no reference schedule
            seg.t = 0
            if not run:
                for i, a in enumerate(up):
                    seg.launch(100 + i, a)
            else:
                for pid in sorted(w.procs):
                    seg.launch(pid, w.procs[pid])
            seg.t = rng.choice([3, 10, 40, 200]) * cyc + .37
            seg.sc.at(seg.t, 'sig', 15)
            seg.sc.at(seg.t + 2000, 'quit')
            r = R.run(exes['san'], s, seg.sc)
            o.count('tiny_runs')
            if r.hung or r.san or r.rc != 0:
                o.bad('run', 'cycle %d: run %d: %s' % (cyc, run + 1, W.first_report(r.san) if r.san else 'hangs' if r.hung else 'status %s' % r.rc + W.tail(r)))
                return
            try:
                st = M.State.parse(s.read(R.STATE))
            except (M.BadState, TypeError) as e:
                o.bad('state', 'cycle %d: run %d: %r' % (cyc, run + 1, e))
                return
            paths = sorted({a.path(conf) for a in up} - {None})
            for p in paths:
                t = st.exes[p][1] if p in st.exes else None
                if t is None:
                    o.bad('tiny', 'cycle %d: run %d: application %r, which runs all the time, is missing' % (cyc, run + 1, p))
                    return
                gain = t - last[0].get(p, 0)
                if not 0 <= st.time - last[1] - gain <= cyc:
                    o.bad('tiny', 'cycle %d: run %d: application %r runs all the time, the clock goes from %d to %d, but its running time by %d' % (cyc, run + 1, p, last[1], st.time, gain))
                    return
            for (a, b), l in st.markovs.items():
                for t, ttl, wt in l:
                    if a in paths and b in paths and (t != st.exes[a][1] or any(x for y in wt for x in y)):
                        o.bad('tiny', 'cycle %d: run %d: %r run together all the time (%d), their joint time is %d, transitions are %r' % (cyc, run + 1, (a, b), st.exes[a][1], t, wt))
                        return
                    o.count('pairs_checked')
            if st.time - last[1] < seg.t / 3:
                o.bad('tiny', 'cycle %d: run %d: after %d s the clock has gone from %d to %d' % (cyc, run + 1, seg.t, last[1], st.time))
                return
            last = {p: st.exes[p][1] for p in paths}, st.time
            o.nontrivial = True


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    if case.get('kind') == 'tiny':
        o.nontrivial = False
        run_tiny(o, rng, exes)
        return o
    o.nontrivial = False
    with R.Scratch() as s:
        exact = rng.random() < .4
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(2, 7))
        model = None
        if rng.random() < .3:
            st = gen_state(rng, rng.sample(apps, rng.randint(1, len(apps))), M.Conf())
            s.write(R.STATE, state_text(st, rng))
            model = M.Model.from_state(st)
        def conf(r):
            return rand_conf(r, dopredict=False)
        history(o, exes['san'], rng, CATS, nseg=rng.randint(1, 3), cycles=(3, 20), action=MIX, exact=exact, p_usr2=.25, p_mem=0, conf=conf,
                world=w, apps=apps, model=model)
        data = s.read(R.STATE)
        try:
            st = M.State.parse(data)
            for p, (ut, t) in st.exes.items():
                o.nontrivial = o.nontrivial or t > 0
                if t > st.time or t < 0:
                    o.bad('bound', 'running time %d of %r with a clock of %d' % (t, p, st.time))
            for (a, b), l in st.markovs.items():
                for t, _, _ in l:
                    o.count('pairs_checked')
                    if t < 0 or t > min(st.exes[a][1], st.exes[b][1]):
                        o.bad('bound', 'joint running time %d of %r, whose own are %d and %d' % (t, (a, b), st.exes[a][1], st.exes[b][1]))
        except M.BadState:
            pass
    return o
