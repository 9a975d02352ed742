"""C20: the daemon keeps its documented schedule."""
import random
from checks import sched
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('random configurations (cycles of 6 to 300 s, odd and even, autosave from a third of a cycle to many cycles) with reloads changing both, battery phases and '
        'signals in between; the virtual times of all listings of /proc, model updates, readahead requests and saves, and the clock in each saved state, are compared '
        'with the reference schedule; cases in which two timers fall due at once are made again')
ASSUMPTIONS = ['time is virtual: timers fire exactly when due', 'the cycle is at least 6 s']


def cases(tier, seed):
    return cases_n('C20', 3000 if tier == 'quick' else 30000, seed)


def run_case(case, exes):
    o = Out()
    for attempt in range(12):
        rng = random.Random('%d/%d' % (case['seed'], attempt))
        cyc = rng.choice([6, 7, 8, 9, 11, 15, 20, 21, 31, 60, 61, 300])
        save = rng.choice([100000, 100000, cyc * rng.randint(1, 9) + rng.choice([3, cyc // 4, cyc // 3]), rng.randint(max(3, cyc // 3), 4 * cyc)])
        mode = rng.choice(['plain', 'battery', 'reload', 'signals', 'all'])

        def act(seg, h, rng):
            if rng.random() < .6:
                h.step()
            if mode in ('battery', 'all') and rng.random() < .25:
                seg.setbat(rng.choice([None, {'BAT0': 'Discharging'}, {'BAT0': 'Discharging'}, {'BAT0': 'Charging', 'BAT4': 'Discharging'}, {'BAT0': 'Full'}]))
            if mode in ('reload', 'all') and rng.random() < .25:
                kw = {}
                if rng.random() < .8:
                    kw['cycle'] = rng.choice([6, 7, 10, 13, 20, 45, 90])
                if rng.random() < .4:
                    kw['autosave'] = rng.randint(10, 400)
                if rng.random() < .2:
                    kw['prediction_algorithm'] = rng.choice(['VOMM', 'Markov'])
                reconf(seg, rng, **kw)
            if mode in ('signals', 'all'):
                for _ in range(rng.choice([0, 1, 3])):
                    rng.choice([seg.usr1, seg.usr2, lambda: seg.hup(seg.conf), lambda: seg.at('sig', 17), lambda: seg.at('sig', 13)])()
                    if rng.random() < .5:
                        seg.wait(rng.random() * seg.conf.cycle)
        conf = rand_conf(rng, cycle=cyc, autosave=save, minsize=0)
        with R.Scratch() as s:
            x = sched.run(o, exes['san'], s, rng, conf, act, (4, 25), ('wellformed', 'clock', 'exetime'))
        if x is not None:
            o.seen('modes', mode)
            return o
    o.nontrivial = False
    return o
