"""C08: scanning and predicting happen only when enabled and not on battery."""
import random
from checks import sched
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('random sequences of reloads that turn scanning and predicting on and off, and of battery states of one or several batteries, while applications come and go; '
        'all listings of /proc, readahead requests and saved states are compared with the reference; non-trivial: at least one gate was closed for a cycle')
ASSUMPTIONS = ['batteries are BAT0 to BAT9 of /sys/class/power_supply']


def cases(tier, seed):
    return cases_n('C08', 3000 if tier == 'quick' else 30000, seed)


STATUS = ['Discharging', 'Discharging', 'Charging', 'Full', 'Not charging', 'Unknown', 'discharging', 'Discharging now', None, '', 'Discharging ', 'Discharging\n']


def run_case(case, exes):
    o = Out()
    for attempt in range(12):
        rng = random.Random('%d/%d' % (case['seed'], attempt))

        def act(seg, h, rng):
            if rng.random() < .7:
                h.step()
            k = rng.random()
            if k < .25:
                bats = rng.sample(range(10), rng.choice([0, 1, 1, 2, 4]))
                seg.setbat({'BAT%d' % b: rng.choice(STATUS) for b in bats} or None)
            elif k < .55:
                reconf(seg, rng, doscan=rng.random() < .5, dopredict=rng.random() < .5, prediction_algorithm=rng.choice(['VOMM', 'Markov', seg.conf.prediction_algorithm]))
            elif k < .65:
                seg.usr2()
        conf = rand_conf(rng, minsize=0, doscan=rng.random() < .6, dopredict=rng.random() < .6)
        with R.Scratch() as s:
            if rng.random() < .3:
                s.write('/sys/class/power_supply/AC/online', '0\n')
                s.write('/sys/class/power_supply/AC/status', 'Discharging\n')
            x = sched.run(o, exes['san'], s, rng, conf, act, (5, 25), M.ALL)
        if x is not None:
            return o
    o.nontrivial = False
    return o
