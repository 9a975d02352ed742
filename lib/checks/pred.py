"""C12 and C14: predictions from generated and learned models under one algorithm."""
import random
from checks.common import *


def run(case, exes, algo):
    rng = random.Random(case['seed'])
    o = Out()
    exe = exes['san']
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(2, 8), shared=rng.randint(0, 4))
        if case['i'] % 4 == 3:
            history(o, exe, rng, ('wellformed',), nseg=2, cycles=(6, 20), sel=True, order=True, bids=True, world=w, apps=apps, p_usr2=.05,
                    action=mixer(cycle=.1, remove=.05),
                    conf=lambda r: rand_conf(r, minsize=0, prediction_algorithm=algo))
        else:
            conf = rand_conf(rng, doscan=rng.random() < .7, minsize=0, prediction_algorithm=algo, cycle=rng.choice([6, 8, 15, 20, 60, 120, 600]))
            if algo == 'VOMM':
                st = gen_state(rng, apps, conf, maxc=rng.choice([1, 3, 10, 100, 10**6]), tree=rng.choice([0, 0, 1, 2, 5, 20, 60]))
            else:
                st = gen_state(rng, apps, conf, maxc=rng.choice([1, 3, 10, 100, 10**6]), p_zero=rng.choice([.1, .4, .7]))
            s.write(R.STATE, state_text(st, rng))
            seg = W.Seg(w, conf, model=M.Model.from_state(st))
            pid = 50
            for a in rng.sample(apps, len(apps)):
                if rng.random() < .4:
                    for _ in range(rng.choice([1, 1, 2])):
                        pid += rng.randint(1, 50)
                        seg.launch(pid, a)
            seg.start()
            h = G.Hist(seg, rng, apps)
            for c in range(rng.randint(2, 8)):
                seg.setmem(MemAvailable=rng.choice([0, 2000, 6000, 12000, 300000, 6000000]) + rng.randint(0, 500))
                if rng.random() < .15:
                    seg.setbat(rng.choice([None, {'BAT0': 'Charging'}]))
                seg.run_cycles(1)
                if rng.random() < .7:
                    h.step()
                if rng.random() < .1:
                    reconf(seg, rng, cycle=rng.choice([6, 15, 30, 90]), usecorrelation=rng.random() < .5)
                if rng.random() < .3:
                    seg.to_update()
                    h.step()
            seg.term()
            o.sample = {'state': state_text(st).decode('utf-8', 'replace').splitlines()[:8], 'conf': conf_brief(conf)}
            finish(o, seg, exe, ('wellformed',), True, True, bids=True)
    o.nontrivial = o.stats['nonzero_bids'] > 0 or o.stats['nonempty_predictions'] > 0
    return o
