"""C05: the most needed files are prefetched first, and only needed ones."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('random histories of applications with shared and private files over two runs, or generated state files and a few running applications, '
        'under both algorithms with generated memory statistics; in every cycle the requests are compared with the reference ranking; '
        'a case is non-trivial if at least one prediction requested something')
ASSUMPTIONS = ['ties in need may be broken in any order', 'readahead is a recording stand-in']


def cases(tier, seed):
    n = 1600 if tier == 'quick' else 30000
    return cases_n('C05', n, seed)


def loaded(o, exe, rng, s):
    w = W.World(s, rng)
    many = rng.random() < .25
    # now and then hundreds of ranges
    apps = G.make_apps(w, rng, rng.randint(*((20, 90) if many else (2, 9))), shared=rng.randint(*((60, 400) if many else (1, 6))), big=rng.choice([1, 1, 4]), most=8 if many else None)
    conf = rand_conf(rng, doscan=rng.random() < (.5 if many else .8), minsize=0)
    st = gen_state(rng, apps, conf, p_pairs=rng.choice([.02, .1, .4]) if many else 1.0)
    s.write(R.STATE, state_text(st, rng))
    seg = W.Seg(w, conf, model=M.Model.from_state(st))
    pid = 50
    for a in apps:
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            pid += rng.randint(1, 50)
            seg.launch(pid, a)
    seg.start()
    h = G.Hist(seg, rng, apps)
    for c in range(rng.randint(2, 8)):
        seg.setmem(MemAvailable=rng.choice([0, 500, 2000, 4000, 8000, 16000, 300000, 6000000]) + rng.randint(0, 500))
        seg.run_cycles(1)
        if rng.random() < .7:
            h.step()
    seg.term()
    o.sample = {'state': state_text(st).decode('utf-8', 'replace').splitlines()[:8], 'conf': conf_brief(conf)}
    finish(o, seg, exe, ('wellformed',), True, True)


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    with R.Scratch() as s:
        if case['i'] % 2:
            loaded(o, exes['san'], rng, s)
        else:
            history(o, exes['san'], rng, ('wellformed',), nseg=2, cycles=(6, 18), sel=True, order=True, scratch=s, p_usr2=0)
    o.nontrivial = o.stats['nonempty_predictions'] > 0
    return o
