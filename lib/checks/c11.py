"""C11: transition statistics record exactly what happened."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
CATS = ('wellformed', 'pairs', 'trans')
MIX = mixer(battery=.05, gates=.03, cycle=.1, remove=.1, algo=.05)
RULE = ('random histories over up to four runs (restarts and crashes in between, many changes per cycle, applications removed and coming back), '
        'from an empty or a generated state; the transition statistics in every saved state are compared with the reference; '
        'non-trivial: a state with at least one recorded transition was compared')
ASSUMPTIONS = ['which of the two applications of a pair is written first is open']


def cases(tier, seed):
    return cases_n('C11', 1500 if tier == 'quick' else 30000, seed)


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(2, 7))
        model = None
        if rng.random() < .4:
            st = gen_state(rng, rng.sample(apps, rng.randint(1, len(apps))), M.Conf(), p_pairs=rng.choice([1, 1, .7]))
            s.write(R.STATE, state_text(st, rng))
            model = M.Model.from_state(st)
        def conf(r):
            return rand_conf(r, dopredict=False, minsize=0)
        history(o, exes['san'], rng, CATS, nseg=rng.randint(1, 4), cycles=(2, 18), action=MIX, exact=rng.random() < .4, p_usr2=.2, p_mem=0,
                conf=conf, p_crash=.2, world=w, apps=apps, model=model)
        try:
            st = M.State.parse(s.read(R.STATE))
            n = sum(sum(map(sum, w)) for l in st.markovs.values() for _, _, w in l)
            o.count('pairs_in_last_state', len(st.markovs))
            o.nontrivial = n > 0
        except M.BadState:
            pass
    return o
