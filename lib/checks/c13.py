"""C13: the application-sequence tree records exactly the observed launches."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
CATS = ('wellformed', 'vomm')
MIX = mixer(battery=.03, gates=.03, cycle=.05, remove=.08, algo=.1)
RULE = ('random histories with at most one new application per scan over up to three runs under VOMM (with phases of Markov in between by reload or restart), '
        'from an empty state, a generated tree, or pairwise statistics alone; the tree in every saved state is compared with the reference and its depth bounded; '
        'non-trivial: the tree had at least three nodes')
ASSUMPTIONS = ['the order in which two applications that are both new in the same scan are recorded is open, so at most one is new per scan',
               'at start-up running applications are recorded in the order of their process ids']


def cases(tier, seed):
    return cases_n('C13', 1500 if tier == 'quick' else 30000, seed)


def size(d):
    return sum(1 + size(x[1]) for x in d.values())


def deep(d):
    return max([1 + deep(x[1]) for x in d.values()], default=0)


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(1, 7))
        model = None
        kind = rng.random()
        if kind < .5:
            st = gen_state(rng, rng.sample(apps, rng.randint(1, len(apps))), M.Conf(), tree=0 if kind < .25 else None)
            if st.vomm and rng.random() < .12:
                st.vomm = gen_tree(rng, sorted(st.exes), rng.randint(2, 20), depth=9)
            s.write(R.STATE, state_text(st, rng))
            model = M.Model.from_state(st)
        def conf(r):
            return rand_conf(r, dopredict=r.random() < .2, minsize=0, prediction_algorithm=r.choice(['VOMM', 'VOMM', '"VOMM"', 'Markov']))
        history(o, exes['san'], rng, CATS, nseg=rng.randint(1, 3), cycles=(3, 25), action=MIX, exact=True, p_usr2=.2, p_mem=0,
                conf=conf, p_crash=.1, world=w, apps=apps, model=model)
        try:
            st = M.State.parse(s.read(R.STATE))
            n = size(st.vomm)
            o.count('nodes_in_last_state', n)
            o.nontrivial = n > 2
            o.seen('trees', sorted(map(repr, st.vomm.items())))
            if deep(st.vomm) > M.MAXDEPTH:
                o.bad('depth', 'the tree is %d deep' % deep(st.vomm))
        except M.BadState:
            pass
    return o
