"""C01: what was learned survives a restart exactly."""
import random
from checks.common import *
from checks.c09 import name

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('state files as an earlier run may have left them (names of any bytes up to 511, large numbers, deep trees, fractional probabilities) or learned ones; two to four '
        'restarts under changing algorithms with no, little or much activity in between; everything in every saved state is compared with the reference, which resumed from '
        'the previous file; non-trivial: at least two applications and one saved state were compared')
ASSUMPTIONS = ['floating-point numbers are kept to the six digits of the file format', 'clock and counters stay below 2^31']


def cases(tier, seed):
    return cases_n('C01', 1500 if tier == 'quick' else 30000, seed)


def good(rng):
    while True:
        p = name(rng, True)
        if rng.random() < .06:
            # long, and nearly every byte of it needs to be escaped in a URI
            p = '/usr/' + ''.join('/' if i % 90 == 89 else rng.choice('\u00e9\u00fc\u4e2d%') for i in range(rng.randint(100, 260)))
            p = p.encode()[:511].decode('utf-8', 'ignore').rstrip('/')
        if '#prelink#' in p or '(deleted)' in p or M.blen(p) > 511 or p.endswith(('/', '/.', '/..')):
            continue
        return p


def file_name(rng):
    return good(rng).replace('\n', '\\')


def make(w, rng, n):
    libs = []
    for i in range(rng.randint(1, 4)):
        p = file_name(rng)
        libs += [(p, 4096 * rng.choice([0, rng.randint(1, 2 ** 20), rng.randint(1, 2 ** 45)]), 4096 * rng.choice([1, rng.randint(1, 500), rng.randint(1, 2 ** 18), rng.randint(2 ** 18, 2 ** 30)])) for _ in range(rng.choice([1, 1, 2]))]
    apps, seen = [], set()
    while len(apps) < n:
        e = good(rng)
        if e in seen:
            continue
        seen.add(e)
        maps = rng.sample(libs, rng.randint(0, len(libs))) + [(file_name(rng), 4096 * rng.randint(0, 50), 4096 * rng.randint(1, 300)) for _ in range(rng.choice([1, 1, 3]))]
        if '\n' not in e:
            maps.append((e, 0, 40960))
        apps.append(M.App(e, maps))
        if M.blen(e.rsplit('/', 1)[1]) <= 255:
            try:
                w.mkfile(e)
            except OSError:   # a directory is in the way
                w.files[e] = 'gone'
    return apps


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = make(w, rng, rng.randint(1, 6))
        conf0 = M.Conf(minsize=0)
        # whether an application survives a save depends on its file; files that could not be made are gone
        for a in apps:
            w.files.setdefault(a.exe, 'gone')
            import os
            try:
                st = os.stat(s.host(a.exe))
                w.files[a.exe] = 'file'
            except OSError as e:
                w.files[a.exe] = 'gone' if e.errno in (2, 20) else 'loop'
        model = None
        if rng.random() < .7:
            st = gen_state(rng, apps if rng.random() < .5 else rng.sample(apps, rng.randint(1, len(apps))), conf0, tree=rng.choice([0, 3, 20, 100]),
                           maxc=rng.choice([3, 1000, 10 ** 6]))
            s.write(R.STATE, state_text(st, rng))
            model = M.Model.from_state(st)
        style = rng.choice(['idle', 'few', 'many'])

        def conf(r):
            return rand_conf(r, minsize=0, cycle=r.choice([8, 20, 61]), dopredict=r.random() < .4)
        # predictions only have to be harmless here
        history(o, exes['san'], rng, M.ALL, nseg=rng.randint(2, 4), cycles={'idle': (1, 2), 'few': (1, 4), 'many': (4, 12)}[style], world=w, apps=apps, model=model,
                conf=conf, p_step={'idle': 0, 'few': .5, 'many': .8}[style], p_mid=0 if style == 'idle' else .2, p_usr2=.3, p_crash=.15, p_mem=.1)
        o.seen('style', style)
        data = s.read(R.STATE)
        if data:
            try:
                st = M.State.parse(data)
                o.nontrivial = len(st.exes) >= 2 and o.stats['saves_compared'] > 0
                o.seen('longest_path', max([M.blen(p) for p in st.exes] + [M.blen(k[0]) for k in st.maps] + [0]))
            except M.BadState:
                pass
    return o
