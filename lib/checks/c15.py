"""C15: exactly the stale applications are dropped from the model."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('random histories in which files of applications disappear, become directories, FIFOs, dangling or good symlinks or files below a file, or cannot be examined '
        '(EACCES, EIO, ELOOP), and come back, with saves between scan and update, between update and scan, or twice in a row; after every save the whole model, and in '
        'every cycle the prediction, is compared with the reference; non-trivial: at least one application was dropped or kept although its file could not be examined')
ASSUMPTIONS = ['readahead requests for files that cannot be opened are not observable']


def cases(tier, seed):
    return cases_n('C15', 1500 if tier == 'quick' else 30000, seed)


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    algo = rng.choice(['VOMM', 'Markov'])
    with R.Scratch() as s:
        w = W.World(s, rng)
        n = rng.randint(2, 6) if rng.random() < .95 else rng.randint(20, 50)
        names = ['/opt/p%d/bin%d' % (i, i) for i in range(n)]
        apps = G.make_apps(w, rng, n, names=names)
        w.mkfile('/opt/other')
        model = None
        if rng.random() < .4:
            st = gen_state(rng, rng.sample(apps, rng.randint(1, n)), M.Conf())
            s.write(R.STATE, state_text(st, rng))
            model = M.Model.from_state(st)

        def clear(seg, p):
            """whatever is at p (or instead of its directory) goes"""
            d = p.rsplit('/', 1)[0]
            seg.at('rm', p)
            seg.at('rm', d)
            seg.at('mkdir', d)

        def change(seg, h, rng):
            p = rng.choice(names)
            if n > 6 and rng.random() < .3:
                # a whole set of packages is removed
                for q in rng.sample(names, rng.randint(n // 2, n)):
                    clear(seg, q)
                    w.files[q] = 'gone'
                return
            kind = rng.choice(['gone', 'gone', 'gone', 'dir', 'fifo', 'dangling', 'good', 'notdir', 'touch', 'touch', 'fail', 'nofail', 'loop'])
            o.seen('kinds', kind)
            if kind == 'fail':
                if p not in seg.fail_stat:
                    seg.at('rule', 'stat', p, 1, 1000000, 'err', rng.choice([13, 5, 40, 12, 75]))
                    seg.fail_stat.add(p)
                return
            if kind == 'nofail':
                seg.at('norules')
                seg.fail_stat.clear()
                return
            clear(seg, p)
            if kind == 'gone':
                w.files[p] = 'gone'
            elif kind == 'dir':
                seg.at('mkdir', p)
                w.files[p] = 'dir'
            elif kind == 'fifo':
                seg.at('fifo', p)
                w.files[p] = 'dir'   # no regular file, and can be opened
            elif kind == 'dangling':
                seg.at('lnk', p, 'nowhere')
                w.files[p] = 'gone'
            elif kind == 'loop':
                seg.at('lnk', p, p.rsplit('/', 1)[1])
                w.files[p] = 'loop'
            elif kind == 'good':
                seg.at('lnk', p, '../other')
                w.files[p] = 'file'
            elif kind == 'notdir':
                d = p.rsplit('/', 1)[0]
                seg.at('rm', d)
                seg.at('put', d, '644', 'x')
                w.files[p] = 'gone'
            elif kind == 'touch':
                seg.at('put', p, '644', 'x')
                w.files[p] = 'file'

        def act(seg, h, rng):
            for _ in range(rng.choice([0, 1, 1, 2])):
                change(seg, h, rng)
            k = rng.random()
            if k < .3:
                seg.usr2()
            elif k < .5:
                seg.to_update()
                seg.usr2()
            elif k < .6:
                seg.usr2()
                change(seg, h, rng)
                seg.wait(.1)
                seg.usr2()
            elif k < .65:
                reconf(seg, rng, prediction_algorithm=rng.choice(['VOMM', 'Markov']))

        def conf(r):
            return rand_conf(r, minsize=0, prediction_algorithm=algo)

        history(o, exes['san'], rng, M.ALL, nseg=rng.randint(1, 3), cycles=(4, 15), action=act, sel=True, order=True, exact=True, p_usr2=0,
                conf=conf, world=w, apps=apps, model=model, segdone=lambda seg: dropped_count(o, seg))
    return o


def dropped_count(o, seg):
    for x in seg.obs:
        if x[0] == 'save':
            o.count('dropped', len(x[2][3]))
            if x[2][3]:
                o.nontrivial = True
    if seg.fail_stat:
        o.nontrivial = True
