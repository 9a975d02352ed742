"""C04: prefetching never exceeds the configured memory budget."""
import random
from checks.common import *
from checks.c06 import select

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('models with many ranges (sizes from a few bytes to terabytes, around multiples of 1 kB; one or many of a file, apart, touching or overlapping), memory statistics (missing lines, old kernels without MemAvailable, any '
        'magnitude up to 2^44 kB) and percentages within and beyond -100..100, and budgets aimed at the exact sum of the first n ranges, one less and one more; the total of '
        'what is requested in each cycle, and where the selection stops, are compared with the budget computed from the documentation; non-trivial: the budget cut the selection')
ASSUMPTIONS = ['a range counts as its length rounded up to 1 kB', 'percentages are applied to hundredths rounded down, as integers']


def cases(tier, seed):
    return cases_n('C04', 4000 if tier == 'quick' else 80000, seed)


def pct(rng):
    return rng.choice([0, 0, 1, -1, 10, -10, 50, 100, -100, 99, -99, 101, -101, 150, -150, 1000, -1000, 2 ** 31 - 1, -2 ** 31, rng.randint(-100, 100), rng.randint(-100, 100), rng.randint(-400, 400)])


def memory(rng):
    big = rng.choice([10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 2 ** 31 - 1, 2 ** 34, 2 ** 42])
    total = rng.randint(100, big)
    m = {'MemTotal': total, 'MemFree': rng.randint(0, total), 'MemAvailable': rng.randint(0, total), 'Buffers': rng.randint(0, total // rng.choice([1, 10])),
         'Cached': rng.randint(0, total // rng.choice([1, 2, 10]))}
    for k in list(m):
        p = rng.random()
        if p < (.25 if k == 'MemAvailable' else 0 if k == 'Cached' else .04):
            m[k] = None
        elif p < (.35 if k == 'MemAvailable' else .1):
            m[k] = 0
    return m


TERM = {'Cached': 'memcached', 'Buffers': 'membuffers', 'MemTotal': 'memtotal', 'MemAvailable': 'memfree', 'MemFree': 'memfree'}


def aimed(rng, aim):
    """percentages under which one statistic sets the budget in steps of 1 kB"""
    d = {k: rng.choice([0, 0, 1, -1, 7]) for k in ('memtotal', 'memfree', 'memcached', 'membuffers')}
    d[TERM[aim]] = 1
    return d


def aim_at(rng, aim, conf, tot):
    """statistics that give a budget of tot, if there are such"""
    big = rng.choice([200, 100 * abs(tot) + 200])
    m = {k: rng.randint(0, big) for k in ('MemTotal', 'MemFree', 'MemAvailable', 'Buffers', 'Cached')}
    if aim == 'MemFree':
        m['MemAvailable'] = rng.choice([None, 0])
    m[aim] = 0
    v = 100 * tot + rng.choice([0, 0, 99]) - 100 * M.budget(m, conf)
    if aim in ('MemFree', 'MemAvailable', 'MemTotal'):
        x = dict(m)
        x[aim] = 10 ** 13       # a sum above zero, so that nothing is cut off
        v = 100 * tot + rng.choice([0, 0, 99]) - 100 * (M.budget(x, conf) - 10 ** 11)
        if aim == 'MemFree':
            v += rng.randint(-120, 120)
    m[aim] = v
    return m if 0 <= v < 2 ** 44 else {}


class CWorld(W.World):
    tail = ''

    def mem_text(self):
        return W.World.mem_text(self) + self.tail


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = CWorld(s, rng)
        w.tail = rng.choice(['', '', 'SwapCached:         7777 kB\nActive:          3000000 kB\nInactive:        2000000 kB\nActive(anon):     900000 kB\nInactive(anon):       12 kB\nSwapTotal:     123456 kB\n' + 'X:  1 kB\n' * rng.choice([1, 400])])
        n = rng.randint(2, 7)
        per = rng.choice([1, 3, 10, 40])
        unit = rng.choice([1, 1024, 4096, 100000, 10 ** 6, 10 ** 8, 10 ** 11])
        apps = []
        multi = rng.choice([0, .2, .8])
        overlap = multi and rng.random() < .25
        nfiles = rng.choice([1, 3, per, per])
        for i in range(n):
            p = '/usr/bin/app%02d' % i
            w.mkfile(p)
            maps = []
            for j in range(per):
                q = '/usr/lib/l%02d_%02d' % (i if rng.random() < .8 else 0, j % nfiles)
                w.mkfile(q)
                ln = max(1, rng.choice([rng.randint(1, 5), rng.randint(1, 5) + 1023, 1024, 2047, 2048, 2049, rng.randint(1, 100000)]) * unit // rng.choice([1, 1024]))
                old = [z for a in apps for z in a.maps if z[0] == q]
                if old and rng.random() >= multi:
                    maps += [z for z in old if z not in maps]
                    continue
                # several ranges of one file: apart, or (then requests are joined) touching and overlapping
                mine = [z for z in maps + old if z[0] == q]
                end = max((z[1] + z[2] for z in mine), default=0)
                z = rng.choice(mine) if mine else None
                if overlap and z:
                    off = rng.choice([z[1] + z[2], z[1], z[1] + z[2] // 2])
                else:
                    off = end + rng.choice([1, 4096, 4096 * rng.randint(1, 90)]) if z else 4096 * rng.randint(0, 9)
                k = (q, off, ln)
                if k not in maps:
                    maps.append(k)
            apps.append(M.App(p, maps))
        conf = rand_conf(rng, minsize=0, cycle=rng.choice([8, 20]), memtotal=pct(rng), memfree=pct(rng), memcached=pct(rng), membuffers=pct(rng))
        aim = rng.choice([None, 'Cached', 'MemAvailable', 'MemFree', 'MemTotal', 'Buffers'])
        if aim:
            conf = M.Conf(**dict(conf.given, **aimed(rng, aim)))
        if rng.random() < .15:
            conf = M.Conf(**{k: v for k, v in conf.given.items() if not k.startswith('mem')})
            aim = None
        st = gen_state(rng, apps, conf, tree=rng.choice([0, 10, 40]))
        s.write(R.STATE, state_text(st, rng))
        w.mem = memory(rng)
        s.write('/proc/meminfo', w.mem_text())
        seg = W.Seg(w, conf, model=M.Model.from_state(st))
        h = G.Hist(seg, rng, apps, exact=False)
        h.step(p_start=.15)
        seg.start()
        for _ in range(rng.randint(2, 10)):
            seg.run_cycles(1)
            if rng.random() < .2:
                h.step(p_start=.2)
            m = memory(rng)
            if aim and rng.random() < .8:
                need = seg.m.need(conf)
                ks = sorted((k for k in need if need[k] < 0), key=lambda k: need[k])
                tot = sum(M.kb(k[2]) for k in ks[:rng.randint(0, len(ks))]) + rng.choice([-1, 0, 0, 1])
                m.update(aim_at(rng, aim, conf, tot))
            seg.setmem(**m)
            if rng.random() < .1:
                reconf(seg, rng, memtotal=pct(rng), memfree=pct(rng), memcached=pct(rng), membuffers=pct(rng))
                aim = None
        seg.term()
        o.sample = {'conf': conf_brief(conf), 'meminfo': w.mem, 'sizes': [k[2] for k in apps[0].maps[:6]]}
        if not finish(o, seg, exes['san'], (), sel=not overlap):
            return o
        P, _ = seg.predictions()
        for t, (need, av, cf, tm, lns, miss), qs in P:
            cand = [k for k in need or () if need[k] < 0]
            if overlap and need is not None:
                sel, tie, border = select(need, av)
                if tie or border:
                    o.count('skipped_open')
                    continue
                o.count('joined_selections')
                x, y = M.coverage(q.key() for q in qs), M.coverage(sel)
                if x != y:
                    f = min(p for p in set(x) | set(y) if x.get(p) != y.get(p))
                    o.bad('selection', 'prediction at %.1f, budget %d kB: of %r the parts %r are prefetched, those of the ranges that fit are %r' % (t, av, f, x.get(f), y.get(f)))
                    return o
                used = sum(M.kb(k[2]) for k in sel)
            else:
                used = sum(M.kb(q.len) for q in qs)
            o.seen('budgets', av)
            if av <= 0:
                o.count('zero_budgets')
            if cand and len(qs) < len(cand):
                o.count('cut_by_budget')
                o.nontrivial = True
            if any(a.path == b.path for a, b in zip(qs, qs[1:])):
                o.count('neighbours_of_one_file')
            if qs and used == av:
                o.count('budget_used_up_exactly')
            o.seen('fill', (len(qs), used))
    return o
