"""C06: readahead covers exactly the selected ranges, in the chosen order."""
import errno, random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('models whose ranges overlap, nest, touch or lie apart within files of generated names, with generated inode and disk block numbers (small, equal, unknown, above 2^31), '
        'under each strategy (changed by reloads, too), some reached through symbolic links, with and without parallel reading, with files that vanish and files whose file system does not support readahead; the requests of each prediction, '
        'in order, are compared with the selection of the reference, sorted and joined; non-trivial: at least one prediction requested two or more pieces')
ASSUMPTIONS = ['disk blocks and inodes do not change while a range is in the model', 'FIBMAP, readahead and madvise are recording stand-ins']
PAGE = 4096


def cases(tier, seed):
    return cases_n('C06', 3000 if tier == 'quick' else 60000, seed)


def make(w, rng):
    """apps whose ranges each belong to another subset of the apps, so that needs differ"""
    n = rng.randint(2, 6)
    names = ['/usr/lib/a', '/usr/lib/a.so', '/usr/lib/a-b', '/usr/lib/a/b', '/usr/lib/B', '/usr/lib/\u00e9t\u00e9', '/usr/lib/z z', '/opt/x', '/lib/libc.so.6', '/usr/lib/\udcff', '/usr/lib/aa', '/usr/lib/~']
    if rng.random() < .5:
        names.remove('/usr/lib/a')
    else:
        names.remove('/usr/lib/a/b')
    files = rng.sample(names, rng.randint(1, 5))
    ranges = set()
    odd = rng.random() < .3
    big = 2 ** 19 if rng.random() < .12 else 1
    for f in files:
        pos = rng.choice([0, 0, PAGE * rng.randint(0, 2 ** 20), PAGE * rng.randint(0, 2 ** 30)])
        for _ in range(rng.randint(1, 12)):
            k = rng.random()
            prev = rng.choice(sorted(r for r in ranges if r[0] == f) or [(f, pos, PAGE * 10)])
            ln = PAGE * rng.choice([1, 2, rng.randint(1, 30), rng.randint(1, 300), rng.randint(1, 8) * big]) - (rng.randint(0, PAGE - 1) if odd else 0)
            if k < .25:      # touches
                r = (f, prev[1] + prev[2], ln)
            elif k < .35:    # almost touches
                r = (f, prev[1] + prev[2] + rng.choice([1, PAGE]), ln)
            elif k < .55:    # overlaps
                r = (f, prev[1] + rng.randint(0, max(1, prev[2] // PAGE)) * PAGE, ln)
            elif k < .7:     # inside
                a = rng.randint(0, prev[2] // PAGE) * PAGE
                r = (f, prev[1] + a, max(1, min(ln, prev[2] - a)))
            elif k < .8:     # the same start
                r = (f, prev[1], ln)
            else:
                r = (f, pos + PAGE * rng.randint(0, 500) * rng.choice([1, big]), ln)
            ranges.add(r)
        (w.mklink if rng.random() < .25 else w.mkfile)(f, b'x' * 10)
    exes = []
    for i in range(n):
        p = '/usr/bin/app%02d' % i
        w.mkfile(p)
        exes.append([p, []])
    subsets = list(range(1, 2 ** n))
    rng.shuffle(subsets)
    for j, r in enumerate(sorted(ranges, key=lambda r: (rng.random()))):
        sub = subsets[j % len(subsets)]
        for i in range(n):
            if sub >> i & 1:
                exes[i][1].append(r)
    return [M.App(p, m) for p, m in exes], files


def path_key(k):
    return (k[0].encode('utf-8', 'surrogateescape'), k[1], -k[2])


def merged_both(seq):
    """like M.merged, but also joining a range that begins before the previous one"""
    out = []
    for p, o, l in seq:
        if out and out[-1][0] == p and o <= out[-1][1] + out[-1][2] and out[-1][1] <= o + l:
            end = max(o + l, out[-1][1] + out[-1][2])
            out[-1][1] = min(out[-1][1], o)
            out[-1][2] = end - out[-1][1]
        else:
            out.append([p, o, l])
    return [tuple(x) for x in out]


def select(need, av):
    """the selection, most needed first; and whether it is open for equal needs"""
    ks = sorted((k for k in need if need[k] < 0), key=lambda k: need[k])
    out, left, tie = [], av, False
    for n, k in enumerate(ks):
        if M.kb(k[2]) > left:
            break
        left -= M.kb(k[2])
        out.append(k)
    for a, b in zip(ks, ks[1:]):
        if need[b] - need[a] <= 2e-9 * (1 + abs(need[b])):
            tie = True
    border = len(out) < len(ks) and (tie or need[ks[len(out)]] > -1e-12) or any(need[k] > -1e-12 for k in out)
    return out, tie, border


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps, files = make(w, rng)
        strat = rng.choice([0, 1, 2, 3, 3])
        conf = rand_conf(rng, minsize=0, sortstrategy=strat, cycle=8, memfree=100, memtotal=0, memcached=0, membuffers=0, maxprocs=rng.choice([0, 0, 1, 2, 5, 30]),
                         prediction_algorithm=rng.choice(['Markov', 'Markov', 'Markov', 'VOMM']))
        st = gen_state(rng, apps, conf, tree=rng.choice([5, 30]))
        s.write(R.STATE, state_text(st, rng))
        seg = W.Seg(w, conf, model=M.Model.from_state(st))
        # inodes and blocks; what is not in a table has an inode of its own and no block
        ino, blk, bsz = {}, {}, {}
        allf = files + [a.exe for a in apps]
        small = rng.random() < .3
        for f in allf:
            ino[f] = rng.randint(1, 4) if small else rng.choice([rng.randint(1, 10 ** 6), rng.randint(2 ** 31 - 2, 2 ** 31 + 2), rng.randint(2 ** 32 - 2, 2 ** 32 + 5), rng.randint(1, 2 ** 40)])
            seg.at('ino', f, ino[f])
            if rng.random() < .3:
                bsz[f] = rng.choice([512, 1024, 4096, 65536])
                seg.at('bsz', f, bsz[f])
            k = rng.random()
            if k < .6:
                blk[f] = rng.randint(1, 5000) if small or rng.random() < .5 else rng.randint(1, 2 ** 29)
                seg.at('blk', f, blk[f])
            elif k < .75:
                blk[f] = 0   # a hole
                seg.at('blk', f, 0)
        unsupported = {}
        for f in files:
            if rng.random() < .2:
                e = rng.choice([errno.EINVAL, errno.ENOSYS, errno.EOPNOTSUPP, errno.EIO])
                unsupported[f] = e
                seg.at('rule', 'c:readahead' if conf.maxprocs else 'readahead', f, 1, 1000000, 'err', e)
        nommap = {f for f in unsupported if rng.random() < .2}
        for f in nommap:
            seg.at('rule', 'c:mmap' if conf.maxprocs else 'mmap', f, 1, 1000000, 'err', errno.ENODEV)
        denied = {f for f in files if rng.random() < .06}
        for f in denied:
            seg.at('rule', 'open', f, 1, 1000000, 'err', errno.EACCES)
            seg.at('rule', 'c:open', f, 1, 1000000, 'err', errno.EACCES)
        h = G.Hist(seg, rng, apps)
        h.step(p_start=.2)
        seg.start()
        gone_at = {0.0: set(denied)}
        gone = set(denied)
        resort = rng.random() < .3
        for _ in range(rng.randint(2, 6)):
            if resort and seg.t and rng.random() < .5:
                reconf(seg, rng, sortstrategy=rng.choice([0, 1, 2, 2, 3, 3]), maxprocs=conf.maxprocs and rng.choice([1, 2, 5]))
                seg.wait(.3)
            gone_at[len([x for x in seg.obs if x[0] == 'predict'])] = set(gone)
            seg.run_cycles(1)
            h.step(p_start=.15)
            seg.setmem(MemAvailable=rng.choice([10 ** 9, 10 ** 9, 10 ** 9, rng.randint(0, 20000)]))
            if rng.random() < .15:
                f = rng.choice(files)
                if f in gone and f not in denied:
                    seg.touch(f)
                    seg.at('ino', f, ino[f])
                    gone.discard(f)
                elif f not in denied:
                    seg.rm(f)
                    gone.add(f)
        gone_at[len([x for x in seg.obs if x[0] == 'predict'])] = set(gone)
        seg.term()
        o.sample = {'conf': conf_brief(conf), 'ranges': [list(m) for m in apps[0].maps[:8]], 'ino': list(ino.items())[:4], 'blk': list(blk.items())[:4]}
        seg.execute(exes['san'])
        o.count('runs')
        b = seg.basic()
        if b:
            o.bad('run', b)
            return o
        block, blocks_of = {}, None
        P, left = seg.predictions()
        for n, (t, (need, av, cf, tm, lns, miss), qs) in enumerate(P):
            gone = gone_at.get(n, set())
            if cf.sortstrategy != strat:
                o.count('strategy_changes')
                strat = cf.sortstrategy
            sel, tie, border = select(need, av)
            if border:
                o.count('skipped_tie')
                if strat >= 2:
                    break   # which ranges get their block now is open
                continue
            o.count('predictions')
            if strat >= 2:
                if strat != blocks_of:
                    block, blocks_of = {}, strat
                for k in sel:
                    if k not in block:
                        f = k[0]
                        if f in gone:
                            block[k] = 0
                        elif strat == 3 and blk.get(f):
                            block[k] = blk[f] + k[1] // bsz.get(f, PAGE)
                            if block[k] >= 2 ** 31:
                                o.count('skipped_block')
                                return o
                        else:
                            block[k] = ino[f]
                order = sorted(sel, key=lambda k: (block[k],) + path_key(k))
            elif strat == 1:
                order = sorted(sel, key=path_key)
            else:
                order = sel
            exp = [x for x in M.merged(order) if x[0] not in gone]
            ra = [q for q in qs if q.kind == 'readahead']
            got = [q.key() for q in ra]
            tag = 'prediction at %.1f, strategy %d, maxprocs %d: ' % (t, strat, cf.maxprocs)
            o.count('requests', len(got))
            cov, gcov = M.coverage([k for k in sel if k[0] not in gone]), M.coverage(got)
            if cov != gcov:
                f = sorted(x for x in set(cov) | set(gcov) if cov.get(x) != gcov.get(x))[0]
                o.bad('coverage', tag + 'of %r the ranges %r are requested, selected are %r' % (f, gcov.get(f), cov.get(f)))
                return o
            if not (strat == 0 and tie):
                if got != exp and not (strat == 0 and got == [x for x in merged_both(order) if x[0] not in gone]):
                    i = next((i for i in range(max(len(got), len(exp))) if got[i:i + 1] != exp[i:i + 1]), 0)
                    o.bad('order', tag + 'request %d is %r, expected %r' % (i + 1, got[i:i + 1], exp[i:i + 1]))
                    return o
                o.count('exact_orders')
                o.seen('orders', tuple(got))
            if len(got) > 1:
                o.nontrivial = True
            if len(got) < len([k for k in sel if k[0] not in gone]):
                o.count('with_joined_ranges')
            # the fallback
            for q in ra:
                e = unsupported.get(q.path)
                if not e:
                    continue
                fb = [x for x in qs if x.kind != 'readahead' and x.path == q.path and (x.pid == q.pid if q.pid else True)]
                if e == errno.EIO or q.path in nommap:
                    o.count('no_fallback')
                    continue
                lo, hi = q.off // PAGE * PAGE, (q.off + q.len + PAGE - 1) // PAGE * PAGE
                if not any(x.off <= q.off and x.off + x.len >= q.off + q.len and lo <= x.off and x.off + x.len <= hi and (x.kind == 'fadvise' or x.off % PAGE == 0) for x in fb):
                    o.bad('fallback', tag + 'no fallback covers %r, of which readahead is not supported; there are %r' % (q.key(), [(x.kind, x.off, x.len) for x in fb][:5]))
                    return o
                o.count('fallbacks')
            for x in qs:
                if x.kind != 'readahead' and unsupported.get(x.path) is None:
                    o.bad('fallback', tag + '%s of %r, though readahead worked' % (x.kind, x.path))
                    return o
        adv = [e for e in seg.r.trace if e.name == 'madvise' and e.a[3] != '3']
        if adv:
            o.bad('fallback', 'madvise of %r with advice %s' % (adv[0].a[0], adv[0].a[3]))
        mm = [e for e in seg.r.trace if e.name == 'mmap' and e.a[0] in files and (e.a[3] != '1' or False)]
        if mm:
            o.bad('fallback', '%r is mapped with protection %s' % (mm[0].a[0], mm[0].a[3]))
        if not seg.r.san and conf.maxprocs == 0:
            op = sum(1 for e in seg.r.trace if e.name == 'mmap' and e.a[-1] == '0' and e.a[0] in files)
            cl = sum(1 for e in seg.r.trace if e.name == 'munmap' and e.a[0] in files)
            if op != cl:
                o.bad('fallback', '%d mappings are made but %d removed' % (op, cl))
    return o
