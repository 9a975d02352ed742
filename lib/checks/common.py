"""What several checks share."""
import calendar, math, random, re, time
import run as R
import model as M
import world as W
import gen as G
from framework import Out, seed_for


def cases_n(prop, n, seed, **kw):
    return [dict(i=i, seed=seed_for(prop, i, seed), **kw) for i in range(n)]


def rand_conf(rng, **kw):
    d = dict(cycle=rng.choice([8, 9, 10, 15, 20, 21, 40]), minsize=rng.choice([0, 100000, 2000000]),
             prediction_algorithm=rng.choice(['VOMM', 'Markov']), maxprocs=0, sortstrategy=0,
             usecorrelation=rng.random() < .5, autosave=100000)
    d.update(kw)
    return M.Conf(**d)


def describe(seg):
    c = seg.conf
    return 'algorithm %s, cycle %d, minsize %d, %d cycles' % (c.prediction_algorithm, c.cycle, c.minsize, sum(1 for x in seg.obs if x[0] == 'tick'))


def finish(o, seg, exe, cats, sel=False, order=False, tag='', bids=False, **kw):
    """run a scenario that has been built and compare with the reference; False if that was the end"""
    seg.execute(exe, **kw)
    b = seg.basic()
    o.count('runs')
    o.count('events', len(seg.r.trace))
    if b:
        o.bad('run', tag + b)
        return False
    if seg.ambiguous:
        o.count('skipped_ambiguous')
        return True
    sv = seg.saves()
    o.count('saves_compared', sum(1 for x in sv if x[2] is not None))
    for _, _, st, data, _, _ in sv:
        if st is not None and data:
            o.seen('states', data)
    d = seg.compare_saves(cats)
    if d:
        o.bad('state:' + d[0][0], tag + d[0][1] + ' [%s]' % describe(seg))
        return False
    if sel or order:
        P, left = seg.predictions()
        if left:
            o.bad('extra', tag + 'reads ahead %r at %.1f, when no prediction is due [%s]' % (left[0].path, left[0].t, describe(seg)))
            return False
        for t, (need, av, cf, tm, lns, miss), qs in P:
            if need is None:   # the order of two new applications is open
                o.count('skipped_open')
                continue
            o.count('predictions')
            ch = [q.key() for q in qs]
            if ch:
                o.count('nonempty_predictions')
                o.count('requests', len(ch))
                o.seen('selections', tuple(sorted(ch)))
            if len(set(ch)) != len(ch):
                o.bad('twice', tag + 'the same range is requested twice at %.1f' % t)
                return False
            x = (M.judge_missing(need, av, set(ch), miss) if miss else M.judge_selection(need, av, set(ch))) or (order and M.judge_order(need, ch))
            if x:
                o.bad('selection', tag + 'prediction at %.1f, budget %d kB: %s [%s]' % (t, av, x, describe(seg)))
                return False
    if bids:
        return check_bids(o, seg, tag)
    return True


def check_bids(o, seg, tag):
    logged = seg.bids()
    for x in seg.obs:
        if x[0] != 'predict' or x[2][0] is None:
            continue
        t, lns, got = x[1], x[2][4], logged.get(x[1])
        if got is None:
            o.count('predictions_without_logged_bids')
            continue
        o.count('bid_lists')
        for p, v in got.items():
            o.count('bids')
            if p not in lns:
                o.bad('bid', tag + 'at %.1f there is a bid for %r, which is running or unknown' % (t, p))
                return False
            e = lns[p]
            if e < 0:
                o.count('nonzero_bids')
                o.seen('bid_values', '%.4f' % e)
            if not (v == e or abs(v - e) <= 6e-5 + 1e-9 * abs(e)):
                o.bad('bid', tag + 'at %.1f the bid for %r is %.4f, expected %.6f [%s]' % (t, p, v, e, describe(seg)))
                return False
        for p, e in lns.items():
            if p not in got and e < -1e-4 and got:
                o.bad('bid', tag + 'at %.1f there is no bid for %r, expected %.6f' % (t, p, e))
                return False
    return True


def history(o, exe, rng, cats, nseg=2, cycles=(5, 20), conf=None, action=None, sel=False, order=False, apps=None, world=None,
            model=None, exact=True, p_crash=.1, p_step=.8, p_mid=.3, p_mem=.3, p_usr2=.1, big=1, scratch=None, seghook=None, segdone=None, **kw):
    """a random history over several runs of the daemon, compared with the reference all along"""
    w = world or W.World(scratch, rng)
    if apps is None:
        apps = G.make_apps(w, rng, rng.randint(2, 7), big=big)
    conf = conf or rand_conf
    for k in range(nseg):
        seg = W.Seg(w, conf(rng), model=model)
        h = G.Hist(seg, rng, apps, exact=exact)
        if exact:
            h.trim()
        if p_step:
            h.step()
        seg.start()
        if seghook:
            seghook(seg, h, rng)
        for c in range(rng.randint(*cycles)):
            seg.run_cycles(1)
            if rng.random() < p_step:
                h.step()
            if rng.random() < p_usr2:
                seg.usr2()
            if rng.random() < p_mem:
                seg.setmem(MemAvailable=rng.choice([0, 1000, 4000, 300000, 900000]))
            if action:
                action(seg, h, rng)
            if rng.random() < p_mid:
                seg.to_update()
                h.step()
        seg.wait(rng.random() * 20)
        if rng.random() < p_crash:
            seg.crash()
        else:
            seg.term(rng.choice([15, 2, 3]))
        if not o.sample:
            o.sample = {'scenario_start': seg.sc.text().splitlines()[:12], 'conf': conf_brief(seg.conf)}
        if segdone:
            segdone(seg)
        if not finish(o, seg, exe, cats, sel, order, 'run %d: ' % (k + 1), **kw):
            return False
        data = w.s.read(R.STATE)
        try:
            model = M.Model.from_state(M.State.parse(data) if data else None)
        except M.BadState as e:
            o.bad('state:wellformed', 'run %d leaves a state file that is not well-formed: %s' % (k + 1, e))
            return False
    return True


def conf_brief(c):
    return {k: v for k, v in c.given.items()}


# ------------------------------------------------------------------ generated states

def uri(p):
    return M.path_to_uri(p)


def state_text(st, rng=None, version='0.6.7', extra=()):
    """a state file; sequence numbers and order are arbitrary where the format allows"""
    out = ['PRELOAD\t%s\t%d' % (version, st.time)]
    rng = rng or random.Random(0)
    mk, ek = list(st.maps), list(st.exes)
    rng.shuffle(mk)
    rng.shuffle(ek)
    mi = {k: i + 1 for i, k in enumerate(mk)}
    ei = {k: i + 1 for i, k in enumerate(ek)}
    for k in mk:
        out.append('MAP\t%d\t%d\t%d\t%d\t-1\t%s' % (mi[k], st.maps[k], k[1], k[2], uri(k[0])))
    for p, sz in st.badexes.items():
        out.append('BADEXE\t%d\t-1\t%s' % (sz, uri(p)))
    for p in ek:
        out.append('EXE\t%d\t%d\t%d\t-1\t%s' % (ei[p], st.exes[p][0], st.exes[p][1], uri(p)))
    for p in ek:
        for k, pr in st.exemaps.get(p, []):
            out.append('EXEMAP\t%d\t%d\t%g' % (ei[p], mi[k], pr))
    for (a, b), lst in st.markovs.items():
        for t, ttl, w in lst:
            if rng.random() < .5:
                x, y, tt, ww = a, b, ttl, w
            else:
                x, y = b, a
                tt = [ttl[M.SW[i]] for i in range(4)]
                ww = [[w[M.SW[i]][M.SW[j]] for j in range(4)] for i in range(4)]
            out.append('MARKOV\t%d\t%d\t%d\t%s\t%s' % (ei[x], ei[y], t, '\t'.join('%g' % v for v in tt),
                                                     '\t'.join('%d' % ww[i][j] for i in range(4) for j in range(4))))
    n = [0]

    def walk(d, par):
        ks = list(d)
        rng.shuffle(ks)
        for p in ks:
            n[0] += 1
            me = n[0]
            out.append('VOMMNODE\t%d\t%d\t%d\t%d' % (me, ei[p], d[p][0], par))
            walk(d[p][1], me)
    walk(st.vomm, 0)
    out.extend(extra)
    return ('\n'.join(out) + '\n').encode('utf-8', 'surrogateescape')


def g6(x):
    return float('%g' % x)


def gen_tree(rng, paths, nodes, maxc=50, depth=5):
    root = {}
    for _ in range(nodes):
        d = root
        for _ in range(rng.randint(1, depth)):
            d = d.setdefault(rng.choice(paths), [rng.choice([0, 1, 2, rng.randint(1, maxc)]), {}])[1]
    return root


def gen_state(rng, apps, conf, time=None, p_pairs=1.0, tree=None, maxc=50, times=None, p_zero=.3):
    """a well-formed state about the given applications"""
    st = M.State()
    T = st.time = time if time is not None else rng.choice([rng.randint(100, 2000), rng.randint(10000, 1000000), rng.randint(10**8, 10**9)])
    for a in apps:
        p = a.path(conf)
        st.exes[p] = (rng.randint(-1, T), rng.choice([0, T, rng.randint(0, T), rng.randint(0, T)]) if not times else times(rng, T))
        st.exemaps[p] = []
        for k in a.ranges(conf):
            st.maps.setdefault(k, rng.randint(0, T))
            st.exemaps[p].append((k, rng.choice([1.0, 1.0, 0.5, g6(rng.random()), 1e-07])))
    ps = sorted(st.exes)
    for i, a in enumerate(ps):
        for b in ps[i + 1:]:
            if rng.random() >= p_pairs:
                continue
            w = [[0] * 4 for _ in range(4)]
            ttl = [0.0] * 4
            for s in range(4):
                if rng.random() < p_zero:
                    continue
                for n in range(4):
                    if n != s and rng.random() < .6:
                        w[s][n] = rng.randint(1, maxc)
                w[s][s] = sum(w[s])
                if w[s][s]:
                    ttl[s] = g6(rng.choice([rng.uniform(1.5, 50), rng.uniform(10, 5000), rng.uniform(.2, 1), 1, 1.00001, rng.randint(1, 10**6)]))
            lo = max(0, st.exes[a][1] + st.exes[b][1] - T)
            hi = min(st.exes[a][1], st.exes[b][1])
            st.markovs[(a, b)] = [(rng.choice([lo, hi, rng.randint(lo, hi)]), ttl, w)]
    if tree is None:
        tree = rng.choice([0, rng.randint(1, 6), rng.randint(5, 40)])
    if tree:
        st.vomm = gen_tree(rng, ps, tree, maxc)
    return st


# ------------------------------------------------------------------ actions during a history

def reconf(seg, rng, **kw):
    d = dict(seg.conf.given)
    d.update(kw)
    seg.hup(M.Conf(**d))


def mixer(battery=0.0, gates=0.0, cycle=0.0, algo=0.0, remove=0.0, back=.3, files=None):
    """an action for history(): now and then something happens that has to do with the property"""
    def act(seg, h, rng):
        w = seg.w
        if rng.random() < battery:
            seg.setbat(rng.choice([None, {'BAT0': 'Discharging'}, {'BAT0': 'Charging'}, {'BAT1': 'Full', 'BAT3': 'Discharging'},
                                   {'BAT0': 'Unknown'}, {'BAT0': 'Not charging', 'BAT9': 'Discharging'}]))
        if rng.random() < gates:
            reconf(seg, rng, doscan=rng.random() < .6, dopredict=rng.random() < .6)
        if rng.random() < cycle:
            reconf(seg, rng, cycle=rng.choice([6, 7, 8, 9, 11, 20, 33, 60]))
        if rng.random() < algo:
            reconf(seg, rng, prediction_algorithm=rng.choice(['VOMM', 'Markov']))
        if rng.random() < remove:
            a = rng.choice(h.apps)
            p = a.path(seg.conf)
            st = w.files.get(p, 'gone')
            if st == 'file':
                rng.choice([seg.rm, seg.rm, seg.todir])(p)
            else:
                seg.touch(p)
            if rng.random() < .7:
                seg.usr2()
    return act


# ------------------------------------------------------------------ dumps (SIGUSR1)

STAMP = re.compile(r'^\[(\w{3} \w{3} [ \d]\d \d\d:\d\d:\d\d \d{4})\] (.*)$')


def stamp(line):
    """seconds since the start, and the message, of a line of the log; or None"""
    m = STAMP.match(line)
    if not m:
        return None
    try:
        return calendar.timegm(time.strptime(m.group(1), '%a %b %d %H:%M:%S %Y')) - R.EPOCH, m.group(2)
    except ValueError:
        return None


def dumps(log):
    """list of (time, counts, configuration) of the dumps in a log"""
    out, cur, t = [], None, None
    stats, conf, grp = {}, None, None
    for line in log.splitlines():
        st = stamp(line)
        if st:
            if 'state log dump requested' in st[1]:
                t, stats, conf = st[0], {}, None
            continue
        m = re.match(r'\[(\w+)\]$', line)
        if m:
            grp = m.group(1)
            conf = {} if conf is None else conf
            continue
        m = re.match(r'(\w[\w ]*?) = ?(.*)$', line)
        if m and t is not None:
            if conf is not None:
                conf[(grp, m.group(1))] = m.group(2)
            else:
                stats[m.group(1)] = m.group(2)
        if line.startswith('# loaded configuration - end') and conf is not None:
            out.append((t, stats, conf))
            stats, conf = {}, None
    return out


def conf_values(conf):
    """the dump of a configuration, as (group, key) -> text"""
    out = {}
    for grp, keys in (('model', M.MODEL_KEYS), ('system', M.SYSTEM_KEYS)):
        for k in keys:
            v = getattr(conf, k)
            if v is True or v is False:
                v = 'true' if v else 'false'
            elif isinstance(v, (list, tuple)):
                v = ';'.join(v)
            elif v is None:
                v = ''
            out[(grp, k)] = str(v)
    return out


def diff_conf(exp, got):
    for k in sorted(exp):
        if k not in got:
            return 'the dump does not show %s.%s' % k
        if got[k] != exp[k]:
            return '%s.%s is %r, expected %r' % (k[0], k[1], got[k], exp[k])
    return None
