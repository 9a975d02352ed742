"""C16: no memory error, undefined behaviour or leak in any history."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('(mix) random mixed histories over one to three runs, in debug mode and not: starts, stops, other programs under the same process id, programs below the threshold, removals, '
        'reloads with any other values, algorithm switches, dumps, saves, battery, memory, failing readahead and failing saves, all under ASan, UBSan and LSan; '
        'allocated bytes at the exit of a debug run are compared with those of a run that knew nothing; (period) a random pattern of such activities repeated 12 to 40 times, with allocated bytes and open '
        'descriptors measured at the same point of every repetition; non-trivial: the model was not empty at the end')
ASSUMPTIONS = ['heap bytes are those of the sanitizer\'s allocator']


def cases(tier, seed):
    n = 1600 if tier == 'quick' else 40000
    return [dict(i=i, seed=seed_for('C16', i, seed), kind='period' if i % 4 == 3 else 'mix') for i in range(n)]


def any_conf(rng, **kw):
    d = dict(cycle=rng.choice([6, 7, 8, 20, 21]), minsize=rng.choice([0, 0, 100000, 2000000]), prediction_algorithm=rng.choice(['VOMM', 'Markov', 'VOMM']),
             maxprocs=rng.choice([0, 0, 0, 1, 3, 30]), sortstrategy=rng.randint(0, 3), usecorrelation=rng.random() < .5,
             doscan=rng.random() < .92, dopredict=rng.random() < .92, autosave=rng.choice([13, 29, 100, 100000]),
             memfree=rng.choice([50, 100, -100]), memcached=rng.choice([0, 30]), memtotal=rng.choice([-10, 0, 20]))
    if rng.random() < .3:
        d['mapprefix'] = rng.choice([['/usr', '!/'], ['!/usr/lib', '/'], ['/usr/bin', '/usr/lib', '!/']])
    if rng.random() < .3:
        d['exeprefix'] = rng.choice([['/usr', '!/'], ['!/opt', '/']])
    d.update(kw)
    return M.Conf(**d)


OPS = ('usr1', 'usr2', 'hup', 'battery', 'mem', 'badconf', 'remove', 'toggle', 'swap', 'mid', 'rotate', 'burst', 'vanish')
ODDBAT = [{'BAT0': ''}, {'BAT0': None}, {'BAT0': 'x' * 9000}, {'BAT0': '\n\n'}, {'BAT0': 'Full', 'BAT1': 'Discharging'}, {'BAT1': 'Not charging'}, {'BAT0': '\xff'}]
GHOST = '00400000-00900000 r-xp 00000000 08:01 77 /usr/bin/ghost\n00900000-09900000 r--p 00000000 08:01 78 /usr/lib/ghost.so\n'


def act(op, seg, h, rng):
    w = seg.w
    if op == 'usr1':
        seg.usr1()
    elif op == 'usr2':
        seg.usr2()
    elif op == 'hup':
        seg.hup(any_conf(rng, cycle=seg.conf.cycle if rng.random() < .5 else 8))
    elif op == 'battery':
        seg.setbat(rng.choice([None, {'BAT0': 'Discharging'}, {'BAT0': 'Charging'}, *ODDBAT]))
    elif op == 'mem':
        seg.setmem(MemAvailable=rng.choice([0, 1000, 40000, 900000, 10**7]))
    elif op == 'badconf':
        seg.at('put', R.CONF, '644', rng.choice(['[model\n', '[model]\ncycle=x\n', '', '[model]\ncycle=7\n[system]\nsortstrategy=9\n', '[system]\nmapprefix=/a;/b\nmaxprocs=q\n', '[system]\nexeprefix=/u;/v\nprocesses=many\n',
                                                      '[model]\nusecorrelation=perhaps\n', '[system]\nprediction_algorithm=VOMM\nautosave=99999999999999\n']))
        seg.at('sig', 1)
        seg.wait(.3)
        seg.at('put', R.CONF, '644', seg.conf.text())
        seg.wait(.3)
        seg.at('sig', 1)
    elif op == 'remove':
        p = rng.choice(h.apps).path(seg.conf) or '/usr/bin/none'
        if w.files.get(p) == 'file':
            rng.choice([seg.rm, seg.todir])(p)
        else:
            seg.touch(p)
    elif op == 'toggle':
        seg.hup(M.Conf(**dict(seg.conf.given, prediction_algorithm='VOMM' if not seg.conf.vomm else 'Markov')))
    elif op == 'swap' and w.procs:
        pid = rng.choice(sorted(w.procs))
        seg.launch(pid, rng.choice(h.apps))
    elif op == 'mid':
        seg.to_update()
        h.step()
    elif op == 'rotate':
        seg.at('mv', R.LOG, R.LOG + '.1')
        seg.at('sig', 1)
    elif op == 'vanish':
        # a program never seen before ends while its mappings are read; it comes back now and then
        ghost(seg, rng.randint(1, 3), rng.choice(['fopen', 'fopen', 'fopen', 'read', 'close']))
        seg.run_cycles(1)
        seg.at('norules')
        if rng.random() < .7:
            seg.at('rmproc', 77777)
    elif op == 'burst':
        for _ in range(rng.randint(2, 6)):
            seg.at('sig', rng.choice([10, 12, 1]))
    seg.wait(.3)


def ghost(seg, nth, fn, count=1):
    seg.w.s.write('/vp/ghost', GHOST)
    seg.at('proc', 77777, '/usr/bin/ghost', '/vp/ghost')
    seg.at('rule', fn, '/proc/77777/maps', nth, count, 'err', 5 if fn == 'read' else 2)


def mapset(w, rng, n):
    apps = G.make_apps(w, rng, n)
    # programs too small to be tracked, and one that maps nothing acceptable
    apps.append(M.App('/usr/bin/tiny', [('/usr/bin/tiny', 0, 4096)]))
    w.mkfile('/usr/bin/tiny')
    apps.append(M.App('/opt/none', [('/dev/zero', 0, 4096)]))
    return apps


def verdict(o, r, what, ended='term'):
    log = r.log + r.stderr
    o.count('runs')
    o.count('events', len(r.trace))
    x = None
    if r.hung:
        x = 'the daemon hangs'
    elif r.san:
        x = W.first_report(r.san)
    elif r.stuck:
        x = 'the daemon sleeps for ever'
    elif ended == 'term' and r.rc != 0:
        x = 'status %s' % r.rc + W.tail(r)
    elif any(e.name == 'LEAK' and e.a[0] != '0' for e in r.trace):
        x = 'leak'
    else:
        m = re.search(r'^.*(assertion|CRITICAL).*$', log, re.M)
        if m:
            x = 'logs %r' % m.group(0)[:300]
    if x:
        o.bad('run', what + x)
        return False
    return True


def baseline(exe, args):
    """bytes and descriptors left at the exit of a run that has known nothing"""
    k = tuple(args)
    if k not in BASELINE:
        with R.Scratch() as s:
            w = W.World(s, random.Random(1))
            seg = W.Seg(w, M.Conf(cycle=8)).start()
            seg.run_cycles(2)
            seg.usr1()
            seg.wait(1)
            seg.term()
            r = R.run(exe, s, seg.sc, args=args, leak=True)
            BASELINE[k] = [(int(e.a[1]), int(e.a[2])) for e in r.trace if e.name == 'EXIT'][-1]
    return BASELINE[k]


BASELINE = {}
DEBUG = ['-c', R.CONF, '-s', R.STATE, '-d']


def mix(o, rng, exes):
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = mapset(w, rng, rng.randint(1, 9))
        if rng.random() < .4:
            s.write(R.STATE, state_text(gen_state(rng, rng.sample(apps[:-2], rng.randint(1, len(apps) - 2)), M.Conf()), rng))
        for k in range(rng.randint(1, 3)):
            seg = W.Seg(w, any_conf(rng))
            h = G.Hist(seg, rng, apps, exact=False)
            ops = rng.sample(OPS, rng.randint(0, 7))
            h.step()
            seg.start()
            for _ in range(rng.randint(2, 25)):
                seg.run_cycles(1)
                if rng.random() < .8:
                    h.step()
                if ops and rng.random() < .5:
                    act(rng.choice(ops), seg, h, rng)
            if rng.random() < .3:
                fn, path, e = rng.choice([('open', R.STATE + '.tmp', 28), ('write', R.STATE + '.tmp', 28), ('rename', R.STATE + '.tmp', 5), ('close', R.STATE + '.tmp', 5)])
                seg.at('rule', fn, path, 1, 1, 'err', e)
                seg.usr2()
                seg.wait(.5)
            if rng.random() < .3:
                seg.at('rule', rng.choice(['readahead', 'fork', 'stat', 'fibmap']), '-', rng.randint(1, 3), rng.choice([1, 5]), 'err', rng.choice([5, 11, 12]))
                seg.run_cycles(2)
            seg.wait(rng.random() * 9)
            if rng.random() < .1:
                seg.crash()
            else:
                seg.term(rng.choice([15, 2, 3]))
            debug = rng.random() < .6
            args = DEBUG if debug else ['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-f', '-V', rng.choice(['4', '9', '9', '10'])]
            r = R.run(exes['san'], s, seg.sc, args=args, leak=debug or rng.random() < .3)
            o.sample = o.sample or {'conf': conf_brief(seg.conf), 'operations': ops, 'debug': debug, 'cycles': sum(1 for x in seg.obs if x[0] == 'tick')}
            o.seen('mixes', (tuple(ops), debug, conf_brief(seg.conf)))
            if not verdict(o, r, 'run %d (%s): ' % (k + 1, ','.join(ops)), seg.ended):
                return
            ex = [e for e in r.trace if e.name == 'EXIT' and e.pid == 0]
            if seg.ended == 'term' and debug:
                b, b0 = int(ex[-1].a[1]), baseline(exes['san'], DEBUG)[0]
                o.count('exits_measured')
                o.seen('bytes_left_at_exit', b - b0)
                if b > b0 + 800:
                    o.bad('exit', 'run %d in debug mode ends with %d bytes allocated, %d more than one that has known nothing' % (k + 1, b, b - b0))
                    return
            if seg.ended == 'term':
                n, n0 = int(ex[-1].a[2]), baseline(exes['san'], args)[1]
                if n > n0 + 2:
                    o.bad('exit', 'run %d ends with %d open descriptors, %d more than one that has known nothing' % (k + 1, n, n - n0))
                    return
            data = s.read(R.STATE)
            try:
                st = M.State.parse(data) if data else None
                o.nontrivial = o.nontrivial or bool(st and st.exes)
            except M.BadState as e:
                o.bad('state', 'run %d leaves a state file that is not well-formed: %s' % (k + 1, e))
                return


def period(o, rng, exes):
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = mapset(w, rng, rng.randint(1, 6))
        confs = [any_conf(rng, cycle=8, autosave=rng.choice([16, 48, 100000])) for _ in range(2)]
        seg = W.Seg(w, confs[0])
        seg.start()
        seg.run_cycles(1)
        # the pattern: one list of things to do per cycle
        pat = []
        run = {}
        npid = 100
        for _ in range(rng.randint(2, 5)):
            ops = []
            for i, a in enumerate(apps):
                x = rng.random()
                if i not in run and x < .4:
                    npid += 1
                    run[i] = npid
                    ops.append(('launch', npid, a))
                elif i in run and x < .4:
                    ops.append(('kill', run.pop(i)))
            for _ in range(rng.choice([0, 1, 1, 2])):
                ops.append((rng.choice(['usr1', 'usr2', 'hup0', 'hup1', 'badconf', 'mem', 'rm', 'touch', 'bat', 'ac', 'oddbat', 'savefail', 'mid', 'rafail', 'rotate', 'ghost', 'ghost2']),))
            pat.append(ops)
        pat[-1] += [('kill', p) for p in run.values()] + [('hup0',), ('ac',)]
        target = rng.choice(apps).path(confs[0]) or '/usr/bin/none'
        names = sorted({x[0] for c in pat for x in c})
        odd = rng.choice(ODDBAT)
        K = rng.randint(12, 40)
        bad = rng.choice(['maxprocs=q', 'processes=q', 'dopredict=q', '[', 'autosave=9999999999999'])
        for k in range(K):
            for ops in pat:
                for x in ops:
                    n = x[0]
                    if n == 'launch':
                        seg.launch(x[1], x[2])
                    elif n == 'kill':
                        if x[1] in w.procs:
                            seg.kill(x[1])
                    elif n in ('usr1', 'usr2'):
                        getattr(seg, n)()
                        seg.wait(.2)
                    elif n in ('hup0', 'hup1'):
                        seg.hup(confs[int(n[3])])
                        seg.wait(.2)
                    elif n == 'badconf':
                        seg.at('put', R.CONF, '644', '[model]\ncycle=9\n[system]\nmapprefix=/a;/b\nprediction_algorithm=VOMM\n%s\n' % bad)
                        seg.at('sig', 1)
                        seg.wait(.2)
                    elif n == 'mem':
                        seg.setmem(MemAvailable=4000 if w.mem['MemAvailable'] != 4000 else 900000)
                    elif n == 'rm':
                        seg.rm(target)
                    elif n == 'touch':
                        seg.touch(target)
                    elif n == 'bat':
                        seg.setbat({'BAT0': 'Discharging'})
                    elif n == 'ac':
                        seg.setbat({'BAT0': 'Charging'})
                    elif n == 'oddbat':
                        seg.setbat(odd)
                    elif n == 'rotate':
                        seg.at('mv', R.LOG, R.LOG + '.1')
                        seg.at('sig', 1)
                        seg.wait(.2)
                    elif n == 'savefail':
                        seg.at('rule', 'write', R.STATE + '.tmp', 1, 1, 'err', 28)
                        seg.usr2()
                        seg.wait(.2)
                        seg.at('norules')
                    elif n == 'rafail':
                        seg.at('rule', 'readahead', '-', 1, 2, 'err', 22)
                        seg.run_cycles(1)
                        seg.at('norules')
                    elif n in ('ghost', 'ghost2'):
                        ghost(seg, 1 if n == 'ghost' else 2, 'fopen', 99)
                        seg.run_cycles(1)
                        seg.at('rmproc', 77777)
                        seg.at('norules')
                    elif n == 'mid':
                        seg.to_update()
                seg.run_cycles(1)
            seg.at('mem')
        seg.wait(.3)
        seg.term()
        r = R.run(exes['san'], s, seg.sc, args=['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-f', '-V', rng.choice(['4', '9'])], leak=True)
        o.sample = {'pattern': [[x[0] for x in c] for c in pat], 'repetitions': K}
        if not verdict(o, r, 'pattern of %s: ' % ','.join(names)):
            return
        mem = [(int(e.a[0]), int(e.a[1])) for e in r.trace if e.name == 'MEM']
        if len(mem) != K:
            o.bad('harness', 'measured %d times' % len(mem))
            return
        o.count('measurements', K)
        o.nontrivial = bool(s.read(R.STATE)) or True
        o.seen('patterns', repr([[x[0] for x in c] for c in pat]))
        half = mem[K // 2:]
        b = [x[0] for x in half]
        o.seen('growth_in_second_half', b[-1] - b[0])
        # growing: lower in the first of three parts than ever after
        t = max(1, len(b) // 3)
        if min(b[t:2 * t]) > max(b[:t]) and min(b[2 * t:]) > max(b[t:2 * t]) and b[-1] - b[0] >= 64:
            o.bad('growth', 'the same %d cycles over again (%s) need %d bytes more after %d repetitions than after %d: %r' % (len(pat), ','.join(names), b[-1] - b[0], K, K // 2, b))
            return
        f = [x[1] for x in half]
        if f[-1] > f[0]:
            o.bad('descriptors', 'the same %d cycles over again (%s) need %d descriptors more' % (len(pat), ','.join(names), f[-1] - f[0]))


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    o.count(case['kind'])
    (mix if case['kind'] == 'mix' else period)(o, rng, exes)
    return o
