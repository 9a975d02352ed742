"""C17: configuration is applied completely or not at all."""
import errno, os, random, re
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('generated configuration files (any subset of keys and groups, in any order, with comments, blanks, repeated groups and keys, unknown keys, both names of maxprocs, '
        'quoted and escaped values) at start and in sequences of reloads, mixed with files that are missing, unreadable, malformed or have one malformed value; the '
        'values dumped after each step, and the behaviour of histories under such reloads (model, selections, schedule), are compared with the reference; non-trivial: at '
        'least one value differed from its default')
ASSUMPTIONS = ['values for which the configuration file warns of instability (cycles below 6 s) are not used']
BADLOG = re.compile(r'fail|cannot|could not|error|invalid|unable', re.I)
BOOLS = ('usecorrelation', 'doscan', 'dopredict')
INTS = ('cycle', 'minsize', 'memtotal', 'memfree', 'memcached', 'membuffers', 'autosave', 'maxprocs', 'sortstrategy')
LISTS = ('mapprefix', 'exeprefix')


def cases(tier, seed):
    n = 1 if tier == 'quick' else 25
    return (cases_n('C17d', 1000 * n, seed, kind='dump') + cases_n('C17s', 500 * n, seed, kind='start') + cases_n('C17e', 900 * n, seed, kind='effect')
            + [dict(i=i, seed=i, kind='shipped') for i in range(1)])


def value(rng, k):
    if k in BOOLS:
        return rng.random() < .5
    if k == 'cycle':
        return rng.choice([6, 7, 10, 19, 20, 21, 100, 86400, rng.randint(6, 1000)])
    if k == 'minsize':
        return rng.choice([0, 1, 2000000, 2 ** 31 - 1, rng.randint(0, 10 ** 8)])
    if k == 'autosave':
        return rng.choice([3600, 60, 30000, 2 ** 31 - 1, rng.randint(40, 100000)])
    if k == 'maxprocs':
        return rng.choice([0, 1, 30, 100, rng.randint(0, 1000)])
    if k == 'sortstrategy':
        return rng.randint(0, 3)
    if k == 'prediction_algorithm':
        return rng.choice(['VOMM', 'Markov', '"VOMM"', '"Markov"', 'Other', 'Markov \\t', 'VOMM;x', ''])
    if k in LISTS:
        return [rng.choice(['/usr', '!/usr/sbin/', '/', '!/', '/a b', '/semi;colon', '/back\\slash', '/tab\tx', '/\u00fcber', '/lib', '/x' * 100]) for _ in range(rng.choice([0, 1, 2, 5]))] or None
    return rng.choice([0, 100, -100, 50, rng.randint(-100, 100), rng.randint(-1000, 1000), 2 ** 31 - 1, -2 ** 31])


def show(rng, k, v):
    """the text for a value"""
    if k in BOOLS:
        return rng.choice(['true', 'true', '1']) if v else rng.choice(['false', 'false', '0'])
    if k in LISTS:
        out = []
        for x in v or []:
            x = x.replace('\\', '\\\\').replace('\t', '\\t').replace(';', '\\;')
            out.append(x.replace(' ', '\\s') if rng.random() < .5 else x)
        t = ';'.join(out)
        return t + (';' if rng.random() < .5 or not out else '')
    if k == 'prediction_algorithm':
        return v.replace('\\t', '\\t')
    return ('+' if v >= 0 and rng.random() < .05 else '') + str(v)


def real(k, v):
    return v.replace('\\t', '\t') if k == 'prediction_algorithm' else v


def gen(rng, keys=None, fixed=None):
    """(text, Conf) of a valid file"""
    given, lines = {}, []
    allk = [('model', k) for k in M.MODEL_KEYS] + [('system', k) for k in M.SYSTEM_KEYS]
    p = rng.choice([0, .2, .5, .5, 1, 1])
    groups = {'model': [], 'system': []}
    for g, k in allk:
        v = (fixed or {}).get(k)
        if v is None:
            if rng.random() >= p or fixed is not None:
                continue
            v = value(rng, k)
        name = 'processes' if k == 'maxprocs' and rng.random() < .5 else k
        eq = rng.choice(['=', ' = ', '  =  ', '= '])
        if rng.random() < .06:
            # given twice: the later one counts
            groups[g].append(name + eq + show(rng, k, value(rng, k)))
        groups[g].append(name + eq + show(rng, k, v))
        if not (k in LISTS and v is None):
            given[k] = real(k, v)
    blocks = []
    for g in groups:
        ls = groups[g]
        if not ls and rng.random() < .5:
            continue   # the group is missing
        # keep the order of repeated keys
        if rng.random() < .5:
            seen = {}
            for l in ls:
                seen.setdefault(re.split(r'\s*=', l)[0], []).append(l)
            ks = list(seen)
            rng.shuffle(ks)
            ls = [l for k in ks for l in seen[k]]
        ls = list(ls)
        for _ in range(rng.randint(0, 3)):
            ls.insert(rng.randint(0, len(ls)), rng.choice(['', '# a comment', '#cycle = 99', 'unknown = 5', 'Cycle = 77', 'cycle2 = 3', 'mapprefix[de] = /x', '  ']))
        if len(ls) > 2 and rng.random() < .15:
            i = rng.randint(1, len(ls) - 1)
            blocks.append((g, ls[:i]))
            blocks.append((g, ls[i:]))
        else:
            blocks.append((g, ls))
    if len(blocks) == 2 and blocks[0][0] != blocks[1][0] and rng.random() < .3:
        blocks.reverse()
    if rng.random() < .2:
        blocks.insert(0, ('other', ['cycle = 55', 'doscan = maybe', 'maxprocs=x']))
    out = ['# preload configuration'] if rng.random() < .5 else []
    for g, ls in blocks:
        out.append('[%s]' % g)
        out += ls
    return '\n'.join(out) + ('\n' if rng.random() < .9 else ''), M.Conf(**given)


def spoil(rng):
    """(what, bytes) of a file that has to be refused"""
    text, _ = gen(rng)
    k = rng.choice(['int', 'int', 'bool', 'bool', 'line', 'nogroup', 'escape', 'overflow', 'utf8', 'brackets', 'processes'])
    last = {'model': [], 'system': []}
    key = None
    if k in ('int', 'overflow', 'processes'):
        key = 'processes' if k == 'processes' else rng.choice(INTS)
        v = rng.choice(['99999999999', '2147483648', '-2147483649', '9' * 30]) if k == 'overflow' else rng.choice(['abc', '12abc', '1.5', '0x10', '--5', '1e3', 'true', '', '"7"', '5;6', '5 %'][:10])
    elif k == 'bool':
        key = rng.choice(BOOLS)
        v = rng.choice(['maybe', 'yes', 'no', '2', '-1', 'TRUE', 'tru', '', 'on', '"true"', 'true;'])
    elif k == 'escape':
        key = rng.choice(LISTS + ('prediction_algorithm',))
        v = rng.choice(['/usr\\q', 'VOMM\\', '/x\\x41;', '\\'])
    elif k == 'utf8':
        key = rng.choice(LISTS + ('prediction_algorithm',))
        v = '/usr/\udcff\udcfe'
    if key:
        g = 'model' if key in M.MODEL_KEYS else 'system'
        text = re.sub(r'(?m)^\s*%s\s*=.*\n?' % key, '', text)
        if key == 'processes':
            text = re.sub(r'(?m)^\s*maxprocs\s*=.*\n?', '', text)
        if key == 'maxprocs':
            text = re.sub(r'(?m)^\s*processes\s*=.*\n?', '', text)
        text = text.rstrip('\n') + '\n[%s]\n%s = %s\n' % (g, key, v)
        if rng.random() < .5:
            text += gen(rng, fixed={'cycle': 33, 'memfree': 7, 'autosave': 4444} if key not in ('cycle', 'memfree', 'autosave') else {'membuffers': 5})[0]
        return '%s=%s' % (key, v), text.encode('utf-8', 'surrogateescape')
    if k == 'line':
        ls = text.split('\n')
        ls.insert(rng.randint(len(ls) // 2, len(ls)), rng.choice(['garbage', 'cycle 20', '= 5', ';comment']))
        if not any(l.startswith('[') for l in ls[:2]):
            ls.insert(0, '[model]')
        return 'line', '\n'.join(ls).encode('utf-8', 'surrogateescape')
    if k == 'nogroup':
        return 'nogroup', ('cycle = 30\n' + text).encode('utf-8', 'surrogateescape')
    return 'brackets', (text.rstrip('\n') + '\n' + rng.choice(['[system\n', '[]\n', '[sys]tem]\n', '[mo\tdel]\n'])).encode('utf-8', 'surrogateescape')


def put(seg, data):
    """a file of any bytes but NUL in place"""
    seg.at('put', R.CONF, '644', data.decode('utf-8', 'surrogateescape') if isinstance(data, bytes) else data)


def refuse(seg, rng, s):
    """a reload that has to be refused; what it is"""
    k = rng.choice(['missing', 'missing', 'spoil', 'spoil', 'spoil', 'spoil', 'spoil', 'dir', 'denied', 'readerr'])
    if k == 'missing':
        seg.at('rm', R.CONF)
        what = k
    elif k == 'dir':
        seg.at('rm', R.CONF)
        seg.at('mkdir', R.CONF)
        what = k
    elif k in ('denied', 'readerr'):
        put(seg, gen(rng)[0].encode())
        seg.at('rule', 'open' if k == 'denied' else 'read', R.CONF, 1, 1, 'err', rng.choice([errno.EACCES, errno.EIO, errno.EMFILE]) if k == 'denied' else errno.EIO)
        what = k
    else:
        what, data = spoil(rng)
        put(seg, data)
    seg.at('sig', 1)
    if seg.conf.vomm:
        seg.m.vomm_start()
    return what


def ready(seg):
    """whatever is at the place of the configuration goes"""
    seg.at('rm', R.CONF)


def run_dump(o, rng, exes, s):
    w = W.World(s, rng)
    text, conf = gen(rng)
    usefile = True
    if rng.random() < .06:
        # no configuration file at all: everything has its default
        usefile, conf = False, M.Conf()
    seg = W.Seg(w, conf)
    if usefile:
        s.write(R.CONF, text)
    seg.start()
    steps = []
    seg.t = .5
    seg.obs = []
    t = 1.0
    seg.sc.at(t, 'sig', 10)
    steps.append((t, 'start', conf, True, text))
    cur = conf
    for _ in range(rng.randint(1, 7) if usefile else 0):
        t += 2.0
        seg.t = t
        if rng.random() < .6:
            text, cur = gen(rng)
            ready(seg)
            put(seg, text.encode('utf-8', 'surrogateescape'))
            seg.at('sig', 1)
            what, ok = 'reload', True
        else:
            ready(seg)
            seg.conf = M.Conf(prediction_algorithm='Markov')
            what, ok = refuse(seg, rng, s), False
        seg.sc.at(t + .3, 'sig', 10)
        steps.append((t, what, cur, ok, text))
    seg.sc.at(t + 2, 'sig', 15)
    seg.sc.at(t + 2000, 'quit')
    seg.ended = 'term'
    o.sample = {'first': text[:300], 'steps': [x[1] for x in steps]}
    seg.execute(exes['san'], args=['-c', R.CONF if usefile else '', '-s', R.STATE, '-l', R.LOG, '-f', '-V', rng.choice(['4', '4', '9'])])
    o.count('runs')
    b = seg.basic()
    if b:
        o.bad('run', b + ' [%r]' % [x[1] for x in steps])
        return
    ds = dumps(seg.r.log)
    for t, what, cf, ok, text in steps:
        mine = [d for d in ds if t - 1.01 <= d[0] <= t + 1.01]
        if not mine:
            o.bad('dump', 'no dump after %s at %.1f' % (what, t))
            return
        o.count('dumps')
        o.seen('confs', tuple(sorted(map(str, cf.given.items()))))
        x = diff_conf(conf_values(cf), mine[-1][2])
        if x:
            o.bad('values', '%s %s: %s [last accepted: %r]' % ('after' if ok else 'after the refused reload', what, x, text[-400:]))
            return
        if not ok:
            o.count('refusals')
            ls = [y for y in map(stamp, seg.r.log.splitlines()) if y and abs(y[0] - t) <= 1.01 and BADLOG.search(y[1])]
            if not ls:
                o.bad('log', 'nothing is logged of the refused reload (%s)' % what)
                return
    o.nontrivial = any(x[2].given for x in steps)


def run_start(o, rng, exes, s):
    """a bad file at the start"""
    w = W.World(s, rng)
    k = rng.choice(['missing', 'spoil', 'spoil', 'spoil', 'spoil', 'dir', 'denied', 'readerr'])
    sc = R.Scen()
    st = None
    if rng.random() < .7:
        st = b'PRELOAD\t0.6.7\t100\n' if rng.random() < .8 else b'garbage\n'
        s.write(R.STATE, st)
    what = k
    if k == 'spoil':
        what, data = spoil(rng)
        s.write(R.CONF, data)
    elif k == 'dir':
        os.mkdir(s.host(R.CONF))
    elif k in ('denied', 'readerr'):
        s.write(R.CONF, gen(rng)[0])
        sc.at(0, 'rule', 'open' if k == 'denied' else 'read', R.CONF, 1, 1, 'err', rng.choice([errno.EACCES, errno.EMFILE]) if k == 'denied' else errno.EIO)
    sc.at(100, 'quit')
    s.write(R.LOG, b'', 0o600)
    verb = rng.choice(['0', '1', '4', '9', '10'])
    fg = rng.random() < .8
    r = R.run(exes['san'], s, sc, args=['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-V', verb] + (['-f'] if fg else []), timeout=20)
    o.count('starts')
    o.sample = {'what': what, 'verbosity': verb}
    if r.hung or r.san or r.forced or r.stuck:
        o.bad('start', 'the start on a bad configuration (%s): %s' % (what, 'it runs' if r.forced or r.stuck or r.hung else W.first_report(r.san)))
        return
    if r.rc <= 0:
        o.bad('start', 'the start on a bad configuration (%s) ends with status %d' % (what, r.rc))
        return
    if not BADLOG.search(r.log + r.stderr + r.stdout):
        o.bad('start', 'there is no diagnostic of a bad configuration (%s) at verbosity %s' % (what, verb))
        return
    if s.read(R.STATE) != st:
        o.bad('start', 'the state file is changed by a start on a bad configuration (%s)' % what)
        return
    if any(e.name == 'opendir' and e.a[0] == '/proc' for e in r.trace):
        o.bad('start', 'processes are looked at in spite of a bad configuration (%s)' % what)
        return
    o.seen('bad', what)


def run_effect(o, rng, exes, s):
    """behaviour under reloads of everything"""
    def conf(r):
        d = {}
        for k in INTS + BOOLS + ('prediction_algorithm',):
            if r.random() < .6:
                d[k] = value(r, k)
        d['cycle'] = r.choice([6, 8, 13, 20, 20, 31])
        if r.random() < .7:
            d['minsize'] = r.choice([0, 0, 300000, 1000000])
        if r.random() < .7:
            d['memfree'], d['memtotal'] = r.choice([(100, 0), (50, -10), (1, 0)])
        d['maxprocs'] = 0
        d['sortstrategy'] = 0
        d['autosave'] = 10 ** 6
        if 'prediction_algorithm' in d:
            d['prediction_algorithm'] = r.choice(['VOMM', 'Markov', '"VOMM"', '"Markov"'])
        if r.random() < .3:
            d['exeprefix'] = r.choice([['!/usr/bin/app00', '/'], ['/usr/bin/app01', '!/'], ['!/opt']])
        if r.random() < .3:
            d['mapprefix'] = r.choice([['!/usr/lib/private', '/usr'], ['/usr/bin', '!/usr/lib/lib1'], ['/usr/lib']])
        return M.Conf(**d)

    def act(seg, h, r):
        x = r.random()
        if x < .3:
            c = conf(r)
            if r.random() < .3:
                # some values are no longer given
                g = dict(c.given)
                for k in [k for k in g if k not in ('maxprocs', 'sortstrategy', 'autosave', 'cycle') and r.random() < .5]:
                    del g[k]
                c = M.Conf(**g)
            seg.at('rm', R.CONF)
            seg.hup(c)
            o.count('reloads')
        elif x < .5:
            seg.at('rm', R.CONF)
            refuse(seg, r, s)
            o.count('refusals')
            if r.random() < .5:
                seg.wait(.5)
                seg.at('rm', R.CONF)
    def done(seg):
        # the next run starts with a file of its own
        try:
            os.rmdir(s.host(R.CONF))
        except OSError:
            pass
    history(o, exes['san'], rng, M.ALL, nseg=1, cycles=(6, 20), conf=conf, action=act, sel=True, scratch=s, segdone=None)


def run_shipped(o, exes, s):
    """the file that comes with the program: what it says it has"""
    import build as B
    for rel in ('preload-src/preload.conf', 'bin/preload.conf'):
        p = os.path.join(B.REPO, rel)
        if not os.path.exists(p):
            continue
        text = open(p).read()
        given, doc, grp, last = {}, {}, None, None
        for l in text.splitlines():
            m = re.match(r'#\s*default:\s*(.*)$', l)
            if m:
                last = m.group(1).strip()
            m = re.match(r'\[(\w+)\]', l)
            if m:
                grp = m.group(1)
            m = re.match(r'(\w+)\s*=\s*(.*)$', l)
            if m:
                k = 'maxprocs' if m.group(1) == 'processes' else m.group(1)
                given[(grp, k)] = m.group(2).strip().rstrip(';')
                if last is not None:
                    doc[(grp, k)] = '' if last.startswith('(empty') else last
                last = None
        for withfile in (True, False):
            w = W.World(s, random.Random(1))
            s.write(R.CONF, text)
            s.write(R.LOG, b'', 0o600)
            sc = R.Scen()
            sc.at(1, 'sig', 10)
            sc.at(3, 'sig', 15)
            sc.at(2000, 'quit')
            r = R.run(exes['san'], s, sc, args=['-c', R.CONF if withfile else '', '-s', '', '-l', R.LOG, '-f', '-V', '4'])
            o.count('runs')
            ds = dumps(r.log)
            if r.rc or not ds:
                o.bad('shipped', 'the daemon does not run with %s' % (rel if withfile else 'no configuration') + W.tail(r))
                return
            for k, v in (given if withfile else doc).items():
                got = ds[0][2].get(k)
                o.count('shipped_values')
                if got is None or got.strip('"').rstrip(';') != v.strip('"'):
                    o.bad('shipped', '%s.%s is %r, %s has %r' % (k[0], k[1], got, rel if withfile else 'the documented default in ' + rel, v))
                    return


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    with R.Scratch() as s:
        if case['kind'] == 'dump':
            run_dump(o, rng, exes, s)
        elif case['kind'] == 'start':
            run_start(o, rng, exes, s)
        elif case['kind'] == 'effect':
            run_effect(o, rng, exes, s)
        else:
            run_shipped(o, exes, s)
    return o
