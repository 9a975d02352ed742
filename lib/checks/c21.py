"""C21: no process table or system file content can crash or hang the daemon."""
import errno, os, random
from checks.common import *
from checks.c09 import name as odd_name

VARIANTS = ['wrap']
LEVEL = 'exploration'
CATS = ('wellformed', 'clock', 'exes', 'maps', 'exemaps', 'exetime', 'pairs', 'pairtime', 'trans')
RULE = ('a few ordinary applications with a random history, among processes, mappings, memory statistics, virtual-memory statistics and battery files with arbitrary content '
        '(mutated, binary, truncated, overlong, extreme numbers, wrong kinds of file), with processes and system files that vanish, change or fail to be listed, opened, read or '
        'closed at any call of the daemon; run under ASan and UBSan over several cycles, then started once more on what was saved. The part of each saved state that is about the '
        'ordinary applications is compared with the reference, for which the others do not exist (except where the listing of processes itself is made to fail); non-trivial: at '
        'least one hostile process was looked at or one failure took place')
ASSUMPTIONS = ['sums of numbers no kernel reports may wrap', 'the process table itself can be opened: the daemon gives up where it cannot']

NUM = ['0', '1', '-1', '2147483647', '2147483648', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616',
       '-9223372036854775808', '9' * 50, '1e9', '0x10', '', 'kB', 'nan', ' ', '\t5', '+7', '\x00', '%s%n', '1' * 5000]
ADDR = ['00400000', '0', 'ffffffffffffffff', 'ffffffffff600000', '7fffffffffffffff', '8000000000000000', '10000000000000000', '-1', 'g', '', '7f0000000000', '00401000', '00500000', '00000000008048000']


def cases(tier, seed):
    return cases_n('C21', 4500 if tier == 'quick' else 80000, seed)


def maps_line(rng, names):
    k = rng.random()
    a, b = rng.choice(ADDR), rng.choice(ADDR)
    if k < .5:
        x = rng.randint(0, 2 ** 47) & ~4095
        a, b = '%x' % x, '%x' % (x + 4096 * rng.choice([0, 1, 50, 2000, 2 ** 30]))
    f = ['%s-%s' % (a, b), rng.choice(['r-xp', 'rw-s', '----', '', 'rwxprwxprwxprwxprwxp', 'p']), rng.choice(['00000000', '00001000'] + ADDR + NUM),
         rng.choice(['08:01', '00:00', 'fe:100', 'x', '', ':']), rng.choice(NUM)]
    n = rng.choice(names) if rng.random() < .7 else rng.choice(['', '[heap]', '[vsyscall]', '/', '//', '/.', ' ', 'rel', '/%n%s%n', '/' + 'a' * rng.choice([400, 509, 510, 511, 512, 900, 1100, 70000]), '/usr/lib/\xff\xfe', '/\x01\x02', '/x\x00y', '/ (deleted)', '/.#prelink#.', '.#prelink#.'])
    s = ' '.join(f).ljust(rng.choice([0, 0, 50, 73, 1000])) + (' ' if rng.random() < .95 else '') + n
    if rng.random() < .15:
        s = s.replace(rng.choice(s), rng.choice(['', '\x00', '\xff', '\n', ' ', '\t']), 1)
    if rng.random() < .1:
        s = s[:rng.randint(0, len(s))]
    return s


def maps_file(rng, names):
    k = rng.random()
    if k < .06:
        return bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 100, 5000])))
    if k < .1:
        return rng.choice([b'\x00' * 3000, b'\n' * 3000, b'a' * 200000, b'00400000-00401000 r-xp 00000000 08:01 5 /' + b'b' * 100000, b'-' * 1022 + b'\n', b' ' * 1023, b'0-1 r 0 0:0 0 /x'])
    n = rng.choice([1, 3, 10, 40, 400])
    nl = rng.choice(['\n', '\n', '\n', '\r\n', '\n\n'])
    t = nl.join(maps_line(rng, names) for _ in range(n)) + rng.choice(['\n', '\n', ''])
    return t.encode('latin-1', 'replace') if rng.random() < .5 else t.encode('utf-8', 'surrogateescape')


def exe_name(rng):
    k = rng.random()
    if k < .5:
        return odd_name(rng, True)
    return rng.choice(['/usr/bin/h%d' % rng.randint(0, 9)] * 3 + ['/', '//', 'x', 'pipe:[1]', '/' + 'e' * rng.choice([510, 511, 512, 513, 4000]), '/%s%n%d', '/usr/bin/ (deleted)', '/a\nb', '/usr/bin/\x01', '/usr/bin/..', '/.#prelink#.x', '/dev/null', '/proc/self/exe', '/etc', '/#', '/%00', '/usr/bin/%41', '/?q', '/usr/bin/\xe9'])


def meminfo(rng):
    k = rng.random()
    if k < .1:
        return bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 4094, 4095, 4096, 9000])))
    keys = ['MemTotal', 'MemFree', 'MemAvailable', 'Buffers', 'Cached', 'SwapCached', 'Active', 'Inactive', 'Active(anon)', 'Inactive(anon)', 'Active(file)', 'Inactive(file)', 'Junk']
    if rng.random() < .5:
        rng.shuffle(keys)
    out = []
    for x in keys:
        if rng.random() < .9:
            out.append('%s:%s%s%s' % (x, rng.choice([' ', '   ', '', '\t']) if rng.random() < .3 else '  ', rng.choice(NUM) if rng.random() < .4 else rng.randint(0, 10 ** 8), rng.choice([' kB', '', ' MB', '\x00'])))
    t = rng.choice(['\n', '\n', '\n', ' ', '\x00', '\n' * 500]).join(out)
    if rng.random() < .2:
        t = t[:rng.randint(0, len(t))]
    return t.encode('latin-1')


def hostile_proc(seg, rng, names, pids):
    w = seg.w
    pid = rng.choice([str(rng.randint(200000, 200030)), str(rng.randint(200000, 200030)), str(rng.randint(200000, 200030)), '0', '00', '0%d' % rng.randint(1, 9999), '99999999999', '2147483648', '4294967296', '9' * 25, '1' * 100, '4294971538', 'self', '12a', '-3'])
    k = rng.random()
    if k < .12 and pids:
        pid = rng.choice(pids)
        seg.at('rmproc', pid)
        return
    pids.append(pid)
    d = '/proc/' + pid
    if k < .75:
        w.nmaps += 1
        p = '/vp/maps%d' % w.nmaps
        w.s.write(p, maps_file(rng, names))
        seg.at('rm', d + '/exe')
        seg.at('proc', pid, exe_name(rng), p)
        if rng.random() < .1:
            seg.at('chmod', d + '/maps', '0')
    elif k < .79:
        seg.at('proc', pid, exe_name(rng), '-')
    elif k < .84:
        seg.at('mkdir', d)
        seg.at('mkdir', d + '/maps')
        seg.at('lnk', d + '/exe', '/usr/bin/h1')
    elif k < .88:
        seg.at('mkdir', d)
        seg.at('put', d + '/exe', '644', 'a file')
    elif k < .92:
        seg.at('put', d, '644', 'a file')
    elif k < .96:
        seg.at('mkdir', d)
    else:
        seg.at('lnk', d, d)


def hostile_sys(seg, rng):
    s = seg.w.s
    k = rng.randint(0, 5)
    seg.w.nmaps += 1
    p = '/vp/sys%d' % seg.w.nmaps
    if k <= 2:
        f = '/proc/meminfo'
        s.write(p, meminfo(rng))
    elif k == 3:
        f = '/proc/vmstat'
        s.write(p, rng.choice([b'', b'pgpgin', b'pgpgin ', b'pgpgin x\n', b'pgpgin 0\npgpgout 0\n', b'pgpgin 9223372036854775807\npgpgout -1\n', b'a' * 9000, b'\x00pgpgin 5\n', b'pgpgin 18446744073709551617\n']))
    elif k == 4:
        f = '/proc/stat'
        s.write(p, rng.choice([b'', b'page 1 2\n', b'page ', b'page 9223372036854775807 9223372036854775807\n', b'page x y']))
    else:
        f = '/sys/class/power_supply/BAT%d/status' % rng.randint(0, 9)
        s.write(p, rng.choice([b'', b'\n', b'\x00', b'\xff\xfe', b'Discharging now', b'discharging', b'Discharg', b'x' * 100000, b'Charging\nDischarging', b'\x00Discharging', b'Not charging\n' * 100]))
        seg.at('mkdir', os.path.dirname(f))
    x = rng.random()
    if x < .8:
        seg.at('rm', f)
        seg.at('cp', p, f)
    elif x < .9:
        seg.at('rm', f)
    else:
        seg.at('rm', f)
        seg.at('mkdir', f)


def only(st, keep):
    """the part of a state about certain applications"""
    r = M.State()
    r.time = st.time
    r.dups = list(st.dups)
    r.exes = {p: v for p, v in st.exes.items() if p in keep}
    r.exemaps = {p: v for p, v in st.exemaps.items() if p in keep}
    ks = {x[0] for v in r.exemaps.values() for x in v}
    r.maps = {k: v for k, v in st.maps.items() if k in ks}
    r.markovs = {k: v for k, v in st.markovs.items() if k[0] in keep and k[1] in keep}
    return r


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(1, 4))
        keep = {a.exe for a in apps}
        for i in range(5):
            w.mkfile('/usr/bin/h%d' % i)
        names = [m[0] for a in apps for m in a.maps if m[0]] + [odd_name(rng) for _ in range(6)]
        conf = rand_conf(rng, minsize=0, cycle=rng.choice([8, 20]), sortstrategy=rng.choice([0, 3]), maxprocs=rng.choice([0, 0, 2]),
                         memtotal=rng.choice([-10, 100]), memfree=100, memcached=rng.choice([0, 100]), autosave=rng.choice([100000, 42]))
        mode = rng.choice(['content', 'content', 'vanish', 'fail', 'all'])
        seg = W.Seg(w, conf)
        h = G.Hist(seg, rng, apps, exact=False)
        pids = []
        # a new application at the first scan may not be hidden by the limit of one per scan
        for _ in range(rng.randint(0, 6)):
            hostile_proc(seg, rng, names, pids)
        h.step()
        g = [0]
        loose = [False]
        may_loose = rng.random() < .2

        def trouble():
            """something goes wrong at a call the daemon makes about a hostile process or a system file"""
            if mode in ('vanish', 'all') and g[0] < 12:
                g[0] += 1
                pid = rng.choice(pids) if pids and rng.random() < .5 else str(rng.randint(200000, 200030))
                kind = rng.random()
                if kind < .7:
                    # appears now, vanishes while it is looked at
                    w.nmaps += 1
                    p = '/vp/maps%d' % w.nmaps
                    good = M.App('/usr/bin/h%d' % rng.randint(0, 4), [('/usr/lib/h.so', 0, 4096 * 100), ('/usr/bin/h', 0, 8192)])
                    w.s.write(p, good.maps_text() if rng.random() < .7 else maps_file(rng, names))
                    seg.at('rm', '/proc/%s/exe' % pid)
                    seg.at('proc', pid, good.exe, p)
                    pids.append(pid)
                what = rng.choice(['rmproc', 'rmproc', 'rmmaps', 'rmexe', 'replace'])
                if what == 'rmproc':
                    seg.sc.group(g[0], 'rmproc', pid)
                elif what == 'rmmaps':
                    seg.sc.group(g[0], 'rm', '/proc/%s/maps' % pid)
                elif what == 'rmexe':
                    seg.sc.group(g[0], 'rm', '/proc/%s/exe' % pid)
                else:
                    w.nmaps += 1
                    p = '/vp/maps%d' % w.nmaps
                    w.s.write(p, maps_file(rng, names))
                    seg.sc.group(g[0], 'put', '/proc/%s/maps' % pid, '644', '')
                    seg.sc.group(g[0], 'cp', p, '/proc/%s/maps' % pid)
                fn, path = rng.choice([('readlink', '/proc/%s/exe' % pid), ('fopen', '/proc/%s/maps' % pid), ('fopen', '/proc/%s/maps' % pid), ('read', '/proc/%s/maps' % pid),
                                       ('readdir', '-'), ('closedir', '-'), ('open', '/proc/meminfo')])
                seg.at('rule', fn, path, rng.choice([1, 1, 2, 3]), 1, 'do', g[0])
            if mode in ('fail', 'all'):
                pid = rng.choice(pids) if pids else '200001'
                fn, path = rng.choice([('readlink', '/proc/%s/exe' % pid), ('fopen', '/proc/%s/maps' % pid), ('read', '/proc/%s/maps' % pid), ('close', '/proc/%s/maps' % pid),
                                       ('open', '/proc/meminfo'), ('read', '/proc/meminfo'), ('close', '/proc/meminfo'), ('open', '/proc/vmstat'), ('read', '/proc/vmstat'), ('open', '/proc/stat'),
                                       ('open', '/sys/class/power_supply/BAT0/status'), ('read', '/sys/class/power_supply/BAT0/status'), ('access', '/sys/class/power_supply/BAT0/status'),
                                       ('fstat', '/sys/class/power_supply/BAT0/status'),
                                       ('readdir', '-') if may_loose else ('closedir', '-'), ('closedir', '-')])
                e = rng.choice([errno.EACCES, errno.ESRCH, errno.EIO, errno.ENOENT, errno.EMFILE, errno.ENOMEM, errno.EINTR, errno.EPERM, errno.EAGAIN])
                if fn == 'readdir':
                    loose[0] = True
                if fn == 'read' and rng.random() < .3:
                    seg.at('rule', fn, path, rng.choice([1, 2]), rng.choice([1, 50]), 'short', rng.choice([0, 1, 7, 100]))
                else:
                    seg.at('rule', fn, path, rng.choice([1, 1, 2, 5]), rng.choice([1, 1, 50]), 'err', e)
                o.count('failures_armed')
        seg.start()
        for _ in range(rng.randint(2, 7)):
            if mode in ('content', 'all'):
                for _ in range(rng.randint(0, 3)):
                    hostile_proc(seg, rng, names, pids)
                if rng.random() < .7:
                    hostile_sys(seg, rng)
            for _ in range(rng.randint(0, 3)):
                trouble()
            seg.run_cycles(1)
            h.step()
            if rng.random() < .4:
                seg.to_update()
                if rng.random() < .3:
                    h.step()
            if rng.random() < .3:
                seg.usr2()
            if rng.random() < .1:
                seg.usr1()
        seg.at('norules')
        seg.run_cycles(1)
        seg.to_update()
        seg.term()
        o.sample = {'mode': mode, 'hostile': pids[:6], 'conf': conf_brief(conf), 'loose': loose[0]}
        seg.execute(exes['wrap'])
        o.count('runs')
        o.count('events', len(seg.r.trace))
        inj = sum(1 for e in seg.r.trace if e.name == 'INJ')
        o.count('injections', inj)
        looked = sum(1 for e in seg.r.trace if e.name == 'fopen' and re.match(r'/proc/(2000|0|9999|2147|4294|1111)', e.a[0]))
        o.count('hostile_maps_opened', looked)
        o.nontrivial = bool(inj or looked)
        b = seg.basic()
        if b:
            o.bad('run', '%s: %s' % (mode, b))
            return o
        if 'assertion' in seg.r.log and 'failed' in seg.r.log:
            o.bad('assertion', 'internal consistency failure: ' + [l for l in seg.r.log.splitlines() if 'assertion' in l][0])
            return o
        prev = seg.before
        for nom, how, st, data, _, full in seg.saves():
            if st is None:
                if data == prev:
                    continue
                st = full
            prev = data
            try:
                got = M.State.parse(data)
            except M.BadState as e:
                o.bad('state:wellformed', 'state file after save (%s) at %.1f: %s' % (how, nom, e))
                return o
            o.count('hostile_apps_saved', sum(1 for p in got.exes if p not in keep))
            if loose[0] or seg.ambiguous:
                o.count('form_only_' + ('listing_failed' if loose[0] else 'ambiguous'))
                continue
            o.count('saves_compared')
            o.seen('states', data)
            d = M.diff(only(st, keep), only(got, keep), CATS)
            if d:
                o.bad('state:' + d[0][0], '%s: state file after save (%s) at %.1f: %s' % (mode, how, nom, d[0][1]))
                return o
        if rng.random() < .6:
            before = s.read(R.STATE)
            seg = W.Seg(w, conf).start()
            seg.run_cycles(rng.randint(1, 2))
            seg.term()
            seg.execute(exes['wrap'])
            o.count('runs')
            o.count('restarts')
            b = seg.basic()
            if b:
                o.bad('reload', 'second start, on what was saved: ' + b)
                return o
            try:
                a, c = M.State.parse(before), M.State.parse(s.read(R.STATE))
                for p in a.exes:
                    if p in keep and p not in c.exes:
                        o.bad('reload', 'the second start loses %r' % p)
            except M.BadState as e:
                o.bad('state:wellformed', 'state file after the second start: %s' % e)
    return o
