"""C19: the daemon writes nothing but its own state and log files."""
import errno, os, random, stat
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('random histories with reloads, dumps, saves, failing saves, rotated logs, both start modes, several paths and umasks, applications that map the daemon\'s own files, '
        'system files and devices, and files, hard links, symbolic links, FIFOs and directories planted at the name of the temporary, before the start or in the moment '
        'between its removal and creation; every open, creation, rename, removal, mode change, mapping and process creation in the event log is judged, and all files '
        'outside are compared before and after; non-trivial: at least one save was made or attempted')
ASSUMPTIONS = ['the file system is the scratch root; effects past the intercepted calls would show in the comparison of files only']

W_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGES = ('rename', 'unlink', 'rmdir', 'link', 'symlink', 'mkdir', 'chmod', 'chown', 'truncate', 'mknod', 'fchmod', 'fchown', 'ftruncate', 'fallocate')


def cases(tier, seed):
    return cases_n('C19', 2200 if tier == 'quick' else 50000, seed)


def tree(root, skip):
    out = {}
    for d, dirs, files in os.walk(root):
        rel = d[len(root):] or '/'
        if any(rel == x or rel.startswith(x + '/') for x in skip):
            dirs[:] = []
            continue
        for f in files + [x for x in dirs if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            r = p[len(root):]
            if r in skip:
                continue
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[r] = ('lnk', os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                out[r] = ('file', stat.S_IMODE(st.st_mode), st.st_mtime_ns, open(p, 'rb').read())
            else:
                out[r] = ('other', st.st_mode)
    return out


def istemp(p, state):
    """a name for the temporary: next to the state file"""
    return os.path.dirname(p) == os.path.dirname(state) and p != state and os.path.basename(state).split('.')[0] in os.path.basename(p)


def monitor(o, r, state, log, umask):
    """judges every event; a text, or None"""
    temps = set()
    for e in r.trace:
        n = e.name
        if n == 'open':
            fl, mode, res = int(e.a[1]), int(e.a[2]), int(e.a[3])
            o.count('opens')
            if fl & W_FLAGS:
                if e.a[0] == log and e.pid == 0:
                    if fl & os.O_TRUNC or not fl & os.O_APPEND:
                        return 'opens the log with flags %o' % fl
                    if mode & 0o007:
                        return 'creates the log with mode %o' % mode
                elif state and e.pid == 0 and istemp(e.a[0], state):
                    if res >= 0:
                        temps.add(e.a[0])
                    if mode & 0o007:
                        return 'creates the temporary with mode %o' % mode
                    if not fl & os.O_EXCL and not fl & os.O_NOFOLLOW:
                        return 'opens the temporary %r following symbolic links' % e.a[0]
                    o.count('temporaries')
                elif e.a[0] == '/dev/null':
                    pass
                else:
                    return 'opens %r for writing (flags %o)' % (e.a[0], fl)
        elif n == 'fopen':
            o.count('opens')
            if e.a[1].strip('be')[0:2] != 'r' and not (e.a[0] == log and e.a[1].startswith('a')):
                return 'opens %r with mode %r' % (e.a[0], e.a[1])
        elif n == 'rename':
            if not (state and e.a[1] == state and e.a[0] in temps and e.pid == 0):
                return 'renames %r to %r' % (e.a[0], e.a[1])
        elif n in ('unlink',):
            if not (state and istemp(e.a[0], state) and e.pid == 0):
                return 'removes %r' % e.a[0]
        elif n in ('fchmod', 'ftruncate', 'fallocate', 'fchown') and state and istemp(e.a[0], state):
            pass
        elif n in CHANGES:
            return '%s of %r' % (n, e.a[0])
        elif n in ('exec', 'kill'):
            return '%s %r' % (n, e.a)
        elif n == 'write' and not (e.a[0] == log or state and (istemp(e.a[0], state))):
            return 'writes to %r' % e.a[0]
        elif n == 'mmap' and int(e.a[3]) & 2 and not e.a[0].startswith(('/usr/share/locale', '/etc')):
            return 'maps %r for writing' % e.a[0]
        o.count('judged')
    return None


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.nontrivial = False
    with R.Scratch() as s:
        w = W.World(s, rng)
        base = rng.choice(['/var/lib/preload/preload.state', '/var/lib/preload/preload.state', '/data dir/my.state', '/var/lib/preload/x/st', '/s'])
        log = rng.choice([R.LOG, R.LOG, '/data dir/log', os.path.dirname(base).rstrip('/') + '/the.log'])
        state = base if rng.random() < .95 else ''
        for p in (base, log):
            os.makedirs(os.path.dirname(s.host(p)), exist_ok=True)
        tmp = base + '.tmp'
        # what must not be touched
        s.write('/etc/precious', b'precious\n' * 50, 0o644)
        s.write('/etc/shadow', b'secret', 0o600)
        os.makedirs(s.host('/home/u/empty'))
        s.write('/home/u/file', b'x' * 100)
        s.write(os.path.dirname(base).rstrip('/') + '/neighbour', b'n')
        s.write(base + '.old', b'old')
        apps = G.make_apps(w, rng, rng.randint(1, 5))
        odd = [p for p in (base, log, '/etc/precious', '/etc/shadow', '/home/u', tmp, '/dev/null', base + '.old', '/nonexistent', '/proc/meminfo') if rng.random() < .5]
        apps.append(M.App(rng.choice(['/usr/bin/odd', '/etc/precious']), [(p, 0, 4096 * (i + 1)) for i, p in enumerate(odd)] + [('/usr/bin/odd', 0, 8192)]))
        w.mkfile('/usr/bin/odd')
        conf = rand_conf(rng, cycle=8, minsize=0, maxprocs=rng.choice([0, 0, 2]), sortstrategy=rng.randint(0, 3), autosave=rng.choice([29, 100000]), memfree=100)
        st = gen_state(rng, rng.sample(apps, rng.randint(1, len(apps))), conf, tree=10)
        if state and rng.random() < .7:
            s.write(state, state_text(st, rng), rng.choice([0o600, 0o644, 0o666]))
        plant = rng.choice(['', 'file', 'hard', 'lnk', 'dangling', 'fifo', 'dir', 'full', 'lnkdir'])
        hp = s.host(tmp)
        if plant == 'file':
            s.write(tmp, b'planted', 0o666)
        elif plant == 'hard':
            os.link(s.host('/etc/precious'), hp)
        elif plant == 'lnk':
            os.symlink(s.host('/etc/precious'), hp)
        elif plant == 'dangling':
            os.symlink(s.host('/home/u/created'), hp)
        elif plant == 'lnkdir':
            os.symlink(s.host('/home/u'), hp)
        elif plant == 'fifo':
            os.mkfifo(hp)
        elif plant in ('dir', 'full'):
            os.mkdir(hp)
            if plant == 'full':
                s.write(tmp + '/inside', b'i')
        seg = W.Seg(w, conf, model=None)
        race = rng.choice(['', '', 'hard', 'lnk', 'dangling', 'file', 'fifo'])
        saveerr = rng.random() < .2
        if race:
            n = rng.choice([1, 1, 2])
            seg.at('rule', 'open', tmp, n, 1, 'do', 9)
            # what is there already goes first: the planting itself must not touch what a link leads to
            seg.sc.group(9, 'rm', tmp)
            if race == 'file':
                seg.sc.group(9, 'put', tmp, '666', 'planted')
            elif race == 'fifo':
                seg.sc.group(9, 'fifo', tmp)
            elif race == 'lnk':
                seg.sc.group(9, 'lnk', tmp, s.host('/etc/precious'))
            elif race == 'dangling':
                seg.sc.group(9, 'lnk', tmp, s.host('/home/u/created'))
            elif race == 'hard':
                os.link(s.host('/etc/precious'), s.host('/etc/precious2'))
                seg.sc.group(9, 'mv', '/etc/precious2', tmp)
        if saveerr:
            fn = rng.choice(['open', 'write', 'close', 'rename', 'unlink'])
            seg.at('rule', fn, tmp, rng.randint(1, 2), rng.choice([1, 1000]), 'err', rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES]))
        h = G.Hist(seg, rng, apps, exact=False)
        h.step()
        seg.start()
        rotated = 0
        lastconf = conf
        for _ in range(rng.randint(1, 5)):
            seg.run_cycles(1)
            h.step()
            x = rng.random()
            if x < .3:
                seg.usr2()
            elif x < .45:
                seg.usr1()
            elif x < .6:
                if rng.random() < .5:
                    rotated += 1
                    seg.at('mv', log, log + '.%d' % rotated)
                lastconf = M.Conf(**dict(conf.given, prediction_algorithm=rng.choice(['VOMM', 'Markov']), doscan=rng.random() < .8, maxprocs=rng.choice([0, 2])))
                seg.hup(lastconf)
        seg.wait(1)
        seg.term()
        skip = {'/proc', '/vp', '/sys', R.CONF, tmp, '/etc/precious2'} | {log + '.%d' % i for i in range(9)} | {log}
        if state:
            skip.add(state)
        before = tree(s.root, skip)
        um = rng.choice([0, 0, 0o022, 0o077])
        daemon = rng.random() < .15
        newlog = rng.random() < .7
        if not newlog:
            s.write(log, b'', 0o600)
        old = os.stat(s.host(state)) if state and os.path.exists(s.host(state)) else None
        args = ['-c', R.CONF, '-s', state, '-l', log, '-V', rng.choice(['4', '9'])] + ([] if daemon else ['-f'])
        if rng.random() < .1 and not daemon:
            args = ['-c', R.CONF, '-s', state, '-d']
            newlog = rotated = None
        r = R.run(exes['san'], s, seg.sc, args=args, daemon=daemon, umask=um)
        what = 'planted %r, race %r, save error %r, umask %o, daemon %r: ' % (plant, race, saveerr, um, daemon)
        o.sample = {'state': state, 'log': log, 'planted': plant, 'race': race, 'error': saveerr, 'umask': um, 'daemon': daemon, 'odd': odd}
        o.seen('setups', (plant, race, saveerr, daemon, um))
        o.count('runs')
        o.count('events', len(r.trace))
        if r.hung or r.san or r.stuck or r.rc != 0:
            o.bad('run', what + ('the daemon hangs' if r.hung else W.first_report(r.san) if r.san else 'status %s' % r.rc + W.tail(r)))
            return o
        x = monitor(o, r, state, log if '-d' not in args else '/none', um)
        if x:
            o.bad('write', what + 'the daemon ' + x)
            return o
        after = tree(s.root, skip)
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a != b:
                o.bad('files', what + '%r is %s' % (p, 'new' if a is None else 'gone' if b is None else 'changed'))
                return o
        o.count('files_compared', len(before))
        attempts = any(e.name == 'open' and state and istemp(e.a[0], state) and int(e.a[1]) & W_FLAGS for e in r.trace)
        renames = [e for e in r.trace if e.name == 'rename' and e.a[-1] == '0']
        o.nontrivial = bool(attempts)
        if renames:
            o.count('saves', len(renames))
            ls = os.lstat(s.host(state))
            if not stat.S_ISREG(ls.st_mode):
                o.bad('files', what + 'the state file is a %o now' % ls.st_mode)
                return o
            if ls.st_mode & 0o007:
                o.bad('mode', what + 'the state file has mode %o' % (ls.st_mode & 0o777))
                return o
            data = s.read(state)
            try:
                M.State.parse(data)
            except M.BadState as e:
                o.bad('files', what + 'the state file is not well-formed: %s' % e)
                return o
        if (newlog or rotated) and '-d' not in args:
            try:
                m = os.lstat(s.host(log)).st_mode
                if m & 0o007:
                    o.bad('mode', what + 'the log has mode %o' % (m & 0o777))
            except OSError:
                o.bad('files', what + 'there is no log')
    return o
