"""C22: start-up options and daemon life cycle behave as documented."""
import errno, os, random, re
from checks.common import *

VARIANTS = ['plain']
LEVEL = 'exploration'
RULE = ('random combinations and orders of options (short, long, joined, abbreviated, repeated; paths with spaces and long names; in the foreground, as a daemon, in debug mode; with the '
        'defaults as --help gives them), one random history being run at every verbosity level in turn and with a level below and above the range, failing starts (unknown options, missing '
        'values, logs that cannot be opened for several reasons, a fork or pipe that fails, a start that fails at any level), and reopening of rotated logs; judged: processes and their '
        'sessions, exit status, directory, streams, mask, nice level, which files are used, every line of the log. Non-trivial: every case')
ASSUMPTIONS = ['absolute paths', 'lines of a dump (on SIGUSR1, and in every cycle from verbosity 9) are not time-stamped']


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 40000
    return [dict(i=i, seed=seed_for('C22', i, seed), kind=('start', 'start', 'start', 'levels', 'refuse', 'refuse')[i % 6]) for i in range(n)]


FORMS = {'c': 'conffile', 's': 'statefile', 'l': 'logfile', 'n': 'nice', 'V': 'verbose'}
ABBR = {'c': 'con', 's': 'state', 'l': 'log', 'n': 'ni', 'V': 'verb'}


def option(rng, o, v):
    if o in 'nV' and rng.random() < .2:
        # other ways to write the decimal number
        v = rng.choice(['%+d', '%03d', '0%d' if v >= 0 else '%d', ' %d', '%04d']) % v
    v = str(v)
    k = rng.randint(0, 5)
    if k == 0 and v:
        return ['-' + o + v]
    if k == 1:
        return ['--' + FORMS[o], v]
    if k == 2:
        return ['--%s=%s' % (FORMS[o], v)]
    if k == 3:
        return ['--%s=%s' % (ABBR[o], v)]
    return ['-' + o, v]


def flag(rng, o):
    return [rng.choice([['-f'], ['--foreground'], ['--for']] if o == 'f' else [['-d'], ['--debug'], ['--deb']])][0]


def bad_line(text):
    """a line of a log that is not a complete, time-stamped one"""
    if text and not text.endswith('\n'):
        return text[-100:]
    dump = False
    for l in text.splitlines():
        st = stamp(l)
        if st:
            dump = 'dump requested' in l
        elif dump:
            continue
        if not st or not st[1].strip():
            return l
    return None


def in_order(text):
    prev = None
    for l in text.splitlines():
        t = stamp(l)
        if t and prev is not None and t[0] < prev:
            return l
        prev = t[0] if t else prev
    return None


def path(rng, base, ext):
    return rng.choice(['/etc/%s' % base, '/var/lib/preload/%s%s' % (base, ext), '/a b/c d %s%s' % (base, ext), '/\u00e9t\u00e9/%s' % base, '/%s' % base, '/d/' + base[0] * 200 + ext, '/x/-%s' % base])


def start(o, rng, exes):
    """combinations of options; the last of repeated ones counts"""
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(1, 3))
        exp = {'c': '/etc/preload.conf', 's': '/var/lib/preload/preload.state', 'l': '/var/log/preload.log', 'n': 15, 'V': 4}
        fg = False
        args = []
        todo = []
        for k in 'cslnV':
            for _ in range(rng.choice([0, 1, 1, 2])):
                todo.append(k)
        if rng.random() < .6:
            todo.append('f')
        if rng.random() < .25:
            todo.append('d')
        rng.shuffle(todo)
        for k in todo:
            if k == 'f':
                args += flag(rng, k)
                fg = True
            elif k == 'd':
                args += flag(rng, k)
                fg, exp['l'], exp['V'] = True, '', 9
            else:
                v = {'c': lambda: path(rng, 'my.conf', ''), 's': lambda: rng.choice([path(rng, 'st', '.state')] * 4 + ['']), 'l': lambda: rng.choice([path(rng, 'logg', '.log')] * 4 + ['']),
                     'n': lambda: rng.choice([0, 1, 5, 10, 15, 19]), 'V': lambda: rng.choice([-3, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 40])}[k]()
                args += option(rng, k, v)
                exp[k] = v
        if exp['l'] and exp['l'] in (exp['s'], exp['c']) or exp['s'] == exp['c']:
            return
        conf = rand_conf(rng, minsize=0, cycle=rng.choice([7, 9, 13, 20]))
        for p in (exp['c'], exp['s'], exp['l']):
            if p:
                os.makedirs(os.path.dirname(s.host(p)), exist_ok=True)
        s.write(exp['c'], conf.text())
        w.s.write(R.CONF + '.x', '')
        seg = W.Seg(w, conf)
        if exp['c'] != R.CONF:
            # another file of settings, which is not to be used
            s.write(R.CONF, 'not a configuration\n')
        old = b''
        if exp['l'] and rng.random() < .5:
            old = b'[Tue Nov 14 22:00:00 2023] what was there\n' * rng.randint(1, 3)
            s.write(exp['l'], old, 0o600)
        h = G.Hist(seg, rng, apps, exact=False)
        h.step()
        seg.start()
        seg.run_cycles(rng.randint(1, 3))
        seg.at('self')
        h.step()
        rot = exp['l'] and rng.random() < .4
        if rot:
            seg.at('mv', exp['l'], exp['l'] + '.1')
            seg.at('sig', 1)
            seg.wait(.5)
            seg.at('self')
        seg.run_cycles(1)
        seg.to_update()
        seg.term(rng.choice([15, 2, 3]))
        um = rng.choice([0, 0o022, 0o077, 0o027])
        stdin_cwd = s.dir
        closed = ()
        if rng.random() < .3:
            closed = rng.choice([(0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2)])
            o.count('streams_closed_at_start')
        r = R.run(exes['plain'], s, seg.sc, args=args, daemon=not fg, umask=um, closed=closed)
        o.count('runs')
        o.count('events', len(r.trace))
        what = 'options %r%s: ' % (args, ', with streams %r closed' % (closed,) if closed else '')
        o.sample = {'args': args, 'expected': dict(exp, foreground=fg)}
        o.seen('option_lists', tuple(args))
        names = [(e.name, e.a) for e in r.trace]
        if r.hung or r.stuck or r.rc != 0:
            o.bad('run', what + ('the daemon hangs' if r.hung or r.stuck else 'the start ends with status %s%s' % (r.rc, W.tail(r))))
            return
        dae = [e for e in r.trace if e.name == 'DAEMON']
        if fg and (dae or any(e.name in ('setsid', 'chdir') for e in r.trace)):
            o.bad('daemon', what + 'it detaches itself')
            return
        ex = [e for e in r.trace if e.name == 'EXIT']
        if not fg:
            o.count('daemons')
            if not dae:
                o.bad('daemon', what + 'it does not go on in the background')
                return
        if not ex or ex[-1].t < 1:
            o.bad('run', what + 'the daemon has not ended by itself')
            return
        # streams, directory, session
        for i, e in enumerate(x for x in r.trace if x.name == 'SELF'):
            leader, mask, cwd = e.a[0] == '1', int(e.a[1]), e.a[2]
            if not fg:
                if not leader:
                    o.bad('daemon', what + 'the daemon has no session of its own')
                if os.path.realpath(cwd) != os.path.realpath(s.root):
                    o.bad('daemon', what + 'the daemon is in the directory %r' % cwd)
                if mask & 0o007 != 0o007:
                    o.bad('daemon', what + 'the daemon has mask %o' % mask)
            elif os.path.realpath(cwd) != os.path.realpath(s.dir):
                o.bad('daemon', what + 'it changes to directory %r' % cwd)
            if exp['l']:
                lg = os.path.realpath(s.root) + exp['l']
                if os.path.realpath(e.a[4]) != lg or os.path.realpath(e.a[5]) != lg:
                    if i == 0 and rot and os.path.realpath(e.a[5]) == lg + '.1':
                        pass
                    else:
                        o.bad('streams', what + 'standard output and error are %r and %r' % (e.a[4], e.a[5]))
                if e.a[3] != '/dev/null':
                    o.bad('streams', what + 'standard input is %r' % e.a[3])
            elif not ((1 in closed or e.a[4].endswith('/out.%d' % s.runs)) and (2 in closed or e.a[5].endswith('/err.%d' % s.runs))):
                o.bad('streams', what + 'standard output and error are %r and %r' % (e.a[4], e.a[5]))
            o.count('stands_checked')
        if o.violations:
            return
        nice = [int(e.a[0]) for e in r.trace if e.name == 'nice']
        if nice != [exp['n']]:
            o.bad('nice', what + 'nice level %r, expected %d' % (nice, exp['n']))
            return
        # the files used
        opened = {e.a[0] for e in r.trace if e.name in ('open', 'fopen')}
        if exp['c'] not in opened or exp['c'] != R.CONF and R.CONF in opened:
            o.bad('paths', what + 'the configuration is not read from %r' % exp['c'])
            return
        ticks = sorted({round(e.t) for e in r.trace if e.name == 'opendir' and e.a and e.a[0] == '/proc' and e.t > 0})
        want = sorted({round(x[1] + .5) for x in seg.obs if x[0] == 'tick' and x[1] > 0})
        if conf.doscan and any(min(abs(a - b) for b in ticks or [10**9]) > 1 for a in want):
            o.bad('paths', what + 'the cycle configured in %r is not in effect: scans at %r' % (exp['c'], ticks))
            return
        st = s.read(exp['s']) if exp['s'] else None
        if exp['s']:
            if not st:
                o.bad('paths', what + 'nothing is saved in %r' % exp['s'])
                return
            M.State.parse(st)
            if exp['s'] != R.STATE and s.read(R.STATE) is not None:
                o.bad('paths', what + 'the state is saved in %r' % R.STATE)
                return
        elif s.read(R.STATE) is not None or any(e.name == 'rename' for e in r.trace):
            o.bad('paths', what + 'a state is saved without a state file')
            return
        # the log
        V = max(0, min(10, exp['V']))
        if exp['l']:
            text = s.read(exp['l'])
            if text is None:
                o.bad('log', what + 'there is no log %r' % exp['l'])
                return
            before = s.read(exp['l'] + '.1') if rot else b''
            if not ((before or b'') + text).startswith(old):
                o.bad('log', what + 'the log does not keep what was in it')
                return
            text = ((before or b'') + text)[len(old):].decode('utf-8', 'surrogateescape')
            if r.stderr or r.stdout:
                o.bad('log', what + 'it writes to the terminal: %r' % (r.stderr + r.stdout)[:200])
                return
        else:
            text = r.stderr
            if 2 in closed:
                return
            if s.read('/var/log/preload.log') is not None:
                o.bad('log', what + 'it makes a log file')
                return
        judge_log(o, what, text, V, s.read(exp['l']) if rot and V >= 3 else None)


def judge_log(o, what, text, V, second=None):
    b = bad_line(text)
    if b is not None:
        o.bad('log', what + 'a line of the log is not complete and time-stamped: %r' % b)
        return False
    b = in_order(text)
    if b is not None:
        o.bad('log', what + 'times in the log go backwards at %r' % b)
        return False
    o.count('log_lines', text.count('\n'))
    has = lambda x: x in text
    if V < 2 and text:
        o.bad('level', what + 'at verbosity %d it logs %r' % (V, text.splitlines()[0]))
        return False
    if V >= 3 and not has('exit requested'):
        o.bad('level', what + 'at verbosity %d it does not log that it was asked to exit' % V)
        return False
    if V >= 5 and not (has('starting up') and has('exiting')):
        o.bad('level', what + 'at verbosity %d it does not log its start and end' % V)
        return False
    if V < 5 and (has('starting up') or has('exiting')):
        o.bad('level', what + 'at verbosity %d there are debugging messages' % V)
        return False
    if second == b'':
        o.bad('log', what + 'nothing is logged in the new log after the reload')
        return False
    return True


def levels(o, rng, exes):
    """the same history at every level"""
    seed = rng.random()
    logs = {}
    todo = list(range(0, 11)) + [-5, 25, None, 'd', 'Vd']
    some = rng.random() < .7
    other = rng.choice([10, 10, 10, 3, 0])
    for V in todo:
        g = random.Random(seed)
        with R.Scratch() as s:
            w = W.World(s, g)
            apps = G.make_apps(w, g, g.randint(1, 3))
            conf = rand_conf(g, minsize=0, cycle=8)
            if some:
                # something known, one application running and free memory: ranges are asked for
                s.write(R.STATE, state_text(gen_state(g, apps, conf, p_zero=0), g))
            seg = W.Seg(w, conf)
            if some:
                seg.launch(99, apps[0])
                seg.setmem(MemAvailable=6000000)
            h = G.Hist(seg, g, apps, exact=False)
            h.step()
            seg.start()
            warn = g.random() < .6
            for _ in range(g.randint(1, 4)):
                seg.run_cycles(1)
                h.step()
            if warn:
                seg.at('rule', 'write', R.STATE + '.tmp', 1, 1, 'err', 28)
                seg.usr2()
                seg.wait(.5)
            if g.random() < .5:
                seg.at('put', R.CONF, '644', 'x\n')
                seg.at('sig', 1)
                warn = True
                seg.wait(.5)
            seg.term()
            args = ['-c', R.CONF, '-s', R.STATE, '-l', R.LOG, '-f'] + (['-V', str(V)] if isinstance(V, int) else [])
            if V == 'd':
                args = ['-c', R.CONF, '-s', R.STATE, '-d']
            elif V == 'Vd':
                args = ['-c', R.CONF, '-s', R.STATE, '-V', str(other), '-d']
            r = R.run(exes['plain'], s, seg.sc, args=args)
            o.count('runs')
            if r.rc != 0 or r.hung:
                o.bad('run', 'verbosity %r: status %s' % (V, r.rc))
                return
            text = r.log if V not in ('d', 'Vd') else r.stderr
            b = bad_line(text) if True else None
            if b is not None:
                o.bad('log', 'verbosity %r: a line of the log is not complete and time-stamped: %r' % (V, b))
                return
            logs[V] = [re.sub(r"0x[0-9a-f]+|log file|vp-\w+|'[^']*'", '', l) for l in text.splitlines()]
            o.count('log_lines', len(logs[V]))
    o.sample = {'lines': {str(k): len(v) for k, v in logs.items()}}
    def within(a, b):
        """whether a is what remains of b when lines are left out"""
        it = iter(b)
        return all(any(x == y for y in it) for x in a)
    for V in range(0, 10):
        if not within(logs[V], logs[V + 1]):
            o.bad('level', 'verbosity %d logs what %d does not' % (V, V + 1))
            return
    for a, b, t in ((-5, 0, 'below the range'), (25, 10, 'above the range'), (None, 4, 'by default')):
        if logs[a] != logs[b]:
            o.bad('level', 'verbosity %s is not that of %d' % (t, b))
            return
    if not within([l for l in logs[9] if 'reopening' not in l], logs['d']):
        o.bad('level', 'debug mode does not log what verbosity 9 does')
        return
    if logs['Vd'] != logs['d']:
        o.bad('level', 'debug mode given after a verbosity of %d does not log what debug mode does' % other)
        return
    o.count('level10_more', len(logs[10]) > len(logs[9]))
    n = [len(logs[V]) for V in range(11)]
    if n[0] or (warn and not n[2]) or not n[2] < n[3] or not n[4] < n[5] or n[5] > n[10]:
        o.bad('level', 'numbers of lines at levels 0 to 10: %r%s' % (n, ' (with a warning to be given)' if warn else ''))
        return
    for l in logs[5]:
        # messages come at 3, what is for debugging at 5
        if ('exit requested' in l or 'loading conf from' in l) and l not in logs[3] or ('starting up' in l and l in logs[4]):
            o.bad('level', 'level of %r' % l)
            return
    o.seen('logs', tuple(logs[5]))


def refuse(o, rng, exes):
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, 2)
        seg = W.Seg(w, rand_conf(rng, minsize=0, cycle=8))
        G.Hist(seg, rng, apps, exact=False).step()
        kind = rng.choice(['option', 'option', 'log', 'log', 'fork', 'conf', 'state', 'help', 'version'])
        args = ['-c', R.CONF, '-s', R.STATE]
        log = R.LOG
        fg = rng.random() < .6
        st = gen_state(rng, apps, M.Conf())
        if rng.random() < .7:
            s.write(R.STATE, state_text(st, rng), 0o600)
        if kind == 'option':
            args += ['-l', log] + (['-f'] if fg else [])
            bad = rng.choice([['-x'], ['--nosuch'], ['-c'], ['--logfile'], ['-s'], ['-n'], ['-V'], ['--foreground=1'], ['--n=3', '--x'], ['--ver'], ['-fq'], ['-Z', '3'], ['-?'], ['--help=1'], ['--', '-c'][:0] or ['-l']])
            if bad[0] in ('-c', '--logfile', '-s', '-n', '-V', '-l'):
                args = args + bad
            else:
                i = rng.choice([0, 2, 4, len(args)])
                args = args[:i] + bad + args[i:]
        elif kind in ('help', 'version'):
            opt = rng.choice([['-h'], ['--help'], ['-H']] if kind == 'help' else [['-v'], ['--version']])
            args = rng.choice([opt, args + opt, ['-d'] + opt])
        elif kind == 'log':
            how = rng.choice(['nodir', 'dir', 'rule', 'notdir', 'loop'])
            if how == 'nodir':
                log = '/no/such/dir/log'
            elif how == 'dir':
                log = '/var/logdir'
                os.makedirs(s.host(log))
            elif how == 'notdir':
                log = '/etc/afile/log'
                s.write('/etc/afile', 'x')
            elif how == 'loop':
                log = '/var/loop'
                os.symlink(s.host(log), s.host(log))
            else:
                seg.at('rule', 'open', log, 1, 100, 'err', rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EMFILE, errno.EPERM]))
            args += ['-l', log, '-V', str(rng.choice([0, 4, 9]))] + (['-f'] if fg else [])
        elif kind == 'fork':
            seg.at('rule', 'fork', '-', 1, 1, 'err', rng.choice([errno.EAGAIN, errno.ENOMEM]))
            args += ['-l', log, '-V', str(rng.choice([0, 4]))]
            fg = False
        elif kind == 'conf':
            s.write(R.CONF, rng.choice(['x\n', '[model]\ncycle=q\n', '[model\n']))
            args += ['-l', log, '-f', '-V', str(rng.choice([0, 1, 4, 9]))]
        elif kind == 'state':
            s.write(R.STATE, b'PRELOAD\t0.6.4\t10\nMAP\tx\n')
            args += ['-l', log, '-f', '-V', str(rng.choice([0, 1, 4, 9]))]
        what = '%s, %r: ' % (kind, args)
        before = s.read(R.STATE)
        seg.start()
        seg.run_cycles(2)
        seg.term()
        r = R.run(exes['plain'], s, seg.sc, args=args)
        o.count('runs')
        o.count(kind)
        o.count('events', len(r.trace))
        o.sample = {'kind': kind, 'args': args, 'status': r.rc}
        o.seen('refusals', (kind, tuple(args)))
        if r.hung or r.stuck or r.forced:
            o.bad('run', what + 'it goes on')
            return
        if kind in ('help', 'version'):
            if r.rc != 0 or not r.stdout or r.stderr:
                o.bad('help', what + 'status %s, output %r' % (r.rc, (r.stdout + r.stderr)[:100]))
                return
            want = ['conffile', 'statefile', 'logfile', 'foreground', 'nice', 'verbose', 'debug', 'help', 'version', '/etc/preload.conf', '/var/lib/preload/preload.state', '/var/log/preload.log',
                    'default is 15', 'default is 4'] if kind == 'help' else ['preload']
            for x in want:
                if x not in r.stdout:
                    o.bad('help', what + 'the output does not mention %r' % x)
                    return
        else:
            if r.rc == 0:
                o.bad('refuse', what + 'the start is reported as a success')
                return
            diag = r.stderr + r.log
            diag = '\n'.join(l for l in diag.splitlines() if not re.search(r'\] loading (conf|state) from \S+$|Exiting$|loading conf done', l))
            if not diag.strip() or kind == 'log' and (log not in r.stderr and os.path.basename(log) not in r.stderr) or kind == 'option' and 'sage' not in r.stderr and 'option' not in r.stderr:
                o.bad('refuse', what + 'there is no diagnostic: %r' % diag[:200])
                return
        # nothing modified, and nothing begun
        if s.read(R.STATE) != before:
            o.bad('modified', what + 'the state file has been changed')
            return
        for e in r.trace:
            if e.name in ('rename', 'unlink', 'mkdir', 'setsid', 'readahead', 'opendir', 'nice') and not (e.name == 'nice' and kind in ('state',)):
                o.bad('modified', what + 'it does %s %r first' % (e.name, e.a))
                return
            if e.name == 'fork' and kind != 'fork':
                o.bad('modified', what + 'it forks first')
                return
            if e.name == 'open' and int(e.a[1]) & 3 and e.a[0] != log and e.a[0] != '/dev/null':
                o.bad('modified', what + 'it opens %r for writing first' % e.a[0])
                return
            if kind in ('option', 'help', 'version') and e.name == 'open' and e.a[0] in (R.CONF, R.LOG, R.STATE):
                o.bad('modified', what + 'it opens %r first' % e.a[0])
                return


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    o.count(case['kind'])
    globals()[case['kind']](o, rng, exes)
    return o
