"""C09: exactly the eligible applications and files are tracked."""
import random
from checks.common import *

VARIANTS = ['san']
LEVEL = 'exploration'
RULE = ('process tables with arbitrary file names (spaces, non-ASCII bytes, "(deleted)", prelink names, lengths around and far above 511), non-file mappings, sizes at '
        'and around the threshold, and generated prefix lists, changing over several cycles and reloads; the applications, ranges and their relation in each saved state '
        'are compared with the reference; non-trivial: at least one application was tracked and one was not')
ASSUMPTIONS = ['mapping lines look as the kernel writes them', 'an application rejected for its size is looked at again after the next save']

DIRS = ['/usr/bin', '/usr/lib', '/usr/local/lib', '/opt/x', '/lib', '/', '/home/u ser', '/usr/lib64']
CHARS = 'abcxyz019._-+~#%&;=@ \\"\'()[]{}$!*?<>|,:^`'


def cases(tier, seed):
    return cases_n('C09', 1500 if tier == 'quick' else 30000, seed)


def name(rng, newline=False):
    d = rng.choice(DIRS)
    d = d if d.endswith('/') else d + '/'
    k = rng.random()
    if k < .35:
        n = rng.choice(['foo', 'bar', 'app', 'x']) + str(rng.randint(0, 30))
    elif k < .7:
        n = ''.join(rng.choice(CHARS + ('\n\t' if newline else '\t')) for _ in range(rng.randint(1, 30)))
    elif k < .8:
        n = bytes(rng.choice([rng.randint(128, 255), rng.randint(33, 126)]) for _ in range(rng.randint(1, 20))).decode('utf-8', 'surrogateescape')
    else:
        tot = rng.choice([rng.randint(200, 520), 509, 510, 511, 512, 513, 600, 900, 1000, 1021, 1022, 1023, 1024, 1500, 4000])
        n = ''
        while M.blen(d + n) < tot:
            n += rng.choice(['a', 'b', '/', '_', ' ', '\u00e9'] if rng.random() < .8 else ['a']) if M.blen(d + n) < tot - 2 else 'z'
    n = n.replace('/./', '/x/')
    k = rng.random()
    if k < .08:
        n += ' (deleted)'
    elif k < .16:
        n += '.#prelink#.' + rng.choice(['abc123', 'x', 'q (deleted)'])
    elif k < .22:
        n += rng.choice(['(deleted)z', '(deleted)', '(deleted).#prelink#.ab', ' (deleted).#prelink#.q (deleted)', '.#prelink#', '.#prelink#.', '.#PRELINK#.x', ' (Deleted)', '(delete)', '.#prelink#.a.#prelink#.b'])
    p = d + n
    while '/../' in p or '//' in p:
        p = p.replace('/../', '/__/').replace('//', '/_')
    return p.encode('utf-8', 'surrogateescape').decode('utf-8', 'surrogateescape')


def make_map(rng, names):
    k = rng.random()
    if k < .12:
        shown = rng.choice(['', '[heap]', '[stack]', '[vdso]', '[anon:x y]', 'anon_inode:[perf]', 'socket:[1]', '/memfd:x (deleted)', '/SYSV00000000 (deleted)', '/dev/zero (deleted)'])
    elif k < .75:
        shown = rng.choice(names)
    else:
        shown = name(rng)
    ln = 4096 * rng.choice([1, 2, rng.randint(1, 100), rng.randint(1, 1000)])
    off = rng.choice([0, 0, 4096 * rng.randint(0, 1000), 4096 * rng.randint(0, 2 ** 40)])
    return (shown, off, ln)


class CApp(M.App):
    wild = 0

    def maps_text(self):
        t = M.App.maps_text(self)
        if self.wild & 1:
            # high addresses, large inodes
            out = []
            for i, l in enumerate(t.split('\n')[:-1]):
                rng, rest = l.split(' ', 1)
                a, b = [int(x, 16) for x in rng.split('-')]
                f = rest.split(None, 4)
                base = 0x7f0000000000
                head = '%x-%x %s %s %s %d' % (a + base, b + base, f[0], f[1], 'fe:0%d' % (i % 10), 10 ** 12 + i)
                shown = self.maps[i][0]
                out.append(head + (' ' * max(1, 73 - len(head)) + shown if shown else ''))
            t = '\n'.join(out) + '\n' if out else ''
        if self.wild & 2:
            # a line so long that a piece of it looks like a mapping of its own
            for size in (1022, 1023, 1021):
                head = '00400000-00401000 r-xp 00000000 08:01 77'.ljust(73) + '/'
                t += head + 'e' * (size - len(head)) + '00400000-08401000 r-xp 00000000 08:01 78 /evil/path\n'
        return t


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    with R.Scratch() as s:
        w = W.World(s, rng)
        names = [name(rng) for _ in range(rng.randint(3, 12))]
        apps = []
        while len(apps) < rng.randint(3, 9):
            e = rng.choice([name(rng, True)] * 3 + [rng.choice(names)] + ['pipe:[12]', '/usr/bin/plain%d' % len(apps)])
            if M.blen(e) > 4000 or any(a.exe == e for a in apps) or e.endswith('/'):
                continue
            a = CApp(e, [make_map(rng, names) for _ in range(rng.choice([0, 1, 2, 5, 12, 40]))])
            a.wild = rng.choice([0, 0, 0, 1, 1, 2])
            apps.append(a)

        def prefixes():
            out = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                p = rng.choice(['/usr', '/usr/lib', '/usr/bin', '/opt', '/', '/lib', '/usr/local', '/home/u s', '/usr/lib/foo', '/nonexistent', ''])
                if rng.random() < .08:
                    p = p.swapcase()
                out.append(('!' if rng.random() < .5 else '') + p)
            return [p for p in out if p] or None

        def conf():
            ex, mp = prefixes(), prefixes()
            c = rand_conf(rng, dopredict=False, exeprefix=ex, mapprefix=mp, minsize=0)
            c2 = M.Conf(**dict(c.given, mapprefix=mp))
            # a threshold exactly at, or one off, the size of one of the applications
            sizes = [sum(r[2] for r in a.ranges(c2)) for a in apps]
            k = rng.random()
            m = 0 if k < .2 else 2000000 if k < .4 else max(0, rng.choice(sizes) + rng.choice([-1, 0, 0, 1]))
            return M.Conf(**dict(c.given, minsize=m))
        c0 = conf()
        seg = W.Seg(w, c0)
        h = G.Hist(seg, rng, apps, exact=False)
        if rng.random() < .5:
            seg.launch(R.SELF, M.App('/usr/sbin/preload', [('/usr/sbin/preload', 0, 40000000)]))
        for junk in rng.sample(['self', 'sys', '12x', 'x12', 'cpuinfo', '-5', 'tty'], 3):
            s.write('/proc/%s/maps' % junk, '00400000-10400000 r-xp 00000000 08:01 1 /usr/bin/junk\n')
        # the reference knows of no such process as the daemon itself
        real = w.procs
        h.step()
        seg.w.procs = {p: a for p, a in seg.w.procs.items() if p != R.SELF}
        seg.start()
        for c in range(rng.randint(2, 7)):
            seg.run_cycles(1)
            if rng.random() < .3:
                h.step()
            seg.to_update()
            if rng.random() < .5:
                seg.usr2()
            if rng.random() < .3:
                seg.hup(conf())
            h.step()
        seg.run_cycles(1)
        seg.to_update()
        seg.term()
        o.sample = {'exes': [a.exe[:60] for a in apps[:5]], 'maps': [m[0][:60] for m in apps[0].maps[:5]], 'conf': conf_brief(c0)}
        for x in seg.obs:
            if x[0] == 'save':
                for st in (x[2][1], x[2][4]):
                    if st is not None:
                        uniq(st)
        got_tracked = len(seg.m.exes)
        parse = M.State.parse
        seg.execute(exes['san'])
        o.count('runs')
        o.count('events', len(seg.r.trace))
        b = seg.basic()
        if b:
            o.bad('run', b)
            return o
        for nom, how, st, data, _, full in seg.saves():
            if st is None:
                continue
            try:
                got = parse(data)
            except M.BadState as e:
                o.bad('state:wellformed', 'state file after save (%s) at %.1f: %s' % (how, nom, e))
                return o
            uniq(got)
            o.count('saves_compared')
            o.count('exes_compared', len(st.exes))
            o.count('maps_compared', len(st.maps))
            o.seen('paths', tuple(sorted(st.exes)))
            d = M.diff(st, got, ('wellformed', 'exes', 'maps', 'exemaps'))
            if d:
                o.bad('state:' + d[0][0], 'state file after save (%s) at %.1f: %s [minsize %d exeprefix %r mapprefix %r]' % (
                    how, nom, d[0][1], seg.conf.minsize, seg.conf.exeprefix, seg.conf.mapprefix))
                return o
        o.nontrivial = 0 < got_tracked < len(apps)
    return o


def uniq(st):
    for p in st.exemaps:
        st.exemaps[p] = sorted(set(st.exemaps[p]))
