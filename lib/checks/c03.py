"""C03: no state file can crash, hang or corrupt the daemon."""
import os, random, re
from checks.common import *

VARIANTS = ['wrap', 'san']
LEVEL = 'exploration'
RULE = ('state files: well-formed ones with entries that are to be skipped (compared with the reference, which skips them), and well-formed ones mutated by bytes, fields '
        '(extreme and malformed numbers, URIs, references), lines and splices, truncated at random places, or arbitrary bytes; run under AddressSanitizer and UBSan over several '
        'cycles with matching applications, both algorithms and all orders of reading; then a second start on what was saved. Non-trivial: every one; the numbers of accepted '
        'and refused files are reported')
ASSUMPTIONS = ['counters taken from a hostile file may wrap']
DIAG = re.compile(r'fail|error|invalid|cannot|line \d|state', re.I)

NUMS = ['0', '-1', '1', '2', '3', '7', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808',
        '-9223372036854775808', '18446744073709551615', '18446744073709551616', '9' * 60, '1e400', '-1e400', '1e-400', 'nan', '-nan', 'inf', '-inf', '0x10', '1.5', '', ' ', 'abc', '-', '+5',
        '00012', '1 2', '\x00', '%d', '%n%n']
URIS = ['file:///', 'file:///usr/bin/app00', 'file:///usr/bin/%00x', 'file:///usr/bin/%zz', 'file:///usr/bin/%2Fx', 'file://host/usr/bin/x', 'file://localhost/usr/bin/x', 'http://x/y',
        '/usr/bin/plain', 'usr', '', 'file:', 'file:////', 'file:///a#b', 'file:///a?b', 'FILE:///x', 'file:///' + 'a' * 503, 'file:///' + 'a' * 504, 'file:///' + '%41' * 504, 'file:///' + '%41' * 505,
        'file:///' + '%41' * 511, 'file:///' + '%41' * 512, 'file:///' + 'a' * 1534, 'file:///' + 'a' * 1535, 'file:///' + 'a' * 1536, 'file:///' + 'b' * 5000, 'file:///\xff\xfe', 'file:///proc/self/exe', 'file:///dev/null', 'file:///etc']


def cases(tier, seed):
    return cases_n('C03', 7000 if tier == 'quick' else 120000, seed)


def mutate(data, rng, other):
    lines = data.split(b'\n')
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8, 30])):
        k = rng.randint(0, 15)
        if not lines:
            break
        i = rng.randrange(len(lines))
        if k == 0:
            del lines[i]
        elif k == 1:
            lines.insert(rng.randint(0, len(lines)), lines[i])
        elif k == 2:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k <= 7:
            f = lines[i].split(b'\t')
            j = rng.randrange(len(f))
            if f[j].startswith(b'file') or rng.random() < .05:
                f[j] = rng.choice(URIS).encode('latin-1')
            elif j or rng.random() < .3:
                f[j] = (rng.choice(NUMS) if rng.random() < .7 else str(rng.randint(-5, 60))).encode()
            lines[i] = b'\t'.join(f)
        elif k == 8:
            f = lines[i].split(b'\t')
            if rng.random() < .5:
                f.insert(rng.randint(0, len(f)), rng.choice(NUMS).encode())
            else:
                del f[rng.randrange(len(f))]
            lines[i] = b'\t'.join(f)
        elif k == 9 and lines[i]:
            b = bytearray(lines[i])
            for _ in range(rng.randint(1, 4)):
                b[rng.randrange(len(b))] = rng.choice([rng.randint(0, 255), 0, 9, 32, 255])
            lines[i] = bytes(b)
        elif k == 10:
            lines.insert(i, rng.choice([b'', b'#comment', b'#', b' ', b'\t', b'MAP', b'EXE', b'MARKOV', b'PRELOAD', b'BADEXE\t1\t-1\tfile:///x', b'XYZ\t1', b'\r', b'A' * rng.choice([30, 31, 32, 33, 100, 5000]),
                                         b'PRELOAD\t0.6.4\t5', b'M\xffP\t1']))
        elif k == 11:
            lines[i] = lines[i] + rng.choice([b'\t', b' ', b'\r', b'x', b'\tx', b'\x00', b'\x00\x00y'])
        elif k == 12:
            o = other.split(b'\n')
            a = rng.randrange(len(o))
            lines[i:i] = o[a:a + rng.randint(1, 8)]
        elif k == 13:
            lines[i] = lines[i].replace(b'\t', rng.choice([b' ', b'', b'\t\t', b'  ']), rng.choice([1, -1]))
        elif k == 14:
            lines[0] = rng.choice([b'PRELOAD\t0.6.7\t' + rng.choice(NUMS).encode(), b'PRELOAD\t1.0\t5', b'PRELOAD\t-1.0\t5', b'PRELOAD\t0\t5', b'PRELOAD\t0.6.4', b'PRELOAD', b'preload\t0.6\t1', b'', b'\xef\xbb\xbfPRELOAD\t0.6.4\t5',
                                   b'PRELOAD\t0.' + b'6' * 400 + b'\t7', b'PRELOAD\t99999999999999999999.1\t7'])
        elif k == 15:
            # the same kind of record with numbers of its own
            t = rng.choice([b'MAP', b'EXE', b'EXEMAP', b'MARKOV', b'VOMMNODE'])
            n = lambda: (str(rng.randint(-1, 12)) if rng.random() < .9 else rng.choice(NUMS)).encode()
            cnt = {b'MAP': 5, b'EXE': 4, b'EXEMAP': 3, b'MARKOV': 23, b'VOMMNODE': 4}[t]
            f = [t] + [n() for _ in range(cnt)]
            if t in (b'MAP', b'EXE'):
                f.append(rng.choice(URIS).encode('latin-1') if rng.random() < .3 else b'file:///usr/bin/app%02d' % rng.randint(0, 9))
            lines.insert(rng.randint(1, len(lines)), b'\t'.join(f))
    data = b'\n'.join(lines)
    k = rng.random()
    if k < .1:
        data = data[:rng.randint(0, len(data))]
    elif k < .2 and data:
        b = bytearray(data)
        for _ in range(rng.randint(1, 20)):
            b[rng.randrange(len(b))] = rng.randint(0, 255)
        data = bytes(b)
    elif k < .23:
        data = data.replace(b'\n', rng.choice([b'\r\n', b'\r', b'\n\n', b'\xe2\x80\xa9', b'\x00']))
    return data


def arbitrary(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 10, 100, 5000])
    if k < .4:
        return bytes(rng.randint(0, 255) for _ in range(n))
    if k < .7:
        return b'PRELOAD\t0.6.4\t%d\n' % rng.randint(0, 9) + bytes(rng.choice(b'MAPEXBKOVN\t\t\n\n0123456789-file:/') for _ in range(n))
    return rng.choice([b'PRELOAD', b'PRELOAD\t', b'PRELOAD\t0.', b'PRELOAD\t0.6.4\t1', b'\n', b'\n\n', b'#\n', b'\x00' * 100, b'PRELOAD\t0.6.4\t1\n' + b'M' * 300000, b'PRELOAD\t0.6.4\t1\nMAP\t1\t1\t1\t1\t-1\tfile:///' + b'q' * 100000 + b'\n'])


def skips(rng, st, apps):
    """lines that must be skipped; sequence numbers as state_text gives them are not known, so they use none of an exe"""
    out = []
    for _ in range(rng.randint(1, 5)):
        k = rng.randint(0, 3)
        if k == 0:
            out.append('VOMMNODE\t%d\t%d\t%d\t0' % (rng.randint(5000, 9999), rng.randint(500, 999), rng.randint(0, 9)))
        elif k == 1:
            out.append('VOMMNODE\t%d\t1\t%d\t%d' % (rng.randint(5000, 9999), rng.randint(0, 9), rng.randint(600, 4000)))
        elif k == 2:
            out.append('BADEXE\t%d\t-1\tfile:///usr/bin/bad%d' % (rng.randint(0, 99), rng.randint(0, 99)))
        else:
            out.append('#' + rng.choice(['', ' a comment', 'MAP\t1\t2']))
    return out


def run_case(case, exes):
    rng = random.Random(case['seed'])
    o = Out()
    with R.Scratch() as s:
        w = W.World(s, rng)
        apps = G.make_apps(w, rng, rng.randint(1, 6))
        for i in range(10):
            if '/usr/bin/app%02d' % i not in w.files:
                w.mkfile('/usr/bin/app%02d' % i)
        conf = rand_conf(rng, minsize=0, cycle=rng.choice([8, 20]), sortstrategy=rng.choice([0, 1, 2, 3]))
        st = gen_state(rng, apps, conf, maxc=rng.choice([5, 10 ** 6, 2 ** 31 - 1]), tree=rng.choice([0, 5, 30]))
        if rng.random() < .12:
            conf = M.Conf(**dict(conf.given, sortstrategy=0))
            st = gen_state(rng, apps, conf, maxc=50, tree=rng.choice([2, 5, 30]))
            s.write(R.STATE, state_text(st, rng, extra=skips(rng, st, apps)))
            o.count('with_entries_to_skip')
            history(o, exes['san'], rng, M.ALL, nseg=2, cycles=(1, 4), world=w, apps=apps, model=M.Model.from_state(st), conf=lambda r: conf, sel=True, p_crash=0)
            return o
        if rng.random() < .04:
            # a file that is to be ignored as a whole
            conf = M.Conf(**dict(conf.given, sortstrategy=0))
            st = gen_state(rng, apps, conf, maxc=50, tree=rng.choice([2, 5, 30]))
            head, rest = state_text(st, rng).split(b'\n', 1)
            head = rng.choice([b'PRELOAD\t1.0\t%d', b'PRELOAD\t2.13.1\t%d', b'PRELOAD\t12.0\t%d', b'PRELOADED\t0.6.7\t%d', b'#PRELOAD\t0.6.7\t%d', b'preload\t0.6.7\t%d']) % st.time
            s.write(R.STATE, head + b'\n' + rest)
            o.count('ignored_as_a_whole')
            history(o, exes['san'], rng, M.ALL, nseg=2, cycles=(1, 4), world=w, apps=apps, conf=lambda r: conf, sel=True, p_crash=0)
            return o
        data = state_text(st, rng)
        if rng.random() < .03:
            f = data.split(b'\n', 1)
            data = b'PRELOAD\t0.6.7\t%d\n' % (2 ** rng.choice([30, 31, 31, 31]) - rng.choice([0, 1, 1, 2, 5, 9, 20, 40, 1000])) + f[1]
        elif rng.random() < .88:
            data = mutate(data, rng, state_text(gen_state(rng, apps, conf), rng))
        else:
            data = arbitrary(rng)
        s.write(R.STATE, data)
        if rng.random() < .01:
            os.unlink(s.host(R.STATE))
            os.mkdir(s.host(R.STATE))
            data = None
        o.sample = {'file': (data or b'').decode('latin-1')[:300]}
        for run in (1, 2):
            seg = W.Seg(w, M.Conf(**dict(conf.given, prediction_algorithm=rng.choice(['VOMM', 'Markov']))))
            h = G.Hist(seg, rng, apps, exact=False)
            h.step()
            seg.start()
            for _ in range(rng.randint(1, 4)):
                seg.run_cycles(1)
                if rng.random() < .3:
                    seg.usr2()
                    seg.wait(.2)
                if rng.random() < .1:
                    seg.usr1()
                if rng.random() < .2:
                    a = rng.choice(apps)
                    seg.rm(a.exe)
                h.step()
                if rng.random() < .15:
                    reconf(seg, rng, prediction_algorithm=rng.choice(['VOMM', 'Markov']))
            seg.term()
            seg.execute(exes['wrap'])
            r = seg.r
            o.count('runs')
            o.count('events', len(r.trace))
            if r.hung or r.san or r.stuck:
                o.bad('run', 'start %d: %s' % (run, seg.basic()))
                return o
            if r.rc == 1 and run == 1 and not r.forced:
                o.count('refused')
                if any(e.t > 1 for e in r.trace):
                    o.bad('late', 'the file is refused only at %.1f s' % max(e.t for e in r.trace))
                new = [l for l in (r.log + r.stderr).splitlines() if not re.search(r'\] loading (conf|state) from \S+$|Exiting$|loading conf done', l)]
                if not any(DIAG.search(l) for l in new):
                    o.bad('diagnostic', 'the file is refused without a diagnostic')
                if data is not None and s.read(R.STATE) != data:
                    o.bad('changed', 'the refused file has been changed')
                m = re.search(r'line (\d+)', r.log)
                if m:
                    o.seen('refused_lines', m.group(1))
                return o
            if r.rc != 0 or r.forced:
                o.bad('run' if run == 1 else 'reload', '%s: the daemon ends with status %s%s' % ('start on the file' if run == 1 else 'second start, on what it saved', r.rc, W.tail(r)))
                return o
            if run == 1:
                o.count('accepted')
                if data is None:
                    return o
            if 'assertion' in r.log and 'failed' in r.log:
                o.bad('assertion', 'internal consistency failure: ' + [l for l in r.log.splitlines() if 'assertion' in l][0])
                return o
        o.seen('accepted_files', data)
    return o
