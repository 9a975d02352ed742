"""Runs the cases of a check in parallel, confirms and reports violations, writes evidence."""
import run as R
import collections, hashlib, importlib, json, multiprocessing, os, random, re, sys, time, traceback
import build as B

VERIF = B.VERIF
EXES = {}
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Out:
    """outcome of one case"""

    def __init__(self):
        self.violations = []   # (signature, text)
        self.stats = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.sample = None
        self.nontrivial = True
        self.digest = None     # what makes this case distinct from others

    def bad(self, sig, text):
        self.violations.append((sig, text[:1500]))

    def count(self, k, n=1):
        self.stats[k] += n

    def seen(self, k, v):
        if len(self.sets[k]) < 100000:
            self.sets[k].add(v if isinstance(v, (int, str)) else hashlib.md5(repr(v).encode()).hexdigest()[:12])


def seed_for(prop, n, seed):
    return int(hashlib.sha256(('%s/%s/%s' % (prop, n, seed)).encode()).hexdigest()[:12], 16)


def _one(job):
    mod, case = job
    try:
        m = importlib.import_module('checks.' + mod)
        o = m.run_case(case, EXES)
        return case, o, None
    except Exception:
        return case, None, traceback.format_exc()


def known_findings(prop):
    """signature -> text, of the findings listed for this property"""
    out = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)$', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def main(prop, argv):
    mod = prop.lower()
    m = importlib.import_module('checks.' + mod)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        for v in m.VARIANTS:
            EXES[v] = B.build(v)
    except B.BuildError as e:
        print('ERROR: cannot build: %s' % e)
        return 2
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    if replay:
        d = json.load(open(replay))
        seed, tier = d['seed'], d['tier']
        cases = [d['case']]
        os.environ['VP_VERBOSE'] = '1'
    else:
        cases = m.cases(tier, seed)
    limit = float(os.environ.get('VP_LIMIT', '0')) or {'quick': 300, 'thorough': 3000}[tier]
    stats, sets, samples, digests, bads, errors = collections.Counter(), collections.defaultdict(set), [], set(), [], []
    done = 0
    incomplete = 0
    nontriv = 0
    workers = int(os.environ.get('VP_JOBS', '8'))
    ctx = multiprocessing.get_context('fork')
    R.sweep()
    pool = ctx.Pool(workers)
    try:
        it = pool.imap_unordered(_one, ((mod, c) for c in cases), chunksize=getattr(m, 'CHUNK', 1))
        for case, o, err in it:
            done += 1
            if err:
                errors.append((case, err))
                if len(errors) > 3:
                    break
                continue
            stats.update(o.stats)
            for k, v in o.sets.items():
                sets[k] |= v
            if o.nontrivial:
                nontriv += 1
                digests.add(o.digest or json.dumps(case, sort_keys=True, default=str))
            if o.sample and len(samples) < 4 and (done % 7 == 1 or not samples):
                samples.append(o.sample)
            if o.violations:
                bads.append((case, o))
                if len(bads) >= (8 if not replay else 1):
                    break
            if time.time() - t0 > limit:
                incomplete = 1
                break
    finally:
        pids = [p.pid for p in pool._pool]
        pool.terminate()
        pool.join()
        R.sweep(pids)
    # confirm: a violation counts if running the case again shows one again
    known = known_findings(prop)
    confirmed, knownhits, unconfirmed = [], {}, 0
    for case, o in bads:
        rest = [(s, t) for s, t in o.violations if s not in known]
        for s, t in o.violations:
            if s in known:
                knownhits[s] = t
        if not rest:
            continue
        if replay:
            confirmed.append((case, rest[0]))
            break
        again = None
        for _ in range(getattr(m, 'CONFIRM', 3)):
            _, o2, err2 = _one((mod, case))
            if err2:
                errors.append((case, err2))
                break
            r2 = [(s, t) for s, t in o2.violations if s not in known]
            if r2:
                again = r2[0]
                break
        if again:
            confirmed.append((case, again))
            break
        unconfirmed += 1
        print('note: not reproduced: %s' % rest[0][1][:300])
    wall = time.time() - t0
    cov = {'evaluations': done, 'distinct_nontrivial': len(digests), 'rule': m.RULE, 'samples': samples or ['none']}
    for k, v in sorted(stats.items()):
        cov['n_' + k] = v
    for k, v in sorted(sets.items()):
        cov['distinct_' + k] = len(v)
    cov['cases_planned'] = len(cases)
    cov['stopped_at_time_limit'] = bool(incomplete)
    cov['not_reproduced'] = unconfirmed
    if getattr(m, 'EXHAUSTIVE', None):
        cov['enumeration'] = m.EXHAUSTIVE
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': m.LEVEL, 'coverage': cov,
          'assumptions': getattr(m, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not replay:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    for s in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[s]))
    if confirmed:
        case, (sig, text) = confirmed[0]
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': case, 'signature': sig, 'text': text}, f, indent=1, default=str)
            f.write('\n')
        print('%s: %s' % (sig, text))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        print('ERROR: the check itself failed on case %r:\n%s' % errors[0])
        return 2
    print('%s: held on %d cases (%d distinct and non-trivial) in %.1f s; %s' % (
        prop, done, len(digests), wall, ', '.join('%s %d' % kv for kv in sorted(stats.items()))))
    return 0
