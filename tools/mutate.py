#!/usr/bin/env python3
"""mutate.py OUT.jsonl WORKERS [COUNT]: small changes of the daemon's sources at random, each tried
in private copies of the repository (MUT_REPO or /repo) and of the directory this file is in: those that build and pass the repository's tests go through
the checks (with short time limits), and what no check reports is listed for a look by hand."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue
SRC = 'preload-src/src/'
FILES = ['algorithm/markov.c', 'algorithm/prophet.c', 'algorithm/vomm.c', 'config/cmdline.c', 'config/conf.c', 'daemon/preload.c', 'handling/context.c', 'handling/exe.c',
         'handling/map.c', 'handling/model_utils.c', 'handling/readahead.c', 'handling/state.c', 'handling/state_io.c', 'monitoring/proc.c', 'monitoring/spy.c',
         'utils/log.c', 'utils/power.c']
FIRST = {'algorithm/markov.c': 'C11 C12 C10', 'algorithm/prophet.c': 'C12 C05 C04 C14 C08', 'algorithm/vomm.c': 'C13 C14 C03 C01', 'config/cmdline.c': 'C22', 'config/conf.c': 'C17 C16 C18',
         'daemon/preload.c': 'C22 C18 C20 C16', 'handling/context.c': 'C22 C16', 'handling/exe.c': 'C09 C15 C10 C11', 'handling/map.c': 'C09 C16 C15', 'handling/model_utils.c': 'C15',
         'handling/readahead.c': 'C06 C07', 'handling/state.c': 'C20 C08 C01 C02 C16', 'handling/state_io.c': 'C01 C02 C03 C19', 'monitoring/proc.c': 'C09 C21 C04', 'monitoring/spy.c': 'C09 C10 C11 C16',
         'utils/log.c': 'C22 C18 C19', 'utils/power.c': 'C08 C21'}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
ALL = ['C%02d' % i for i in range(1, 23)]


def strip(line):
    return re.sub(r'/\*.*?\*/|//.*$', '', line)


def mutants(repo):
    out = []
    for f in FILES:
        text = open(os.path.join(repo, SRC, f), encoding='utf-8').read().split('\n')
        comment = False
        for n, l in enumerate(text):
            c = comment
            if '/*' in l and '*/' not in l[l.index('/*'):]:
                comment = True
            elif '*/' in l:
                comment = False
            if c or comment:
                continue
            code = strip(l)
            s = code.strip()
            if not s or s.startswith('#') or s.startswith('*') or 'g_debug' in s or 'g_return' in s or 'g_assert' in s:
                continue
            def add(kind, new):
                if new != l:
                    out.append((f, n, kind, l, new))
            for m in re.finditer(r'(?<![-<>=!+*/|&])(<=|>=|==|!=|<|>)(?![<>=])', code):
                if '->' in code[m.start() - 1:m.end() + 1] or 'include' in code or not code[max(0, m.start() - 1)] == ' ':
                    continue
                for r in {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!='], '!=': ['==']}[m.group(1)]:
                    add('rel', l[:m.start()] + r + l[m.end():])
            for m in re.finditer(r'&&|\|\|', code):
                add('log', l[:m.start()] + ('||' if m.group() == '&&' else '&&') + l[m.end():])
            for m in re.finditer(r' ([-+*/]) ', code):
                add('arith', l[:m.start(1)] + {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group(1)] + l[m.end(1):])
            for m in re.finditer(r'\+\+|--|\+=|-=', code):
                add('inc', l[:m.start()] + {'++': '--', '--': '++', '+=': '-=', '-=': '+='}[m.group()] + l[m.end():])
            for m in re.finditer(r'(?<![\w."%\[x])(\d+(?:\.\d+)?)(?![\w."])', code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                    continue
                v = m.group(1)
                for r in ([str(float(v) * 1.5)] if '.' in v else [str(int(v) + 1)] + ([str(int(v) - 1)] if int(v) > 0 else [])):
                    add('const', l[:m.start()] + r + l[m.end():])
            for m in re.finditer(r'\b(TRUE|FALSE)\b', code):
                add('bool', l[:m.start()] + ('FALSE' if m.group() == 'TRUE' else 'TRUE') + l[m.end():])
            for m in re.finditer(r'!(?=[\w(*])', code):
                if not ('"' in code[:m.start()] and code[:m.start()].count('"') % 2):
                    add('neg', l[:m.start()] + l[m.end():])
            m = re.match(r'(\s*)(if|while) \((.*)\)(\s*\{?)\s*$', code)
            if m and m.group(3).count('(') == m.group(3).count(')'):
                if m.group(2) == 'if':
                    add('true', '%sif (1 || (%s))%s' % (m.group(1), m.group(3), m.group(4)))
                add('false', '%s%s (0 && (%s))%s' % (m.group(1), m.group(2), m.group(3), m.group(4)))
            if s.endswith(';') and s.count('(') == s.count(')') and not re.match(r'(static|const|struct|typedef|extern|return|gchar|int|char|double|gint|guint|size_t|GList|GSList|GHash|GPtr|preload_\w+ \*|vomm_node_t \*|FILE|DIR|pid_t|long|gboolean|gpointer|time_t|GError|GIO|for)\b', s) and not s.startswith('}'):
                add('del', re.match(r'\s*', l).group() + ';')
    return out


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


INNER = r'''
set -e
mount --make-rprivate /
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/verif /verif
cd /repo
if ! bash /opt/vp/build.sh >/dev/null 2>&1; then echo BUILD; exit 0; fi
timeout 60 bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1 || true
if ! python3 - <<P
import json,sys
try: o=json.load(open('$W/o.json'))
except Exception: sys.exit(1)
sys.exit(0 if len(o['passed'])>=64 and not o['failed'] else 1)
P
then echo TESTS; exit 0; fi
for c in $CHECKS; do
  set +e
  out=$(timeout 400 python3 /verif/check.py $c 2>&1); rc=$?
  set -e
  if [ $rc -ne 0 ]; then echo "CAUGHT $c $rc $(echo "$out" | head -1 | cut -c1-200)"; exit 0; fi
done
echo SURVIVED
'''


def worker(q, outf, lock):
    while True:
        try:
            k, (f, n, kind, old, new) = q.get_nowait()
        except queue.Empty:
            return
        W = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
        try:
            sh('cp -a {R} {W}/repo; cp -a /opt/vp {W}/vp; mkdir {W}/verif; cp -a {H}/lib {H}/shim {H}/check.py {H}/known-findings.txt {W}/verif/; mkdir {W}/verif/build'.format(R=REPO, H=HERE, W=W))
            p = os.path.join(W, 'repo', SRC, f)
            t = open(p, encoding='utf-8').read().split('\n')
            assert t[n] == old
            t[n] = new
            open(p, 'w', encoding='utf-8').write('\n'.join(t))
            first = FIRST[f].split()
            env = dict(os.environ, W=W, CHECKS=' '.join(first + [c for c in ALL if c not in first]), VP_LIMIT=os.environ.get('VP_LIMIT', '12'), VP_JOBS=os.environ.get('VP_JOBS', '2'))
            r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER], env=env, capture_output=True, text=True)
            res = (r.stdout.strip().splitlines() or ['ERROR ' + r.stderr[-200:]])[-1]
        finally:
            shutil.rmtree(W, True)
        with lock:
            outf.write(json.dumps({'k': k, 'file': f, 'line': n + 1, 'kind': kind, 'old': old.strip(), 'new': new.strip(), 'result': res}) + '\n')
            outf.flush()


def main():
    ms = mutants(REPO)
    random.Random(int(os.environ.get("MUT_SEED", "7"))).shuffle(ms)
    if len(sys.argv) < 2:
        print(len(ms))
        import collections
        print(collections.Counter(m[2] for m in ms), collections.Counter(m[0] for m in ms))
        return
    done = set()
    if os.path.exists(sys.argv[1]):
        done = {json.loads(l)['k'] for l in open(sys.argv[1])}
    q = queue.Queue()
    for k, m in enumerate(ms[:int(sys.argv[3]) if len(sys.argv) > 3 else len(ms)]):
        if k not in done:
            q.put((k, m))
    lock = threading.Lock()
    with open(sys.argv[1], 'a') as outf:
        ts = [threading.Thread(target=worker, args=(q, outf, lock)) for _ in range(int(sys.argv[2]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


main()
