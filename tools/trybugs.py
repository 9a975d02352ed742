#!/usr/bin/env python3
"""trybugs.py SPEC.py [WORKERS [CHECKS|own|all]]: tries changes of the daemon's sources in private copies
of the repository.  SPEC.py defines BUGS: a list of (name, property, [(file, old text, new text), ...]).
With 'own' only the check of the property runs, with 'all' every check (that is for changes that must stay
unnoticed)."""
import os, shutil, subprocess, sys, tempfile, threading, queue, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
SRC = 'preload-src/src/'
ALL = ['C%02d' % i for i in range(1, 23)]
INNER = r'''
set -e
mount --make-rprivate /
mount --bind $W/repo /repo; mount --bind $W/vp /opt/vp; mount --bind $W/verif /verif
cd /repo
if ! bash /opt/vp/build.sh >$W/b.log 2>&1; then echo "BUILD FAILS"; grep -m3 error $W/b.log; exit 0; fi
timeout 60 bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1 || true
python3 - <<P
import json,sys
try:
  o=json.load(open('$W/o.json'))
  if len(o['passed'])<64 or o['failed']: print('TESTS FAIL', o['failed'])
except Exception: print('TESTS FAIL')
P
for c in $CHECKS; do
  set +e
  s=$(date +%s); out=$(timeout 900 python3 /verif/check.py $c 2>&1); rc=$?
  set -e
  if [ $rc -ne 0 ]; then echo "$c rc $rc ($(( $(date +%s) - s )) s) $(echo "$out" | grep -v ^note | head -1 | cut -c1-300)"; if [ $rc -ne 1 ]; then echo "$out" | tail -5; fi; else echo "$c quiet"; fi
done
'''


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    workers = int(sys.argv[2]) if len(sys.argv) > 2 else 3
    which = sys.argv[3:] or ['own']
    os.makedirs('/tmp/mut', exist_ok=True)
    q, lock = queue.Queue(), threading.Lock()
    for b in bugs:
        q.put(b)

    def work():
        while True:
            try:
                name, prop, edits = q.get_nowait()
            except queue.Empty:
                return
            W = tempfile.mkdtemp(prefix='mut-', dir='/tmp/mut')
            try:
                subprocess.run('cp -a {R} {W}/repo; cp -a /opt/vp {W}/vp; mkdir {W}/verif; cp -a {H}/lib {H}/shim {H}/check.py {H}/known-findings.txt {W}/verif/; mkdir {W}/verif/build'.format(R=REPO, H=HERE, W=W), shell=True)
                bad = None
                for f, old, new in edits:
                    p = os.path.join(W, 'repo', SRC, f)
                    t = open(p, encoding='utf-8').read()
                    if t.count(old) != 1:
                        bad = '%s: text found %d times: %r' % (f, t.count(old), old[:80])
                        break
                    open(p, 'w', encoding='utf-8').write(t.replace(old, new))
                if bad:
                    res = bad
                else:
                    checks = [prop] if which == ['own'] else ALL if which == ['all'] else which
                    env = dict(os.environ, W=W, CHECKS=' '.join(checks), VP_JOBS=str(max(2, 8 // workers)))
                    r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER], env=env, capture_output=True, text=True)
                    res = r.stdout.strip() + r.stderr[-300:]
                    if which == ['all']:
                        res = '\n'.join(l for l in res.splitlines() if not l.endswith(' quiet')) or 'all quiet'
            finally:
                shutil.rmtree(W, True)
            with lock:
                print('== %s (%s)\n%s' % (name, prop, res), flush=True)

    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
