#!/usr/bin/env python3
"""mkseed.py DIR: tries a planted change.  DIR holds demo.py, meta.json and patch.diff; adds
demo.sh and what the demonstration needs, and checks in a scratch copy of /repo that it builds,
passes the tests, and that the demonstration tells."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.abspath(sys.argv[1])
if os.path.exists(d + '/demo.py') and not os.path.exists(d + '/dl.py'):
    for f in ('tools/demo/dl.py', 'lib/run.py', 'shim/shim.c'):
        shutil.copy(os.path.join(V, f), d)
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the root of the repository, after the build\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
json.load(open(d + '/meta.json'))


def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)


def demo():
    r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
if 'nobase' not in sys.argv:
    rc, out = demo()
    print('unchanged: rc %d %s' % (rc, out))
r = sh('git -C /repo apply %s/patch.diff' % d)
if r.returncode:
    print('patch does not apply', r.stderr)
    sys.exit(1)
try:
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        print('BUILD FAILS', r.stderr[-500:])
        sys.exit(1)
    sh('bash /opt/vp/test.sh /tmp/o.json')
    o = json.load(open('/tmp/o.json'))
    print('tests: %d passed, failed %s' % (len(o['passed']), o['failed']))
    rc, out = demo()
    print('changed: rc %d %s' % (rc, out))
    for c in [a for a in sys.argv[2:] if a.startswith('C')] or [json.load(open(d + '/meta.json'))['property']]:
        r = sh('python3 %s/check.py %s' % (V, c))
        l = [x for x in r.stdout.splitlines() if not x.startswith('note')]
        print('check %s: rc %d %s' % (c, r.returncode, (l or [''])[0][:260]))
finally:
    sh('git -C /repo checkout -- .; bash /opt/vp/build.sh')
