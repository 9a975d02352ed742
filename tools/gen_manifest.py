#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.dont_write_bytecode = True
TECH = {
    'C01': 'differential monitor: saved models across restarts against an executable reference, under ASan/UBSan',
    'C02': 'crash-point and fault injection at every call of a save, offline oracle over the file left behind',
    'C03': 'mutation fuzzing of the state file of the real daemon under ASan/UBSan, with a reload oracle',
    'C04': 'online sum of recorded readahead requests against the documented budget',
    'C05': 'recorded readahead requests against an executable reference ranking',
    'C06': 'recorded readahead requests against a reference of sorting and joining',
    'C07': 'online conservation monitor over fork/wait/exit events under injected failures and delays',
    'C08': 'event-log monitor of scans, requests and saved models against the reference gates',
    'C09': 'saved models against a reference parser over generated process tables',
    'C10': 'saved running times against reference accounting over random histories',
    'C11': 'saved transition statistics against a reference recomputation over random histories',
    'C12': 'logged bids and recorded requests against a reference probability model',
    'C13': 'saved sequence trees against a reference tree over random launch histories',
    'C14': 'logged bids and recorded requests against reference scoring',
    'C15': 'saved models before and after file removals against the reference, under ASan/UBSan',
    'C16': 'ASan/UBSan/LSan over mixed histories, heap and descriptor conservation across repeated periods',
    'C17': 'dumped and effective values against a reference configuration parser',
    'C18': 'signal injection at numbered calls and real-time signal storms, compared with a reference run',
    'C19': 'trace monitor over every file-system call, and comparison of all files before and after',
    'C20': 'virtual times of recorded steps against a reference schedule',
    'C21': 'hostile /proc and /sys content and injected failures under ASan/UBSan, with ordinary applications as control',
    'C22': 'trace, process and log monitor over generated command lines and failing starts',
}
TRUST = ('Says nothing about executions that were not produced. Trusts the interception shim (libc calls of the real daemon, virtual time, scratch file system), the reference model in '
         'lib/model.py written from the documentation, gcc\'s sanitizers and GLib.')
checks = []
for p in sorted(TECH):
    m = importlib.import_module('checks.' + p.lower())
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': TECH[p], 'level': m.LEVEL,
                   'level_note': 'Real daemon run on generated cases. ' + (('Enumerated: ' + m.EXHAUSTIVE + '. ') if getattr(m, 'EXHAUSTIVE', None) else '') + TRUST + ' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'})
d = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the checks link the unmodified sources of /repo/preload-src (as its Makefile lists them) with shim/shim.c, whose definitions of libc functions take precedence. '
              'known-findings.txt lists the repaired defects; DESIGN.md describes the methods.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
print(len(checks))
