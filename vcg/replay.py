#!/usr/bin/env python3-vt
"""replay.py FILE  -- run the failing input recorded in a replay file against /repo's current code (exit 1: it still fails)"""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
t = open(sys.argv[1]).read()
m = re.search(r'native harness (\w+) with seed (\d+)', t)
if not m:
    sys.exit('this file records a failed obligation without a failing input')
pid = re.search(r'^property: (\w+)', t, re.M).group(1)
work = tempfile.mkdtemp(prefix='verif_replay_')
try:
    exe, err = check.build_native('%s/spec/%s.c' % (check.VERIF, pid), work)
    if not exe:
        sys.exit(err)
    ovr = re.findall(r'^  (\S+ \d+ -?\d+ -?\d+ \S+)$', t, re.M)
    f = None
    if ovr:
        f = work + '/ovr.txt'
        open(f, 'w').write('\n'.join(ovr) + '\n')
    r = check.run_native(exe, work, m.group(1), int(m.group(2)), 1, 30.0, f, True, 'replay')
    print(r['what'])
    print(r.get('out', '')[:4000])
    sys.exit(1 if r['status'] in ('fail', 'crash') else 0)
finally:
    shutil.rmtree(work, ignore_errors=True)
