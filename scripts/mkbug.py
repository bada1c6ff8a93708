#!/usr/bin/env python3
"""scripts/mkbug.py SPEC.py: SPEC defines ID, PROP, EDITS=[(file, old, new)], PKG, DEMO, NEEDS, BREAKS; writes seeded/ID."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"/verif/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
w = '/tmp/mkbug'
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', w])
for f, o, n in ns['EDITS']:
    p = f'{w}/{f}'
    s = open(p).read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(p, 'w').write(s.replace(o, n))
subprocess.check_call(['gofmt', '-l', '.'], cwd=w)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=w, text=True))
shutil.rmtree(w)
shutil.copy('/verif/scripts/demo.sh', d)
open(d + '/pkg', 'w').write(ns['PKG'] + '\n')
open(d + '/demo_test.go', 'w').write(ns['DEMO'].lstrip())
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
