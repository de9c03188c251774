#!/usr/bin/env python3
"""dev helper: mkseed.py ID PROPERTY FILE(relative to /repo/include/ode_num_int) -- reads 'old===new===needs===what' from stdin, makes seeded/ID/patch.diff, meta.json, demo.sh"""
import sys, os, json, subprocess
R = os.environ.get('SEEDREPO', '/repo'); i, prop = sys.argv[1:3]
parts = [x.strip('\n') for x in sys.stdin.read().split('\n===\n')]
needs, what = parts[0:2]; edits = parts[2:]
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
for k in range(0, len(edits), 3):
    f = R + '/' + edits[k].strip(); s = open(f).read(); assert s.count(edits[k+1]) == 1, (f, s.count(edits[k+1])); open(f, 'w').write(s.replace(edits[k+1], edits[k+2]))
p = subprocess.check_output(['git', '-C', R, 'diff']).decode(); open(d + '/patch.diff', 'w').write(p); subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with the repository as working directory; compiles demo.cpp against it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -D_DEBUG -w -Iinclude "$d/demo.cpp" src/OpaqueTickCounter.cpp src/PerTypeStorage.cpp src/TimerCalibrator.cpp src/reg_ode_solvers.cpp -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''')
