#!/usr/bin/env python3
"""Development: build the harness module for the given entries and run ksym directly.
k.py [--app] [--jobs N] [--time S] entry k=v ... """
import sys, os, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
a = sys.argv[1:]
app = '--app' in a
if app: a.remove('--app')
jobs, tm, extra = '8', '600', []
while a and a[0].startswith('--'):
    if a[0] == '--jobs': jobs = a[1]; a = a[2:]
    elif a[0] == '--time': tm = a[1]; a = a[2:]
    else: extra.append(a[0]); a = a[1:]
b = check.Build()
eng = b.engine()
m = b.module('harness', [a[0]])
cmd = [eng, 'run', '--module', m, '--entry', a[0], '--jobs', jobs, '--time', tm, '--out', '/tmp/k.json', '--frontier', '96'] + extra
if app: cmd += ['--app', b.module('app')]
for x in a[1:]: cmd += ['--arg', x]
subprocess.run(cmd, env=dict(os.environ))
o = json.load(open('/tmp/k.json'))
for v in o['violations'][:6]:
    print(v['kind'], v['msg'], check.compact(v['model']), v['notes'][-6:], v['stack'][:8])
for v in o['witnesses'][:20]:
    print('  witness', v['msg'], check.compact(v['model']))
