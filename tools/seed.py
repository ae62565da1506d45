#!/usr/bin/env python3
"""seed.py SPEC.py: creates /verif/seeded/<id>/ from specs (dicts) and confirms the demonstration in a scratch copy.
Each spec: id, property, file, old, new, needs, breaks, flags, demo (C++ source), [edits: more (file, old, new)], [cmd: full demo.sh body]"""
import sys, os, subprocess, json, shutil
specs = {}
exec(open(sys.argv[1]).read(), specs)
WT = '/tmp/wt'
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
L="g++ -std=c++14 -O2 -w -DVc_COMPILE_LIB -I."
for s in const cpuid support_x86; do $L -c src/$s.cpp -o $t/$s.o || exit 2; done
%s
g++ -std=c++14 -w %s -I. "$d/demo.cpp" $t/*.o -o $t/demo || exit 3
$t/demo
'''
def run(c, cwd): return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
for s in specs['S']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
    d = '/verif/seeded/' + s['id']
    run(['git', 'fetch', '-q', '/repo'], WT); run(['git', 'checkout', '-q', '-f', run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], WT).stdout.strip()], WT)
    ok = True
    for f, o, n in [(s['file'], s['old'], s['new'])] + s.get('edits', []):
        t = open(WT + '/' + f).read()
        if t.count(o) < 1: print(s['id'], 'NO MATCH', f); ok = False; break
        if t.count(o) > 1: print(s['id'], 'ambiguous', f, t.count(o)); ok = False; break
        open(WT + '/' + f, 'w').write(t.replace(o, n))
    if not ok: run(['git', 'checkout', '-q', '-f', '.'], WT); continue
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(['git', 'diff'], cwd=WT, stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(p)
    if 'demo' in s: open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(s.get('cmd') or SH % (s.get('libs', ''), s.get('flags', '-O1 -msse4.1')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a = run([d + '/demo.sh'], '/repo'); b = run([d + '/demo.sh'], WT)
    print(s['id'], s['property'], 'unchanged:', a.returncode, 'patched:', b.returncode, '' if a.returncode == 0 and b.returncode in (1, 134, 139) else '\n' + a.stdout[-1500:] + '\n----\n' + b.stdout[-1500:])
    run(['git', 'checkout', '-q', '-f', '.'], WT)
