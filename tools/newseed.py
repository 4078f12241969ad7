#!/usr/bin/env python3
"""development aid: newseed.py FILE... : each FILE is a Python literal dict(id, prop, needs, what, edits=[(file, old, new)], demo='C++ source')
makes /verif/seeded/<id> from /tmp/seededit (a clone of /repo)"""
import sys, os, subprocess, json
E = '/tmp/seededit'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
for f in sys.argv[1:]:
    for s in eval(open(f).read()):
        sh(f'git -C {E} checkout -q -- . && git -C {E} fetch -q /repo HEAD && git -C {E} reset -q --hard FETCH_HEAD')
        ok = True
        for path, old, new in s['edits']:
            p = os.path.join(E, path); t = open(p).read()
            if t.count(old) != 1: print(s['id'], path, 'old text occurs', t.count(old), 'times'); ok = False; continue
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh(f'git -C {E} diff').stdout)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -g %s -I"$PWD/include" "$here/demo.cpp" %s -o "$tmp/demo"
cd "$tmp" && timeout 60 ./demo
''' % (s.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all'), s.get('link', '')))
        sh(f'git -C {E} checkout -q -- .')
        print(s['id'], 'written')
