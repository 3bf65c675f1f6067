#!/usr/bin/env python3
"""Creates and confirms planted bugs: seed.py make ID.. | confirm ID.. | check ID.. [property..]
   make: writes seeded/<id>/ from seeds.py; confirm: builds + tests + demo in a scratch copy; check: runs this property's quick check with the patch applied to /repo."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from seeds import SEEDS
DEMO = '''#!/bin/bash
# run with cwd = repository; exit 0 if the property holds
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 -pthread %s -Iinclude "$here/demo.cpp" -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
HEAD = '''#include <persistence/exception.hpp>
#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/utility.hpp>
#include <iostream>
using namespace persistence;
#define CHECK(c) do { if (!(c)) { std::cerr << "FAILED: " #c "\\n"; return 1; } } while (0)
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def patched(sid, root):
    s = SEEDS[sid]
    for f, old, new in s['edits']:
        p = os.path.join(root, 'include/persistence', f)
        t = open(p).read()
        assert t.count(old) == 1, '%s: %s occurs %d times' % (f, old[:60], t.count(old))
        open(p, 'w').write(t.replace(old, new))
def make(sid):
    s = SEEDS[sid]
    d = os.path.join(here, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        sh('git clone -q /repo %s/r' % t)
        patched(sid, t + '/r')
        diff = sh('git -C %s/r diff' % t).stdout
        assert diff
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write((DEMO % s.get('flags', '')).replace('exit 3', 'exit 1' if s.get('compile') else 'exit 3'))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write((HEAD if s.get('head', True) else '') + s['demo'])
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(t)
def confirm(sid, scratch='/tmp/seedscratch'):
    d = os.path.join(here, 'seeded', sid)
    if not os.path.exists(scratch):
        sh('git clone -q /repo %s' % scratch)
    sh('git -C %s checkout -q -- . ; git -C %s fetch -q; git -C %s reset -q --hard origin/HEAD' % ((scratch,) * 3))
    a = sh('cd %s && bash %s/demo.sh' % (scratch, d))
    if a.returncode:
        return 'demo fails on the unchanged tree: ' + a.stdout[-500:]
    p = sh('git -C %s apply %s/patch.diff' % (scratch, d))
    if p.returncode:
        return 'patch does not apply ' + p.stdout
    b = sh('cd %s && bash %s/demo.sh' % (scratch, d))
    if b.returncode == 0 or b.returncode == 3:
        return 'demo gives %d with the patch %s' % (b.returncode, b.stdout[-500:])
    sh('sed s:/repo:%s:g /opt/vp/build.sh > %s/../seedbuild.sh' % (scratch, scratch))
    c = sh('bash %s/../seedbuild.sh' % scratch)
    if c.returncode:
        return 'does not build: ' + c.stdout[-1500:]
    c = sh('ctest --test-dir %s/_build -j8 --timeout 300' % scratch)
    if c.returncode:
        return 'tests fail: ' + c.stdout[-600:]
    return 'ok (%s)' % b.stdout.strip()[-200:]
def check(sid, props):
    d = os.path.join(here, 'seeded', sid)
    props = props or [json.load(open(d + '/meta.json'))['property']]
    p = sh('git -C /repo apply %s/patch.diff' % d)
    if p.returncode:
        return 'patch does not apply ' + p.stdout
    r = []
    try:
        for i in props:
            k = sh('cd %s && timeout 900 python3 run.py check %s' % (here, i))
            v = [l for l in k.stdout.splitlines() if l.startswith('VIOLATION')]
            r.append('%s: exit %d %s' % (i, k.returncode, 'CAUGHT' if v and k.returncode == 1 else 'missed'))
            cf = os.path.join(here, 'tools/catches.json'); cat = json.load(open(cf)) if os.path.exists(cf) else {}
            e = cat.setdefault(sid, {}).setdefault('caught', [])
            if v and k.returncode == 1 and i not in e: e.append(i)
            if not v and i in e: e.remove(i)
            json.dump(cat, open(cf, 'w'), indent=1, sort_keys=True)
            if not v:
                r.append(k.stdout[-300:])
            else:
                r.append(' / '.join(x.strip()[:160] for x in k.stdout.splitlines()[:3]))
    finally:
        sh('git -C /repo checkout -- .')
    return '\n   '.join(r)
if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    ids = [a for a in args if a in SEEDS] or sorted(SEEDS)
    props = [a for a in args if a not in SEEDS]
    for i in ids:
        if 'make' in cmd: make(i); print(i, 'made', flush=True)
        if 'confirm' in cmd: print(i, confirm(i), flush=True)
        if 'check' in cmd: print(i, check(i, props), flush=True)
