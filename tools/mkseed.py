#!/usr/bin/env python3
"""Creates and confirms planted changes in a scratch copy of the repository.

  mkseed.py DEFS.py [ID...]

DEFS.py defines SEEDS = {id: dict(property, needs, what, edits=[(file, old, new[, nth])], demo=C++ source,
flags=[...], script=optional demo.sh body, files={name: text})}.
For each one: apply the edits to a scratch copy, write patch.diff/demo.sh/meta.json, check that the copy
builds, passes the existing tests, and that the demonstration tells the two trees apart.
"""
import json, os, re, shutil, subprocess, sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mkseed'
DEMO = '''#!/bin/bash
# Run in the root of the source tree; exits 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "${out:?}"' EXIT
g++ %s -I"$PWD/config/standalone" -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 60 "$out/demo"
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(SCRATCH):
        os.makedirs(SCRATCH)
        r = sh('git -C /repo archive HEAD | tar x -C ' + SCRATCH)
        r = sh('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base', cwd=SCRATCH)
    else:
        sh('git checkout -q -- .', cwd=SCRATCH)


def build_and_test():
    r = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DENABLE_TESTING=ON && ninja -C _build', cwd=SCRATCH)
    if r.returncode:
        return False, r.stdout[-1500:]
    r = sh('timeout 60 ./FakeIt_tests', cwd=SCRATCH + '/_build/tests')
    m = re.search(r'Passed:\s+(\d+)', r.stdout)
    f = re.search(r'Failed:\s+(\d+)', r.stdout)
    ok = r.returncode == 0 and m and int(m.group(1)) >= 229
    return ok, 'rc %d passed %s failed %s %s' % (r.returncode, m and m.group(1), f and f.group(1), '' if ok else '\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l or 'xception' in l)[:600])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:] or sorted(ns['SEEDS'])
    for sid in want:
        s = ns['SEEDS'][sid]
        fresh()
        for e in s['edits']:
            p = os.path.join(SCRATCH, e[0])
            t = open(p).read()
            n = t.count(e[1])
            if n != 1 and len(e) < 4:
                print(sid, 'EDIT MATCHES', n, 'TIMES:', e[1][:60])
                break
            if len(e) < 4:
                t = t.replace(e[1], e[2])
            else:
                parts = t.split(e[1])
                t = e[1].join(parts[:e[3] + 1]) + e[2] + e[1].join(parts[e[3] + 1:])
            open(p, 'w').write(t)
        else:
            d = os.path.join(BASE, 'seeded', sid)
            os.makedirs(d, exist_ok=True)
            patch = sh('git diff', cwd=SCRATCH).stdout
            open(d + '/patch.diff', 'w').write(patch)
            if 'demo' in s:
                open(d + '/demo.cpp', 'w').write(s['demo'])
            for n, t in s.get('files', {}).items():
                open(d + '/' + n, 'w').write(t)
            open(d + '/demo.sh', 'w').write(s.get('script') or DEMO % ' '.join(s.get('flags', ['-std=c++14', '-O0'])))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
            ok, msg = build_and_test()
            bad = sh('bash %s/demo.sh' % d, cwd=SCRATCH)
            sh('git checkout -q -- .', cwd=SCRATCH)
            good = sh('bash %s/demo.sh' % d, cwd=SCRATCH)
            verdict = ok and good.returncode == 0 and bad.returncode not in (0, 3)
            print(sid, 'OK' if verdict else 'NOT OK', '| tests', msg, '| demo good', good.returncode, 'bad', bad.returncode)
            if not verdict:
                print('   good:', good.stdout[-600:], '\n   bad:', bad.stdout[-300:])
        sys.stdout.flush()


main()
