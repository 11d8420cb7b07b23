#!/usr/bin/env python3
"""Runs the check of one property:  check.py ID [quick|thorough] | check.py --replay FILE | check.py --build

Compiles the explorer programs of the property against the current working tree of /repo (public
headers only), runs them, writes evidence/<ID>.json and reports.  Exit 0: held on everything explored.
Exit 1 with a line "VIOLATION property=<ID> replay=<path>": broken.  Anything else: error of the check.
"""
import concurrent.futures
import difflib
import hashlib
import importlib.util
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
sys.path.insert(0, VERIF)
from registry import CHECKS, DEEP, DEEP_ORDER, FRAMEWORKS  # noqa: E402

TITLES = {}
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    if line.strip():
        p = json.loads(line)
        TITLES[p['id']] = p['title']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_hash():
    """Content hash of everything a program can include."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, d) for d in ('include', 'config', 'single_header')] + \
            [os.path.join(REPO, 'tests'), os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'checks')]
    for root in roots:
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.hpp', '.h', '.cpp', '.inc')):
                    path = os.path.join(dp, f)
                    h.update(path.encode() + b'\0')
                    with open(path, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def compiler_works(cxx):
    d = os.path.join(BUILD, 'probe')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'probe.cpp')
    with open(src, 'w') as f:
        f.write('#include <vector>\n#include <string>\nint main(){std::vector<std::string> v(3);return (int)v.size()-3;}\n')
    exe = os.path.join(d, 'probe.%s' % os.path.basename(cxx))
    r = sh([cxx, '-std=c++17', src, '-o', exe])
    return r.returncode == 0 and sh([exe]).returncode == 0


def compile_command(unit, out):
    cxx = unit.get('cxx', 'g++')
    cmd = [cxx, '-std=' + unit.get('std', 'c++17'), unit.get('opt', '-O0'), '-w', '-ftemplate-depth=2000']
    cmd += unit.get('flags', [])
    for inc in unit.get('includes', ['{repo}/config/standalone', '{repo}/include']):
        cmd.append('-I' + inc.format(repo=REPO, verif=VERIF))
    cmd += ['-I' + os.path.join(VERIF, 'harness')]
    for inc in unit.get('isystem', []):
        cmd += ['-isystem', inc.format(repo=REPO, verif=VERIF)]
    cmd += ['-D' + d.format(repo=REPO) for d in unit.get('defines', [])]
    cmd += [os.path.join(VERIF, s) for s in unit['sources']]
    cmd += ['-o', out] + unit.get('libs', [])
    return cmd


def build_unit(pid, unit, th):
    d = os.path.join(BUILD, pid, unit['name'])
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'prog')
    cmd = compile_command(unit, out)
    key = hashlib.sha256((th + '\0' + '\0'.join(cmd)).encode()).hexdigest()
    stamp = os.path.join(d, 'stamp')
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return (unit, out, 0, '', cmd)
    for f in (stamp, out):
        if os.path.exists(f):
            os.remove(f)
    r = sh(cmd)
    log = os.path.join(d, 'compile.log')
    with open(log, 'w') as f:
        f.write(' '.join(map(shlex.quote, cmd)) + '\n' + r.stdout)
    if r.returncode == 0:
        with open(stamp, 'w') as f:
            f.write(key)
    return (unit, out, r.returncode, r.stdout, cmd)


def known_findings():
    known = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def write_evidence(pid, tier, spaces, probes, wall, violations, notes):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    samples = []
    for s in spaces:
        for smp in s.get('samples', [])[:1]:
            samples.append(smp)
    cov = {
        'states': sum(s['states'] for s in spaces),
        'transitions': sum(s['transitions'] for s in spaces),
        'traces_validated_against_impl': sum(s['executions'] for s in spaces),
        'samples': samples[:12] if samples else [{'note': 'no complete execution in this run'}],
        'exhaustive': bool(spaces) and all(s['exhaustive'] for s in spaces),
        'spaces': [{k: s[k] for k in s if k not in ('samples',)} for s in spaces],
        'probes': probes,
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
        'assumptions': CHECKS[pid].get('assumptions', []) + notes,
        'wall_s': round(wall, 3), 'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fn = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + '.tmp', fn)


def violation(pid, name, payload):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, re.sub(r'[^A-Za-z0-9_.-]', '_', name)))
    payload['property'] = pid
    with open(path, 'w') as f:
        json.dump(payload, f, indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)


def units_of(pid, tier):
    units = []
    for u in CHECKS[pid]['units']:
        if u.get('tier', 'quick') == 'thorough' and tier != 'thorough':
            continue
        units.append(u)
    return units


def run_check(pid, tier):
    t0 = time.time()
    if pid not in CHECKS:
        raise CheckError('unknown property ' + pid)
    if not os.path.isdir(os.path.join(REPO, 'include')):
        raise CheckError('no source tree at ' + REPO)
    th = tree_hash()
    units = units_of(pid, tier)
    spaces, probes, notes = [], [], []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        built = list(ex.map(lambda u: build_unit(pid, u, th), units))
    for unit, out, rc, log, cmd in built:
        if rc != 0 and unit.get('optional'):
            # another compiler or language version than the one the project builds with
            notes.append('%s does not compile and was not run' % unit['name'])
            print('%s does not compile and is not run' % unit['name'])
        elif rc != 0:
            if not compiler_works(unit.get('cxx', 'g++')):
                raise CheckError('the compiler does not work')
            print('\n'.join([l for l in log.splitlines() if 'error' in l][:12]))
            print('The documented API could not be used: %s does not compile.' % unit['name'])
            write_evidence(pid, tier, spaces, probes, time.time() - t0, 1, notes)
            violation(pid, unit['name'] + '-compile', {'kind': 'compile', 'command': cmd, 'log': log[-20000:]})
            return 1
    print('built %d program(s) in %.1fs' % (len(built), time.time() - t0), flush=True)
    limit = 820 if tier == 'quick' else 10000
    nviol = 0
    for unit, out, rc, log, cmd in built:
        if unit.get('companion') or rc != 0:
            continue
        d = os.path.dirname(out)
        res = os.path.join(d, 'result.json')
        if os.path.exists(res):
            os.remove(res)
        env = dict(os.environ)
        env['MALLOC_PERTURB_'] = '165'
        env.update(unit.get('env', {}))
        left = limit - (time.time() - t0)
        try:
            args = [out, '--out', res, '--dir', d, '--tier', tier, '--budget', '%d' % max(5, (560 if tier == 'quick' else 9000) - (time.time() - t0))] + unit.get('args', [])
            p = subprocess.run(args, stdout=subprocess.PIPE, text=True, errors='replace', timeout=max(30, left), env=env, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError('%s did not finish in %.0f s' % (unit['name'], left))
        sys.stdout.write('[%s]\n%s' % (unit['name'], p.stdout))
        sys.stdout.flush()
        if not os.path.exists(res):
            raise CheckError('%s ended with status %s and no result' % (unit['name'], p.returncode))
        data = json.load(open(res))
        for s in data['spaces']:
            s['program'] = unit['name']
        spaces += data['spaces']
        if p.returncode == 1:
            bad = [s for s in data['spaces'] if 'violation' in s]
            v = bad[0]['violation']
            write_evidence(pid, tier, spaces, probes, time.time() - t0, 1, notes)
            violation(pid, unit['name'] + '-' + v['space'],
                      {'kind': 'trace', 'unit': unit['name'], 'space': v['space'], 'tier': v['tier'], 'choices': v['choices'],
                       'message': v['message'], 'trace': v['trace'], 'command': cmd})
            return 1
        if p.returncode != 0:
            raise CheckError('%s ended with status %d' % (unit['name'], p.returncode))
        known = known_findings()
        for pr in data.get('probes', []):
            pr['program'] = unit['name']
            probes.append(pr)
            if not pr['violated']:
                continue
            if (pid, pr['name']) in known:
                print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, pr['name'])]))
            else:
                nviol += 1
                violation(pid, unit['name'] + '-probe-' + pr['name'], {'kind': 'probe', 'unit': unit['name'], 'probe': pr})
    if CHECKS[pid].get('deep') and not nviol:
        nviol += deep_compare(pid, tier, th, t0 + (450 if tier == 'quick' else 6000), spaces, notes)
    write_evidence(pid, tier, spaces, probes, time.time() - t0, nviol, notes)
    print('%s %s: %d spaces, %d executions, %.1fs' % (pid, tier, len(spaces), sum(s['executions'] for s in spaces), time.time() - t0))
    return 1 if nviol else 0


def repo_text(fw, where):
    """The lines of the library a program with this configuration sees, in order, without comments and layout."""
    c = FRAMEWORKS[fw]
    cmd = ['g++', '-std=c++17', '-E', '-dD', '-x', 'c++', '-', '-I%s/%s/%s' % (REPO, where, fw), '-I%s/include' % REPO]
    cmd += ['-D' + d for d in c.get('defines', [])]
    for i in c.get('isystem', []):
        cmd += ['-isystem', i.format(repo=REPO, verif=VERIF)]
    r = subprocess.run(cmd, input='#include "fakeit.hpp"\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
    lines, ours, defined = [], False, set()
    for l in r.stdout.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            ours = m.group(1).startswith(REPO + '/')
            continue
        l = re.sub(r'"%s/[^"]*", \d+' % re.escape(REPO), '"", 0', ' '.join(l.split()))
        if not ours or not l or l in defined:
            continue
        if l.startswith('#define'):
            defined.add(l)
        lines.append(l)
    return lines


def differing_headers():
    """Configurations whose single header is not just the text of the multi-file headers, those differing alike together."""
    groups = {}
    for fw in DEEP_ORDER:
        single, multi = repo_text(fw, 'single_header'), repo_text(fw, 'config')
        if single != multi:
            diff = [l for l in difflib.unified_diff(multi, single, lineterm='', n=0) if not l.startswith(('---', '+++', '@@'))]
            groups.setdefault('\n'.join(diff), []).append(fw)
    return list(groups.values())


def deep_unit(fw, pid, unit, where):
    u = dict(unit)
    c = FRAMEWORKS[fw]
    u['name'] = '%s-%s-%s-%s' % (fw, pid, unit['name'], where)
    u['includes'] = ['{repo}/%s/%s' % (where, fw), '{repo}/include']
    u['isystem'] = c.get('isystem', [])
    u['defines'] = unit.get('defines', []) + ['MC_SMALL'] + c.get('defines', []) + (['DOCTEST_CONFIG_IMPLEMENT'] if fw == 'doctest' else [])
    u['libs'] = unit.get('libs', []) + c.get('libs', [])
    return u


def deep_compare(pid, tier, th, deadline, spaces, notes):
    """Where the text differs, the behaviour may: the explorers of the other properties are built with the single header.  What
    fails there and not with the multi-file headers of that configuration is a difference in behaviour."""
    groups = differing_headers()
    notes.append('configurations whose single header differs in text from the multi-file headers: %s' % (groups or 'none'))
    jobs = [(g[0], p, u) for g in groups for p in DEEP for u in CHECKS[p]['units']
            if not u.get('optional') and u['name'] not in ('asan', 'faults') and u.get('tier', 'quick') == 'quick']
    if not jobs:
        return 0
    print('single headers with other text: %s; %d programs' % (groups, len(jobs)), flush=True)
    skipped = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        def build(j):
            return build_unit(pid, deep_unit(*j, 'single_header'), th) if time.time() < deadline - 60 else None
        futures = [ex.submit(build, j) for j in jobs]
        try:
            for j, f in zip(jobs, futures):
                fw, p, u = j
                b = f.result()
                if b is None or time.time() > deadline - 30:
                    skipped.append('%s %s (time)' % (fw, p))
                    continue
                failed, data = run_deep(b, tier, deadline)
                if not failed:
                    for s in (data or {}).get('spaces', []):
                        s['program'] = b[0]['name']
                        spaces.append(s)
                    continue
                m = build_unit(pid, deep_unit(fw, p, u, 'config'), th)
                mfailed, _ = run_deep(m, tier, deadline + 120)
                if mfailed:
                    skipped.append('%s %s' % (fw, p))
                    continue
                again, data = run_deep(b, tier, deadline + 120)
                if not again:
                    skipped.append('%s %s (failed once only)' % (fw, p))
                    continue
                v = next((s['violation'] for s in (data or {}).get('spaces', []) if 'violation' in s), {})
                print('with the single header for %s the check of %s fails, with the multi-file headers it does not: %s' % (fw, p, v.get('message', b[3][-300:])))
                violation(pid, b[0]['name'], {'kind': 'deep', 'framework': fw, 'of': p, 'unit': u['name'], 'space': v.get('space'), 'tier': v.get('tier'),
                                              'choices': v.get('choices'), 'message': v.get('message'), 'trace': v.get('trace')})
                return 1
        finally:
            for f in futures:
                f.cancel()
    if skipped:
        notes.append('not compared: ' + ', '.join(skipped))
    return 0


def run_deep(built, tier, deadline):
    unit, out, rc, log, cmd = built
    if rc:
        return True, None
    d = os.path.dirname(out)
    res = os.path.join(d, 'result.json')
    if os.path.exists(res):
        os.remove(res)
    left = max(20, deadline - time.time())
    try:
        p = subprocess.run([out, '--out', res, '--dir', d, '--tier', 'quick', '--budget', '%d' % left], stdout=subprocess.DEVNULL,
                           timeout=left + 30, cwd=d, env=dict(os.environ, MALLOC_PERTURB_='165'))
    except subprocess.TimeoutExpired:
        return False, None
    # 2 and 3: the program could not decide, for example because the time was up
    return p.returncode not in (0, 2, 3), json.load(open(res)) if os.path.exists(res) and not p.returncode > 1 else None


def replay(path):
    v = json.load(open(path))
    pid = v['property']
    if v['kind'] == 'deep':
        th, bad = tree_hash(), []
        for where in ('single_header', 'config'):
            u = [u for u in CHECKS[v['of']]['units'] if u['name'] == v['unit']][0]
            b = build_unit(pid, deep_unit(v['framework'], v['of'], u, where), th)
            if b[2] == 0 and v.get('choices') not in (None, '*'):
                r = subprocess.run([b[1], '--replay', v['space'], v['tier'], v['choices']]).returncode
            else:
                r = run_deep(b, 'quick', time.time() + 300)[0]
            print('%s: %s' % (where, 'fails' if r else 'does not fail'))
            bad.append(bool(r))
        return 1 if bad == [True, False] else 0
    if v['kind'] == 'compile':
        r = sh(v['command'])
        print(r.stdout[-4000:])
        print('compiles' if r.returncode == 0 else 'still does not compile')
        return 1 if r.returncode else 0
    unit = [u for u in CHECKS[pid]['units'] if u['name'] == v['unit']][0]
    th = tree_hash()
    for u in [u for u in CHECKS[pid]['units'] if u.get('companion') and u['name'].startswith(unit['name'])] + [unit]:
        _, out, rc, log, _ = build_unit(pid, u, th)
        if rc:
            print(log[-4000:])
            return 1
    env = dict(os.environ, MALLOC_PERTURB_='165')
    env.update(unit.get('env', {}))
    if v['kind'] == 'trace':
        if v['choices'] == '*':
            return subprocess.run([out, '--dir', os.path.dirname(out), '--tier', v['tier'], '--only', v['space']], env=env).returncode
        return subprocess.run([out, '--replay', v['space'], v['tier'], v['choices']], env=env).returncode
    return subprocess.run([out, '--dir', os.path.dirname(out), '--only', 'none'], env=env).returncode


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        raise CheckError('unknown tier ' + tier)
    sys.exit(run_check(pid, tier))


if __name__ == '__main__':
    try:
        main()
    except CheckError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException as e:  # an internal error must not look like a violation
        import traceback
        traceback.print_exc()
        sys.exit(3)
