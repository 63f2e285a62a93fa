#!/usr/bin/env python3
"""
(Re)generate /verif/seeded from tools/seeds.py, validating each planted bug in a scratch copy of /repo:
it applies, touches only original lines, the 123 tests pass, and its demonstration tells the two trees apart.
With --check, also runs the check of its property (and with --all every check) against the planted tree.
usage: tools/plant.py [--check] [--all] [--tier quick] [ID or property ...]
"""
import os, sys, json, shutil, subprocess, tempfile, re, importlib.util
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
PY = '/opt/venv/bin/python'

DEMO_SH = '''#!/bin/bash
# Run in /repo after the build. Exit 0: as it should be; otherwise broken
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/amara3-path:/repo/build/lib
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(*args, **kw):
    return subprocess.run(args, capture_output=True, text=True, **kw)


def load():
    spec = importlib.util.spec_from_file_location('seeds', os.path.join(VERIF, 'tools', 'seeds.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m.SEEDS


def original_lines(path):
    """Set of line numbers (from 1) of /repo's file which are of the original repository"""
    out = sh('git', '-C', '/repo', 'blame', '-s', path).stdout.splitlines()
    return {i for i, l in enumerate(out, 1) if l.startswith('^')}


def plant(seed, opts):
    sid = seed['id']
    log = ['== %s (%s)' % (sid, seed['property'])]
    d = os.path.join(VERIF, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='plant-')
    ok = True
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        sh('git', '-C', repo, 'checkout', '-q', '--', '.')
        for path, old, new in seed['edits']:
            full = os.path.join(repo, path)
            s = open(full).read()
            if s.count(old) != 1:
                return False, log + ['   edit of %s: %d occurrences of %r' % (path, s.count(old), old[:60])]
            open(full, 'w').write(s.replace(old, new))
        diff = sh('git', '-C', repo, 'diff').stdout
        # Lines removed must be original ones
        for path in {e[0] for e in seed['edits']}:
            orig = original_lines(path)
            n = 0
            removed = 0
            inside = False
            for l in sh('git', '-C', repo, 'diff', '-U0', path).stdout.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m: n = int(m.group(1)); inside = True; continue
                if inside and l.startswith('-'):
                    removed += 1
                    if n not in orig: ok = False; log.append('   not an original line: ' + l)
                    n += 1
            if not removed: ok = False; log.append('   removes no original line of ' + path)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(seed['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(seed.get('demo_sh', DEMO_SH))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # Everything else sees the copy as /repo, by way of a mount namespace of its own
        def inside(cmd, **kw):
            return sh('unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (repo, cmd), **kw)
        b = inside('bash /opt/vp/build.sh')
        if b.returncode: ok = False; log.append('   build: ' + b.stderr[-300:])
        t = inside('bash /opt/vp/test.sh %s/o.json' % tmp)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        if last != '123 passed, 0 failed':
            ok = False
            log.append('   TESTS: ' + last + ' ' + ' '.join(l for l in t.stdout.splitlines() if l.startswith('FAILED'))[:300])
        demo = os.path.join(tmp, 'demo'); shutil.copytree(d, demo)
        for f in ('patch.diff', 'meta.json'): os.unlink(os.path.join(demo, f))
        good = sh('bash', os.path.join(demo, 'demo.sh'), cwd='/repo')
        if good.returncode != 0: ok = False; log.append('   DEMO fails on the unchanged tree: ' + (good.stdout + good.stderr)[-500:])
        bad = inside('bash %s/demo.sh' % demo)
        if bad.returncode == 0: ok = False; log.append('   DEMO passes with the patch')
        else: log.append('   demo: ' + (bad.stderr.strip().splitlines() or bad.stdout.strip().splitlines() or ['?'])[-1][:160])
        if opts['check'] and ok:
            ids = ['p%02d' % i for i in range(1, 21)] if opts['all'] else [seed['property'].lower()]
            for c in ids:
                r = inside('%s %s %s --tier %s --seed %s' % (sys.executable, os.path.join(VERIF, 'run.py'), c, opts['tier'], opts['seed']), env=dict(os.environ, VERIF_EVIDENCE=os.path.join(tmp, 'evidence')))
                v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                if r.returncode == 1 and v: log.append('   %s: CAUGHT %s' % (c, ' | '.join(r.stdout.splitlines()[:2])[:200]))
                elif not opts['all'] or r.returncode: log.append('   %s: MISSED (rc %d) %s' % (c, r.returncode, (r.stdout + r.stderr)[-300:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    log[0] += '  OK' if ok else '  *** INVALID'
    if not ok and not opts['keep']: shutil.rmtree(d, ignore_errors=True)
    return ok, log


def main():
    args = sys.argv[1:]
    opts = dict(check='--check' in args, all='--all' in args, keep='--keep' in args, tier='quick', seed='1')
    if '--tier' in args:
        i = args.index('--tier'); opts['tier'] = args[i + 1]; del args[i:i + 2]
    if '--seed' in args:
        i = args.index('--seed'); opts['seed'] = args[i + 1]; del args[i:i + 2]
    names = [a for a in args if not a.startswith('--')]
    seeds = [s for s in load() if not names or s['id'] in names or s['property'] in names]
    with ThreadPoolExecutor(1 if opts['check'] else 6) as ex:
        for ok, log in ex.map(lambda s: plant(s, opts), seeds):
            print('\n'.join(log), flush=True)


main()
