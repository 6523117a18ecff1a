#!/usr/bin/env python3
"""mkseed.py <dir with spec.py>... : plant one bug in a scratch copy, confirm it, and store it in seeded/<id>/.

spec.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], and DEMO (Python text run with cwd /repo).
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD/src" LC_ALL=en_US.UTF-8 PYTHONDONTWRITEBYTECODE=1
exec python3 "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)


def main(spec):
    d = {}
    exec(open(spec, encoding='utf-8').read(), d)
    tmp = tempfile.mkdtemp(prefix='seed_')
    wt = os.path.join(tmp, 'repo')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt], check=True)
    try:
        demo = os.path.join(tmp, 'demo')
        os.mkdir(demo)
        open(f'{demo}/demo.py', 'w', encoding='utf-8').write(d['DEMO'])
        open(f'{demo}/demo.sh', 'w').write(SH)
        os.chmod(f'{demo}/demo.sh', 0o755)
        r = sh(f'bash {demo}/demo.sh', wt)
        if r.returncode:
            print(d['ID'], 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-800:], r.stderr[-1500:])
            return 1
        for f, old, new in d['EDITS']:
            p = os.path.join(wt, 'src/pywriter', f)
            s = open(p, encoding='utf-8', newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(d['ID'], f'EDIT does not match once ({s.count(old)}) in {f}')
                return 1
            open(p, 'w', encoding='utf-8', newline='').write(s.replace(old, new))
        # original lines only: every removed line must stand in the base commit
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True).stdout
        base = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h'], capture_output=True, text=True).stdout.split()[0]
        for f, old, new in d['EDITS']:
            bl = subprocess.run(['git', '-C', wt, 'blame', '-s', 'HEAD', '--', f'src/pywriter/{f}'], capture_output=True, text=True).stdout
        cur = subprocess.run(['git', '-C', wt, 'diff', '-U0'], capture_output=True, text=True).stdout
        removed = [l[1:].strip() for l in cur.splitlines() if l.startswith('-') and not l.startswith('---')]
        for l in removed:
            ok = any(l in subprocess.run(['git', '-C', '/repo', 'show', f'{base}:src/pywriter/{f}'], capture_output=True, text=True).stdout for f, _, _ in d['EDITS'])
            if not ok:
                print(d['ID'], 'removed line is not an original one:', l)
        r = sh(f'bash {demo}/demo.sh', wt)
        if r.returncode == 0:
            print(d['ID'], 'DEMO PASSES WITH THE PATCH')
            return 1
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        # stable tests
        p = os.path.join(tmp, 'patch.diff')
        open(p, 'wb').write(diff)
        bad = tests(wt)
        if bad:
            print(d['ID'], 'TESTS FAIL', bad)
            return 1
        out = os.path.join(HERE, 'seeded', d['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out)
        shutil.copy(p, out)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(f'{out}/meta.json', 'w'), indent=1)
        print(d['ID'], 'ok', msg)
        return 0
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', wt])
        shutil.rmtree(tmp, ignore_errors=True)


def tests(wt):
    """Run the repository's tests in the copy; names of the stable ones that do not pass."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('tests') or base.get('passed') or []
    out = os.path.join(wt, 'out.json')
    s = open('/opt/vp/test.sh').read().replace('/repo', wt)
    p = os.path.join(os.path.dirname(wt), 'test.sh')
    open(p, 'w').write(s)
    env = dict(os.environ, REPO=wt)
    r = sh(f'bash {p} {out}', wt, env)
    try:
        res = json.load(open(out))
    except Exception:
        return f'no result {r.stdout[-300:]} {r.stderr[-500:]}'
    passed = set(res.get('passed', []))
    return [t for t in stable if t not in passed]


if __name__ == '__main__':
    sys.exit(max(main(s) for s in sys.argv[1:]))
