"""Run the checks against the planted bugs, each in a scratch copy of /repo.

usage: python3-vt tools/catch.py [seed-id ...]      (default: all)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(HERE, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='catch_')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
        verif = os.path.join(tmp, 'verif')
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
        env = dict(os.environ, VERIF_REPO=repo, PYWRITER_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
        p = subprocess.run(['python3-vt', 'check.py', meta['property']], cwd=verif, env=env,
                           capture_output=True, text=True, timeout=900)
        lines = [l for l in p.stdout.splitlines() if 'VIOLATION' in l or 'FAILED' in l or 'UNDECIDED' in l]
        how = []
        if p.returncode == 1:
            if 'OBLIGATION FAILED' in p.stdout:
                how.append('failed obligation')
            if 'VIOLATION' in p.stdout and 'no-failing-input-found' not in p.stdout:
                how.append('failing input (bounded)')
            if 'UNDECIDED' in p.stdout:
                how.append('obligations undecided')
        return sid, meta['property'], p.returncode, lines[:6] or p.stderr.splitlines()[-3:], ', '.join(how) or 'MISSED'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    path = os.path.join(HERE, 'tools', 'catch.json')
    table = json.load(open(path)) if os.path.exists(path) else {}
    with ThreadPoolExecutor(4) as ex:
        for sid, pid, rc, lines, how in ex.map(one, ids):
            print(f'{"CAUGHT" if rc == 1 else "MISSED"} {sid} ({pid}) rc={rc}', flush=True)
            for l in lines:
                print('     ', l[:200], flush=True)
            table[sid] = how
    json.dump(table, open(path, 'w'), indent=1, sort_keys=True)
