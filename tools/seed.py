"""
python3 tools/seed.py ID...   confirm planted bugs (default: all) and run the check of their property.

For each: the patch applies to a scratch copy of /repo, the stable tests pass, the demo fails there
and passes without it. Then the check of the property runs against the scratch copy.
"""
import os, sys, json, shutil, subprocess, tempfile, pathlib, time
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
STABLE = None


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {})))


def one(sid, all_checks=False, nocheck=False):
    d = V / 'seeded' / sid
    meta = json.loads((d / 'meta.json').read_text())
    tmp = pathlib.Path(tempfile.mkdtemp(prefix='seed-'))
    try:
        repo = tmp / 'repo'
        sh('cp -a {} {}'.format(os.environ.get('SEED_REPO', '/repo'), repo), '/')
        env = {'PYTHONPATH': str(repo / 'src')}
        demo = tmp / 'demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r = sh('bash {}/demo.sh'.format(demo), repo, env)
        if r.returncode:
            return sid, 'BAD: demo fails on clean tree\n' + r.stdout + r.stderr
        r = sh('git apply {}'.format(d / 'patch.diff'), repo)
        if r.returncode:
            return sid, 'BAD: does not apply ' + r.stderr
        r = sh('bash {}/demo.sh'.format(demo), repo, env)
        if not r.returncode:
            return sid, 'BAD: demo passes with patch'
        out = (r.stdout + r.stderr).strip().splitlines()[-1:]
        r = sh('PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -m pytest -q --no-cov -p no:cacheprovider --ignore tests/test_conformance.py tests 2>&1 | tail -5', repo, env)
        if ' failed' in r.stdout or ' error' in r.stdout or ' passed' not in r.stdout:
            return sid, 'BAD: tests fail\n' + r.stdout
        if nocheck:
            return sid, 'ok (not checked)'
        t = time.time()
        r = sh('bash check.sh {}'.format(meta['property']), V,
               {'CSVW_REPO': str(repo), 'MC_OUT': str(tmp)}, timeout=1000)
        res = 'caught' if r.returncode == 1 and 'VIOLATION property=' + meta['property'] in r.stdout \
            else 'MISSED' if r.returncode == 0 else 'ODD {}\n{}'.format(r.returncode, r.stderr[-2000:])
        key = [l.strip() for l in r.stdout.splitlines() if 'key:' in l]
        return sid, '{} {} {:.0f}s {} | demo: {}'.format(
            meta['property'], res, time.time() - t, key[:1], out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = args or sorted(p.name for p in (V / 'seeded').iterdir())
    # Checks use all cores, thus one after another.
    for sid in ids:
        print(*one(sid, nocheck='-n' in sys.argv), flush=True)
