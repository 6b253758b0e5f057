"""Bring YLearn's compiled modules in step with /repo's current sources (content hashes, not times).
Only git-ignored files of the repository are written."""
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

REPO = os.environ.get('DST_REPO', '/repo')
STAMP = 'build/vp-stamp.json'


def _find(ext):
    return sorted(glob.glob(f'ylearn/**/*{ext}', recursive=True))


def _generated(cpp):
    with open(cpp, 'rb') as f:
        return f.read(40).startswith(b'/* Generated by Cython')


def main():
    os.chdir(REPO)
    pyx = _find('.pyx')
    gen = [c for c in _find('.cpp') if _generated(c)]
    shared = [f for f in _find('.pxd') + _find('.pxi') + _find('.h') + _find('.cpp') if f not in gen]
    now = {f: hashlib.sha256(open(f, 'rb').read()).hexdigest() for f in pyx + shared + ['setup.py'] if os.path.exists(f)}
    try:
        old = json.load(open(STAMP))
    except (OSError, ValueError):
        old = {}
    changed = {f for f in set(now) | set(old) if now.get(f) != old.get(f)}
    missing = [p for p in pyx if not glob.glob(p[:-4] + '.cpython-*.so')]
    if not changed and not missing:
        return 0
    everything = any(not f.endswith('.pyx') for f in changed)
    for cpp in gen:
        src = cpp[:-4] + '.pyx'
        if everything or src in changed or src not in now:
            os.remove(cpp)
    for base in ('ylearn', 'build'):
        for so in glob.glob(f'{base}/**/*.so', recursive=True):
            src = so.split('.cpython')[0]
            src = src[src.index('ylearn/'):] + '.pyx'
            if everything or src in changed or src not in now:
                os.remove(so)
    if changed and os.path.exists(STAMP):
        keep = {} if everything else {f: h for f, h in old.items() if f not in changed}
        with open(STAMP, 'w') as f:
            json.dump(keep, f)
    log = open('/tmp/dst-build.log', 'ab')
    code = subprocess.call([sys.executable, 'setup.py', 'build_ext', '--inplace', '-j', str(os.cpu_count() or 2)],
                           stdout=log, stderr=log)
    missing = [p for p in pyx if not glob.glob(p[:-4] + '.cpython-*.so')]
    if code or missing:
        print('building the compiled modules failed', code, missing, file=sys.stderr)
        return 1
    os.makedirs('build', exist_ok=True)
    with open(STAMP, 'w') as f:
        json.dump(now, f)
    return 0


if __name__ == '__main__':
    with open('/tmp/dst-build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc = main()
    sys.exit(rc)
