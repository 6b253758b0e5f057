"""planted bugs: make and verify (developer tool; no check uses it)

seed.py make <spec.py>      spec.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
seed.py verify <id> [...]   patch applies, demo passes without and fails with it, stable tests pass with it
seed.py check <id> [...]    runs this property's quick check against the patched copy (in a scratch copy, DST_REPO)
"""
import json
import os
import shutil
import subprocess as sp
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, EIGEN3_PATH='/usr/include/eigen3', PIP_NO_INDEX='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', CUDA_VISIBLE_DEVICES='')
DEMO_SH = '''#!/bin/bash
# run with cwd = repository root; exit 0 when the property holds
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} OMP_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def copy(tag):
    d = f'/tmp/w/{tag}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/w', exist_ok=True)
    sp.check_call(['cp', '-a', REPO, d])
    return d


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = tempfile.mkdtemp(dir='/tmp')
        out = os.path.join(V, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        files = sorted({e[0] for e in s['edits']})
        for side in 'ab':
            for f in files:
                os.makedirs(os.path.dirname(f'{d}/{side}/{f}'), exist_ok=True)
                shutil.copy(f'{REPO}/{f}', f'{d}/{side}/{f}')
        for f, old, new, *nth in s['edits']:
            p = f'{d}/b/{f}'
            t = open(p, newline='').read()
            if '\r\n' in t:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if nth:
                parts = t.split(old)
                t = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
            else:
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                t = t.replace(old, new)
            open(p, 'w', newline='').write(t)
        diff = sp.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=d, stdout=sp.PIPE).stdout
        open(f'{out}/patch.diff', 'wb').write(diff.replace(b' a/ylearn', b' a/ylearn'))
        open(f'{out}/demo.py', 'w').write(s['demo'])
        open(f'{out}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
        shutil.rmtree(d)
        sp.check_call(['git', '-C', REPO, 'apply', '--check', f'{out}/patch.diff'])
        print('made', s['id'])


def demo(i, d):
    return sp.run(['bash', f'{V}/seeded/{i}/demo.sh'], cwd=d, env=ENV, stdout=sp.PIPE, stderr=sp.STDOUT)


def verify(i, tests=True):
    d = copy('v-' + i)
    try:
        a = demo(i, d)
        sp.check_call(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d)
        env = dict(ENV, PYTHONPATH=f'{d}:/opt/vp/lib')
        if '.pyx' in open(f'{V}/seeded/{i}/patch.diff').read() or '.pxd' in open(f'{V}/seeded/{i}/patch.diff').read():
            sp.check_call([PY, '/opt/vp/lib/build_ext.py'], cwd=d, env=dict(env, PYTHONPATH=d), stdout=sp.DEVNULL, stderr=sp.DEVNULL)
        b = demo(i, d)
        res = f'{i}: demo clean={a.returncode} patched={b.returncode}'
        if a.returncode != 0:
            res += '\n' + a.stdout.decode()[-1500:]
        if b.returncode == 0:
            res += '\n' + b.stdout.decode()[-1500:]
        else:
            res += ' [' + (b.stdout.decode().strip().splitlines() or [''])[-1][:150] + ']'
        if tests and a.returncode == 0 and b.returncode != 0:
            xml = tempfile.mkdtemp()
            sp.run([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=600',
                    '--continue-on-collection-errors', '-n', '8', '--dist', 'worksteal', '--tb=short', '-o', 'junit_family=xunit2',
                    f'--junitxml={xml}/junit.xml'], cwd=d, env=env, stdout=sp.DEVNULL, stderr=sp.DEVNULL)
            sp.check_call(['python3', '/opt/vp/results.py', f'{xml}/o.json', f'junit:{xml}/junit.xml'], stdout=sp.DEVNULL)
            o = set(json.load(open(f'{xml}/o.json'))['passed'])
            miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in o]
            res += f' tests: {len(miss)} stable tests fail {miss[:3]}'
            shutil.rmtree(xml)
        print(res, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, args):
    p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
    d = copy('c-' + i)
    try:
        sp.check_call(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d)
        r = sp.run(['./check.sh', p, '--tier', 'quick', *args], cwd=V, env=dict(os.environ, DST_REPO=d, DST_EVIDENCE='/tmp/ev-' + i, DST_REPLAYS='/tmp/rp-' + i),
                   stdout=sp.PIPE, stderr=sp.STDOUT)
        print(i, p, 'rc', r.returncode, [l for l in r.stdout.decode().splitlines() if 'VIOLATION' in l or 'kind' in l][:3] or r.stdout.decode()[-600:], flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    c, *a = sys.argv[1:]
    if c == 'make':
        make(a[0])
    elif c == 'demo':
        for i in a:
            verify(i, tests=False)
    elif c == 'verify':
        for i in a:
            verify(i)
    else:
        n = [x for x in a if not x.startswith('--')]
        for i in n:
            check(i, [x for x in a if x.startswith('--')])
