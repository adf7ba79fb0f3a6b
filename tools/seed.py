"""Make a planted bug: python3 tools/seed.py SPEC.py...   (each SPEC defines ID PROPERTY EDITS DEMO NEEDS BREAKS)

Works in a scratch copy of /repo under /tmp; confirms that the change passes the tests and that the demonstration fails with
it and passes without it, then writes seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaviour as promised; nonzero: broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here"
exec timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sub(path, old, new):
    with open(path, newline='') as f:
        s = f.read()
    crlf = '\r\n' in s
    if crlf:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    assert s.count(old) == 1, (path, s.count(old), old)
    with open(path, 'w', newline='') as f:
        f.write(s.replace(old, new))


def main(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
        r = tmp + '/repo'
        os.makedirs(r + '/hgaa/logs', exist_ok=True)
        d = tmp + '/demo'
        os.makedirs(d)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        if 'LADON' in ns or 'stubs' in ns['DEMO']:
            shutil.copy(VERIF + '/tools/stubs.py', d + '/stubs.py')
        os.chmod(d + '/demo.sh', 0o755)
        p = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=ENV, capture_output=True, text=True)
        assert p.returncode == 0, 'demo fails on the unchanged tree:\n' + p.stdout + p.stderr
        for f, old, new in ns['EDITS']:
            sub(os.path.join(r, f), old, new)
        p = subprocess.run(['bash', d + '/demo.sh'], cwd=r, env=ENV, capture_output=True, text=True)
        assert p.returncode != 0, 'demo passes with the change'
        print('demo with change:', p.returncode, (p.stdout + p.stderr).strip().splitlines()[-1:])
        p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', 'hgaa', 'hgpl']
                           if False else ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                                          '--continue-on-collection-errors', 'hgaa', 'hgpl'],
                           cwd=r, env=ENV, capture_output=True, text=True)
        last = p.stdout.strip().splitlines()[-1]
        assert '114 passed' in last, p.stdout[-2000:]
        diff = subprocess.run(['git', 'diff', '--binary' if False else '--no-color'], cwd=r, capture_output=True).stdout
        out = os.path.join(VERIF, 'seeded', ns['ID'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        shutil.rmtree(out + '/__pycache__', ignore_errors=True)
        open(out + '/patch.diff', 'wb').write(diff)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        p = subprocess.run(['git', '-C', '/repo', 'apply', '--check', out + '/patch.diff'], capture_output=True, text=True)
        assert p.returncode == 0, p.stderr
        # run the check against the changed copy
        p = subprocess.run(['python3', '-m', 'sa.run', ns['PROPERTY']], cwd=VERIF, env=dict(os.environ, SA_REPO=r),
                           capture_output=True, text=True)
        print('%s: tests pass; check %s exit %d %s' % (ns['ID'], ns['PROPERTY'], p.returncode,
                                                       [l for l in p.stdout.splitlines() if ': ' in l][:1]))
    finally:
        shutil.rmtree(tmp)


for s in sys.argv[1:]:
    try:
        main(s)
    except AssertionError as e:
        print('FAILED', s, e)
