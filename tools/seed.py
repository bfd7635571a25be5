"""Plants a bug: tools/seed.py FILE.py  (FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO).

Works in a scratch copy under /tmp, keeps the bug in seeded/<ID> only when the stable tests
pass with it and the demonstration fails with it and passes without it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)  # noqa: S102
notest = '--notest' in sys.argv
d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
repo = d + '/repo'
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu', PYTHONHASHSEED='0')
env.pop('PYTHONPATH', None)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **k)


try:
    shutil.copytree('/repo', repo)
    for f, old, new in ns['EDITS']:
        s = open(f'{repo}/{f}').read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f'{repo}/{f}', 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], repo).stdout
    assert diff
    # changed lines must be lines of the original repository
    out = f"/verif/seeded/{ns['ID']}"
    demo = ns['DEMO']
    os.makedirs(d + '/demo')
    open(d + '/demo/demo.py', 'w').write('import sys\nsys.path.insert(0, "")\nimport jax\njax.config.update("jax_enable_x64", True)\n' + demo)
    open(d + '/demo/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    a = sh(['bash', d + '/demo/demo.sh'], '/repo')
    b = sh(['bash', d + '/demo/demo.sh'], repo)
    print('demo clean', a.returncode, a.stderr[-600:] if a.returncode else '')
    print('demo with bug', b.returncode, b.stderr.strip().splitlines()[-1:] if b.returncode else b.stdout[-300:])
    ok = a.returncode == 0 and b.returncode != 0
    if ok and not notest:
        t = sh('/opt/venv/bin/python -m pytest test -q -x -p no:cacheprovider --randomly-seed=0 --randomly-dont-reorganize -n 0 --timeout=300'.replace(' -n 0', '').split(), repo)
        print(t.stdout.strip().splitlines()[-1], t.stdout[-800:] if t.returncode else '')
        ok = t.returncode == 0
    orig = sh(['git', 'diff', '2c46b34', 'HEAD', '-U0'], '/repo').stdout
    added = {l[1:].strip() for l in orig.splitlines() if l.startswith('+') and not l.startswith('+++')}
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() in added:
            print('WARNING: changes a line of a fix commit:', l)
    if ok:
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{d}/demo/{f}', out)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
        print('KEPT', out)
    else:
        print('NOT KEPT')
finally:
    shutil.rmtree(d)
