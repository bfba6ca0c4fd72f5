"""Plants a bug: verifies it in a scratch copy, stores it under seeded/, runs the check on it.

usage: seed.py FILE.py [ID...]   FILE.py holds SEEDS = [dict(id, property, edits, demo, needs, breaks)]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n' \
       'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONHASHSEED='0', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def one(seed, check_only=False):
    d = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = os.path.join(d, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        out = os.path.join(HERE, 'seeded', seed['id'])
        if check_only:
            r = sh(['git', 'apply', os.path.join(out, 'patch.diff')], repo)
            if r.returncode:
                return 'patch does not apply ' + r.stdout
        else:
            for f, old, new in seed['edits']:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    return f'edit matches {s.count(old)} times in {f}: {old!r}'
                open(p, 'w').write(s.replace(old, new))
            dd = os.path.join(d, 'demo')
            os.makedirs(dd)
            open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO)
            open(os.path.join(dd, 'demo.py'), 'w').write(seed['demo'].lstrip('\n'))
            r = sh(['bash', os.path.join(dd, 'demo.sh')], '/repo')
            if r.returncode:
                return 'demo fails on the unchanged tree\n' + r.stdout[-1500:]
            r = sh(['bash', os.path.join(dd, 'demo.sh')], repo)
            if not r.returncode:
                return 'demo passes with the change'
            demo_out = r.stdout.strip().splitlines()[-1:]
            r = sh([PY, '-m', 'pytest', 'test', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'],
                   repo, PYTHONPATH=repo)
            if r.returncode:
                return 'tests fail\n' + r.stdout[-1500:]
            diff = sh(['git', 'diff'], repo).stdout
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, 'patch.diff'), 'w').write(diff)
            for f in ('demo.sh', 'demo.py'):
                shutil.copy(os.path.join(dd, f), os.path.join(out, f))
            with open(os.path.join(out, 'meta.json'), 'w') as f:
                json.dump(dict(property=seed['property'], needs=seed['needs'],
                               what_it_breaks=seed['breaks']), f, indent=1)
                f.write('\n')
            print('   kept', seed['id'], demo_out)
        prop = seed.get('property') or json.load(open(os.path.join(out, 'meta.json')))['property']
        r = sh(['python3-vt', '-m', 'symx.runner', prop], HERE, SYMX_REPO=repo)
        tail = [x for x in r.stdout.splitlines() if x.startswith(('counterexample', '  ', prop + ':', 'VIOL', 'MISM'))]
        return f'rc={r.returncode} ' + ('CAUGHT' if r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout
                                        else 'MISSED') + '\n      ' + '\n      '.join(tail[:12])
    finally:
        shutil.rmtree(d)


def main(argv):
    if argv[0] == '--check':
        ids = argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for i in ids:
            r = one(dict(id=i), True)
            print(i, r if 'MISSED' in r or len(argv) > 1 else r.splitlines()[0], flush=True)
        return
    ns = {}
    exec(open(argv[0]).read(), ns)
    for s in ns['SEEDS']:
        if len(argv) > 1 and s['id'] not in argv[1:]:
            continue
        print(s['id'], one(s), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
