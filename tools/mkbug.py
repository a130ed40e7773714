"""mkbug(id, prop, needs, breaks, edits, demo): write /verif/seeded/<id> from edits [(file, old, new)] of /repo."""
import json, os, shutil, subprocess, textwrap
S = '/verif/seeded'


def mkbug(bid, prop, needs, breaks, edits, demo):
    d = f'{S}/{bid}'
    w = f'/tmp/mk_{bid}'
    subprocess.run(['rm', '-rf', w]); subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(f'mkdir -p {w} && git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && '
                   'git -c user.email=a@b -c user.name=x commit -qm x', shell=True, check=True)
    for f, old, new in edits:
        p = f'{w}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    assert diff
    subprocess.run(['python3', '-m', 'compileall', '-q', w + '/openleadr'], check=True)
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    shutil.copy('/verif/tools/demo/demolib.py', f'{d}/demolib.py')
    open(f'{d}/demo.py', 'w').write('from demolib import *      # noqa\n\n\n' + textwrap.dedent(demo).lstrip())
    open(f'{d}/demo.sh', 'w').write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    subprocess.run(['rm', '-rf', w])
    print('wrote', bid)
