"""Builds /verif/seeded/<id>/ from definitions and confirms each planted bug.

python3 tools/plant.py DEFS.py [ID ...]   DEFS.py defines BUGS = [bug(...), ...]

For each bug, in a scratch copy of /repo: the demo passes on the unchanged tree,
the edit applies, the stable tests still pass with it, the demo fails with it,
and at least one changed line stems from the original repository. No check uses this.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '87ae4a1'
SH = '''#!/bin/sh
# run with cwd /repo; exit 0: the property holds in this example
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=cwd,
                                   PYTHONPYCACHEPREFIX='/nonexistent/x'), timeout=300, **kw)


def original_lines(scratch, diff):
    """Removed lines of the diff that git blame assigns to the original repository."""
    n = 0
    path = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            path = line[6:]
        elif line.startswith('@@'):
            old = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-') and not line.startswith('---'):
            out = run(['git', 'blame', '-L', '%d,%d' % (old, old), 'HEAD', '--', path], scratch).stdout
            sha = out.split()[0].lstrip('^')
            mine = run(['git', 'rev-list', BASE + '..HEAD'], scratch).stdout
            if line[1:].strip() and not re.search('^' + sha[:7], mine, re.M):
                n += 1
            old += 1
        elif line.startswith(' '):
            old += 1
    return n


def plant(bug):
    tmp = tempfile.mkdtemp(prefix='plant')
    scratch = tmp + '/repo'
    try:
        shutil.copytree('/repo', scratch, symlinks=True)
        out = os.path.join(tmp, bug['id'])
        os.mkdir(out)
        with open(out + '/demo.sh', 'w') as f:
            f.write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        with open(out + '/demo.py', 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        r = run(['sh', out + '/demo.sh'], scratch)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + r.stdout
        for path, old, new in bug['edits']:
            p = os.path.join(scratch, 'oblate', path)
            text = open(p).read()
            if text.count(old) != 1:
                return 'edit matches %d times: %s: %r' % (text.count(old), path, old)
            open(p, 'w').write(text.replace(old, new))
        diff = run(['git', 'diff'], scratch).stdout
        n = original_lines(scratch, diff)
        keep = bool(n)
        if not keep and not os.environ.get('FORCE'):    # FORCE=1: run the check all the same
            return 'changes no original line'
        r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], scratch)
        if r.returncode or '84 passed' not in r.stdout:
            return 'tests notice it:\n' + r.stdout[-600:]
        r = run(['sh', out + '/demo.sh'], scratch)
        if r.returncode == 0:
            return 'demo passes with the patch'
        if keep:
            with open(out + '/patch.diff', 'w') as f:
                f.write(diff)
            with open(out + '/meta.json', 'w') as f:
                json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')}, f, indent=1)
                f.write('\n')
            dest = os.path.join(VERIF, 'seeded', bug['id'])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(out, dest)
        env = dict(os.environ, VERIF_REPO=scratch, VERIF_SEED='1', VERIF_TIER='quick')
        c = subprocess.run([VERIF + '/check.py', bug['property']], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True) if os.access(VERIF + '/check.py', os.X_OK) else \
            subprocess.run(['python3-vt', 'check.py', bug['property']], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        caught = c.returncode == 1 and 'VIOLATION property=' + bug['property'] in c.stdout
        return ('CAUGHT' if caught else 'MISSED rc=%d' % c.returncode) + ' (%d original lines)' % n + \
            ('' if caught else '\n' + c.stdout[-800:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def bug(id, property, edits, demo, needs, breaks):
    return {'id': id, 'property': property, 'edits': edits, 'demo': demo, 'needs': needs, 'what_it_breaks': breaks}


if __name__ == '__main__':
    ns = {'bug': bug}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        print('%-34s %s %s' % (b['id'], b['property'], plant(b)), flush=True)
