"""Plant a bug: seed(id, property, needs, breaks, [(file, old, new)...], demo).

Makes the change in a scratch copy of /repo, writes seeded/<id>/ and checks
that the demonstration passes on /repo and fails with the change.  Optional
unit test modules are run on the changed copy too.
"""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(sid, prop, needs, breaks, edits, demo, tests=()):
    d = os.path.join(HERE, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='seed-')
    copy = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', copy])
        subprocess.check_call(['git', '-C', copy, 'checkout', '-q', '--', '.'])
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'REJECTED: text found %d times in %s' % (
                    s.count(old), f))
                return False
            open(p, 'w').write(s.replace(old, new))
        # does it touch lines of the original repository?
        diff = subprocess.check_output(['git', '-C', copy, 'diff'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/sh\n# exit 0 when the property holds\n'
                    'here=$(cd "$(dirname "$0")" && pwd)\n'
                    'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                    'exec timeout 120 python "$here/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs,
                       'what_it_breaks': breaks}, f, indent=1)
            f.write('\n')
        ok = True
        for where, want in (('/repo', True), (copy, False)):
            for i in range(2):
                p = subprocess.run([os.path.join(d, 'demo.sh')], cwd=where,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, timeout=300)
                if (p.returncode == 0) != want:
                    ok = False
                    print(sid, 'REJECTED: demo exits %d in %s\n%s' % (
                        p.returncode, where,
                        p.stdout.decode('utf-8', 'replace')[-2000:]))
                    break
        if ok:
            for t in tests:
                p = subprocess.run(
                    ['timeout', '300', 'python', '-m', 'unittest', t],
                    cwd=os.path.join(copy, 'unittests'),
                    env=dict(os.environ, PYTHONPATH=copy),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    ok = False
                    print(sid, 'unit tests fail:', t,
                          p.stdout.decode('utf-8', 'replace')[-1500:])
        if ok:
            print(sid, 'ok')
        else:
            shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(tmp)
