"""plant(id, prop, file, [(old,new),...], demo, needs, breaks)"""
import os, subprocess, json, shutil, sys
def sh(c, **kw):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **kw)
def plant(id, prop, file, subs, demo, needs, breaks):
    d = '/verif/seeded/' + id
    if os.path.exists(d + '/patch.diff') and not os.environ.get('REDO'):
        return
    assert not sh('git -C /repo status --porcelain').stdout
    sh('git -C /tmp/seed fetch -q /repo HEAD && git -C /tmp/seed reset -q --hard FETCH_HEAD')
    p = '/tmp/seed/discodop/' + file
    s = open(p).read()
    for old, new in subs:
        assert s.count(old) == 1, (id, s.count(old), old)
        s = s.replace(old, new)
    open(p, 'w').write(s)
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C /tmp/seed diff').stdout
    # lines removed must be original
    base = sh('git -C /repo show e65468d:discodop/' + file).stdout.splitlines()
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:] not in base:
            print(id, 'WARNING: not an original line:', l)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    t = '/tmp/pl/demo'
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    def rundemo():
        r = sh('timeout 300 bash %s/demo.sh' % t, cwd='/repo')
        return r.returncode, (r.stdout + r.stderr)[-300:]
    r0 = rundemo()
    a = sh('git -C /repo apply %s/patch.diff' % d)
    assert a.returncode == 0, a.stderr
    try:
        b = sh('bash /opt/vp/build.sh')
        tt = sh('bash /opt/vp/test.sh /tmp/pl/o.json')
        r1 = rundemo()
        c = sh('./run_check.sh %s quick' % prop, cwd='/verif')
    finally:
        sh('git -C /repo checkout -q -- .')
        sh('bash /opt/vp/build.sh')
    ok = (r0[0] == 0 and r1[0] != 0 and b.returncode == 0 and '55 passed, 11 failed' in tt.stdout)
    print(id, prop, 'VALID' if ok else 'INVALID demo0=%r demo1=%r build=%r tests=%s' % (r0, r1[0], b.returncode, tt.stdout.splitlines()[-1:]),
        'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s' % prop in c.stdout else 'MISSED rc=%d %s' % (c.returncode, c.stdout[-300:]), flush=True)
