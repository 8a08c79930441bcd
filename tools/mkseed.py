"""mkseed.py DEFS.py: make /verif/seeded/<id>/ for each seed in SEEDS (list of dicts: id, property, edits [(file, old, new)],
demo (python text), needs, breaks); confirms that the stable tests pass and that the demo separates, and runs the property's check.
Works in a scratch copy of /repo, removed at the end."""
import json, os, subprocess, sys, runpy, tempfile, shutil
TMP = tempfile.mkdtemp(prefix='seedrepo-')
REPO, SEEDED = TMP + '/repo', '/verif/seeded'
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    k.setdefault('env', dict(os.environ, VERIF_REPO=REPO))
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)


def one(s, check=True):
    d = os.path.join(SEEDED, s['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = demo(d)
    if r.returncode:
        return 'BAD: demo fails on the unchanged tree\n' + r.stdout[-1500:]
    try:
        for f, a, b in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(a) != 1:
                return 'BAD: %d matches of %r' % (t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C ' + REPO + ' diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
        r = demo(d)
        if r.returncode == 0:
            return 'BAD: demo passes with the patch'
        out = TMP + '/out.json'
        sh('bash %s/test.sh %s' % (TMP, out))
        missing = BASE - set(json.load(open(out))['passed'])
        if missing:
            return 'BAD: tests fail: %s' % sorted(missing)[:4]
        if not check:
            return 'ok (not checked)'
        res = {}
        for q in ([s['property']] + s.get('also', [])):
            r = sh('python3-vt check.py %s' % q, cwd='/verif', timeout=900)
            res[q] = [r.returncode] + [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')][:3]
        return res
    finally:
        sh('git -C ' + REPO + ' checkout -- .')


if __name__ == '__main__':
    g = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    sh('cp -a /repo %s && git -C %s checkout -- .' % (REPO, REPO))
    open(TMP + '/test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', REPO))
    try:
        for s in g['SEEDS']:
            if not only or s['id'] in only:
                print(s['id'], one(s), flush=True)
    finally:
        shutil.rmtree(TMP)
