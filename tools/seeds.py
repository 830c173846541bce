"""seeds.py [id ...]: validate planted bugs (seeded/) in scratch clones and run their property's check on them.
   --notest skips the repository's tests, --tier T"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def one(sid, notest, allprops):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    res = [sid, meta['property']]
    try:
        r = w + '/repo'
        sh(['git', 'clone', '-q', '/repo', r])
        clean = sh(['bash', d + '/demo.sh'], cwd=r).returncode
        ap = sh(['git', '-C', r, 'apply', d + '/patch.diff']).returncode
        dirty = sh(['bash', d + '/demo.sh'], cwd=r).returncode
        res.append('demo %d/%d%s' % (clean, dirty, '' if clean == 0 and dirty and ap == 0 else ' INVALID'))
        if not notest:
            env = dict(os.environ, PYTHONPATH=r, HOME=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
            t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120', '-W', 'ignore',
                    '--tb=no', 'nephosem/tests'], cwd=r, env=env).stdout.decode().strip().splitlines()[-1]
            res.append(t)
        for p in allprops or [meta['property']]:
            c = sh([V + '/check', p, 'quick'], env=dict(os.environ, VERIF_REPO=r, VERIF_NOEVIDENCE='1'))
            out = c.stdout.decode()
            caught = c.returncode == 1 and 'VIOLATION property=%s ' % p in out
            br = sorted({x.strip() for l in out.splitlines() if l.strip().startswith('broken:') for x in l.split(':', 1)[1].split(',')})
            res.append('%s %s %s' % (p, 'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode, ','.join(br)))
            if c.returncode not in (0, 1):
                res.append(out[-800:])
    finally:
        shutil.rmtree(w)
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    notest = '--notest' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, notest, None), ids):
            print(' | '.join(r), flush=True)
