'''catch.py [-w DIR] [-a] [ids]: in copies of /repo and /verif under DIR, apply
each planted bug, run its property's check (-a: every check), and undo it.'''
import sys, os, json, shutil, subprocess, time
args = sys.argv[1:]
work = '/tmp/catchwork'
if '-w' in args:
    i = args.index('-w')
    work = args[i + 1]
    del args[i:i + 2]
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir('/verif/seeded'))
allp = '-a' in args
if os.path.isdir(work):
    shutil.rmtree(work)
os.makedirs(work)
repo, verif = work + '/repo', work + '/verif'
shutil.copytree('/repo', repo, symlinks=True)
shutil.copytree('/verif', verif, symlinks=True, ignore=shutil.ignore_patterns('seeded', 'evidence', '.git'))
subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
env = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'), VERIF_REPO=repo)
try:
    for i in ids:
        d = '/verif/seeded/' + i
        p = json.load(open(d + '/meta.json'))['property']
        props = ['C%02d' % k for k in range(1, 31)] if allp else [p]
        subprocess.run(['git', '-C', repo, 'apply', d + '/patch.diff'], check=True)
        try:
            hits = []
            for q in props:
                t = time.time()
                r = subprocess.run(['/usr/bin/python3', '-B', 'harness/check.py', q], cwd=verif, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + q)]
                hits.append('%s:%s %.0fs' % (q, 'CAUGHT' if r.returncode == 1 and v else 'rc%d' % r.returncode, time.time() - t))
            if allp:
                hits = [h.split(':')[0] for h in hits if 'CAUGHT' in h]
            print(i, p, ' '.join(hits), flush=True)
        finally:
            subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
finally:
    shutil.rmtree(work)
