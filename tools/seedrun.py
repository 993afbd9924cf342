"""apply each seeded change to /repo in turn, run the checks named (default: the check of its property) and undo it.
usage: seedrun.py [--all] [ID ...]     (development aid, not part of any registered check)"""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(V + '/seeded'))
man = json.load(open(V + '/MANIFEST.json'))
cmds = {c['property_id'] if 'property_id' in c else c.get('property', c.get('id')): c for c in man['checks']}
assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    meta = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    todo = sorted(cmds) if '--all' in sys.argv else [meta['property']]
    subprocess.run(['git', '-C', '/repo', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], check=True)
    try:
        res = []
        for p in todo:
            if p not in cmds:
                res.append(p + ':no check')
                continue
            t = time.time()
            r = subprocess.run(cmds[p]['quick_cmd'] if 'quick_cmd' in cmds[p] else cmds[p]['quick'], shell=True, cwd=V, capture_output=True, text=True)
            v = any(l.startswith('VIOLATION property=' + p) for l in r.stdout.splitlines())
            res.append('%s:%s(%d) %.0fs' % (p, 'caught' if v and r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'BROKEN', r.returncode, time.time() - t))
            if r.returncode not in (0, 1):
                print(r.stdout[-500:], r.stderr[-1500:])
        print(i, ' '.join(x for x in res if '--all' not in sys.argv or 'MISSED' not in x), flush=True)
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True)
