"""tools/mut.py CHECK[,CHECK] FILE OLD NEW [OLD NEW...]: run checks on a scratch copy with a textual change"""
import os, subprocess, sys
W = '/tmp/w'
if not os.path.isdir(W):
    subprocess.run(['cp', '-a', '/repo', W], check=True)
subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo'], check=True)
subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
ids, f, rest = sys.argv[1].split(','), sys.argv[2], sys.argv[3:]
p = subprocess.run(['find', W, '-path', W + '/target', '-prune', '-o', '-name', f, '-print'], capture_output=True, text=True).stdout.split()[0] if '/' not in f else os.path.join(W, f)
s = open(p).read()
for a, b in zip(rest[::2], rest[1::2]):
    if a not in s:
        print('NOT FOUND', a); sys.exit(2)
    s = s.replace(a, b, 1)
open(p, 'w').write(s)
e = dict(os.environ, GK_REPO=W, GK_CACHE='/tmp/gkc')
r = subprocess.run(['python3', '-m', 'gk.run'] + ids, cwd='/verif', env=e, capture_output=True, text=True)
print((r.stdout + r.stderr)[-2500:])
subprocess.run(['git', '-C', W, 'checkout', '-q', '--', '.'])
