"""tools/ref.py FILE.py [NAME...]: behaviour-preserving edits (FILE.py defines R = [(name, file, [old, new, ...]), ...]);
all checks run on each in scratch copies; prints those that are not quiet.  An entry named 'bug:...' is expected to be caught."""
import os, subprocess, sys, importlib.util, concurrent.futures as cf
spec = importlib.util.spec_from_file_location('r', sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
N = int(os.environ.get('J', '6'))
import queue
slots = queue.Queue()


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def setup(i):
    W = '/tmp/rw%d' % i
    if not os.path.isdir(W):
        sh('git clone -q /repo %s && mkdir -p %s/target' % (W, W))
    sh('git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD && git -C %s clean -fdq -e target' % (W, W, W))
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('git -C %s checkout -q %s' % (W, head))
    slots.put(i)


def one(e):
    name, f, edits = e[:3]
    ids = os.environ.get('IDS', '').split() or (e[3] if len(e) > 3 else ['all'])
    i = slots.get()
    W = '/tmp/rw%d' % i
    try:
        files = f if isinstance(f, list) else [f]
        groups = edits if isinstance(f, list) else [edits]
        for f, ed in zip(files, groups):
            p = os.path.join(W, f)
            s = open(p).read()
            for a, b in zip(ed[::2], ed[1::2]):
                if a not in s:
                    return name, 'NOT FOUND: ' + a[:200]
                s = s.replace(a, b, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, GK_REPO=W, GK_CACHE='/tmp/rc%d' % i)
        r = sh('timeout 900 python3 -m gk.run ' + ' '.join(ids), cwd='/verif', env=env)
        out = [l[:330] for l in (r.stdout + r.stderr).splitlines() if l.strip() and not l.startswith('OK ') and not l.startswith('KNOWN')]
        return name, '\n'.join(out[:14])
    finally:
        sh('git -C %s checkout -q -- .' % W)
        slots.put(i)


sel = [e for e in m.R if len(sys.argv) < 3 or any(e[0].startswith(x) for x in sys.argv[2:])]
for i in range(min(N, len(sel))):
    setup(i)
with cf.ThreadPoolExecutor(N) as ex:
    for name, out in ex.map(one, sel):
        print('%s: %s' % (name, 'quiet' if not out else '\n' + out), flush=True)
