"""Development helper: tools/seed.py save ID   - store the diff of /tmp/w as seeded/ID/patch.diff
                       tools/seed.py try ID... - build, test, demo and check a seeded change in /tmp/w
                       tools/seed.py check ID... - only run the property's check"""
import json, os, subprocess, sys
W = os.environ.get('SEED_W', '/tmp/w')
S = '/verif/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh('git checkout -q -- . && git clean -fdq -e target', cwd=W)


ENV = 'sed "s#cd /repo#cd %s#" /opt/vp/env.sh > /tmp/env_w.sh; . /tmp/env_w.sh; ' % W


def build():
    return sh(ENV + 'cargo test --workspace --no-run --offline', cwd=W, executable='/bin/bash')


def test():
    return sh(ENV + 'cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=W, executable='/bin/bash')


def checks(ids):
    env = dict(os.environ, GK_REPO=W, GK_CACHE='/tmp/gkc')
    r = sh('python3 -m gk.run ' + ' '.join(ids), cwd='/verif', env=env)
    return r


def one(i, full):
    d = os.path.join(S, i)
    prop = json.load(open(d + '/meta.json'))['property']
    reset()
    res = []
    if full:
        r = build()
        r = sh('bash %s/demo.sh' % d, cwd=W)
        res.append('demo-clean=%s' % r.returncode + ('' if r.returncode == 0 else ' BAD ' + r.stdout[-600:]))
    r = sh('git apply %s/patch.diff' % d, cwd=W)
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stdout)
        return
    if full:
        r = build()
        res.append('build=%s' % r.returncode + ('' if r.returncode == 0 else r.stdout[-1500:]))
        r = test()
        res.append('tests=%s' % r.returncode + ('' if r.returncode == 0 else r.stdout[-1500:]))
        r = sh('bash %s/demo.sh' % d, cwd=W)
        res.append('demo-bug=%s' % r.returncode + ('' if r.returncode else ' BAD ' + r.stdout[-600:]))
    r = checks([prop])
    hit = 'VIOLATION property=%s' % prop in r.stdout
    res.append('caught' if hit else 'MISSED')
    keys = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith('    [')]
    print(i, prop, ' '.join(res), '|', '; '.join(keys)[:400])
    if not hit:
        print(r.stdout[-500:])
    reset()


def main():
    if sys.argv[1] == 'save':
        os.makedirs(os.path.join(S, sys.argv[2]), exist_ok=True)
        open(os.path.join(S, sys.argv[2], 'patch.diff'), 'w').write(sh('git diff', cwd=W).stdout)
        reset()
    else:
        ids = sys.argv[2:] or sorted(os.listdir(S))
        for i in ids:
            one(i, sys.argv[1] == 'try')


main()
