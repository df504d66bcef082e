"""Builds the facts (resolved MIR as JSON) of /repo's current working tree and loads them."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GK_REPO', '/repo')
CACHE = os.environ.get('GK_CACHE', os.path.join(ROOT, '.cache'))


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def tree_hash(repo):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target'))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith(('.rs', '.toml', '.lock')):
                h.update(os.path.relpath(p, repo).encode() + b'\0')
                h.update(open(p, 'rb').read() + b'\0')
    return h


def file_hash(h, *paths):
    for p in paths:
        h.update(open(p, 'rb').read() + b'\0')
    return h


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise RuntimeError('command failed: %s' % ' '.join(cmd))
    return r.stdout


def build_driver(sr):
    src = os.path.join(ROOT, 'driver', 'main.rs')
    key = file_hash(hashlib.sha256(sr.encode()), src).hexdigest()[:16]
    out = os.path.join(CACHE, 'driver-' + key)
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(CACHE, 'driver-*')):
            os.remove(old)
        tmp = out + '.tmp%d' % os.getpid()
        run(['rustc', '+nightly', '--edition', '2021', '-Copt-level=1', '-o', tmp, src])
        os.rename(tmp, out)
    return out


def build(log=lambda s: None):
    """Returns the directory with the facts of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sr = sysroot()
        drv = build_driver(sr)
        models = os.path.join(ROOT, 'models', 'lib.rs')
        h = tree_hash(REPO)
        file_hash(h, models)
        h.update((drv + REPO).encode())
        key = h.hexdigest()[:20]
        out = os.path.join(CACHE, 'facts-' + key)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        olds = sorted(glob.glob(os.path.join(CACHE, 'facts-*')), key=os.path.getmtime)
        for old in olds[:-8]:
            shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        env = dict(os.environ)
        env.update(GK_CRATES='gkmodels', GK_OUT=out, LD_LIBRARY_PATH=sr + '/lib')
        run([drv, '--sysroot', sr, '--crate-name', 'gkmodels', '--crate-type', 'lib', '--edition', '2021',
             '--emit=metadata', '-o', os.path.join(out, 'models.rmeta'), models], env=env)
        tgt = os.path.join(CACHE, 'target')
        # cargo's freshness check would silently skip the wrapper: forget the workspace crates
        for pat in ('.fingerprint', 'build', 'incremental'):
            for p in glob.glob(os.path.join(tgt, 'debug', pat, 'ginko*')):
                shutil.rmtree(p, ignore_errors=True)
        env.update(GK_CRATES='ginko,ginko_ls', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                   RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0')
        env.pop('RUSTC_WRAPPER', None)
        run(['cargo', '+nightly', 'check', '--offline', '--workspace', '--manifest-path',
             os.path.join(REPO, 'Cargo.toml')], env=env, cwd='/')
        for c in ('ginko-lib', 'ginko-bin', 'ginko_ls-bin', 'gkmodels-lib'):
            if not os.path.exists(os.path.join(out, c + '.json')):
                raise RuntimeError('no facts for ' + c)
        open(os.path.join(out, 'done'), 'w').close()
        return out


class Facts:
    def __init__(self, d):
        self.dir = d
        self.bodies = {}
        self.impls = []
        self.adts = {}
        self.statics = []
        self.derived = set()
        self.by_path = {}
        self.crate_of = {}
        for c in ('ginko-lib', 'ginko-bin', 'ginko_ls-bin', 'gkmodels-lib'):
            j = json.load(open(os.path.join(d, c + '.json')))
            for b in j['bodies']:
                b['crate'] = c
                if c == 'ginko-bin':  # same crate name as the library
                    b['id'] = 'bin!' + b['id']
                    if 'parent' in b:
                        b['parent'] = 'bin!' + b['parent']
                self.bodies[b['id']] = b
                self.by_path.setdefault(b['path'], []).append(b)
            for i in j['impls']:
                if i['auto']:
                    self.derived.update(i['methods'].values())
                i['crate'] = c
                self.impls.append(i)
            for k, v in j['adts'].items():
                if v and (k not in self.adts or v.get('local')):
                    self.adts[k] = v
            for s in j['statics']:
                s['crate'] = c
                self.statics.append(s)


def load():
    return Facts(build())
