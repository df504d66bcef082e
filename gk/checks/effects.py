"""Effect analyses over the call graph: C10 (standard output of the server), C11 (read only), C12 (locks), C18 (determinism)."""
import re
from ..run import check
from ..lib import *
from ..interp import mk, norm
from .. import natives


def walk(o):
    if isinstance(o, dict):
        yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(o, list):
        for v in o:
            if isinstance(v, (dict, list)):
                yield from walk(v)


def refs(b):
    """(fn dict, line) of every function a body mentions (called or passed as a value); ids of its closures"""
    out, cl = [], []
    for bb in b['bbs']:
        line = bb['sp'][0] if isinstance(bb.get('sp'), list) else 0
        for o in walk([bb['s'], bb['t']]):
            if 'fn' in o and isinstance(o['fn'], dict):
                out.append((o['fn'], line))
            if o.get('k') == 'agg' and o.get('ak') in ('closure', 'coroutine'):
                cl.append(o['id'])
            if o.get('k') == 'const' and 'def' in o:
                cl.append(o['def'])
    return out, cl


class Graph:
    def __init__(self, F):
        self.F = F
        self.edges, self.ext = {}, {}
        byt = {}
        for i in F.impls:
            for m, bid in i['methods'].items():
                byt.setdefault((i['trait'].split('<')[0], m), []).append((i, bid))
        for b in F.bodies.values():
            if b['crate'] == 'gkmodels-lib':
                continue
            es, xs = set(), []
            rs, cl = refs(b)
            for fn, line in rs:
                hit = []
                for cid in (fn.get('rid'), fn['id']):
                    t = self.find(cid, b)
                    if t is not None and not (cid == fn['id'] and hit):
                        hit.append(t)
                        break
                if 'trait' in fn and not fn.get('rid'):
                    h = head(fn.get('selfty', ''))
                    for i, bid in byt.get((fn['trait'].split('<')[0], fn['method']), ()):
                        if head(i['self']) == h or re.fullmatch(r'[A-Z]\w?|Self', h) or fn.get('selfty', '').startswith('dyn'):
                            t = self.find(bid, b)
                            if t is not None:
                                hit.append(t)
                if hit:
                    es.update(t['id'] for t in hit)
                else:
                    xs.append((norm(fn.get('rpath') or fn['path']), line, fn))
            for c in cl:
                t = self.find(c, b)
                if t is not None:
                    es.add(t['id'])
            self.edges[b['id']] = es
            self.ext[b['id']] = xs
        # bodies nested in a body (closures, coroutines) belong to it
        for b in F.bodies.values():
            if b.get('parent') in self.edges and b['crate'] != 'gkmodels-lib':
                self.edges[b['parent']].add(b['id'])
        # implementations of traits of other crates are called from there
        self.callbacks = set()
        for i in F.impls:
            if not i['trait'].startswith(('ginko', 'bin!')):
                for bid in i['methods'].values():
                    for c in (bid, 'bin!' + bid):
                        if c in F.bodies and F.bodies[c]['crate'] == i.get('crate'):
                            self.callbacks.add(c)

    def find(self, cid, cur):
        if cid is None:
            return None
        if cur['crate'] == 'ginko-bin' and 'bin!' + cid in self.F.bodies:
            return self.F.bodies['bin!' + cid]
        b = self.F.bodies.get(cid)
        return b if b is not None and b['crate'] != 'gkmodels-lib' else None

    def reach(self, roots):
        """{id: predecessor}"""
        seen = {r: None for r in roots}
        work = list(roots)
        while work:
            x = work.pop()
            for y in sorted(self.edges.get(x, ())):
                if y not in seen:
                    seen[y] = x
                    work.append(y)
        return seen

    def path(self, seen, x):
        out = []
        while x is not None:
            out.append(self.F.bodies[x]['path'])
            x = seen[x]
        return ' <- '.join(out[:6])


def roots_of(F, g, crates):
    """everything the program of these crates may run: its bodies, and the implementations other crates call"""
    libs = {c for c in g.callbacks if F.bodies[c]['crate'] == 'ginko-lib'}
    return {b['id'] for b in F.bodies.values() if b['crate'] in crates} | libs


STDOUT = ('std::io::stdio::_print', 'std::io::stdio::stdout', 'std::io::stdio::set_output_capture', 'std::io::stdio::stdin',
          'std::io::stdio::print_to', 'tokio::io::stdout::stdout', 'tokio::io::stdin::stdin', 'std::io::stdio::read_to_string')


class Serve(R):
    """main of the server: what is connected to standard output"""
    OPAQUE = ('Backend::new',)

    def on_call(self, st, ev):
        if ev.body is None and ev.path.startswith('tracing_subscriber::'):
            if ev.name in ('init', 'try_init', 'finish', 'set_default', 'with_default'):
                t = natives.chase(self.ip, st, ev.args[0])
                self.n['log'] = self.n.get('log', 0) + 1
                ws = [x for x in subs(t) if x.op == 'call' and x.a[0].endswith('::with_writer')]
                err = [x for x in ws if any('std::io::stdio::stderr' in show(y) for y in x.a[1][1:])]
                last = t
                while last.op == 'call' and not last.a[0].endswith('::with_writer') and last.a[1]:
                    last = last.a[1][0]
                self.ctx.oblige(bool(err) and last in err, 'log', 'the log of the server is not written to standard error: ' + show(t)[:250])
        if is_call(ev, 'Server::new') and ev.body is None:
            self.n['serve'] = self.n.get('serve', 0) + 1
            i, o = (natives.chase(self.ip, st, x) for x in ev.args[:2])
            self.ctx.oblige('stdin' in show(i) and 'stdout' not in show(i), 'in', 'the server does not read standard input: ' + show(i)[:200])
            self.ctx.oblige('stdout' in show(o) and 'stderr' not in show(o), 'out', 'the server does not write standard output: ' + show(o)[:200])
        return None


@check('C10')
def c10(ctx):
    F = ctx.F
    ctx.rule = 'effect analysis: no function reachable in the server refers to standard output, other than main handing it to the transport; value flow of the log writer'
    g = Graph(F)
    roots = roots_of(F, g, ('ginko_ls-bin',))
    seen = g.reach(sorted(roots))
    n = 0
    given = []
    callers = {}
    for x in seen:
        for y in g.edges.get(x, ()):
            callers.setdefault(y, set()).add(x)

    def of_main(x, over=()):
        """main, a part of it, or a function that only main uses"""
        if '::main' in x:
            return True
        up = callers.get(x, set()) - {x}
        b = F.bodies[x]
        if not up and b['parent'] and b['parent'] in F.bodies and b['parent'] != x:
            up = {b['parent']}
        return bool(up) and x not in over and b['crate'] == 'ginko_ls-bin' and all(of_main(y, over + (x,)) for y in up)

    for x in sorted(seen):
        b = F.bodies[x]
        ctx.saw(b)
        for p, line, fn in g.ext[x]:
            n += 1
            ctx.obligations += 1
            if p in STDOUT or re.match(r'(libc|rustix|nix|std::os|std::sys)::', p):
                if p in ('tokio::io::stdout::stdout', 'tokio::io::stdin::stdin') and of_main(x):
                    given.append(p)
                    continue
                ctx.violate('stdout:' + norm(b['path']) + ':' + p, '%s uses standard input/output (%s), which carries the protocol of the server; reached by %s' %
                            (where(b, line), p, g.path(seen, x)))
            if p.startswith('tracing_subscriber::') and not of_main(x):
                ctx.violate('log:' + norm(b['path']), 'a log is set up outside main: ' + where(b, line))
    ctx.floor('references to functions of other crates', n, 200)
    ctx.floor('functions reachable in the server', len(seen), 100)
    ctx.oblige(given.count('tokio::io::stdout::stdout') == 1, 'once', 'standard output is handed out %d times in main' % given.count('tokio::io::stdout::stdout'))
    bs = [b for b in F.bodies.values() if b['crate'] == 'ginko_ls-bin' and b['kind'] == 'coroutine' and '::main' in b['id']]
    if ctx.anchor(len(bs) == 1, 'main of the language server'):
        r = Serve(ctx)
        r.n = {}
        run(F, r, bs[0])
        ctx.floor('transports', r.n.get('serve', 0), 1)


READS = {'read_to_string', 'read', 'canonicalize', 'metadata', 'symlink_metadata', 'read_dir', 'exists', 'try_exists', 'read_link', 'open', 'len',
         'is_dir', 'is_file', 'is_symlink', 'file_type', 'path', 'file_name', 'modified', 'created', 'accessed', 'permissions', 'readonly'}


def effect(p, fn):
    """what a function of another crate does to the world, None if nothing"""
    if re.match(r'(std|tokio|async_std)::(fs|os::unix::fs|sys)', p) or re.match(r'(fs_err|tempfile)::', p):
        n = p.split('::')[-1]
        if 'OpenOptions' in p or n not in READS:
            if fn.get('trait', '').split('::')[-1] in ('Debug', 'Display', 'Clone', 'PartialEq', 'Iterator', 'IntoIterator', 'Read', 'BufRead', 'Seek'):
                return None
            return 'changes files'
    if re.match(r'(std|tokio)::process', p):
        if p in ('std::process::exit', 'std::process::ExitCode::from', 'std::process::abort', 'std::process::id') or 'ExitCode' in p or 'Termination' in p:
            return None
        return 'runs another program'
    if re.match(r'(std|tokio)::net', p) or re.match(r'(std|tokio)::os::.*net', p):
        return 'uses the network'
    if p in ('std::env::set_var', 'std::env::remove_var', 'std::env::set_current_dir'):
        return 'changes the environment of the process'
    if re.match(r'(libc|nix|rustix|windows_sys|winapi)::', p):
        return 'calls the operating system directly'
    if fn.get('trait', '') in ('std::io::Write', 'tokio::io::util::async_write_ext::AsyncWriteExt') and re.search(r'fs::File|net::', fn.get('selfty', '')):
        return 'writes a file'
    if fn.get('foreign') or fn.get('abi') not in (None, 'Rust', 'rust-call'):
        return 'calls foreign code'
    return None


@check('C11')
def c11(ctx):
    F = ctx.F
    ctx.rule = 'effect analysis: no function reachable in the library, the tool or the server refers to a function that changes files, runs programs, uses the network or changes the environment'
    g = Graph(F)
    seen = g.reach(sorted(b['id'] for b in F.bodies.values() if b['crate'] != 'gkmodels-lib'))
    n = 0
    reads = 0
    for x in sorted(seen):
        b = F.bodies[x]
        ctx.saw(b)
        for p, line, fn in g.ext[x]:
            n += 1
            ctx.obligations += 1
            e = effect(p, fn)
            if e:
                ctx.violate('effect:' + norm(b['path']) + ':' + p, '%s %s (%s)' % (where(b, line), e, p))
            if p.startswith(('std::fs', 'dunce::')):
                reads += 1
        for bb in b['bbs']:
            if bb['t']['k'] in ('asm', 'inlineasm'):
                ctx.violate('asm:' + norm(b['path']), 'inline assembly in ' + where(b))
    ctx.floor('references to functions of other crates', n, 800)
    ctx.floor('file system accesses (reading)', reads, 2)


# ------------------------------------------------------------------ locks
GUARD = re.compile(r'\b(?:\w+::)*(?:RwLock\w*Guard|MutexGuard|Mapped\w*Guard|ReentrantMutexGuard|ArcRwLock\w*|OwnedRwLock\w*|OwnedMutexGuard|Ref|RefMut)<')
ACQ = {'read', 'write', 'lock', 'upgradable_read', 'read_recursive', 'read_arc', 'write_arc', 'lock_arc', 'blocking_read', 'blocking_write', 'blocking_lock',
       'borrow', 'borrow_mut', 'upgrade'}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        if ch in '>)]}':
            d -= 1
            if d < 0:
                break
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Locks:
    def __init__(self, F, g, crates):
        self.F, self.g = F, g
        self.bodies = [b for b in F.bodies.values() if b['crate'] in crates]
        self.owners = {}
        ch = True
        # structs that contain guards
        while ch:
            ch = False
            for name, a in F.adts.items():
                if a is None or name in self.owners or not name.startswith('ginko'):
                    continue
                for v in a['variants']:
                    for f in v['fields']:
                        k = self.guard(f['ty'])
                        if k:
                            self.owners[name] = k
                            ch = True
        self.acq = {}
        for b in F.bodies.values():
            if b['crate'] == 'gkmodels-lib':
                continue
            self.acq[b['id']] = {k for bb in b['bbs'] for k in [self.acquires(bb['t'])] if k}
        ch = True
        while ch:
            ch = False
            for x, es in g.edges.items():
                for y in es:
                    new = self.acq.get(y, set()) - self.acq[x]
                    if new:
                        self.acq[x] |= new
                        ch = True

    def guard(self, ty):
        """what a guard of this type protects"""
        ty = ty.lstrip('&')
        if ty.startswith(('mut ', "'")) or ty.startswith('fn('):
            return None
        m = GUARD.search(ty)
        if m:
            # guards behind references are not owned
            if '&' in ty[:m.start()] or 'Ref<' in m.group(0) and 'core::cell::' not in ty or 'RefMut<' in m.group(0) and 'core::cell::' not in ty:
                return None
            return split_args(ty[m.end():])[-1]
        for n, k in self.owners.items():
            if re.search(r'(?<![&\w:])' + re.escape(n) + r'\b(?!::)', ty) and not ty.startswith(('*', 'core::option::Option<&')):
                return k
        return None

    def acquires(self, t):
        if t['k'] != 'call' or 'fn' not in t['f']:
            return None
        fn = t['f']['fn']
        if fn['path'].split('::')[-1] in ACQ and (fn['path'].startswith(('lock_api::', 'std::sync::', 'parking_lot::', 'core::cell::', 'tokio::sync::')) or
                                                  'lock' in fn['path'].lower()):
            return self.guard(t['dty']) or None
        return None

    def closures(self, b):
        """(file, line) -> closure bodies"""
        return {(c['file'], c['line']): c for c in self.F.bodies.values() if c['kind'] == 'closure'}

    def check(self, ctx):
        edges = {}
        n = held_calls = 0
        clos = self.closures(None)
        for b in self.bodies:
            gl = {i: self.guard(ty) for i, ty in enumerate(b['locals'])}
            gl = {i: k for i, k in gl.items() if k}
            if not gl and not self.acq.get(b['id']):
                continue
            ctx.saw(b)
            bbs = b['bbs']
            start = frozenset(i for i in gl if 1 <= i <= b['argc'])
            inn = {0: start}
            work = [0]
            while work:
                x = work.pop()
                held = set(inn[x])
                bb = bbs[x]

                def moved(o):
                    if o.get('k') == 'move' and o['p'][0] in held and not any(e[0] == '*' for e in o['p'][1]):
                        held.discard(o['p'][0])
                        return True
                    return False
                for s in bb['s']:
                    if s[0] == '=':
                        mv = [moved(o) for o in walk(s[2]) if o.get('k') == 'move' and 'p' in o]
                        if any(mv) and s[1][0] in gl:
                            held.add(s[1][0])
                    elif s[0] == 'dead':
                        held.discard(s[1])
                t = bb['t']
                k = t['k']
                line = bb['sp'][0] if isinstance(bb.get('sp'), list) else 0
                if k == 'drop' and not t['p'][1]:
                    held.discard(t['p'][0])
                if k == 'yield' and held and not bb.get('cl'):
                    for h in held:
                        ctx.violate('await:' + norm(b['path']), 'the lock of %s is held while waiting (await) in %s' % (short(gl[h]), where(b, line)))
                if k == 'call':
                    n += 1
                    before = {h: gl[h] for h in held}
                    fn = t['f'].get('fn') or {}
                    a = self.acquires(t)
                    got = {a} if a else set()
                    tgt = None
                    for cid in (fn.get('rid'), fn.get('id')):
                        tgt = tgt or self.g.find(cid, b)
                    if tgt is not None:
                        got |= self.acq.get(tgt['id'], set())
                    elif 'trait' in fn:
                        for y in self.g.edges[b['id']]:
                            if y.endswith('::' + fn['method']) and self.F.bodies[y].get('parent') != b['id']:
                                got |= self.acq.get(y, set())
                    for o in t['args']:
                        ty = b['locals'][o['p'][0]] if 'p' in o and not o['p'][1] else o.get('ty', '')
                        for m in re.finditer(r'\{closure@([^:]+):(\d+):', ty):
                            c = clos.get((m.group(1), int(m.group(2))))
                            if c is not None:
                                got |= self.acq.get(c['id'], set())
                    if before:
                        held_calls += 1
                    ctx.obligations += 1
                    for h, kk in before.items():
                        for kk2 in got:
                            edges.setdefault((kk, kk2), where(b, line) + ' by ' + norm(fn.get('path', '?')))
                    mv = [moved(o) for o in t['args'] if 'p' in o]
                    if any(mv) and fn.get('path', '').endswith('mem::forget'):
                        ctx.violate('forget:' + norm(b['path']), 'a lock is never released: ' + where(b, line))
                    if t['d'][0] in gl and (a or any(mv) or tgt is not None):
                        held.add(t['d'][0])
                for y in succ_of(t):
                    o = inn.get(y)
                    nw = frozenset(held) | (o or frozenset())
                    if o is None or nw != o:
                        inn[y] = nw
                        work.append(y)
        # cycles in the order of acquisition
        adj = {}
        for (x, y), w in edges.items():
            adj.setdefault(x, set()).add(y)

        def reach(x, y):
            seen, st = set(), [x]
            while st:
                z = st.pop()
                if z == y:
                    return True
                if z not in seen:
                    seen.add(z)
                    st.extend(adj.get(z, ()))
            return False
        for (x, y), w in edges.items():
            if reach(y, x):
                ctx.violate('deadlock:' + re.sub(r'[^\w:]+', '_', w.split(' (')[0]) + ':' + short(x), 'the lock of %s is acquired while the lock of %s is held: %s' % (short(y), short(x), w))
        return n, held_calls


def short(t):
    return t.split('::')[-1]


def succ_of(t):
    from ..interp import succs
    return succs(t)


@check('C12')
def c12(ctx):
    F = ctx.F
    ctx.rule = 'lock analysis: forward dataflow of the guards held in every function of the server; no await and no acquisition (also in callees, closures) of a lock of the same data while one is held; lock order acyclic'
    g = Graph(F)
    L = Locks(F, g, ('ginko_ls-bin', 'ginko-bin', 'ginko-lib'))
    n, h = L.check(ctx)
    acq = sum(1 for b in L.bodies for bb in b['bbs'] if L.acquires(bb['t']))
    ctx.floor('acquisitions', acq, 5)
    ctx.floor('calls with a lock held', h, 5)


# ------------------------------------------------------------------ determinism
HASHITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'into_iter', 'extract_if', 'union', 'intersection',
            'difference', 'symmetric_difference', 'find_or_insert'}
ADAPT = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'flat_map', 'flatten', 'into_iter', 'by_ref', 'chain', 'inspect', 'iter', 'fuse', 'map_into', 'unique',
         'zip', 'deref', 'deref_mut', 'as_ref', 'borrow'}
FREE = {'all', 'any', 'count', 'sum', 'product', 'min', 'max', 'size_hint', 'len', 'is_empty', 'contains', 'for_each_unordered', 'sorted', 'sorted_by',
        'sorted_unstable', 'sorted_by_key', 'counts', 'all_unique', 'drop'}
SORT = re.compile(r'::(sort|sort_by|sort_by_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$')
HASHTY = re.compile(r'^(?:&(?:\'\w+ )?(?:mut )?)*std::collections::hash::(?:map::HashMap|set::HashSet)<')
ORDTY = re.compile(r'^(?:core::(?:option::Option|result::Result)<)?(?:std::collections::hash::|alloc::collections::btree::|hashbrown::|u|i|bool)')
SOURCES = [(r'std::time::(Instant|SystemTime)::(now|elapsed)', 'the time'), (r'std::thread::(spawn|scope|current|Builder|park|sleep)', 'threads'),
           (r'(rand|getrandom|fastrand|uuid)::', 'randomness'), (r'std::hash::random::RandomState::new|.*RandomState.*::hash_one|.*DefaultHasher::', 'a random hash'),
           (r'std::env::(var|vars|var_os|vars_os|temp_dir|home_dir|current_dir|current_exe)', 'the environment of the process'),
           (r'std::process::id', 'the process id'), (r'std::fs::read_dir|std::path::Path::read_dir', 'the order of a directory'),
           (r'core::fmt::rt::Argument::new_pointer', 'an address'), (r'tokio::(spawn|task::spawn|time|task::blocking)', 'the scheduler'),
           (r'rayon', 'threads')]
INSERT = re.compile(r'::(insert|extend|entry|or_insert|or_insert_with|or_default|contains|contains_key|get|remove|clone|next|deref|deref_mut|to_owned|to_string|'
                    r'as_ref|borrow|eq|ne|cmp|partial_cmp|lt|le|gt|ge|into|from|as_str|as_path|is_some|is_none|len|is_empty|starts_with|ends_with|new)$')


def hash_source(fn):
    p = norm(fn['path'])
    n = p.split('::')[-1]
    if n not in HASHITER:
        return False
    if p.startswith('std::collections::hash::') or p.startswith('hashbrown::'):
        return True
    return bool(HASHTY.match(fn.get('selfty', '')))


def determinism(ctx, F, g):
    srcfns = set()
    n = {'iterations': 0, 'maps': 0}
    for rnd in range(4):
        new = set()
        for b in F.bodies.values():
            if b['crate'] == 'gkmodels-lib' or b['id'] in F.derived:
                continue
            if hash_flow(ctx, F, g, b, srcfns, n if rnd == 0 else {'iterations': 0, 'maps': 0}):
                new.add(b['id'])
        if new <= srcfns:
            break
        srcfns |= new
    return n


def hash_flow(ctx, F, g, b, srcfns, n):
    """reports uses of hash iteration order in b; True if b returns such an iterator"""
    bbs = b['bbs']
    has = False
    for bb in bbs:
        t = bb['t']
        if t['k'] == 'call' and 'fn' in t['f'] and HASHTY.search(' '.join([t['f']['fn'].get('selfty', '')])) is not None:
            n['maps'] += 1
        if t['k'] == 'call' and 'fn' in t['f']:
            fn = t['f']['fn']
            tgt = next((x for x in (g.find(fn.get('rid'), b), g.find(fn['id'], b)) if x is not None), None)
            if hash_source(fn) and tgt is None or tgt is not None and tgt['id'] in srcfns:
                has = True
    if not has:
        return False
    ctx.saw(b)
    # which local holds an iterator in hash order (flow insensitive; references and moves followed)
    taint, alias = set(), {}
    ret = False

    def base(o):
        return o['p'][0] if 'p' in o else None
    ch = True
    loops = []
    while ch:
        ch = False

        def add(l):
            nonlocal ch
            if l not in taint:
                taint.add(l)
                ch = True
        for i, bb in enumerate(bbs):
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                src = None
                if rv['k'] == 'use':
                    src = base(rv['a'])
                elif rv['k'] in ('ref', 'rawptr'):
                    src = rv['p'][0]
                elif rv['k'] == 'agg':
                    for o in rv['ops']:
                        if base(o) in taint:
                            add(s[1][0])
                if src is not None and src in taint and not (rv['k'] == 'use' and rv['a']['p'][1] and ORDTY.match(b['locals'][s[1][0]])):
                    add(s[1][0])
            t = bb['t']
            if t['k'] != 'call':
                continue
            fn = t['f'].get('fn')
            tin = any(base(o) in taint for o in t['args'])
            if fn is None:
                continue
            tgt = next((x for x in (g.find(fn.get('rid'), b), g.find(fn['id'], b)) if x is not None), None)
            if hash_source(fn) and tgt is None or tgt is not None and tgt['id'] in srcfns:
                add(t['d'][0])
            elif tin and norm(fn['path']).split('::')[-1] in ADAPT:
                add(t['d'][0])
    if 0 in taint:
        ret = True
    sorted_ = set()
    refs_ = {}
    for bb in bbs:
        for s in bb['s']:
            if s[0] == '=' and s[2]['k'] == 'ref':
                refs_[s[1][0]] = s[2]['p'][0]
            if s[0] == '=' and s[2]['k'] == 'use' and base(s[2]['a']) is not None:
                refs_.setdefault(s[1][0], base(s[2]['a']))
        t = bb['t']
        if t['k'] == 'call' and 'fn' in t['f'] and norm(t['f']['fn']['path']).split('::')[-1] in ('deref_mut', 'as_mut_slice', 'deref', 'as_mut') and t['args']:
            refs_[t['d'][0]] = base(t['args'][0])
    for bb in bbs:
        t = bb['t']
        if t['k'] == 'call' and 'fn' in t['f'] and SORT.search(norm(t['f']['fn']['path'])):
            x = base(t['args'][0])
            seen = set()
            while x is not None and x not in seen:
                seen.add(x)
                sorted_.add(x)
                x = refs_.get(x)
    for i, bb in enumerate(bbs):
        t = bb['t']
        if t['k'] != 'call' or bb.get('cl') or 'fn' not in t['f']:
            continue
        fn = t['f']['fn']
        if not any(base(o) in taint for o in t['args']):
            continue
        n['iterations'] += 1
        ctx.obligations += 1
        p = norm(fn['path'])
        nm = p.split('::')[-1]
        line = bb['sp'][0] if isinstance(bb.get('sp'), list) else 0
        if nm in ADAPT or nm in FREE:
            continue
        if nm in ('collect', 'collect_vec', 'from_iter', 'partition', 'fold', 'group_by', 'join') or nm.startswith('collect'):
            if ORDTY.match(t['dty']) or t['d'][0] in sorted_ or any(refs_.get(x) == t['d'][0] for x in sorted_):
                continue
            moved = {x for x, y in refs_.items() if y == t['d'][0]}
            if moved & sorted_:
                continue
        if nm == 'extend' and (HASHTY.match(fn.get('selfty', '')) or 'btree' in fn.get('selfty', '')):
            continue
        if nm == 'for_each':
            bad = None
        elif nm == 'next':
            bad = loop_effects(b, i)
        else:
            bad = nm
        if nm == 'for_each':
            bad = nm
            for o in t['args'][1:]:
                ty = b['locals'][base(o)] if base(o) is not None else ''
                m = re.search(r'\{closure@([^:]+):(\d+):', ty)
                for c in F.bodies.values():
                    if m and c['kind'] == 'closure' and c['file'] == m.group(1) and c['line'] == int(m.group(2)):
                        bad = order_effects(c, range(len(c['bbs'])))
        if bad:
            ctx.violate('hash:' + norm(b['path']) + ':' + nm, '%s: the result depends on the order of a hash table (%s)' % (where(b, line), bad))
    return ret


def loop_effects(b, i):
    """something in the loop around block i that depends on the order of its iterations"""
    from ..interp import analyse_cfg
    info = analyse_cfg(b)
    pred = {}
    for x, ss in enumerate(info['succ']):
        for y in ss:
            pred.setdefault(y, set()).add(x)
    best = None
    for (x, h) in info['back']:
        loop = {h}
        work = [x]
        while work:
            y = work.pop()
            if y not in loop:
                loop.add(y)
                work.extend(pred.get(y, ()))
        if i in loop and (best is None or len(loop) < len(best)):
            best = loop
    if best is None:
        return 'only the first element is used'
    # leaving the loop elsewhere than at its end
    exits = {(x, y) for x in best for y in info['succ'][x] if y not in best and b['bbs'][y]['t']['k'] != 'unreachable' and not b['bbs'][y].get('cl')}
    if len({x for x, _ in exits}) > 1:
        return 'the loop is left early'
    return order_effects(b, best)


def order_effects(b, blocks):
    for x in blocks:
        bb = b['bbs'][x]
        if bb.get('cl'):
            continue
        t = bb['t']
        if t['k'] == 'yield':
            return 'await'
        if t['k'] == 'call':
            p = norm(t['f']['fn']['path']) if 'fn' in t['f'] else '?'
            if p.endswith('::push') or not INSERT.search(p):
                return p
    return None


RAW = re.compile(r'^&?\*(const|mut) ')
INT = re.compile(r'^[iu](8|16|32|64|128|size)$')


def addresses(b):
    """(line, what) of every place that looks at the value of an address: casts to numbers, comparisons, hashes"""
    for bb in b['bbs']:
        for s in bb['s']:
            if s[0] != '=':
                continue
            rv = s[2]
            line = s[3][0] if len(s) > 3 and s[3] else 0
            if rv['k'] == 'cast':
                if rv['ck'].startswith('PointerExpose') or rv['ck'] == 'Transmute' and (RAW.match(rv['from']) or rv['from'].startswith(('&', 'core::ptr::'))) \
                        and INT.match(rv['ty']):
                    yield line, 'a pointer is made a number'
            if rv['k'] == 'bin' and rv['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset', 'Sub'):
                for o in (rv['a'], rv['b']):
                    ty = rv.get('ty') or ''
                    if RAW.match(str(ty)):
                        yield line, 'pointers are ordered'
                        break
        t = bb['t']
        if t['k'] == 'call' and 'fn' in t['f']:
            fn = t['f']['fn']
            p = norm(fn['path'])
            n = p.split('::')[-1]
            if re.match(r'core::ptr::(mut_ptr|const_ptr|non_null)::', p) and n in ('addr', 'expose_provenance', 'cmp', 'partial_cmp', 'hash') or \
                    p.startswith('core::ptr::') and n in ('addr', 'expose_provenance', 'hash'):
                yield bb['sp'][0] if isinstance(bb.get('sp'), list) else 0, p
            elif n in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'hash', 'max', 'min') and RAW.match(fn.get('selfty', '')):
                yield bb['sp'][0] if isinstance(bb.get('sp'), list) else 0, 'pointers are ordered or hashed'
            elif re.search(r'sort|min_by|max_by|dedup_by_key', n) and any(RAW.match(a) for a in fn.get('args', ()) if isinstance(a, str)):
                yield bb['sp'][0] if isinstance(bb.get('sp'), list) else 0, 'values are ordered by address'


@check('C18')
def c18(ctx):
    F = ctx.F
    ctx.rule = 'determinism analysis: no hash iteration order flows into an ordered result, and no function refers to time, threads, randomness, addresses or the environment'
    g = Graph(F)
    n = determinism(ctx, F, g)
    k = 0
    for x in sorted(g.ext):
        b = F.bodies[x]
        ctx.saw(b)
        for p, line, fn in g.ext[x]:
            k += 1
            ctx.obligations += 1
            for pat, what in SOURCES:
                if re.match(pat, p) or re.match(pat, norm(fn['path'])):
                    ctx.violate('source:' + norm(b['path']) + ':' + p, '%s depends on %s (%s)' % (where(b, line), what, p))
    for b in F.bodies.values():
        if b['crate'] != 'gkmodels-lib' and b['id'] not in F.derived:
            for line, what in addresses(b):
                ctx.violate('address:' + norm(b['path']), '%s depends on an address (%s)' % (where(b, line), what))
    ctx.floor('references to functions of other crates', k, 800)
    ctx.notes.append('%d calls on hash containers, %d uses of their iteration' % (n['maps'], n['iterations']))
    # the containers whose order is observable: the files of a project
    a = F.adts.get('ginko::dts::project::Project')
    if ctx.anchor(a is not None, 'Project'):
        for f in a['variants'][0]['fields']:
            ctx.obligations += 1
