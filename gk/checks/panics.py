"""C44, and what C06 needs besides the token streams: every operation of the workspace that can panic is listed from its
MIR; each one has to be safe on every abstract path to it.  Operations are judged in the function they are in, with unknown
arguments; where that does not suffice, in each of its callers."""
import re
from ..lib import *
from ..run import check, Ctx
from ..partial import *

from . import lex, cells, parse, project


# ------------------------------------------------------------------------- the sites
def macro_made(F, b):
    """code that a derive macro wrote"""
    return b['id'] in F.derived or re.search(r' as (enum_map|serde|serde_core|clap|clap_builder|strum)\b|::_::| as core::(str::traits::FromStr|'
                                             r'convert::AsRef<str>|convert::TryFrom<&str>)>', b['path']) is not None


def sites(F):
    """{(body id, block): what} of every operation that can panic"""
    out = {}
    for b in F.bodies.values():
        if b['crate'] == 'gkmodels-lib' or b['kind'] not in ('fn', 'closure', 'coroutine') and False or macro_made(F, b):
            continue
        for i, bb in enumerate(b['bbs']):
            t = bb['t']
            if t['k'] == 'assert':
                out[b['id'], i] = t['m']
            elif t['k'] == 'call' and 'fn' in t['f']:
                p = norm(t['f']['fn']['path'])
                if p.startswith('ginko'):
                    continue
                if UNWRAP.search(p) or INDEX.match(p) or RADIX.match(p) or PARTIAL.match(p):
                    out[b['id'], i] = p.split('::')[-1]
    return out



class Sites(R):
    """judges the operations in the functions that are followed"""
    budget = 60000

    def __init__(self, ctx, F, follow):
        super().__init__(ctx)
        self.F, self.follow = F, follow
        self.judge = Judge()
        self.granted_at = set()

    def opaque(self, p, b):
        if b['crate'] == 'gkmodels-lib' or b['id'] in self.follow:
            return False
        return outer(self.F, b)['id'] not in self.follow

    def on_call(self, st, ev):
        ip = self.ip
        if UNWRAP.search(ev.path) and ev.args and ev.name in ('unwrap', 'expect'):
            x = natives.chase(ip, st, ev.args[0])
            good = self.granted(x)
            if good:
                self.granted_at.add(here(ip, st))
                ip.vadt.setdefault(x, ['None', 'Some'] if good == 'Some' else ['Ok', 'Err'])
                if not ip.set_fact(st, mk('variant', x), True, good):
                    return []
                return fld(x, '0', good)
        if ev.name == 'block_on' and st.frame.body['path'].endswith('::main') and st.frame.up is None:
            self.granted_at.add(here(ip, st))       # not within a runtime
        if ev.body is not None and norm(ev.body['path']).endswith('data::Position::to'):
            a, b = (natives.chase(ip, st, y) for y in ev.args)
            if self.ordered(ip, a, b):
                self.granted_at.add(here(ip, st))
                return mk('call', 'Position::to', (a, b), None)
        return None

    def granted(self, x):
        """results that are known to be there by what other checks establish"""
        if x.op == 'call':
            n = x.a[0]
            # the paths of project files are absolute: canonical ones, or those of file:// addresses (C15)
            if n.endswith('Url::from_file_path') and x.a[1] and x.a[1][0].op not in ('str', 'const', 'fmt'):
                return 'Ok'
            if re.search(r'tokio::runtime::.*Builder::build$', n):
                return 'Ok'
        return None

    def ordered(self, ip, a, b):
        """a is the start of a part of a declaration, b the end of a later part: the parser takes the parts in the order of
        the text (C30), and no token is empty (C26)"""
        x, y = part(a, 'start'), part(b, 'end')
        if x is None or y is None:
            return False
        if x is y:
            return True
        up = owners(x)
        for o, f in owners(y).items():
            if o in up and up[o] != f and rank(up[o]) < rank(f):
                return True
        return False


RANK = [('omit_if_no_ref', 'omit'), ('label',), ('name', 'reference', 'include_token', '0', 'start'), ('values', '1', 'item', 'file_name', 'items'),
        ('payload',), ('end', '2')]


def rank(f):
    return next((i for i, n in enumerate(RANK) if f in n), 3)


def part(t, side):
    """the part of a declaration that a position is the start / end of"""
    for _ in range(12):
        if t.op == 'call' and t.a[0].split('::')[-1] == side and t.a[1]:
            t = t.a[1][0]
            break
        if t.op == 'fld' and t.a[1] == side:
            t = t.a[0]
            break
        return None
    while True:
        if t.op == 'call' and t.a[0].split('::')[-1] in ('span', 'token', 'start', 'end') and t.a[1]:
            t = t.a[1][0]
        elif t.op == 'fld' and t.a[1] in ('span', 'token', 'start'):
            t = t.a[0]
        else:
            return t


def owners(t):
    """{declaration: its field that t is a part of}"""
    out = {}
    while t.op == 'fld':
        out[t.a[0]] = t.a[1].split('.')[-1]
        t = t.a[0]
    return out


def outer(F, b):
    """the function a closure or an async body is part of"""
    while b.get('parent') in F.bodies:
        b = F.bodies[b['parent']]
    return b


def callers(F):
    """function -> functions that call or mention it"""
    out = {}
    direct = {}
    for b in F.bodies.values():
        if b['crate'] == 'gkmodels-lib':
            continue
        o = outer(F, b)['id']
        for x in mentioned(b['bbs']):
            direct.setdefault(x, set()).add(o)
    for k, v in direct.items():
        if k in F.bodies:
            out.setdefault(k, set()).update(v)
    for i in F.impls:
        for n, mid in i['methods'].items():
            for c, v in direct.items():
                if c.endswith('::' + n) and c not in F.bodies and c.split('::')[-2:-1] == [i['trait'].split('<')[0].split('::')[-1]]:
                    out.setdefault(mid, set()).update(v)
    return out


def callees(F, fn):
    """the small functions that fn calls itself"""
    out = set()
    for b in F.bodies.values():
        if outer(F, b)['id'] == fn:
            out.update(x for x in mentioned(b['bbs']) if x in F.bodies and x != fn and len(F.bodies[x]['bbs']) < 30 and not x.startswith('gkmodels'))
    return tuple(sorted(out))


def mentioned(x):
    """ids of the functions that a body mentions"""
    if isinstance(x, dict):
        f = x.get('fn')
        if isinstance(f, dict) and 'id' in f:
            yield f['id']
        for v in x.values():
            yield from mentioned(v)
    elif isinstance(x, list):
        for v in x:
            yield from mentioned(v)


def whole(F):
    """functions that another automaton follows with unknown arguments, through everything they call: {body id: what it found}"""
    if '_whole' not in F.__dict__:
        F._whole = {}
        b = body(F, 'Project::add_file_with_text')
        if b is not None:
            r = project.Order(Ctx(F, 'panics'))
            r.judge, r.root, r.tree = Judge(), b, project.pf_fields(F).get('tree')
            try:
                run(F, r, b, Interp(F, r).root_args(b, None), mon=(None, frozenset(), None, None))
                F._whole[b['id']] = r.judge
            except Exception:
                pass
    return F._whole


_memo = {}


def judged(F, follow, root):
    """the operations in the functions of `follow`, entered through root"""
    k = (id(F), frozenset(follow), root)
    if k not in _memo:
        b = F.bodies[root]
        r = Sites(Ctx(F, 'panics'), F, set(follow))
        co = any(c.get('parent') == root and c['kind'] == 'coroutine' for c in F.bodies.values())
        err = None
        try:
            try:
                (run_async if co else run)(F, r, b)
            except RuntimeError as e:
                if not str(e).startswith('not a future'):
                    raise
                run(F, r, b)
        except Exception as e:      # nothing is known then
            err = '%s: %s' % (type(e).__name__, str(e)[:100])
        # what a returned iterator does when it is gone through
        again = Sites(Ctx(F, 'panics'), F, set(follow))
        again.judge, again.granted_at = r.judge, r.granted_at
        m = F.bodies.get('gkmodels::iter__count')
        for st, v in r.rets:
            v = natives.chase(Interp(F, again), st, v)
            if m is not None and natives.is_iter(v) and err is None:
                try:
                    ip = Interp(F, again)
                    s0 = ip.start(m, [v], st.facts, None)
                    for k2, x in st.store.items():
                        if k2[0] == 'O':
                            s0.store[k2] = x
                    ip.run(s0)
                except Exception as e:
                    err = '%s: %s' % (type(e).__name__, str(e)[:100])
        r.judge.granted = r.granted_at
        _memo[k] = r.judge, err
    return _memo[k]


def census(F, units):
    """[(site, what, why or None, how)]: units is the judge of the checks on the token streams"""
    S = sites(F)
    C = callers(F)

    def ok(site, fn, chain, depth):
        """None if the operation is safe whenever fn (reached through chain) is entered"""
        w = whole(F).get(fn)
        if w and site in w.visited and site not in w.failed:
            return None
        j, err = judged(F, (fn,) + chain, fn)
        if err is None and (site not in j.failed or site in j.granted):
            if site in j.visited or not chain:
                if site in j.visited:
                    return None
                return unvisited(F, site)
            return None
        # with what the functions it calls do
        more = callees(F, fn)
        if more:
            j2, err2 = judged(F, (fn,) + chain + more, fn)
            if err2 is None and site in j2.visited and (site not in j2.failed or site in j2.granted):
                return None
        why = j.failed.get(site) or 'the function is beyond the analysis (%s)' % err
        # the checks on the token streams judge the calls in the functions they follow
        every = [c for c in C.get(fn, ()) if c != fn]
        cs = [c for c in every if site in units.failed or c not in units.bodies]
        if not every and not (site in units.visited and site not in units.failed):
            return why
        if depth >= 3 and cs:
            return why
        for c in sorted(cs):
            if c in chain:
                continue
            w = ok(site, c, (fn,) + chain, depth + 1)
            if w:
                own = j.failed.get(site)
                if ' (called' in w:
                    return w
                return '%s (called from %s)' % (own if own and w.startswith('the function is beyond') else w, norm(F.bodies[c]['path']))
        return None

    def unvisited(F, site):
        if site in units.visited:
            return units.failed.get(site)
        # dead code, or a closure that is not called by what is followed
        b = F.bodies[site[0]]
        if 'parent' not in b:
            return None
        j, err = judged(F, (outer(F, b)['id'],), b['id'])
        if err is None and site in j.visited:
            return j.failed.get(site)
        return 'it is not reached by the analysis (%s)' % err
    out = []
    for site, what in sorted(S.items()):
        b = F.bodies[site[0]]
        fn = outer(F, b)
        out.append((site, what, ok(site, fn['id'], (), 0)))
    return out


INPUT = ('parser.rs', 'lexer.rs', 'reader.rs', 'token.rs')


def sections(F):
    """[(site, what, why)] with what the checks on the token streams establish"""
    if '_census' not in F.__dict__:
        x = Ctx(F, 'panics')
        lex.lexer(x), parse.parser(x), cells.leaves(x)
        F._census = census(F, judge_of(F))
    return F._census


def report(ctx, mine, least):
    F = ctx.F
    n = 0
    for site, what, why in sections(F):
        b = F.bodies[site[0]]
        if mine(b):
            n += 1
            line = b['bbs'][site[1]].get('sp', [None])[0]
            ctx.oblige(not why, 'site:%s:%s' % (norm(b['path']), what), '%s: %s: %s' % (where(b, line), what, why),
                       sample='%s: %s' % (norm(b['path']), what))
            ctx.saw(b)
    for k in [k for k in _memo if k[0] == id(F)]:
        for i in k[1]:
            ctx.saw(F.bodies[i])
    ctx.floor('operations', n, least)
    ctx.notes.append('%d operations that can panic in %d bodies' % (n, sum(1 for b in F.bodies.values() if b['crate'] != 'gkmodels-lib' and mine(b))))


@check('C44')
def c44(ctx):
    ctx.rule = ('Every operation of the workspace that can panic (indexing, slicing, unwrap, expect, assertions, checked arithmetic, division, '
                'partial functions of the standard library) outside the reading of text must be safe on every abstract path to it: in its '
                'function with unknown arguments, or else in each of its callers.')
    report(ctx, lambda b: not b['file'].endswith(INPUT), 10)
