"""Helpers shared by the checks."""
import re
from .interp import Interp, Rule, Budget, State, Frame, norm, head
from .terms import *
from . import natives, partial


def bodies_of(F, *suffixes, crate=None):
    out = []
    for b in F.bodies.values():
        if crate and b['crate'] != crate:
            continue
        if any(b['path'] == s or b['path'].endswith('::' + s) or norm(b['path']).endswith('::' + s) for s in suffixes):
            out.append(b)
    return out


def body(F, suffix, crate=None):
    bs = bodies_of(F, suffix, crate=crate)
    return bs[0] if len(bs) == 1 else None


def method(F, trait, selfhead, name):
    """body of the method of an impl"""
    for i in F.impls:
        if i['trait'].split('<')[0].endswith(trait) and head(i['self']).endswith(selfhead) and name in i['methods']:
            return F.bodies.get(i['methods'][name])
    return None


class R(Rule):
    """a rule with a set of opaque functions (by path suffix) and recorded results"""
    OPAQUE = ()
    budget = 150000

    def __init__(self, ctx=None, opaque=()):
        self.ctx = ctx
        self.op = tuple(self.OPAQUE) + tuple(opaque)
        self.rets = []
        self.divs = []

    def opaque(self, p, b):
        q = norm(b['path'])
        m = re.search(r'<impl ([\w:]+)(?:<.*>)?>::(\w+)$', b['path'])
        if m:
            q = m.group(1) + '::' + m.group(2)
        return any(p == s or p.endswith('::' + s) or q.endswith('::' + s) for s in self.op)

    def on_ret(self, st, v):
        self.rets.append((st, v))

    judge = None        # collects what is found at operations that can panic

    def on_diverge(self, st, p, args, bb):
        self.divs.append((st, p, args))
        if self.judge:
            partial.note(self.judge, self.ip, st, 'it panics on some path (%s)' % p.split('::')[-1][:40])

    def on_std(self, st, ev):
        if self.judge:
            partial.on_std(self.judge, self.ip, st, ev)

    def on_assert(self, st, t, c):
        if self.judge:
            partial.note(self.judge, self.ip, st, partial.assertion(self.ip, st, t, c))


WRITES = ('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Write::write_fmt',
          'core::fmt::Write::write_str', 'core::fmt::Write::write_char', 'core::fmt::Formatter::pad')


class Writer(R):
    """follows what a Display implementation writes (write errors are not followed)"""

    def on_out(self, st, parts):
        """parts: strings and (spec, term, ...) tuples"""

    def on_call(self, st, ev):
        if ev.path in WRITES and ev.body is None:
            t = self.ip.val(st, natives.chase(self.ip, st, ev.args[1]))
            if t.op == 'str':
                parts = (t.a[0],)
            elif t.op == 'fmt':
                parts = t.a[0]
            elif t.op == 'const':
                parts = (chr(t.a[0]),)
            else:
                parts = (('d', t),)
            r = self.on_out(st, parts)
            return r if r is not None else ok(UNIT)
        if ev.name == 'fmt' and len(ev.args) == 2 and ev.body is None and ev.path.startswith('core::fmt::') and \
                ev.path.endswith('Display::fmt'):
            r = self.on_out(st, (('d', natives.chase(self.ip, st, ev.args[0])),))
            return r if r is not None else ok(UNIT)
        if ev.name == 'fmt' and len(ev.args) == 2 and ev.body is not None and ev.body['id'] in self.opaque_fmt():
            r = self.on_out(st, (('d', natives.chase(self.ip, st, ev.args[0])),))
            return r if r is not None else ok(UNIT)
        return None

    def opaque_fmt(self):
        return ()


def is_call(ev, *suffixes):
    return any(ev.path == s or ev.path.endswith('::' + s) for s in suffixes) or \
        (ev.body is not None and any(norm(ev.body['path']).endswith('::' + s) for s in suffixes))


def run(F, rule, b, args=None, mon=None, facts=None, names=None, subst=None):
    ip = Interp(F, rule)
    ip.run(ip.start(b, args if args is not None else ip.root_args(b, names), facts, mon, subst))
    if rule.ctx is not None:
        rule.ctx.saw(b)
        rule.ctx.saw(*[F.bodies[i] for i in ip.inlined if not i.startswith('gkmodels')])
    return ip


def run_async(F, rule, b, args=None, mon=None, names=None):
    """an async method: build the future, then drive it to completion"""
    first = R(None, rule.op)
    ip0 = Interp(F, first)
    args = args if args is not None else ip0.root_args(b, names)
    ip0.run(ip0.start(b, args, None, None))
    ips = []
    for st, v in first.rets:
        if not (v.op == 'agg' and v.a[0] == 'coroutine'):
            raise RuntimeError('not a future: ' + b['id'])
        cb = F.bodies[v.a[1]]
        ip = Interp(F, rule)
        s0 = ip.start(cb, [v, mk('opaque', 'cx')], st.facts, mon)
        for r, x in st.store.items():
            if r[0] == 'O':
                s0.store[r] = x
        ip.run(s0)
        ips.append(ip)
        if rule.ctx is not None:
            rule.ctx.saw(b, cb)
            rule.ctx.saw(*[F.bodies[i] for i in ip.inlined if not i.startswith('gkmodels')])
    return ips


def contains(t, sub):
    return sub in subs(t)


def find(t, pred):
    return [x for x in subs(t) if pred(x)]


def instances(t, pred, out=None):
    """the distinct dynamic instances (current or older) of terms satisfying pred that t is built from"""
    out = [] if out is None else out
    if pred(t) or t.op == 'old' and pred(t.a[0]):
        if t not in out:
            out.append(t)
    else:
        for k in kids(t):
            instances(k, pred, out)
    return out


def where(b, line=None):
    return '%s (%s)' % (b['path'], b['file'] + (':%d' % line if line else ''))
