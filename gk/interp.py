"""Path-sensitive abstract interpretation of MIR (trace-partitioned forward dataflow).

State = abstract store (place roots -> provenance terms) + branch facts + the rule's automaton
state.  Calls to functions of the analysed crates and to the std models are analysed in context
(inlined up to recursion); every loop is brought to a fixpoint by widening at its head.  Nothing
is executed and no constraint solver is involved: branches are only pruned when the facts
gathered from the dominating branches syntactically decide them."""
import re
import sys
from .terms import *
from . import natives

sys.setrecursionlimit(20000)
BUDGET = 400000


class Budget(Exception):
    pass


_normc = {}


def norm(p):
    """path without generic arguments"""
    r = _normc.get(p)
    if r is None:
        r = p
        if not r.startswith('<'):
            r = r.replace("::<impl [T]>", '').replace('::<impl str>', '')
            r = re.sub(r'::<impl ([a-z0-9]+)>', r'::\1', r)
            while True:
                n = re.sub(r'::<[^<>]*>', '', r)
                if n == r:
                    break
                r = n
        _normc[p] = r
    return r


def head(ty):
    """head path of a type: references, Box and generics stripped"""
    t = ty.strip()
    while True:
        m = re.match(r"^&('[a-z_0-9]+ )?(mut )?", t)
        if not m or not m.group(0):
            break
        t = t[m.end():]
    if t.startswith('dyn '):
        return t
    if t.startswith('['):
        return '[]'
    if t.startswith('('):
        return '()'
    i = t.find('<')
    return t if i < 0 else t[:i].rstrip(':')


class Frame:
    __slots__ = ('fid', 'body', 'up', 'dest', 'target', 'subst', 'wrap', 'depth', 'bb')

    def __init__(s, fid, body, up, dest, target, subst, wrap):
        s.fid, s.body, s.up, s.dest, s.target, s.subst, s.wrap = fid, body, up, dest, target, subst, wrap
        s.depth = 0 if up is None else up.depth + 1


class State:
    __slots__ = ('frame', 'bb', 'store', 'facts', 'mon', 'trace')

    def __init__(s, frame, bb, store, facts, mon, trace):
        s.frame, s.bb, s.store, s.facts, s.mon, s.trace = frame, bb, store, facts, mon, trace

    def copy(s):
        return State(s.frame, s.bb, dict(s.store), dict(s.facts), s.mon, s.trace)

    # ---- facts
    def known(s, t):
        f = s.facts.get(t)
        return f[1] if f and f[0] == '=' else None

    def variant(s, t):
        """known variant name of t, or None"""
        if t.op == 'agg' and t.a[0] == 'adt':
            return t.a[2]
        if t.op == 'upd':
            return s.variant(t.a[0])
        return s.known(mk('variant', t))

    def maybe(s, t, name):
        """t may be of the variant"""
        v = s.variant(t)
        if v is not None:
            return v == name
        f = s.facts.get(mk('variant', t))
        return not (f and f[0] == '!' and name in f[1])


def widen_int(ty):
    return {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128,
            'i8': -8, 'i16': -16, 'i32': -32, 'i64': -64, 'isize': -64, 'i128': -128}.get(ty)


NONZERO = ('!', frozenset([0]))


def positive(v, facts):
    """a number that is known to be > 0"""
    if v.op == 'const':
        return isinstance(v.a[0], int) and v.a[0] > 0
    if v.op == 'phi' and facts.get(v) == NONZERO:
        return True
    if v.op == 'len':
        return v.a[0].op == 'seq' and v.a[0].a[2] is True or facts.get(mk('isempty', v.a[0])) == ('=', 0)
    return v.op == 'bin' and v.a[0] == 'Add' and (v.a[2].op == 'const' and v.a[2].a[0] > 0 and (
        v.a[1].op == 'phi' and facts.get(v.a[1]) == NONZERO) or
        v.a[2].op == 'len' and (positive(v.a[1], facts) or positive(v.a[2], facts)))


def sums(body):
    """locals that something is added to"""
    if 'sums' not in body:
        body['sums'] = {s[2]['a']['p'][0] for bb in body['bbs'] for s in bb['s'] if s[0] == '=' and s[2]['k'] == 'bin' and
                        s[2]['op'].startswith('Add') and 'p' in s[2]['a']}
    return body['sums']


def sum_norm(v, facts):
    """a + the length of something that is empty"""
    while v.op == 'bin' and v.a[0] == 'Add' and v.a[2].op == 'len' and facts.get(mk('isempty', v.a[2].a[0])) == ('=', 1):
        v = v.a[1]
    if v.op == 'len' and facts.get(mk('isempty', v.a[0])) == ('=', 1):
        return const(0)
    return v


def b_not(x):
    if x.op == 'const':
        return FALSE if x.a[0] else TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', x)


def b_eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('const', 'str', 'bytes') and b.op in ('const', 'str', 'bytes'):
        if a.op == b.op:
            return FALSE
        if {a.op, b.op} == {'str', 'bytes'}:
            x, y = (a, b) if a.op == 'str' else (b, a)
            return TRUE if x.a[0].encode() == bytes(y.a[0]) else FALSE
    if b.op not in ('const', 'str') and a.op in ('const', 'str'):
        a, b = b, a
    elif a.op not in ('const', 'str') and b.op not in ('const', 'str') and b.id < a.id:
        a, b = b, a
    if b.op == 'const' and b.a[0] == 0 and a.op == 'len':
        return mk('isempty', a.a[0])
    return mk('eq', a, b)


def b_lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if b.op == 'len' and b.a[0] is a.a[0] and a.op == 'idx':
        return TRUE
    if a.op == 'len' and a.a[0] is b.a[0] and b.op == 'idx':
        return FALSE
    if b.op == 'len' and a.op == 'const' and a.a[0] == 0:
        return mk('not', mk('isempty', b.a[0]))
    if a.op == 'len' and b.op == 'const' and b.a[0] in (0, 1):
        return mk('isempty', a.a[0]) if b.a[0] else FALSE
    return mk('lt', a, b)


def arith(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = a.a[0], b.a[0]
        try:
            return const({'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Div': lambda: x // y,
                          'Rem': lambda: x % y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y,
                          'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y}[op]())
        except (KeyError, ZeroDivisionError):
            pass
    if op == 'Add' and a.op == 'idx' and a.a[2] is not None and b.op == 'const' and b.a[0] == 1:
        return mk('ix1', a.a[0], a.a[2])
    if op in ('Add', 'Sub') and b.op == 'const':
        k = b.a[0] if op == 'Add' else -b.a[0]
        if a.op == 'bin' and a.a[0] == 'Add' and a.a[2].op == 'const':
            k += a.a[2].a[0]
            a = a.a[1]
        return a if k == 0 else mk('bin', 'Add', a, const(k))
    if op == 'Add' and a.op == 'const':
        return arith(op, b, a)
    if op in ('BitAnd', 'BitOr') and a.op in ('const', 'not', 'eq', 'lt', 'isvar') | ():
        pass
    return mk('bin', op, a, b)


DOMAINS = {'byte': frozenset(range(256)), 'chr': frozenset(range(129)), 'firstchar': frozenset(range(129))}


def dombase(t):
    while t.op == 'cast':
        t = t.a[1]
    if t.op in DOMAINS or t.op == 'old' and t.a[0].op in DOMAINS:
        return t
    return None


def domcmp(t):
    """(term, predicate) of a comparison of a finite domain term with a constant"""
    if t.op == 'pred':
        b = dombase(t.a[1])
        if b is not None:
            from .natives import CHARCLS
            return b, (lambda v: v in t.a[0]) if isinstance(t.a[0], tuple) else CHARCLS[t.a[0]]
    if t.op in ('eq', 'lt'):
        x, y = t.a
        if y.op == 'const':
            b = dombase(x)
            if b is not None:
                c = y.a[0]
                return b, (lambda v: v == c) if t.op == 'eq' else (lambda v: v < c)
        elif x.op == 'const':
            b = dombase(y)
            if b is not None:
                c = x.a[0]
                return b, (lambda v: v == c) if t.op == 'eq' else (lambda v: c < v)
    return None


class Interp:
    def __init__(self, facts, rule):
        self.defer = None       # not None: items are only looked at
        self.F = facts
        self.rule = rule
        rule.ip = self
        self.fids = {}
        self.fidinfo = [None]
        self.heads = {}
        self.seen = {}
        self.steps = 0
        self.budget = getattr(rule, 'budget', BUDGET)
        self.opaque_seen = {}
        self.inlined = set()
        self.binfo = {}
        self.paths = 0

    # ------------------------------------------------------------- bodies
    def info(self, body):
        i = body.get('_info')
        if i is None:
            i = body['_info'] = analyse_cfg(body)
        return i

    def find_body(self, cid, cur):
        if cid is None:
            return None
        if cur is not None and cur['crate'] == 'ginko-bin':
            b = self.F.bodies.get('bin!' + cid)
            if b:
                return b
        return self.F.bodies.get(cid)

    def subst_ty(self, fr, ty):
        if not fr.subst:
            return ty
        return re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, fr.subst)), lambda m: fr.subst[m.group(1)], ty)

    def resolve(self, fr, callee):
        """callee dict -> (path, body or None, type args)"""
        args = [self.subst_ty(fr, a) for a in callee.get('args', ())]
        cur = fr.body
        path, cid = callee['path'], callee['id']
        if 'trait' in callee:
            selfty = self.subst_ty(fr, callee.get('selfty', ''))
            if callee.get('rid'):
                b = self.find_body(callee['rid'], cur)
                if b is not None:
                    return path, None if callee['rid'] in self.F.derived and callee.get('method') != 'default' else b, args
            h = head(selfty)
            cands = [i for i in self.F.impls if i['trait'] == callee['trait'] and callee['method'] in i['methods']]
            hit = [i for i in cands if head(i['self']) == h]
            if len(hit) > 1:
                hit = [i for i in hit if self.impl_ok(i, callee, args)] or hit
            if not hit and re.fullmatch(r'[A-Z][A-Za-z0-9]?', h) and len({i['self'] for i in cands}) == 1 and \
                    callee['trait'].startswith('ginko'):
                hit = cands
            if len(hit) == 1 and not hit[0]['auto']:
                b = self.find_body(hit[0]['methods'][callee['method']], cur)
                if b is not None:
                    return path, b, args
            elif len(hit) == 1 and hit[0]['auto']:
                b = self.find_body(hit[0]['methods'][callee['method']], cur) if callee['method'] == 'default' else None
                return path, b, args
            impls = [i for i in self.F.impls if i['trait'] == callee['trait'] and head(i['self']) == h]
            if not impls and callee['trait'].startswith('ginko') and re.fullmatch(r'[A-Z][A-Za-z0-9]?|Self', h):
                pass
            b = self.find_body(cid, cur)  # provided (default) method
            return path, b, args
        return path, self.find_body(callee.get('rid') or cid, cur), args

    def impl_ok(self, i, callee, args):
        # From<X> for Y: choose the impl whose resolved id agrees with the argument type
        m = i['methods'].get(callee['method'])
        b = self.F.bodies.get(m)
        if b is None or len(args) < 2:
            return False
        argty = b['locals'][1] if b['argc'] else ''
        return head(argty) == head(args[1]) and ('&' in argty) == ('&' in args[1])

    # ------------------------------------------------------------- store
    def load(self, st, root, projs):
        v = st.store.get(root)
        if v is None:
            v = root[1] if root[0] == 'O' else mk('undef', root)
        for p in projs:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        if p[0] == '[]':
            return self.index(st, v, p[1])
        if v.op == 'addr':
            v = self.load(st, *v.a)
        return fld(v, p[0], p[1])

    def once(self, st):
        """the current instruction is in no loop of its function or its callers"""
        f, bb = st.frame, st.bb
        while f is not None:
            if bb in self.info(f.body)['loops']:
                return False
            bb, f = self.fidinfo[f.fid] and self.fidinfo[f.fid][2], f.up
        return True

    def index(self, st, v, i):
        if v.op == 'addr':
            v = self.load(st, *v.a)
        if v.op == 'agg' and i.op == 'const' and i.a[0] < len(v.a[4]) and i.a[0] >= 0:
            return v.a[4][i.a[0]]
        if i.op == 'idx' and i.a[0] is v:
            return i.a[1]
        return mk('elem', v, i)

    def store_at(self, st, root, projs, val):
        self.rule.on_write(st, root, projs, val)
        if not projs:
            st.store[root] = val
            return
        cur = st.store.get(root)
        if cur is None:
            cur = root[1] if root[0] == 'O' else mk('undef', root)
        st.store[root] = self.set_path(st, cur, projs, val)

    def set_path(self, st, cur, projs, val):
        p = projs[0]
        if p[0] == '[]':
            if cur.op == 'agg' and p[1].op == 'const' and 0 <= p[1].a[0] < len(cur.a[4]):
                vals = list(cur.a[4])
                vals[p[1].a[0]] = val if len(projs) == 1 else self.set_path(st, vals[p[1].a[0]], projs[1:], val)
                return mk('agg', *cur.a[:4], tuple(vals))
            if len(projs) > 1:
                val = mk('havoc', 'elem', 0)
            return seq_add(cur, val)
        if len(projs) == 1:
            return agg_set(cur, p[0], p[1], val)
        return agg_set(cur, p[0], p[1], self.set_path(st, fld(cur, p[0], p[1]), projs[1:], val))

    def lval(self, st, place):
        """place -> (root, projs)"""
        fr = st.frame
        root, projs = ('L', fr.fid, place[0]), ()
        var = ''
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = self.load(st, root, projs)
                if v.op == 'addr':
                    root, projs = v.a
                elif v.op == 'undef' or v.op == 'agg':
                    pass  # transparent (Box, or a reference to a known value)
                else:
                    if v.op == 'fld' or v.op == 'elem' or True:
                        root, projs = ('O', v), ()
            elif k == 'as':
                var = e[1]
                continue
            elif k == '.':
                projs = projs + ((e[1], var),)
            elif k == '[]':
                projs = projs + (('[]', self.load(st, ('L', fr.fid, e[1]), ())),)
            elif k == '[c]':
                projs = projs + (('[]', const(e[1]) if not e[2] else mk('fromend', e[1])),)
            elif k == '[..]':
                projs = projs + (('[]', mk('sub', e[1], e[2])),)
            var = ''
        return root, projs

    def read(self, st, place):
        v = st.store.get(('L', st.frame.fid, place[0]))
        if v is None:
            v = mk('undef', ('L', st.frame.fid, place[0]))
        var = ''
        for e in place[1]:
            k = e[0]
            if k == '*':
                if v.op == 'addr':
                    v = self.load(st, *v.a)
                else:
                    v = st.store.get(('O', v), v)
            elif k == 'as':
                var = e[1]
                continue
            elif k == '.':
                if v.op == 'addr':
                    v = self.load(st, *v.a)
                v = fld(v, e[1], var)
            elif k == '[]':
                v = self.index(st, v, self.load(st, ('L', st.frame.fid, e[1]), ()))
            elif k == '[c]':
                v = self.index(st, v, const(e[1])) if not e[2] else mk('elem', v, mk('fromend', e[1]))
            elif k == '[..]':
                v = mk('slice', v, e[1], e[2], bool(e[3]))
            var = ''
        return v

    def write(self, st, place, val):
        if not place[1]:
            st.store[('L', st.frame.fid, place[0])] = val
            return
        root, projs = self.lval(st, place)
        self.store_at(st, root, projs, val)

    def deref(self, st, v):
        return self.load(st, *v.a) if v.op == 'addr' else v

    # ------------------------------------------------------------- operands / rvalues
    def operand(self, st, o):
        k = o['k']
        if k == 'const':
            return self.konst(st, o)
        if k == 'rt':
            return TRUE if 'check' in o['dbg'].lower() else mk('opaque', o['dbg'])
        return self.read(st, o['p'])

    def konst(self, st, o):
        if 'v' in o:
            return const(o['v'])
        if 'str' in o:
            return strc(o['str'])
        if 'bytes' in o:
            return mk('bytes', tuple(o['bytes']))
        if 'fn' in o:
            f = o['fn']
            return mk('fn', f['path'], Hide(f, st.frame.subst))
        if 'closure' in o:
            return mk('agg', 'closure', self.closure_id(st, o['closure']), '', (), ())
        if 'promoted' in o or 'itemid' in o:
            b = self.find_body(o.get('promoted') or o['itemid'], st.frame.body)
            if b is not None:
                v = self.const_body(b)
                if v is not None:
                    return v
        if o['ty'] == '()':
            return UNIT
        m = re.fullmatch(r'(?:const )?([\w:<>]+)::(\w+)', o.get('dbg', ''))
        if 'adt' in o and m:
            a = self.F.adts.get(o['adt'])
            if a and a['kind'] == 'enum' and any(v['name'] == m.group(2) and not v['fields'] for v in a['variants']):
                return adt(o['adt'], m.group(2), (), ())
        if 'adt' in o:
            a = self.F.adts.get(o['adt'])
            if a and a['kind'] == 'struct' and not a['variants'][0]['fields']:
                return adt(o['adt'], a['variants'][0]['name'], (), ())
        return mk('kst', o.get('item') or o.get('dbg') or o['ty'])

    def closure_id(self, st, cid):
        return 'bin!' + cid if st.frame.body['crate'] == 'ginko-bin' and 'bin!' + cid in self.F.bodies else cid

    def const_body(self, b):
        """value of a promoted / const body: straight-line code"""
        if '_val' in b:
            return b['_val']
        b['_val'] = None
        vals = []

        class R(Rule):
            def on_ret(s, st, v):
                vals.append(v)
        try:
            ip = Interp(self.F, R())
            ip.budget = 3000
            ip.run(ip.start(b, []))
        except Budget:
            vals = []
        if len(vals) == 1:
            b['_val'] = vals[0]
        return b['_val']

    def rvalue(self, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, r['a'])
        if k == 'ref':
            if r['mut']:
                root, projs = self.lval(st, r['p'])
                return mk('addr', root, projs)
            return self.read(st, r['p'])
        if k == 'rawptr':
            root, projs = self.lval(st, r['p'])
            return mk('addr', root, projs)
        if k == 'agg':
            vals = tuple(self.operand(st, x) for x in r['ops'])
            ak = r['ak']
            if ak == 'adt':
                t = mk('agg', 'adt', r['adt'], r['variant'], tuple(r['fields']), vals)
                self.rule.on_agg(st, t)
                return t
            if ak in ('closure', 'coroutine'):
                return mk('agg', ak, self.closure_id(st, r['id']), '', tuple(r['fields']), vals)
            return mk('agg', ak, '', '', tuple(str(i) for i in range(len(vals))), vals)
        if k == 'bin':
            a, b = self.operand(st, r['a']), self.operand(st, r['b'])
            op = r['op']
            a, b = self.val(st, a), self.val(st, b)
            if op == 'Eq' or op == 'Ne':
                if r['ty'] == 'bool' and b.op == 'const':
                    e = a if b.a[0] else b_not(a)
                elif r['ty'] == 'bool' and a.op == 'const':
                    e = b if a.a[0] else b_not(b)
                else:
                    e = b_eq(a, b)
                return e if op == 'Eq' else b_not(e)
            if op == 'Lt':
                return b_lt(a, b)
            if op == 'Gt':
                return b_lt(b, a)
            if op == 'Ge':
                return b_not(b_lt(a, b))
            if op == 'Le':
                return b_not(b_lt(b, a))
            if op.endswith('WithOverflow'):
                o = op[:-len('WithOverflow')]
                v = arith(o, a, b)
                if v.op == 'const':
                    w = widen_int(r['ty'])
                    of = w is not None and w > 0 and not (0 <= v.a[0] < (1 << w))
                    return tup(v, TRUE if of else FALSE)
                if v.op == 'ix1':
                    return tup(v, FALSE)
                return tup(v, mk('ovf', o, a, b, r['ty']))
            if op.endswith('Unchecked'):
                op = op[:-len('Unchecked')]
            if r['ty'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
                if op == 'BitAnd':
                    if a is FALSE or b is FALSE:
                        return FALSE
                    if a is TRUE:
                        return b
                    if b is TRUE:
                        return a
                if op == 'BitOr':
                    if a is TRUE or b is TRUE:
                        return TRUE
                    if a is FALSE:
                        return b
                    if b is FALSE:
                        return a
                return mk('b' + op[3:].lower(), a, b)
            return arith(op, a, b)
        if k == 'un':
            a = self.operand(st, r['a'])
            if r['op'] == 'Not':
                return b_not(a)
            if r['op'] == 'PtrMetadata':
                return natives.length(self, st, a)
            return mk('un', r['op'], a)
        if k == 'discr':
            v = self.read(st, r['p'])
            return mk('discr', self.deref(st, v), r['adt'])
        if k == 'cast':
            ck = r['ck']
            if ck == 'BoxDerefTransmute':
                p = r['a']['p']
                return self.read(st, [p[0], p[1][:-1]])
            a = self.operand(st, r['a'])
            if ck.startswith('PointerCoercion') or ck.startswith('PtrToPtr') or ck == 'Subtype':
                return a
            w = widen_int(r['ty'])
            a2 = self.val(st, a)
            if ck == 'IntToInt' and a2.op == 'const' and w is not None:
                n = abs(w)
                x = a2.a[0] & ((1 << n) - 1)
                if w < 0 and x >> (n - 1):
                    x -= 1 << n
                return const(x)
            if ck == 'IntToInt' and (a2.op == 'discr'):
                return a2
            if ck == 'IntToInt':
                wf = widen_int(r['from']) or (8 if r['from'] == 'bool' else 32 if r['from'] == 'char' else None)
                if r['ty'] == 'char' or (w and wf and abs(w) >= abs(wf) and wf > 0):
                    return a
                return mk('cast', r['ty'], a)
            return a if ck == 'Transmute' else mk('cast', r['ty'], a)
        if k == 'repeat':
            return mk('repeat', self.operand(st, r['a']), r['n'])
        return mk('opaque', r.get('dbg', ''))

    def val(self, st, t):
        """replace t by its known constant, if the branch facts fix one"""
        f = st.facts.get(t if t.op != 'cast' else dombase(t) or t)
        if f and f[0] == '=' and not isinstance(f[1], str):
            return const(f[1])
        if f and f[0] == '=' and t.op not in ('variant',):
            return strc(f[1])
        return t

    # ------------------------------------------------------------- branching
    def remaining(self, st, b):
        """the values a term of a finite domain may still have"""
        f = st.facts.get(b)
        d = DOMAINS[b.a[0].op if b.op == 'old' else b.op]
        if f is None:
            return d
        return frozenset([f[1]]) if f[0] == '=' else d - f[1]

    def restrict(self, st, b, keep):
        """the value of b is in keep; False when that is impossible"""
        d = DOMAINS[b.a[0].op if b.op == 'old' else b.op]
        r = self.remaining(st, b) & keep
        if not r:
            return False
        if len(r) == 1:
            st.facts[b] = ('=', next(iter(r)))
        elif r != d:
            st.facts[b] = ('!', d - r)
        return True

    def truth(self, st, t):
        """True / False / None"""
        if t.op == 'const':
            return bool(t.a[0])
        dc = domcmp(t)
        if dc is not None:
            vals = {bool(dc[1](v)) for v in self.remaining(st, dc[0])}
            return vals.pop() if len(vals) == 1 else None
        if t.op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.op == 'eq':
            x, c = t.a
            x, c2 = self.val(st, x), self.val(st, c)
            if x.op in ('const', 'str') and c2.op in ('const', 'str'):
                return x is c2
            f = st.facts.get(x)
            if f and f[0] == '!' and c2.op in ('const', 'str') and c2.a[0] in f[1]:
                return False
            if (x, c2) != t.a:
                return self.truth(st, b_eq(x, c2)) if b_eq(x, c2) is not t else None
        if t.op == 'lt':
            x, y = self.val(st, t.a[0]), self.val(st, t.a[1])
            if x.op == 'const' and y.op == 'const':
                return x.a[0] < y.a[0]
            r = b_lt(x, y)
            if r.op == 'const':
                return bool(r.a[0])
        if t.op == 'isvar':
            v = st.variant(t.a[0])
            if v is not None:
                return v == t.a[1]
            f = st.facts.get(mk('variant', t.a[0]))
            if f and f[0] == '!' and t.a[1] in f[1]:
                return False
            return None
        if t.op == 'band':
            a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            return False if a is False or b is False else True if a and b else None
        if t.op == 'bor':
            a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
            return True if a or b else False if a is False and b is False else None
        f = st.facts.get(t)
        if f:
            if f[0] == '=':
                return bool(f[1])
            if f[0] == '!' and 0 in f[1]:
                return True
            if f[0] == '!' and 1 in f[1]:
                return False
        return None

    def set_fact(self, st, t, eq, v):
        """record t == v / t != v; False on contradiction"""
        if t.op == 'len' and isinstance(v, int) and (eq or v == 0) and not self.set_fact(st, mk('isempty', t.a[0]), True, int(eq and v == 0)):
            return False
        f = st.facts.get(t)
        if f:
            if f[0] == '=':
                return (f[1] == v) == eq
            if eq:
                if v in f[1]:
                    return False
                st.facts[t] = ('=', v)
            else:
                st.facts[t] = ('!', f[1] | {v})
        else:
            st.facts[t] = ('=', v) if eq else ('!', frozenset([v]))
        return self.consistent(st, t)

    def consistent(self, st, t):
        f = st.facts[t]
        if t.op == 'variant' and f[0] == '!':
            a = self.adt_of(t.a[0], st)
            if a:
                rest = [x for x in a if x not in f[1]]
                if not rest:
                    return False
                if len(rest) == 1:
                    st.facts[t] = ('=', rest[0])
        if f[0] == '=' and t.op != 'variant':
            # bounds known for t
            for k, g in list(st.facts.items()):
                if k.op == 'lt' and (k.a[0] is t or k.a[1] is t) and g[0] == '=':
                    r = self.truth_lt(st, k)
                    if r is not None and r != bool(g[1]):
                        return False
        return True

    def truth_lt(self, st, k):
        x, y = self.val(st, k.a[0]), self.val(st, k.a[1])
        return x.a[0] < y.a[0] if x.op == 'const' and y.op == 'const' else None

    def adt_of(self, t, st):
        a = self.vadt.get(t)
        return a

    vadt = {}

    def assume(self, st, t, want):
        """assume bool term t == want on state st (mutates); False when contradictory"""
        r = self.truth(st, t)
        if r is not None:
            return r == want
        dc = domcmp(t)
        if dc is not None:
            return self.restrict(st, dc[0], frozenset(v for v in self.remaining(st, dc[0]) if bool(dc[1](v)) == want))
        if t.op == 'not':
            return self.assume(st, t.a[0], not want)
        if t.op == 'eq' and t.a[1].op in ('const', 'str'):
            return self.set_fact(st, t.a[0], want, t.a[1].a[0])
        if t.op == 'isvar':
            return self.set_fact(st, mk('variant', t.a[0]), want, t.a[1])
        if t.op == 'band' and want:
            return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
        if t.op == 'bor' and not want:
            return self.assume(st, t.a[0], False) and self.assume(st, t.a[1], False)
        return self.set_fact(st, t, True, 1 if want else 0)

    def variants(self, name):
        a = self.F.adts.get(name)
        return [(v['name'], v['discr']) for v in a['variants']] if a else None

    def fork_variant(self, st, t, adtname, wanted=None):
        """list of (state, variantname) for value t"""
        t = self.deref(st, t)
        v = st.variant(t)
        if v is not None:
            return [(st, v)]
        vs = [n for n, _ in self.variants(adtname) or ()]
        key = mk('variant', t)
        self.vadt[t] = vs
        out = []
        for n in vs:
            s2 = st.copy()
            if self.set_fact(s2, key, True, n):
                out.append((s2, n))
        return out

    def switch(self, st, term):
        t = self.operand(st, term['d'])
        o = term['o']
        tgts = term['ts']
        while True:
            if t.op == 'cast' and t.a[1].op == 'discr':
                t = t.a[1]
                continue
            break
        if t.op == 'discr':
            base, adtname = t.a
            vs = self.variants(adtname) if adtname else None
            if vs:
                self.vadt[base] = [n for n, _ in vs]
                byd = {d: n for n, d in vs}
                v = st.variant(base)
                if v is not None:
                    d = next((d for n, d in vs if n == v), None)
                    if d is not None:
                        tg = next((b for x, b in tgts if x == d), o)
                        return [self.goto(st, tg, base, v)]
                out = []
                key = mk('variant', base)
                groups = {}
                named = set()
                for x, b in tgts:
                    groups.setdefault(b, []).append(byd.get(x))
                    named.add(byd.get(x))
                rest = [n for n, _ in vs if n not in named]
                if rest:
                    groups.setdefault(o, []).extend(rest)
                f = st.facts.get(key)
                for b, ns in groups.items():
                    ns = [n for n in ns if n is not None and not (f and f[0] == '!' and n in f[1])]
                    if not ns:
                        continue
                    # partition by variant only as far as the code distinguishes it
                    split = [[n] for n in ns] if len(ns) <= 1 or self.rule.split_variants(base, adtname) else [ns]
                    for grp in split:
                        s2 = st.copy()
                        if len(grp) == 1:
                            okk = self.set_fact(s2, key, True, grp[0])
                        else:
                            okk = True
                            for n, _ in vs:
                                if n not in grp:
                                    okk = okk and self.set_fact(s2, key, False, n)
                        if okk:
                            out.append(self.goto(s2, b, base, grp[0] if len(grp) == 1 else tuple(grp)))
                return out
        t = self.val(st, t)
        if t.op == 'const':
            tg = next((b for x, b in tgts if x == t.a[0]), o)
            return [self.goto(st, tg, None, None)]
        out = []
        if term['ty'] == 'bool':
            cur = find_cursor(t)
            if cur is not None and self.truth(st, t) is None:
                bb = st.bb
                for s2, _ in self.cursor(st, *cur):
                    out.extend(self.switch(s2, term))
                return out
            for want in (False, True):
                s2 = st.copy()
                if self.assume(s2, t, want):
                    tg = next((b for x, b in tgts if bool(x) == want), o)
                    out.append(self.goto(s2, tg, t, want))
            return out
        d = dombase(t)
        if d is not None:
            vals = self.remaining(st, d)
            groups = {}
            for x, b in tgts:
                if x in vals:
                    groups.setdefault(b, set()).add(x)
            named = set().union(*groups.values()) if groups else set()
            for b, vs in groups.items():
                s2 = st.copy()
                if self.restrict(s2, d, frozenset(vs)):
                    out.append(self.goto(s2, b, None, None))
            s3 = st.copy()
            if self.restrict(s3, d, frozenset(vals - named)):
                out.append(self.goto(s3, o, None, None))
            return out
        f = st.facts.get(t)
        rem = True
        s3 = st.copy()
        for x, b in tgts:
            s2 = st.copy()
            if self.set_fact(s2, t, True, x):
                out.append(self.goto(s2, b, t, x))
            rem = rem and self.set_fact(s3, t, False, x)
        if rem:
            out.append(self.goto(s3, o, t, None))
        return out

    def cursor(self, st, cur, coll):
        """an index is compared with the length of coll: next element / end. [(state, element or None)]"""
        from . import natives
        first = cur.op == 'ix0'
        hk = cur.a[0] if first else cur.a[1]
        out = []
        for s, o in natives.items_of(self, st, coll, const(0) if first else const(1)):
            x = o
            if x is None:
                self.rename(s, {cur: mk('len', coll)})
            else:
                self.rename(s, {cur: mk('idx', coll, x, hk)})
            r = self.rule.on_item(s, coll, '', x, first)
            out.extend([(s, x)] if r is None else [(s2, x) for s2 in r])
        return out

    def goto(self, st, bb, term, outcome):
        src = st.bb
        st.bb = bb
        if term is not None:
            self.rule.on_branch(st, term, outcome)
            st.trace = (st.trace, (st.frame.body['id'], src))
        return st

    # ------------------------------------------------------------- running
    def start(self, body, args, facts=None, mon=None, subst=None):
        fid = self.fid(0, body['id'], -1)
        fr = Frame(fid, body, None, None, None, subst or self.default_subst(body), None)
        store = {}
        for i, a in enumerate(args):
            store[('L', fid, i + 1)] = a
        return State(fr, 0, store, dict(facts or {}), mon, None)

    def default_subst(self, body):
        d = {}
        for g in body.get('generics', ()):
            if g == 'R':
                d[g] = 'ginko::dts::reader::ByteReader'
        return d

    def root_args(self, body, names=None):
        """opaque arguments: &mut parameters become addresses of opaque roots"""
        out = []
        vs = {p[0]: n for n, p in body['vars'] if not p[1]}
        for i in range(1, body['argc'] + 1):
            n = mk('arg', (names or {}).get(i) or vs.get(i) or ('arg%d' % i))
            ty = body['locals'][i]
            out.append(mk('addr', ('O', n), ()) if re.match(r"^&('\w+ )?mut ", ty) else n)
        return out

    def fid(self, parent, bid, bb):
        k = (parent, bid, bb)
        f = self.fids.get(k)
        if f is None:
            f = self.fids[k] = len(self.fidinfo)
            self.fidinfo.append(k)
        return f

    def run(self, *starts):
        work = list(starts)
        for s in work:
            pass
        while work:
            st = work.pop()
            st = self.enter(st)
            if st is None:
                continue
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('budget of %d block visits exceeded in %s' % (self.budget, st.frame.body['id']))
            work.extend(reversed(self.block(st)))

    def enter(self, st):
        body = st.frame.body
        info = self.info(body)
        if st.bb in info['heads']:
            return self.at_head(st, info)
        if info['preds'][st.bb] > 1:
            self.clean(st)
            key = (id_frames(st.frame), st.bb, st.mon, frozenset(st.store.items()), frozenset(st.facts.items()))
            if key in self.seen:
                return None
            self.seen[key] = True
        return st

    def clean(self, st):
        """drop dead locals and facts about unreachable terms"""
        dead = []
        fr = st.frame
        live = {}
        f, bb = fr, st.bb
        while f is not None:
            live[f.fid] = (self.info(f.body)['live'][bb], f)
            bb = f.target
            f = f.up
            while f is not None and bb is None:
                break
            if f is None:
                break
        for r in st.store:
            if r[0] == 'L':
                l = live.get(r[1])
                if l is not None and r[2] not in l[0]:
                    dead.append(r)
        for r in dead:
            del st.store[r]
        self.gc_facts(st)

    def gc_facts(self, st):
        if not st.facts:
            return
        reach = set()
        for v in st.store.values():
            reach |= subs(v)
        for r in st.store:
            if r[0] == 'O':
                reach |= subs(r[1])
        extra = self.rule.keep_terms(st)
        for t in extra:
            reach |= subs(t)
        memo = {}

        def ok(t):
            r = memo.get(t)
            if r is None:
                if t in reach or t.op in ('const', 'str') or argrooted(t):
                    r = True
                else:
                    ks = list(kids(t))
                    r = bool(ks) and all(ok(k) for k in ks)
                memo[t] = r
            return r
        for t in list(st.facts):
            if not ok(t.a[0] if t.op == 'variant' else t) and not self.rule.sticky(t):
                del st.facts[t]

    def at_head(self, st, info):
        self.clean(st)
        self.rule.on_head(st)
        fr = st.frame
        argf = frozenset((k, v) for k, v in st.facts.items()
                         if argrooted(k.a[0] if k.op == 'variant' else k) or self.rule.sticky(k))
        key = (id_frames(fr), st.bb, st.mon, frozenset(st.store), argf)
        ents = self.heads.setdefault(key, [])
        hk = (fr.fid, st.bb)
        for l in cursors(fr.body, info, st.bb):
            r = ('L', fr.fid, l)
            v = st.store.get(r)
            if v is not None and v.op == 'const' and v.a[0] == 0:
                st.store[r] = mk('ix0', hk)
            elif v is not None and v.op == 'ix1' and v.a[1] == hk:
                st.store[r] = mk('ix2', v.a[0], hk)
        # previous iteration's phis
        ren = {}
        up = []
        for r, v in list(st.store.items()):
            p = mk('phi', hk, r)
            if v.op == 'bin' and v.a[2].op == 'len':
                v = st.store[r] = sum_norm(v, st.facts)
            if v is not p:
                ren[p] = mk('old', p)
                if (v.op == 'bin' and (st.facts.get(p) == NONZERO or v.a[2].op == 'len') or v.op == 'len' and r[0] == 'L' and r[2] in sums(fr.body)) and positive(v, st.facts):
                    up.append((r, p))
        if ren:
            self.age(st, ren)
        for r, p in up:
            # a positive counter that went up: again some positive number
            st.store[r] = p
            st.facts[p] = NONZERO
        for E in ents:
            if self.covers(E, st, hk):
                return None
        sig = tuple((r, shape(v)) for r, v in sorted(st.store.items(), key=rk))
        cand = None
        for E in reversed(ents):
            if E.trace == sig:
                cand = E
                break
        if cand is None and len(ents) > 30:
            cand = ents[-1]
        if cand is not None:
            W = st.copy()
            for r, v in st.store.items():
                e = cand.store[r]
                if e is v:
                    continue
                W.store[r] = self.widen(e, v, mk('phi', hk, r))
            W.facts = {k: v for k, v in st.facts.items() if cand.facts.get(k) == v}
            for k in st.facts:
                # finite domains: the union of the values
                if k in cand.facts and k not in W.facts and dombase(k) is k:
                    self.restrict(W, k, self.remaining(st, k) | self.remaining(cand, k))
            # a counter that only goes up from a positive value stays positive
            for r, v in st.store.items():
                p = mk('phi', hk, r)
                e = cand.store[r]
                if W.store[r] is p and v is not e and positive(v, st.facts) and positive(e, cand.facts):
                    W.facts[p] = NONZERO
            self.gc_facts(W)
            for E in ents:
                if self.covers(E, W, hk):
                    return None
            st = W
            sig = tuple((r, shape(v)) for r, v in sorted(st.store.items(), key=rk))
        ents.append(State(None, st.bb, dict(st.store), dict(st.facts), None, sig))
        return st

    def widen(self, e, v, phi):
        if e.op == 'seq' and v.op == 'seq' and e.a[0] is v.a[0]:
            return mk('seq', e.a[0], e.a[1] | v.a[1], e.a[2] and v.a[2])
        if e.op == 'utf8' and v.op == 'utf8':
            return mk('utf8', self.widen(e.a[0], v.a[0], phi))
        if v.op == 'seq' and v.a[0] is e:
            return mk('seq', e, v.a[1], False)
        if e.op == 'agg' and v.op == 'agg' and e.a[:4] == v.a[:4]:
            return mk('agg', *e.a[:4], tuple(x if x is y else self.widen(x, y, mk('phi', phi.a[0], (phi.a[1], i)))
                                              for i, (x, y) in enumerate(zip(e.a[4], v.a[4]))))
        if e.op == 'call' and v.op == 'call' and e.a[0] == v.a[0] and e.a[2] == v.a[2] and len(e.a[1]) == len(v.a[1]):
            return mk('call', e.a[0], tuple(x if x is y else self.widen(x, y, mk('phi', phi.a[0], (phi.a[1], i)))
                                            for i, (x, y) in enumerate(zip(e.a[1], v.a[1]))), e.a[2])
        if e.op == 'fld' and v.op == 'fld' and e.a[1:] == v.a[1:] and e.a[0].op == v.a[0].op == 'call' and e.a[0].a[0] == v.a[0].a[0]:
            return mk('fld', self.widen(e.a[0], v.a[0], phi), *e.a[1:])
        if e.op == 'mut' and v.op == 'mut' and len(e.a) == len(v.a) == 1:
            return mk('mut', self.widen(e.a[0], v.a[0], phi))
        if e.op == 'upd' and v.op == 'upd' and e.a[0] is v.a[0]:
            de, dv = dict(e.a[1]), dict(v.a[1])
            out = {}
            for k in set(de) | set(dv):
                x, y = de.get(k), dv.get(k)
                if x is y:
                    out[k] = x
                elif x is None or y is None:
                    out[k] = mk('phi', phi.a[0], (phi.a[1], k))
                else:
                    out[k] = self.widen(x, y, mk('phi', phi.a[0], (phi.a[1], k)))
            return mk('upd', e.a[0], tuple(sorted(out.items())))
        if v.op == 'upd' and v.a[0] is e or e.op == 'upd' and e.a[0] is v:
            b = e if v.op == 'upd' else v
            u = v if v.op == 'upd' else e
            return mk('upd', b, tuple((k, mk('phi', phi.a[0], (phi.a[1], k))) for k, _ in u.a[1]))
        return phi

    def covers(self, E, S, hk):
        for r, v in S.store.items():
            e = E.store.get(r)
            if e is v or e is None:
                continue
            if not self.cov(e, v, hk):
                return False
        for k, f in E.facts.items():
            if S.facts.get(k) != f:
                g = S.facts.get(k)
                if f == NONZERO and k.op == 'phi' and k.a[0] == hk and E.store.get(k.a[1]) is k and \
                        positive(S.store.get(k.a[1], k), S.facts):
                    continue
                if not (g and f[0] == '!' and (g[0] == '!' and f[1] <= g[1] or g[0] == '=' and g[1] not in f[1])):
                    return False
        return True

    def cov(self, e, v, hk):
        if e is v:
            return True
        if e.op == 'phi' and e.a[0] == hk:
            return True
        if e.op == 'seq' and v.op == 'seq' and e.a[0] is v.a[0]:
            return v.a[1] <= e.a[1] and (v.a[2] or not e.a[2])
        if e.op == 'utf8' and v.op == 'utf8':
            return self.cov(e.a[0], v.a[0], hk)
        if e.op == 'agg' and v.op == 'agg' and e.a[:4] == v.a[:4]:
            return all(self.cov(x, y, hk) for x, y in zip(e.a[4], v.a[4]))
        if e.op == 'call' and v.op == 'call' and e.a[0] == v.a[0] and e.a[2] == v.a[2] and len(e.a[1]) == len(v.a[1]):
            return all(self.cov(x, y, hk) for x, y in zip(e.a[1], v.a[1]))
        if e.op == 'fld' and v.op == 'fld' and e.a[1:] == v.a[1:]:
            return self.cov(e.a[0], v.a[0], hk)
        if e.op == 'mut' and v.op == 'mut' and len(e.a) == len(v.a) == 1:
            return self.cov(e.a[0], v.a[0], hk)
        if e.op == 'upd':
            if v.op == 'upd' and e.a[0] is v.a[0]:
                de, dv = dict(e.a[1]), dict(v.a[1])
                return all((k in de and (k in dv and self.cov(de[k], dv[k], hk) or
                                         k not in dv and de[k].op == 'phi' and de[k].a[0] == hk)) for k in set(de) | set(dv))
            if e.a[0] is v:
                return all(x.op == 'phi' and x.a[0] == hk for _, x in e.a[1])
        return False

    def rename(self, st, m):
        memo = {}
        ks = m.keys()
        for r, v in list(st.store.items()):
            if subs(v) & ks:
                st.store[r] = norm_old(rename(v, m, memo))
        for t in list(st.facts):
            if subs(t) & ks:
                f = st.facts.pop(t)
                st.facts[norm_old(rename(t, m, memo))] = f
        for r in list(st.store):
            if r[0] == 'O' and subs(r[1]) & ks:
                v = st.store.pop(r)
                st.store[('O', norm_old(rename(r[1], m, memo)))] = v
        st.mon = self.rule.rename_mon(st.mon, lambda t: norm_old(rename(t, m, memo)))

    def fresh(self, st, t):
        """t denotes a new dynamic instance: older instances in st are renamed"""
        if any(t in subs(v) for v in st.store.values()) or any(t in subs(f) for f in st.facts):
            self.age(st, {t: mk('old', t)})
        else:
            st.mon = self.rule.rename_mon(st.mon, lambda x: norm_old(rename(x, {t: mk('old', t)}, {})))
        return t

    def age(self, st, m):
        """rename instances to old(...); what is known about older olds no longer identifies one instance"""
        olds = set(m.values())
        weak = set()
        for v in st.store.values():
            weak |= olds & subs(v)
        for f in list(st.facts):
            weak |= olds & subs(f)
        for f in list(st.facts):
            if weak & subs(f):
                del st.facts[f]
        self.rename(st, m)
        if weak:
            for f in list(st.facts):
                if weak & subs(f):
                    del st.facts[f]

    def block(self, st):
        body = st.frame.body
        bb = body['bbs'][st.bb]
        for s in bb['s']:
            if s[0] == '=':
                self.cur = (body, s[3])
                self.write(st, s[1], self.rvalue(st, s[2]))
            elif s[0] == 'dead':
                st.store.pop(('L', st.frame.fid, s[1]), None)
            elif s[0] == 'setdiscr':
                root, projs = self.lval(st, s[1])
                self.store_at(st, root, projs, mk('opaque', 'setdiscr'))
        t = bb['t']
        k = t['k']
        self.cur = (body, bb['sp'])
        if k == 'goto':
            return [self.jump(st, t['t'])]
        if k == 'switch':
            return self.switch(st, t)
        if k == 'call':
            return self.call(st, t, bb)
        if k == 'ret':
            return self.ret(st)
        if k == 'drop':
            if t['needs']:
                self.rule.on_drop(st, self.read(st, t['p']), t['ty'], bb)
            return [self.jump(st, t['t'])]
        if k == 'assert':
            c = self.operand(st, t['c'])
            self.rule.on_assert(st, t, c)
            r = self.truth(st, c)
            if r is not None and r != t['e']:
                self.rule.on_diverge(st, 'assert:' + t['m'], [], bb)
                return []
            if c.op not in ('ovf', 'not') and r is None:
                self.assume(st, c, t['e'])
            return [self.jump(st, t['t'])]
        if k == 'yield':
            self.rule.on_yield(st, bb)
            return [self.jump(st, t['t'])]
        return []

    def jump(self, st, bb):
        src = st.bb
        st.bb = bb
        if bb in self.info(st.frame.body)['heads'] and (src, bb) in self.info(st.frame.body)['back']:
            self.rule.on_backedge(st, st.frame.body, bb)
        return st

    def ret(self, st):
        fr = st.frame
        v = st.store.get(('L', fr.fid, 0), UNIT)
        if fr.wrap:
            v = fr.wrap(v)
        if fr.up is None:
            self.paths += 1
            self.rule.on_ret(st, v)
            return []
        self.rule.on_leave(st, fr, v)
        for r in [r for r in st.store if r[0] == 'L' and r[1] == fr.fid]:
            del st.store[r]
        st.frame = fr.up
        src_bb = self.fidinfo[fr.fid][2]
        st.bb = src_bb
        self.write(st, fr.dest, v)
        self.gc_facts(st)
        return [self.jump(st, fr.target)] if fr.target is not None else []

    # ------------------------------------------------------------- calls
    def in_stack(self, fr, bid):
        while fr is not None:
            if fr.body['id'] == bid:
                return True
            fr = fr.up
        return False

    def call(self, st, t, bb):
        f = t['f']
        if 'fn' in f:
            callee, sub = f['fn'], st.frame.subst
        else:
            v = self.deref(st, self.operand(st, f))
            if v.op == 'fn':
                callee, sub = v.a[1].v, v.a[1].subst
            else:
                callee, sub = None, None
        args = [self.operand(st, a) for a in t['args']]
        if callee is None:
            ev = Ev('<indirect>', '<indirect>', args, st, t, bb, None, None, ())
            return self.finish_opaque(st, ev)
        return self.do_call(st, callee, args, t['d'], t['t'], t, bb, None, sub)

    def do_call(self, st, callee, args, dest, target, t, bb, wrap=None, sub=None):
        fr = st.frame
        if sub is not None and sub is not fr.subst:
            fr2 = Frame(fr.fid, fr.body, fr.up, fr.dest, fr.target, sub, None)
        else:
            fr2 = fr
        path, body, targs = self.resolve(fr2, callee)
        p = norm(path)
        if callee.get('ctor'):
            a = self.F.adts.get(callee['adt'])
            fs = ()
            if a:
                for v in a['variants']:
                    if v['name'] == callee['variant']:
                        fs = tuple(x['name'] for x in v['fields'])
            val = mk('agg', 'adt', callee['adt'], callee['variant'], fs or tuple(str(i) for i in range(len(args))), tuple(args))
            self.rule.on_agg(st, val)
            self.write(st, dest, wrap(val) if wrap else val)
            return [self.jump(st, target)]
        ev = Ev(p, path, args, st, t, bb, callee, body, targs)
        ev.dest, ev.target, ev.wrap = dest, target, wrap
        if not p.startswith('ginko'):
            self.rule.on_std(st, ev)
        r = self.rule.on_call(st, ev)
        if r is not None:
            return self.finish(st, ev, r)
        if target is None and not p.startswith('ginko'):
            self.rule.on_diverge(st, p, args, bb)
            return []
        r = natives.dispatch(self, st, ev)
        if r is not None:
            return self.finish(st, ev, r)
        if body is not None and not self.rule.opaque(p, body):
            if self.in_stack(fr, body['id']):
                r = self.rule.on_recursion(st, ev)
                if r is not None:
                    return self.finish(st, ev, r)
            elif fr.depth < 40:
                return self.inline(st, ev, body, args)
        return self.finish_opaque(st, ev)

    def finish(self, st, ev, r):
        """r: a term, a list of (state, term) or a list of states"""
        out = []
        if isinstance(r, T):
            r = [(st, r)]
        for x in r:
            if isinstance(x, State):
                out.append(x)
                continue
            s2, v = x
            if v is None:
                continue
            if ev.target is None:
                continue
            self.write(s2, ev.dest, ev.wrap(v) if ev.wrap else v)
            out.append(self.jump(s2, ev.target))
        return out

    def inline(self, st, ev, body, args, wrap=None, spread=None):
        fr = st.frame
        self.inlined.add(body['id'])
        fid = self.fid(fr.fid, body['id'], st.bb)
        subst = {}
        for g, a in zip(body.get('generics', ()), ev.targs or ()):
            subst[g] = a
        if body['kind'] in ('closure', 'coroutine'):
            subst = fr.subst
        elif 'trait' in (ev.callee or {}) and ev.callee.get('selfty') is not None and 'intrait' in body:
            subst['Self'] = self.subst_ty(fr, ev.callee['selfty'])
        nf = Frame(fid, body, fr, ev.dest, ev.target, subst, wrap or ev.wrap)
        for r in [r for r in st.store if r[0] == 'L' and r[1] == fid]:
            del st.store[r]
        for i, a in enumerate(args):
            st.store[('L', fid, i + 1)] = a
        st.frame = nf
        self.rule.on_enter(st, ev, body, args)
        st.bb = 0
        return [st]

    def call_value(self, st, ev, f, args, wrap=None):
        """call of a callable value f"""
        f0 = f
        f = self.deref(st, f)
        if f.op == 'agg' and f.a[0] == 'closure':
            body = self.find_body(f.a[1], st.frame.body) or self.F.bodies.get(f.a[1])
            if body is not None and not self.in_stack(st.frame, body['id']):
                # a closure sees the type parameters of the function that created it
                return self.inline(st, ev, body, [f0 if f0.op == 'addr' else f] + list(args), wrap)
        if f.op == 'fn':
            c = f.a[1]
            if wrap is None:
                wrap = ev.wrap
            return self.do_call(st, c.v, list(args), ev.dest, ev.target, ev.t, ev.bb, wrap, c.subst)
        ev2 = Ev('<call>', '<call>', [f] + list(args), st, ev.t, ev.bb, None, None, ())
        ev2.dest, ev2.target, ev2.wrap = ev.dest, ev.target, wrap or ev.wrap
        r = self.rule.on_call(st, ev2)
        if r is not None:
            return self.finish(st, ev2, r)
        return self.finish_opaque(st, ev2)

    def finish_opaque(self, st, ev):
        if not hasattr(ev, 'dest'):
            ev.dest, ev.target, ev.wrap = ev.t['d'], ev.t['t'], None
        p = ev.path
        self.opaque_seen[p] = self.opaque_seen.get(p, 0) + 1
        v = self.opaque_value(st, ev)
        if ev.target is None:
            self.rule.on_diverge(st, p, ev.args, ev.bb)
            return []
        return self.finish(st, ev, v)

    def opaque_value(self, st, ev):
        addrs = [a for a in ev.args if a.op == 'addr']
        vals = tuple(self.freeze(st, a) for a in ev.args)
        for a in ev.args:
            if a.op == 'agg' and a.a[0] == 'closure':
                addrs += [x for x in a.a[4] if x.op == 'addr']
        if addrs or ev.path in natives.IMPURE:
            site = (st.frame.fid, st.bb)
            v = self.fresh(st, mk('call', ev.path, vals, site))
            for i, a in enumerate(addrs):
                h = self.fresh(st, mk('havoc', site, i))
                root, projs = a.a
                self.store_at(st, root, projs, h)
            return v
        return mk('call', ev.path, vals, None)

    def freeze(self, st, a):
        return mk('mut', self.load(st, *a.a)) if a.op == 'addr' else a

    # ------------------------------------------------------------- reporting
    def where(self):
        b, sp = self.cur
        return '%s:%d' % (sp[2] if len(sp) > 2 else b['file'], sp[0])


class Hide:
    """wraps unhashable data for use in terms"""
    _c = {}

    def __new__(cls, v, subst):
        k = (v['id'], tuple(v.get('args', ())), tuple(sorted(subst.items())) if subst else ())
        h = cls._c.get(k)
        if h is None:
            h = object.__new__(cls)
            h.v, h.subst = v, subst
            cls._c[k] = h
        return h


class Ev:
    def __init__(s, path, raw, args, st, t, bb, callee, body, targs):
        s.path, s.raw, s.args, s.t, s.bb, s.callee, s.body, s.targs = path, raw, args, t, bb, callee, body, targs
        s.name = path.split('::')[-1]
        s.line = bb['sp'][0] if bb else 0


def rk(kv):
    r = kv[0]
    return (r[0], r[1] if isinstance(r[1], int) else r[1].id, r[2] if len(r) > 2 else 0)


def id_frames(fr):
    return fr.fid


def argrooted(t):
    while t.op in ('fld', 'elem', 'variant', 'discr', 'not', 'len', 'isempty'):
        if t.op == 'elem' and not argrooted(t.a[1]):
            return False
        t = t.a[0]
    if t.op in ('arg', 'sym', 'const', 'str'):
        return True
    if t.op == 'call' and t.a[2] is None and t.a[1]:
        return all(argrooted(x) for x in t.a[1])
    if t.op in ('eq', 'lt', 'isvar'):
        return all(argrooted(x) for x in t.a if isinstance(x, T))
    return False


_no = {}


def norm_old(t):
    """old(old(x)) = old(x)"""
    r = _no.get(t)
    if r is None:
        r = t
        if any(s.op == 'old' and s.a[0].op == 'old' for s in subs(t)):
            r = map_kids(t, norm_old)
            if r.op == 'old' and r.a[0].op == 'old':
                r = r.a[0]
        _no[t] = r
    return r


_shape = {}


def shape(t, d=2):
    k = (t, d)
    r = _shape.get(k)
    if r is None:
        if t.op == 'const':
            r = t.a[0] if -4 < t.a[0] < 4 else 'c'
        elif t.op == 'agg':
            e = d if t.a[0] == 'ad' else d - 1
            r = (t.a[1], t.a[2]) + (tuple(shape(x, e) for x in t.a[4]) if d else ())
        elif t.op == 'upd':
            r = ('upd',) + tuple((k2, shape(v, d - 1)) for k2, v in t.a[1]) if d else 'upd'
        elif t.op == 'seq':
            r = ('seq', t.a[2])
        elif t.op == 'call' and d:
            r = ('call', t.a[0]) + tuple(shape(x, d - 1) for x in t.a[1])
        else:
            r = '*'
        _shape[k] = r
    return r


def seq_add(cur, v):
    if cur.op == 'seq':
        return mk('seq', cur.a[0], cur.a[1] | {v}, True)
    if cur.op == 'agg' and cur.a[0] == 'array':
        return mk('seq', None, frozenset(cur.a[4]) | {v}, True)
    return mk('seq', cur, frozenset([v]), True)


# --------------------------------------------------------------------- CFG info
def succs(t):
    k = t['k']
    if k == 'switch':
        return [b for _, b in t['ts']] + [t['o']]
    if k in ('ret', 'unreachable', 'resume', 'codrop', 'other'):
        return []
    return [t['t']] if t['t'] is not None else []


def place_uses(p, s):
    s.add(p[0])
    for e in p[1]:
        if e[0] == '[]':
            s.add(e[1])


def op_uses(o, s):
    if o['k'] in ('copy', 'move'):
        place_uses(o['p'], s)


def rv_uses(r, s):
    k = r['k']
    if k in ('use', 'repeat', 'cast', 'un'):
        op_uses(r['a'], s)
    elif k in ('ref', 'rawptr', 'discr'):
        place_uses(r['p'], s)
    elif k == 'bin':
        op_uses(r['a'], s)
        op_uses(r['b'], s)
    elif k == 'agg':
        for o in r['ops']:
            op_uses(o, s)


def find_cursor(t, d=3):
    """comparison of a loop index with the length of a collection"""
    if t.op in ('lt', 'eq'):
        a, b = t.a
        for x, y in ((a, b), (b, a)):
            if x.op == 'ix0' and y.op == 'len' or x.op == 'ix2' and y.op == 'len' and x.a[0] is y.a[0]:
                return x, y.a[0]
        return None
    if d and t.op in ('not', 'band', 'bor'):
        for k in t.a:
            r = find_cursor(k, d - 1)
            if r:
                return r
    return None


def cursors(body, info, head):
    """locals that walk over indices in the loop of this head: compared (or used to get) and incremented by one in it"""
    memo = info.setdefault('cursors', {})
    if head in memo:
        return memo[head]
    # natural loop
    pred = {}
    for b, ss in enumerate(info['succ']):
        for x in ss:
            pred.setdefault(x, set()).add(b)
    loop = {head}
    work = [b for b, h in info['back'] if h == head]
    while work:
        b = work.pop()
        if b not in loop:
            loop.add(b)
            work.extend(pred.get(b, ()))
    copies, incs, cmps = {}, set(), set()

    def loc(o):
        if 'p' in o and not o['p'][1]:
            return copies.get(o['p'][0], o['p'][0])
        return None
    bbs = body['bbs']
    order = sorted(loop)
    for _ in range(2):
        for b in order:
            for s in bbs[b]['s']:
                if s[0] != '=' or s[1][1]:
                    continue
                rv = s[2]
                if rv['k'] == 'use' and loc(rv['a']) is not None:
                    copies[s[1][0]] = loc(rv['a'])
                elif rv['k'] == 'bin' and rv['op'].startswith('Add'):
                    if loc(rv['a']) is not None:
                        incs.add(loc(rv['a']))
                elif rv['k'] == 'bin' and rv['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                    for o in (rv['a'], rv['b']):
                        if loc(o) is not None:
                            cmps.add(loc(o))
            t = bbs[b]['t']
            if t['k'] == 'call':
                for a in t['args']:
                    if loc(a) is not None:
                        cmps.add(loc(a))
    memo[head] = sorted(l for l in incs & cmps if body['locals'][l] == 'usize')
    return memo[head]


def analyse_cfg(body):
    bbs = body['bbs']
    n = len(bbs)
    succ = [succs(b['t']) for b in bbs]
    heads, back = set(), set()
    color = {}
    # iterative DFS for back edges
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    order = []
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in color:
                color[x] = 1
                stack.append((x, iter(succ[x])))
                break
            if color[x] == 1:
                heads.add(x)
                back.add((b, x))
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    preds = [0] * n
    for b in color:
        for x in set(succ[b]):
            preds[x] += 1
    addr = set()
    use, deff = [], []
    for b in bbs:
        u, d = set(), set()
        for s in b['s']:
            if s[0] == '=':
                us = set()
                rv_uses(s[2], us)
                if s[1][1]:
                    place_uses(s[1], us)
                if s[2]['k'] in ('ref', 'rawptr') and (s[2]['k'] == 'rawptr' or s[2]['mut']) and \
                        not any(e[0] == '*' for e in s[2]['p'][1]):
                    addr.add(s[2]['p'][0])
                u |= us - d
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == 'setdiscr':
                us = set()
                place_uses(s[1], us)
                u |= us - d
        t = b['t']
        us = set()
        k = t['k']
        if k == 'switch':
            op_uses(t['d'], us)
        elif k == 'call':
            op_uses(t['f'], us)
            for a in t['args']:
                op_uses(a, us)
            if t['d'][1]:
                place_uses(t['d'], us)
        elif k == 'drop':
            place_uses(t['p'], us)
        elif k == 'assert':
            op_uses(t['c'], us)
            for a in t['ops']:
                op_uses(a, us)
        elif k == 'yield':
            op_uses(t['a'], us)
        elif k == 'ret':
            us.add(0)
        u |= us - d
        if k in ('call', 'yield') and not t['d'][1]:
            d.add(t['d'][0])
        use.append(u)
        deff.append(d)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in order:
            o = set()
            for x in succ[b]:
                o |= live[x]
            t = bbs[b]['t']
            i = use[b] | (o - deff[b])
            if i != live[b]:
                live[b] = i
                ch = True
    for b in range(n):
        live[b] = live[b] | addr
    # the blocks that can be reached again from themselves
    loops = set()
    for h in heads:
        reach, todo = set(), [x for x in succ[h]]
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo.extend(succ[x])
        if h in reach:
            rev = {}
            for b in reach:
                for x in succ[b]:
                    rev.setdefault(x, set()).add(b)
            todo, seen = [h], set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(rev.get(x, ()))
            loops |= seen & reach
    return {'heads': heads, 'back': back, 'preds': preds, 'live': live, 'succ': succ, 'loops': loops}


class Rule:
    """hooks; a property's rule overrides what it needs"""
    FUSE = True
    budget = BUDGET

    def opaque(self, path, body):
        return False

    def on_call(self, st, ev):
        return None

    def on_recursion(self, st, ev):
        return None

    def on_enter(self, st, ev, body, args):
        pass

    def on_leave(self, st, frame, v):
        pass

    def on_agg(self, st, t):
        pass

    def on_write(self, st, root, projs, v):
        pass

    def on_drop(self, st, v, ty, bb):
        pass

    def on_assert(self, st, t, c):
        pass

    def on_diverge(self, st, path, args, bb):
        pass

    def on_std(self, st, ev):
        """a function outside the workspace is called"""

    def on_yield(self, st, bb):
        pass

    def on_ret(self, st, v):
        pass

    def on_branch(self, st, term, outcome):
        pass

    def on_peek(self, st, coll, x):
        """the next item of coll is looked at but not taken"""

    def on_item(self, st, coll, kind, x, first):
        """an iterator over coll yielded x (None: exhausted); may return the states that go on"""
        return None

    def sticky(self, t):
        """facts about t partition the states at loop heads"""
        return False

    def on_backedge(self, st, body, head):
        pass

    def on_head(self, st):
        pass

    def keep_terms(self, st):
        return ()

    def rename_mon(self, mon, f):
        return mon

    def split_variants(self, t, adtname):
        return False
