"""C35: the printed form of the syntax tree (shown by the language server) has every part of what is printed.

Each Display implementation of the tree is analysed with the ones of its parts opaque.  What a trace writes is a sequence of texts and
(format, term) pairs; loops become ('each', collection).  It is compared with the syntax of that element, white space aside."""
import re
from ..run import check
from ..lib import *
from .nav import REORDER

AST = 'ginko::dts::ast::'
PUNCT = ':;={}<>[],/'


def peel(ip, st, t):
    """t without copies and the tokens around it"""
    while True:
        t = ip.val(st, natives.chase(ip, st, t))
        if t.op == 'fld' and t.a[1] == 'item' and len(t.a) < 3:
            t = t.a[0]
        elif t.op == 'fld' and t.a[1] == 'item' and t.a[2] is None:
            t = t.a[0]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('deref', 'as_ref', 'as_str', 'clone', 'to_string', 'borrow', 'item', 'to_owned') and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == 'fmt' and len(t.a[0]) == 1 and not isinstance(t.a[0][0], str):
            t = t.a[0][0][1]
        else:
            return t


def norm_text(s):
    s = re.sub(r'\s+', ' ', s)
    return re.sub(r' ?([%s]) ?' % re.escape(PUNCT), r'\1', s)


def canon(pieces):
    """texts merged, white space next to punctuation and between items removed"""
    out = []
    for p in pieces:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    res = []
    for i, p in enumerate(out):
        if isinstance(p, str):
            p = norm_text(p)
            if i == 0:
                p = p.lstrip()
            if i == len(out) - 1:
                p = p.rstrip()
            if p:
                res.append(p)
        else:
            res.append(p)
    return tuple(res)


def replaced(ip, st, t):
    """(text, from, to) of a call of replace"""
    t = ip.val(st, natives.chase(ip, st, t))
    while t.op == 'call' and t.a[0].split('::')[-1] in ('deref', 'as_str', 'to_string', 'clone', 'into_owned') and len(t.a[1]) == 1:
        t = ip.val(st, natives.chase(ip, st, t.a[1][0]))
    if t.op == 'call' and t.a[0].split('::')[-1] == 'replace' and len(t.a[1]) == 3:
        x, a, b = t.a[1]
        a = chr(a.a[0]) if a.op == 'const' else a.a[0] if a.op == 'str' else None
        return x, a, b.a[0] if b.op == 'str' else None
    return None


def escaped(ip, st, t):
    """the text that t is the escaped form of"""
    o = replaced(ip, st, t)
    if o and o[1:] == ('"', '\\"'):
        i = replaced(ip, st, o[0])
        if i and i[1:] == ('\\', '\\\\'):
            return i[0]
    return None


class Print(Writer):
    """mon: stack of (collection, item, first, pieces); the bottom one is the element itself"""

    def __init__(self, ctx, ids, name):
        super().__init__(ctx)
        self.ids, self.name = ids, name
        self.seps, self.n, self.found = {}, 0, {}
        self.each = {}
        self.lists, self.rests = set(), set()

    def bad(self, key, msg):
        self.found.setdefault(key, msg)

    def opaque_fmt(self):
        return self.ids

    def keep_terms(self, st):
        return [t for f in st.mon for t in (f[0], f[1]) + tuple(p[1] for p in f[3] if not isinstance(p, str) and len(p) > 1) if isinstance(t, T)]

    def rename_mon(self, m, f):
        g = lambda t: f(t) if isinstance(t, T) else t
        return tuple((g(c), g(x), k, tuple(p if isinstance(p, str) else (p[0],) + tuple(g(y) for y in p[1:]) for p in ps)) for c, x, k, ps in m)

    def put(self, st, *pieces):
        c, x, k, ps = st.mon[-1]
        new = list(ps)
        for p in pieces:
            if isinstance(p, str) and new and isinstance(new[-1], str):
                new[-1] += p
            elif p != '':
                new.append(p)
        if len(new) > 40:
            self.bad('long', 'something is written again and again')
            new = new[:40]
        st.mon = st.mon[:-1] + ((c, x, k, tuple(new)),)

    def on_out(self, st, parts):
        for p in parts:
            if isinstance(p, str):
                self.put(st, p)
            else:
                self.n += 1
                t = self.ip.val(st, natives.chase(self.ip, st, p[1]))
                if t.op == 'str':
                    self.put(st, t.a[0])
                elif t.op == 'fmt' and p[0] == 'd':
                    self.on_out(st, t.a[0])
                elif escaped(self.ip, st, t) is not None and spec_name(p) == 'd':
                    self.put(st, ('esc', self.text(st, escaped(self.ip, st, t))))
                elif t.op == 'call' and t.a[0].split('::')[-1] == 'join' and len(t.a[1]) == 2:
                    self.joined(st, t, *t.a[1])
                elif t.op == 'join':
                    self.joined(st, t, *t.a)
                else:
                    self.put(st, (spec_name(p), self.text(st, t)))
        return None

    def text(self, st, t):
        return peel(self.ip, st, t)

    def joined(self, st, t, lst, sep):
        """join of a list that has the texts of all items of a collection"""
        lst, sep = (self.ip.val(st, natives.chase(self.ip, st, x)) for x in (lst, sep))
        self.put(st, self.join(st, lst, sep) or ('d', t))

    def join(self, st, lst, sep):
        if lst is natives.SEQ0:
            return ''
        if lst.op != 'seq' or lst.a[0] is not None or sep.op != 'str':
            return None
        xs = [self.text(st, x) for x in lst.a[1]]
        xs = {x.a[0] if x.op == 'old' else x for x in xs}
        x = min(xs, key=lambda t: t.id)
        if len(xs) != 1 or x.op != 'item':
            return None
        c = peel(self.ip, st, x.a[0])
        want, s = self.item_spec(st, c, x)
        self.n += 1
        if norm_text(sep.a[0]) != norm_text(s) and sep.a[0] != s:
            self.bad('sep', 'the items of %s are separated by %r' % (show(c)[:60], sep.a[0]))
        self.lists.add(c)
        return ('each', c)

    def collected(self, st):
        """the item is put into a list as it is to be written"""
        c, x, k, ps = st.mon[-1]
        if not (len(ps) == 1 and ps[0][0] == 'push'):
            return False
        want, sep = self.item_spec(st, c, x)
        t = self.ip.val(st, natives.chase(self.ip, st, ps[0][1]))
        got = tuple(p if isinstance(p, str) else (spec_name(p), self.text(st, p[1])) for p in t.a[0]) if t.op == 'fmt' else (('d', self.text(st, t)),)
        return canon(got) == canon(want)

    # ------------------------------------------------------------ loops
    def on_item(self, st, coll, kind, x, first):
        coll = peel(self.ip, st, coll)
        if kind not in ('', 'enumerate', 'chars', 'bytes'):
            return None
        top = st.mon[-1]
        if top[0] is coll and len(st.mon) > 1:
            self.close(st)
            if x is None:
                done = st.mon[-1][3]
                st.mon = st.mon[:-1]
                if done != (('list',),):
                    self.put(st, ('each', coll))
            else:
                st.mon = st.mon[:-1] + ((coll, x, (False, None), ()),)
        elif x is None:
            self.put(st, ('each', coll))
        else:
            st.mon = st.mon + ((coll, x, (True, None), ()),)
        return None

    def on_head(self, st):
        if len(st.mon) > 1 and st.mon[-1][1] is not None and self.complete(st):
            self.close(st)

    def item_spec(self, st, coll, x):
        return self.spec.items(self, st, coll, x)

    def complete(self, st):
        c, x, k, ps = st.mon[-1]
        return self.collected(st) or self.match(st) is not None

    def match(self, st):
        """where the separator is: 'before' / 'after' / 'both' / 'none'; None when the item is not written as expected"""
        c, x, k, ps = st.mon[-1]
        want, sep = self.item_spec(st, c, x)
        got = canon(ps)
        for a in ('', sep):
            for b in ('', sep):
                if got == canon((a,) + tuple(want) + (b,)) and self.spaces(ps, a, b, sep):
                    return {(0, 0): 'none', (1, 0): 'before', (0, 1): 'after', (1, 1): 'both'}[bool(a), bool(b)]
        return None

    @staticmethod
    def spaces(ps, a, b, sep):
        if sep != ' ':
            return True
        pre = isinstance(ps[0], str) and ps[0][:1].isspace() if ps else False
        post = isinstance(ps[-1], str) and ps[-1][-1:].isspace() if ps else False
        return pre == bool(a) and post == bool(b)

    def close(self, st):
        """the item is written: check it"""
        c, x, k, ps = st.mon[-1]
        if x is None:
            return
        self.ctx.obligations += 1
        if self.collected(st):
            st.mon = st.mon[:-1] + ((c, None, (False, None), (('list',),)),)
            return
        want, sep = self.item_spec(st, c, x)
        m = self.match(st)
        if m is None:
            self.bad('item', '%s is written as %s instead of %s' % (self.what(c), self.show(canon(ps)), self.show(canon(want))))
        elif sep:
            self.seps.setdefault(c, {}).setdefault(m, set()).add((self.last(st, c, x, k[1]), self.isfirst(st, c, x, k[0])))
        self.each.setdefault(c, 0)
        self.each[c] += 1
        st.mon = st.mon[:-1] + ((c, None, (False, None), ()),)

    def index(self, x):
        return lambda t: t.op == 'idxof' and t.a[0] is x or t.op == 'idx' and t.a[1] is x

    def on_peek(self, st, coll, x):
        c, y, k, ps = st.mon[-1]
        if c is not None and c is peel(self.ip, st, coll):
            st.mon = st.mon[:-1] + ((c, y, (k[0], x is None), ps),)

    def last(self, st, c, x, peeked):
        if peeked is not None:
            return peeked
        isi = self.index(x)
        for k, f in st.facts.items():
            if f[0] != '=' or k.op not in ('eq', 'lt'):
                continue
            a, b = (linear(y) for y in k.a)
            if isi(b[0]) and k.op == 'eq':
                a, b = b, a
            if isi(a[0]) and b[0].op == 'len' and peel(self.ip, st, b[0].a[0]) is c:
                d = b[1] - a[1]
                if k.op == 'eq' and d == -1:
                    return bool(f[1])
                if k.op == 'lt' and d == -1:
                    return not f[1]
        return None

    def isfirst(self, st, c, x, k):
        isi = self.index(x)
        for q, f in st.facts.items():
            if f[0] == '=' and q.op == 'lt' and q.a[0] is const(0) and isi(q.a[1]):
                return not f[1]
            if f[0] == '=' and q.op == 'eq' and isi(q.a[0]) and q.a[1] is const(0):
                return bool(f[1])
            if isi(q) and f == ('=', 0):
                return True
            if isi(q) and f[0] == '!' and 0 in f[1]:
                return False
        return k

    def what(self, c):
        return 'an item of ' + show(c)[:60]

    def show(self, ps):
        return ' '.join(repr(p) if isinstance(p, str) else '{%s:%s}' % (show(p[1])[:80], p[0]) for p in ps) or 'nothing'

    # ------------------------------------------------------------ the end
    def on_ret(self, st, v):
        self.ctx.obligations += 1
        if st.variant(v) == 'Err':
            return
        if len(st.mon) > 1:
            self.bad('partial', 'not all of %s is written' % show(st.mon[-1][0])[:60])
            return
        drop = lambda ps: canon([p for p in ps if p[0] != 'each' or st.facts.get(mk('isempty', p[1])) != ('=', 1)])
        got = drop(self.firstrest(st.mon[0][3]))
        wants = [drop(w) for w in self.spec.want(self, st)]
        self.n += 1
        if got not in wants:
            self.bad('written', 'what is written is %s instead of %s' % (self.show(got), self.show(wants[0]) if wants else '?'))

    def firstrest(self, ps):
        """the first item and then the rest are all items"""
        out = []
        for p in ps:
            q = out[-1] if out else None
            if not isinstance(p, str) and q is not None and not isinstance(q, str):
                if p[0] == 'each' and rest(p[1]) is not None and q == ('d', mk('elem', rest(p[1]), const(0))):
                    self.rests.add(p[1])
                    out[-1] = ('each', rest(p[1]))
                    continue
                if q[0] == 'each' and q[1].op == 'init' and p == ('d', mk('lastof', q[1].a[0])):
                    self.rests.add(q[1])
                    out[-1] = ('each', q[1].a[0])
                    continue
            out.append(p)
        return out

    def finish(self):
        for c, by in self.seps.items():
            ws = not self.sepchar(c).strip()
            if 'both' in by:
                self.bad('sep', 'the items of %s are separated twice' % show(c)[:60])
            if not ({'before', 'after'} & set(by)):
                self.bad('sep', 'the items of %s are not separated' % show(c)[:60])
            if 'before' in by and 'after' in by:
                self.bad('sep', 'the items of %s are separated twice' % show(c)[:60])
            for l, f in by.get('none', ()):
                if 'after' in by and l is not True or 'before' in by and f is not True:
                    self.bad('sep', 'a separator between the items of %s is missing' % show(c)[:60])
            for l, f in by.get('after', ()):
                if l is not False and not ws and c not in self.rests:
                    self.bad('sep', 'a separator is written after the last item of %s' % show(c)[:60])
            for l, f in by.get('before', ()):
                if f is not False and not ws and c not in self.rests:
                    self.bad('sep', 'a separator is written before the first item of %s' % show(c)[:60])

    def sepchar(self, c):
        return self.spec.sep

    def on_call(self, st, ev):
        if ev.name in REORDER and ev.body is None and ev.args and ev.path.startswith(('core::iter', 'core::slice', 'alloc::vec', 'itertools')):
            v = natives.chase(self.ip, st, ev.args[0])
            if contains(v, self.me):
                self.bad('order', 'not everything is written in its order (%s)' % ev.name)
        if ev.name == 'push' and ev.path.startswith('alloc::vec::Vec') and len(st.mon) > 1:
            self.put(st, ('push', ev.args[1]))
        return super().on_call(st, ev)


def rest(t):
    """the collection of which t is everything after the first item"""
    if t.op == 'tail':
        return t.a[0]
    if t.op == 'slice' and t.a[1].op == 'agg' and t.a[1].a[1].endswith('RangeFrom') and t.a[1].a[4] == (const(1),):
        return t.a[0]
    return None


def linear(t):
    """(term, offset)"""
    if t.op == 'bin' and t.a[0] == 'Add' and t.a[2].op == 'const':
        return t.a[1], t.a[2].a[0]
    return t, 0


class Spec:
    """what is written of an element: want gives the alternatives for what a trace knows of it"""
    sep = ''

    def want(self, r, st):
        return []

    def items(self, r, st, coll, x):
        return (('d', peel(r.ip, st, x)),), self.sep


def D(t):
    return ('d', t)


class Rec(Spec):
    """a fixed sequence of parts"""

    def __init__(self, f, sep=''):
        self.f, self.sep = f, sep

    def want(self, r, st):
        w = self.f(r, st, r.me)
        return w if isinstance(w, list) else [w]


def opt(r, st, t, some_, none=()):
    v = st.variant(t)
    if v == 'Some':
        return some_(fld(t, '0', 'Some'))
    return none if v == 'None' else ('<%s is not looked at>' % show(t)[:60],)


def pl(r, st, *ts):
    return tuple(t if isinstance(t, str) else (t[0], peel(r.ip, st, t[1]) if t[0] != 'each' else t[1]) for t in ts)


def each(r, st, t):
    return ('each', peel(r.ip, st, t))


def w_nodename(r, st, me):
    return pl(r, st, D(fld(me, 'name')), *opt(r, st, fld(me, 'unit_address'), lambda u: ('@', D(u))))


def w_path(r, st, me):
    e = each(r, st, fld(me, 'elements'))
    f = st.facts.get(mk('isempty', e[1]))
    return [('/',), ('/', e)] if f == ('=', 1) else (e,)


class PathSpec(Rec):
    def items(self, r, st, coll, x):
        return ('/', D(peel(r.ip, st, x))), ''


def w_reference(r, st, me):
    v = st.variant(me)
    x = D(fld(me, '0', v)) if v else None
    return {'Label': lambda: pl(r, st, '&', x), 'Path': lambda: pl(r, st, '&{', x, '}')}[v]() if v else []


def w_cell(r, st, me):
    v = st.variant(me)
    if v == 'Number':
        return [pl(r, st, '0x', ('x', fld(me, '0', v))), pl(r, st, ('#x', fld(me, '0', v))), pl(r, st, D(fld(me, '0', v)))]
    if v == 'Reference':
        return pl(r, st, D(fld(me, '0', v)))
    if v == 'Expression':
        return [canon(st.mon[0][3])]       # not in the tree
    return []


def w_value(r, st, me):
    v = st.variant(me)
    if v == 'String':
        return pl(r, st, '"', ('esc', fld(me, '0', v)), '"')
    if v == 'Reference':
        return pl(r, st, D(fld(me, '0', v)))
    if v == 'Cells':
        return pl(r, st, '<', each(r, st, fld(me, '1', v)), '>')
    if v == 'ByteStrings':
        return pl(r, st, '[', each(r, st, fld(me, '1', v)), ']')
    return []


class ValueSpec(Rec):
    sep = ' '

    def items(self, r, st, coll, x):
        x0 = x
        x = peel(r.ip, st, x)
        if coll is peel(r.ip, st, fld(r.me, '1', 'ByteStrings')):
            return (('each', x),), ' '
        if coll is peel(r.ip, st, fld(r.me, '1', 'Cells')):
            return (D(x),), ' '
        return (('02x', x),), ''


def w_property(r, st, me):
    lab = opt(r, st, fld(me, 'label'), lambda l: (D(l), ': '))
    e = each(r, st, fld(me, 'values'))
    f = st.facts.get(mk('isempty', e[1]))
    name = D(fld(me, 'name'))
    if f == ('=', 1):
        return pl(r, st, *lab, name, ';')
    if f == ('=', 0):
        return pl(r, st, *lab, name, '=', e, ';')
    return ['<values are not looked at>']


def variants(table):
    def w(r, st, me):
        v = st.variant(me)
        if v not in table:
            return [pl(r, st, D(fld(me, '0', v)))] if v and table.get('') else []
        return [pl(r, st, *(p if isinstance(p, str) else D(fld(me, p[0], v)) for p in table[v]))]
    return w


def w_node(r, st, me):
    return pl(r, st, *opt(r, st, fld(me, 'omit_if_no_ref'), lambda _: ('/omit-if-no-ref/ ',)),
              *opt(r, st, fld(me, 'label'), lambda l: (D(l), ': ')), D(fld(me, 'name')), ' ', D(fld(me, 'payload')))


def nospace(ws):
    return ws


def w_memreserve(r, st, me):
    a, l = fld(me, 'address'), fld(me, 'length')
    return [pl(r, st, '/memreserve/ 0x', ('x', a), ' 0x', ('x', l), ';'), pl(r, st, '/memreserve/ ', ('#x', a), ' ', ('#x', l), ';')]


SPECS = {
    'NodeName': Rec(w_nodename),
    'Path': PathSpec(w_path),
    'Reference': Rec(w_reference),
    'Cell': Rec(w_cell),
    'PropertyValue': ValueSpec(w_value, ' '),
    'Property': Rec(w_property, ', '),
    'NodeItem': Rec(variants({'Property': ((('0'),),), 'Node': (('0',),), 'DeletedNode': ('/delete-node/ ', ('1',), ';'),
                              'DeletedProperty': ('/delete-property/ ', ('1',), ';')})),
    'NodePayload': Rec(lambda r, st, me: ('{', each(r, st, fld(me, 'items')), '};')),
    'Node': Rec(w_node),
    'Memreserve': Rec(w_memreserve),
    'DtsFile': Rec(lambda r, st, me: (each(r, st, fld(me, 'elements')),)),
    'Include': Rec(lambda r, st, me: pl(r, st, '/include/ "', D(fld(me, 'file_name')), '"')),
    'AnyDirective': Rec(variants({'DtsHeader': ('/dts-v1/;',), 'Plugin': ('/plugin/;',), 'Memreserve': (('0',),), 'Include': (('0',),),
                                  'DeletedNode': ('/delete-node/ ', ('1',), ';'), 'OmitIfNoRef': ('/omit-if-no-ref/ ', ('1',), ';')})),
    'ReferencedNode': Rec(lambda r, st, me: pl(r, st, D(fld(me, 'reference')), ' ', D(fld(me, 'payload')))),
    'Primary': Rec(variants({'Directive': (('0',),), 'Root': (('0',),), 'ReferencedNode': (('0',),), 'CStyleInclude': ('#include ', ('0',))})),
}


def spec_name(p):
    if len(p) == 2:
        return p[0]
    s, _, flags, width, prec = p
    f = flags or 0
    return ('#' if f & (1 << 23) else '') + ('0' if f & (1 << 24) else '') + (str(width) if width else '') + s


def printing(ctx):
    F = ctx.F
    found, counts = {}, {}
    ids = {}
    for i in F.impls:
        if (i['trait'] or '').endswith('fmt::Display') and i['self'].split('<')[0].startswith(AST):
            ids[i['methods']['fmt']] = i['self'].split('<')[0][len(AST):]
    for mid, name in sorted(ids.items()):
        b = F.bodies.get(mid)
        if name == 'WithToken':
            spec = Rec(lambda r, st, me: pl(r, st, D(me)))
        elif name in SPECS:
            spec = SPECS[name]
        else:
            continue
        r = Print(ctx, [m for m in ids if m != mid], name)
        r.spec = spec
        r.me = mk('arg', 'self')
        run(F, r, b, [r.me, mk('arg', 'f')], mon=((None, None, None, ()),))
        r.finish()
        for k, m in r.found.items():
            found.setdefault('%s:%s' % (name, k), '%s: %s' % (where(b), m))
        counts[name] = r.n
    for n in SPECS:
        if n not in ids.values():
            found.setdefault('anchor:' + n, 'the Display implementation of %s is gone' % n)
    return found, counts


@check('C35')
def c35(ctx):
    """the printed form has every part"""
    found, counts = printing(ctx)
    for k, m in sorted(found.items()):
        ctx.violate(k, m)
    for n in SPECS:
        ctx.floor('printed ' + n, counts.get(n, 0), 1)
    ctx.notes.append(', '.join('%s %d' % x for x in sorted(counts.items())))
