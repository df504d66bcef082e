"""The parser: C05 (progress), C03 (errors are reported), C30 (the tree is the source), C22 (names are checked),
C31 (placement rules), C41 (semicolons), C07 (depth), and the panic freedom of the parser (C06).

Each parse function is one unit: the token stream is symbolic (a token is a term, its kind is what the branch facts say),
the other parse functions are nonterminals with a result that is a term or an error.  The abstract traces of a unit are
compared with the productions of the grammar: at every item that is stored and at every return, the consumed symbols since
the last item have to be a production, and the stored item has to be built from exactly these symbols."""
from ..run import check, Ctx
from ..lib import *
from ..interp import mk, norm, dombase, seq_add
from .. import natives, partial

KIND = 'ginko::dts::tokens::token::TokenKind'
PATHS = ('ginko::dts::parser::Parser::',)
# nonterminal -> (result type, known name)
UNITS = {
    'file': ('DtsFile', 'file'),
    'primary': ('Primary', 'primary'),
    'payload': ('NodePayload', 'node_payload'),
    'values': ('Vec<PropertyValue>', 'property_values'),
    'value': ('PropertyValue', 'property_value'),
    'cell': ('Cell', 'number_u32'),
    'mem': ('WithToken<u64>', 'memreserve_number_u64'),
    'bytes': ('WithToken<Vec<u8>>', 'byte_string'),
    'semi': ('Option<Token>', 'expect_semicolon'),
}
CHECKS = {'check_is_label': 'label', 'check_is_node_name': 'node', 'check_is_property_name': 'prop'}
REORDER = ('insert', 'truncate', 'pop', 'clear', 'remove', 'swap_remove', 'retain', 'reverse', 'swap', 'sort', 'sort_by', 'sort_by_key', 'dedup',
           'drain', 'split_off', 'rotate_left', 'rotate_right', 'dedup_by', 'dedup_by_key', 'sort_unstable')


def resname(b):
    """short name of the type in the Result that a body returns"""
    m = re.match(r'^core::result::Result<(.*), .*Diagnostic>$', b['locals'][0])
    return re.sub(r'\b[\w]+::', '', m.group(1)).replace(', Global', '').replace(', std::alloc::Global', '') if m else None


def units(F):
    """{unit: body} and the bodies of reference / checks"""
    out = {}
    cands = [b for b in F.bodies.values() if norm(b['path']).startswith('ginko::dts::parser::') and '{closure' not in b['path']]
    for u, (ty, name) in UNITS.items():
        named = [b for b in cands if norm(b['path']).split('::')[-1] == name]
        if len(named) == 1:
            out[u] = named[0]
            continue
        typed = [b for b in cands if resname(b) == ty]
        if len(typed) == 1:
            out[u] = typed[0]
    return out


class Mon(tuple):
    """cur: token under the cursor; hist: symbols since the last item; errs: errors to be reported;
    codes/checks: diagnostics pushed and names checked since the last item; pend: what the last item needs;
    node: a node was stored; used: something was consumed; armed: loop heads without progress; diag: pushed since the last item;
    order: tokens in the order of the text"""
    __slots__ = ()
    N = ('cur', 'hist', 'errs', 'codes', 'checks', 'pend', 'node', 'used', 'armed', 'diag', 'items', 'order')

    def __getattr__(s, n):
        return s[Mon.N.index(n)]

    def set(s, **kw):
        return Mon(kw.get(n, s[i]) for i, n in enumerate(Mon.N))


LIST = mk('symlist', 'items')
MON0 = Mon((None, (), frozenset(), (), (), (), False, False, frozenset(), False, (), ()))


class Parse(R):
    budget = 250000

    def __init__(self, ctx, F, unit, U, rep):
        super().__init__(ctx)
        self.F, self.unit, self.U, self.rep = F, unit, U, rep
        self.ids = {b['id']: u for u, b in U.items()}
        self.n = {}
        self.left = set()       # units that are entered before anything was read

    def bad(self, aspect, key, msg):
        self.rep(aspect, self.unit + ':' + key, '%s: %s' % (where(self.U[self.unit]), msg))

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ------------------------------------------------------------- tokens
    def look(self, st):
        m = st.mon
        if m.cur is not None:
            return [(st, None if m.cur == 'eof' else m.cur)]
        s2 = st.copy()
        s2.mon = m.set(cur='eof')
        t = self.ip.fresh(st, mk('tok', st.frame.fid, st.bb))
        st.mon = st.mon.set(cur=t)
        return [(st, t), (s2, None)]

    def advance(self, st, t):
        self.closure(st)
        m = st.mon
        st.mon = m.set(cur=None, hist=(m.hist + (('t', '?', t),))[-9:], used=True, armed=frozenset(), order=(m.order + (t,))[-8:])

    def kind(self, st, t):
        """(variant of the token kind, variant of the directive)"""
        k = fld(t, 'kind')
        v = st.variant(k)
        if v == 'Directive':
            return v, st.variant(fld(k, '0', 'Directive'))
        return v, None

    def sym(self, st, h):
        """the symbol of an entry of the history"""
        if h[0] == 'n' or h[1] != '?':
            return h[1]
        v, d = self.kind(st, h[2])
        if v is None:
            can = [n for n, _ in self.ip.variants(KIND) or () if st.maybe(fld(h[2], 'kind'), n)]
            return '|'.join(can) if len(can) < 4 else '?'
        return (v if d is None else d) or '?'

    def settle(self, st):
        """what is known of the symbols is kept"""
        m = st.mon
        if any(h[0] == 't' and h[1] == '?' for h in m.hist):
            st.mon = m = m.set(hist=tuple(('t', self.sym(st, h), h[2]) if h[0] == 't' else h for h in m.hist))
        h = m.hist
        if any(h[i][1] == h[i + 1][1] == h[i + 2][1] != '?' for i in range(len(h) - 2)):
            st.mon = m.set(hist=tuple(x for i, x in enumerate(h) if not (i + 2 < len(h) and x[1] == h[i + 1][1] == h[i + 2][1] != '?')))

    def text(self, t):
        """the content of an identifier, label, string, number token"""
        return {k: fld(fld(t, 'kind'), '0', k) for k in ('Ident', 'Label', 'String', 'UnparsedNumber', 'Ref')}

    def on_call(self, st, ev):
        ip = self.ip
        p = norm(ev.path)
        b = ev.body
        if 'PeekingLexer' in p or b is not None and 'PeekingLexer' in b['path']:
            if ev.name == 'peek':
                return [(s, NONE if t is None else some(t)) for s, t in self.look(st)]
            if ev.name == 'next':
                out = []
                for s, t in self.look(st):
                    if t is not None:
                        self.advance(s, t)
                    out.append((s, NONE if t is None else some(t)))
                return out
            if ev.name == 'last_pos':
                return mk('lastpos')
            if ev.name == 'insert_pseudo_kind':
                if self.unit == 'semi' and st.variant(natives.chase(ip, st, ev.args[1])) == 'Semicolon':
                    st.mon = st.mon.set(node=True)
                return UNIT
        if p.endswith('lexer::Lexer::pos') or b is not None and norm(b['path']).endswith('lexer::Lexer::pos'):
            return mk('lexpos')
        if b is not None and b['id'] in self.ids:
            return self.nonterminal(st, ev, self.ids[b['id']])
        if ev.name == 'checked_add_signed':
            x = natives.chase(ip, st, ev.args[1])
            if not any(y.op == 'const' and y.a[0] < 0 or y.op == 'bin' and y.a[0].startswith('Sub') or y.op in ('neg', 'un') for y in subs(x)):
                return some(mk('addsigned', natives.chase(ip, st, ev.args[0]), x))      # columns are below 2^31
        if ev.name in CHECKS and b is not None:
            name = natives.chase(ip, st, ev.args[2])
            span = natives.chase(ip, st, ev.args[1])
            m = st.mon
            st.mon = m.set(checks=tuple(sorted(set(m.checks + ((CHECKS[ev.name], name, span),)), key=str)))
            return UNIT
        if b is not None and norm(b['path']).endswith('Parser::reference') and self.unit != 'reference':
            tok, ref = natives.chase(ip, st, ev.args[1]), natives.chase(ip, st, ev.args[2])
            if ref is not fld(fld(tok, 'kind'), '0', 'Ref'):
                self.bad('tree', 'reference', 'a reference is built from another token: %s, %s' % (show(tok)[:60], show(ref)[:60]))
            return mk('refn', tok)
        if b is not None and ev.name == 'from' and 'NodeName' in ev.path + b['path'] and 'WithToken' not in ev.path + b['path']:
            return mk('nodename', natives.chase(ip, st, ev.args[0]))
        if ev.name == 'box_assume_init_into_vec_unsafe':
            v = natives.n_into_vec_box(ip, st, ev)
            if is_agg(v) and v.a[0] == 'array' and len(v.a[4]) == 1:
                r = self.store(st, ev, natives.chase(ip, st, v.a[4][0]))
                return v if r is None else r
            return v
        if ev.name in ('push', 'extend', 'append', 'push_back', 'insert') and ev.path.startswith(('alloc::vec', 'core::iter::traits::collect')):
            x = natives.chase(ip, st, ev.args[-1])
            if natives.is_iter(x):
                x = natives.chase(ip, st, x.a[4][0])
            if is_agg(x, None, None) and x.a[0] == 'adt' and x.a[1].endswith('Diagnostic') or x.op == 'nterr':
                if ev.name == 'push':
                    self.reported(st, x)
                    return UNIT
            elif ev.name == 'push':
                return self.store(st, ev, x)
        if ev.name in REORDER and ev.path.split('::')[-2] in ('Vec', '[T]', 'slice') and b is None:
            self.bad('tree', 'reorder:' + ev.name, 'the list of parsed items is changed after it was read (%s)' % ev.name)
        if ev.name in ('gt', 'lt', 'ge', 'le') and len(ev.args) == 2:
            x, y = (natives.chase(ip, st, a) for a in ev.args)
            r = self.before(st, x, y)
            if r is not None:
                return TRUE if (ev.name in ('lt', 'le')) == r else FALSE
        return None

    def before(self, st, x, y):
        """is the position x before y? (start and end positions of tokens in the order of the text)"""
        def at(p):
            if p.op == 'fld' and p.a[1] in ('start', 'end') and p.a[0].op == 'fld' and p.a[0].a[1] == 'span':
                t = p.a[0].a[0]
                if t in st.mon.order:
                    return 2 * st.mon.order.index(t) + (p.a[1] == 'end')
                if t is st.mon.cur:
                    return 2 * len(st.mon.order) + (p.a[1] == 'end')
                if t.op == 'fld':       # end of something that was parsed later
                    for i, o in enumerate(st.mon.order):
                        if o in subs(t):
                            return 2 * i + (p.a[1] == 'end')
            return None
        a, b = at(x), at(y)
        if a is None or b is None or a == b:
            return None
        return a < b

    def reported(self, st, x):
        m = st.mon
        code = x.a[4][x.a[3].index('kind')] if x.op == 'agg' else None
        c = code.a[2] if code is not None and code.op == 'agg' else '?'
        span = x.a[4][x.a[3].index('span')] if x.op == 'agg' else None
        st.mon = m.set(errs=m.errs - {x}, codes=tuple(sorted(set(m.codes + ((c, span),)), key=str)), diag=True)
        self.count('diag')

    def nonterminal(self, st, ev, u):
        m = st.mon
        self.count('call')
        if u == self.unit or u == 'payload' and self.unit == 'payload':
            self.recursion(st, ev)
        if not m.used:
            self.left.add(u)
        key = (st.frame.fid, st.bb)
        t = self.ip.fresh(st, mk('nt', u, *key))
        self.closure(st)
        m = st.mon
        e = mk('nterr', u, *key)
        prog = u != 'semi'
        s2 = st.copy()
        failed = []
        # a nonterminal fails at the end of the file, or after it has read something
        if m.cur != 'eof' and prog:
            failed.append(m.set(cur=None, errs=m.errs | {e}, used=True, armed=frozenset()))
        if m.cur == 'eof' or m.cur is None:
            failed.append(m.set(cur='eof', errs=m.errs | {e}))
        if not prog:
            failed = [m.set(cur=None, errs=m.errs | {e})]
        s1 = st
        s1.mon = m.set(cur=None, hist=(m.hist + (('n', u, t),))[-9:], used=m.used or prog, armed=frozenset() if prog else m.armed,
                       order=(m.order + (t,))[-8:])
        out = [(s1, ok(t))] if m.cur != 'eof' or not prog else []
        for f in failed:
            s3 = s2.copy()
            s3.mon = f
            out.append((s3, err(e)))
        return out

    def recursion(self, st, ev):
        pass

    # ------------------------------------------------------------- the end of an item
    def closure(self, st):
        """the next symbol is read, or the function ends: what the last item needs has to be there"""
        self.settle(st)
        m = st.mon
        if not m.pend:
            return
        codes, checks, what = m.pend
        self.need(st, codes, checks, what)
        st.mon = m.set(pend=(), codes=(), checks=(), diag=False)

    def need(self, st, codes, checks, what):
        m = st.mon
        got = set(m.codes)
        self.ctx.obligations += len(codes) + len(checks) + 1
        for c, span in codes:
            hit = [s for k, s in got if k == c]
            if not hit:
                self.bad('rules', '%s:%s' % (what, c), 'no %s is reported for %s' % (c, what))
            elif span is not None and span not in hit:
                self.bad('rules', '%s:%s:span' % (what, c), '%s for %s is reported at %s' % (c, what, show(hit[0])[:100]))
        for c in ('PropertyAfterNode', 'IncorrectDirective'):
            if any(k == c for k, _ in got) and not any(k == c for k, _ in codes):
                self.bad('rules', '%s:not:%s' % (what, c), '%s is reported for %s without cause' % (c, what))
        have = {(k, n) for k, n, _ in m.checks}
        for k, n, span in checks:
            if (k, n) not in have:
                self.bad('names', '%s:%s' % (what, k), 'the %s of %s is not checked' % ({'label': 'label', 'node': 'name', 'prop': 'name'}[k], what))
            elif not any((k, n, span) == c for c in m.checks):
                self.bad('names', '%s:%s:span' % (what, k), 'the name of %s is checked at another position' % what)
        if len(m.checks) != len(set(m.checks)):
            pass

    # ------------------------------------------------------------- productions
    def store(self, st, ev, x):
        return None

    def listed(self, st, ev):
        """the item was checked: the list is all items so far"""
        if ev.name not in ('push', 'extend', 'append', 'push_back', 'insert'):
            # vec![item]
            if st.mon.items:
                self.tree('list', 'a second list is made of the items')
            st.mon = st.mon.set(items=('some',))
            return LIST
        a = natives.lastaddr(self.ip, st, ev.args[0])
        if a.op == 'addr':
            v = self.ip.load(st, *a.a)
            if v is not SEQ0 and v is not LIST or v is SEQ0 and st.mon.items:
                self.tree('list', 'an item is added to another list: ' + show(v)[:150])
            self.ip.store_at(st, a.a[0], a.a[1], LIST)
        else:
            self.tree('list', 'an item is added to another list: ' + show(a)[:150])
        st.mon = st.mon.set(items=('some',))
        return UNIT

    def list(self, st, x, field):
        v = natives.chase(self.ip, st, fld(x, field) if field else x)
        if v is not (LIST if st.mon.items else SEQ0):
            self.tree('list', 'the list of %s is not what was read: %s' % (field or 'values', show(v)[:150]))

    def tree(self, key, msg):
        self.bad('tree', key, msg)

    def hist(self, st):
        return [self.sym(st, h) for h in st.mon.hist], [h[-1] for h in st.mon.hist]

    def on_head(self, st):
        self.closure(st)
        m = st.mon
        live = [h[-1] for h in m.hist] + [m.cur]
        st.mon = m.set(order=tuple(t for t in m.order if any(t is x for x in live)))
        st.mon = st.mon.set(armed=st.mon.armed | {(st.frame.body['id'], st.bb)})

    def on_item(self, st, coll, kind, x, first):
        # a list comes to its end
        st.mon = st.mon.set(armed=frozenset())
        return None

    def on_backedge(self, st, body, head):
        if (body['id'], head) in st.mon.armed:
            self.bad('progress', 'loop:' + norm(body['path']), 'a loop of %s may go on without reading anything' % where(body))

    def keep_terms(self, st):
        m = st.mon
        return [t for t in (m.cur,) if isinstance(t, T)] + [h[-1] for h in m.hist] + list(m.errs) + [h for h in m.order] + \
            [c[1] for c in m.checks] + [c[2] for c in m.checks] + ([c[1] for c in m.pend[1]] if m.pend else [])

    def rename_mon(self, m, f):
        g = lambda x: f(x) if isinstance(x, T) else x
        order = tuple(y for y in (g(x) for x in m.order) if not (isinstance(y, T) and y.op == 'old'))
        return Mon((g(m.cur), tuple(h[:-1] + (g(h[-1]),) for h in m.hist), frozenset(map(g, m.errs)),
                    tuple((c, g(s)) for c, s in m.codes), tuple((k, g(a), g(s)) for k, a, s in m.checks),
                    (tuple((c, g(s)) for c, s in m.pend[0]), tuple((k, g(a), g(s)) for k, a, s in m.pend[1]), m.pend[2]) if m.pend else (),
                    m.node, m.used, m.armed, m.diag, m.items, order))

    def on_diverge(self, st, p, args, bb):
        super().on_diverge(st, p, args, bb)
        self.bad('panic', 'panic:%s' % norm(st.frame.body['path']),
                 'panics in %s (%s)' % (where(st.frame.body, bb['sp'][0] if bb else None), p.split('::')[-1][:60]))

    # ------------------------------------------------------------- results
    def on_ret(self, st, v):
        ip = self.ip
        for s, vn in ip.fork_variant(st, v, 'core::result::Result'):
            m = s.mon
            self.ctx.obligations += 1
            self.count('ret:' + vn)
            x = fld(v, '0', vn)
            x = natives.chase(ip, s, x)
            lost = m.errs - ({x} if vn == 'Err' else frozenset())
            if lost:
                self.bad('errors', 'lost:' + '+'.join(sorted(e.a[0] for e in lost)), 'an error of %s is neither returned nor reported' % ', '.join(sorted(e.a[0] for e in lost)))
            if self.unit != 'semi' and not m.used and not (vn == 'Err' and m.cur == 'eof') and not (self.unit == 'file' and m.cur == 'eof'):
                self.bad('progress', 'nothing', 'may return (%s) without reading anything' % vn)
            if vn == 'Ok':
                self.closure(s)
                self.result(s, x)
            else:
                self.failed(s, x)

    def failed(self, st, d):
        pass

    def result(self, st, x):
        pass


def wt(item, tok):
    return ('wt', item, tok)


def is_wt(x, item, tok):
    """WithToken { item, token }"""
    return x.op == 'agg' and x.a[1].endswith('WithToken') and fld(x, 'item') is item and fld(x, 'token') is tok


def opt(st, x):
    """None, the content, or '?'"""
    v = st.variant(x)
    return None if v == 'None' else fld(x, '0', 'Some') if v == 'Some' else '?'


def unarc(x):
    return x


class Payload(Parse):
    def start(self, root):
        pass

    def store(self, st, ev, x):
        m = st.mon
        if x.op != 'agg' or not x.a[1].endswith('NodeItem'):
            return None
        var = x.a[2]
        self.count('item:' + var)
        syms, ts = self.hist(st)
        if syms[:1] == ['OpenBrace'] and len(m.hist) < 9 and not m.items:
            syms, ts = syms[1:], ts[1:]
        codes, checks = [], []
        what = {'Node': 'a node', 'Property': 'a property', 'DeletedNode': 'a deleted node', 'DeletedProperty': 'a deleted property'}[var]
        full, fts = list(syms), list(ts)
        omit = lab = None
        good = False
        a = x.a[4]
        self.ctx.obligations += 1
        if var in ('DeletedNode', 'DeletedProperty'):
            good = syms[:2] == [var.replace('Deleted', 'Delete'), 'Ident'] and syms[2:] in (['semi'], ['Semicolon'])
            if not good and syms[:2] == [var.replace('Deleted', 'Delete'), 'Ident'] and not syms[2:]:
                self.bad('semicolon', what, 'no semicolon is required after %s' % what)
                good = True
            if good:
                s = self.text(ts[1])['Ident']
                item = mk('nodename', s) if var == 'DeletedNode' else s
                if natives.chase(self.ip, st, a[0]) is not ts[0] or not is_wt(natives.chase(self.ip, st, a[1]), item, ts[1]):
                    self.tree(var, 'a deleted item is not what the directive names: ' + show(x)[:200])
                checks = [('node' if var == 'DeletedNode' else 'prop', item, fld(ts[1], 'span'))]
        else:
            if syms[:1] == ['OmitIfNoRef']:
                omit, syms, ts = ts[0], syms[1:], ts[1:]
            if syms[:1] == ['Label']:
                lab, syms, ts = ts[0], syms[1:], ts[1:]
                checks.append(('label', self.text(lab)['Label'], fld(lab, 'span')))
            body = natives.chase(self.ip, st, a[0])
            if syms[:1] == ['Ident'] and body.op == 'agg':
                name = self.text(ts[0])['Ident']
                f = lambda n: natives.chase(self.ip, st, fld(body, n))
                L = opt(st, f('label'))
                if not (L is None if lab is None else isinstance(L, T) and is_wt(natives.chase(self.ip, st, L), self.text(lab)['Label'], lab)):
                    self.tree(var + ':label', 'the label of %s is not the one in the source: %s' % (what, show(f('label'))[:150]))
                if var == 'Node' and syms[1:] == ['payload']:
                    good = True
                    item = mk('nodename', name)
                    checks.append(('node', item, fld(ts[0], 'span')))
                    if not is_wt(f('name'), item, ts[0]):
                        self.tree('Node:name', 'the name of a node is not the one in the source: ' + show(f('name'))[:150])
                    if f('payload') is not ts[1]:
                        self.tree('Node:payload', 'the content of a node is not the one in the source: ' + show(f('payload'))[:150])
                    O = opt(st, f('omit_if_no_ref'))
                    if not (O is omit):
                        self.tree('Node:omit', 'a node does not have its /omit-if-no-ref/, or one that is not in the source')
                elif var == 'Property':
                    checks.append(('prop', name, fld(ts[0], 'span')))
                    if not is_wt(f('name'), name, ts[0]):
                        self.tree('Property:name', 'the name of a property is not the one in the source: ' + show(f('name'))[:150])
                    vals, end = f('values'), f('end')
                    if syms[1:] == ['Semicolon']:
                        good = True
                        if vals is not SEQ0:
                            self.tree('Property:values', 'a property without value gets values: ' + show(vals)[:100])
                        if end is not ts[1]:
                            self.tree('Property:end', 'a property does not end at its semicolon')
                    elif syms[1:3] == ['Equal', 'values']:
                        good = True
                        if vals is not ts[2]:
                            self.tree('Property:values', 'the values of a property are not those in the source: ' + show(vals)[:150])
                        if syms[3:] == ['semi']:
                            if not (end is fld(ts[3], '0', 'Some') if st.variant(ts[3]) == 'Some' else end in ts):
                                self.tree('Property:end', 'a property does not end at its semicolon: ' + show(end)[:100])
                        elif syms[3:] == ['Semicolon']:
                            if end is not ts[3]:
                                self.tree('Property:end', 'a property does not end at its semicolon')
                        elif not syms[3:]:
                            self.bad('semicolon', what, 'no semicolon is required after %s' % what)
                        else:
                            good = False
                    span = None
                    if m.node:
                        codes.append(('PropertyAfterNode', None))
                    if omit is not None:
                        codes.append(('IncorrectDirective', fld(omit, 'span')))
        if not good and not m.diag:
            self.tree('lost:' + var, '%s is stored for the symbols %s' % (what, ' '.join(map(str, full))))
        st.mon = m.set(hist=(), pend=(tuple(codes), tuple(checks), what), node=m.node or var == 'Node')
        return self.listed(st, ev)

    def recursion(self, st, ev):
        ip = self.ip
        me = natives.chase(ip, st, ev.args[0])
        d0, d = self.d0, fld(me, 'depth')
        self.count('recursion')
        if d is not mk('bin', 'Add', d0, const(1)):
            self.bad('depth', 'count', 'a nested node is read at depth %s' % show(d)[:100])
        guard = False
        for t, f in st.facts.items():
            if t.op == 'lt' and f[0] == '=':
                x, y = t.a
                if x in (d0, d) and y.op == 'const' and y.a[0] <= 512 and f[1] in (1, True):
                    guard = True
                if y in (d0, d) and x.op == 'const' and x.a[0] <= 512 and f[1] in (0, False):
                    guard = True
        if not guard:
            self.bad('depth', 'guard', 'nested nodes are read to any depth')

    def result(self, st, x):
        m = st.mon
        syms, ts = self.hist(st)
        self.count('result')
        if syms[:1] == ['OpenBrace'] and not m.items:
            syms, ts = syms[1:], ts[1:]
        if syms[:1] == ['CloseBrace'] and syms[1:] in (['semi'], ['Semicolon'], []):
            if not syms[1:]:
                self.bad('semicolon', 'node', 'no semicolon is required after a node')
            elif x.op == 'agg':
                end = natives.chase(self.ip, st, fld(x, 'end'))
                if syms[1] == 'semi' and not (end is fld(ts[1], '0', 'Some') if st.variant(ts[1]) == 'Some' else end is ts[0]) or \
                        syms[1] == 'Semicolon' and end is not ts[1]:
                    self.tree('end', 'a node does not end at its semicolon: ' + show(end)[:100])
        elif not m.diag:
            self.tree('lost:end', 'a node ends after the symbols %s' % ' '.join(map(str, syms)))
        self.list(st, x, 'items')
        me = self.ip.load(st, self.root, ())
        if fld(me, 'depth') is not self.d0:
            self.bad('depth', 'restore', 'the depth after a node is %s' % show(fld(me, 'depth'))[:100])

class File(Parse):
    def store(self, st, ev, x):
        if not (x.op in ('nt', 'old') and (x if x.op == 'nt' else x.a[0]).a[0] == 'primary'):
            return None
        syms, ts = self.hist(st)
        self.count('item')
        self.ctx.obligations += 1
        if syms != ['primary'] or ts[0] is not x:
            self.tree('lost', 'an element of the file is stored for the symbols %s' % ' '.join(map(str, syms)))
        st.mon = st.mon.set(hist=())
        return self.listed(st, ev)

    def result(self, st, x):
        syms, ts = self.hist(st)
        self.count('result')
        if syms:
            self.tree('lost:end', 'what was read last is not in the file: ' + ' '.join(map(str, syms)))
        if st.mon.cur != 'eof':
            self.tree('early', 'the rest of the file is not read')
        self.list(st, x, 'elements')
        src = natives.chase(self.ip, st, fld(x, 'source'))
        if not contains(src, self.me):
            self.tree('source', 'the file has another source: ' + show(src)[:100])


class Labels(Parse):
    """units that skip labels"""
    def settle(self, st):
        super().settle(st)
        h = st.mon.hist
        h = tuple(x for i, x in enumerate(h) if not (x[1] == 'Label' and i + 1 < len(h) and h[i + 1][1] == 'Label'))
        st.mon = st.mon.set(hist=h[:4] + h[-1:] if len(h) > 5 else h)


class Values(Labels):
    def store(self, st, ev, x):
        if not (x.op in ('nt', 'old') and (x if x.op == 'nt' else x.a[0]).a[0] == 'value'):
            return None
        syms, ts = self.hist(st)
        self.count('item')
        self.ctx.obligations += 1
        core = [y for y in syms if y != 'Label']
        if core != (['Comma', 'value'] if st.mon.items else ['value']) or \
                [t for y, t in zip(syms, ts) if y == 'value'][-1] is not x:
            self.tree('lost', 'a value is stored for the symbols %s' % ' '.join(map(str, syms)))
        st.mon = st.mon.set(hist=())
        return self.listed(st, ev)

    def result(self, st, x):
        syms, ts = self.hist(st)
        self.count('result')
        if [y for y in syms if y != 'Label'] or not st.mon.items:
            self.tree('lost:end', 'the values of a property end after the symbols %s' % ' '.join(map(str, syms)))
        m = st.mon
        if m.cur is None or m.cur != 'eof' and self.maybe(st, m.cur, 'Comma'):
            self.tree('early', 'the values of a property may end before a comma')
        self.list(st, x, None)

    def maybe(self, st, t, name):
        return st.maybe(fld(t, 'kind'), name)


class Value(Labels):
    def split(self, st):
        syms, ts = self.hist(st)
        pre = []
        if syms[:1] == ['Bits'] and len(syms) > 1:
            if syms[1] != 'UnparsedNumber' and not st.mon.diag:
                self.tree('bits', 'the width of /bits/ may be a %s' % syms[1])
            syms, ts = syms[2:], ts[2:]
        return syms, ts

    def store(self, st, ev, x):
        b = x.a[0] if x.op == 'old' else x
        if not (b.op == 'nt' and b.a[0] in ('cell', 'bytes')):
            return None
        m = st.mon
        syms, ts = self.split(st)
        n = len(m.hist) - len(syms)
        self.count('item:' + b.a[0])
        self.ctx.obligations += 1
        if syms[:1] != [{'cell': 'ChevronLeft', 'bytes': 'OpenBracket'}[b.a[0]]] or [y for y in syms[1:] if y != 'Label'] != [b.a[0]] or ts[-1] is not x:
            self.tree('lost:' + b.a[0], 'an element of a value is stored for the symbols %s' % ' '.join(map(str, syms)))
        st.mon = m.set(hist=m.hist[:n + 1])
        return self.listed(st, ev)

    def result(self, st, x):
        syms, ts = self.split(st)
        ip = self.ip
        if x.op != 'agg' or not x.a[1].endswith('PropertyValue'):
            self.tree('kind', 'a value is ' + show(x)[:150])
            return
        var = x.a[2]
        self.count('value:' + var)
        a = [natives.chase(ip, st, y) for y in x.a[4]]
        good = False
        if var == 'String':
            good = syms == ['String'] and is_wt(a[0], self.text(ts[0])['String'], ts[0])
        elif var == 'Reference':
            good = syms == ['Ref'] and a[0] is mk('refn', ts[0])
        elif var in ('Cells', 'ByteStrings'):
            o, c = {'Cells': ('ChevronLeft', 'ChevronRight'), 'ByteStrings': ('OpenBracket', 'CloseBracket')}[var]
            core = [(s, t) for s, t in zip(syms, ts) if s != 'Label']
            good = [s for s, t in core] == [o, c] and a[0] is core[0][1] and a[2] is core[1][1]
            self.list(st, x, x.a[3][1])
        if not good:
            self.tree('lost:' + var, 'the value %s is built from the symbols %s' % (show(x)[:120], ' '.join(map(str, syms))))


class Primary(Parse):
    def result(self, st, x):
        ip, m = self.ip, st.mon
        syms, ts = self.hist(st)
        if x.op != 'agg':
            self.tree('kind', 'an element of the file is ' + show(x)[:150])
            return
        var = x.a[2]
        y = natives.chase(ip, st, x.a[4][0])
        if var == 'Directive' and y.op == 'agg':
            var, a = y.a[2], [natives.chase(ip, st, z) for z in y.a[4]]
        else:
            a = [y]
        self.count('element:' + var)
        f = lambda t, n: natives.chase(ip, st, fld(t, n))
        good = False
        semi = syms[-1:] in (['semi'], ['Semicolon'])
        core = syms[:-1] if semi else syms
        want = {'DtsHeader': ['DTSVersionHeader'], 'Plugin': ['Plugin'], 'Memreserve': ['MemReserve', 'mem', 'mem'],
                'DeletedNode': ['DeleteNode', 'Ref'], 'OmitIfNoRef': ['OmitIfNoRef', 'Ref']}.get(var)
        if want:
            good = core == want
            if good and not semi:
                self.bad('semicolon', var, 'no semicolon is required after %s' % var)
            if good:
                if var in ('DtsHeader', 'Plugin'):
                    good = a[0] is ts[0]
                elif var == 'Memreserve':
                    good = f(a[0], 'address') is ts[1] and f(a[0], 'length') is ts[2]
                else:
                    good = a[0] is ts[0] and a[1] is mk('refn', ts[1])
        elif var == 'Include':
            core = syms
            rep = any(c == 'ParserError' for c, _ in m.codes)
            if syms == ['Include', 'String', 'Semicolon']:
                core = syms[:2]
                if not rep:
                    self.bad('semicolon', 'Include', 'a semicolon after an include is not reported')
            good = core == ['Include', 'String'] and f(a[0], 'include_token') is ts[0] and is_wt(f(a[0], 'file_name'), self.text(ts[1])['String'], ts[1]) and \
                f(a[0], 'include_paths') is natives.chase(ip, st, fld(fld(self.me, 'context'), 'include_paths'))
        elif var == 'CStyleInclude':
            good = syms == ['Ident', 'String'] and a[0] is self.text(ts[1])['String']
            if good and not any(f[0] == '=' and f[1] == '#include' for t, f in st.facts.items() if t is self.text(ts[0])['Ident']):
                self.tree('include', 'a name other than #include is taken for an include')
        elif var == 'Root':
            good = syms == ['Slash', 'payload']
            if good:
                n = f(a[0], 'name')
                nm = fld(n, 'item')
                good = f(a[0], 'payload') is ts[1] and opt(st, f(a[0], 'label')) is None and opt(st, f(a[0], 'omit_if_no_ref')) is None and \
                    fld(n, 'token') is ts[0] and nm.op == 'agg' and fld(nm, 'name').op == 'str' and fld(nm, 'name').a[0] == '/' and \
                    st.variant(fld(nm, 'unit_address')) == 'None'
        elif var == 'ReferencedNode':
            good = syms == ['Ref', 'payload'] and f(a[0], 'reference') is mk('refn', ts[0]) and f(a[0], 'payload') is ts[1]
        if not good:
            self.tree('lost:' + var, 'the element %s is built from the symbols %s' % (show(x)[:150], ' '.join(map(str, syms))))


class Semi(Parse):
    def result(self, st, x):
        m = st.mon
        syms, ts = self.hist(st)
        t = opt(st, x)
        self.count('result')
        self.ctx.obligations += 1
        if isinstance(t, T):
            if syms != ['Semicolon'] or t is not ts[0]:
                self.bad('semicolon', 'other', 'something else is taken for a semicolon: ' + ' '.join(map(str, syms)))
        elif t is None:
            if not any(c == 'Expected' for c, _ in m.codes):
                self.bad('semicolon', 'silent', 'a missing semicolon is not reported' + (' at the end of the file' if m.cur == 'eof' else ''))
            for c, span in m.codes:
                start = span.a[4][0] if span.op == 'agg' and span.a[1].endswith('Span') else fld(span, 'start')
                if c == 'Expected' and not (start.op == 'lastpos' or ts and span is fld(ts[0], 'span')):
                    self.bad('semicolon', 'span', 'a missing semicolon is reported at ' + show(span)[:100])
            if syms not in ([], ['Unknown'], ['Comment'], ['Comment|Unknown'], ['Unknown|Comment']):
                self.bad('semicolon', 'skipped:' + str(syms[0]), 'a %s in place of a semicolon is lost' % syms[0])
            if syms and not m.node:
                self.bad('semicolon', 'mode', 'what follows a %s in place of a semicolon is not read as what follows a semicolon' % syms[0])
            if isinstance(m.cur, T) and self.kind(st, m.cur)[0] == 'Semicolon':
                self.bad('semicolon', 'present', 'a semicolon that is there is reported as missing')
        else:
            self.bad('semicolon', 'unknown', 'unknown result: ' + show(x)[:100])


def parser(ctx, which=None):
    F = ctx.F
    found, counts, lefts = {}, {}, {}

    def rep(aspect, key, msg):
        found.setdefault(aspect, {}).setdefault(key, msg)
    c2 = Ctx(F, 'parse')
    U = units(F)
    for u in UNITS:
        if u not in U:
            rep('tree', 'anchor:' + u, 'the parse function for %s is gone' % u)
    for u, cls in CLASSES.items():
        if u not in U or which and u not in which:
            continue
        r = cls(c2, F, u, U, rep)
        ip = Interp(F, r)
        r.ip = ip
        r.judge = judge = partial.judge_of(F)
        b = U[u]
        args = ip.root_args(b)
        st = ip.start(b, args, None, MON0)
        a = args[0]
        r.root = a.a[0]
        me = ip.load(st, a.a[0], ())
        r.me = me
        r.d0 = fld(me, 'depth')
        ip.run(st)
        c2.saw(b)
        judge.bodies |= {b['id']} | set(ip.inlined)
        c2.saw(*[F.bodies[i] for i in ip.inlined if not i.startswith('gkmodels')])
        for k, n in r.n.items():
            counts[(u, k)] = counts.get((u, k), 0) + n
        counts['steps', u] = ip.steps
        lefts[u] = r.left
    # a unit that enters itself before anything was read would not come to an end
    for u in lefts:
        todo, seen = list(lefts[u]), set()
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += lefts.get(v, ())
        if u in seen:
            rep('progress', 'left:' + u, '%s: enters itself before anything was read' % where(U[u]))
    return found, counts, c2


CLASSES = {'payload': Payload, 'file': File, 'values': Values, 'value': Value, 'primary': Primary, 'semi': Semi}
