"""Language server: outline, hover, definition, positions."""
from ..run import check
from ..lib import *
from .analysis import is_span, is_source, spans_of
from .lsp import API, SELF, PARAMS, PROJ, fpath, handler, pos_ok, range_ok, awaited, run_events, collect

AST = 'ginko::dts::ast::'
SPAN = ('HasSpan::span', 'HasSource::source')
DISPLAYS = tuple(n + ' as core::fmt::Display>::fmt' for n in ('Reference', 'DeletedNode', 'Path', 'NodeName', 'WithToken<T>'))
REORDER = ('reverse', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'insert', 'remove',
           'swap', 'swap_remove', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'truncate', 'pop', 'drain', 'split_off', 'clear',
           'rev', 'sorted', 'sorted_by', 'sorted_by_key', 'skip', 'take', 'step_by', 'unique', 'dedup_by', 'rotate_left', 'rotate_right')


def strip(t):
    """t without copies and conversions to text"""
    while True:
        if t.op == 'fmt' and len(t.a[0]) == 1 and not isinstance(t.a[0][0], str):
            t = t.a[0][0][1]
        elif t.op == 'call' and t.a[0].split('::')[-1] in ('to_string', 'clone', 'to_owned', 'into', 'from', 'to_string_lossy') and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def base_of(t, stop=None):
    while t.op == 'fld' and not (stop and stop(t)):
        t = t.a[0]
    return t


def fields_from(t, x):
    """the names of the fields from x to t, or None"""
    out = []
    while t is not x:
        if t.op != 'fld':
            return None
        out.append(t.a[1].split('.')[-1] if '.' in t.a[1] else t.a[1])
        t = t.a[0]
    return out[::-1]


def lspan(x):
    return mk('call', 'ginko::dts::data::HasSpan::span', (x,), None)


def start_ok(p, x):
    """p is the start of the span of x"""
    return p.op == 'fld' and p.a[1] == 'start' and is_span(p.a[0], x)


def end_ok(p, x):
    return p.op == 'fld' and p.a[1] == 'end' and is_span(p.a[0], x)


def lpos(t):
    """the library position that an lsp position is made of"""
    if not (is_agg(t) and t.a[1].endswith('Position')):
        return None
    l = fld(t, 'line')
    return l.a[0] if l.op == 'fld' and l.a[1] == 'line' and fld(t, 'character') is fld(l.a[0], 'character') else None


def inner_gone(loops, coll):
    """loops over parts of the former element of coll are of no interest any more"""
    it = mk('item', coll)
    return tuple(m for m in loops if not any(y is it or y.op == 'old' for y in subs(m[0])))


def drive(ctx, F, r, b, *a, **k):
    """run the rule; violations found before the budget ran out are reported as such"""
    try:
        (run_async if k.pop('asy', False) else run)(F, r, b, *a, **k)
    except Budget:
        if not any(r.bad.values()):
            raise


class Nav(R):
    OPAQUE = API + SPAN + DISPLAYS

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bad, self.n = {}, {}

    def report(self, pid, key, msg):
        self.bad.setdefault(pid, {}).setdefault(key, msg)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_agg(self, st, t):
        if t.a[1].endswith('lsp_types::Position'):
            self.count('position')
            if lpos(t) is None:
                self.report('C09', 'out-position', 'a position sent to the client is not that of the library: ' + show(t)[:300])
        elif t.a[1].endswith('lsp_types::Range'):
            self.count('range')
            s, e = lpos(fld(t, 'start')), lpos(fld(t, 'end'))
            if s is None or e is None:
                return      # reported with the positions
            if s.op == 'fld' and s.a[1] == 'end' or e.op == 'fld' and e.a[1] == 'start':
                self.report('C09', 'out-range', 'start and end of a range sent to the client are mixed up: ' + show(t)[:300])
        self.agg(st, t)

    def agg(self, st, t):
        pass

    def path_of(self, t):
        """t is the file path of the document in the request"""
        return t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0].endswith('Url::to_file_path') and \
            t.a[0].a[1][0] is self.uri

    def api(self, st, ev):
        """arguments of the calls into the library"""
        if is_call(ev, 'Project::get_root', 'Project::find_at_pos', 'Project::document_reference', 'Project::get_node_position'):
            p = natives.chase(self.ip, st, ev.args[1])
            self.count(ev.name)
            if not self.path_of(p):
                self.report(self.pid, 'path:' + ev.name, 'the document of the request is not the one looked at: ' + show(p)[:300])


# ------------------------------------------------------------------ outline
class Symbols(Nav):
    """mon = (loops under way, collections gone through); a loop is (collection, element, state, kind, list that its symbols go to)
    state: -1 needs no symbol, 0 no symbol yet, 1 symbol made, 2 and put into the list, 3 several symbols"""
    pid = 'C34'
    WANTED = ('Property', 'Node', 'DeletedNode', 'DeletedProperty', 'Root', 'ReferencedNode', 'Include', 'OmitIfNoRef')

    def keep_terms(self, st):
        return tuple(t for m in st.mon[0] for t in m[:2]) + tuple(st.mon[1])

    def rename_mon(self, mon, f):
        return (tuple((f(m[0]), f(m[1])) + m[2:] for m in mon[0]), frozenset(map(f, mon[1])))

    def mine(self, coll):
        return coll.op == 'fld' and coll.a[1] in ('items', 'elements')

    def is_sym(self, x):
        if x.op == 'old':
            x = x.a[0]
        return is_agg(x) and x.a[1].endswith('DocumentSymbol') or x.op == 'outline' or x.op == 'item' and x.a[0].op == 'symlist'

    def settle(self, st, c):
        loops, done = st.mon
        tgt = None
        for coll, x, n, what, t in loops:
            if coll is not c:
                continue
            tgt = t
            if n == 0 and (what in self.WANTED or c.op == 'symlist'):
                self.report(self.pid, 'missing:%s:%s' % (c.a[1] if c.op == 'fld' else 'list', what), 'there is no symbol for an element of the kind %s' % what)
            elif n == 3:
                self.report(self.pid, 'twice:%s' % what, 'there are several symbols for one element of the kind %s' % what)
            elif n == 1:
                self.report(self.pid, 'lost:%s' % what, 'the symbol of an element is left out of the list of symbols')
        st.mon = (tuple(m for m in loops if m[0] is not c), done)
        return tgt

    def on_item(self, st, coll, kind, x, first):
        if not (self.mine(coll) or coll.op == 'symlist'):
            return None
        tgt = self.settle(st, coll)
        loops, done = st.mon
        loops = inner_gone(loops, coll)
        if x is None:
            if tgt is not None:
                self.ip.store_at(st, tgt[0], tgt[1], coll if coll.op == 'symlist' else mk('symlist', coll))
            st.mon = (loops, done | {coll})
            return None
        done = frozenset(d for d in done if not contains(d, x) and not any(y.op == 'old' for y in subs(d)))
        if coll.op == 'symlist':
            st.mon = (loops + ((coll, x, 1, '', tgt),), done)
            return None
        out = []
        for s, v in self.ip.fork_variant(st, x, AST + ('NodeItem' if coll.a[1] == 'items' else 'Primary')):
            rs = [(s, v)]
            if v == 'Directive':
                rs = self.ip.fork_variant(s, fld(x, '0', 'Directive'), AST + 'AnyDirective')
            for s2, v2 in rs:
                s2.mon = (loops + ((coll, x, 0, v2, tgt),), done)
                self.count('el:' + v2)
                out.append(s2)
        return out

    def on_head(self, st):
        # the kind of an element is of no interest once it has its symbol (or needs none)
        st.mon = (tuple((c, x, -1 if n == 0 and v not in self.WANTED and c.op != 'symlist' else n, '' if n or v not in self.WANTED else v, t)
                        for c, x, n, v, t in st.mon[0]), st.mon[1])

    def move(self, st, x, f):
        st.mon = (tuple(f(*m) if m[1] is x else m for m in st.mon[0]), st.mon[1])

    def made(self, st, x):
        self.move(st, x, lambda c, x, n, v, t: (c, x, 3 if n > 0 and c.op != 'symlist' else 1, v, t))

    def stored(self, st, x, addr):
        def f(c, x, n, v, t):
            if t is not None and t != addr:
                self.report(self.pid, 'split', 'the symbols of one body are put into several lists')
            return (c, x, 2 if n == 1 else 3, v, addr)
        self.move(st, x, f)

    def on_recursion(self, st, ev):
        """symbols of an inner node: by coinduction"""
        as_ = [natives.chase(self.ip, st, a) for a in ev.args]
        loops = [m for m in st.mon[0] if m[0].op != 'symlist']
        if not loops:
            return None
        x = loops[-1][1]
        hit = [a for a in as_ if contains(a, x) and a.op in ('fld', 'item')]
        if not hit:
            return None
        self.count('nested')
        o = mk('outline', hit[0])
        whole = hit[0] is not fld(fld(x, '0', 'Node'), 'payload') and hit[0].a[1] != 'items'
        if head(ev.body['locals'][0]).endswith('DocumentSymbol'):
            self.made(st, x)
        for a in ev.args:
            b = natives.lastaddr(self.ip, st, a)
            if b.op == 'addr' and self.ip.load(st, *b.a).op in ('seq', 'symlist'):
                if whole:
                    # the symbol of the node itself is added to the list
                    self.made(st, x)
                    self.stored(st, x, b.a)
                self.ip.store_at(st, b.a[0], b.a[1], mk('symlist', fld(fld(fld(x, '0', 'Node'), 'payload'), 'items')) if not whole
                                 else mk('symlist', loops[-1][0]))
        return o

    def outline_of(self, st, t, items, x):
        """t is the list of the symbols of all items (the items of the node x)"""
        t = t.a[4][0] if is_agg(t, None, 'Some') else t
        if t.op == 'outline':
            return x is not None and t.a[0] in (x, fld(x, 'payload'), items)
        if t.op == 'symlist':
            return t.a[0] is items
        return t is natives.SEQ0 and (any(d is items for d in st.mon[1]) or self.ip.truth(st, natives.isempty(items)) is True)

    def agg(self, st, g):
        if not g.a[1].endswith('DocumentSymbol'):
            return
        sel = fld(g, 'selection_range')
        xs = [m[1] for m in reversed(st.mon[0]) if m[0].op != 'symlist' and (contains(sel, m[1]) or contains(fld(g, 'name'), m[1]))]
        if not xs:
            self.report(self.pid, 'stranger', 'a symbol does not describe the element at hand: ' + show(g)[:300])
            return
        x = xs[0]
        self.made(st, x)
        v = st.variant(x)
        y = fld(x, '0', v)
        if v == 'Directive':
            v = st.variant(y)
            y = fld(y, '0', v)
        self.count('sym:' + str(v))
        name, rng, kidst = strip(fld(g, 'name')), fld(g, 'range'), fld(g, 'children')
        s, e = lpos(fld(rng, 'start')), lpos(fld(rng, 'end'))
        ss, se = lpos(fld(sel, 'start')), lpos(fld(sel, 'end'))
        if None in (s, e, ss, se):
            return      # C09
        y1 = mk('fld', y.a[0], v + '.1') if v in ('DeletedNode', 'DeletedProperty', 'OmitIfNoRef') else None
        if v in ('Property', 'Node', 'Root'):
            part, fs = fld(y, 'name'), fields_from(name, y)
            good = fs in ((['name'], ['name', 'item']) if v == 'Property' else (['name', 'name'], ['name', 'item', 'name'], ['name'], ['name', 'item']))
        elif v == 'ReferencedNode':
            part, fs = fld(y, 'reference'), fields_from(name, y)
            good = fs in (['reference'], ['reference', 'item'])
        elif v == 'Include':
            part = fld(y, 'file_name')
            t = fld(g, 'name')
            ps = [strip(p[1]) for p in t.a[0] if not isinstance(p, str)] if t.op == 'fmt' else [name]
            good = len(ps) == 1 and fields_from(ps[0], y) in (['file_name'], ['file_name', 'item'])
        elif y1 is not None:
            part, fs = y1, fields_from(name, y1)
            good = fs in ([], ['item'])
        else:
            self.report(self.pid, 'kind:%s' % v, 'there is a symbol for an element of the kind %s' % v)
            return
        if not good:
            self.report(self.pid, 'name:' + v, 'the symbol of a %s is not called like it: %s' % (v, show(fld(g, 'name'))[:300]))
        if not (start_ok(ss, part) and end_ok(se, part)):
            self.report(self.pid, 'selection:' + v, 'the selection range of a %s is not its name: %s' % (v, show(sel)[:300]))
        if y1 is not None:
            whole = start_ok(s, y) and end_ok(e, y1)
        else:
            whole = start_ok(s, y) and end_ok(e, y)
        if not whole:
            self.report(self.pid, 'range:' + v, 'the range of a %s is not its whole span: %s' % (v, show(rng)[:300]))
        if v in ('Node', 'Root', 'ReferencedNode') and not self.outline_of(st, kidst, fld(fld(y, 'payload'), 'items'), y):
            self.report(self.pid, 'children:' + v, 'the symbol of a %s does not have the symbols of all items of its body: %s' % (v, show(kidst)[:300]))

    def on_call(self, st, ev):
        self.api(st, ev)
        if ev.name in REORDER and ev.args:
            c = natives.chase(self.ip, st, ev.args[0])
            while natives.is_iter(c):
                c = natives.chase(self.ip, st, c.a[4][0])
            if self.mine(c) or c.op == 'symlist':
                self.report(self.pid, 'order', 'the symbols are not those of all elements in their order (%s)' % ev.name)
        if ev.name == 'push' and ev.path.startswith('alloc::vec::Vec'):
            y = natives.chase(self.ip, st, ev.args[-1])
            if y.op == 'upd' and all(k in (('detail', ''), ('tags', ''), ('deprecated', ''), ('kind', ''), 'detail', 'tags', 'deprecated', 'kind') for k, _ in y.a[1]):
                y = y.a[0]
            if self.is_sym(y):
                b = natives.lastaddr(self.ip, st, ev.args[0])
                xs = [m for m in reversed(st.mon[0]) if m[1] is y or m[0].op != 'symlist' and (
                    contains(y, m[1]) if y.op != 'agg' else contains(fld(y, 'selection_range'), m[1]) or contains(fld(y, 'name'), m[1]))]
                if xs and b.op == 'addr':
                    self.stored(st, xs[0][1], b.a)
        return None

    def on_ret(self, st, v):
        self.rets.append((st, v))
        root = None
        url = None
        for k in st.facts:
            if k.op == 'variant' and k.a[0].op == 'call':
                if k.a[0].a[0].endswith('Project::get_root'):
                    root = k.a[0]
                if k.a[0].a[0].endswith('to_file_path'):
                    url = k.a[0]
        if url is not None and st.variant(url) == 'Err':
            return
        if root is None or st.variant(root) == 'None':
            if root is None:
                self.report(self.pid, 'no-tree', 'the outline does not depend on the syntax tree of the document')
            return
        self.count('outline')
        els = fld(fld(root, '0', 'Some'), 'elements')
        t = v.a[4][0] if is_agg(v, None, 'Ok') else v
        t = t.a[4][0] if is_agg(t, None, 'Some') else t
        t = t.a[4][0] if is_agg(t, None, 'Nested') else t
        if not self.outline_of(st, t, els, None):
            self.report(self.pid, 'partial', 'the outline is not the list of the symbols of all declarations: ' + show(t)[:200])


def run_symbols(ctx):
    b = handler(ctx.F, 'document_symbol')
    if not ctx.anchor(b is not None, 'handler document_symbol'):
        return None
    r = Symbols(ctx)
    r.uri = fpath(PARAMS, 'text_document', 'uri')
    drive(ctx, ctx.F, r, b, mon=((), frozenset()), names={1: 'self', 2: 'params'}, asy=True)
    ctx.obligations += sum(r.n.values())
    return r


@check('C34')
def c34(ctx):
    ctx.rule = ('Abstract traces of the document symbol request: each declaration and each item of a node body that is passed makes exactly one symbol, '
                'with the name, range and selection range of that element, and it ends up in the list of its parent (inner nodes by coinduction).')
    r = run_symbols(ctx)
    if r is None:
        return
    for k, m in r.bad.get('C34', {}).items():
        ctx.violate(k, m)
    for k in ('Property', 'Node', 'Root', 'ReferencedNode', 'Include', 'DeletedNode', 'DeletedProperty', 'OmitIfNoRef'):
        ctx.floor('symbols of ' + k, r.n.get('sym:' + k, 0), 1)
    ctx.floor('nested', r.n.get('nested', 0), 1)
    ctx.floor('outlines', r.n.get('outline', 0), 1)


# ------------------------------------------------------------------ hover and definition
FIND, POSI, DOC = 'Project::find_at_pos', 'Project::get_node_position', 'Project::document_reference'


class Goto(Nav):
    pid = 'C39'

    def on_call(self, st, ev):
        self.api(st, ev)
        if is_call(ev, FIND):
            p = natives.chase(self.ip, st, ev.args[2])
            want = fpath(PARAMS, 'text_document_position_params', 'position')
            self.count('cursor')
            if not (fld(p, 'line') is fld(want, 'line') and fld(p, 'character') is fld(want, 'character')):
                self.report('C09', 'in-position', 'the position of the request is not the one looked at: ' + show(p)[:300])
        return None

    def known(self, st, suffix):
        """the call of the library function whose outcome this path depends on"""
        for k in st.facts:
            if k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith(suffix):
                return k.a[0]
        return None

    def on_ret(self, st, v):
        self.rets.append((st, v))
        url = self.known(st, 'Url::to_file_path')
        if url is None:
            self.report(self.pid, 'no-url', 'the answer does not depend on the document of the request')
            return
        t = v.a[4][0] if is_agg(v, None, 'Ok') else None
        none = t is not None and (is_agg(t, None, 'None'))
        some_ = t.a[4][0] if t is not None and is_agg(t, None, 'Some') else None
        if st.variant(url) == 'Err':
            if not none:
                self.report(self.pid, 'bad-url', 'a request without document is answered with ' + show(v)[:200])
            return
        f = self.known(st, 'find_at_pos')
        if f is None:
            self.report(self.pid, 'no-item', 'the answer does not depend on what is at the position of the request: ' + show(v)[:200])
            return
        if st.variant(f) == 'None':
            if not none:
                self.report(self.pid, 'nothing', 'a position without anything is answered with ' + show(v)[:200])
            return
        item = fld(f, '0', 'Some')
        iv = st.variant(item)
        x = fld(item, '0', iv) if iv else None
        if iv is None:
            kinds = st.facts.get(mk('variant', item))
            if not (kinds and kinds[0] == '!' and {'Reference', 'Include'} <= set(kinds[1]) and (self.which == 'goto_definition' or 'Label' in kinds[1])):
                self.report(self.pid, 'kind', 'the kind of the item at the position is not distinguished')
            elif not none:
                self.report(self.pid, 'other', 'an item that has no target is answered with ' + show(v)[:200])
            return
        self.count('item:' + iv)
        self.answer(st, iv, x, none, some_, v)

    def answer(self, st, iv, x, none, some_, v):
        hover = self.which == 'hover'
        if iv == 'Reference':
            c = self.known(st, 'document_reference' if hover else 'get_node_position')
            if c is None or c.a[1][2] is not x:
                self.report(self.pid, 'reference', 'a reference is answered without looking up that reference: ' + show(v)[:200])
                return
            if st.variant(c) == 'None':
                if not none:
                    self.report(self.pid, 'unresolved', 'an unresolved reference is answered with ' + show(v)[:200])
                return
            r = fld(c, '0', 'Some')
            if some_ is None:
                self.report(self.pid, 'resolved', 'a resolved reference is not answered')
            elif hover:
                self.text(some_, r, iv)
            else:
                self.location(some_, fld(r, '1'), iv)
                g = fld(self.scalar(some_), 'range')
                if not range_ok(g, fld(fld(r, '0'), 'start'), fld(fld(r, '0'), 'end')):
                    self.report(self.pid, 'target', 'the definition of a reference is not at the position of the node: ' + show(g)[:300])
        elif iv == 'Include':
            if hover:
                if some_ is None:
                    self.report(self.pid, 'include', 'an include is not answered')
                else:
                    self.text(some_, fld(x, 'file_name'), iv)
                return
            p = mk('call', 'ginko::dts::ast::Include::path', (x,), None)
            pv = [k.a[0] for k in st.facts if k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('Include::path') and k.a[0].a[1][0] is x]
            if not pv:
                self.report(self.pid, 'include', 'the definition of an include does not depend on its file: ' + show(v)[:200])
                return
            found = st.variant(pv[0]) == 'Ok' and not any(
                k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('from_file_path') and f == ('=', 'Err') for k, f in st.facts.items())
            if not found and not none:
                self.report(self.pid, 'include-missing', 'an include that cannot be found is answered with ' + show(v)[:200])
            elif found and some_ is None:
                self.report(self.pid, 'include-found', 'an include that can be found is not answered')
            elif found:
                self.location(some_, fld(pv[0], '0', 'Ok'), iv)
        elif iv == 'Label' and hover:
            if some_ is None:
                self.report(self.pid, 'label', 'a label is not answered')
            else:
                self.text(some_, x, iv)
        elif not none:
            self.report(self.pid, 'other:' + iv, 'an item that has no target is answered with ' + show(v)[:200])

    def scalar(self, t):
        return t.a[4][0] if is_agg(t, None, 'Scalar') else t

    def location(self, t, path, what):
        u = fld(self.scalar(t), 'uri')
        src = [c for c in subs(u) if c.op == 'call' and c.a[0].endswith('Url::from_file_path')]
        self.count('location')
        if not (src and strip(src[0].a[1][0]) is path):
            self.report(self.pid, 'uri:' + what, 'the definition is not located in the file of its target: ' + show(u)[:300])

    def text(self, t, want, what):
        c = fld(t, 'contents')
        aggs = [x for x in subs(c) if is_agg(x) and x.a[2] == 'String' and 'MarkedString' in x.a[1]] or \
            [x for x in subs(c) if is_agg(x) and x.a[1].endswith('MarkupContent')]
        self.count('text')
        s = strip(aggs[0].a[4][0] if aggs and aggs[0].a[2] == 'String' else fld(aggs[0], 'value') if aggs else c)
        if not (s is want or s is fld(want, 'item')):
            self.report(self.pid, 'text:' + what, 'the text shown for a %s is not its own: %s' % (what, show(s)[:300]))


class Lookup(R):
    OPAQUE = SPAN + ('Project::get_file', 'DtsFile::item_at_cursor')


def entry(t, path):
    """t is the project file stored for the path"""
    if t.op == 'fld' and t.a[1] == 'Some.0':
        t = t.a[0]
    if t.op == 'call' and t.a[0].endswith('get_file'):
        return t.a[1][1] is path
    return t.op == 'mapget' and contains(t.a[1], path)


def part(t, path):
    """the fields from the project file of the path to t"""
    out = []
    while t.op == 'fld':
        if entry(t, path):
            return out[::-1]
        out.append(t.a[1].split('.')[-1])
        t = t.a[0]
    return None


def library(ctx):
    F = ctx.F
    me, path, arg = mk('arg', 'self'), mk('arg', 'path'), mk('arg', 'arg')

    def rets(name, cls=Lookup, args=(me, path, arg)):
        b = body(F, name)
        if not ctx.anchor(b is not None, name):
            return []
        r = cls(ctx)
        run(F, r, b, list(args))
        return r.rets

    n = 0
    for st, v in rets('Project::find_at_pos'):
        if is_agg(v, None, 'None'):
            continue
        n += 1
        ok_ = v.op == 'call' and v.a[0].endswith('item_at_cursor') and v.a[1][1] is arg and part(v.a[1][0], path) in (['file', '0'], ['file'])
        ctx.oblige(ok_, 'find_at_pos', 'the item at a position is not looked up in the tree of the file: ' + show(v)[:300])
    ctx.floor('tree lookups', n, 1)
    for name in ('Project::document_reference', 'Project::get_node_position'):
        n = 0
        for st, v in rets(name):
            how, node = resolved(ctx, st, arg, lambda c: part(c, path) in (['context', '0'], ['context']), name)
            if how is None:
                ctx.oblige(is_agg(v, None, 'None') and any(k.op == 'variant' and f == ('=', 'None') for k, f in st.facts.items()),
                           name + ':without', '%s answers without looking up the reference: %s' % (name, show(v)[:200]))
                continue
            n += 1
            if how == 'none':
                ctx.oblige(is_agg(v, None, 'None'), name + ':none', '%s answers an unresolved reference: %s' % (name, show(v)[:200]))
                continue
            nm = fld(node, 'name')
            if not ctx.oblige(is_agg(v, None, 'Some'), name + ':some', '%s does not answer a resolved reference' % name):
                continue
            t = v.a[4][0]
            if name.endswith('position'):
                ctx.oblige(is_span(fld(t, '0'), nm) and is_source(fld(t, '1'), nm), name + ':position',
                           'the position of a node is not that of its name in its file: ' + show(t)[:300])
            else:
                ps = [strip(p[1]) for p in t.a[0] if not isinstance(p, str)] if t.op == 'fmt' else []
                ctx.oblige(len(ps) == 1 and fields_from(ps[0], nm) is not None, name + ':text',
                           'the text shown for a node does not have its name: ' + show(t)[:300])
        ctx.floor(name + ' found', n, 2)
    n = {}
    for st, v in rets('AnalysisContext::get_referenced', R, (me, arg)):
        rv = st.variant(arg)
        n[rv] = n.get(rv, 0) + 1
        how, node = resolved(ctx, st, arg, lambda c: c is me, 'referenced', v)
        if how == 'some':
            ctx.oblige(v is node or is_agg(v, None, 'Some') and v.a[4][0] is node, 'referenced:node',
                       'a reference resolves to something else than the node of its label or path: ' + show(v)[:200])
        elif how == 'none':
            ctx.oblige(is_agg(v, None, 'None'), 'referenced:none', 'a reference that is not defined is resolved: ' + show(v)[:200])
    for k in ('Label', 'Path'):
        ctx.floor('lookups by ' + k, n.get(k, 0), 1)


def resolved(ctx, st, ref, isctx, what, v=None):
    """what the trace knows of the reference: ('some', node), ('none', None) or (None, None) when it did not look it up"""
    rv = st.variant(ref)
    got = [k.a[0] for k in st.facts if k.op == 'variant' and k.a[0].op == 'mapget' and isctx(base_of(k.a[0].a[0], isctx))]
    if v is not None and v.op == 'mapget':
        got = [v]
    if not got and v is None:
        return None, None
    if not ctx.oblige(rv is not None and len(got) == 1 and got[0].a[1] is fld(ref, '0', rv) and isctx(base_of(got[0].a[0], isctx)), what + ':key',
                      'a reference is not looked up under its own label or path: ' + show(got[0] if got else ref)[:200]):
        return 'bad', None
    e = fld(got[0], '0', 'Some')
    if rv == 'Path':
        if v is got[0]:
            return 'some', v
        return ('some', e) if st.variant(got[0]) == 'Some' else ('none', None)
    if not ctx.oblige(v is not got[0], what + ':label', 'any labelled item is taken for a node'):
        return 'bad', None
    if st.variant(got[0]) == 'Some' and st.variant(e) in ('Node', None):
        ctx.oblige(st.variant(e) == 'Node', what + ':label', 'any labelled item is taken for a node')
        return 'some', fld(e, '1', 'Node')
    return 'none', None


_goto = {}


def run_goto(ctx):
    out = {}
    for w in ('goto_definition', 'hover'):
        b = handler(ctx.F, w)
        if not ctx.anchor(b is not None, 'handler ' + w):
            continue
        if (ctx.F, w) not in _goto:
            r = Goto(ctx)
            r.which = w
            r.uri = fpath(PARAMS, 'text_document_position_params', 'text_document', 'uri')
            run_async(ctx.F, r, b, names={1: 'self', 2: 'params'})
            _goto[(ctx.F, w)] = r
        r = out[w] = _goto[(ctx.F, w)]
        ctx.saw(b)
        ctx.obligations += len(r.rets)
    return out


@check('C39')
def c39(ctx):
    ctx.rule = ('Value-flow in all abstract traces of the hover and definition requests: the item at the position of the request decides the answer; '
                'a reference is answered with the name and position of the node that the analysis of this file has for its label or path, an include with its file, '
                'a label with its text; anything else with nothing.')
    rs = run_goto(ctx)
    for w, r in rs.items():
        for k, m in r.bad.get('C39', {}).items():
            ctx.violate(w + ':' + k, m)
        for iv in ('Reference', 'Include') + (('Label',) if w == 'hover' else ()):
            ctx.floor('%s of %s' % (w, iv), r.n.get('item:' + iv, 0), 1)
    library(ctx)


@check('C09')
def c09(ctx):
    ctx.rule = ('Value-flow: every position and range in an answer or a published diagnostic has line and character of one position of the library, start and '
                'end as in its span; the position of a request is handed to the library unchanged.')
    rs = run_goto(ctx)
    s = run_symbols(ctx)
    for w, r in list(rs.items()) + [('document_symbol', s)]:
        if r is None:
            continue
        for k, m in r.bad.get('C09', {}).items():
            ctx.violate(w + ':' + k, m)
        if w != 'hover':
            ctx.floor(w + ' ranges', r.n.get('range', 0), 1)
        if w != 'document_symbol':
            ctx.floor(w + ' positions', r.n.get('cursor', 0), 1)
    es = run_events(ctx)
    collect(ctx, 'C09', es)
    ctx.floor('published diagnostics', sum(r.n.get('diag', 0) for r in es.values()), 2)


# ------------------------------------------------------------------ options
class Options(R):
    """mon = (include paths given to the project, file added, there are none on the command line)"""
    OPAQUE = ('Parser::parse', 'Parser::try_parse', 'Default>::default', 'Project::add_file', 'Project::add_file_with_text', 'Project::set_include_paths',
              'Project::project_files', 'ProjectFile::diagnostics', 'ProjectFile::source', 'Project::all_diagnostics', 'Backend::new')

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = {}

    def bad(self, key, msg):
        self.ctx.violate(key, msg)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def option(self, t):
        """t is (the value of) the command line option for include paths"""
        return t.op == 'fld' and t.a[1] == 'include' and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] in ('parse', 'Ok.0')

    def paths_ok(self, st, t, what):
        """t holds all the include paths of the command line"""
        opts = [k.a[0] for k in st.facts if k.op == 'variant' and k.a[0].op == 'fld' and k.a[0].a[1] == 'include']
        opts += [x for x in subs(t) if x.op == 'fld' and x.a[1] == 'include' and x not in opts]
        if st.mon[2]:
            return
        if not opts:
            self.bad(what + ':ignored', '%s does not use the include paths of the command line: %s' % (what, show(t)[:200]))
            return
        o = opts[0]
        vec = fld(o, '0', 'Some')
        v = st.variant(o)
        if v == 'None' or self.ip.truth(st, natives.isempty(vec)) is True:
            return
        full = t is vec or t is o
        if t.op == 'seq' and t.a[1] and t.a[0] is None:
            full = all(strip(y if y.op != 'old' else y.a[0]) is mk('item', vec) for y in t.a[1]) and self.complete
        if t.op == 'call' and t.a[0].split('::')[-1] in ('unwrap_or_default', 'unwrap_or_else', 'unwrap_or') and t.a[1][0] is o:
            full = True
        if not full:
            self.bad(what + ':include', '%s does not get all include paths of the command line: %s' % (what, show(t)[:300]))

    complete = True

    def on_call(self, st, ev):
        if not st.mon[2] and any(k.op == 'variant' and k.a[0].op == 'fld' and k.a[0].a[1] == 'include' and f == ('=', 'None') for k, f in st.facts.items()):
            st.mon = st.mon[:2] + (True,)
        if ev.name in REORDER + ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'nth', 'first', 'last') and ev.args and any(
                x.op == 'fld' and x.a[1] == 'include' for a in ev.args for x in subs(natives.chase(self.ip, st, a))):
            self.bad('subset', 'only some of the include paths of the command line are used, or in another order (%s)' % ev.name)
        if is_call(ev, 'Project::set_include_paths'):
            self.count('set')
            self.paths_ok(st, natives.chase(self.ip, st, ev.args[1]), 'the project')
            if st.mon[1]:
                self.bad('late', 'the include paths are set after the file was analysed')
            st.mon = (True,) + st.mon[1:]
        if is_call(ev, 'Project::add_file'):
            self.count('add')
            t = strip(natives.chase(self.ip, st, ev.args[1]))
            if not (t.op == 'fld' and t.a[1] == 'file'):
                self.bad('file', 'the file analysed is not the one of the command line: ' + show(t)[:200])
            if not st.mon[0] and not st.mon[2]:
                self.bad('unset', 'the file is analysed without the include paths of the command line')
            st.mon = (st.mon[0], True, st.mon[2])
        if is_call(ev, 'Backend::new'):
            self.count('backend')
            ts = [natives.chase(self.ip, st, a) for a in ev.args[1:]]
            for t in ts:
                self.paths_ok(st, t, 'the server')
            if not ts:
                self.bad('server', 'the server does not get the include paths of the command line')
        if ev.path.endswith('LspService::new') or ev.path.endswith('LspService::build'):
            return self.ip.call_value(st, ev, ev.args[0], [mk('opaque', 'client')], lambda v: mk('opaque', 'service'))
        return None


@check('C37')
def c37(ctx):
    ctx.rule = ('Value-flow: the include paths that the project gets are those of the command line (tool and server) and of the configuration of the client, they are set '
                'before the file is added; the file added is the one of the command line.')
    F = ctx.F
    b = body(F, 'main', 'ginko-bin')
    if ctx.anchor(b is not None, 'main of the command line tool'):
        r = Options(ctx)
        run(F, r, b, mon=(False, False, False))
        ctx.floor('include paths of the tool', r.n.get('set', 0), 1)
        ctx.floor('files of the tool', r.n.get('add', 0), 1)
        ctx.obligations += sum(r.n.values())
    bs = [b for b in F.bodies.values() if b['crate'] == 'ginko_ls-bin' and b['kind'] == 'coroutine' and '::main' in b['id']]
    if ctx.anchor(len(bs) == 1, 'main of the language server'):
        r = Options(ctx)
        run(F, r, bs[0], [mk('agg', 'coroutine', bs[0]['id'], '', (), ()), mk('opaque', 'cx')], mon=(False, False, False))
        ctx.floor('servers', r.n.get('backend', 0), 1)
        ctx.obligations += sum(r.n.values())
    b = body(F, 'Backend::new')
    if ctx.anchor(b is not None, 'Backend::new'):
        r = R(ctx, ('Default>::default',))
        args = [mk('arg', 'arg%d' % i) for i in range(b['argc'])]
        run(F, r, b, args)
        for st, v in r.rets:
            for i in range(1, b['argc']):
                ctx.oblige(any(f is args[i] for f in v.a[4]), 'server-arg', 'the server does not keep what it got from the command line')
    es = run_events(ctx)
    collect(ctx, 'C37', es)
    ctx.floor('configurations', sum(1 for w in ('initialize', 'did_change_configuration') if w in es), 2)


# ------------------------------------------------------------------ what is at a position
ROOTF, CUR = mk('arg', 'self'), mk('arg', 'cursor')


class AtCursor(R):
    """mon = (loops under way: (collection, element, kind, labelled), probes that failed: AST elements whose span does not contain the position,
    collections gone through, the element whose span contains the position)"""
    OPAQUE = SPAN + ('Span::contains',)

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bad, self.n = {}, {}

    def report(self, key, msg):
        self.bad.setdefault(key, msg)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def keep_terms(self, st):
        return tuple(m[1] for m in st.mon[0]) + tuple(st.mon[1]) + tuple(st.mon[2]) + ((st.mon[3],) if st.mon[3] is not None else ())

    def rename_mon(self, mon, f):
        return (tuple((f(c), f(x), k, l) for c, x, k, l in mon[0]), frozenset(map(f, mon[1])), frozenset(map(f, mon[2])),
                f(mon[3]) if mon[3] is not None else None)

    KINDS = {'elements': 'Primary', 'items': 'NodeItem', 'values': 'PropertyValue', 'Cells.1': 'Cell'}

    def missed(self, t):
        return t in self.m[1] or t in self.m[2]

    def settle(self, st, c):
        loops, miss, done, hit = st.mon
        self.m = st.mon
        for coll, x, k, lab in loops:
            if coll is not c:
                continue
            need = []
            y = fld(x, '0', k)
            if k == 'Include':
                y = fld(fld(x, '0', 'Directive'), '0', k)
                need = [('include', y)]
            elif k in ('DeletedNode', 'OmitIfNoRef') and c.a[1] == 'elements':
                need = [('reference', mk('fld', fld(x, '0', 'Directive'), k + '.1'))]
            elif k == 'ReferencedNode':
                need = [('reference', fld(y, 'reference')), ('body', fld(fld(y, 'payload'), 'items'))]
            elif k in ('Root', 'Node'):
                need = ([('label', fld(fld(y, 'label'), '0', 'Some'))] if lab else []) + [('body', fld(fld(y, 'payload'), 'items'))]
            elif k == 'Property':
                need = ([('label', fld(fld(y, 'label'), '0', 'Some'))] if lab else []) + [('values', fld(y, 'values'))]
            elif k == 'Cells':
                need = [('cells', fld(x, '1', 'Cells'))]
            elif k == 'Reference':
                need = [('reference', y)]
            # (the span of a property without semicolon ends before its values)
            pruned = any(self.missed(z) for z in (x, y)) and k not in ('Include', 'Reference', 'Property')
            for what, t in need:
                self.count('need:' + what)
                if not self.missed(t) and not pruned and not (what == 'body' and any(
                        self.missed(z) for z in (y, fld(y, 'payload'), x))) and self.ip.truth(st, natives.isempty(t)) is not True:
                    self.report('missed:%s:%s' % (k, what), 'a position in the %s of an element of the kind %s is not recognised' % (what, k))
        st.mon = (tuple(m for m in loops if m[0] is not c), miss, done, hit)

    def on_item(self, st, coll, kind, x, first):
        if coll.op != 'fld' or coll.a[1] not in self.KINDS:
            return None
        self.settle(st, coll)
        loops, miss, done, hit = st.mon
        loops = inner_gone(loops, coll)
        if x is None:
            st.mon = (loops, miss, done | {coll}, hit)
            return None
        fresh = lambda s: frozenset(d for d in s if not contains(d, x) and not any(y.op == 'old' for y in subs(d)))
        miss, done = fresh(miss), fresh(done)
        out = []
        for s, v in self.ip.fork_variant(st, x, AST + self.KINDS[coll.a[1]]):
            rs = [(s, v)]
            if v == 'Directive':
                rs = self.ip.fork_variant(s, fld(x, '0', 'Directive'), AST + 'AnyDirective')
            for s2, v2 in rs:
                lab = [(s2, False)]
                if v2 in ('Root', 'Node', 'Property'):
                    lab = [(s3, l == 'Some') for s3, l in self.ip.fork_variant(s2, fld(fld(x, '0', v2), 'label'), 'core::option::Option')]
                for s3, l in lab:
                    s3.mon = (loops + ((coll, x, v2, l),), miss, done, hit)
                    self.count('el:' + v2)
                    out.append(s3)
        return out

    def element(self, t):
        """the AST element that t is the span of"""
        if t.op == 'call' and t.a[0].endswith('HasSpan::span'):
            t = t.a[1][0]
        elif t.op == 'fld' and t.a[1] == 'span':
            t = t.a[0]
        else:
            return None
        return t.a[0] if t.op == 'fld' and t.a[1] == 'token' else t

    def on_call(self, st, ev):
        if is_call(ev, 'Span::contains'):
            sp, p = (natives.chase(self.ip, st, a) for a in ev.args[:2])
            e = self.element(sp)
            self.count('probe')
            if p is not CUR:
                self.report('position', 'a span is compared with another position than the one given: ' + show(p)[:200])
            s2 = st.copy()
            if e is None:
                return None
            loops, miss, done, hit = st.mon
            st.mon = (loops, miss | {e}, done, hit)
            s2.mon = (loops, miss, done, e)
            return [(st, FALSE), (s2, TRUE)]
        if ev.name in REORDER and ev.args:
            c = natives.chase(self.ip, st, ev.args[0])
            while natives.is_iter(c):
                c = natives.chase(self.ip, st, c.a[4][0])
            if c.op == 'fld' and c.a[1] in self.KINDS and ev.name in ('skip', 'take', 'step_by', 'dedup', 'unique'):
                self.report('order', 'not all elements are looked at (%s)' % ev.name)
        return None

    def on_recursion(self, st, ev):
        """an inner node: by coinduction it finds what is at the position, if there is anything"""
        as_ = [natives.chase(self.ip, st, a) for a in ev.args]
        x = next((a for a in as_ if a.op in ('fld', 'item') and a is not CUR), None)
        if x is None or CUR not in as_:
            self.report('recursion', 'an inner node is searched for another position')
            return None
        self.count('nested')
        s2 = st.copy()
        loops, miss, done, hit = st.mon
        st.mon = (loops, miss, done | {x}, hit)
        s2.mon = (loops, miss, done, mk('inner', x))
        return [(st, NONE), (s2, some(mk('inner', x)))]

    def on_ret(self, st, v):
        self.rets.append((st, v))
        loops, miss, done, hit = st.mon
        if is_agg(v, None, 'None'):
            if not any(d is fld(ROOTF, 'elements') for d in done):
                self.report('none', 'nothing is found although not all declarations have been looked at')
            self.count('none')
            return
        t = v.a[4][0] if is_agg(v, None, 'Some') else v
        if t.op == 'inner':
            self.count('some')
            return
        if not is_agg(t) or hit is None:
            self.report('some', 'something is found that does not contain the position: ' + show(v)[:200])
            return
        self.count('found:' + t.a[2])
        y = t.a[4][0]
        what = 'Label' if hit.op == 'fld' and hit.a[1] == 'Some.0' and hit.a[0].a[1] == 'label' else \
            'Include' if hit.op == 'fld' and hit.a[1] == 'Include.0' else 'Reference'
        if t.a[2] != what or y not in (hit, fld(hit, 'item')):
            self.report('found', 'the item found is not the one that contains the position: %s' % show(t)[:300])


@check('C08')
def c08(ctx):
    ctx.rule = ('Abstract traces of the search for the item at a position: an element is only passed after the spans of its label, its references and '
                'all its inner elements (inner nodes by coinduction) have been compared with the position; what is returned is the element whose span contains it.')
    F = ctx.F
    b = next((x for x in F.bodies.values() if x['path'].endswith('DtsFile>::item_at_cursor') or x['path'].endswith('DtsFile::item_at_cursor')), None)
    if ctx.anchor(b is not None, 'DtsFile::item_at_cursor'):
        r = AtCursor(ctx)
        drive(ctx, F, r, b, [ROOTF, CUR], mon=((), frozenset(), frozenset(), None))
        for k, m in r.bad.items():
            ctx.violate(k, m)
        for k in ('found:Include', 'found:Reference', 'found:Label', 'none', 'nested', 'need:label', 'need:body', 'need:values', 'need:cells', 'need:reference'):
            ctx.floor(k, r.n.get(k, 0), 1)
        ctx.obligations += sum(r.n.values())
    b = body(F, 'Span::contains')
    if ctx.anchor(b is not None, 'Span::contains'):
        S, P = mk('arg', 'self'), mk('arg', 'position')
        lo, hi = mk('lt', P, fld(S, 'start')), mk('lt', P, fld(S, 'end'))
        for before in (0, 1):
            for inside in (0, 1):
                r = R(ctx)
                run(F, r, b, [S, P], facts={lo: ('=', before), hi: ('=', inside)})
                for st, v in r.rets:
                    got = r.ip.truth(st, v)
                    ctx.oblige(got is (not before and bool(inside)), 'contains:%d%d' % (before, inside),
                               'a span does not contain exactly the positions from its start (inclusive) to its end (exclusive): %s' % show(v))
    pos = next((k for k in F.adts if k.endswith('data::Position')), None)
    if ctx.anchor(pos is not None, 'Position'):
        fs = [f['name'] for f in F.adts[pos]['variants'][0]['fields']]
        ctx.oblige(fs[:2] == ['line', 'character'], 'position-order', 'positions are not ordered by line first')
