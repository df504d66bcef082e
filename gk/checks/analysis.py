"""Analysis of a file: header rules, references, definitions, includes, compatible strings."""
from ..run import check
from ..lib import *

FILE, TYPE, PROJECT, SELF = (mk('arg', n) for n in ('file', 'file_type', 'project', 'self'))
ELEMS = fld(FILE, 'elements')
AST = 'ginko::dts::ast::'


def dterm(d, f):
    return fld(d, f)


def spans_of(x):
    """terms that denote the span of the AST element x"""
    return {fld(x, 'span'), fld(fld(x, 'token'), 'span')}


def is_span(t, x):
    """t is the span of element / token x"""
    if t in spans_of(x):
        return True
    if t.op == 'call' and t.a[0].split('::')[-1] == 'span' and t.a[1][0] in (x, fld(x, 'token')):
        return True
    return False


def is_source(t, x):
    xs = (x, fld(x, 'token'))
    return t in tuple(fld(y, 'source') for y in xs) or t.op == 'call' and t.a[0].split('::')[-1] == 'source' and t.a[1][0] in xs


class Ana(R):
    """abstract traces of the analysis of one file; the growing collections of its context are event sinks"""
    OPAQUE = ('Include::path', 'ImportGuard::add', 'Project::get_file', 'ProjectFile::has_errors',
              'HasSpan::span', 'HasSource::source', 'Diagnostic::cyclic_dependency_error')
    budget = 5000000

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = {}
        self.bad = {}

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def report(self, key, msg):
        self.bad.setdefault(key, msg)

    # events, to be overridden ------------------------------------------------
    def ev_primary(self, st, x, v, inner):
        """x: primary (None at the end), v: variant, inner: directive variant"""

    def ev_item(self, st, x, v, coll):
        """element of a node body (None at its end)"""

    def ev_value(self, st, x, v, coll):
        """property value"""

    def ev_cell(self, st, x, v, coll):
        pass

    def ev_diag(self, st, d):
        pass

    def ev_label(self, st, key, val):
        pass

    def ev_node(self, st, key, val):
        pass

    def ev_defer(self, st, r):
        pass

    def ev_deferred(self, st, x, coll):
        pass

    def ev_lookup(self, st, kind, key, t):
        pass

    def ev_listed(self, st, x, coll):
        pass

    def ev_list(self, st, x):
        """a reference is put into a list that is not part of the context"""

    def mapfield(self, name):
        if self._rl is None:
            self._rl = roles(self.ip.F)
        return self._rl.get(name) in ('labels', 'nodes')

    _rl = None

    def ev_merge(self, st, kind, src):
        pass

    def ev_recurse(self, st, ev):
        pass

    split_node_items = True

    # plumbing -----------------------------------------------------------------
    def sink(self, st, a, name):
        self.ip.store_at(st, a.a[0], a.a[1], mk('sink', name))

    def on_call(self, st, ev):
        ip = self.ip
        if ev.path.startswith('alloc::vec::Vec::') and ev.name in ('push', 'extend', 'append', 'insert') or \
                ev.name == 'extend' and ev.path.startswith('core::iter'):
            a = natives.lastaddr(ip, st, ev.args[0])
            if a.op == 'addr' and a.a[1] and a.a[0][0] == 'L' and self.is_ctx(st, a):
                x = natives.chase(ip, st, ev.args[-1])
                if ev.name == 'extend' and natives.is_iter(x) and x.a[0] == 'ad':
                    return None           # one by one
                if ev.name == 'extend' or ev.name == 'append':
                    return self.merge(st, a, x)
                fld_ = a.a[1][-1][0]
                if is_agg(x) and x.a[1].endswith('Diagnostic') or x.op == 'call' and x.a[0].endswith('_error'):
                    r = self.ev_diag(st, x)
                    self.dfield = fld_
                    self.sink(st, a, fld_)
                    return UNIT if r is None else r
                if self.is_ref(x, ev):
                    self.rfield = fld_
                    self.ev_defer(st, x)
                    self.sink(st, a, fld_)
                    return UNIT
            elif a.op == 'addr' and ev.name == 'push' and self.is_ref(ev.args[-1], ev):
                self.ev_list(st, natives.chase(ip, st, ev.args[-1]))
        if ev.path.startswith(natives.MAPTY):
            a = natives.lastaddr(ip, st, ev.args[0])
            if ev.name == 'insert' and a.op == 'addr' and a.a[1] and self.is_ctx(st, a):
                k, v = (natives.chase(ip, st, x) for x in ev.args[1:3])
                kind = self.keykind(ev, k)
                if self.copied(st, k, v, a.a[1][-1][0]):
                    pass
                elif kind == 'label':
                    self.lfield = a.a[1][-1][0]
                    self.ev_label(st, k, v)
                else:
                    self.nfield = a.a[1][-1][0]
                    self.ev_node(st, k, v)
                self.sink(st, a, a.a[1][-1][0])
                return mk('opaque', 'old entry')
            if ev.name == 'extend' and a.op == 'addr' and a.a[1] and self.is_ctx(st, a):
                x = natives.chase(ip, st, ev.args[1])
                if natives.is_iter(x) and x.a[0] == 'ad':
                    return ip.inline(st, ev, ip.F.bodies['gkmodels::map__extend'], [ev.args[0], x])
                return self.merge(st, a, x)
            if ev.name in ('get', 'contains_key', 'get_key_value') and (a.op == 'addr' and a.a[1] and self.is_ctx(st, a) or
                                                        natives.chase(ip, st, ev.args[0]).op == 'sink'):
                k = natives.chase(ip, st, ev.args[1])
                m = natives.chase(ip, st, ev.args[0])
                kind = self.keykind(ev, k)
                t = mk('lookup', kind, k)
                ip.vadt[t] = ['None', 'Some']
                out = []
                for s, vn in ip.fork_variant(st, t, 'core::option::Option'):
                    if vn == 'None':
                        self.ev_lookup(s, kind, k, None)
                        out.append((s, FALSE if ev.name == 'contains_key' else NONE))
                    elif kind == 'label':
                        p = fld(t, '0', 'Some')
                        for s2, v2 in ip.fork_variant(s, p, 'ginko::dts::analysis::Labeled'):
                            self.ev_lookup(s2, kind, k, (p, v2))
                            out.append((s2, TRUE if ev.name == 'contains_key' else some(p)))
                    else:
                        self.ev_lookup(s, kind, k, (fld(t, '0', 'Some'), None))
                        out.append((s, TRUE if ev.name == 'contains_key' else some(fld(t, '0', 'Some'))))
                return out
        return None

    KEEP_FLAGS = False

    def on_head(self, st):
        """forget what the collections (and, unless the rule needs them, the flags) of the context hold, and what is known about earlier elements"""
        for k in [k for k in st.facts if any(x.op == 'old' or x.op == 'sink' and k.op != 'isempty' for x in subs(k)) and not self.sticky(k)]:
            del st.facts[k]
        for r, v in st.store.items():
            tys = self.ftypes(v.a[1]) if v.op == 'agg' and v.a[0] == 'adt' and r[0] == 'L' else None
            if tys:
                vals = []
                for n, x in zip(v.a[3], v.a[4]):
                    t = tys.get(n, '')
                    if t.startswith(('alloc::vec::Vec', 'std::collections')):
                        x = mk('sink', n)
                    elif t == 'bool' and (n not in self.KEEP_FLAGS if isinstance(self.KEEP_FLAGS, set) else not self.KEEP_FLAGS):
                        x = mk('sink', n)
                    vals.append(x)
                st.store[r] = mk('agg', *v.a[:4], tuple(vals))

    _ft = None

    def ftypes(self, name):
        """field types of the context struct: the one that collects diagnostics, labels and nodes"""
        if self._ft is None:
            self._ft = {}
            for k, a in self.ip.F.adts.items():
                if k.startswith('ginko::') and len(a['variants']) == 1:
                    t = {f['name']: f['ty'] for f in a['variants'][0]['fields']}
                    if all(any(x.startswith(w) and y in x for x in t.values()) for w, y in (
                            ('alloc::vec::Vec<', 'Diagnostic'), ('std::collections', 'Labeled'), ('std::collections', 'ast::Path'))):
                        self._ft[k] = t
        return self._ft.get(name)

    # a map that is copied entry by entry: fact copying(map, field) = 0 entry met, 1 entry copied, 2 an entry was passed over
    def copied(self, st, k, v, field):
        if k.op == v.op == 'fld' and k.a[0] is v.a[0] and k.a[0].op == 'item' and k.a[1] == '0' and v.a[1] == '1':
            for q, f in list(st.facts.items()):
                if q.op == 'copying' and q.a[0] is k.a[0].a[0] and q.a[1] in (NONE, strc(field)):
                    del st.facts[q]
                    st.facts[mk('copying', q.a[0], strc(field))] = ('=', max(f[1], 1))
                    return True
        return False

    def copy_item(self, st, coll, x, first):
        q = next((q for q in st.facts if q.op == 'copying' and q.a[0] is coll), mk('copying', coll, NONE))
        f = st.facts.pop(q, ('=', 1))[1]
        if x is None:
            if f == 1 and q.a[1] is not NONE:
                self.ev_merge(st, q.a[1].a[0], coll)
        else:
            st.facts[q] = ('=', 0 if f == 1 or first else 2)

    def merge(self, st, a, src):
        f = a.a[1][-1][0]
        if src.op == 'agg' and src.a[1] == 'iter':
            src = natives.chase(self.ip, st, src.a[4][0])
        self.ev_merge(st, f, src)
        self.sink(st, a, f)
        return UNIT

    def is_ctx(self, st, a):
        """the address is in the context of the analysed file"""
        return True

    def is_ref(self, x, ev):
        return any('Reference' in t for t in ev.targs) or 'Reference' in str(ev.callee.get('args', ''))

    def keykind(self, ev, k):
        t = (ev.targs or ('',))[0]
        return 'label' if 'String' in t or t in ('str', '&str') else 'path'

    def on_recursion(self, st, ev):
        self.ev_recurse(st, ev)
        for a in ev.args:
            pass
        return UNIT

    def forget(self, st, coll):
        """coll has been gone through: its last element is of no interest any more"""
        for k in [k for k in st.facts if any(y.op == 'item' and y.a[0] is coll for y in subs(k))]:
            del st.facts[k]

    def on_item(self, st, coll, kind, x, first):
        if coll is ELEMS:
            if x is None:
                self.ev_primary(st, None, None, None)
                self.forget(st, coll)
                return None
            out = []
            for s, v in self.ip.fork_variant(st, x, AST + 'Primary'):
                if v == 'Directive':
                    y = fld(x, '0', 'Directive')
                    for s2, v2 in self.ip.fork_variant(s, y, AST + 'AnyDirective'):
                        self.count('primary')
                        self.ev_primary(s2, x, v, v2)
                        out.append(s2)
                else:
                    self.count('primary')
                    self.ev_primary(s, x, v, None)
                    out.append(s)
            return out
        if coll.op == 'sink':
            return self.ev_deferred(st, x, coll)
        if coll.op == 'fld' and self.mapfield(coll.a[1]):
            self.copy_item(st, coll, x, first)
            return None
        if coll.op == 'seq':
            return self.ev_listed(st, x, coll)
        if coll.op == 'fld' and coll.a[1] == 'items':
            return self.forks(st, x, coll, 'NodeItem', self.ev_item, first)
        if coll.op == 'fld' and coll.a[1] == 'values':
            return self.forks(st, x, coll, 'PropertyValue', self.ev_value, first)
        if coll.op == 'fld' and coll.a[1] == 'Cells.1':
            return self.forks(st, x, coll, 'Cell', self.ev_cell, first)
        return None

    def forks(self, st, x, coll, adtn, f, first):
        self.first = first
        if x is None:
            f(st, None, None, coll)
            self.forget(st, coll)
            return None
        out = []
        for s, v in self.ip.fork_variant(st, x, AST + adtn):
            self.count(adtn)
            f(s, x, v, coll)
            out.append(s)
        return out

    def split_variants(self, t, adtname):
        return True


def kind_of(st, d):
    if d.op == 'call':
        return 'CyclicDependencyError' if 'cyclic' in d.a[0] else '?'
    k = fld(d, 'kind')
    return st.variant(k) or show(k)


def analyse(ctx, cls, mon, facts=None):
    b = body(ctx.F, 'Analysis::analyze_file')
    if not ctx.anchor(b is not None, 'analysis of a file'):
        return None
    r = cls(ctx)
    run(ctx.F, r, b, [SELF, FILE, TYPE, PROJECT], mon=mon, facts=facts)
    for k, m in r.bad.items():
        ctx.violate(k, m)
    ctx.obligations += sum(r.n.values())
    ctx.counts.update({'seen ' + k: v for k, v in r.n.items()})
    return r


# ------------------------------------------------------------------ header
class Header(Ana):
    KEEP_FLAGS = True
    """mon = (header seen, something else seen, pending expectation, is last item)"""
    OPAQUE = Ana.OPAQUE + ()

    def ev_primary(self, st, x, v, inner):
        h, n, pend, _ = st.mon
        if pend:
            self.report('missing:' + pend[0], 'no %s is reported for %s' % (pend[0], pend[1]))
        pend = None
        if x is None:
            st.mon = (h, n, None, True)
            return
        if v == 'Directive' and inner == 'DtsHeader':
            if h:
                pend = ('DuplicateDirective', 'a repeated version header', fld(fld(x, '0', 'Directive'), '0', 'DtsHeader'))
            elif n:
                pend = ('MisplacedDtsHeader', 'a version header after other declarations', fld(fld(x, '0', 'Directive'), '0', 'DtsHeader'))
            h = True
            self.count('header')
        elif v == 'CStyleInclude' or inner == 'Include':
            pass
        else:
            n = True
        st.mon = (h, n, pend, False)

    def rename_mon(self, mon, f):
        return mon[:2] + ((mon[2][:2] + (f(mon[2][2]),)) if mon[2] else None,) + mon[3:] if mon else mon

    def keep_terms(self, st):
        return (st.mon[2][2],) if st.mon and st.mon[2] else ()

    def ev_diag(self, st, d):
        h, n, pend, end = st.mon
        k = kind_of(st, d)
        if k in ('DuplicateDirective', 'MisplacedDtsHeader'):
            if not pend or pend[0] != k:
                self.report('spurious:' + k, '%s is reported although the header is where it belongs (%s)' % (
                    k, 'expected ' + pend[0] if pend else 'nothing is wrong'))
            else:
                if not is_span(fld(d, 'span'), pend[2]):
                    self.report('position:' + k, '%s is not reported at the header: %s' % (k, show(fld(d, 'span'))))
                st.mon = (h, n, None, end)
        elif k == 'NonDtsV1':
            if h or not end:
                self.report('spurious:NonDtsV1', 'a missing version header is reported although ' +
                            ('there is one' if h else 'the file has not been gone through'))
            elif st.variant(TYPE) != 'DtSource':
                self.report('spurious-type:NonDtsV1', 'a missing version header is reported for files that need none')
            else:
                s = fld(d, 'span')
                p = [fld(fld(s, e), c) for e in ('start', 'end') for c in ('line', 'character')]
                if any(x is not const(0) for x in p):
                    self.report('position:NonDtsV1', 'a missing header is not reported at the start of the file: ' + show(s))
                st.mon = (h, n, ('reported', '', TRUE), end)

    def on_ret(self, st, v):
        h, n, pend, end = st.mon
        self.rets.append((st, v))
        self.count('path')
        if pend and pend[0] != 'reported':
            self.report('missing:' + pend[0], 'no %s is reported for %s' % (pend[0], pend[1]))
        if not h and not (pend and pend[0] == 'reported') and st.maybe(TYPE, 'DtSource'):
            self.report('missing:NonDtsV1', 'a missing version header is not reported')


@check('C32')
def c32(ctx):
    ctx.rule = ('Ghost automaton (header seen, other declaration seen) over the abstract traces of the file analysis, one '
                'step per declaration, all declaration kinds enumerated; the three header diagnostics must be pushed exactly '
                'where the automaton says, with the position of the header.')
    r = analyse(ctx, Header, (False, False, None, False))
    if r:
        ctx.floor('declarations', r.n.get('primary', 0), 9)
        ctx.floor('headers', r.n.get('header', 0), 3)
        ctx.floor('paths', r.n.get('path', 0), 2)
    result_fields(ctx, roles(ctx.F), r)


def roles(F):
    """field name -> what it collects, for the structs of the analysis"""
    out = {}
    for k, a in F.adts.items():
        if not k.startswith('ginko::dts::analysis::') or len(a['variants']) != 1:
            continue
        for f in a['variants'][0]['fields']:
            t = f['ty']
            if t.startswith('alloc::vec::Vec<') and 'Diagnostic' in t:
                out[f['name']] = 'diagnostics'
            elif t.startswith('std::collections') and 'Labeled' in t:
                out[f['name']] = 'labels'
            elif t.startswith('std::collections') and 'ast::Path' in t:
                out[f['name']] = 'nodes'
    return out


def leaves(t):
    if t.op == 'agg' and t.a[0] == 'adt':
        return [y for n, x in zip(t.a[3], t.a[4]) for y in ([(n, x)] if x.op != 'agg' else leaves(x))]
    return []


def result_fields(ctx, rl, r):
    """what the context collected is what the result holds"""
    if r is None:
        return
    for st, v in r.rets:
        got = {}
        for n, x in leaves(v):
            if n in rl:
                got[rl[n]] = x
        for w in ('diagnostics', 'labels', 'nodes'):
            x = got.get(w)
            ctx.oblige(x is not None and x.op == 'sink' and rl.get(x.a[0]) == w, 'result:' + w,
                       'the result of the analysis does not hold the %s that were collected: %s' % (w, show(x) if x is not None else show(v)))
    ctx.oblige(bool(r.rets), 'result', 'the analysis has no result')


# ------------------------------------------------------------------ compatible
class Compatible(Ana):
    """mon = (property, is it called compatible?, value to be reported, pass over the values without one left out?, a pass that was complete and
    left none out?)"""

    def isc(self, st, p):
        name = fld(p, 'name')
        for k, f in st.facts.items():
            if not contains(k, name):
                continue
            if k.op == 'eq' and k.a[1] is strc('compatible'):
                return f == ('=', 1)
            if f[0] == '=' and isinstance(f[1], str):
                return f[1] == 'compatible'
            if f[0] == '!' and 'compatible' in f[1]:
                return False
        return None

    def on_head(self, st):
        self.learn(st)
        super().on_head(st)

    def learn(self, st):
        p, c, x, ok, done = st.mon
        if p is not None and c is None:
            c = self.isc(st, p)
            if c is None and st.facts.get(mk('isempty', fld(p, 'values'))) == ('=', 1):
                c = False
            st.mon = (p, c, x, ok, done)

    def ev_value(self, st, x, v, coll):
        first = self.first
        self.learn(st)
        p, c, y, ok, done = st.mon
        if p is not coll.a[0]:
            return self.report('values', 'the values of something else than the property met are gone through: ' + show(coll))
        ok = True if first else ok if y is None else False       # 'r': with a report
        if x is None:
            st.mon = (p, c, None, False, 'r' if 'r' in (done, ok) else done or ok)
            return
        self.count('value of compatible' if c else 'value')
        st.mon = (p, c, x if v != 'String' else None, ok, done)

    def ev_item(self, st, x, v, coll):
        self.settle(st)
        st.mon = (fld(x, '0', 'Property') if x is not None and v == 'Property' else None, None, None, False, False)

    def ev_primary(self, st, x, v, inner):
        self.settle(st)
        st.mon = (None, None, None, False, False)

    def settle(self, st):
        self.learn(st)
        p, c, y, ok, done = st.mon
        if p is not None and c is not False and not done:
            self.report('missing', 'a value of "compatible" that is not a string is not reported' if c else
                        'it is not looked at whether a property is called "compatible"')

    def rename_mon(self, mon, f):
        g = lambda t: f(t) if t is not None else None
        return (g(mon[0]), mon[1], g(mon[2])) + mon[3:] if mon else mon

    def keep_terms(self, st):
        return tuple(t for t in (st.mon[0], st.mon[2]) if t is not None) if st.mon else ()

    def ev_diag(self, st, d):
        if kind_of(st, d) != 'NonStringInCompatible':
            return
        self.learn(st)
        p, c, x, ok, done = st.mon
        if x is None or not c:
            self.report('spurious', 'a string, or a value of another property than "compatible", is reported')
            return
        if not is_span(fld(d, 'span'), x) or not is_source(fld(d, 'source'), x):
            self.report('position', 'the finding is not reported at the value: ' + show(fld(d, 'span')))
        if done == 'r':
            self.report('twice', 'the values of "compatible" are reported twice')
        self.count('reported')
        st.mon = (p, c, None, 'r' if ok else ok, done)

    def on_ret(self, st, v):
        self.settle(st)
        self.rets.append((st, v))

    def sticky(self, t):
        return t.op == 'eq' and t.a[1] is strc('compatible')


@check('C40')
def c40(ctx):
    ctx.rule = ('Abstract traces of the property analysis with the value kind as ghost: while the values of a property called '
                '"compatible" are gone through, each value that is not a string is reported at its own position before the next one, '
                'and nothing else is; every property reaches this loop.')
    F = ctx.F
    r = analyse(ctx, Compatible, (None, None, None, False, False))
    if r:
        ctx.floor('values of compatible', r.n.get('value of compatible', 0), 4)
        ctx.floor('reported', r.n.get('reported', 0), 3)
    result_fields(ctx, roles(ctx.F), r)


# ------------------------------------------------------------------ references
class Flags(Ana):
    """which flags of the context does which kind of declaration raise (mon: the kind)"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.raised = {}

    def ev_primary(self, st, x, v, inner):
        self.note(st)
        st.mon = inner or v

    def note(self, st):
        for r, v in st.store.items():
            if v.op == 'agg' and v.a[0] == 'adt' and r[0] == 'L' and self.ftypes(v.a[1]):
                for n, x in zip(v.a[3], v.a[4]):
                    if x is TRUE:
                        self.raised.setdefault(n, set()).add(st.mon)

    def on_head(self, st):
        self.note(st)
        super().on_head(st)


def plugin_flags(ctx):
    r = Flags(ctx)
    run(ctx.F, r, body(ctx.F, 'Analysis::analyze_file'), [SELF, FILE, TYPE, PROJECT])
    got = {n for n, vs in r.raised.items() if vs - {None} == {'Plugin'}}
    return got or {n for n, vs in r.raised.items() if 'Plugin' in vs} or True


class Refs(Ana):
    """mon = (pending references as (kind, term, state), plugin?, file gone through, collected references gone through)

    kind: 'now' (target of a top level directive or of a re-opened node), 'late' (property value or cell, resolved when the
    whole file is known), 'found late' (a collected reference that is being resolved)"""
    KEEP_FLAGS = True

    def gated(self, st):
        """may an unresolved reference be left out here?"""
        return not st.maybe(TYPE, 'DtSource') or st.mon[1]

    def must(self, st):
        return st.variant(TYPE) == 'DtSource' and not st.mon[1]

    def setp(self, st, pend):
        st.mon = (tuple(pend),) + st.mon[1:]

    def settle(self, st, final=False):
        for kind, r, state in st.mon[0]:
            if kind == 'now' and state == 'new' and self.must(st):
                self.report('skipped:' + self.role(r), 'the reference of %s is not looked up' % self.role(r))
            elif kind == 'found late' and state == 'new' and self.must(st):
                self.report('skipped:late', 'a reference in a property value is not looked up')
            elif state == 'missing' and not self.gated(st):
                if kind == 'listed' and not final:
                    continue
                self.report('missing:' + self.role(r), 'a reference (%s) to something unknown is not reported' % self.role(r))
        self.setp(st, [p for p in st.mon[0] if p[0] == 'listed'])

    def role(self, r):
        s = show(r)
        for w in ('DeletedNode', 'OmitIfNoRef', 'ReferencedNode'):
            if w in s:
                return w
        return 'value'

    def ev_primary(self, st, x, v, inner):
        self.settle(st)
        self.covered(st)
        pend, plugin, end, done, tr = st.mon
        if x is None:
            st.mon = (pend, plugin, True, done, tr)
            return
        if inner == 'Plugin':
            st.mon = (pend, True, end, done, tr)
        r = None
        if inner in ('DeletedNode', 'OmitIfNoRef'):
            r = fld(fld(x, '0', 'Directive'), '1', inner)
        elif v == 'ReferencedNode':
            r = fld(fld(x, '0', 'ReferencedNode'), 'reference')
        if r is not None:
            self.count('immediate reference')
            self.setp(st, list(st.mon[0]) + [('now', r, 'new')])

    # traversals: property to be covered, values so far covered, cells to be covered, cells so far covered
    def trav(self, st, **kw):
        t = dict(zip(('prop', 'vok', 'cells', 'cok'), st.mon[4]))
        t.update(kw)
        st.mon = st.mon[:4] + (tuple(t.values()),)

    def open_late(self, st):
        late = [p for p in st.mon[0] if p[0] == 'late']
        if late:
            self.setp(st, [p for p in st.mon[0] if p[0] != 'late'])
        return bool(late)

    def ev_item(self, st, x, v, coll):
        self.settle(st)
        self.covered(st)
        if v == 'Property':
            self.trav(st, prop=True, vok=False, cells=False, cok=False)

    def covered(self, st):
        if st.mon[4][0]:
            self.report('skipped:value', 'the references in the values of a property are not all remembered for resolution')
            self.trav(st, prop=False)

    def ev_value(self, st, x, v, coll):
        first = self.first
        bad = self.open_late(st) or st.mon[4][2]
        self.settle(st)
        vok = (first or st.mon[4][1]) and not (bad and not first)
        self.trav(st, vok=vok, cells=v == 'Cells', cok=False)
        if x is None and vok:
            self.trav(st, prop=False)
        if v == 'Reference':
            self.count('value reference')
            self.setp(st, st.mon[0] + (('late', fld(x, '0', 'Reference'), 'new'),))

    def ev_cell(self, st, x, v, coll):
        first = self.first
        bad = self.open_late(st)
        self.settle(st)
        cok = (first or st.mon[4][3]) and not (bad and not first)
        self.trav(st, cok=cok)
        if x is None and cok:
            self.trav(st, cells=False)
        if v == 'Reference':
            self.count('cell reference')
            self.setp(st, st.mon[0] + (('late', fld(x, '0', 'Reference'), 'new'),))

    def ev_defer(self, st, r):
        hit = [p for p in st.mon[0] if p[0] == 'late' and p[1] is r]
        if not hit:
            self.report('deferred', 'another reference than the one met is remembered: ' + show(r))
        if st.mon[3]:
            self.report('deferred late', 'a reference is remembered after the remembered references were resolved')
        self.setp(st, [p for p in st.mon[0] if p not in hit])

    def ev_deferred(self, st, x, coll):
        if coll.a[0] != getattr(self, 'rfield', coll.a[0]):
            return
        self.settle(st)
        if not st.mon[2]:
            self.report('early', 'references of values are resolved before the whole file is known')
        if x is None:
            st.mon = st.mon[:3] + (True, st.mon[4])
        else:
            self.count('collected reference')
            self.setp(st, list(st.mon[0]) + [('found late', x, 'new')])

    def ev_lookup(self, st, kind, key, t):
        out, hit = [], False
        for k, r, state in st.mon[0]:
            if key is fld(fld(r, 'item'), '0', 'Label' if kind == 'label' else 'Path'):
                hit = True
                if k == 'late':
                    self.report('early', 'a reference of a property value is resolved before the whole file is known')
                found = t is not None and (kind == 'path' or k == 'found late' or t[1] == 'Node')
                state = 'found' if found else 'missing'
                self.count('lookup')
                if found:
                    continue
            out.append((k, r, state))
        self.setp(st, out)
        if not hit and any(p[2] == 'new' for p in st.mon[0]):
            self.report('key', 'something else than the reference is looked up: ' + show(key))

    def ev_diag(self, st, d):
        if kind_of(st, d) != 'UnresolvedReference':
            return
        self.count('reported')
        t = st.variant(TYPE)
        if t != 'DtSource':
            self.report('gate:type', 'an unresolved reference is reported in files that are not complete device trees')
        if st.mon[1]:
            self.report('gate:plugin', 'an unresolved reference is reported in a plugin')
        miss = [p for p in st.mon[0] if p[2] == 'missing' and p[0] != 'listed']
        if not miss:
            self.report('spurious', 'a reference that is known (or was reported) is reported as unresolved')
            return
        r = miss[0][1]
        if not is_span(fld(d, 'span'), r) or not is_source(fld(d, 'source'), r):
            self.report('position:' + self.role(r), 'the finding is not reported at the reference: ' + show(fld(d, 'span')))
        self.setp(st, [p for p in st.mon[0] if p is not miss[0]])

    def ev_list(self, st, x):
        for p in st.mon[0]:
            if p[1] is x and p[0] in ('found late', 'now') and p[2] == 'missing':
                self.count('listed')
                self.setp(st, [q for q in st.mon[0] if q is not p and q[0] != 'listed'] + [('listed', x, 'missing')])

    def ev_listed(self, st, x, coll):
        if any(p[0] == 'listed' for p in st.mon[0]) and any(y.op == 'item' and y.a[0].op == 'sink' or y.op == 'old' for y in coll.a[1]):
            self.settle(st)
            if x is None:
                self.setp(st, [p for p in st.mon[0] if p[0] != 'listed'])
            else:
                self.setp(st, list(st.mon[0]) + [('found late', x, 'missing')])

    def ev_recurse(self, st, ev):
        self.settle(st)

    def rename_mon(self, mon, f):
        return (tuple((k, f(r), s) for k, r, s in mon[0]),) + mon[1:] if mon else mon

    def keep_terms(self, st):
        return tuple(r for _, r, _ in st.mon[0]) if st.mon else ()

    def on_ret(self, st, v):
        self.settle(st, True)
        self.rets.append((st, v))
        self.count('path')
        if not st.mon[3] and st.maybe(TYPE, 'DtSource') and not st.mon[1]:
            self.report('forgotten', 'the remembered references are not resolved')


def refs(ctx):
    if ctx.anchor(body(ctx.F, 'Analysis::analyze_file') is not None, 'analysis of a file'):
        Refs.KEEP_FLAGS = plugin_flags(ctx)
        ctx.notes.append('flags that only a plugin directive raises: %s' % Refs.KEEP_FLAGS)
    r = analyse(ctx, Refs, ((), False, False, False, (False,) * 4))
    if r:
        for k, n in (('immediate reference', 3), ('value reference', 1), ('cell reference', 1), ('collected reference', 1), ('lookup', 8),
                     ('reported', 4), ('path', 2)):
            ctx.floor(k, r.n.get(k, 0), n)
        result_fields(ctx, roles(ctx.F), r)


@check('C19')
def c19(ctx):
    ctx.rule = ('Pending-obligation automaton over the abstract traces of the file analysis: a reference that is met is looked up '
                '(directive and re-opened node: at once; property value and cell: remembered and looked up when the whole file has been '
                'gone through) under its own label or path, and reported at its own position exactly when it is unknown.')
    refs(ctx)
    ctx.violations = {k: v for k, v in ctx.violations.items() if not k.startswith('gate')}


@check('C20')
def c20(ctx):
    ctx.rule = ('The same automaton with the file type and "/plugin/ seen" as ghosts: an UnresolvedReference diagnostic is pushed only on '
                'paths where the file is a device tree source and no plugin directive has been met, and on all of those where the '
                'reference is unknown.')
    refs(ctx)
    ctx.violations = {k: v for k, v in ctx.violations.items() if k.startswith(('gate', 'missing', 'anchor', 'floor', 'internal'))}


# ------------------------------------------------------------------ definitions
ANY = mk('opaque', 'any path')


def seqn(t):
    if t.op == 'agg' and t.a[0] == 'array':
        return (None, frozenset(t.a[4]))
    if t.op == 'seq':
        return (t.a[0], t.a[1])
    return (t, frozenset())


class Defs(Ana):
    """mon = frozenset of ('at', owner, path) for the nodes whose bodies are gone through, and obligations
    ('node', n, path, level), ('label', n, path, level), ('plabel', property, None, level), ('body', owner, path, level)"""
    COPIES = True       # a path that is copied element by element is that path

    def __init__(self, ctx):
        super().__init__(ctx)
        pf = next((a['variants'][0]['fields'] for k, a in self.ctx.F.adts.items() if k == AST + 'Path'), None)
        self.pel = pf[0]['name'] if pf else 'elements'
        self.rl = roles(ctx.F)

    def els(self, p):
        return fld(p, self.pel)

    def on_call(self, st, ev):
        if ev.path == 'alloc::vec::Vec::insert' and 'NodeName' in str(ev.targs):
            self.report('path order', 'the elements of a path are not kept in order')
        if ev.path.startswith(natives.MAPTY) and ev.name in ('remove', 'remove_entry', 'clear', 'retain', 'drain', 'extract_if', 'split_off', 'pop_first', 'pop_last') and \
                any(t in str(ev.targs) + str(ev.callee.get('args', '')) for t in ('Labeled', 'ast::Node', 'ast::Path')):
            self.report('removed', 'a node or label that was registered may be removed again (%s)' % ev.name)
        return super().on_call(st, ev)

    def same(self, p, want):
        """path p is the path `want` (a sequence term or ANY)"""
        return want is ANY or seqn(self.els(p)) == seqn(want)

    def level(self, st, coll):
        """obligations of the earlier element of coll are due; obligations of bodies around it stay"""
        it = mk('item', coll)
        here = [o for o in st.mon if o[3] is coll or contains(o[3], it)]
        due = [o for o in here if o[0] != 'at']
        for kind, n, p, _ in due:
            what = 'property' if kind == 'plabel' else 'node'
            if kind in ('label', 'plabel'):
                if st.maybe(fld(n, 'label'), 'Some'):
                    self.report('missing:' + kind, 'the label of a %s is not registered' % what)
            elif kind == 'node':
                self.report('missing:node', 'a node is not registered under its path')
            elif not self.empty(st, n):
                self.report('missing:body', 'the items of a node are not gone through: ' + show(n))
        st.mon = frozenset(o for o in st.mon if o not in here)
        for k in [k for k in st.facts if self.sticky(k) and contains(k, it)]:
            del st.facts[k]

    def sticky(self, k):
        return k.op == 'variant' and k.a[0].op == 'fld' and k.a[0].a[1] == 'label'

    def empty(self, st, n):
        return False

    def add(self, st, *obs):
        st.mon = st.mon | frozenset(obs)

    def drop(self, st, o):
        st.mon = st.mon - {o}

    def node(self, st, n, path, coll):
        self.add(st, ('node', n, path, coll), ('label', n, path, coll), ('body', n, path, coll), ('at', n, path, coll))

    def ev_primary(self, st, x, v, inner):
        self.level(st, ELEMS)
        if v == 'Root':
            self.count('root')
            self.node(st, fld(x, '0', 'Root'), mk('agg', 'array', '', '', (), ()), ELEMS)
        elif v == 'ReferencedNode':
            self.count('re-opened')
            r = fld(x, '0', 'ReferencedNode')
            self.add(st, ('body', r, ANY, ELEMS), ('at', r, ANY, ELEMS))

    def ev_lookup(self, st, kind, key, t):
        for o in list(st.mon):
            if o[0] in ('body', 'at') and o[1].op == 'fld' and key is fld(
                    fld(fld(o[1], 'reference'), 'item'), '0', 'Label' if kind == 'label' else 'Path'):
                p = ANY
                if kind == 'path':
                    p = self.els(key)
                elif t is not None and t[1] == 'Node':
                    p = self.els(fld(t[0], '0', 'Node'))
                self.drop(st, o)
                self.add(st, (o[0], o[1], p, o[3]))

    def ev_item(self, st, x, v, coll):
        first = self.first
        if not first:
            self.level(st, coll)
        owner = fld_parent(fld_parent(coll, 'items'), 'payload')
        at = [o for o in st.mon if o[0] == 'at' and o[1] is owner]
        if not at:
            return
        if x is None:
            for o in st.mon:
                if o[0] == 'body' and o[1] is owner:
                    self.drop(st, o)
            return
        if v == 'Property':
            self.count('property')
            self.add(st, ('plabel', fld(x, '0', 'Property'), None, coll))
        elif v == 'Node':
            self.count('child')
            n = fld(x, '0', 'Node')
            from ..interp import seq_add
            p = at[0][2]
            name = fld(fld(n, 'name'), 'item')
            self.node(st, n, ANY if p is ANY else seq_add(p, name), coll)

    def ev_node(self, st, k, v):
        hit = [o for o in st.mon if o[0] == 'at' and o[1] is v]
        if not hit:
            return self.report('node', 'something else than the node met is registered: ' + show(v))
        if not self.same(k, hit[0][2]):
            self.report('path', 'a node is registered under another path than its own: %s instead of %s' % (show(k), show(hit[0][2])))
        self.count('registered')
        st.mon = frozenset(o for o in st.mon if not (o[0] == 'node' and o[1] is v))

    def ev_label(self, st, k, v):
        for o in st.mon:
            if o[0] in ('at', 'plabel') and k is fld(fld(fld(o[1], 'label'), '0', 'Some'), 'item'):
                var = 'Property' if o[0] == 'plabel' else 'Node'
                good = is_agg(v) and v.a[2] == var and v.a[4][-1] is o[1] and (var == 'Property' or self.same(v.a[4][0], o[2]))
                if not good:
                    self.report('label', 'a label is registered for something else than what carries it: ' + show(v))
                self.count('label')
                n = o[1]
                st.mon = frozenset(q for q in st.mon if not (q[0] in ('label', 'plabel') and q[1] is n))
                return
        self.report('label', 'a label is registered under another name: ' + show(k))

    def ev_recurse(self, st, ev):
        args = [natives.chase(self.ip, st, a) for a in ev.args]
        for o in list(st.mon):
            if o[0] != 'body':
                continue
            n = o[1]
            whole = n in args
            if not whole and fld(n, 'payload') not in args and fld(fld(n, 'payload'), 'items') not in args:
                continue
            ps = [a for a in args if a.op in ('agg', 'fld', 'upd') and not a is n and self.pathlike(a)]
            if o[2] is not ANY and not any(self.same(a, o[2]) for a in ps):
                self.report('child path', 'the items of a node are gone through with another path than its own')
            self.count('recursion')
            if whole:
                st.mon = frozenset(q for q in st.mon if q[1] is not n or q[0] == 'at')
            else:
                self.drop(st, o)
            return
        self.report('recursion', 'the analysis recurses into something else than the child node met')

    def pathlike(self, a):
        return is_agg(a) and a.a[1] == AST + 'Path' or a.op == 'fld'

    def ev_primary_end(self, st):
        pass

    def rename_mon(self, mon, f):
        return frozenset(tuple(f(x) if isinstance(x, T) else x for x in o) for o in mon) if mon else mon

    def keep_terms(self, st):
        return tuple(x for o in (st.mon or ()) for x in o if isinstance(x, T) and x is not ANY)

    def on_ret(self, st, v):
        self.rets.append((st, v))
        self.level(st, ELEMS)


def fld_parent(t, name):
    """t = x.name: x (else t)"""
    return t.a[0] if t.op == 'fld' and t.a[1] == name else t


@check('C21')
def c21(ctx):
    ctx.rule = ('Obligation automaton over the abstract traces of the file analysis: every node that is met is registered under '
                'its own path (the path of its parent - of the referenced node for re-opened nodes - extended by its name) and under '
                'its label, every labelled property under its label, every body is gone through (recursion with the same node and '
                'path counts, by coinduction); what an included file declares is merged into the including file.')
    r = analyse(ctx, Defs, frozenset())
    if r:
        for k, n in (('root', 1), ('re-opened', 1), ('property', 2), ('child', 2), ('registered', 2), ('label', 3), ('recursion', 2)):
            ctx.floor(k, r.n.get(k, 0), n)
        result_fields(ctx, roles(ctx.F), r)
    r = analyse(ctx, Incl, (None, frozenset(), False))
    if r:
        ctx.floor('merges', r.n.get('merge', 0), 2)
    ctx.violations = {k: v for k, v in ctx.violations.items() if not k.startswith('include:')}


# ------------------------------------------------------------------ includes
class Incl(Ana):
    """mon = (include met, what was reported / merged for it, examined)"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.rl = roles(ctx.F)

    def ev_primary(self, st, x, v, inner):
        self.settle(st)
        for k in [k for k in st.facts if self.sticky(k)]:
            del st.facts[k]
        inc = fld(fld(x, '0', 'Directive'), '0', 'Include') if inner == 'Include' else None
        if inc is not None:
            self.count('include')
        st.mon = (inc, frozenset(), False)

    def sticky(self, k):
        t = k.a[0] if k.op == 'variant' else k
        return t.op == 'call' and t.a[0].split('::')[-1] in ('path', 'add', 'get_file', 'has_errors') or \
            k.op == 'variant' and t.op == 'fld' and t.a[1] == 'context' or \
            k.op == 'isempty' and t.a[0].op == 'fld' and t.a[0].a[1] in self.rl

    edges = ()

    def edge(self, g, path, inc):
        """the edge added to the graph of the includes is the one between the included and the including file (in one direction throughout)"""
        own = lambda t: is_source(t, FILE) or is_source(t, inc)
        x, deps = g.a[1][1], g.a[1][2]
        if not is_agg(deps) or len(deps.a[4]) != 1:
            return False
        y = deps.a[4][0]
        d = 'up' if x is path and own(y) else 'down' if y is path and own(x) else None
        self.edges = set(self.edges) | {d}
        return d is not None and len(self.edges) == 1

    def on_call(self, st, ev):
        if ev.path.endswith('ImportGuard::add'):
            g = natives.chase(self.ip, st, ev.args[0])
            self.count('guard')
            if not (g.op == 'havoc' or g.op == 'fld' and g.a[0] is SELF):
                self.report('include:guard:reset', 'the graph of the includes forgets the edges that were added for other files: ' + show(g))
        return super().on_call(st, ev)

    def facts_of(self, st, inc, name):
        """(call, fact) for calls to `name` that concern inc"""
        out = []
        for k, f in st.facts.items():
            t = k.a[0] if k.op == 'variant' else k
            if t.op == 'call' and t.a[0].endswith('::' + name) and contains(t, inc):
                out.append((t, f))
        return out

    def settle(self, st):
        inc, done, _ = st.mon
        if inc is None:
            return
        p = self.facts_of(st, inc, 'path')
        if not p or p[0][0].a[1][0] is not inc:
            return self.report('include:path', 'the file that is included is not determined')
        p, f = p[0]
        want = set()
        if f == ('=', 'Err'):
            want = {'IOError'}
        else:
            path = fld(p, '0', 'Ok')
            g = self.facts_of(st, inc, 'add')
            if not g:
                self.report('include:guard', 'an include is not checked for cycles')
            elif not self.edge(g[0][0], path, inc):
                self.report('include:guard', 'the cycle check does not get the included and the including file: ' + show(g[0][0]))
            if g and g[0][1] == ('=', 'Err'):
                want = {'CyclicDependencyError'}
            else:
                pf = self.facts_of(st, inc, 'get_file')
                if not pf or pf[0][0].a[1] != (PROJECT, path):
                    self.report('include:file', 'the included file is not looked up in the project: ' + (show(pf[0][0]) if pf else ''))
                elif pf[0][1] == ('=', 'Some'):
                    file = fld(pf[0][0], '0', 'Some')
                    h = self.facts_of(st, inc, 'has_errors')
                    if not h or h[0][0].a[1] != (file, fld(PROJECT, 'severities')):
                        self.report('include:errors', 'the included file is not checked for errors')
                    elif h[0][1] == ('=', 1):
                        want = {'ErrorsInInclude'}
                    c = st.variant(fld(file, 'context'))
                    for w in ('labels', 'nodes'):
                        if c != 'None' and ('merge', w) not in done and not self.nothing(st, file, w):
                            self.report('merge:' + w, 'the %s of an included file are not known in the including file' % w)
        got = {d for d in done if isinstance(d, str)}
        for k in want - got:
            self.report('include:missing:' + k, '%s is not reported for an include' % k)
        for k in got - want:
            self.report('include:spurious:' + k, '%s is reported for an include without reason' % k)

    def nothing(self, st, file, w):
        c = fld(fld(file, 'context'), '0', 'Some')
        return any(st.facts.get(mk('isempty', fld(c, n))) == ('=', 1) for n, r in self.rl.items() if r == w)

    def ev_merge(self, st, field, src):
        inc, done, ex = st.mon
        w = self.rl.get(field)
        ok = src.op == 'fld' and self.rl.get(src.a[1]) == w and inc is not None and contains(src, inc) and \
            src.a[0].op == 'fld' and src.a[0].a[0].op == 'fld' and src.a[0].a[0].a[1] == 'context'
        if not ok:
            self.report('merge:source', 'something else than the %s of the included file are merged: %s' % (w, show(src)))
        self.count('merge')
        st.mon = (inc, done | {('merge', w)}, ex)

    def ev_diag(self, st, d):
        inc, done, ex = st.mon
        k = kind_of(st, d)
        if k not in ('IOError', 'CyclicDependencyError', 'ErrorsInInclude'):
            return
        if inc is None:
            return self.report('include:spurious:' + k, '%s is reported outside of an include' % k)
        s, src = (d.a[1][0], d.a[1][1]) if d.op == 'call' else (fld(d, 'span'), fld(d, 'source'))
        if not is_span(s, inc) or not is_source(src, inc):
            self.report('include:position:' + k, '%s is not reported at the include: %s' % (k, show(s)))
        if k in done:
            self.report('include:twice:' + k, '%s is reported twice for an include' % k)
        self.count('reported')
        st.mon = (inc, done | {k}, ex)

    def rename_mon(self, mon, f):
        return (f(mon[0]) if mon[0] is not None else None,) + mon[1:] if mon else mon

    def keep_terms(self, st):
        return (st.mon[0],) if st.mon and st.mon[0] is not None else ()

    def on_ret(self, st, v):
        self.settle(st)
        self.rets.append((st, v))


class HasErrors(R):
    """mon = (an error was seen, collections gone through)"""
    OPAQUE = ('Diagnostic::severity',)

    def on_item(self, st, coll, kind, x, first):
        w = coll.a[1] if coll.op == 'fld' and coll.a[0] is SELF else None
        if x is None:
            self.settle(st)
            st.mon = (None, st.mon[1] | {w}) if w else st.mon
            return None
        self.settle(st)
        st.mon = (x, st.mon[1])

    def sticky(self, k):
        return any(c.op == 'call' and c.a[0].endswith('severity') for c in subs(k))

    def sev(self, st, x):
        """severity of x as far as the path knows"""
        for k, f in st.facts.items():
            t = k
            if contains(t, x):
                s = [c for c in subs(t) if c.op == 'call' and c.a[0].endswith('severity') and c.a[1][0] is x]
                if s:
                    if st.variant(s[0]) == 'Error' or k.op == 'eq' and f == ('=', 1) and 'Error' in show(k):
                        return True
                    return False
        return None

    def settle(self, st):
        x = st.mon[0]
        if x is not None:
            v = self.sev(st, x)
            if v is None:
                self.bad['unseen'] = 'a diagnostic is passed over without looking at its severity'
            elif v:
                self.bad['error'] = 'an error diagnostic is passed over'
            for k in [k for k in st.facts if self.sticky(k) and contains(k, x)]:
                del st.facts[k]
        self.n += 1
        st.mon = (None, st.mon[1])

    def rename_mon(self, mon, f):
        return (f(mon[0]) if mon[0] is not None else None, mon[1])

    def keep_terms(self, st):
        return (st.mon[0],) if st.mon[0] is not None else ()

    def on_ret(self, st, v):
        x, seen = st.mon
        if v is TRUE:
            if x is None or not self.sev(st, x):
                self.bad['true'] = 'a file is said to have errors although no error diagnostic was found'
            self.true += 1
        elif v is FALSE:
            self.settle(st)
            self.false += 1
            for w in ('parser_diagnostics', 'analysis_diagnostics'):
                if w not in st.mon[1]:
                    self.bad['not all ' + w] = 'a file is said to have no errors without looking at its ' + w
        else:
            self.bad['value'] = 'the answer is not decided by the diagnostics: ' + show(v)


def has_errors(ctx):
    b = body(ctx.F, 'ProjectFile::has_errors')
    if not ctx.anchor(b is not None, 'ProjectFile::has_errors'):
        return
    r = HasErrors(ctx)
    r.bad, r.n, r.true, r.false = {}, 0, 0, 0
    run(ctx.F, r, b, [SELF, mk('arg', 'map')], mon=(None, frozenset()))
    for k, m in r.bad.items():
        ctx.violate('has_errors:' + k, m)
    ctx.floor('has_errors answers', min(r.true, r.false), 1)
    ctx.floor('has_errors steps', r.n, 2)


def cyclic_error(ctx):
    b = body(ctx.F, 'Diagnostic::cyclic_dependency_error')
    if not ctx.anchor(b is not None, 'Diagnostic::cyclic_dependency_error'):
        return
    r = R(ctx)
    sp, so, er = (mk('arg', n) for n in ('span', 'source', 'err'))
    run(ctx.F, r, b, [sp, so, er])
    for st, v in r.rets:
        ctx.oblige(kind_of(st, v) == 'CyclicDependencyError' and fld(v, 'span') is sp and fld(v, 'source') is so, 'cyclic error',
                   'the diagnostic of an include cycle has another kind or position: ' + show(v))
    ctx.oblige(bool(r.rets), 'cyclic error', 'no diagnostic')


@check('C38')
def c38(ctx):
    ctx.rule = ('Case automaton over the abstract traces of the file analysis, for each include: the outcome of path lookup, cycle check '
                'and error check of the included file (all combinations enumerated) determines the one diagnostic that must have been '
                'pushed, at the position of the include, when the next declaration is met. The error check itself is decided over all '
                'diagnostics of the included file.')
    r = analyse(ctx, Incl, (None, frozenset(), False))
    if r:
        ctx.floor('includes', r.n.get('include', 0), 1)
        ctx.floor('reported', r.n.get('reported', 0), 3)
        result_fields(ctx, roles(ctx.F), r)
    has_errors(ctx)
    cyclic_error(ctx)
    from .guard import guard
    guard(ctx)
    ctx.violations = {k: v for k, v in ctx.violations.items() if not k.startswith('merge:')}
