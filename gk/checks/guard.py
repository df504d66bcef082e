"""C45: the test for include cycles - what an edge adds to the graph, and the search for a way back to where it starts."""
from ..lib import *
from ..run import check, Ctx
from ..terms import *
from .project import SELF

NODE = mk('opaque', 'work list')
POPS = ('pop', 'pop_front', 'pop_back')
PUSHES = ('push', 'push_front', 'push_back')


class Search(R):
    """mon = (edges: collections that have all edges, dep: (dependency, round, rounds so far) or None, search)
    search = (pushed start, others pushed, empty, node, tests on it, neighbour, tests on it, expanded)"""
    budget = 60000
    work = frozenset()

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bad, self.n = {}, {}
        self.popped, self.sets, self.has_start, self.node_sets = set(), set(), set(), set()
        self.unguarded, self.by_visited, self.skipped, self.may_be_start = set(), set(), False, False
        self.uninserted = set()

    def report(self, k, m):
        self.bad.setdefault(k, m)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ---- collections
    def coll(self, st, a):
        """the local collection an argument stands for (by where it was made)"""
        x = natives.chase(self.ip, st, a)
        return x if x.op == 'local coll' else None

    def role(self, st, x):
        x = natives.chase(self.ip, st, x)
        m = st.mon
        if m[2][5] is not None and x is m[2][5]:
            return 'nb'
        if m[2][3] is not None and x is m[2][3]:
            return 'node'
        if x is self.START:
            return 'start'
        return None

    def rename_mon(self, mon, f):
        c, d, s = mon
        g = lambda t: f(t) if t is not None else None
        return c, (g(d[0]),) + d[1:] if d else None, s[:3] + (g(s[3]), s[4], g(s[5])) + s[6:]

    def keep_terms(self, st):
        c, d, s = st.mon
        return tuple(t for t in ((d[0] if d else None), s[3], s[5]) if t is not None)

    def put(self, st, **k):
        c, d, s = st.mon
        names = ('begun', 'more', 'empty', 'node', 'nt', 'nb', 'bt', 'exp')
        st.mon = (c, d, tuple(k.get(n, v) for n, v in zip(names, s)))

    def test(self, st, role, t):
        s = st.mon[2]
        if role == 'nb':
            self.put(st, bt=s[6] | {t})
        elif role in ('node', 'start') and s[3] is not None:
            self.put(st, nt=s[4] | {t})

    # ---- what has to be true of a neighbour / of a node when the next one is looked at
    def settle_nb(self, st):
        b, more, e, node, nt, nb, bt, exp = st.mon[2]
        if nb is None:
            return
        marked = {t[1] for t in bt if t[0] == 'in' and t[2]}
        if ('push',) in bt:
            if ('start', False) not in bt:
                self.may_be_start = True
            fresh = {t[1] for t in bt if t[0] == 'in' and not t[2]} & {t[1] for t in bt if t[0] == 'ins'}
            self.unguarded.add(frozenset(fresh))
        elif marked:
            if marked <= self.has_start and ('start', False) not in bt:
                self.report('start marked', 'an element the search comes back to may be passed over as known although it is the one that was added')
        elif ('start', True) in bt:
            self.report('back', 'the search comes back to the element that was added and does not report a cycle')
        else:
            self.report('neighbour lost', 'the search does not follow an edge')
        if ('push',) not in bt and any(t[0] == 'ins' for t in bt):
            self.report('marked', 'an element is marked as known but not searched')
        self.put(st, nb=None, bt=frozenset())

    def settle(self, st):
        self.settle_nb(st)
        b, more, e, node, nt, nb, bt, exp = st.mon[2]
        if node is None:
            return
        if exp != 'done':
            if any(t[0] == 'in' and t[2] and t[1] in self.node_sets for t in nt):
                if node is not self.START and ('start', False) not in nt:
                    self.skipped = True
            else:
                self.report('node lost', 'the edges of an element that was reached are not all followed')
        else:
            self.uninserted |= {c for c in self.sets if ('ins', c) not in nt}
        self.put(st, node=None, nt=frozenset(), exp=None)

    def on_item(self, st, coll, kind, x, first):
        c, d, s = st.mon
        if coll is self.DEPS:
            if x is None:
                rounds = d[2] if d else None
                if d:
                    rounds = d[1] if rounds is None else rounds & d[1]
                st.mon = (c | ({'none'} if rounds is None else rounds), None, s)
            else:
                rounds = None
                if d and not first:
                    rounds = d[1] if d[2] is None else d[2] & d[1]
                st.mon = (c, (x, frozenset(), rounds), s)
            return
        node = s[3]
        if node is not None and coll.op == 'fld' and coll.a[0].op == 'mapget' and coll.a[0].a[1] is node:
            m = coll.a[0].a[0]
            self.graph(st, m)
            self.settle_nb(st)
            if x is None:
                self.put(st, exp='done')
            else:
                self.count('edge followed')
                self.put(st, nb=x, bt=frozenset(), exp='iter')

    def graph(self, st, m):
        c = st.mon[0]
        n = m.a[1] if m.op == 'fld' else '?'
        if not ('none' in c or any(e[0] is m for e in c if e != 'none')):
            self.report('edges', 'the search follows edges (%s) to which those that are added do not all belong' % n)

    def on_call(self, st, ev):
        ip = self.ip
        if ev.body is not None and not ev.body['id'].startswith('gkmodels'):
            return None
        p, n = ev.path, ev.name
        c, d, s = st.mon
        A = [natives.chase(ip, st, a) for a in ev.args]
        # the graph
        field = A and A[0].op == 'fld' and A[0].a[0] is SELF
        if n == 'entry' and field:
            return mk('edgesof', A[0], A[1])
        if A and A[0].op == 'edgesof':
            if n in ('or_default', 'or_insert_with', 'or_insert', 'or_insert_with_key'):
                return A[0]
            if n in ('insert', 'push', 'push_back') and len(A) > 1:
                if d:
                    way = (A[0].a[0], 'to') if A[0].a[1] is self.START and A[1] is d[0] else \
                        (A[0].a[0], 'from') if A[0].a[1] is d[0] and A[1] is self.START else None
                    if way:
                        self.count('edge added')
                        st.mon = (c, (d[0], d[1] | {way}, d[2]), s)
                out = [(st.copy(), const(1)), (st, FALSE)] if n == 'insert' else UNIT
                return out
            if n in ('extend', 'extend_from_slice', 'append') and len(A) > 1:
                x = A[1]
                while natives.is_iter(x) and x.a[0] == 'ad' and x.a[1] in ('cloned', 'copied'):
                    x = natives.chase(ip, st, x.a[4][0])
                if natives.is_iter(x) and x.a[0] == 'iter':
                    x = natives.chase(ip, st, x.a[4][0])
                if x is self.DEPS and A[0].a[1] is self.START:
                    self.count('edge added')
                    st.mon = (c | {(A[0].a[0], 'to')}, d, s)
                else:
                    self.report('partly', 'not all edges are added to the graph')
                return UNIT
        if field and n in ('insert', 'remove', 'clear', 'retain', 'drain', 'remove_entry') and ('Map' in p or 'Set' in p):
            self.report('graph:' + n, 'edges that were added before are lost (%s)' % n)
            return None
        if n in ('skip', 'take', 'rev', 'step_by', 'skip_while', 'take_while', 'nth', 'last', 'next_back') and A and ev.path.startswith('core::') and \
                any(y is self.DEPS or y.op == 'mapget' and s[3] is not None and y.a[1] is s[3] for y in subs(A[0])) and n != 'rev':
            self.report('partial:' + n, 'not all edges are looked at (%s)' % n)
        # the search
        if re.search(r'::(Vec|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet)::(new|with_capacity|default|from)$', p) or n == 'default' and not A or \
                n == 'from' and A and A[-1].op == 'agg' and A[-1].a[0] == 'array' or \
                n == 'box_assume_init_into_vec_unsafe':
            k = mk('local coll', st.frame.body['id'], st.bb)
            if n not in ('new', 'with_capacity', 'default'):
                if not (A and A[-1].op in ('agg', 'addr', 'seq') or n != 'from'):
                    return None
                if k in self.work and self.START in subs(A[-1] if n == 'from' else self.ip.val(st, A[0])):
                    self.put(st, begun='pushed')
            return k
        if not ev.args:
            return None
        k = self.coll(st, ev.args[0])
        if n in POPS and ('Vec' in p) and k:
            self.popped.add(k)
            if not self.work:
                return None
            if k not in self.work:
                return None
            self.settle(st)
            self.count('pop')
            b, more, e = st.mon[2][:3]
            out = []
            if b == 'pushed' and not more:
                self.put(st, begun='popped', node=self.START, nt=frozenset({('start', True)}))
                return some(self.START)
            s0 = st.copy()
            self.put(s0, empty=True)
            out.append((s0, NONE))
            if more:
                t = mk('item', NODE)
                ip.fresh(st, t)
                self.put(st, node=t, nt=frozenset(), nb=None, bt=frozenset(), exp=None)
                out.append((st, some(t)))
            return out
        if k in self.work:
            if n in PUSHES:
                r = self.role(st, A[1])
                if r == 'nb':
                    self.put(st, more=True)
                    self.test(st, 'nb', ('push',))
                elif r == 'start' and s[0] is None:
                    self.put(st, begun='pushed')
                else:
                    self.report('push', 'something other than the end of an edge is searched')
                return UNIT
            if n == 'is_empty':
                self.settle(st)
                b, more, e = st.mon[2][:3]
                s0 = st.copy()
                self.put(s0, empty=True)
                return ([(st, FALSE)] if b == 'pushed' and not more else [(s0, const(1)), (st, FALSE)] if more else [(s0, const(1))])
            return None
        if k and n in PUSHES:
            return UNIT
        if k and ('Map' in p or 'Set' in p) and len(A) > 1:
            r = self.role(st, A[1])
            if n in ('contains', 'contains_key', 'insert') and r or n == 'get' and r == 'nb':
                self.sets.add(k)
                was = n != 'insert'
                out = []
                known = {t[2] for t in (s[6] if r == 'nb' else s[4]) if t[0] == 'in' and t[1] == k}
                if not known and not s[1] and s[7] is None and (r == 'start' or s[3] is self.START and r == 'node'):
                    # nothing is in a new collection before it is put there
                    known = {('started', k) in c or ('ins', k) in s[4]}
                for w in (True, False):
                    if known and w not in known:
                        continue
                    s2 = st.copy()
                    self.test(s2, r, ('in', k, w))
                    if r == 'start' and n == 'insert':
                        s2.mon = (s2.mon[0] | {('started', k)},) + s2.mon[1:]
                    if n == 'insert':
                        self.test(s2, r, ('ins', k))
                    out.append((s2, (some(mk('opaque', 'value')) if w else NONE) if n == 'get' else (const(1) if w else FALSE) if was else
                                (const(1) if not w else FALSE) if 'Set' in p else mk('opaque', 'old value')))
                if n == 'insert':
                    if r == 'start' or r == 'node':
                        self.has_start.add(k)
                    if r == 'node':
                        self.node_sets.add(k)
                return out
        if k and n == 'entry' and len(A) > 1 and self.role(st, A[1]):
            r = self.role(st, A[1])
            self.sets.add(k)
            t = mk('slotof', k, A[1])
            ip.vadt[t] = ['Occupied', 'Vacant']
            out = []
            for w in (True, False):
                s2 = st.copy()
                self.test(s2, r, ('in', k, w))
                if ip.set_fact(s2, mk('variant', t), True, 'Occupied' if w else 'Vacant'):
                    out.append((s2, t))
            return out
        if n == 'insert' and len(A) > 1 and any(y.op == 'slotof' for y in subs(A[0])):
            t = next(y for y in subs(A[0]) if y.op == 'slotof')
            r = self.role(st, t.a[1])
            if r:
                self.test(st, r, ('ins', t.a[0]))
                if r in ('start', 'node'):
                    self.has_start.add(t.a[0])
                if r == 'node':
                    self.node_sets.add(t.a[0])
            return mk('opaque', 'slot')
        if n in ('eq', 'ne') and len(A) == 2 and 'cmp::PartialEq' in p:
            rs = [self.role(st, a) for a in A]
            if self.START in A and any(r in ('nb', 'node') for r in rs):
                r = next(r for r in rs if r in ('nb', 'node'))
                tests = s[6] if r == 'nb' else s[4]
                out = []
                for w in (True, False):
                    if ('start', not w) in tests:
                        continue
                    s2 = st.copy()
                    self.test(s2, r, ('start', w))
                    out.append((s2, const(1) if w == (n == 'eq') else FALSE))
                return out
        if n in ('get', 'index') and len(A) > 1 and A[0].op == 'fld' and A[0].a[0] is SELF and s[3] is not None and A[1] is s[3]:
            self.graph(st, A[0])
            t = mk('mapget', A[0], A[1])
            s0 = st.copy()
            out = []
            for s2, vn in ip.fork_variant(st, t, 'core::option::Option'):
                if vn == 'None':
                    self.put(s2, exp='done')
                    out.append((s2, NONE))
                else:
                    out.append((s2, some(fld(t, '0', 'Some'))))
            return out if n == 'get' else None
        return None

    def on_ret(self, st, v):
        b, more, e, node, nt, nb, bt, exp = st.mon[2]
        c = st.mon[0]
        if st.variant(v) == 'Err':
            self.count('cycle')
            if nb is not None and ('start', True) in bt:
                return
            if node is not None and node is not self.START and ('start', True) in nt:
                return
            seen = {t[1] for t in nt if t[0] == 'in' and t[2]} & self.sets if node is not None and nb is None and node is not self.START else set()
            if seen:
                self.by_visited.add(frozenset(seen))
                return
            self.report('no cycle', 'a cycle is reported although the search did not come back to the element that was added')
            return
        self.count('no cycle')
        if e:
            self.settle(st)
        elif 'none' in c and b is None:
            pass
        else:
            if b == 'popped' and not more:
                self.settle(st)
            else:
                self.report('given up', 'the search ends although there is something left to search')

    def finish(self):
        """what has to be true of all traces together"""
        for seen in self.by_visited:
            good = [k for k in seen if k in self.node_sets and k not in self.uninserted]
            if not good:
                self.report('no cycle', 'a cycle is reported for an element that may not have been searched before')
            elif not all(any(k not in self.has_start for k in f) for f in self.unguarded):
                self.report('twice', 'a cycle is reported for an element that is reached twice, although it may be another one than the one that was added')
            elif not all(f and not f & self.has_start for f in self.unguarded):
                self.report('twice', 'a cycle is reported for an element that is reached twice, although it may be another one than the one that was added')
        if self.skipped and self.may_be_start:
            self.report('back', 'the search may come back to the element that was added and pass it over')


def guard(ctx):
    F = ctx.F
    b = body(F, 'ImportGuard::add')
    if not ctx.anchor(b is not None, 'ImportGuard::add'):
        return None
    args = Interp(F, R(None)).root_args(b, None)
    first = None
    for i in range(3):
        r = Search(ctx if i == 2 else None)
        r.START, r.DEPS = natives.chase(Interp(F, r), None, args[1]), args[2]
        if first:
            # the first run finds the work list, the second one what the other collections are for
            r.work, r.sets, r.has_start, r.node_sets = frozenset(first.popped), first.sets, first.has_start, first.node_sets
        run(F, r, b, args, mon=(frozenset(), None, (None, False, False, None, frozenset(), None, frozenset(), None)))
        first = r
    r.finish()
    for k, m in r.bad.items():
        ctx.violate('search:' + k, 'ImportGuard: ' + m)
    for k, n in (('pop', 2), ('edge followed', 1), ('edge added', 1), ('cycle', 1), ('no cycle', 2)):
        ctx.floor(k, r.n.get(k, 0), n)
    ctx.oblige(not r.bad, 'search', 'the cycle test is not exact', sample='pops %d, edges %d' % (r.n.get('pop', 0), r.n.get('edge followed', 0)))
    return r


def one_round(ctx):
    """the edges of all files come together in one graph"""
    from .project import Fresh, drive, pf_fields
    from .analysis import Incl, analyse
    F = ctx.F
    b = body(F, 'Project::add_file_with_text')
    if ctx.anchor(b is not None, 'Project::add_file_with_text'):
        sub = Ctx(F, ctx.pid)
        r = drive(sub, Fresh, b, (None, None, None, False), roles=pf_fields(F), from_disk=False, last=None)
        ctx.floor('files analysed with the graph kept', min(r.n.get('analyse', 0), r.n.get('guard kept', 0)), 1)
        for m in r.forgot[:1]:
            ctx.violate('round', m)
    sub = Ctx(F, ctx.pid)
    r = analyse(sub, Incl, (None, frozenset(), False))
    if ctx.anchor(r is not None, 'analysis of a file'):
        ctx.floor('includes added to the graph', r.n.get('guard', 0), 1)
        for k, m in sub.violations.items():
            if k.startswith('include:guard'):
                ctx.violate('include', m)


@check('C45')
def c45(ctx):
    ctx.rule = ('Automaton over the abstract traces of ImportGuard::add with the search inlined: all edges are added to what is searched and none is lost; each element that is '
                'reached is taken from the work list once, all its edges are followed, each end is put on the work list unless it is known; a cycle is '
                'reported exactly when the search comes back to the element that was added. All files of a round are analysed by one object, which keeps '
                'the edges: its graph is neither replaced nor cleared from one include to the next.')
    guard(ctx)
    one_round(ctx)
