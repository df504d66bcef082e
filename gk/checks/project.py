"""The project: identity of files, freshness of what is stored, include search, order of analysis, nothing is lost."""
from ..run import check
from ..lib import *
from .analysis import kind_of, is_span, is_source

SELF = mk('arg', 'self')
PATHY = ('std::path::PathBuf', '&std::path::Path', "&'a std::path::Path", 'alloc::string::String', '&str')


def ffield(F, ty, name, vec=False):
    """fields of ProjectFile of a type"""
    a = next((a for k, a in F.adts.items() if k.endswith('project::ProjectFile')), None)
    return [f['name'] for f in a['variants'][0]['fields'] if ty in f['ty']] if a else []


def files_field(F):
    a = next((a for k, a in F.adts.items() if k.endswith('project::Project')), None)
    for f in a['variants'][0]['fields'] if a else ():
        if 'ProjectFile' in f['ty']:
            return f['name']
    return None


def project_roots(F):
    """public methods of the project that are given a path"""
    out = []
    for b in F.bodies.values():
        if b.get('implself', '').endswith('project::Project') and b.get('vis') == 'pub' and b['kind'] in ('method', 'fn'):
            tys = [l['ty'] if isinstance(l, dict) else l for l in b['locals'][1:b['argc'] + 1]]
            ps = [i for i, t in enumerate(tys) if t.replace("'_ ", '') in PATHY or t.endswith('std::path::Path')]
            out.append((b, tys, ps))
    return out


class Files(R):
    OPAQUE = ('Include::path', 'Parser::file', 'Analysis::analyze_file', 'Lexer::new', 'ByteReader::from_string', 'Parser::new',
              'HasSpan::span', 'HasSource::source', 'FileType::from', 'FileType as core::convert::From<&std::path::Path>>::from',
              'FileType::from_file_ending', 'DtsFile::item_at_cursor', 'AnalysisContext::get_referenced')
    budget = 3000000

    def __init__(self, ctx):
        super().__init__(ctx)
        self.n, self.bad = {}, {}
        self.ff = files_field(ctx.F)
        self.FILES = fld(SELF, self.ff or 'files')

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def report(self, k, m):
        self.bad.setdefault(k, m)

    def is_files(self, ev):
        return ev.path.startswith(natives.MAPTY) and any('ProjectFile' in t for t in ev.targs[:2]) or \
            ev.path.startswith(natives.MAPTY) and 'ProjectFile' in str(ev.callee.get('args', ''))

    def ev_op(self, st, name, key, ev):
        pass

    def ev_insert(self, st, key, val, ev):
        pass

    def on_call(self, st, ev):
        if self.is_files(ev) and len(ev.args) >= 2 and ev.name in (
                'get', 'get_mut', 'contains_key', 'remove', 'remove_entry', 'insert', 'get_key_value', 'entry', 'get_or_insert_with'):
            k = natives.chase(self.ip, st, ev.args[1])
            self.count(ev.name)
            if is_key(k, self.FILES) and ev.name in ('get', 'get_mut', 'contains_key', 'get_key_value') and not self.n.get('remove'):
                self.ip.set_fact(st, mk('variant', mk('mapget', self.FILES, k)), True, 'Some')
            self.ev_op(st, ev.name, k, ev)
            if ev.name == 'insert':
                self.ev_insert(st, k, natives.chase(self.ip, st, ev.args[2]), ev)
                return mk('opaque', 'old entry')
            if ev.name == 'remove':
                return mk('mapget', self.FILES, k)
        if ev.name == 'canonicalize' and ev.body is None and ev.args:
            x = natives.chase(self.ip, st, ev.args[0])
            if x.op == 'fld' and self.canon(st, x):
                return ok(x)                   # canonical already
        return None

    def sticky(self, k):
        return k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('canonicalize') and k.a[0].a[1][0].op == 'arg'

    # canonical paths
    def canon(self, st, t):
        if t.op == 'old':
            t = t.a[0]
        if t.op == 'fld' and t.a[1] in ('Ok.0', '0') and t.a[0].op == 'call':
            p = t.a[0].a[0]
            if p == 'dunce::canonicalize' or p.endswith('fs::canonicalize') or p.endswith('Include::path'):
                return True
        if t.op == 'fld' and t.a[0].op in ('item', 'old') and contains(t.a[0], mk('item', self.FILES)):
            return True                        # a key of the map
        if t.op == 'fld' and t.a[0].op in ('item', 'old') and find(t.a[0], lambda x: x.op == 'item' and x.a[0].op == 'seq'):
            return True
        if t.op == 'arg':
            for k, f in st.facts.items():
                if k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('canonicalize') and k.a[0].a[1] == (t,):
                    if f == ('=', 'Err') or f[0] == '!' and 'Ok' in f[1]:
                        return True
        return False


def ltype(b, i):
    l = b['locals'][i]
    return l['ty'] if isinstance(l, dict) else l


def drive(ctx, cls, b, mon=None, **kw):
    r = cls(ctx)
    for k, v in kw.items():
        setattr(r, k, v)
    ip0 = Interp(ctx.F, r)
    r.root = b
    run(ctx.F, r, b, ip0.root_args(b, None), mon=mon)
    for k, m in r.bad.items():
        ctx.violate(k, m)
    return r


# ------------------------------------------------------------------ identity
class Identity(Files):
    def ev_op(self, st, name, key, ev):
        self.count('key')
        if not self.canon(st, key):
            self.report('key:%s:%s' % (self.root['name'], name), '%s: the files of the project are accessed (%s) with a path that '
                        'is not canonical: %s' % (self.root['path'], name, show(key)))

    def on_recursion(self, st, ev):
        for i, a in enumerate(ev.args):
            if ltype(ev.body, i + 1).replace("'_ ", '').replace("'a ", '').lstrip('&').rsplit('::', 1)[-1] in ('Path', 'PathBuf'):
                x = natives.chase(self.ip, st, a)
                self.count('recursion')
                if not self.canon(st, x):
                    self.report('recursion:' + self.root['name'], 'an included file is entered under a path that is not canonical: ' + show(x))
        return UNIT


class IncPath(R):
    """mon = (candidate being tried, candidates exhausted, what is known about it)"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bad, self.n = {}, 0

    def sticky(self, k):
        return any(c.op == 'call' and c.a[0].endswith('canonicalize') for c in subs(k))

    def tried(self, st, x):
        """fact about the canonical path of candidate x: (call, variant)"""
        for k, f in st.facts.items():
            if k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('canonicalize') and contains(k.a[0], x):
                return k.a[0], st.variant(k.a[0])
        return None, None

    def on_head(self, st):
        # what is known about the candidate is kept in mon: facts do not survive when collected terms get old
        x, done, v = st.mon
        if x is not None and v is None:
            c, v = self.tried(st, x)
            if c is not None:
                st.mon = (x, done, v)

    def settle(self, st):
        x, done, v = st.mon
        if x is not None:
            c = v
            if v is None:
                c, v = self.tried(st, x)
            if c is None:
                self.bad['skipped'] = 'an include path is passed over without trying it'
            elif v == 'Ok':
                self.bad['order'] = 'an include path where the file exists is passed over'
            for k in [k for k in st.facts if self.sticky(k) and contains(k, x)]:
                del st.facts[k]
        st.mon = (None, done, None)

    def on_item(self, st, coll, kind, x, first):
        if coll is fld(SELF, 'include_paths'):
            self.settle(st)
            if x is None:
                st.mon = (None, True, None)
            else:
                self.n += 1
                st.mon = (x, False, None)

    def on_call(self, st, ev):
        if ev.name in ('rev', 'sorted', 'last', 'skip', 'take', 'nth', 'rfind', 'max', 'min', 'sorted_by') and 'terator' in ev.path:
            self.bad['adapter'] = 'the include paths are not tried one after the other (%s)' % ev.name
        return None

    def rename_mon(self, mon, f):
        return (f(mon[0]) if mon[0] is not None else None,) + mon[1:]

    def keep_terms(self, st):
        return (st.mon[0],) if st.mon[0] is not None else ()


def is_join(t, base, name):
    return t.op == 'call' and t.a[0].endswith('Path::join') and t.a[1][0] is base and contains(t.a[1][1], name)


@check('C36')
def c36(ctx):
    """include search order"""
    ctx.rule = ('Abstract traces of Include::path: the include paths are tried in their order, the first under which the canonical '
                'path of the file exists is the result, the plain name is tried last; abstract traces of the project: every parser gets the '
                'directory of its file followed by the include paths of the project; set_include_paths stores the canonical form of each path that '
                'exists, in order.')
    F = ctx.F
    b = body(F, 'Include::path')
    if ctx.anchor(b is not None, 'Include::path'):
        r = IncPath(ctx)
        run(F, r, b, [SELF], mon=(None, False, None))
        for k, m in r.bad.items():
            ctx.violate('path:' + k, m)
        name = fld(SELF, 'file_name')
        seen = set()
        for st, v in r.rets:
            x, done, _ = st.mon
            vv = v if v.op != 'agg' else v.a[4][0]
            c = vv if vv.op == 'call' else vv.a[0] if vv.op == 'fld' else vv
            good = False
            if c.op == 'call' and c.a[0].endswith('canonicalize'):
                arg = c.a[1][0]
                if x is not None:
                    good = is_join(arg, x, name) and st.variant(c) == 'Ok'
                    seen.add('found')
                else:
                    good = done and contains(arg, name) and not find(arg, lambda y: y.op == 'call' and y.a[0].endswith('Path::join'))
                    seen.add('plain')
            ctx.oblige(good, 'path:result', 'the included file is not determined by the include paths: ' + show(v))
        ctx.floor('kinds of results of Include::path', len(seen), 2)
        ctx.floor('include paths tried', r.n, 1)
    for b in bodies_of(F, 'Project::add_file_with_text', 'Project::add_file'):
        r = drive(ctx, SearchPath, b, (None, None))
        ctx.floor('parsers created by ' + b['name'], r.n.get('parser', 0), 1)
    b = body(F, 'Project::set_include_paths')
    if ctx.anchor(b is not None, 'Project::set_include_paths'):
        P = mk('arg', 'include_paths')
        r = SetInc(ctx)
        run(F, r, b, [mk('addr', ('O', SELF), ()), P], mon=(None, False, None))
        for k, m in r.bad.items():
            ctx.violate('set:' + k, m)
        inc = next(('include_paths' for _ in (1,)), None)
        for st, v in r.rets:
            o = fld(r.ip.load(st, ('O', SELF), ()), inc)
            ctx.oblige(st.mon[1] is True, 'set:stopped', 'set_include_paths can end before it has seen all given paths')
            good = o.op in ('seq', 'agg') and (seqels(o) is not None) and all(okpath(e) for e in seqels(o)) and (o.op != 'seq' or o.a[0] is None)
            ctx.oblige(good, 'set:result', 'the include paths of the project are not the canonical forms of those given: ' + show(o))
        ctx.floor('set_include_paths results', len(r.rets), 1)
        ctx.floor('given paths', r.n, 1)


def seqels(t):
    if t.op == 'seq':
        return list(t.a[1])
    if t.op == 'agg' and t.a[0] == 'array':
        return list(t.a[4])
    return None


def okpath(e):
    return e.op == 'fld' and e.a[0].op == 'call' and e.a[0].a[0].endswith('canonicalize')


UNORDERED = ('rev', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'reverse', 'swap', 'rotate_left', 'rotate_right', 'sorted',
             'sorted_by', 'sorted_by_key', 'sorted_unstable', 'sorted_by_cached_key', 'sorted_unstable_by', 'sorted_unstable_by_key', 'k_smallest', 'dedup',
             'sort_unstable_by', 'sort_unstable_by_key', 'truncate', 'retain', 'swap_remove')


class SetInc(IncPath):
    """every given path that exists is kept: mon = (path being handled, all handled)"""

    def on_item(self, st, coll, kind, x, first):
        if coll is mk('arg', 'include_paths'):
            self.settle(st)
            if x is None:
                st.mon = (None, True, None)
            else:
                self.n += 1
                st.mon = (x, False, None)

    def settle(self, st):
        x, done, v = st.mon
        if x is not None:
            c = v
            if v is None:
                c, v = self.tried(st, x)
            if c is None:
                self.bad['skipped'] = 'a given include path is passed over'
            elif v == 'Ok' and not (st.mon[1] == 'kept'):
                self.bad['dropped'] = 'a given include path that exists is not kept'
            for k in [k for k in st.facts if self.sticky(k) and contains(k, x)]:
                del st.facts[k]
        st.mon = (None, done, None)

    def on_call(self, st, ev):
        r = super().on_call(st, ev)
        if ev.name in UNORDERED or ev.name in ('collect', 'from_iter', 'extend') and any(
                re.match(r'(std|alloc)::collections::\S*?(HashSet|BTreeSet|HashMap|BTreeMap|BinaryHeap)<', t) for t in ev.targs):
            x = [natives.chase(self.ip, st, a) for a in ev.args]
            if ev.name not in UNORDERED or any(y.op == 'seq' and any(okpath(e) for e in y.a[1]) or
                                               contains(y, mk('arg', 'include_paths')) for y in x):
                self.bad['order'] = 'the include paths are not kept in their order (%s)' % ev.name
        if ev.path.startswith('alloc::vec::Vec') and ev.name in ('push', 'insert'):
            x = natives.chase(self.ip, st, ev.args[-1])
            if ev.name == 'insert':
                self.bad['order'] = 'the include paths are not kept in their order'
            if st.mon[0] is not None and okpath(x) and contains(x, st.mon[0]):
                st.mon = (st.mon[0], 'kept', st.mon[2])
        return r


class SearchPath(Files):
    """order of the include paths that the parsers get
    mon = (directory of the file, include paths of the project taken over: None / 'some' / 'all')"""

    def rename_mon(self, mon, f):
        return (f(mon[0]) if mon[0] is not None else None,) + mon[1:]

    def keep_terms(self, st):
        return (st.mon[0],) if st.mon[0] is not None else ()

    def on_item(self, st, coll, kind, x, first):
        if coll is fld(SELF, 'include_paths'):
            self.started = True
            st.mon = (st.mon[0], 'all' if x is None else 'some')

    def parent(self, st):
        """the directory of the file on this trace: term, 'None' or None (not determined)"""
        c = st.mon[0]
        if c is None:
            return None
        v = st.variant(c)
        return 'None' if v == 'None' else fld(c, '0', 'Some')

    def on_call(self, st, ev):
        base = fld(SELF, 'include_paths')
        if ev.path.endswith('Path::parent') and ev.body is None:
            st.mon = (mk('call', ev.path, tuple(natives.chase(self.ip, st, a) for a in ev.args), None),) + st.mon[1:]
        if ev.path.startswith('alloc::vec::Vec') and ev.name == 'insert' and ev.args[1] is const(0):
            a = natives.lastaddr(self.ip, st, ev.args[0])
            if a.op == 'addr':
                v = self.ip.load(st, *a.a)
                self.ip.store_at(st, a.a[0], a.a[1], mk('front', v, natives.chase(self.ip, st, ev.args[2])))
                return UNIT
        if ev.path.startswith('alloc::vec::Vec') and ev.name == 'push':
            x, p = natives.chase(self.ip, st, ev.args[1]), self.parent(st)
            if p is not None and p != 'None' and contains(x, p) and st.mon[1]:
                self.report('order', 'the directory of the file is searched after the include paths of the project')
        if ev.body is not None and norm(ev.body['path']).endswith('Parser::new'):
            self.count('parser')
            c = natives.chase(self.ip, st, ev.args[1])
            lex = natives.chase(self.ip, st, ev.args[0])
            inc = fld(c, 'include_paths')
            key = lex.a[1][1] if lex.op == 'call' and len(lex.a[1]) > 1 else None
            p = self.parent(st)
            if key is None or st.mon[0] is None or key not in st.mon[0].a[1]:
                self.report('local', 'the directory of the file is not determined for the include search')
            else:
                if p != 'None' and not contains(inc, p):
                    self.report('local', 'the directory of the file is not among the include paths: ' + show(inc))
                taken = contains(inc, base) and (inc.op != 'seq' or inc.a[0] is base or st.mon[1] == 'all') or \
                    st.facts.get(mk('isempty', base)) == ('=', 1)
                if not taken:
                    self.report('paths', 'a parser does not get the include paths of the project: ' + show(inc))
                if inc.op == 'seq' and inc.a[0] is base:
                    self.report('order', 'the directory of the file is searched after the include paths of the project')
            st.mon = (None, None)
        return super().on_call(st, ev)


@check('C15')
def c15(ctx):
    ctx.rule = ('Value-flow over every public method of the project: each key used on the map of files is the canonical form of the path given '
                '(or that path itself on the traces where it has no canonical form), the canonical path of an include, or a key of the map; '
                'recursion enters included files under such keys; Include::path only returns canonical paths.')
    F = ctx.F
    if not ctx.anchor(files_field(F) is not None, 'map of the files of the project'):
        return
    n = 0
    for b, tys, ps in project_roots(F):
        r = drive(ctx, Identity, b)
        n += r.n.get('key', 0)
        if ps and b['name'] != 'set_include_paths':
            ctx.floor('keys used by ' + b['name'], r.n.get('key', 0), 1)
        if r.rets == [] and not r.divs:
            ctx.violate('no result:' + b['name'], 'no result of %s is reached' % b['path'])
    ctx.floor('keys', n, 20)
    b = body(F, 'Include::path')
    if ctx.anchor(b is not None, 'Include::path'):
        r = R(ctx)
        run(F, r, b, [SELF])
        for st, v in r.rets:
            x = v.a[4][0] if v.op == 'agg' else v
            x = x.a[0] if x.op == 'fld' else x
            ctx.oblige(x.op == 'call' and x.a[0].endswith('canonicalize') or v.op == 'agg' and v.a[2] == 'Err', 'include path',
                       'an include resolves to a path that is not canonical: ' + show(v))


# ------------------------------------------------------------------ what is stored
def pf_fields(F):
    """roles of the fields of a project file, by type"""
    a = next((a for k, a in F.adts.items() if k.endswith('project::ProjectFile')), None)
    r = {}
    for f in a['variants'][0]['fields'] if a else ():
        t = f['ty']
        if t.endswith('string::String'):
            r['text'] = f['name']
        elif t.endswith('FileType'):
            r['type'] = f['name']
        elif 'DtsFile' in t:
            r['tree'] = f['name']
        elif 'AnalysisContext' in t:
            r['context'] = f['name']
        elif 'Diagnostic' in t:
            r.setdefault('diags', []).append(f['name'])
    return r


def is_key(t, files):
    """a key of the map of files, as the abstract traces see it"""
    x = t.a[0] if t.op == 'fld' else None
    x = x.a[0] if x is not None and x.op == 'old' else x
    return x is not None and x is mk('item', files) and t.a[1] == '0'


class Fresh(Files):
    """what a file that is added leaves behind.
    mon = (entry of the file: None/'dummy'/'good', (file in the order, state) or None, (file analysed, result, what is stored) or None, order gone through)"""
    ADAPT = ('rev', 'skip', 'take', 'step_by', 'nth', 'last', 'skip_while', 'take_while', 'map_while', 'pop')

    def __init__(self, ctx):
        super().__init__(ctx)
        self.forgot = []              # C45

    def rename_mon(self, mon, f):
        e, i, o, d = mon
        return (e, (f(i[0]), i[1]) if i else None, (f(o[0]), f(o[1]), o[2]) if o else None, d)

    def keep_terms(self, st):
        e, i, o, d = st.mon
        return ((i[0],) if i else ()) + (o[:2] if o else ())

    def sticky(self, k):
        return super().sticky(k) or k is mk('isempty', self.FILES) or k.op == 'variant' and k.a[0].op == 'fld' and k.a[0].a[1] == self.roles['tree']

    def entry(self, k):
        return fld(mk('mapget', self.FILES, k), '0', 'Some')

    def is_text(self, t, key):
        if self.from_disk:
            return t.op == 'fld' and t.a[0].op == 'call' and t.a[0].a[0].endswith('fs::read_to_string') and t.a[0].a[1][0] is key
        return t is mk('arg', 'text')

    def is_type(self, t, key):
        if self.from_disk:
            return t.op == 'call' and t.a[0].endswith(('From::from', 'Into::into')) and len(t.a[1]) == 1 and t.a[1][0] is key
        return t is mk('arg', 'file_type')

    def parser_text(self, st, t, key, what):
        """the parser that t comes from reads the text of the file"""
        rd = find(t, lambda y: y.op == 'call' and y.a[0].endswith('ByteReader::from_string'))
        lx = find(t, lambda y: y.op == 'call' and y.a[0].endswith('Lexer::new'))
        if len(rd) != 1 or not self.is_text(rd[0].a[1][0], key):
            self.report('text:' + what, '%s of the file does not come from the text that was given' % what)
        if len(lx) != 1 or lx[0].a[1][1] is not key:
            self.report('source:' + what, '%s of the file is not attributed to this file: %s' % (what, show(lx[0].a[1][1]) if lx else '-'))

    def ev_insert(self, st, key, val, ev):
        R_ = self.roles
        val = self.ip.val(st, val)
        if val.op == 'agg' and val.a[1].endswith('ProjectFile'):
            text, typ, tree = (fld(val, R_[x]) for x in ('text', 'type', 'tree'))
            self.count('insert')
            if text is strc('') or text.op == 'agg' and text.a[0] == 'array':
                st.mon = ('dummy',) + st.mon[1:]
                return
            good = True
            if not self.is_text(text, key):
                good = self.report('text', 'the text that is stored for the file is not the one that was given: ' + show(text))
            if not self.is_type(typ, key):
                good = self.report('type', 'the type that is stored for the file is not its own: ' + show(typ))
            for d in R_['diags']:
                x = fld(val, d)
                if contains(x, self.FILES):
                    self.report('stale', 'old diagnostics of the file are kept')
            cx = fld(val, R_['context'])
            if st.variant(cx) != 'None':
                self.report('stale', 'an old analysis result of the file is kept')
            tv = st.variant(tree)
            if tv == 'Some':
                x = fld(tree, '0', 'Some')
                if not (x.op == 'fld' and x.a[0].op == 'call' and x.a[0].a[0].endswith('Parser::file') and x.a[1] == 'Ok.0'):
                    self.report('tree', 'the syntax tree that is stored for the file is not the one of its text: ' + show(x))
                else:
                    self.parser_text(st, x, key, 'the syntax tree')
                    self.count('tree')
            elif tv == 'None':
                pf = [k.a[0] for k, f in st.facts.items() if k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('Parser::file')]
                if not pf or st.variant(pf[0]) != 'Err':
                    self.report('tree', 'the syntax tree of the file is not kept')
                self.count('no tree')
            else:
                self.report('tree', 'the syntax tree of the file is not kept: ' + show(tree))
            st.mon = ('good',) + st.mon[1:]
        else:
            self.report('insert', 'the entry of a file is not built from its text: ' + show(val))

    def on_recursion(self, st, ev):
        p = t = None
        for i, a in enumerate(ev.args):
            ty = ltype(ev.body, i + 1)
            if ty.rsplit('::', 1)[-1] in ('Path', 'PathBuf'):
                p = natives.chase(self.ip, st, a)
            elif ty.endswith('string::String'):
                t = natives.chase(self.ip, st, a)
        if p is not None and t is not None:
            self.count('include')
            if not (t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0].endswith('read_to_string') and
                    (t.a[0].a[1][0] is p)):
                self.report('include', 'the text of an included file is not its own content: ' + show(t))
        return UNIT

    # the analysis of all files
    def settle(self, st, what):
        e, i, o, d = st.mon
        if o:
            for r in ('context', 'diagnostics'):
                if r not in o[2]:
                    self.report('lost:' + r, 'the %s that the analysis of a file computed are not stored' % r)
        if i and i[1] == 'new' and st.variant(fld(self.entry(i[0]), self.roles['tree'])) != 'None':
            self.report('skipped', 'a file of the project that has a syntax tree is not analysed')
        if i:
            for k in [k for k in st.facts if k.op == 'variant' and contains(k, i[0]) and self.sticky(k)]:
                del st.facts[k]
        st.mon = (e, None, None, d)

    def on_head(self, st):
        e, i, o, d = st.mon
        if i and i[1] == 'new' and st.variant(fld(self.entry(i[0]), self.roles['tree'])) == 'None':
            st.mon = (e, (i[0], 'none'), o, d)

    def on_item(self, st, coll, kind, x, first):
        e, i, o, d = st.mon
        order = coll.op == 'seq' and coll.a[0] is None and coll.a[1] and all(is_key(y, self.FILES) for y in coll.a[1])
        if coll is SEQ0 and x is None and st.facts.get(mk('isempty', self.FILES)) == ('=', 1):
            st.mon = (e, i, o, True)
        if not order and not (i and coll is self.last):
            return
        self.last = coll
        self.settle(st, 'next')
        e, i, o, d = st.mon
        if x is not None:
            self.count('item')
            st.mon = (e, (x, 'new'), None, d)
        else:
            st.mon = (e, None, None, True)

    def one_guard(self, st, ev, cur):
        """the object that analyses the files knows the includes of all of them: it is the same one in a round"""
        used, now = mk('arg', 'round begun'), mk('arg', 'analysis of the round')
        if st.facts.get(used) == ('=', 1) and cur is not now:
            self.forgot.append('the analysis starts anew with a file, so that include cycles over several files are not found')
        st.facts[used] = ('=', 1)
        x = natives.lastaddr(self.ip, st, ev.args[0])
        if x is not None and x.op == 'addr':
            self.ip.store_at(st, x.a[0], x.a[1], now)
            self.count('guard kept')

    def on_call(self, st, ev):
        if ev.name in self.ADAPT and ('Iterator' in ev.path or 'iter' in ev.path or ev.name == 'pop') and ev.args:
            c = natives.chase(self.ip, st, ev.args[0])
            if any(x.op == 'seq' and x.a[1] and all(is_key(y, self.FILES) for y in x.a[1]) for x in subs(c)):
                self.report('adapter', 'the files are not analysed one after the other (%s)' % ev.name)
        if is_call(ev, 'Analysis::analyze_file'):
            a = [natives.chase(self.ip, st, x) for x in ev.args]
            self.count('analyse')
            self.one_guard(st, ev, a[0])
            e, i, o, d = st.mon
            if o:
                self.settle(st, 'analyse')
            r = mk('call', 'analyze_file', tuple(a[1:3]), None)
            R_ = self.roles
            m = find(a[1], lambda y: y.op == 'mapget' and y.a[0] is self.FILES)
            k = m[-1].a[1] if len(m) == 1 else None
            if k is None or not (a[1].op == 'fld' and contains(a[1], fld(self.entry(k), R_['tree']))):
                self.report('tree analysed', 'it is not the syntax tree of a project file that is analysed: ' + show(a[1]))
                k = a[1]
            elif a[2] is not fld(self.entry(k), R_['type']):
                self.report('type analysed', 'a file is analysed with a type that is not its own: ' + show(a[2]))
            if len(a) > 3 and not (a[3] is SELF or contains(a[3], SELF)):
                self.report('project analysed', 'a file is analysed against another project')
            if i and i[0] is k:
                i = (i[0], 'done')
            st.mon = (e, i, (k, r, frozenset()), d)
            return r
        return super().on_call(st, ev)

    def on_write(self, st, root, projs, v):
        e, i, o, d = st.mon
        if root[0] == 'O' and root[1].op == 'fld' and root[1].a[0].op == 'mapget' and root[1].a[0].a[0] is self.FILES:
            k = root[1].a[0].a[1]
            names = [p[0] for p in projs if isinstance(p, tuple)]
            R_ = self.roles
            if not names:
                self.report('overwritten', 'the entry of a file is overwritten')
                return
            n = names[0]
            if o and o[0] is k:
                if n == R_['context']:
                    x = v
                    if st.variant(v) == 'Some' and contains(fld(v, '0', 'Some'), o[1]):
                        st.mon = (e, i, (o[0], o[1], o[2] | {'context'}), d)
                        return
                elif n in R_['diags'] and v.op == 'fld' and v.a[0] is o[1]:
                    st.mon = (e, i, (o[0], o[1], o[2] | {'diagnostics'}), d)
                    self.diag_target = n
                    return
            self.report('write:' + n, 'the field %s of a file gets a value that is not the result of its own analysis: %s' % (n, show(v)))

    def on_ret(self, st, v):
        super().on_ret(st, v)
        failed = st.variant(v) == 'Err'
        self.settle(st, 'end')
        e, i, o, d = st.mon
        if failed:
            self.count('failed')
            if e is not None:
                self.report('failed', 'a file that cannot be read changes the project')
        else:
            self.count('added')
            if e != 'good':
                self.report('entry', 'after a file has been added its entry is %s' % ('an empty one' if e else 'not the new one'))
            if not d:
                self.report('order', 'not all files of the project are analysed after a file was added')


@check('C33')
def c33(ctx):
    ctx.rule = ('Automaton over the abstract traces of add_file and add_file_with_text (included files by coinduction over the recursion): the last entry '
                'stored for the file is built from the text given / read, its own type and the syntax tree of a parser over exactly that text; then every file '
                'with a syntax tree is analysed with its own tree and type, and result and diagnostics are stored in its own entry.')
    F = ctx.F
    for name, disk in (('Project::add_file_with_text', False), ('Project::add_file', True)):
        b = body(F, name)
        if not ctx.anchor(b is not None, name):
            continue
        r = drive(ctx, Fresh, b, (None, None, None, False), roles=pf_fields(F), from_disk=disk, last=None)
        for k, n in (('insert', 2), ('tree', 1), ('no tree', 1), ('include', 1), ('item', 1), ('analyse', 1), ('added', 1)) + ((('failed', 2),) if disk else ()):
            ctx.floor('%s: %s' % (name, k), r.n.get(k, 0), n)


# ------------------------------------------------------------------ order of analysis, cycles of includes
class Order(Files):
    """mon = (file, what became of it: frozenset, (element, how far) or None, (include path, entered) or None)
    what became of a file: 'visited' (marked), 'seen before', 'elements' (all its declarations seen), 'no tree',
    'taken' (some include is put aside), 'includes' (all includes put aside have been entered), 'placed'"""

    def rename_mon(self, mon, f):
        k, s, e, i = mon
        return (f(k) if k is not None else None, s, (f(e[0]), e[1]) if e else None, (f(i[0]), i[1]) if i else None)

    def keep_terms(self, st):
        k, s, e, i = st.mon
        return ((k,) if k is not None else ()) + ((e[0],) if e else ()) + ((i[0],) if i else ())

    def flag(self, st, *xs):
        k, s, e, i = st.mon
        st.mon = (k, s | frozenset(xs), e, i)

    def notice(self, st):
        """facts about the current file and declaration that must survive loop heads"""
        k, s, e, i = st.mon
        if k is not None:
            for f, v in st.facts.items():
                if f.op == 'in' and f.a[0] is k and v == ('=', 1) and 'visited' not in s:
                    s = s | {'seen before'}
                if f.op == 'variant' and f.a[0] is fld(self.entry(k), self.tree) and st.variant(f.a[0]) == 'None':
                    s = s | {'no tree'}
                if f.op == 'isempty' and contains(f, fld(self.entry(k), self.tree)) and v == ('=', 1) and \
                        not find(f, lambda y: y.op == 'fld' and y.a[1] == 'elements'):
                    s = s | {'no tree'}
        if e and e[1] == 'new':
            kind, p = None, None
            for f in st.facts:
                if f.op == 'variant' and contains(f, e[0]):
                    v = st.variant(f.a[0])
                    if f.a[0].op == 'call' and f.a[0].a[0].endswith('Include::path'):
                        p = v
                    elif (f.a[0] is e[0] or f.a[0].op == 'fld' and f.a[0].a[0] is e[0]) and \
                            not st.maybe(f.a[0], 'Directive' if f.a[0] is e[0] else 'Include'):
                        kind = 'other'
            if kind == 'other' or p == 'Err':
                e = (e[0], 'none')
        st.mon = (k, s, e, i)

    def on_head(self, st):
        self.notice(st)

    def entry(self, k):
        return fld(mk('mapget', self.FILES, k), '0', 'Some')

    def settle_el(self, st):
        self.notice(st)
        k, s, e, i = st.mon
        if e and e[1] == 'new':
            self.report('include skipped', 'a declaration of a file is passed over when its includes are collected')
        st.mon = (k, s, None, i)

    def settle_inc(self, st):
        k, s, e, i = st.mon
        if i and not i[1]:
            self.report('include not entered', 'an include is not ordered before the file that includes it')
        st.mon = (k, s, e, None)

    def settle_file(self, st):
        self.settle_el(st)
        self.settle_inc(st)
        k, s, e, i = st.mon
        if k is not None and 'placed' not in s and 'seen before' not in s:
            self.report('file skipped', 'a file of the project gets no place in the order of analysis')
        st.mon = (None, frozenset(), None, None)

    def in_parse(self, st):
        return False

    def on_item(self, st, coll, kind, x, first):
        k, s, e, i = st.mon
        if coll is self.FILES:
            self.settle_file(st)
            if x is None:
                self.count('all files')
            else:
                self.count('file')
                st.mon = (fld(x, '0') if x.op in ('item', 'old') else x, frozenset(), None, None)
            return
        if k is None:
            return
        if coll.op == 'fld' and coll.a[1] == 'elements' and contains(coll, self.entry(k)):
            self.settle_el(st)
            if x is None:
                self.flag(st, 'elements')
            else:
                self.count('element')
                k, s, e, i = st.mon
                st.mon = (k, s, (x, 'new'), i)
        elif coll.op == 'seq' and coll.a[1] and all(self.is_path(y) for y in coll.a[1]):
            self.settle_inc(st)
            if x is None:
                self.flag(st, 'includes')
            else:
                self.count('include')
                k, s, e, i = st.mon
                st.mon = (k, s, e, (x, False))

    def is_path(self, t):
        return t.op == 'fld' and t.a[1] == 'Ok.0' and t.a[0].op == 'call' and t.a[0].a[0].endswith('Include::path')

    def path_of(self, t, x):
        return self.is_path(t) and contains(t, x)

    def on_recursion(self, st, ev):
        k, s, e, i = st.mon
        ps = [natives.chase(self.ip, st, a) for n, a in enumerate(ev.args) if ltype(ev.body, n + 1).rsplit('::', 1)[-1] in ('Path', 'PathBuf')]
        text = any(ltype(ev.body, n + 1).endswith('string::String') for n in range(len(ev.args)))
        if text:
            # parsing an included file
            self.count('parse recursion')
            p = ps[0]
            if st.variant(mk('mapget', self.FILES, p)) != 'None':
                self.report('cycle:parsed again', 'an included file is parsed although it may be part of the project already (a cycle of '
                            'includes does not end)')
            if not self.stored(st):
                self.report('cycle:not stored', 'included files are parsed before the file itself is part of the project (a cycle of includes '
                            'does not end)')
            return UNIT
        if k is None or not ps:
            return UNIT
        self.count('order recursion')
        if 'visited' not in s:
            self.report('cycle:not marked', 'the includes of a file are gone through before the file is marked (a cycle of includes does not end)')
        if 'placed' in s:
            self.report('order:late', 'includes are ordered after the file that includes them')
        p = ps[0]
        if e and self.path_of(p, e[0]):
            self.count('include')
            e = (e[0], 'entered')
        if i and (p is i[0]):
            i = (i[0], True)
        st.mon = (k, s, e, i)
        return UNIT

    def stored(self, st):
        return any(r[0] == 'stored' for r in ()) or bool(st.facts.get(mk('opaque', 'entry stored')))

    def ev_insert(self, st, key, val, ev):
        st.facts[mk('opaque', 'entry stored')] = ('=', 1)

    def sticky(self, k):
        return super().sticky(k) or k is mk('opaque', 'entry stored')

    def on_call(self, st, ev):
        k, s, e, i = st.mon
        if ev.name in Fresh.ADAPT and ev.body is None and ev.args and k is not None:
            c = natives.chase(self.ip, st, ev.args[0])
            if any(self.is_path(x) or x is self.FILES or x.op == 'fld' and x.a[1] == 'elements' for x in subs(c)) and 'Vec' not in ev.path:
                self.report('adapter', 'the files and includes are not ordered one after the other (%s)' % ev.name)
        if ev.name == 'rev' and ev.args:
            c = natives.chase(self.ip, st, ev.args[0])
            if any(x.op == 'seq' and x.a[1] and all(is_key(y, self.FILES) for y in x.a[1]) for x in subs(c)):
                self.report('order:reversed', 'the files are not analysed in the order that was computed')
        if ev.path.startswith('alloc::vec::Vec') and ev.name in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'reverse', 'dedup', 'swap', 'truncate', 'clear', 'retain') or \
                'slice' in ev.path and ev.name in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'reverse', 'swap', 'rotate_left', 'rotate_right'):
            c = natives.chase(self.ip, st, ev.args[0])
            if c.op == 'seq' and any(is_key(y, self.FILES) for y in c.a[1]):
                self.report('order:changed', 'the order that was computed is changed (%s)' % ev.name)
        if k is not None and 'HashSet' in ev.path + ' BTreeSet' and ev.name == 'insert' and len(ev.args) == 2 and ('Set' in ev.path):
            x = natives.chase(self.ip, st, ev.args[1])
            if x is k:
                self.notice(st)
                if 'seen before' not in st.mon[1]:
                    m = natives.chase(self.ip, st, ev.args[0])
                    out = []
                    was = FALSE if m is SEQ0 else mk('in', x, m)
                    for w in (True, False):
                        s2 = st.copy()
                        if self.ip.assume(s2, was, w):
                            self.flag(s2, 'seen before' if w else 'visited')
                            a = natives.lastaddr(self.ip, s2, ev.args[0])
                            if a.op == 'addr':
                                from ..interp import seq_add
                                self.ip.store_at(s2, a.a[0], a.a[1], seq_add(m, x))
                            out.append((s2, FALSE if w else mk('const', 1)))
                    return out
        if ev.path.startswith('alloc::vec::Vec') and ev.name in ('push', 'insert') and k is not None:
            x = natives.chase(self.ip, st, ev.args[-1])
            if e and self.path_of(x, e[0]):
                st.mon = (k, s | {'taken'}, (e[0], 'taken'), i)
            elif x is k:
                self.count('placed')
                self.settle_el(st)
                self.settle_inc(st)
                k, s, e, i = st.mon
                if ev.name == 'insert':
                    self.report('order:front', 'a file is not placed after its includes')
                if 'no tree' not in s and 'elements' not in s:
                    self.report('order:early', 'a file gets its place in the order before all of its includes are known')
                if 'taken' in s and 'includes' not in s:
                    self.report('order:before includes', 'a file gets its place in the order before its includes')
                if s & {'seen before'}:
                    self.report('order:twice', 'a file gets two places in the order of analysis')
                self.flag(st, 'placed')
        return super().on_call(st, ev)


def order(ctx):
    F = ctx.F
    b = body(F, 'Project::add_file_with_text')
    if not ctx.anchor(b is not None, 'Project::add_file_with_text'):
        return
    r = drive(ctx, Order, b, (None, frozenset(), None, None), tree=pf_fields(F).get('tree'))
    return r


@check('C17')
def c17(ctx):
    ctx.rule = ('Automaton over the abstract traces of add_file_with_text: the order of analysis is a depth first post-order - every file of the map '
                'is entered, marked, each of its declarations is looked at, each include that can be found is entered (recursion, by coinduction) '
                'before the file is placed at the end of the order - and the analysis follows that order.')
    r = order(ctx)
    if r:
        for k, n in (('file', 1), ('all files', 2), ('element', 1), ('include', 1), ('order recursion', 1), ('placed', 2)):
            ctx.floor(k, r.n.get(k, 0), n)
        ctx.violations = {k: v for k, v in ctx.violations.items() if not k.startswith('cycle:')}


@check('C16')
def c16(ctx):
    r = order(ctx)
    ctx.rule = ('The same automaton: a file is only parsed through an include if it is not part of the project yet and the including file is, so that '
                'each recursion adds a file; ordering marks a file before it enters its includes and never enters a marked file.')
    if r:
        for k, n in (('parse recursion', 1), ('order recursion', 1)):
            ctx.floor(k, r.n.get(k, 0), n)
        ctx.violations = {k: v for k, v in ctx.violations.items() if k.startswith(('cycle:', 'floor', 'anchor', 'internal'))}


# ------------------------------------------------------------------ diagnostics of the parser
class Kept(Files):
    """the diagnostics of the parser reach the entry of the file"""
    PUSHED = mk('arg', 'diagnostics of the parser')
    CUT = ('clear', 'truncate', 'pop', 'remove', 'swap_remove', 'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'drain', 'split_off')

    def ours(self, st, a):
        x = natives.chase(self.ip, st, a)
        if contains(x, self.PUSHED):
            return True
        a = natives.lastaddr(self.ip, st, a)
        return a is not None and a.op == 'addr' and contains(self.ip.load(st, *a.a), self.PUSHED)

    def on_call(self, st, ev):
        ip = self.ip
        if ev.name == 'file' and is_call(ev, 'Parser::file'):
            a = natives.lastaddr(ip, st, ev.args[0])
            self.count('parse')
            if a.op == 'addr':
                ip.store_at(st, a.a[0], tuple(a.a[1]) + ((self.field, None),), self.PUSHED)
            r = mk('call', 'Parser::file', (), None)
            return r
        if ev.path.startswith(('alloc::vec', 'core::slice')) and ev.name in self.CUT and ev.args and self.ours(st, ev.args[0]):
            self.report('kept:cut', 'diagnostics of the parser are dropped (%s)' % ev.name)
        return super().on_call(st, ev)

    def ev_insert(self, st, key, val, ev):
        val = self.ip.val(st, val)
        if not (val.op == 'agg' and val.a[1].endswith('ProjectFile')):
            return
        text = fld(val, self.roles['text'])
        if text is strc('') or text.op == 'agg' and text.a[0] == 'array':
            return                            # a placeholder
        self.count('entry')
        for d in self.roles['diags']:
            x = natives.chase(self.ip, st, fld(val, d))
            if x is self.PUSHED or x.op == 'seq' and (x.a[0] is self.PUSHED or self.PUSHED in x.a[1]):
                break
        else:
            self.report('kept', 'the entry of a file does not have the diagnostics that were collected while it was parsed: ' +
                        ', '.join(show(fld(val, d))[:120] for d in self.roles['diags']))
            return
        c = mk('call', 'Parser::file', (), None)
        if st.variant(c) == 'Err':
            self.count('failed')
            if not (x.op == 'seq' and fld(c, '0', 'Err') in x.a[1]):
                self.report('kept:error', 'the error that ends the parsing of a file is not among its diagnostics')

    def on_recursion(self, st, ev):
        return UNIT


def kept(ctx):
    F = ctx.F
    b = body(F, 'Project::add_file_with_text')
    P = next((a for k, a in F.adts.items() if k.endswith('parser::Parser')), None)
    f = [f['name'] for f in P['variants'][0]['fields'] if 'Diagnostic' in f['ty']] if P else []
    if ctx.anchor(b is not None and len(f) == 1, 'Project::add_file_with_text'):
        r = drive(ctx, Kept, b, roles=pf_fields(F), field=f[0])
        for k, n in (('parse', 1), ('entry', 2), ('failed', 1)):
            ctx.floor('entries of parsed files: ' + k, r.n.get(k, 0), n)
