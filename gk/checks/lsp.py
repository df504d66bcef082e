"""Language server: document events, published diagnostics, positions, capabilities, navigation."""
from ..run import check
from ..lib import *

API = ('Project::set_include_paths', 'Project::files', 'Project::get_diagnostics', 'Project::remove_file',
       'Project::find_at_pos', 'Project::get_node_position', 'Project::document_reference',
       'Project::add_file_with_text', 'Project::add_file', 'Project::get_root', 'Project::get_file',
       'Include::path', 'AsRef<str>>::as_ref', 'FileType as core::convert::From<&std::path::Path>>::from',
       'FileType::from_file_ending', 'Reference as core::fmt::Display>::fmt', 'DeletedNode as core::fmt::Display>::fmt')
SELF, PARAMS = mk('arg', 'self'), mk('arg', 'params')
PROJ = fld(fld(SELF, 'project'), 'data')


def fpath(t, *names):
    for n in names:
        t = fld(t, n)
    return t


def handler(F, name):
    return method(F, 'tower_lsp::LanguageServer', 'server::Backend', name) or \
        next((F.bodies[i['methods'][name]] for i in F.impls if i['trait'].endswith('LanguageServer') and name in i['methods']), None)


def pos_ok(t, p):
    """lsp position t is the position p of the library, unchanged"""
    return is_agg(t) and t.a[1].endswith('Position') and fld(t, 'line') is fld(p, 'line') and \
        fld(t, 'character') is fld(p, 'character')


def range_ok(t, s, e):
    return is_agg(t) and t.a[1].endswith('Range') and pos_ok(fld(t, 'start'), s) and pos_ok(fld(t, 'end'), e)


def positions(t):
    return find(t, lambda x: is_agg(x) and x.a[1].endswith('lsp_types::Position'))


class Lsp(R):
    OPAQUE = API

    def __init__(self, ctx):
        super().__init__(ctx)
        self.calls = []
        self.n = {}

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def on_agg(self, st, t):
        pass


def awaited(ip, st, ev):
    """the future polled by this call"""
    if ev.path.endswith('Future::poll') and ev.args:
        return natives.chase(ip, st, ev.args[0])
    return None


def is_pair(t):
    """a file stored together with a list"""
    return t is not None and is_agg(t) and len(t.a[4]) == 2 and any(k.op == 'seq' for k in t.a[4])


class Publish(Lsp):
    """mon = (updates, file whose diagnostics are to be published, published since the update?, closed,
    the lists collected together with their files are those of the current state)
    A collected (file, list) pair is checked when it is collected; publishing it then only has to keep the two together."""

    def __init__(self, ctx, which):
        super().__init__(ctx)
        self.which = which
        self.bad = {}
        self.pub = {}

    def rename_mon(self, mon, f):
        if not mon:
            return mon
        return (tuple(tuple(f(x) if isinstance(x, T) else x for x in u) for u in mon[0]),
                f(mon[1]) if mon[1] is not None else None) + mon[2:]

    def keep_terms(self, st):
        if not st.mon:
            return ()
        return tuple(x for u in st.mon[0] for x in u if isinstance(x, T)) + (() if st.mon[1] is None else (st.mon[1],))

    def report(self, pid, key, msg):
        self.bad.setdefault(pid, {}).setdefault(key, msg)

    def is_files(self, coll):
        def isf(t):
            return t.op == 'call' and t.a[0].endswith('Project::files')

        def item(t):
            if t.op == 'old':
                t = t.a[0]
            return t.op == 'item' and isf(t.a[0]) or is_pair(t) and any(map(item, kids(t)))
        return isf(coll) or coll.op == 'seq' and coll.a[0] is None and bool(coll.a[1]) and all(map(item, coll.a[1]))

    def sticky(self, t):
        return t.op == 'isempty' and t.a[0].op == 'call' and t.a[0].a[0].endswith('get_diagnostics') and \
            not any(x.op == 'old' for x in subs(t))

    def on_item(self, st, coll, kind, x, first):
        if self.is_files(coll):
            up, pend, done, tail, cur = st.mon
            if x is not None and first and not self.is_pairs(coll):
                cur = True
            pair = pend is not None and not is_pair(pend) and self.stored_pair(st, pend, coll)
            if pair:
                self.checked_list(st, pend, pair)
            elif is_pair(pend):
                self.report('C13', 'dropped', 'the diagnostics of a project file are not published again (%s)' % self.which)
                if self.ip.truth(st, natives.isempty(next(k for k in pend.a[4] if k.op == 'seq'))) is not True:
                    self.report('C04', 'lsp-dropped', 'the diagnostics of a project file are not published (%s)' % self.which)
            elif pend is not None and not any(pend in s.a[1] for v in st.store.values() for s in subs(v)
                                            if s.op == 'seq' and s is not coll):
                self.report('C13', 'dropped', 'the diagnostics of a project file are not published again (%s)' % self.which)
                if self.ip.truth(st, natives.isempty(self.diags(pend))) is not True:
                    self.report('C04', 'lsp-dropped', 'the diagnostics of a project file are not published (%s)' % self.which)
            self.count('files')
            # the addresses may be collected first: publishing is complete when that list has been gone through
            collected = coll.op != 'seq' and (x is None and pend is not None)
            if is_pair(x) and not cur:
                self.report('C13', 'stale', 'diagnostics collected before the update are published (%s)' % self.which)
            st.mon = (up, x, done or x is None and not collected, tail, cur)
        if coll is fpath(PARAMS, 'content_changes') and x is None:
            up = tuple((u[0], u[1], mk('lastof', coll) if False else u[2], u[3]) for u in st.mon[0])
            st.mon = (up, st.mon[1], st.mon[2], True, st.mon[4])
        return None

    def on_call(self, st, ev):
        up, pend, done, tail, cur = st.mon
        if is_call(ev, 'Project::add_file_with_text'):
            a = [natives.chase(self.ip, st, x) for x in ev.args[1:4]]
            st.mon = (tuple(dict.fromkeys(up + (('add', a[0], a[1], a[2]),))), None, False, False, False)
            self.count('update')
        elif is_call(ev, 'Project::remove_file'):
            st.mon = (up + (('remove', natives.chase(self.ip, st, ev.args[1])),), None, False, tail, False)
            self.count('update')
        elif is_call(ev, 'Project::set_include_paths'):
            st.mon = (up + (('includes', natives.chase(self.ip, st, ev.args[1])),), pend, False, tail, False)
            self.count('update')
        else:
            f = awaited(self.ip, st, ev)
            if f is not None and f.op == 'call' and f.a[0].endswith('Client::publish_diagnostics'):
                self.publish(st, f)
        return None

    def diags(self, f):
        return mk('call', 'ginko::dts::project::Project::get_diagnostics', (PROJ, f), None)

    def checked_list(self, st, f, ds):
        """ds is the complete list of the diagnostics of the file f"""
        D = self.diags(f)
        e = self.ip.truth(st, natives.isempty(D))
        aggs = [x for x in (ds.a[1] if ds.op == 'seq' else ()) if is_agg(x) and x.a[1].endswith('Diagnostic')]
        base = [d for d in subs(ds) if d.op == 'item' and d.a[0] is D]
        if ds.op != 'seq' or (ds is not natives.SEQ0 and not aggs):
            self.report('C04', 'lsp-list', 'the published list is not built from the diagnostics of the file: ' + show(ds))
        elif e is False and not (ds.a[2] and base):
            self.report('C04', 'lsp-subset', 'a diagnostic of a file is left out of what is published (%s)' % self.which)
        for g in aggs:
            self.diag(st, g, D)

    def stored_pair(self, st, f, coll):
        """the list which the file f has been stored with"""
        for v in st.store.values():
            for s in subs(v):
                if s.op == 'seq' and s is not coll:
                    for k in s.a[1]:
                        if is_pair(k) and any(f is c for c in kids(k)):
                            return next(c for c in kids(k) if c.op == 'seq')
        return None

    def is_pairs(self, coll):
        return coll.op == 'seq' and bool(coll.a[1]) and all(map(is_pair, coll.a[1]))

    def publish(self, st, f):
        up, pend, done, tail, cur = st.mon
        url, ds, ver = f.a[1][1:4]
        src = [x for x in subs(url) if x.op == 'call' and x.a[0].endswith('from_file_path')]
        path = src[0].a[1][0] if src else None
        raw = fpath(PARAMS, 'text_document', 'uri')
        self.count('publish')
        if pend is not None and path is pend:
            self.checked_list(st, pend, ds)
            if ver is not NONE:
                self.report('C13', 'version', 'diagnostics are published for a specific document version: ' + show(ver))
            st.mon = (up, None, done, tail, cur)
        elif is_pair(pend) and any(path is k for k in kids(pend)) and any(ds is k for k in kids(pend)):
            if ver is not NONE:
                self.report('C13', 'version', 'diagnostics are published for a specific document version: ' + show(ver))
            st.mon = (up, None, done, tail, cur)
        elif url is raw or (path is not None and path is fld(mk('call', 'url::Url::to_file_path', (raw,), None), '0', 'Ok')):
            # the document of the event itself
            st.mon = (up + (('publish', ds),), pend, done, tail, cur)
        else:
            self.report('C04', 'lsp-url', 'diagnostics are published under an address that is not that of the file: ' + show(url))

    def diag(self, st, g, D):
        ds = instances(g, lambda d: d.op == 'item' and d.a[0] is D)
        self.count('diag')
        if len(ds) != 1:
            self.report('C04', 'lsp-mixed', 'a published diagnostic does not describe one diagnostic of the file: ' + show(g))
            return
        d = ds[0]
        if fld(g, 'message') is not fld(d, 'message'):
            self.report('C04', 'lsp-message', 'the published message is not the message of the diagnostic: ' + show(fld(g, 'message')))
        if not contains(fld(g, 'code'), fld(d, 'kind')):
            self.report('C04', 'lsp-code', 'the published code is not that of the diagnostic: ' + show(fld(g, 'code')))
        sp = fld(d, 'span')
        if not range_ok(fld(g, 'range'), fld(sp, 'start'), fld(sp, 'end')):
            self.report('C09', 'diag-range', 'the published range is not the span of the diagnostic: ' + show(fld(g, 'range')))

    def on_agg(self, st, g):
        if not g.a[1].endswith('lsp_types::Diagnostic'):
            return
        ds = instances(g, lambda d: d.op == 'item' and d.a[0].op == 'call' and d.a[0].a[0].endswith('get_diagnostics'))
        if len(ds) != 1:
            return
        d = ds[0]
        sev = fld(g, 'severity')
        vs = [(k.a[0], v[1]) for k, v in st.facts.items() if k.op == 'variant' and v[0] == '=' and
              contains(k.a[0], fld(d, 'kind')) and k.a[0] is not fld(d, 'kind') and v[1] in ('Error', 'Warning', 'Hint')]
        want = {'Error': 'ERROR', 'Warning': 'WARNING', 'Hint': 'HINT'}
        s0 = sev.a[4][0] if is_agg(sev, None, 'Some') else sev
        if not vs:
            self.report('C02', 'lsp-severity', 'the published severity does not depend on the severity of the diagnostic')
        for _, v in vs[:1]:
            if not (s0.op == 'kst' and s0.a[0].endswith('DiagnosticSeverity::' + want[v])):
                self.report('C02', 'lsp-severity-' + v, 'severity %s is published as %s' % (v, show(s0)))
            self.count('sev' + v)

    def url_ok(self, st):
        raw = fpath(PARAMS, 'text_document', 'uri')
        c = mk('call', 'url::Url::to_file_path', (raw,), None)
        return st.variant(c), fld(c, '0', 'Ok')

    def on_ret(self, st, v):
        up, pend, done, tail, cur = st.mon
        w = self.which
        if pend is not None:
            self.report('C04', 'lsp-left', '%s finishes before the diagnostics of every file are published' % w)
        if w in ('did_open', 'did_change'):
            u, path = self.url_ok(st)
            none = w == 'did_change' and self.ip.truth(st, natives.isempty(fpath(PARAMS, 'content_changes'))) is True
            if u is None:
                if up or not none:
                    self.report('C13', w + '-url', '%s can finish without looking at the document' % w)
                return
            adds = [x for x in up if x[0] == 'add']
            if u == 'Err':
                if adds:
                    self.report('C13', w + '-bad', '%s updates the project for an address that is no file' % w)
                return
            ch = fpath(PARAMS, 'content_changes')
            if w == 'did_change' and self.ip.truth(st, natives.isempty(ch)) is True and not adds:
                return
            if not adds:
                self.report('C13', w + '-noupdate', '%s does not update the project with the new text' % w)
                return
            if w == 'did_open':
                texts = {fpath(PARAMS, 'text_document', 'text')}
            else:
                texts = {fld(mk('lastof', ch), 'text')}
                if tail:
                    texts.add(fld(mk('item', ch), 'text'))
            for _, p, t, ty in adds[-1:]:
                if p is not path:
                    self.report('C13', w + '-path', '%s updates another file than the document: %s' % (w, show(p)))
                if t not in texts:
                    self.report('C13', w + '-text', '%s does not use the newest full text of the document: %s' % (w, show(t)))
                if not (contains(ty, path) and ty.op == 'call' and ('FileType' in ty.a[0] or ty.a[0].endswith('From::from'))):
                    if not any(x.op == 'call' and 'FileType' in x.a[0] for x in subs(ty)):
                        self.report('C13', w + '-type', '%s does not derive the file type from the path: %s' % (w, show(ty)))
            if up and up[-1][0] == 'remove':
                self.report('C13', w + '-removed', '%s removes the document' % w)
            if not done:
                self.report('C13', w + '-nopublish', '%s does not republish the diagnostics of all files after the update' % w)
        if w == 'did_close':
            u, path = self.url_ok(st)
            if u == 'Err' or u is None:
                return
            rem = [x for x in up if x[0] == 'remove']
            if not rem or rem[-1][1] is not path:
                self.report('C13', 'close-remove', 'closing a document does not remove it from the project')
            pubs = [x for x in up if x[0] == 'publish']
            bad_url = any(k.op == 'variant' and k.a[0].op == 'call' and k.a[0].a[0].endswith('from_file_path') and f == ('=', 'Err')
                          for k, f in st.facts.items())
            if not bad_url:
                if not pubs or pubs[-1][1] is not natives.SEQ0:
                    self.report('C13', 'close-retract', 'closing a document does not retract its diagnostics')
                elif up.index(pubs[-1]) < up.index(rem[-1]):
                    pass
        if w in ('initialize', 'did_change_configuration'):
            inc = [x for x in up if x[0] == 'includes']
            if not inc:
                self.report('C37', w + '-includes', '%s does not set the include paths' % w)
            else:
                t = inc[-1][1]
                cfg = fpath(PARAMS, 'initialization_options' if w == 'initialize' else 'settings')
                if not contains(t, fld(SELF, 'includes')) and 'includes' in self.backend_fields() and \
                        self.ip.truth(st, natives.isempty(fld(SELF, 'includes'))) is not True:
                    self.report('C37', w + '-cli', '%s drops the include paths of the command line' % w)
                calls = [x for x in subs(t) if x.op == 'call' and 'from_value' in x.a[0]]
                okc = [k for k, f in st.facts.items() if k.op == 'variant' and k.a[0].op == 'call' and
                       'from_value' in k.a[0].a[0] and f == ('=', 'Ok')]
                for k in okc:
                    want = fld(fld(k.a[0], '0', 'Ok'), 'includes')
                    if self.ip.truth(st, natives.isempty(want)) is True:
                        continue
                    if not contains(t, want):
                        self.report('C37', w + '-config', '%s drops the include paths of the configuration' % w)
                if not okc and not any(k.op == 'variant' and k.a[0].op == 'call' and 'from_value' in k.a[0].a[0]
                                       for k in st.facts) and w != 'initialize':
                    self.report('C37', w + '-ignored', '%s ignores the configuration' % w)
            if w == 'did_change_configuration' and not done:
                self.report('C13', 'config-nopublish', 'a configuration change does not republish the diagnostics')
        self.rets.append((st, v))

    def backend_fields(self):
        a = next((v for k, v in self.ip.F.adts.items() if k.endswith('server::Backend')), None)
        return {f['name'] for f in a['variants'][0]['fields']} if a else set()


EVENTS = ('did_open', 'did_change', 'did_close', 'did_change_configuration', 'initialize')
_cache = {}


def run_events(ctx):
    if ctx.F in _cache:
        rs = _cache[ctx.F]
    else:
        rs = {}
        for w in EVENTS:
            b = handler(ctx.F, w)
            if b is None:
                rs[w] = None
                continue
            r = Publish(ctx, w)
            names = {1: 'self', 2: 'params'}
            run_async(ctx.F, r, b, mon=((), None, False, False, False), names=names)
            rs[w] = r
        _cache[ctx.F] = rs
    for w in EVENTS:
        ctx.anchor(rs[w] is not None, 'handler ' + w)
        if rs[w]:
            ctx.saw(handler(ctx.F, w))
            ctx.obligations += len(rs[w].rets)
    return {w: r for w, r in rs.items() if r}


def collect(ctx, pid, rs):
    for w, r in rs.items():
        for k, m in r.bad.get(pid, {}).items():
            ctx.violate(w + ':' + k if not k.startswith(w) else k, m)


@check('C13')
def c13(ctx):
    ctx.rule = ('Abstract traces of the document event handlers: every path on which the address is a file updates the '
                'project with the newest full text under that path before it republishes the diagnostics of all files; '
                'closing removes the file and retracts its diagnostics.')
    rs = run_events(ctx)
    collect(ctx, 'C13', rs)
    ctx.floor('updates', sum(r.n.get('update', 0) for r in rs.values()), 4)
    ctx.floor('publishes', sum(r.n.get('publish', 0) for r in rs.values()), 3)


@check('C14')
def c14(ctx):
    ctx.rule = ('The capabilities in every InitializeResult value agree with the handlers that the LanguageServer impl '
                'overrides: a request capability is advertised if and only if its handler exists.')
    F = ctx.F
    b = handler(F, 'initialize')
    if not ctx.anchor(b is not None, 'handler initialize'):
        return
    r = Lsp(ctx)
    run_async(F, r, b, names={1: 'self', 2: 'params'})
    imp = next(i for i in F.impls if i['trait'].endswith('LanguageServer'))
    over = set(imp['methods'])
    table = {'hover_provider': ['hover'], 'document_symbol_provider': ['document_symbol'],
             'definition_provider': ['goto_definition'], 'references_provider': ['references'],
             'completion_provider': ['completion'], 'signature_help_provider': ['signature_help'],
             'type_definition_provider': ['goto_type_definition'], 'implementation_provider': ['goto_implementation'],
             'declaration_provider': ['goto_declaration'], 'document_highlight_provider': ['document_highlight'],
             'workspace_symbol_provider': ['symbol'], 'code_action_provider': ['code_action'],
             'code_lens_provider': ['code_lens'], 'document_formatting_provider': ['formatting'],
             'document_range_formatting_provider': ['range_formatting'], 'rename_provider': ['rename'],
             'document_link_provider': ['document_link'], 'color_provider': ['document_color'],
             'folding_range_provider': ['folding_range'], 'selection_range_provider': ['selection_range'],
             'execute_command_provider': ['execute_command'], 'inlay_hint_provider': ['inlay_hint'],
             'semantic_tokens_provider': ['semantic_tokens_full'], 'diagnostic_provider': ['diagnostic']}
    n = 0
    for st, v in r.rets:
        if not is_agg(v, None, 'Ok'):
            ctx.violate('init-fails', 'initialize can answer with an error: ' + show(v)[:200])
            continue
        cap = fld(v.a[4][0], 'capabilities')
        n += 1
        for c, hs in table.items():
            t = fld(cap, c)
            if t.op in ('fld', 'bot'):
                on = False      # from ServerCapabilities::default()
            else:
                on = not is_agg(t, None, 'None')
                for x in subs(t):
                    if is_agg(x) and x.a[2] in ('Simple', 'Left') and x.a[4] and x.a[4][0] is FALSE:
                        on = False
            have = all(h in over for h in hs)
            ctx.oblige(on == have, 'cap:' + c, ('%s is advertised without a handler' if on else
                                                'the handler for %s exists but is not advertised') % c,
                       sample='%s advertised=%s handler=%s' % (c, on, have))
        sync = fld(cap, 'text_document_sync')
        full = any(x.op == 'kst' and x.a[0].endswith('TextDocumentSyncKind::FULL') for x in subs(sync))
        other = any(x.op == 'kst' and 'TextDocumentSyncKind::' in x.a[0] and not x.a[0].endswith('FULL') for x in subs(sync))
        ctx.oblige(full and not other, 'sync', 'full document synchronisation is not what is advertised, although changes '
                   'are taken as full texts: ' + show(sync))
        for x in subs(sync):
            if is_agg(x) and x.a[1].endswith('TextDocumentSyncOptions'):
                oc = fld(x, 'open_close')
                ctx.oblige(any(y is TRUE for y in subs(oc)), 'sync-open', 'open/close notifications are not requested')
    ctx.floor('results of initialize', n, 1)
    for h in ('did_open', 'did_change', 'did_close'):
        ctx.oblige(h in over, 'handler:' + h, 'the notification %s is not handled' % h)
