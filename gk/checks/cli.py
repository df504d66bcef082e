"""C01 / C04 / C37 for the command line tool: abstract traces of its main function."""
from ..run import check
from ..lib import *


def exit_code(st, v):
    """exit code meant by a value returned from main / given to process::exit: int or None"""
    if v.op == 'const':
        return v.a[0]
    if v is UNIT:
        return 0
    if v.op == 'agg' and v.a[2] == 'Ok':
        return exit_code(st, v.a[4][0])
    if v.op == 'agg' and v.a[2] == 'Err':
        return 1
    if v.op == 'kst' and 'ExitCode' in v.a[0]:
        return 0 if 'SUCCESS' in v.a[0] else 1 if 'FAILURE' in v.a[0] else None
    if v.op == 'call' and 'ExitCode' in v.a[0] and v.a[1]:
        return exit_code(st, v.a[1][0])
    k = st.known(v)
    if k is not None and not isinstance(k, str):
        return k
    vn = st.variant(v)
    if vn == 'Err':
        return 1
    if vn == 'Ok':
        return exit_code(st, fld(v, '0', 'Ok'))
    if v.op in ('bool',):
        return None
    return None


class Cli(R):
    OPAQUE = ('Project::add_file', 'Project::add_file_with_text', 'Project::set_include_paths',
              'Parser::parse', 'Parser::try_parse', 'Default>::default')
    # mon: (add_file result, project clean/dirty/?, dirty file seen in this pass, OK printed, file pending, file visited,
    #       0 / 1 a dirty file was put on a list / 2 one was left without printing it, '' / 'listed' / 'all' printed)
    # A file put on a list for a later loop becomes kept(no parser diagnostics, no analysis diagnostics): the loop over
    # that list then visits it with what was known about it when it was put there.

    def __init__(self, ctx):
        super().__init__(ctx)
        self.exits = 0
        self.items = 0
        self.exhausted = 0
        self.adds = 0
        self.shown = 0
        self.codes = 0
        self.bad = {}     # property -> {key: msg}
        self.args = []
        self.incs = []

    def report(self, pid, key, msg):
        self.bad.setdefault(pid, {}).setdefault(key, msg)

    def rename_mon(self, mon, f):
        return mon[:4] + tuple(f(x) if x is not None else None for x in mon[4:6]) + mon[6:] if mon else mon

    def keep_terms(self, st):
        return () if st.mon is None else tuple(x for x in st.mon[4:6] if x is not None)

    def kept(self, coll):
        """the files put on a list"""
        return {y for y in subs(coll) if y.op == 'kept'} if coll.op == 'seq' else set()

    def keep(self, st, coll):
        if st.mon[5] is None:
            return
        f, *e = st.mon[5].a[4]
        if f.op == 'kept':
            return
        if any(f in subs(x) for v in st.store.values() for s in subs(v) if s.op == 'seq' and s is not coll for x in s.a[1]):
            k = mk('kept', *[x is TRUE for x in e])
            self.ip.rename(st, {f: k})
            if st.mon[4] is k:
                st.mon = st.mon[:4] + (None, None, max(st.mon[6], 1), st.mon[7])

    def later(self, st, coll, x, first):
        """the loop over a list of files"""
        glob, passd = st.mon[1], st.mon[2]
        self.pending(st, first)
        m = list(st.mon)
        if first:
            passd = False
        if x is None:
            if glob == 'dirty' and not passd and any(y.a != (True, True) for y in self.kept(coll)):
                return []
            m[2] = False
            if m[6] == 0 and m[7] == 'listed':
                m[7] = 'all'
            st.mon = tuple(m)
            return [st]
        fs = self.kept(x) if x.op == 'seq' else {y for y in subs(x) if y.op == 'kept'}
        f = next(iter(fs)) if len(fs) == 1 else None
        if f is None:
            return None
        self.items += 1
        for t, want in zip(self.empties(f), f.a):
            if not self.ip.assume(st, t, want):
                return []
        dirty = f.a != (True, True)
        if dirty and glob == 'clean':
            return []
        m[4] = f if dirty else None
        m[2] = passd or dirty
        st.mon = tuple(m)
        return [st]

    def sticky(self, t):
        return t.op == 'isempty' and t.a[0].op == 'fld' and t.a[0].a[1].endswith('_diagnostics') and \
            not any(x.op == 'old' for x in subs(t))

    def is_files(self, coll):
        return coll.op == 'fld' and coll.a[1] == 'files' and self.ctx.F.adts and True

    def empties(self, f):
        return [natives.isempty(fld(f, d)) for d in ('parser_diagnostics', 'analysis_diagnostics')]

    def on_call(self, st, ev):
        if is_call(ev, 'Project::add_file'):
            self.adds += 1
            v = self.ip.opaque_value(st, ev)
            self.args.append(self.ip.freeze(st, ev.args[1]) if len(ev.args) > 1 else None)
            out = []
            self.ip.vadt[v] = ['Ok', 'Err']
            for s, vn in self.ip.fork_variant(st, v, 'core::result::Result'):
                m = list(s.mon)
                m[0] = 'ok' if vn == 'Ok' and m[0] != 'err' else 'err'
                s.mon = tuple(m)
                out.append((s, v))
            return out
        if is_call(ev, 'Project::set_include_paths'):
            self.incs.append((ev.args[1], st.mon[0]))
        if ev.name == 'is_empty' and ev.args and st.mon[1] == 'dirty':
            c = natives.chase(self.ip, st, ev.args[0])
            if c.op == 'seq' and any(y.a != (True, True) for y in self.kept(c)):
                return FALSE
        if ev.path.endswith('::_print'):
            self.printed(st, natives.chase(self.ip, st, ev.args[0]))
            return UNIT
        return None

    def printed(self, st, t):
        m = list(st.mon)
        text = ''.join(x for x in t.a[0] if isinstance(x, str)) if t.op == 'fmt' else t.a[0] if t.op == 'str' else ''
        if 'No issues found' in text or text.strip().startswith('OK'):
            m[3] = True
        printers = find(t, lambda x: is_agg(x, None) and x.a[0] == 'adt' and x.a[1].endswith('DiagnosticPrinter'))
        for p in printers:
            f = m[4]
            if f is None:
                continue
            self.shown += 1
            ds = natives.chase(self.ip, st, fld(p, 'diagnostics'))
            want = {mk('item', fld(f, 'parser_diagnostics')), mk('item', fld(f, 'analysis_diagnostics'))}
            pv, av = fld(f, 'parser_diagnostics'), fld(f, 'analysis_diagnostics')
            e = [self.ip.truth(st, x) for x in self.empties(f)]
            need = {mk('item', d) for d, x in zip((pv, av), e) if x is not True}
            have = set()
            for x in subs(ds):
                if x.op == 'seq':
                    have |= x.a[1]
            have = {y for x in have for y in subs(x)} | {y for y in subs(ds)}
            have = {x.a[0] if x.op == 'old' else x for x in have}
            if not (need <= have):
                self.report('C04', 'cli-subset', 'the printed list of diagnostics does not hold every diagnostic of the '
                            'file: %s' % show(ds))
            code = natives.chase(self.ip, st, fld(p, 'code'))
            if any(x.op == 'lines' and contains(x, fld(f, 'source')) or x is fld(f, 'source') for x in subs(code)):
                self.codes += 1
            elif code is not SEQ0:
                self.report('C04', 'cli-code', 'the source lines shown are not those of the file: %s' % show(code))
            m[4] = None
        st.mon = tuple(m)

    def pending(self, st, first):
        m = list(st.mon)
        if first:
            m[6] = 0
            if m[2]:
                m[1] = 'dirty'
        elif m[4] is not None:
            m[6] = 2
        m[4] = None
        st.mon = tuple(m)

    def on_item(self, st, coll, kind, x, first):
        if self.kept(coll):
            return self.later(st, coll, x, first)
        if not self.is_files(coll):
            return None
        self.keep(st, coll)
        self.pending(st, first)
        glob, passd = st.mon[1], st.mon[2] and not first
        if x is None:
            self.exhausted += 1
            m = list(st.mon)
            m[4] = m[5] = None
            if glob == '?':
                m[1] = 'dirty' if passd else 'clean'
            elif glob == 'dirty' and not passd:
                return []
            m[2] = False
            if m[7] != 'all' and m[6] < 2:
                m[7] = 'listed' if m[6] else 'all'
            st.mon = tuple(m)
            return [st]
        self.items += 1
        f = x if kind == 'values' else fld(x, '1') if kind == '' else None
        if f is None:
            return None
        out = []
        a, b = self.empties(f)
        for ea, eb in ((True, True), (True, False), (False, True), (False, False)):
            s = st.copy()
            if not (self.ip.assume(s, a, ea) and self.ip.assume(s, b, eb)):
                continue
            m = list(s.mon)
            m[5] = tup(f, const(ea), const(eb))
            if ea and eb:
                m[4] = None
            else:
                if glob == 'clean':
                    continue
                m[2] = True
                m[4] = f
            s.mon = tuple(m)
            out.append(s)
        return out

    def finish(self, st, code, how):
        self.exits += 1
        added, glob, passd, okp, pend, _, left, shown = st.mon
        if code is None:
            self.report('C01', 'exit-unknown', 'the exit status is not determined by the outcome (%s)' % how)
            return
        dirty = passd or glob == 'dirty'
        if added == 'err':
            if code == 0:
                self.report('C01', 'err-exit0', 'exits with 0 although the file could not be read (%s)' % how)
            if okp:
                self.report('C01', 'err-ok', 'prints OK although the file could not be read')
            return
        if added is None:
            if code == 0 or okp:
                self.report('C01', 'not-analysed', 'exits with 0 without analysing the file (%s)' % how)
            return
        if dirty and code == 0:
            self.report('C01', 'dirty-exit0', 'exits with 0 although a file has diagnostics (%s)' % how)
        if dirty and okp:
            self.report('C01', 'dirty-ok', 'prints the OK verdict although a file has diagnostics')
        if not dirty and glob == '?':
            if code == 0 or okp:
                self.report('C01', 'unexamined', 'gives a clean verdict without looking at every file (%s)' % how)
            return
        if glob == 'clean' and code != 0:
            self.report('C01', 'clean-exit1', 'exits with %s although no file has diagnostics (%s)' % (code, how))
        if glob == 'clean' and not okp:
            self.report('C01', 'clean-silent', 'does not print the OK verdict although no file has diagnostics')
        if dirty and shown != 'all':
            self.report('C04', 'cli-dropped', 'the diagnostics of a project file are not printed (%s)' % how)

    def on_diverge(self, st, p, args, bb):
        if p.endswith('process::exit'):
            self.finish(st, exit_code(st, self.ip.val(st, args[0])), 'exit')
        # panics: a nonzero exit without a verdict

    def on_ret(self, st, v):
        self.finish(st, exit_code(st, v), 'return from main')


def run_cli(ctx):
    b = body(ctx.F, 'main', 'ginko-bin')
    if not ctx.anchor(b is not None, 'main of the command line tool'):
        return None
    r = Cli(ctx)
    run(ctx.F, r, b, mon=(None, '?', False, False, None, None, 0, ''))
    ctx.floor('exits', r.exits, 3)
    ctx.floor('files visited', r.items, 1)
    ctx.floor('exhaustions', r.exhausted, 1)
    ctx.floor('add_file', r.adds, 1)
    return r


@check('C01')
def c01(ctx):
    ctx.rule = ('Every abstract path of the CLI main function: exit status 0 and the OK line exactly on the paths where '
                'the requested file was read, the iteration over all project files was exhausted and no file had a '
                'diagnostic.')
    r = run_cli(ctx)
    if r is None:
        return
    for k, m in r.bad.get('C01', {}).items():
        ctx.violate(k, m)
    ctx.obligations += r.exits


class Printer(Writer):
    """the diagnostics printer: everything about each diagnostic is written before the next one"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.items = self.exhausted = 0

    def rename_mon(self, mon, f):
        return (f(mon[0]) if mon[0] is not None else None, mon[1]) if mon else mon

    def keep_terms(self, st):
        return () if st.mon is None or st.mon[0] is None else (st.mon[0],)

    def done(self, st):
        x, seen = st.mon
        if x is not None:
            for w in ('message', 'severity', 'path', 'line', 'column'):
                if w not in seen:
                    self.ctx.violate('printer-' + w, 'a diagnostic is printed without its ' + w)
        st.mon = (None, frozenset())

    def on_item(self, st, coll, kind, x, first):
        if coll is not fld(mk('arg', 'self'), 'diagnostics'):
            return None
        self.done(st)
        if x is None:
            self.exhausted += 1
        else:
            self.items += 1
            st.mon = (x, frozenset())
        return None

    def on_out(self, st, parts):
        x, seen = st.mon
        if x is None:
            return
        seen = set(seen)
        sev = fld(mk('arg', 'self'), 'severity_map')
        start = fld(fld(x, 'span'), 'start')
        for p in parts:
            if isinstance(p, str):
                continue
            t = p[1]
            if contains(t, fld(x, 'message')):
                seen.add('message')
            if contains(t, fld(x, 'kind')) and any(y.op in ('elem', 'call', 'mapget') and contains(y, sev) for y in subs(t)):
                seen.add('severity')
            if contains(t, fld(x, 'source')):
                seen.add('path')
            if t is mk('bin', 'Add', fld(start, 'line'), const(1)):
                seen.add('line')
            if t is mk('bin', 'Add', fld(start, 'character'), const(1)):
                seen.add('column')
        st.mon = (x, frozenset(seen))

    def on_ret(self, st, v):
        super().on_ret(st, v)
        self.done(st)


def run_printer(ctx):
    b = method(ctx.F, 'fmt::Display', 'DiagnosticPrinter', 'fmt')
    if not ctx.anchor(b is not None, 'Display of DiagnosticPrinter'):
        return
    r = Printer(ctx)
    run(ctx.F, r, b, mon=(None, frozenset()))
    ctx.floor('printer items', r.items, 1)
    ctx.floor('printer exhaustions', r.exhausted, 1)
    ctx.obligations += r.items * 5


@check('C04')
def c04(ctx):
    ctx.rule = ('Iteration automata over the abstract traces of the front ends: between obtaining a project file with '
                'diagnostics and the next file (or the end) all of its diagnostics are printed / published under its own '
                'address; the printer writes message, severity, path, line and column of each; the published record '
                'holds message, code and range of the diagnostic.')
    from . import lsp
    r = run_cli(ctx)
    for k, m in (r.bad.get('C04', {}) if r else {}).items():
        ctx.violate(k, m)
    if r:
        ctx.floor('files shown', r.shown, 1)
        ctx.floor('files shown with their source', r.codes, 1)
    run_printer(ctx)
    rs = lsp.run_events(ctx)
    lsp.collect(ctx, 'C04', rs)
    ctx.floor('published lists', sum(x.n.get('publish', 0) for x in rs.values()), 3)
    ctx.floor('published diagnostics', sum(x.n.get('diag', 0) for x in rs.values()), 3)
