"""Severity table, file types, reader positions, span arithmetic."""
from ..run import check
from ..lib import *

WARN = {'NameTooLong', 'NonStringInCompatible', 'DuplicateDirective'}


class Table(R):
    """records which severity the default map stores for which code"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.tab = {}

    def on_call(self, st, ev):
        if is_call(ev, 'Guard::get_key'):
            v = mk('sym', 'code')
            out = []
            for s, n in self.ip.fork_variant(st, v, 'ginko::dts::error_codes::ErrorCode'):
                s.mon = n
                out.append((s, v))
            return out
        if is_call(ev, 'Guard::push') and st.mon:
            self.put(st, st.mon, ev.args[-1])
            st.mon = None
        if is_call(ev, 'EnumMap::from_fn'):
            v = mk('sym', 'code')
            out = []
            for s, n in self.ip.fork_variant(st, v, 'ginko::dts::error_codes::ErrorCode'):
                def wrap(x, n=n, s=s):
                    self.put(s, n, x)
                    return mk('opaque', 'enummap')
                out += self.ip.call_value(s, ev, ev.args[0], [v], wrap)
            return out
        return None

    def put(self, st, code, sev):
        sev = self.ip.val(st, natives.chase(self.ip, st, sev))
        self.tab.setdefault(code, set()).add(st.variant(sev) or show(sev))


@check('C02')
def c02(ctx):
    ctx.rule = ('The default severity table is read off the abstract paths of its construction (one entry per error code '
                'exactly), the lookup must be keyed by the code of the diagnostic, the printed and the published label must be '
                'the severity that was looked up.')
    F = ctx.F
    b = method(F, 'default::Default', 'SeverityMap', 'default')
    if ctx.anchor(b is not None, 'default severity table'):
        r = Table(ctx)
        run(F, r, b)
        codes = [v['name'] for k, a in F.adts.items() if k.endswith('ErrorCode') for v in a['variants']]
        ctx.floor('error codes', len(codes), 15)
        for c in codes:
            got = r.tab.get(c, set())
            want = 'Warning' if c in WARN else 'Error'
            ctx.oblige(got == {want}, 'severity:' + c, 'the default severity of %s is %s, not %s' % (
                c, '/'.join(sorted(got)) or 'unknown', want), sample='%s -> %s' % (c, '/'.join(sorted(got))))
    b = body(F, 'Diagnostic::severity')
    if ctx.anchor(b is not None, 'severity of a diagnostic'):
        r = R(ctx)
        run(F, r, b, [mk('arg', 'self'), mk('arg', 'map')])
        want = mk('elem', fld(mk('arg', 'map'), 'inner'), fld(mk('arg', 'self'), 'kind'))
        for st, v in r.rets:
            ctx.oblige(is_lookup(v, mk('arg', 'map'), fld(mk('arg', 'self'), 'kind')), 'lookup',
                       'the severity of a diagnostic is not the entry of its code in the table: ' + show(v))
        ctx.floor('lookups', len(r.rets), 1)
    b = method(F, 'fmt::Display', 'diagnostics::Severity', 'fmt')
    if ctx.anchor(b is not None, 'name of a severity'):
        names = {}

        class W(Writer):
            def on_out(self, st, parts):
                st.mon = (st.mon or '') + ''.join(p if isinstance(p, str) else '{}' for p in parts)

            def on_ret(self, st, v):
                names.setdefault(st.variant(mk('arg', 'self')), set()).add(st.mon)
        run(F, W(ctx), b, [mk('arg', 'self'), mk('arg', 'f')])
        for v, n in (('Error', 'error'), ('Warning', 'warning'), ('Hint', 'hint')):
            ctx.oblige(names.get(v) == {n}, 'label:' + v, 'severity %s is printed as %s' % (v, names.get(v)))
    from . import lsp
    rs = lsp.run_events(ctx)
    lsp.collect(ctx, 'C02', rs)
    n = {}
    for x in rs.values():
        for k, c in x.n.items():
            n[k] = n.get(k, 0) + c
    for s in ('Error', 'Warning'):
        ctx.floor('published ' + s, n.get('sev' + s, 0), 1)
    from .cli import run_printer
    run_printer(ctx)


def is_lookup(t, m, key):
    if t.op == 'fld' and t.a[0].op == 'mapget':
        t = t.a[0]
    if t.op in ('elem', 'mapget') and contains(t.a[0], m) and t.a[1] is key:
        return True
    if t.op == 'call' and t.a[0].split('::')[-1] in ('index', 'get') and contains(t.a[1][0], m) and t.a[1][1] is key:
        return True
    return False


# ------------------------------------------------------------------ file types
ENDINGS = {'dts': 'DtSource', 'dtsi': 'DtSourceInclude', 'dtso': 'DtSourceOverlay', 'overlay': 'DtSourceOverlay',
           'txt': 'Unknown', '': 'Unknown', 'h': 'Unknown', 'DTS': 'Unknown', 'dtb': 'Unknown', 'dt': 'Unknown', 'dtsx': 'Unknown'}


@check('C42')
def c42(ctx):
    ctx.rule = ('The function from file endings to file types is evaluated abstractly for the known endings and for its '
                'default; the function from paths must hand it exactly the extension of the path, and every file that is '
                'added from disk, by an include or by an editor must get the type of its own path.')
    F = ctx.F
    b = body(F, 'FileType::from_file_ending')
    if ctx.anchor(b is not None, 'file type of an ending'):
        E = mk('arg', 'ending')
        r0 = R(ctx)
        run(F, r0, b, [E])
        seen = set()
        for st, v in r0.rets:
            for k, f in st.facts.items():
                if f[0] == '!' and k is E:
                    seen |= set(f[1])
                if f[0] == '=' and k is E:
                    seen.add(f[1])
        for e in sorted(set(ENDINGS) | {x for x in seen if isinstance(x, str)}):
            r = R(None)
            run(F, r, b, [E], facts={E: ('=', e)})
            got = {s.variant(v) for s, v in r.rets}
            ctx.oblige(got == {ENDINGS.get(e, 'Unknown')}, 'ending:' + e, 'files ending in ".%s" are taken for %s' % (
                e, '/'.join(map(str, got))), sample='.%s -> %s' % (e, got))
        got = {st.variant(v) for st, v in r0.rets if not any(f[0] == '=' and k is E for k, f in st.facts.items())
               and not any(k.op == 'eq' and f == ('=', 1) for k, f in st.facts.items())}
        ctx.oblige(got == {'Unknown'}, 'ending-default', 'files with other endings are taken for %s' % '/'.join(map(str, got)))
    b = next((F.bodies[i['methods']['from']] for i in F.impls if i['trait'].startswith('core::convert::From') and
              head(i['self']).endswith('FileType') and 'from' in i['methods']), None)
    if ctx.anchor(b is not None, 'file type of a path'):
        P = mk('arg', 'value')
        r = R(ctx, ('FileType::from_file_ending',))
        run(F, r, b, [P])
        n = 0
        for st, v in r.rets:
            if v.op == 'call' and v.a[0].endswith('from_file_ending'):
                e = v.a[1][0]
                ok_ = [x for x in subs(e) if x.op == 'call' and x.a[0].endswith('Path::extension') and x.a[1][0] is P]
                n += 1
                ctx.oblige(bool(ok_), 'path-ending', 'the file type is not derived from the extension of the path: ' + show(e))
            else:
                noext = any(k.op == 'variant' and f == ('=', 'None') for k, f in st.facts.items())
                ctx.oblige(st.variant(v) == 'Unknown' and noext, 'path-noending',
                           'a path gets the file type %s without looking at its extension' % (st.variant(v) or show(v)))
        ctx.floor('paths with extension', n, 1)
    # no other place makes up a file type
    n = 0
    for x in F.bodies.values():
        if x['crate'] not in ('ginko-lib', 'ginko-bin', 'ginko_ls-bin') or x['id'] in F.derived:
            continue
        for bi, bb in enumerate(x['bbs']):
            t = bb['t']
            if t['k'] == 'call' and 'fn' in t['f']:
                p = norm(t['f']['fn']['path'])
                if p.endswith('FileType::from_file_ending'):
                    n += 1
                    ctx.oblige('FileType' in x['path'], 'caller:' + x['path'], 'a file type is derived from something '
                               'else than a path in ' + where(x, bb['sp'][0]))
            for s in bb['s']:
                if s[0] == '=' and s[2].get('k') == 'agg' and str(s[2].get('adt', '')).endswith('data::FileType'):
                    n += 1
                    if not escapes(x, s[1]):
                        continue
                    ctx.oblige('FileType' in x['path'], 'made-up:' + x['path'],
                               'a fixed file type is used in ' + where(x, s[3][0]))
    ctx.floor('constructions of file types', n, 4)


def escapes(b, place):
    """the value written to the place leaves the function as a value (not just compared)"""
    l, pr = place
    if 'promoted' in b['path']:
        return False
    if pr or l == 0:
        return True

    def uses(o):
        return isinstance(o, dict) and o.get('k') in ('move', 'copy') and o['p'][0] == l and not o['p'][1]
    for bb in b['bbs']:
        if bb['t']['k'] == 'call' and any(uses(a) for a in bb['t']['args']):
            return True
        for s in bb['s']:
            if s[0] == '=' and (any(uses(o) for o in s[2].get('ops', ())) or uses(s[2].get('a')) and (s[1][1] or s[1][0] == 0)):
                return True
    return False


# ------------------------------------------------------------------ reader

def width(b):
    if b == 0x0a:
        return 'nl'
    if b < 0x80 or 0xc2 <= b <= 0xdf or 0xe0 <= b <= 0xef:
        return 1
    if b <= 0xbf:
        return 0
    if 0xf0 <= b <= 0xf4:
        return 2
    return None         # never occurs in a Rust string


@check('C27')
def c27(ctx):
    ctx.rule = ('The reader is analysed once for each of the bytes that occur in UTF-8 text: line and character offset '
                'after it must be those of the LSP (UTF-16 code units); exactly one byte is consumed; looking ahead moves nothing; '
                'reading starts at 0:0.')
    F = ctx.F
    S = mk('arg', 'self')
    MS = mk('addr', ('O', S), ())
    cons = method(F, 'reader::Reader', 'ByteReader', 'consume')
    peek = method(F, 'reader::Reader', 'ByteReader', 'peek')
    pos = method(F, 'reader::Reader', 'ByteReader', 'pos')
    new = body(F, 'ByteReader::from_string')
    for b, n in ((cons, 'consume'), (peek, 'peek'), (pos, 'pos'), (new, 'from_string')):
        if not ctx.anchor(b is not None, 'reader: ' + n):
            return

    class Self(R):
        def on_ret(self, st, v):
            self.rets.append((st, v, self.ip.load(st, ('O', S), ())))
    r = Self(ctx)
    run(F, r, pos, [S])
    if not ctx.oblige(len(r.rets) == 1 and r.rets[0][1].op == 'fld', 'pos', 'the position is not a stored one'):
        return
    P = r.rets[0][1]          # the position before
    r = Self(ctx)
    run(F, r, peek, [S])
    bytes_ = set()
    for st, v, after in r.rets:
        ctx.oblige(after is S, 'peek-moves', 'looking at the next byte changes the reader')
        if st.variant(v) != 'None':
            bytes_.add(fld(v, '0', 'Some'))
    if not ctx.oblige(len(bytes_) == 1, 'peek-byte', 'the next byte is not one stored byte: %s' % sorted(map(show, bytes_))):
        return
    byte = bytes_.pop()
    opt = byte.a[0] if byte.op == 'fld' else None
    idx = opt.a[1][1] if opt is not None and opt.op == 'call' and len(opt.a[1]) > 1 else opt.a[1] if opt is not None and len(opt.a) > 1 else None
    if not ctx.oblige(idx is not None and idx.op == 'fld' and idx.a[0] is S, 'index', 'the next byte is not read at a stored index'):
        return
    iname = idx.a[1]
    n = 0
    for val in range(256):
        w = width(val)
        if w is None:
            continue
        r = Self(ctx if val == 0 else None)
        run(F, r, cons, [MS], facts={mk('variant', opt): ('=', 'Some'), byte: ('=', val)})
        for st, v, after in r.rets:
            n += 1
            p2 = proj_pos(after, P, S)
            line, ch = fld(p2, 'line'), fld(p2, 'character')
            l0, c0 = fld(P, 'line'), fld(P, 'character')
            plus = lambda a, k: a if k == 0 else mk('bin', 'Add', a, const(k))
            wl, wc = (plus(l0, 1), const(0)) if w == 'nl' else (l0, plus(c0, w))
            ctx.oblige(line is wl and ch is wc, 'advance:%s' % ('newline' if w == 'nl' else '%d-unit' % w),
                       'after byte 0x%02x the position is %s:%s instead of %s:%s' % (val, show(line), show(ch), show(wl), show(wc)))
            ctx.oblige(fld(after, iname) is mk('bin', 'Add', idx, const(1)), 'one-byte',
                       'reading byte 0x%02x does not advance by one byte' % val)
            ctx.oblige(is_agg(v, None, 'Some') and self_val(st, v.a[4][0]) in (byte, const(val)), 'returned',
                       'the byte returned is not the next byte')
        ctx.oblige(bool(r.rets), 'total:%02x' % val, 'byte 0x%02x cannot be read' % val)
    r = Self(ctx)
    run(F, r, cons, [MS], facts={mk('variant', opt): ('=', 'None')})
    for st, v, after in r.rets:
        ctx.oblige(st.variant(v) == 'None' and proj_pos(after, P, S) is P, 'end', 'reading past the end moves the position')
    ctx.floor('bytes', n, 230)
    r = R(ctx)
    run(F, r, new, [mk('arg', 'string')])
    for st, v in r.rets:
        p = fld(v, P.a[1]) if P.op == 'fld' and P.a[0] is S else v
        ctx.oblige(fld(p, 'line') is const(0) and fld(p, 'character') is const(0) and fld(v, iname) is const(0), 'start',
                   'reading does not start at the first byte and position 0:0: ' + show(v))
        held = [x for x in v.a[4] if contains(x, mk('arg', 'string'))]
        if ctx.oblige(bool(held), 'text', 'the reader does not hold the text'):
            for x in held:
                y = x
                while y.op == 'call' and y.a[0].split('::')[-1] in WHOLE and y.a[1]:
                    y = y.a[1][0]
                ctx.oblige(y is mk('arg', 'string'), 'text-whole', 'the reader does not hold exactly the text: ' + show(x)[:150])


WHOLE = ('as_bytes', 'into_bytes', 'into_boxed_slice', 'into_boxed_str', 'to_vec', 'to_owned', 'into_vec', 'into', 'from', 'clone', 'bytes', 'collect',
         'collect_vec', 'as_str', 'as_ref', 'deref', 'to_string', 'into_string', 'into_iter', 'iter', 'copied', 'cloned', 'into_boxed_bytes', 'as_slice')


def self_val(st, t):
    f = st.facts.get(t)
    return t if not f or f[0] != '=' else t


def proj_pos(after, P, S):
    path = []
    t = P
    while t is not S:
        path.append(t.a[1])
        t = t.a[0]
    v = after
    for n in reversed(path):
        v = fld(v, n)
    return v
