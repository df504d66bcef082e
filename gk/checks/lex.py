"""The lexer: C05 (progress), C26 (token spans), C28 (token classes), C29 (strings), C25 (directives).

The reader is replaced by a symbolic input: every byte is a term with a finite domain, tagged with the state of a
reference automaton at which it is read.  The abstract traces of Lexer::next (all helpers inlined) are run against the
automaton; loops are closed by the fixpoint."""
from ..run import check
from ..lib import *
from ..interp import mk, norm, dombase
from .. import natives

ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))
DIGIT = frozenset(range(48, 58))
ALNUM = ALPHA | DIGIT
WS = frozenset((9, 10, 12, 13, 32))
ALL = frozenset(range(256))
NAME = ALNUM | frozenset(b',._+?#-')
NAME1 = ALPHA | frozenset(b',._+-#?')
LABEL = ALNUM | frozenset(b'_')
CONT = frozenset(range(0x80, 0xC0))
SINGLE = {';': 'Semicolon', '=': 'Equal', '[': 'OpenBracket', ']': 'CloseBracket', '(': 'OpenParen', ')': 'CloseParen',
          '{': 'OpenBrace', '}': 'CloseBrace', '<': 'ChevronLeft', '>': 'ChevronRight', ',': 'Comma'}
DIRECTIVES = {'dts-v1': 'DTSVersionHeader', 'plugin': 'Plugin', 'memreserve': 'MemReserve', 'bits': 'Bits', 'delete-property': 'DeleteProperty',
              'delete-node': 'DeleteNode', 'omit-if-no-ref': 'OmitIfNoRef', 'include': 'Include'}

# state -> [(bytes, next state, is the byte part of the content)]
D = {
    'ident': [(NAME, 'ident', 1), (frozenset(b'@'), 'unit', 1), (frozenset(b':'), 'done:Label', 0)],
    'unit': [(NAME, 'unit', 1)],
    'num': [(ALNUM, 'num', 1)],
    'amp': [(frozenset(b'{'), 'path', 0), (ALPHA | frozenset(b'_'), 'ref', 1)],
    'ref': [(LABEL, 'ref', 1)],
    'path': [(frozenset(b'}'), 'done:Path', 0), (ALL - frozenset(b'}'), 'path', 1)],
    'str': [(frozenset(b'"'), 'done:String', 0), (frozenset(b'\\'), 'esc', 0), (ALL - frozenset(b'"\\'), 'str', 1)],
    'esc': [(ALL, 'str', 1)],
    'slash': [(frozenset(b'/'), 'line', None), (frozenset(b'*'), 'block', None), (ALPHA, 'dir', 1)],
    'dir': [(frozenset(b'/'), 'done:Directive', 0), (ALL - frozenset(b'/'), 'dir', 1)],
    'line': [(frozenset(b'\n'), 'start', None), (ALL - frozenset(b'\n'), 'line', None)],
    'block': [(frozenset(b'*'), 'star', None), (ALL - frozenset(b'*'), 'block', None)],
    'star': [(frozenset(b'/'), 'start', None), (frozenset(b'*'), 'star', None), (ALL - frozenset(b'/*'), 'block', None)],
    'unk': [(CONT, 'unk', 0)],
}
# what a token is when it ends without consuming more
ENDS = {'ident': 'Ident', 'unit': 'Ident', 'num': 'UnparsedNumber', 'ref': 'Ref', 'slash': 'Slash', 'unk': 'Unknown'}
# cut off by the end of the file: the byte that opened the construct
CUT = {'amp': 38, 'path': 38, 'str': 34, 'esc': 34, 'block': 47, 'star': 47, 'dir': 47}


def start_table(expecting):
    t = [(WS, 'start', None)]
    names = NAME1 if expecting else ALPHA | frozenset(b'_')
    t.append((names, 'ident', 1))
    t.append((DIGIT, 'num', 1))
    t.append((frozenset(b'&'), 'amp', 0))
    t.append((frozenset(b'"'), 'str', 0))
    t.append((frozenset(b'/'), 'slash', 0))
    rest = ALL - WS - names - DIGIT - frozenset(b'&"/')
    for c, k in SINGLE.items():
        if ord(c) in rest:
            t.append((frozenset([ord(c)]), 'done:' + k, 0))
            rest -= {ord(c)}
    t.append((rest, 'unk', 0))
    return t


class Mon(tuple):
    """q: state of the automaton; cur: byte under the cursor, when it was looked at ('eof' at the end);
    pend: byte of the content that was read and is to be stored; early: cur was stored already;
    emitted: where the stored bytes were read; to: where they were stored; dj: directive that was judged; first: values of the first byte; armed: loop heads without progress"""
    __slots__ = ()
    N = ('q', 'cur', 'pend', 'early', 'emitted', 'ascii', 'first', 'armed', 'to', 'dj')

    def __getattr__(s, n):
        return s[Mon.N.index(n)]

    def set(s, **kw):
        return Mon(kw.get(n, s[i]) for i, n in enumerate(Mon.N))


COMMENT = ('line', 'block', 'star')


class Lex(R):
    OPAQUE = ()
    budget = 400000

    def __init__(self, ctx, expecting, rep):
        super().__init__(ctx)
        self.expecting = expecting
        self.start = start_table(expecting)
        self.rep = rep
        self.kinds = {}
        self.n = {}

    def bad(self, aspect, key, msg):
        self.rep(aspect, key, msg)
        # what concerns the extent or the kind of a string or a directive concerns these as well
        if aspect == 'class':
            q = set(key.split(':')[1:])
            if q & {'str', 'esc', 'String'}:
                self.rep('string', key, msg)
            if q & {'slash', 'dir', 'Directive'}:
                self.rep('directive', key, msg)

    def count(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    # ------------------------------------------------------------- the input
    def look(self, st):
        """[(state, term or None)]: the byte under the cursor"""
        m = st.mon
        if m.cur is not None:
            return [(st, None if m.cur == 'eof' else m.cur)]
        s2 = st.copy()
        s2.mon = m.set(cur='eof')
        b = self.ip.fresh(st, mk('byte', m.q))
        st.mon = st.mon.set(cur=b)
        if m.ascii:
            self.ip.restrict(st, b, ALL - CONT)
        return [(st, b), (s2, None)]

    def advance(self, st, b):
        """consume b: [states]"""
        out = []
        m = st.mon
        table = self.start if m.q == 'start' else D.get(m.q)
        if table is None:
            if m.q.startswith('done'):
                self.bad('class', 'over:' + m.q, 'a byte after the end of a token (%s) is consumed' % m.q)
                return []
            table = []
        rest = self.ip.remaining(st, b)
        for cls, q2, o in table:
            s = st.copy()
            rest = rest - cls
            if not self.ip.restrict(s, b, cls):
                continue
            m = s.mon
            if m.pend:
                self.lost(s, m)
                continue
            rem = self.ip.remaining(s, b)
            # positions taken before this byte; the position does not move within a character
            if not rem <= CONT:
                self.rename1(s, mk('pos', 'cur'), mk('pos', 'start' if m.q == 'start' and q2 != 'start' else 'past'))
            if q2 == 'start':
                self.rename1(s, mk('pos', 'start'), mk('pos', 'past'))
            emitted, pend, first = m.emitted, (), m.first
            if m.q == 'start':
                emitted, first = frozenset(), rem
            if q2 == 'start':
                emitted, first = frozenset(), None
                s.mon = s.mon.set(dj='')
            if m.early:
                if o:
                    emitted |= {m.early[0]}
                else:
                    self.extra(s, m, b)
                    continue
            elif o:
                pend = ((b, m.q),)
            if q2 == 'start' or m.q == 'start' and not m.early:
                s.mon = s.mon.set(to=frozenset())
            s.mon = s.mon.set(q=q2, cur=None, pend=pend, early=(), emitted=emitted, ascii=max(rem) < 128, first=first, armed=frozenset())
            out.append(s)
        if rest:
            s = st.copy()
            if self.ip.restrict(s, b, rest):
                self.bad('class', 'munch:' + m.q, 'a byte that does not belong to the token is consumed in %s: %s' % (m.q, chars(rest)))
        return out

    def lost(self, st, m):
        b, q = m.pend[0]
        self.bad('class' if q not in ('str', 'esc') else 'string', 'lost:' + q,
                 'a byte of the content of a token is lost (%s: %s)' % (q, chars(self.ip.remaining(st, b))))

    def extra(self, st, m, x):
        self.bad('class' if m.q not in ('str', 'esc') else 'string', 'extra:' + m.q, 'content that is not in the text is added to a token (%s: %s)' % (m.q, show(x)[:80]))

    def rename1(self, st, a, b):
        # the earlier meaning of b is gone
        if any(b in subs(v) for v in st.store.values()) and a is not b and b.a[0] == 'start':
            self.ip.rename(st, {b: mk('pos', 'past')})
        self.ip.rename(st, {a: b})

    def on_call(self, st, ev):
        p = norm(ev.path)
        if 'reader::Reader::' in p or 'reader::ByteReader' in p:
            if ev.name == 'peek':
                return [(s, NONE if b is None else some(b)) for s, b in self.look(st)]
            if ev.name == 'consume':
                out = []
                for s, b in self.look(st):
                    if b is None:
                        out.append((s, NONE))
                    else:
                        out.extend((s2, some(b)) for s2 in self.advance(s, b))
                return out
            if ev.name == 'pos':
                return mk('pos', 'cur')
        if ev.name in ('push', 'push_back') and ev.path.startswith(('alloc::vec::Vec', 'alloc::string::String', 'alloc::collections::vec')):
            x, to = natives.chase(self.ip, st, ev.args[1]), natives.lastaddr(self.ip, st, ev.args[0])
            if not self.pushed(st, x, to):
                return []
            if dombase(x) is not None and to.op == 'addr':
                from ..interp import seq_add
                v = self.ip.load(st, *to.a)
                v = SEQ0 if v.op == 'str' and v.a[0] == '' else v
                if v is SEQ0 or v.op == 'seq':
                    self.ip.store_at(st, to.a[0], to.a[1], seq_add(v, x))
                    return UNIT
            return None
        if ev.name in ('extend', 'extend_from_slice', 'append') and ev.path.split('::')[-2] in ('Vec', 'Extend', 'String'):
            v = natives.chase(self.ip, st, ev.args[1])
            if natives.is_iter(v):
                v = natives.chase(self.ip, st, v.a[4][0])
            if v.op == 'seq' or v is SEQ0:
                a = natives.lastaddr(self.ip, st, ev.args[0])
                cur = self.ip.load(st, *a.a)
                from ..interp import seq_add
                for x in sorted(v.a[1], key=lambda t: t.id) if v.op == 'seq' else ():
                    cur = seq_add(cur, x)
                self.ip.store_at(st, a.a[0], a.a[1], cur)
                return UNIT
        if ev.name in ('insert', 'truncate', 'pop', 'clear', 'remove', 'retain', 'reverse', 'swap', 'sort', 'dedup', 'drain', 'split_off') and \
                ev.path.split('::')[-2] in ('Vec', 'String', '[T]', 'slice'):
            self.bad('class', 'reorder:' + ev.name, 'the content of a token is changed after it was read (%s)' % ev.name)
        if ev.name in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'make_ascii_lowercase', 'trim', 'trim_end', 'trim_start', 'replace',
                       'trim_matches', 'trim_start_matches', 'trim_end_matches'):
            self.bad('class', 'altered:' + ev.name, 'the content of a token is altered (%s)' % ev.name)
        if ev.name in ('from_utf8', 'from_utf8_unchecked', 'from_utf8_lossy'):
            x = natives.chase(self.ip, st, ev.args[0])
            m = st.mon
            # whole characters: the run ends at a character boundary
            if not m.ascii:
                nxt = self.ip.remaining(st, m.cur) if isinstance(m.cur, T) else frozenset() if m.cur == 'eof' else ALL
                if nxt & CONT:
                    self.bad('panic', 'utf8:' + m.q, 'the content of a token is cut within a character (%s)' % m.q)
            if m.pend:
                self.lost(st, m)
                self.bad('panic', 'utf8:' + m.q, 'bytes of a character are dropped from the content of a token (%s)' % m.q)
            t = mk('utf8', x)
            return ok(t) if ev.name == 'from_utf8' else t
        if ev.name in ('gt', 'lt', 'ge', 'le', 'cmp', 'partial_cmp') and len(ev.args) == 2 and ev.name not in ('cmp', 'partial_cmp'):
            x, y = (natives.chase(self.ip, st, a) for a in ev.args)
            if x.op == 'pos' and y.op == 'pos':
                return self.posorder(ev.name, x, y)
        return None

    def posorder(self, name, x, y):
        if x is y:
            return None if x.a[0] == 'past' else TRUE if name in ('le', 'ge') else FALSE
        # a token starts with the first byte of a character: the position has moved on since
        a, b = (('past', 'start', 'cur').index(z.a[0]) for z in (x, y))
        return TRUE if (a < b) == (name in ('lt', 'le')) else FALSE

    def pushed(self, st, raw, to):
        m = st.mon
        if m.q in COMMENT:
            return True          # comments have no content
        b = dombase(raw)

        def same(y):
            return b is y or raw.op == 'const' and self.ip.remaining(st, y) == {raw.a[0]}
        tag = ('const', raw.a[0]) if raw.op == 'const' else m.q
        if m.pend:
            if same(m.pend[0][0]):
                st.mon = m.set(pend=(), emitted=m.emitted | {tag if raw.op == 'const' else m.pend[0][1]}, to=m.to | {to})
                return True
        elif isinstance(m.cur, T) and same(m.cur) and not m.early:
            st.mon = m.set(early=(tag,), to=m.to | {to})
            return True
        elif b is not None and (b.a[0] if b.op == 'old' else b).a[0] in m.emitted and to not in m.to:
            return True         # a copy
        self.extra(st, m, raw)
        return False

    # -------------------------------------------------------------- progress
    def on_head(self, st):
        st.mon = st.mon.set(armed=st.mon.armed | {(st.frame.body['id'], st.bb)})

    def on_backedge(self, st, body, head):
        if (body['id'], head) in st.mon.armed:
            self.bad('progress', 'loop:' + norm(body['path']), 'a loop of %s may go on without consuming anything' % where(body))

    def keep_terms(self, st):
        m = st.mon
        return [t for t in st.facts if t.op == 'utf8'] + [t for t in (m.cur,) if isinstance(t, T)] + [p[0] for p in m.pend]

    def rename_mon(self, m, f):
        return m.set(cur=f(m.cur) if isinstance(m.cur, T) else m.cur, pend=tuple((f(p[0]), p[1]) for p in m.pend))

    # --------------------------------------------------------------- results
    def on_ret(self, st, v):
        m = st.mon
        ip = self.ip
        if not m.ascii and m.cur != 'eof' and (m.cur is None or ip.remaining(st, m.cur) & CONT):
            self.bad('class', 'boundary:' + m.q, 'the lexer stops within a character (%s)' % m.q)
        for s, vn in ip.fork_variant(st, v, 'core::option::Option'):
            if vn == 'None':
                self.count('end')
                if not (m.q in ('start', 'line') and m.cur == 'eof'):
                    self.bad('class', 'none:' + m.q, 'the input ends for the parser within %s%s' % (m.q, '' if m.cur == 'eof' else ' although there are bytes left'))
                continue
            self.token(s, fld(v, '0', 'Some'))

    def token(self, st, tok):
        ip, m = self.ip, st.mon
        q = m.q
        kind = fld(tok, 'kind')
        if kind.op != 'agg':
            self.bad('class', 'kind', 'unknown kind of token in %s: %s' % (q, show(kind)[:200]))
            return
        name = kind.a[2]
        cut = m.cur == 'eof' and q in CUT
        # the expected kind
        want = None
        if q.startswith('done:'):
            want = q[5:]
        elif q in ENDS:
            want = ENDS[q]
            go = frozenset().union(*[c for c, _, _ in D[q]])
            left = frozenset() if m.cur == 'eof' else ip.remaining(st, m.cur) if m.cur is not None else ALL
            if left & go:
                self.bad('class', 'short:' + q, 'a token ends before its last byte (%s, followed by %s)' % (q, chars(left & go)))
        elif q == 'amp' and m.cur is not None:
            want = 'Ref' if m.cur != 'eof' else 'Unknown'
            if m.cur != 'eof' and name == 'Ref' and ip.remaining(st, m.cur) & (ALPHA | frozenset(b'_{')):
                self.bad('class', 'short:amp', 'the name of a reference is not read')
        elif cut:
            want = 'Unknown'
            if q == 'dir' and name == 'Directive':
                want = 'Directive'
        if q == 'start':
            self.bad('progress', 'empty', 'a token (%s) is produced without consuming anything' % name)
        if want is None:
            self.bad('class', 'early:' + q, 'a token (%s) is produced within %s%s' % (name, q, ' at the end of the file' if m.cur == 'eof' else ''))
            return
        real = {'Path': 'Ref'}.get(want, want)
        self.kinds.setdefault((q, name), 0)
        self.kinds[(q, name)] += 1
        self.count('token')
        if name != real:
            self.bad('class', 'kind:%s:%s' % (q, name), 'a token that is a %s by its text becomes a %s (first byte %s)' % (want, name, chars(m.first or ())))
            return
        # content
        if name in ('Ident', 'Label', 'String', 'UnparsedNumber'):
            self.content(st, q, kind.a[4][0])
        elif name == 'Ref':
            r = kind.a[4][0]
            sub = r.a[2] if r.op == 'agg' else '?'
            if sub != ('Path' if want == 'Path' else 'Simple'):
                self.bad('class', 'ref:' + q, 'a reference by %s becomes a reference by %s' % ('path' if want == 'Path' else 'label', sub))
            elif q == 'amp':
                t = ip.val(st, r.a[4][0])
                t = self.text(t)
                if not (t.op == 'str' and t.a[0] == '' or t is SEQ0):
                    self.bad('class', 'ref:empty', 'a reference without name is not empty: ' + show(t)[:80])
            else:
                self.content(st, q, r.a[4][0])
        elif name == 'Unknown':
            x = ip.val(st, kind.a[4][0])
            f = frozenset([CUT[q]]) if cut and q in CUT else m.first
            b = dombase(kind.a[4][0])
            vals = frozenset([x.a[0]]) if x.op == 'const' else ip.remaining(st, b) if b is not None else ALL
            if not (vals <= (f or frozenset())):
                self.bad('class', 'unknown:' + q, 'an unknown token does not have its first byte: %s' % show(x)[:80])
        elif name == 'Directive':
            self.directive(st, kind.a[4][0])
        # span
        span = fld(tok, 'span')
        a, b = self.pos(fld(span, 'start')), self.pos(fld(span, 'end'))
        self.ctx.obligations += 1
        if a is not mk('pos', 'start'):
            self.bad('span', 'start:' + q, 'the span of a token (%s) does not start at its first character: %s' % (name, show(a)[:80]))
        if b is not mk('pos', 'cur'):
            self.bad('span', 'end:' + q, 'the span of a token (%s) does not end after its last character: %s' % (name, show(b)[:80]))
        src = fld(tok, 'source')
        if natives.chase(ip, st, src) is not natives.chase(ip, st, fld(self.me, 'source')):
            self.bad('span', 'source', 'a token has another file than the lexer: ' + show(src)[:80])
        # the state for the next token
        fname, names, other = self.names
        vn = state_val(ip, st, ip.load(st, self.root, ((fname, ''),)))
        exp = names if self.expecting else other
        if name in ('Semicolon', 'OpenBrace'):
            exp = names
        elif name == 'Equal':
            exp = other
        if vn != exp:
            self.bad('class', 'state:' + name, 'after a %s names are read in the wrong way (%s instead of %s)' % (name, vn, exp))

    def content(self, st, q, t, aspect=None):
        aspect = aspect or ('string' if q == 'done:String' else 'class')
        m = st.mon
        self.ctx.obligations += 1
        if m.pend:
            self.lost(st, m)
        if m.early:
            self.extra(st, m, m.cur)
        t = self.text(t)
        tags = set()
        if t.op == 'seq' and t.a[0] is None:
            for x in t.a[1]:
                b = dombase(x)
                if b is not None:
                    tags.add((b.a[0] if b.op == 'old' else b).a[0])
                elif x.op == 'const':
                    tags.add(('const', x.a[0]))
                else:
                    tags.add(show(x)[:60])
        elif not (t.op == 'str' and t.a[0] == '' or t is SEQ0):
            self.bad(aspect, 'content:' + q, 'the content of a token is not its text: ' + show(t)[:200])
            return
        if m.emitted - tags:
            self.bad(aspect, 'part:%s' % q, 'a part of the text is missing in the content of a token (%s)' % ', '.join(sorted(map(str, m.emitted - tags))))
        if tags - m.emitted:
            self.bad(aspect, 'part:%s' % q, 'the content of a token has bytes of something else (%s)' % ', '.join(sorted(map(str, tags - m.emitted))))

    def pos(self, t):
        """a position put together again from its parts"""
        if t.op == 'agg' and len(t.a[4]) == 2 and all(x.op == 'fld' for x in t.a[4]) and t.a[4][0].a[0] is t.a[4][1].a[0] and \
                fld(t, 'line') is fld(t.a[4][0].a[0], 'line') and fld(t, 'character') is fld(t.a[4][0].a[0], 'character'):
            return t.a[4][0].a[0]
        return t

    def text(self, t):
        while t.op in ('utf8', 'concat'):
            t = t.a[0]
        return t

    def directive(self, st, d):
        if d.op != 'agg':
            self.bad('directive', 'unknown', 'unknown directive: ' + show(d)[:150])
            return
        self.keyword(st, d.a[2], True)
        if d.a[2] == 'Other':
            self.content(st, 'dir', d.a[4][0], 'directive')

    def on_agg(self, st, d):
        if d.a[0] != 'adt' or not d.a[1].endswith('CompilerDirective'):
            return
        self.count('dir:' + d.a[2])
        self.keyword(st, d.a[2], False)

    def keyword(self, st, name, last):
        if last and st.mon.dj == name:
            return
        # what is known about the text
        txt = None
        for t, f in st.facts.items():
            if t.op == 'utf8':
                if f[0] == '=' and isinstance(f[1], str):
                    txt = f[1]
                elif f[0] == '!':
                    txt = txt or frozenset(f[1])
        if txt is None and not last:
            return
        st.mon = st.mon.set(dj=name)
        self.ctx.obligations += 1
        if isinstance(txt, str):
            exp = DIRECTIVES.get(txt)
            if exp is None and name != 'Other' or exp is not None and name != exp:
                self.bad('directive', 'word:' + txt, 'the directive /%s/ is taken for %s' % (txt, name))
        elif name != 'Other':
            self.bad('directive', 'any:' + name, 'the directive %s is produced for a text other than its keyword' % name)
        else:
            miss = [k for k in DIRECTIVES if not (isinstance(txt, frozenset) and k in txt)]
            if miss:
                self.bad('directive', 'missed', 'a known directive is not recognised: ' + ', '.join(miss))

    def on_assert(self, st, t, c):
        super().on_assert(st, t, c)
        if self.ip.truth(st, c) is None and not (contains_op(c, 'ovf') and 'Add' in show(c)):
            self.bad('panic', 'assert:%s' % norm(st.frame.body['path']), 'the lexer may panic in %s: %s' % (where(st.frame.body), t['m']))

    def on_diverge(self, st, p, args, bb):
        super().on_diverge(st, p, args, bb)
        self.bad('panic', 'panic:%s:%s' % (norm(st.frame.body['path']), st.mon.q),
                 'the lexer panics in %s (%s) within %s' % (where(st.frame.body, bb['sp'][0] if bb else None), p.split('::')[-1][:60], st.mon.q))


def contains_op(t, op):
    return any(x.op == op for x in subs(t)) or t.op == op


def chars(s):
    s = sorted(s)
    if len(s) > 12:
        return '%d bytes, for example %r' % (len(s), bytes(s[:6]))
    return repr(bytes(s))


_memo = {}


def lexer(ctx):
    """{aspect: {key: msg}}, counts"""
    F = ctx.F
    if id(F) in _memo:
        for b in _memo[id(F)][2]:
            ctx.saw(b)
        return _memo[id(F)][:2]
    found, counts = {}, {}

    def rep(aspect, key, msg):
        found.setdefault(aspect, {}).setdefault(key, msg)
    root = None
    for i in F.impls:
        if i['trait'].split('<')[0].endswith('iterator::Iterator') and head(i['self']).endswith('lexer::Lexer'):
            root = F.bodies.get(i['methods'].get('next'))
    from ..run import Ctx
    c2 = Ctx(F, 'lex')
    mode = lexer_mode(F)
    if root is None or mode is None:
        rep('class', 'anchor', 'Iterator::next of the lexer or its state is gone')
        rep('span', 'anchor', 'Iterator::next of the lexer or its state is gone')
    else:
        for exp in (True, False):
            r = Lex(c2, exp, rep)
            ip = Interp(F, r)
            r.ip = ip
            r.judge = partial.judge_of(F)
            args = ip.root_args(root)
            st = ip.start(root, args, None, Mon(('start', None, (), (), frozenset(), True, None, frozenset(), frozenset(), '')))
            a = args[0]
            r.root = a.a[0]
            r.me = ip.load(st, a.a[0], ())
            fname, names, other = r.names = mode
            t = fld(r.me, fname)
            if isinstance(names, str):
                ip.set_fact(st, mk('variant', t), True, names if exp else other)
            else:
                ip.set_fact(st, t, True, names if exp else other)
            ip.run(st)
            r.judge.bodies |= {root['id']} | set(ip.inlined)
            c2.saw(root)
            c2.saw(*[F.bodies[i] for i in ip.inlined if not i.startswith('gkmodels')])
            for k, n in r.n.items():
                counts[k] = counts.get(k, 0) + n
            for k in r.kinds:
                counts[('kind',) + k + (exp,)] = 1
            counts['steps'] = counts.get('steps', 0) + ip.steps
    counts['obligations'] = c2.obligations
    _memo.clear()
    _memo[id(F)] = (found, counts, sorted(c2.analysed))
    for b in c2.analysed:
        ctx.saw(b)
    return found, counts


KINDS = {'class': 55, 'span': 55}


def use(ctx, aspect, floor=1000):
    f, n = lexer(ctx)
    ctx.obligations += n.get('obligations', 0)
    for k, msg in sorted(f.get(aspect, {}).items()):
        ctx.violate('%s:%s' % (aspect, k), msg)
    ctx.floor('tokens', n.get('token', 0), 300)
    ctx.floor('kinds', sum(1 for k in n if isinstance(k, tuple)), 50)
    ctx.notes.append('tokens on %d abstract traces (%d steps), %d ends of input' % (n.get('token', 0), n.get('steps', 0), n.get('end', 0)))
    return f, n


def state_val(ip, st, v):
    v = natives.chase(ip, st, v)
    if v.op == 'agg':
        return v.a[2]
    x = ip.val(st, v)
    return x.a[0] if x.op == 'const' else st.variant(v)


def lexer_mode(F):
    """(field, value when names are read, other value): the part of the lexer that says how names are read is its only
    field of two values"""
    a = next((a for n, a in F.adts.items() if head(n).endswith('lexer::Lexer')), None)
    out = []
    for f in a['variants'][0]['fields'] if a else ():
        e = F.adts.get(head(f['ty']))
        if f['ty'] == 'bool':
            out.append((f['name'], 1, 0))
        elif e and e['kind'] == 'enum' and len(e['variants']) == 2 and not any(v['fields'] for v in e['variants']):
            vs = [v['name'] for v in e['variants']]
            n = [v for v in vs if 'name' in v.lower() or 'expect' in v.lower()]
            if len(n) == 1:
                out.append((f['name'], n[0], [v for v in vs if v != n[0]][0]))
    return out[0] if len(out) == 1 else None


def lexer_state(ctx):
    """a new lexer expects a name and starts where the reader starts"""
    F = ctx.F
    b = next((b for b in bodies_of(F, 'new') if norm(b['path']).endswith('lexer::Lexer::new')), None)
    mode = lexer_mode(F)
    if not ctx.anchor(b is not None and mode, 'Lexer::new'):
        return
    r = R(ctx)
    run(F, r, b, [mk('arg', 'reader'), mk('arg', 'source')])
    for st, v in r.rets:
        s = state_val(r.ip, st, fld(v, mode[0]))
        ctx.oblige(s == mode[1], 'new-state', 'a new lexer does not expect a name')
        ctx.oblige(fld(v, 'source') is mk('arg', 'source') and fld(v, 'reader') is mk('arg', 'reader'), 'new-source', 'a new lexer has another file or reader')


def pseudo(ctx):
    """a semicolon that the parser puts in the place of another token changes the lexer as a semicolon that is read"""
    F = ctx.F
    mode = lexer_mode(F)
    bs = [b for b in bodies_of(F, 'insert_pseudo_kind') if norm(b['path']).endswith('lexer::PeekingLexer::insert_pseudo_kind')]
    if not ctx.anchor(mode and len(bs) == 1, 'PeekingLexer::insert_pseudo_kind'):
        return
    me = mk('arg', 'lexer')

    class Self(R):
        def on_ret(self, st, v):
            self.rets.append((st, self.ip.load(st, ('O', me), ())))
    for kind, want in (('Semicolon', mode[1]),):
        for before in mode[1:]:
            r = Self(ctx)
            k = mk('arg', 'kind')
            inner = fld(fld(me, 'lexer'), mode[0])
            facts = {mk('variant', k): ('=', kind), (mk('variant', inner) if isinstance(before, str) else inner): ('=', before)}
            run(F, r, bs[0], [me, k], facts=facts)
            got = {state_val(r.ip, st, fld(fld(after, 'lexer'), mode[0])) for st, after in r.rets}
            ctx.oblige(got == {want}, 'pseudo:%s:%s' % (kind, before), 'after a supplied %s names are read in the wrong way: %s' % (
                kind, '/'.join(map(str, got))))


@check('C28')
def c28(ctx):
    use(ctx, 'class')
    lexer_state(ctx)


@check('C29')
def c29(ctx):
    use(ctx, 'string')


@check('C25')
def c25(ctx):
    f, n = use(ctx, 'directive')
    for k in list(DIRECTIVES.values()) + ['Other']:
        ctx.floor('directive ' + k, n.get('dir:' + k, 0), 2)


@check('C26')
def c26(ctx):
    use(ctx, 'span')
