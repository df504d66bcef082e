"""The leaves of the grammar: numbers and byte strings (C24), the rules for names (C23), references and paths (C22/C30),
and the look-ahead of the parser."""
import os
from .parse import *
from ..interp import sums
from ..interp import arith

LETTER = frozenset(range(65, 91)) | frozenset(range(97, 123))
DIGIT = frozenset(range(48, 58))
HEX = DIGIT | frozenset(range(97, 103)) | frozenset(range(65, 71))
DEC, UND = DIGIT, frozenset([95])
NODE = LETTER | DIGIT | frozenset(map(ord, ',._+-'))
PROP = NODE | frozenset(map(ord, '?#'))
ALL = frozenset(range(129))

# the text of a number is one of: a single digit, 0x.., 0 and another digit, a digit other than 0 and more
CLS = {'one': (('', 10), ), 'hex': ((2, 16),), 'oct': ((1, 8), (0, 8)), 'dec': ((0, 10),)}
CLS['one'] = ((0, 10), (0, 16))
PREF = {'one': 'd', 'hex': '0x', 'oct': '0d', 'dec': 'Dd'}
SHOW = {'one': 'a single digit', 'hex': '0x…', 'oct': '0…', 'dec': 'a decimal number'}


def begins(cls, pat):
    """does a text of the class start with pat? True / False / None"""
    p = PREF[cls]
    if cls == 'one' and len(pat) > 1:
        return False
    for i, c in enumerate(pat):
        if i >= len(p):
            return False if cls == 'one' else None
        if p[i] == 'd' and not c.isdigit() or p[i] == 'D' and not (c.isdigit() and c != '0') or p[i] not in 'dD' and p[i] != c:
            return False
        if p[i] in 'dD':
            return None
    return True


def is_content(t, *kinds):
    """the content of a token of one of the kinds"""
    return t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[1] == 'kind' and any(t is fld(t.a[0], '0', k) for k in kinds)


class Number(Parse):
    """mon.items: class of the text; mon.node: the conversion failed"""
    width = None

    def advance(self, st, t):
        h = st.mon.hist
        super().advance(st, t)
        st.mon = st.mon.set(hist=(h + (('t', '?', t),))[:2])

    def suffix(self, st, x):
        """(text, offset)"""
        x = self.ip.val(st, natives.chase(self.ip, st, x)) if isinstance(x, T) else None
        if x is None:
            return None
        if x.op == 'sfx':
            return x.a
        if is_content(x, 'UnparsedNumber'):
            return x, 0
        return None

    def on_call(self, st, ev):
        r = super().on_call(st, ev)
        if r is not None:
            return r
        if not ev.args or ev.body is not None:
            return None
        s = self.suffix(st, ev.args[0])
        if s is None:
            return None
        text, off = s
        out = []
        if ev.name not in ('len', 'is_empty', 'starts_with', 'as_bytes', 'strip_prefix', 'index', 'get', 'parse', 'from_str_radix', 'from_str') and not ev.name.startswith('trim') or \
                any(self.textop(st.copy(), ev, text, off, c) is None for c in ([st.mon.items] if st.mon.items and st.mon.items[0] != 'paren' else CLS)):
            return None
        if st.mon.items and st.mon.items[0] == 'paren':
            st.mon = st.mon.set(items=())
        for cls in ([st.mon.items] if st.mon.items else sorted(CLS)):
            s2 = st.copy()
            s2.mon = st.mon.set(items=cls)
            if not st.mon.items:
                n = mk('len', text)
                s2.facts[mk('isempty', text)] = ('=', 0)
                if cls == 'one':
                    s2.facts[n] = ('=', 1)
                else:
                    s2.facts[n] = ('!', frozenset([0, 1]))
                s2.facts[mk('lt', const(1), n)] = ('=', int(cls != 'one'))
                s2.facts[mk('lt', n, const(2))] = ('=', int(cls == 'one'))
                s2.facts[mk('lt', const(0), n)] = ('=', 1)
                s2.facts[mk('lt', n, const(1))] = ('=', 0)
            out += self.textop(s2, ev, text, off, cls)
        return out

    def textop(self, st, ev, text, off, cls):
        ip, n = self.ip, ev.name
        arg = lambda i: ip.val(st, natives.chase(ip, st, ev.args[i]))
        if n == 'len':
            return [(st, (const(1 - off) if cls == 'one' else mk('len', text)) if off == 0 or cls == 'one' else mk('len', mk('sfx', text, off)))]
        if n == 'is_empty' and off == 0:
            return [(st, FALSE)]
        if n == 'as_bytes' and off == 0:
            for i, c in enumerate(PREF[cls]):
                e = mk('elem', text, const(i))
                if c == 'D':
                    st.facts[e] = ('!', frozenset([48, 120]))
                elif c == 'd':
                    st.facts[e] = ('!', frozenset([120]))
                else:
                    st.facts[e] = ('=', ord(c))
            return [(st, text)]
        if n in ('starts_with', 'strip_prefix', 'trim_start_matches', 'trim_left_matches') and off == 0:
            p = arg(1)
            p = p.a[0] if p.op == 'str' else chr(p.a[0]) if p.op == 'const' else None
            b = begins(cls, p) if p is not None else None
            if n == 'starts_with':
                return [(st, {True: TRUE, False: FALSE, None: mk('call', 'starts_with', (text, strc(str(p))), None)}[b])]
            if n == 'strip_prefix' and p is not None:
                yes, no = (st, some(mk('sfx', text, len(p)))), (st.copy(), NONE)
                return [yes, no] if b is None else [yes] if b else [no]
            if n.startswith('trim') and b is not None:
                return [(st, mk('sfx', text, -len(p)) if b else text)]       # any number of them
        if n in ('index', 'get'):
            r = arg(1)
            if r.op == 'agg' and r.a[1].endswith('RangeFrom') and r.a[4][0].op == 'const':
                k = off + r.a[4][0].a[0]
                if cls == 'one' and k > 1 or k > 2 or k < 0:
                    self.bad('panic', 'slice', 'a number is cut after %d characters' % k)
                x = mk('sfx', text, k) if k else text
                return [(st, x if n == 'index' else some(x))]
        if n in ('parse', 'from_str_radix', 'from_str'):
            radix = 10
            if n == 'from_str_radix':
                r = arg(1)
                radix = r.a[0] if r.op == 'const' else -1
                ty = norm(ev.path).split('::')[-2]
            else:
                ty = ip.subst_ty(st.frame, ev.targs[-1]) if ev.targs else ''
            self.count('convert')
            s2 = st.copy()
            s2.mon = st.mon.set(node=True)
            return [(st, ok(mk('num', text, off, radix, strc(ty)))), (s2, err(mk('numerr', text, off, radix, strc(ty))))]
        return None

    def number(self, st, w, tok):
        """WithToken { value of the text, token }"""
        m = st.mon
        val, t = natives.chase(self.ip, st, fld(w, 'item')), natives.chase(self.ip, st, fld(w, 'token'))
        self.ctx.obligations += 2
        self.count('number:' + str(m.items))
        if t is not tok:
            self.bad('number', 'token', 'the token of a number is another one')
        ints = [s for c, s in m.codes if c == 'IntError']
        if m.node:
            if not ints:
                self.bad('number', 'silent', 'a number that cannot be represented is not reported')
            elif fld(tok, 'span') not in ints:
                self.bad('number', 'span', 'a number that cannot be represented is reported at ' + show(ints[0])[:80])
            if val.op != 'const':
                self.bad('number', 'failed', 'a number that cannot be represented has the value ' + show(val)[:80])
            return
        if ints:
            self.bad('number', 'wrong', 'a number is reported that can be represented')
        if val.op != 'num':
            self.bad('number', 'value', 'the value of a number is ' + show(val)[:120])
            return
        self.converted(st, val, fld(fld(tok, 'kind'), '0', 'UnparsedNumber'))

    def converted(self, st, val, text):
        cls = st.mon.items
        t, off, radix, ty = val.a
        if t is not text:
            self.bad('number', 'text', 'a number is the value of another text')
        if (off, radix) not in CLS[cls]:
            self.bad('number', cls, 'the value of %s is its text from character %d to the base %d' % (SHOW[cls], off, radix))
        if ty.a[0] != self.width:
            self.bad('number', 'width', 'a number is read as %s, not %s' % (ty.a[0], self.width))

    def failed(self, st, d):
        if st.mon.items and d.op == 'agg':
            self.bad('number', 'fatal', 'a number that cannot be represented ends the parser')


class CellUnit(Number):
    """mon.items of an expression: ('paren', open parentheses, token that was read last)"""
    width = 'u32'
    NEST = 6 if os.environ.get('VERIF_TIER') == 'thorough' else 3

    def advance(self, st, t):
        self.parens(st)
        super().advance(st, t)
        m = st.mon
        if len(m.hist) == 1:
            st.mon = m.set(items=('paren', 0, t))
        elif m.items and m.items[0] == 'paren':
            st.mon = m.set(items=('paren', m.items[1], t))

    def parens(self, st):
        """the depth after the token that was read last"""
        m = st.mon
        if not (m.items and m.items[0] == 'paren' and m.items[2] is not None):
            return
        k = fld(m.items[2], 'kind')
        o, c = st.maybe(k, 'OpenParen'), st.maybe(k, 'CloseParen')
        v = st.variant(k)
        g = m.items[1]
        if len(m.hist) == 1 and v != 'OpenParen':
            st.mon = m.set(items=())
            return
        if v is None and (o or c):
            self.tree('expression:paren', 'a parenthesis in an expression is not counted')
        st.mon = m.set(items=('paren', g + (v == 'OpenParen') - (v == 'CloseParen'), None))

    def on_head(self, st):
        self.parens(st)
        super().on_head(st)

    def rename_mon(self, m, f):
        p = m.items and m.items[0] == 'paren' and m.items[2] is not None
        m2 = super().rename_mon(m, f)
        return m2.set(items=('paren', m.items[1], f(m.items[2]))) if p else m2

    def keep_terms(self, st):
        x = st.mon.items
        return super().keep_terms(st) + ([x[2]] if x and x[0] == 'paren' and x[2] is not None else [])

    def on_call(self, st, ev):
        if ev.name in ('peek', 'next'):
            self.parens(st)
            x = st.mon.items
            if x and x[0] == 'paren' and x[1] > self.NEST:
                return []       # expressions are nested up to this depth
            if x and x[0] == 'paren' and x[1] <= 0 and ev.name == 'next' and (ev.body is None or 'PeekingLexer' in ev.body['path']):
                self.tree('expression:end', 'an expression goes on after its last parenthesis')
                return []
        return super().on_call(st, ev)

    def result(self, st, x):
        syms, ts = self.hist(st)
        var = st.variant(x)
        self.count('cell:' + str(var))
        if x.op != 'agg':
            self.tree('kind', 'a cell is ' + show(x)[:100])
        elif var == 'Reference':
            if syms != ['Ref'] or natives.chase(self.ip, st, x.a[4][0]) is not mk('refn', ts[0]):
                self.tree('lost:Reference', 'a reference is built from %s' % ' '.join(syms))
        elif var == 'Expression':
            self.parens(st)
            it = st.mon.items
            if syms[:1] == ['OpenParen'] and not (it and it[0] == 'paren' and it[1] == 0) and st.mon.cur != 'eof':
                self.tree('expression:early', 'an expression ends before its last parenthesis')
            if syms[:1] != ['OpenParen']:
                self.tree('lost:Expression', 'an expression is built from %s' % ' '.join(syms))
        elif var == 'Number':
            if syms != ['UnparsedNumber']:
                self.tree('lost:Number', 'a number is built from %s' % ' '.join(syms))
            else:
                self.number(st, natives.chase(self.ip, st, x.a[4][0]), ts[0])


class MemUnit(Number):
    width = 'u64'

    def result(self, st, x):
        syms, ts = self.hist(st)
        if syms != ['UnparsedNumber'] or x.op != 'agg':
            self.tree('lost:Number', 'an address is built from %s' % ' '.join(syms))
        else:
            self.number(st, x, ts[0])


class Chars(Parse):
    """Units that look at the characters of a text.  mon.items: ((text, all items so far are in, parity), ...)"""
    FIRST = False

    def is_text(self, t):
        return False

    def text_of(self, st, x):
        x = self.ip.val(st, natives.chase(self.ip, st, x))
        if self.is_text(x):
            return x
        return None

    def info(self, st, t):
        for x in st.mon.items:
            if x[0] is t:
                return x
        return (t, frozenset(), 0, None)

    def put(self, st, t, acc, par, univ):
        st.mon = st.mon.set(items=tuple(sorted([x for x in st.mon.items if x[0] is not t] + [(t, acc, par, univ)], key=lambda x: x[0].id)))

    def seen(self, st):
        """the items since the last step: what is known of them"""
        for t, acc, par, univ in st.mon.items:
            for e in self.live(st, t):
                acc |= self.ip.remaining(st, e)
            self.put(st, t, acc, par, univ)

    def live(self, st, t):
        out = []
        for op in ('byte', 'chr'):
            for par in (0, 1):
                e = mk(op, t, par)
                if e in st.facts or any(e in subs(v) for v in st.store.values()):
                    out.append(e)
        return out

    def on_head(self, st):
        self.seen(st)
        super().on_head(st)

    def rename_mon(self, m, f):
        m2 = super().rename_mon(m.set(items=()), f)
        return m2.set(items=tuple((f(t), acc, par, univ) for t, acc, par, univ in m.items if f(t).op != 'old'))

    def step(self, st, ev, t, kind):
        """the next character of a text"""
        ip = self.ip
        t, acc, par, univ = self.info(st, t)
        # the former instance of this item
        for op in ('byte', 'chr'):
            e = mk(op, t, par)
            if e in self.live(st, t):
                acc = acc | ip.remaining(st, e)
        self.put(st, t, acc, par, univ)
        op = 'byte' if kind == 'bytes' else 'chr'
        end = st.copy()
        new = acc
        for e in self.live(st, t):
            new = new | ip.remaining(st, e)
        self.put(end, t, frozenset(), 0, new if univ is None else new & univ)
        end.mon = end.mon.set(armed=frozenset())
        st.mon = st.mon.set(armed=frozenset())
        e = ip.fresh(st, mk(op, t, par))
        t, acc, par, univ = self.info(st, t)
        if univ is not None and not ip.restrict(st, e, univ):
            return [(end, NONE)]
        self.put(st, t, acc, 1 - par, univ)
        self.count('char')
        x = e if kind != 'char_indices' else tup(mk('idxof', e), e)
        return [(end, NONE), (st, some(x))]

    def on_call(self, st, ev):
        r = super().on_call(st, ev)
        if r is not None:
            return r
        ip = self.ip
        if not ev.args:
            return None
        if ev.name == 'next' and ev.body is None:
            v = natives.chase(ip, st, natives.lastaddr(ip, st, ev.args[0]))
            if natives.is_iter(v) and v.a[0] == 'iter':
                t = self.text_of(st, v.a[4][0])
                c = ip.val(st, v.a[4][0])
                kind = v.a[1]
                if t is None and c.op == 'bytes':
                    t = self.text_of(st, c.a[0]) if isinstance(c.a[0], T) else None
                    kind = 'bytes'
                if t is None and c.op in ('call', 'asbytes') and 'bytes' in str(c.a[0]):
                    for y in subs(c):
                        if self.is_text(y):
                            t, kind = y, 'bytes'
                if t is not None:
                    first = v.a[4][1] is const(0)
                    if first and kind == 'chars' and self.FIRST and ip.once(st):
                        e = mk('firstchar', t)
                        return natives.opt_of(ip, st, mk('isempty', t), e)
                    a = natives.lastaddr(ip, st, ev.args[0])
                    if a.op == 'addr':
                        ip.store_at(st, a.a[0], a.a[1] + (('k', ''),), const(1))
                    out = self.step(st, ev, t, kind)
                    if first:
                        e = mk('isempty', t)
                        out = [(s, x) for s, x in out if ip.set_fact(s, e, True, 1 if x is NONE else 0)]
                    return out
        if ev.name == 'nth' and ev.path.startswith('core::iter'):
            i = ip.val(st, natives.chase(ip, st, ev.args[1]))
            v = natives.chase(ip, st, ev.args[0])
            if i.op == 'idxof' and natives.is_iter(v) and v.a[0] == 'iter' and v.a[1] == 'chars' and self.text_of(st, v.a[4][0]) is i.a[0].a[0]:
                return some(i.a[0])
        if ev.name in ('skip', 'take', 'skip_while', 'take_while', 'step_by', 'filter', 'rev', 'filter_map', 'map_while', 'rposition', 'last', 'nth', 'dedup', 'zip', 'chain') \
                and ev.path.startswith('core::iter'):
            v = natives.chase(ip, st, ev.args[0])
            if natives.is_iter(v) and any(self.is_text(y) for y in subs(v)):
                self.bad('number' if self.unit == 'bytes' else 'alphabet', 'partial:' + ev.name, 'not all characters of a text are read (%s)' % ev.name)
        if ev.name == 'checked_add_signed':
            return some(mk('addsigned', *(natives.chase(ip, st, a) for a in ev.args)))
        return None


class BytesUnit(Chars):
    """mon.node: a pair could not be converted; mon.order is not used"""

    def is_text(self, t):
        return is_content(t, 'UnparsedNumber', 'Ident')

    def on_call(self, st, ev):
        r = super().on_call(st, ev)
        if r is not None:
            return r
        ip = self.ip
        if ev.body is None and ev.args:
            r = self.digits_by_two(st, ev)
            if r is not None:
                return r
        if ev.name == 'from_utf8' and ev.body is None:
            x = ip.val(st, natives.chase(ip, st, ev.args[0]))
            ps = self.pair(st, x)
            if ps and all(ip.remaining(st, p) <= frozenset(range(128)) for p in ps):
                return ok(mk('utf8', x))
        if ev.name == 'from_str_radix' and ev.body is None:
            x = ip.val(st, natives.chase(ip, st, ev.args[0]))
            r = ip.val(st, natives.chase(ip, st, ev.args[1]))
            ps = self.pair(st, x.a[0]) if x.op == 'utf8' else None
            self.ctx.obligations += 1
            if not ps:
                self.bad('number', 'pair', 'a byte is converted from ' + show(x)[:120])
                return None
            self.count('pair')
            if [p.a[1] if p.op != 'old' else None for p in ps] != [0, 1]:
                self.bad('number', 'digits', 'a byte is converted from the digits ' + ', '.join(show(p)[:60] for p in ps))
            if r is not const(16):
                self.bad('number', 'base', 'the digits of a byte are read to the base ' + show(r)[:20])
            if norm(ev.path).split('::')[-2] != 'u8':
                self.bad('number', 'width', 'a byte is read as ' + norm(ev.path).split('::')[-2])
            good = ok(mk('bytenum', *ps))
            if all(ip.remaining(st, p) <= HEX for p in ps):
                return good
            if ord('+') in ip.remaining(st, ps[0]):
                self.bad('number', 'plus', 'a sign is taken for a digit of a byte')
            s2 = st.copy()
            s2.mon = st.mon.set(node=True)
            return [(st, good), (s2, err(mk('numerr', *ps)))]
        return None

    def digits_by_two(self, st, ev):
        """the digits as slices of two: chunks(2), or indices in steps of two"""
        ip, n = self.ip, ev.name
        if n in ('chunks', 'chunks_exact', 'array_chunks') and ev.path.startswith('core::slice'):
            t = self.text_of(st, ev.args[0])
            if t is not None and natives.chase(ip, st, ev.args[1]) is const(2):
                return mk('pairs', t)
        v = natives.chase(ip, st, natives.lastaddr(ip, st, ev.args[0]))
        if n == 'next' and natives.is_iter(v) and v.a[0] == 'iter':
            v = natives.chase(ip, st, v.a[4][0])
        if n == 'step_by':
            c = v
            if natives.is_iter(v) and v.a[0] == 'iter' and v.a[1] == 'range':
                c = natives.chase(ip, st, v.a[4][0])
            if c.op == 'agg' and c.a[1].endswith('::Range') and c.a[4][0] is const(0) and c.a[4][1].op == 'len' and self.is_text(c.a[4][1].a[0]) and \
                    natives.chase(ip, st, ev.args[1]) is const(2):
                return mk('steps', c.a[4][1].a[0])
        if n == 'next' and v.op in ('pairs', 'steps'):
            t = v.a[0]
            out = []
            for s, o in self.step(st, ev, t, 'bytes'):
                if o is NONE:
                    out.append((s, o))
                    continue
                for s2, o2 in self.step(s, ev, t, 'bytes'):
                    if o2 is not NONE:
                        p = mk('agg', 'array', '', '', ('0', '1'), (o.a[4][0], o2.a[4][0]))
                        out.append((s2, some(p if v.op == 'pairs' else mk('stepidx', t))))
            return out
        if n in ('index', 'get') and self.is_text(v) and len(ev.args) > 1:
            r = natives.chase(ip, st, ev.args[1])
            if r.op == 'agg' and r.a[1].endswith('ops::range::Range') and r.a[4][0] is mk('stepidx', v) and r.a[4][1] is arith('Add', r.a[4][0], const(2)):
                p = mk('agg', 'array', '', '', ('0', '1'), (mk('byte', v, 0), mk('byte', v, 1)))
                x = mk('utf8', p)
                return x if n == 'index' else some(x)
        return None

    def pair(self, st, x):
        if not (x.op == 'agg' and x.a[0] == 'array' and len(x.a[4]) == 2):
            return None
        out = []
        for y in x.a[4]:
            y = self.ip.val(st, natives.chase(self.ip, st, y))
            while y.op == 'case':
                y = y.a[1]
            if not (y.op == 'byte' or y.op == 'old' and y.a[0].op == 'byte'):
                return None
            out.append(y)
        return out

    def store(self, st, ev, x):
        if x.op == 'bytenum':
            a = natives.lastaddr(self.ip, st, ev.args[0])
            if a.op == 'addr':
                v = self.ip.load(st, *a.a)
                if v is not SEQ0 and v is not LIST:
                    self.bad('number', 'list', 'a byte is added to another list')
                self.ip.store_at(st, a.a[0], a.a[1], LIST)
            return UNIT
        return None

    def result(self, st, x):
        ip, m = self.ip, st.mon
        syms, ts = self.hist(st)
        w = x
        v, t = natives.chase(ip, st, fld(w, 'item')), natives.chase(ip, st, fld(w, 'token'))
        self.ctx.obligations += 1
        if len(ts) != 1 or t is not ts[0]:
            self.tree('token', 'a byte string is built from %s' % ' '.join(map(str, syms)))
            return
        span = fld(t, 'span')
        codes = list(m.codes)
        for c, s in codes:
            if s is not span:
                self.bad('number', 'span', '%s of a byte string is reported at %s' % (c, show(s)[:80]))
        codes = [c for c, s in codes]
        if syms[0] not in ('UnparsedNumber', 'Ident'):
            self.count('bytes:other')
            if not codes:
                self.tree('other', 'a %s is silently taken for a byte string' % syms[0])
            return
        text = fld(fld(t, 'kind'), '0', syms[0])
        n = mk('len', text)
        odd = None
        for q, one in ((mk('bin', 'Rem', n, const(2)), 1), (mk('bin', 'BitAnd', n, const(1)), 1)):
            f = st.facts.get(q)
            if f:
                if f[0] == '=':
                    odd = f[1] == 1
                elif 0 in f[1]:
                    odd = True
                elif 1 in f[1]:
                    odd = False
        e = st.facts.get(mk('isempty', text))
        bad = False
        info = self.info(st, text)
        for par in (0, 1):
            b = mk('byte', text, par)
            c = mk('chr', text, par)
            for y in (b, c, mk('old', b), mk('old', c)):
                if y in st.facts and not ip.remaining(st, y) & HEX:
                    bad = True
        if odd:
            self.count('bytes:odd')
            if 'OddNumberOfBytestringElements' not in codes:
                self.bad('number', 'odd', 'an odd number of digits is not reported')
            return
        if 'OddNumberOfBytestringElements' in codes:
            self.bad('number', 'even', 'an even number of digits is reported as odd')
            return
        if bad or m.node:
            self.count('bytes:bad')
            if 'IntError' not in codes:
                self.bad('number', 'silent', 'something else than hexadecimal digits is not reported')
            return
        if codes:
            self.bad('number', 'wrong', '%s is reported for a byte string of digits' % codes[0])
            return
        self.count('bytes:good')
        if odd is None:
            self.bad('number', 'odd', 'an odd number of digits is not reported')
        if not (v is LIST or v is SEQ0):
            self.bad('number', 'value', 'the value of a byte string is ' + show(v)[:120])
        elif not (info[3] is not None and info[3] <= HEX or e == ('=', 1)):
            self.bad('number', 'nodigits', 'the digits of a byte string are not checked')

    def finish(self):
        if not self.n.get('pair'):
            self.bad('number', 'empty', 'a byte string of digits has no bytes')


class Names(Chars):
    """check_is_*: the rules for names.  The diagnostics on each trace have to be those for what the trace found out"""
    MAXLEN = 31
    FIRST = True

    def setup(self, st, args):
        self.span = args[1]
        arg = natives.chase(self.ip, st, args[2])
        self.arg = arg
        if self.unit == 'check_is_node_name':
            self.parts = [('name', fld(arg, 'name'), NODE, LETTER), ('unit address', fld(fld(arg, 'unit_address'), '0', 'Some'), NODE, ALL)]
        elif self.unit == 'check_is_label':
            self.parts = [('label', arg, LETTER | DIGIT | UND, LETTER | UND)]
        else:
            self.parts = [('property name', arg, PROP, ALL)]
        self.illegal = {}
        self.passed = {}        # (text, loop): what is known of the characters that the loop goes past
        self.done = {}          # text: the loops that were finished on some trace

    def seen(self, st):
        for t, acc, par, loops in st.mon.items:
            e = mk('chr', t, 0)
            if isinstance(acc, tuple) and e in self.live(st, t) and self.within(st.frame.fid, acc[0]):
                self.passed.setdefault((t, acc), set()).update(self.ip.remaining(st, e))

    def within(self, fid, site):
        while site is not None and site != fid:
            site = self.ip.fidinfo[site] and self.ip.fidinfo[site][0]
        return site == fid

    def step(self, st, ev, t, kind):
        ip = self.ip
        self.seen(st)
        t, acc, par, loops = self.info(st, t)
        site = (st.frame.fid, st.bb)
        end = st.copy()
        self.put(end, t, None, 0, frozenset(loops or ()) | {site})
        e = ip.fresh(st, mk('chr', t, 0))
        self.put(st, t, site, 0, loops)
        self.count('char')
        st.mon = st.mon.set(armed=frozenset())
        end.mon = end.mon.set(armed=frozenset())
        return [(end, NONE), (st, some(e if kind != 'char_indices' else tup(mk('idxof', e), e)))]

    def is_text(self, t):
        return any(t is p[1] for p in self.parts)

    def reported(self, st, x):
        m = st.mon
        code = x.a[4][x.a[3].index('kind')]
        span = x.a[4][x.a[3].index('span')]
        c = code.a[2] if code.op == 'agg' else '?'
        st.mon = m.set(codes=m.codes + ((c, span),), diag=True)
        self.count('diag')

    def on_ret(self, st, v):
        ip, m = self.ip, st.mon
        self.ctx.obligations += 1
        self.count('ret')
        codes = list(m.codes)
        todo = []
        for what, text, alpha, start in self.parts:
            if what == 'unit address':
                u = st.variant(fld(self.arg, 'unit_address'))
                if u == 'None':
                    continue
                if u is None:
                    self.bad('alphabet', 'unit', 'the unit address of a node is not checked')
                    continue
            if what == 'name' and st.facts.get(text) == ('=', '__symbols__') and st.variant(fld(self.arg, 'unit_address')) == 'None' and not codes:
                continue
            # what is known
            ill = None
            for e in self.live(st, text):
                d = ip.remaining(st, e)
                if not d & alpha:
                    ill = e
            hit = [s for c, s in codes if c == 'IllegalChar' and find(s, lambda y: y.op in ('chr', 'byte') and y.a[0] is text)]
            if hit:
                e = find(hit[0], lambda y: y.op in ('chr', 'byte') and y.a[0] is text)[0]
                d = ip.remaining(st, e)
                self.illegal.setdefault(what, set()).update(d)
                self.count('illegal:' + what)
                if d & alpha:
                    self.bad('alphabet', what + ':allowed', 'characters are reported that are allowed in a %s: %s' % (what, chars(d & alpha)))
                self.position(what, text, hit[0], e)
                codes.remove(('IllegalChar', hit[0]))
                continue
            if ill is not None:
                self.bad('alphabet', what + ':silent', 'a character that is not allowed in a %s is not reported' % what)
                continue
            loops = self.info(st, text)[3]
            empty = st.facts.get(mk('isempty', text)) == ('=', 1)
            if not loops:
                if not empty:
                    self.bad('alphabet', what + ':unchecked', 'the characters of a %s are not checked' % what)
            else:
                self.done.setdefault(text, set()).add(loops)
            long = self.long(st, text)
            want = None
            first = st.facts.get(mk('firstchar', text))
            fd = ip.remaining(st, mk('firstchar', text)) if first else ALL
            if empty:
                want = ['ExpectedName']
            elif long is True:
                want = ['NameTooLong']
            elif long is None:
                self.bad('alphabet', what + ':length', 'a %s may be longer than %d characters' % (what, self.MAXLEN))
                continue
            elif st.facts.get(mk('isempty', text)) is None:
                self.bad('alphabet', what + ':empty', 'a %s may be empty' % what)
                continue
            elif start != ALL and not fd & start:
                want = ['IllegalStart']
            elif start != ALL and fd & alpha - start:
                self.bad('alphabet', what + ':start', 'a %s may start with %s' % (what, chars(fd & alpha - start)))
                continue
            else:
                want = []
            todo.append((what, want))
            self.count('%s:%s' % (what, want))
        for what, want in todo:
            for w in want:
                got = [(c, s) for c, s in codes if c == w]
                if not got:
                    self.bad('alphabet', what + ':' + w, '%s is not reported for a %s' % (w, what))
                else:
                    codes.remove(got[0])
                    if not (got[0][1] is self.span or start_of(got[0][1], self.span)):
                        self.bad('alphabet', what + ':span', '%s of a %s is reported at %s' % (w, what, show(got[0][1])[:80]))
        for c, s in codes:
            self.bad('alphabet', 'wrong:' + c, '%s is reported without cause' % c)

    def long(self, st, text):
        n = mk('len', text)
        k = const(self.MAXLEN)
        for q, pos in ((mk('lt', k, n), True), (mk('lt', n, const(self.MAXLEN + 1)), False)):
            f = st.facts.get(q)
            if f and f[0] == '=':
                return bool(f[1]) == pos
        return None

    def position(self, what, text, span, e):
        """the span of an illegal character: (start of the name + index of the character, and one more)"""
        i = mk('idxof', e)
        s = natives_span(span)
        s = [fld(x, 'character') for x in s] if s else None
        base = fld(fld(self.span, 'start'), 'character')
        good = s is not None and s[0].op == 'addsigned' and uncast(s[0].a[1]) is i and s[1].op == 'addsigned' and s[1].a[0] is s[0] and s[1].a[1] is const(1)
        if good:
            b = s[0].a[0]
            if what == 'unit address':
                good = b.op == 'addsigned' and b.a[0] is base and contains(b.a[1], self.parts[0][1])
            else:
                good = b is base
        if not good:
            self.bad('alphabet', what + ':position', 'the position of an illegal character of a %s is %s' % (what, show(span)[:150]))

    def finish(self):
        for what, text, alpha, start in self.parts:
            for loops in self.done.get(text, ()):
                ok_ = ALL
                for site in loops:
                    ok_ &= frozenset(self.passed.get((text, site), ()))
                if ok_ - alpha:
                    self.bad('alphabet', what + ':forbidden', 'characters are accepted that are not allowed in a %s: %s' % (what, chars(ok_ - alpha)))
            d = frozenset(self.illegal.get(what, ()))
            if (ALL - alpha) - d:
                self.bad('alphabet', what + ':missing', 'characters are not reported that are not allowed in a %s: %s' % (what, chars((ALL - alpha) - d)))


def uncast(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def addends(t):
    """(terms, constant) that t is the sum of"""
    t = uncast(t)
    if t.op == 'const':
        return [], t.a[0]
    if t.op == 'bin' and t.a[0].startswith('Add'):
        a, b = addends(t.a[1]), addends(t.a[2])
        return a[0] + b[0], a[1] + b[1]
    return [t], 0


def natives_span(t):
    if t.op == 'agg' and t.a[1].endswith('Span'):
        return t.a[4]
    return None


def start_of(s, span):
    t = natives_span(s)
    return t is not None and t[1] is fld(span, 'end')


def chars(d):
    return ' '.join(chr(c) if 32 < c < 127 else '\\x%02x' % c if c < 128 else 'non-ASCII' for c in sorted(d))[:80]


class Reference(Parse):
    """the reference function: the right names are checked, the reference is what is written"""

    def setup(self, st, args):
        self.tok = args[1]
        self.ref = natives.chase(self.ip, st, args[2])

    def on_call(self, st, ev):
        b = ev.body
        if b is not None and ev.name == 'from' and norm(b['locals'][0]).endswith('ast::Path'):
            return mk('pathof', natives.chase(self.ip, st, ev.args[0]))
        return super().on_call(st, ev)

    def reported(self, st, x):
        super().reported(st, x)
        if any(c == 'PathCannotBeEmpty' for c, _ in st.mon.codes):
            st.mon = st.mon.set(used=True)

    def on_item(self, st, coll, kind, x, first):
        super().on_item(st, coll, kind, x, first)
        self.closure(st)
        if contains(coll, fld(self.ref, '0', 'Path')) or any(y.op == 'split' for y in subs(coll)):
            self.count('elements')
            st.mon = st.mon.set(node=True)
            if x is not None:
                st.mon = st.mon.set(checks=(), pend=((), (('node', x, None),), 'an element of a path'))
        return None

    # Where an element starts: an integer that is 0, 1 or 2 before the first element and grows by the length of each element in UTF-16 units and 1
    # for the slash is, by induction, the offset of the element plus that number ('offset' terms).
    def on_head(self, st):
        m = st.mon
        x = m.pend[1][0][1] if m.pend and m.pend[1] else None
        begun = m.node
        super().on_head(st)
        upd, f = {}, st.frame
        frames = {}
        while f is not None:
            frames[f.fid] = f.body
            f = f.up

        def go(v, local):
            """v with what is known to be an offset written as such"""
            if v.op == 'agg' and not (v.a[0] == 'adt' and v.a[1].endswith(('Token', 'Reference'))):
                vs = tuple(go(y, False) for y in v.a[4])
                return mk('agg', *v.a[:4], vs) if any(p is not q for p, q in zip(vs, v.a[4])) else v
            base = None
            if v.op == 'addsigned':
                base, ts, c = v.a[0], *addends(v.a[1])
                while base.op == 'addsigned':
                    t2, c2 = addends(base.a[1])
                    base, ts, c = base.a[0], ts + t2, c + c2
            elif local or v.op == 'bin':
                ts, c = addends(v)
            else:
                return v
            o = None
            if not begun:
                if not ts and c in (0, 1, 2) and (local or base is not None):
                    o = mk('offset', c)
            elif x is not None and c == 1 and len(ts) == 2 and any(self.units(t, x) for t in ts):
                o = next((t for t in ts if t.op == 'offset'), None)
            return v if o is None else o if base is None else mk('addsigned', base, o)
        for r, v in st.store.items():
            if r[0] == 'L' and r[1] in frames:
                ty = frames[r[1]]['locals'][r[2]]
                if ty in ('i32', 'u32', 'i64', 'u64', 'usize', 'isize', 'u16') or re.fullmatch(r'[A-Z]\w?', ty):
                    w = go(v, begun or r[2] in sums(frames[r[1]]) or v is const(2))
                else:
                    w = go(v, False)
                if w is not v:
                    upd[r] = w
        if begun and x is not None:
            self.ip.rename(st, {mk('offset', k): mk('old', mk('offset', k)) for k in (0, 1, 2)})
        for r, v in upd.items():
            st.store[r] = v

    def units(self, t, x):
        """the length of x in UTF-16 units"""
        return bool(t.op == 'count' and t.a[0].op == 'call' and t.a[0].a[0].endswith('encode_utf16') and t.a[0].a[1][0] is x)

    def at_offset(self, x):
        """is x the offset of the element? None: not known"""
        ts, c = addends(x)
        if len(ts) == 1 and ts[0].op == 'offset':
            return c + ts[0].a[0] == 2
        if any(y.op == 'offset' or y.op == 'phi' and isinstance(y.a[1], tuple) and y.a[1][0] == 'L' for t in ts for y in subs(t)) or not ts:
            return False
        return None

    def need(self, st, codes, checks, what):
        have = [(n, s) for k, n, s in st.mon.checks if k == 'node']
        for k, n, _ in checks:
            if st.facts.get(mk('isempty', n)) == ('=', 1):
                continue        # between two slashes
            same = [s for a, s in have if a is n or a is mk('nodename', n)]
            if not same:
                self.bad('names', 'path', 'an element of a path is not checked')
            span = fld(self.tok, 'span')
            for s in same:
                p = natives_span(s)
                if not (p and p[1] is fld(span, 'end') and any(y.op == 'addsigned' and y.a[0] is fld(fld(span, 'start'), 'character') for y in subs(p[0]))):
                    self.bad('names', 'path:span', 'an element of a path is checked at ' + show(s)[:80])
                    continue
                for y in subs(p[0]):
                    if y.op == 'addsigned' and y.a[0].op != 'addsigned' and self.at_offset(y.a[1]) is False:
                        for aspect in ('names', 'alphabet'):
                            self.bad(aspect, 'path:offset', 'an element of a path is checked %s after the start of the path, which is not where it '
                                     'starts' % show(y.a[1])[:120])

    def on_ret(self, st, v):
        ip = self.ip
        self.closure(st)
        var = st.variant(self.ref)
        self.ctx.obligations += 1
        self.count('ret:%s' % var)
        tok, item = fld(v, 'token'), natives.chase(ip, st, fld(v, 'item'))
        if v.op != 'agg' or tok is not self.tok:
            self.tree('token', 'a reference has another token')
        if var == 'Simple':
            s = fld(self.ref, '0', 'Simple')
            if st.variant(item) != 'Label' or natives.chase(ip, st, fld(item, '0', 'Label')) is not s:
                self.tree('label', 'the reference to a label is ' + show(item)[:100])
            if not any(k == 'label' and n is s for k, n, _ in st.mon.checks):
                self.bad('names', 'label', 'the label of a reference is not checked')
        elif var == 'Path':
            s = fld(self.ref, '0', 'Path')
            if st.variant(item) != 'Path' or natives.chase(ip, st, fld(item, '0', 'Path')) is not mk('pathof', s):
                self.tree('path', 'the reference to a path is ' + show(item)[:100])
            e = st.facts.get(mk('isempty', s))
            has = st.mon.used
            if e is None or (e == ('=', 1)) != has:
                self.bad('names', 'empty', 'an empty path is not reported' if not has else 'a path is reported as empty')
            if not st.mon.node:
                self.bad('names', 'path', 'the elements of a path are not checked')
        else:
            self.tree('kind', 'a reference is built without regard to its kind')


class NodeNameUnit(R):
    """NodeName::from: the text up to the first @, and what comes after it.  mon: pieces taken from a split"""

    def __init__(self, ctx, b, rep):
        super().__init__(ctx)
        self.b, self.rep, self.n = b, rep, 0

    def bad(self, key, msg):
        self.rep('tree', 'nodename:' + key, '%s: %s' % (where(self.b), msg))

    def at(self, st, x):
        x = self.ip.val(st, natives.chase(self.ip, st, x))
        return x is const(64) or x is strc('@')

    def split(self, st):
        """fork: is there an @?"""
        q = mk('has_at', self.value)
        return self.ip.fork_variant(st, q, 'core::option::Option')

    def on_call(self, st, ev):
        ip = self.ip
        if ev.body is not None or not ev.args:
            return None
        v = natives.chase(ip, st, ev.args[0])
        B, A, P = mk('before', self.value), mk('after', self.value), mk('atpos', self.value)
        if v is self.value and len(ev.args) > 1:
            if ev.name == 'split_once' and self.at(st, ev.args[1]):
                return [(s, some(tup(B, A)) if n == 'Some' else NONE) for s, n in self.split(st)]
            if ev.name == 'find' and self.at(st, ev.args[1]):
                return [(s, some(P) if n == 'Some' else NONE) for s, n in self.split(st)]
            if ev.name == 'splitn' and natives.chase(ip, st, ev.args[1]) is const(2) and self.at(st, ev.args[2]):
                return mk('pieces', self.value)
            if ev.name in ('index', 'get', 'split_at'):
                r = natives.chase(ip, st, ev.args[1])
                x = None
                if r.op == 'agg' and r.a[1].endswith('RangeTo') and r.a[4][0] is P:
                    x = B
                elif r.op == 'agg' and r.a[1].endswith('RangeFrom') and r.a[4][0] is mk('bin', 'Add', P, const(1)):
                    x = A
                if x is not None:
                    return x if ev.name == 'index' else some(x)
        if v.op == 'pieces' and ev.name == 'next':
            k = st.mon or 0
            st.mon = k + 1
            if k == 0:
                return [(s, some(B if n == 'Some' else self.value)) for s, n in self.split(st)]
            if k == 1:
                return [(s, some(A) if n == 'Some' else NONE) for s, n in self.split(st)]
            return NONE
        return None

    def on_ret(self, st, v):
        self.n += 1
        self.ctx.obligations += 1
        has = st.variant(mk('has_at', self.value))
        name, unit = (natives.chase(self.ip, st, fld(v, f)) for f in ('name', 'unit_address'))
        if has == 'None':
            if name is not self.value or st.variant(unit) != 'None':
                self.bad('plain', 'a name without @ becomes %s' % show(v)[:120])
        elif has == 'Some':
            if name is not mk('before', self.value) or st.variant(unit) != 'Some' or natives.chase(self.ip, st, fld(unit, '0', 'Some')) is not mk('after', self.value):
                self.bad('unit', 'a name with @ becomes %s' % show(v)[:120])
        else:
            self.bad('split', 'a name is not split at its first @')


class PathUnit(R):
    """Path::from: one element for every nonempty component.  mon: (component, it was added)"""

    def __init__(self, ctx, b, rep):
        super().__init__(ctx)
        self.b, self.rep, self.n = b, rep, 0

    def bad(self, key, msg):
        self.rep('tree', 'path:' + key, '%s: %s' % (where(self.b), msg))

    def comps(self, st, coll):
        c = natives.chase(self.ip, st, coll)
        return c.op == 'call' and c.a[0].split('::')[-1] == 'split' and any(x is const(47) or x is strc('/') for x in c.a[1]) or \
            c.op == 'split' and (const(47) in c.a or strc('/') in c.a)

    def settle(self, st):
        x, added = st.mon
        if x is None:
            return
        e = st.facts.get(mk('isempty', x))
        self.ctx.obligations += 1
        if not added and e != ('=', 1):
            self.bad('lost', 'a component of a path is lost')
        if added and e != ('=', 0):
            self.bad('empty', 'an empty component becomes an element of a path')
        st.mon = (None, False)

    def on_item(self, st, coll, kind, x, first):
        if not (self.comps(st, coll) or coll is self.value):
            return None
        self.n += 1
        self.settle(st)
        if x is not None:
            st.mon = (x, False)
        return None

    def on_head(self, st):
        self.settle(st)

    def keep_terms(self, st):
        return [st.mon[0]] if st.mon[0] is not None else []

    def rename_mon(self, m, f):
        return (f(m[0]) if isinstance(m[0], T) else None, m[1])

    def on_call(self, st, ev):
        b = ev.body
        if b is not None and ev.name == 'from' and norm(b['locals'][0]).endswith('ast::NodeName'):
            return mk('nodename', natives.chase(self.ip, st, ev.args[0]))
        if ev.name == 'push' and ev.path.startswith('alloc::vec'):
            x = natives.chase(self.ip, st, ev.args[1])
            if x.op == 'nodename':
                if x.a[0] is not st.mon[0]:
                    self.bad('other', 'an element of a path is ' + show(x)[:100])
                st.mon = (st.mon[0], True)
                a = natives.lastaddr(self.ip, st, ev.args[0])
                if a.op == 'addr':
                    self.ip.store_at(st, a.a[0], a.a[1], LIST)
                return UNIT
        if ev.name in REORDER + ('rev', 'skip', 'take') and ev.body is None and ev.path.split('::')[-2] in ('Vec', 'slice', 'Iterator'):
            self.bad('order', 'the components of a path are changed (%s)' % ev.name)
        return None

    def on_ret(self, st, v):
        self.settle(st)
        e = natives.chase(self.ip, st, fld(v, 'elements'))
        if e is not LIST and e is not SEQ0:
            self.bad('list', 'the elements of a path are ' + show(e)[:120])


class Peek(R):
    """PeekingLexer::peek / next, Lexer::next: no token is lost or seen twice.  mon: tokens taken from the lexer"""

    def __init__(self, ctx, b, rep, what):
        super().__init__(ctx)
        self.b, self.rep, self.what, self.n = b, rep, what, 0

    def bad(self, key, msg):
        self.rep('peek', '%s:%s' % (self.what, key), '%s: %s' % (where(self.b), msg))

    def on_call(self, st, ev):
        b = ev.body
        name = 'consume' if self.what == 'lexer' else 'next'
        if b is not None and b['id'] != self.b['id'] and b['id'] == self.inner['id']:
            if self.what == 'lexer':
                self.dropped(st)
            t = self.ip.fresh(st, mk('lexed', st.bb))
            st.mon = st.mon + (t,)
            return t
        return None

    def dropped(self, st):
        for t in st.mon:
            if st.variant(t) != 'Some' or st.variant(fld(fld(t, '0', 'Some'), 'kind')) != 'Comment':
                self.bad('lost', 'a token that is no comment is skipped')
        st.mon = ()

    def on_head(self, st):
        if self.what == 'lexer':
            self.dropped(st)

    def rename_mon(self, m, f):
        return tuple(f(t) for t in m)

    def keep_terms(self, st):
        return list(st.mon)

    def on_ret(self, st, v):
        ip = self.ip
        self.n += 1
        self.ctx.obligations += 1
        v = natives.chase(ip, st, v)
        if self.what == 'lexer':
            if len(st.mon) != 1 or not self.same(st, v, st.mon[0]):
                self.bad('other', 'the token is ' + show(v)[:100])
            elif st.variant(st.mon[0]) == 'Some' and st.maybe(fld(fld(st.mon[0], '0', 'Some'), 'kind'), 'Comment'):
                self.bad('comment', 'a comment reaches the parser')
            return
        old = fld(self.me, 'peeked')
        was = st.variant(old)
        now = natives.chase(ip, st, fld(ip.load(st, self.root, ()), 'peeked'))
        if was == 'Some':
            x = fld(old, '0', 'Some')
            if st.mon:
                self.bad('lost', 'a token is taken from the lexer although one was looked at')
        elif was == 'None':
            if len(st.mon) != 1:
                self.bad('count', '%d tokens are taken from the lexer' % len(st.mon))
                return
            x = st.mon[0]
        else:
            self.bad('blind', 'the token that was looked at is ignored')
            return
        if not self.same(st, v, x):
            self.bad('other', 'the token is ' + show(v)[:100])
        if self.what == 'next':
            if st.variant(now) != 'None':
                self.bad('twice', 'a token is seen again')
        elif st.variant(now) != 'Some' or natives.chase(ip, st, fld(now, '0', 'Some')) is not x:
            self.bad('forget', 'the token that was looked at is forgotten')

    def same(self, st, v, x):
        v = natives.chase(self.ip, st, v)
        if v is x:
            return True
        a, b = st.variant(v), st.variant(x)
        if a is None or a != b:
            return False
        return a == 'None' or natives.chase(self.ip, st, fld(v, '0', 'Some')) is fld(x, '0', 'Some')


def small(ctx, rep, counts):
    """the small units"""
    F = ctx.F
    hits = [b for i in F.impls if i['trait'] == 'core::convert::From' and i['self'].endswith('dts::ast::NodeName') for b in [F.bodies.get(i['methods'].get('from'))] if b]
    for b in hits:
        r = NodeNameUnit(ctx, b, rep)
        ip = Interp(F, r)
        r.ip = ip
        r.judge = partial.judge_of(F)
        args = ip.root_args(b)
        st = ip.start(b, args, None, None)
        r.value = natives.chase(ip, st, args[0])
        ip.run(st)
        r.judge.bodies |= {b['id']} | set(ip.inlined)
        ctx.saw(b)
        counts['nodename', 'ret'] = counts.get(('nodename', 'ret'), 0) + r.n
    hits = [b for i in F.impls if i['trait'] == 'core::convert::From' and i['self'].endswith('dts::ast::Path') for b in [F.bodies.get(i['methods'].get('from'))] if b]
    for b in hits:
        r = PathUnit(ctx, b, rep)
        ip = Interp(F, r)
        r.ip = ip
        r.judge = partial.judge_of(F)
        args = ip.root_args(b)
        st = ip.start(b, args, None, (None, False))
        r.value = natives.chase(ip, st, args[0])
        ip.run(st)
        r.judge.bodies |= {b['id']} | set(ip.inlined)
        ctx.saw(b)
        counts['path', 'item'] = counts.get(('path', 'item'), 0) + r.n
    named = {}
    for b in F.bodies.values():
        p = norm(b['path'])
        if '{closure' in b['path']:
            continue
        if re.search(r'PeekingLexer(::<R>)?::peek$', b['path']):
            named['peek'] = b
        elif re.search(r'<[\w:]*PeekingLexer<R> as [\w:]*Iterator>::next$', b['path']):
            named['next'] = b
        elif re.search(r'<[\w:]*::Lexer<R> as [\w:]*Iterator>::next$', b['path']):
            named['lexer'] = b
        elif re.search(r'::Lexer(::<R>)?::consume$', b['path']):
            named['consume'] = b
    for what, inner in (('peek', 'lexer'), ('next', 'lexer'), ('lexer', 'consume')):
        if what not in named or inner not in named:
            rep('peek', 'anchor:' + what, 'the function for %s is gone' % what)
            continue
        b = named[what]
        r = Peek(ctx, b, rep, what)
        r.inner = named[inner]
        ip = Interp(F, r)
        r.ip = ip
        r.judge = partial.judge_of(F)
        args = ip.root_args(b)
        st = ip.start(b, args, None, ())
        r.root = args[0].a[0]
        r.me = ip.load(st, r.root, ())
        ip.run(st)
        r.judge.bodies |= {b['id']} | set(ip.inlined)
        ctx.saw(b)
        counts['peek', what] = counts.get(('peek', what), 0) + r.n
    # a parser starts at depth 0, without diagnostics, and has not looked at anything
    for b in F.bodies.values():
        if re.search(r'dts::parser::Parser<', b['locals'][0]) and b['locals'][0].startswith('ginko::dts::parser::Parser<') and '{closure' not in b['path']:
            r = R(ctx)
            run(F, r, b)
            for st, v in r.rets:
                ctx.obligations += 1
                counts['new', 'ret'] = counts.get(('new', 'ret'), 0) + 1
                if v.op != 'agg':
                    continue        # made by another constructor
                if fld(v, 'depth') is not const(0):
                    rep('depth', 'start:' + norm(b['path']), '%s: a parser starts at depth %s' % (where(b), show(fld(v, 'depth'))))
                if natives.chase(r.ip, st, fld(v, 'diagnostics')) is not SEQ0:
                    rep('errors', 'start:' + norm(b['path']), '%s: a parser starts with diagnostics' % where(b))


def leaves(ctx):
    """findings of the leaf units: {aspect: {key: message}}, counts"""
    F = ctx.F
    found, counts = {}, {}

    def rep(aspect, key, msg):
        found.setdefault(aspect, {}).setdefault(key, msg)
    c2 = Ctx(F, 'cells')
    U = units(F)
    cands = [b for b in F.bodies.values() if norm(b['path']).startswith('ginko::dts::parser::Parser') and '{closure' not in b['path']]
    for n in list(CHECKS) + ['reference']:
        hit = [b for b in cands if norm(b['path']).split('::')[-1] == n]
        if len(hit) == 1:
            U[n] = hit[0]
    for u, cls in LEAVES.items():
        if u not in U:
            rep('names' if u in CHECKS or u == 'reference' else 'tree', 'anchor:' + u, 'the function for %s is gone' % u)
            continue
        r = cls(c2, F, u, U, rep)
        r.ids = {U[k]['id']: k for k in UNITS if k in U and k != u}
        ip = Interp(F, r)
        r.ip = ip
        r.judge = partial.judge_of(F)
        b = U[u]
        args = ip.root_args(b)
        st = ip.start(b, args, None, MON0)
        r.me = ip.load(st, args[0].a[0], ())
        if hasattr(r, 'setup'):
            r.setup(st, args)
        ip.run(st)
        r.judge.bodies |= {b['id']} | set(ip.inlined)
        if hasattr(r, 'finish'):
            r.finish()
        c2.saw(b)
        c2.saw(*[F.bodies[i] for i in ip.inlined if not i.startswith('gkmodels')])
        for k, n in r.n.items():
            counts[(u, k)] = counts.get((u, k), 0) + n
        counts['steps', u] = ip.steps
    small(c2, rep, counts)
    return found, counts, c2


LEAVES = {'cell': CellUnit, 'mem': MemUnit, 'bytes': BytesUnit, 'check_is_label': Names, 'check_is_node_name': Names,
          'check_is_property_name': Names, 'reference': Reference}
