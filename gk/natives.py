"""Abstract transfer functions for the standard library calls that the analysed code uses.

A native returns None (not handled), a term, or a list of (state, term) / states."""
import re
from .terms import *

IMPURE = {
    'std::io::stdio::_print', 'std::io::stdio::_eprint', 'std::fs::read_to_string', 'dunce::canonicalize',
    'std::fs::canonicalize', 'alloc::io::read::Read::read_to_string', '<call>', '<indirect>',
}

IDENT = {
    'core::ops::deref::Deref::deref', 'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned',
    'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'alloc::boxed::Box::new', 'alloc::boxed::Box::pin',
    'alloc::rcs::arc::Arc::new', 'core::option::Option::cloned', 'core::option::Option::copied',
    'core::option::Option::as_ref', 'core::option::Option::as_deref', 'core::result::Result::as_ref',
    'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'core::str::as_bytes', 'core::str::to_string',
    'std::path::PathBuf::as_path', 'std::path::Path::to_path_buf', 'std::path::Path::new', 'alloc::slice::to_vec',
    'alloc::vec::Vec::as_slice', 'core::hint::must_use', 'core::pin::Pin::new_unchecked', 'core::pin::Pin::new',
    'core::future::into_future::IntoFuture::into_future', 'alloc::str::to_owned', 'core::str::to_owned',
    'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str', 'core::pin::Pin::as_mut',
    'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::slice::as_mut_ptr',
    'alloc::rcs::arc::Arc::clone', 'alloc::slice::into_vec', 'core::slice::to_vec', 'core::slice::into_vec',
    'std::path::Path::as_os_str', 'std::path::PathBuf::into_os_string', 'core::mem::ManuallyDrop::new',
    'alloc::borrow::Cow::into_owned', 'core::array::as_slice', 'core::iter::traits::iterator::Iterator::by_ref',
    'core::iter::traits::iterator::Iterator::fuse', 'core::convert::identity', 'core::str::bytes::as_bytes',
    'core::hint::black_box', 'core::borrow::BorrowMut::borrow_mut', 'alloc::string::String::into_string',
}
IDENT_BUTREF = IDENT  # `&mut` self stays an address only for the *_mut family
MUTFAM = {'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'core::pin::Pin::as_mut',
          'core::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::future::into_future::IntoFuture::into_future',
          'alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'core::iter::traits::iterator::Iterator::by_ref',
          'core::hint::must_use', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::identity', 'core::hint::black_box'}

ITER_SRC = {
    'core::slice::iter': '', 'core::slice::iter_mut': '', 'core::str::chars': 'chars', 'core::str::bytes': 'bytes',
    'core::str::lines': 'lines', 'core::str::split': 'split', 'core::option::Option::iter': 'opt',
    'core::option::Option::into_iter': 'opt', 'core::iter::sources::empty::empty': 'empty',
    'core::iter::sources::once::once': 'once', 'core::str::split_whitespace': 'split', 'core::str::split_terminator': 'split',
    'core::str::char_indices': 'char_indices', 'alloc::vec::Vec::drain': '', 'alloc::vec::Vec::iter': '',
    'core::result::Result::iter': 'opt', 'core::result::Result::into_iter': 'opt',
}
for _m in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
    for _k in ('keys', 'values', 'into_keys', 'into_values', 'iter', 'values_mut', 'iter_mut', 'drain'):
        ITER_SRC[_m + '::' + _k] = 'keys' if 'keys' in _k else 'values' if 'values' in _k else ''
for _m in ('std::collections::hash::set::HashSet', 'alloc::collections::btree::set::BTreeSet',
           'alloc::collections::vec_deque::VecDeque'):
    for _k in ('iter', 'drain'):
        ITER_SRC[_m + '::' + _k] = ''

IT = 'core::iter::traits::iterator::Iterator::'
ADAPT = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'inspect', 'map_while', 'take_while', 'skip_while'}
PASS_AD = {'cloned', 'copied', 'enumerate', 'rev', 'take', 'skip', 'peekable', 'step_by', 'chain', 'zip', 'tuples',
           'dedup', 'sorted', 'unique', 'cycle'}
CONSUME = {'for_each', 'try_for_each', 'find', 'find_map', 'any', 'all', 'fold', 'partition', 'position'}

EMPTY_NEW = re.compile(r'^(alloc::vec::Vec|alloc::collections::\S+|std::collections::\S+|alloc::string::String)::'
                       r'(new|with_capacity)$')
MAPTY = ('std::collections::hash::map::HashMap::', 'alloc::collections::btree::map::BTreeMap::')
SETTY = ('std::collections::hash::set::HashSet::', 'alloc::collections::btree::set::BTreeSet::')
CHARCLS = {
    'is_ascii_whitespace': lambda c: c in (9, 10, 12, 13, 32),
    'is_whitespace': lambda c: c in (9, 10, 11, 12, 13, 32, 0x85, 0xA0),
    'is_ascii_digit': lambda c: 48 <= c <= 57,
    'is_ascii_hexdigit': lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    'is_ascii_alphabetic': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    'is_ascii_alphanumeric': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
    'is_ascii_lowercase': lambda c: 97 <= c <= 122,
    'is_ascii_uppercase': lambda c: 65 <= c <= 90,
    'is_ascii': lambda c: c < 128,
    'is_ascii_punctuation': lambda c: 33 <= c < 127 and not chr(c).isalnum(),
    'is_ascii_graphic': lambda c: 33 <= c < 127,
    'is_ascii_control': lambda c: c < 32 or c == 127,
    'is_alphabetic': lambda c: chr(c).isalpha(),
    'is_alphanumeric': lambda c: chr(c).isalnum(),
    'is_numeric': lambda c: chr(c).isnumeric(),
}


def it(coll, kind=''):
    return mk('agg', 'iter', kind, '', ('c', 'k'), (coll, const(0)))


def is_iter(t):
    return t.op == 'agg' and t.a[0] in ('iter', 'ad')


def chase(ip, st, a):
    n = 0
    while a.op == 'addr' and n < 6:
        a = ip.load(st, *a.a)
        n += 1
    return a


def lastaddr(ip, st, a):
    """innermost address whose content is not itself an address"""
    n = 0
    while a.op == 'addr' and n < 6:
        v = ip.load(st, *a.a)
        if v.op != 'addr':
            return a
        a = v
        n += 1
    return a


def to_iter(ip, st, v):
    v = chase(ip, st, v)
    if is_iter(v):
        return v
    if v.op == 'agg' and v.a[1] == 'core::ops::range::Range':
        return it(v, 'range')
    if v.op == 'agg' and v.a[1] in ('core::option::Option', 'core::result::Result'):
        return it(v, 'opt')
    return it(v)


def item_of(coll, kind):
    if kind == 'keys':
        return fld(mk('item', coll), '0')
    if kind == 'values':
        return fld(mk('item', coll), '1')
    if kind in ('', 'phi'):
        return mk('item', coll)
    return mk('item', mk(kind, coll))


def nonempty_fact(ip, st, coll, k, ne):
    """record what the first `next` reveals; False on contradiction"""
    if k.op == 'const' and k.a[0] == 0:
        return ip.assume(st, isempty(coll), not ne)
    return True


def isempty(coll):
    if coll is SEQ0:
        return TRUE
    if coll.op == 'seq':
        if coll.a[2]:
            return FALSE
        return mk('isempty', coll)
    if coll.op == 'agg' and coll.a[0] == 'array':
        return FALSE if coll.a[4] else TRUE
    if coll.op in ('str', 'bytes'):
        return FALSE if coll.a[0] else TRUE
    if coll.op == 'fmt':
        return FALSE if any(isinstance(x, str) and x for x in coll.a[0]) else mk('isempty', coll)
    return mk('isempty', coll)


def length(ip, st, a):
    a = chase(ip, st, a)
    if a is SEQ0:
        return const(0)
    if a.op == 'agg' and a.a[0] == 'array':
        return const(len(a.a[4]))
    if a.op == 'bytes':
        return const(len(a.a[0]))
    if a.op == 'str':
        return const(len(a.a[0].encode()))
    f = st.facts.get(mk('isempty', a))
    if f and f[0] == '=' and f[1] == 1:
        return const(0)
    return mk('len', a)


def next_item(ip, st, src):
    """src: address of an iterator value. [(state, option term)]; reports the items to the rule"""
    v = chase(ip, st, src)
    coll, first, kind = v, False, ''
    if is_iter(v) and v.a[0] == 'iter':
        coll, kind = chase(ip, st, v.a[4][0]), v.a[1]
        first = v.a[4][1] is FALSE
        if v.a[4][1] is const(2):
            return [(st, NONE)]       # exhausted before
    out = []
    for s, o in next_item0(ip, st, src):
        x = o.a[4][0] if o.a[4] else None
        if ip.defer is not None:
            ip.defer[:] = [coll, kind, first]     # peeked: reported when the item is taken
            out.append((s, o))
            continue
        r = ip.rule.on_item(s, coll, kind, x, first)
        if r is None:
            out.append((s, o))
        else:
            out.extend((s2, o) for s2 in r)
    return out


def items_of(ip, st, c, k):
    """[(state, element or None)]: the next element of a collection (k: const(0) for the first)"""
    out = []
    s0 = st.copy()
    if nonempty_fact(ip, s0, c, k, False):
        out.append((s0, None))
    if c is SEQ0:
        return out
    if c.op == 'seq':
        for x in sorted(c.a[1], key=lambda t: t.id):
            s2 = st.copy()
            if nonempty_fact(ip, s2, c, k, True):
                out.append((s2, x))
    if c.op != 'seq' or c.a[0] is not None:
        s2 = st.copy()
        if nonempty_fact(ip, s2, c, k, True):
            x = ip.fresh(s2, mk('item', c if c.op != 'seq' else c.a[0]))
            out.append((s2, x))
    return out


def next_item0(ip, st, src):
    a = lastaddr(ip, st, src)
    v = chase(ip, st, a)
    if not is_iter(v):
        # iterator of unknown origin
        t = ip.fresh(st, mk('item', v))
        s2 = st.copy()
        return [(st, NONE), (s2, some(t))]

    def setk(s, val):
        if a.op == 'addr':
            ip.store_at(s, a.a[0], a.a[1] + (('k', ''),), val)

    kind, coll, k = v.a[1], v.a[4][0], v.a[4][1] if len(v.a[4]) > 1 else None
    if v.a[0] == 'iter':
        c = chase(ip, st, coll)
        if kind == 'empty' or c is SEQ0:
            return [(st, NONE)]
        if kind in ('opt', 'once'):
            if not (k.op == 'const' and k.a[0] == 0):
                return [(st, NONE)]
            if kind == 'once':
                setk(st, const(1))
                return [(st, some(c))]
            out = []
            adtn = c.a[1] if c.op == 'agg' else 'core::option::Option'
            good = 'Ok' if adtn.endswith('Result') else 'Some'
            for s2, vn in ip.fork_variant(st, c, adtn):
                if vn == good:
                    setk(s2, const(1))
                    out.append((s2, some(fld(c, '0', good))))
                else:
                    out.append((s2, NONE))
            return out
        if kind == '' and c.op == 'agg' and c.a[0] == 'array' and k.op == 'const':
            i = k.a[0]
            if i < len(c.a[4]):
                setk(st, const(i + 1))
                return [(st, some(c.a[4][i]))]
            return [(st, NONE)]
        if kind == 'range' and k.op == 'const' and c.op == 'agg' and c.a[4][0] is const(0) and c.a[4][1].op == 'len':
            # indices of a collection
            v = c.a[4][1].a[0]
            out = []
            for s2, x in items_of(ip, st, v, k):
                r = ip.rule.on_item(s2, v, '', x, k is const(0))
                for s3 in [s2] if r is None else r:
                    setk(s3, const(1) if x is not None else const(2))
                    out.append((s3, NONE if x is None else some(mk('idx', v, x, None))))
            return out
        if kind == 'range' and c.op == 'agg' and c.a[1].endswith('::Range') and c.a[4][0] is c.a[4][1]:
            return [(st, NONE)]
        if kind == 'range':
            x = ip.fresh(st, mk('item', c))
            s2 = st.copy()
            setk(s2, const(1))
            return [(st, NONE), (s2, some(x))]
        if kind == '' and c.op == 'seq':
            out = []
            if nonempty_fact(ip, st, c, k, False) if True else True:
                pass
            s0 = st.copy()
            e = isempty(c)
            if not (k.op == 'const' and k.a[0] == 0 and ip.truth(st, e) is False):
                if nonempty_fact(ip, s0, c, k, False):
                    out.append((s0, NONE))
            for x in sorted(c.a[1], key=lambda t: t.id):
                s2 = st.copy()
                if nonempty_fact(ip, s2, c, k, True):
                    setk(s2, const(1))
                    out.append((s2, some(x)))
            if c.a[0] is not None:
                s2 = st.copy()
                setk(s2, const(1))
                x = ip.fresh(s2, mk('item', c.a[0]))
                out.append((s2, some(x)))
            return out
        out = []
        s0 = st.copy()
        if nonempty_fact(ip, s0, c, k, False):
            if ip.rule.FUSE:
                setk(s0, const(2))
            out.append((s0, NONE))
        s2 = st.copy()
        if nonempty_fact(ip, s2, c, k, True):
            t = item_of(c, kind)
            base = t if t.op == 'item' else t.a[0]
            ip.fresh(s2, base)
            setk(s2, const(1))
            out.append((s2, some(t)))
        return out
    return None


def ad(kind, inner, *extra):
    if kind == 'peekable':
        return mk('agg', 'ad', kind, '', ('i', 'p'), (inner, NONE))
    if kind in ('flat_map', 'flatten'):
        names = ('i', 'f', 'g', 'k') if extra else ('i', 'g', 'k')
        return mk('agg', 'ad', kind, '', names, (inner,) + extra[:1] + (NONE, const(0)))
    names = ('i', 'f', 'g')[:1 + len(extra)] + ('k',)
    return mk('agg', 'ad', kind, '', names, (inner,) + extra + (const(0),))


def iter_next(ip, st, ev, src):
    a = lastaddr(ip, st, src)
    v = chase(ip, st, a)
    if not is_iter(v) or v.a[0] == 'iter':
        return next_item(ip, st, src)
    kind = v.a[1]
    if kind == 'from_fn':
        return ip.inline(st, ev, ip.F.bodies['gkmodels::adnext__from_fn'], [fld(v, 'f')])
    inner = mk('addr', a.a[0], a.a[1] + (('i', ''),)) if a.op == 'addr' else v.a[4][0]
    if kind in ('flat_map', 'flatten') and a.op == 'addr':
        cur = mk('addr', a.a[0], a.a[1] + (('g', ''),))
        b = ip.F.bodies['gkmodels::adnext__%s_cur' % kind]
        return ip.inline(st, ev, b, [inner] + ([fld(v, 'f')] if kind == 'flat_map' else []) + [cur])
    if kind in ADAPT:
        b = ip.F.bodies.get('gkmodels::adnext__' + kind)
        args = [inner] + ([fld(v, 'f')] if 'f' in v.a[3] else [])
        return ip.inline(st, ev, b, args)
    if kind == 'peekable' and a.op == 'addr':
        slot = a.a[0], a.a[1] + (('p', ''),)
        p = chase(ip, st, v.a[4][1])
        if p.op == 'agg' and p.a[2] == 'Some':
            ip.store_at(st, *slot, NONE)
            w = p.a[4][0]
            if w.op == 'agg' and w.a[0] == 'peeked':
                o = w.a[4][0]
                coll, k, first = w.a[4][1:]
                r = ip.rule.on_item(st, coll, k.a[0], o.a[4][0] if o.a[4] else None, first is TRUE)
                return [(st, o)] if r is None else [(s2, o) for s2 in r]
            return [(st, w)]
        return iter_next(ip, st, ev, inner)
    res = []
    if kind == 'chain':
        second = mk('addr', a.a[0], a.a[1] + (('f', ''),)) if a.op == 'addr' else v.a[4][1]
        b = ip.F.bodies['gkmodels::adnext__chain']
        return ip.inline(st, ev, b, [inner, second])
    if kind in ('enumerate', 'tuples'):
        b = ip.F.bodies['gkmodels::adnext__' + kind]
        return ip.inline(st, ev, b, [inner])
    if kind in ('zip',):
        second = mk('addr', a.a[0], a.a[1] + (('f', ''),)) if a.op == 'addr' else v.a[4][1]
        return ip.inline(st, ev, ip.F.bodies['gkmodels::adnext__zip'], [inner, second])
    if kind in ('take', 'skip', 'step_by', 'dedup', 'unique'):
        # a sub-selection of the inner items
        s0 = st.copy()
        out = [s0.__class__] and []
        out = [(s0, NONE)]
        ev2 = ev
        r = iter_next(ip, st, ev2, inner)
        return out + list(norm_res(st, r))
    # rev, sorted, peekable, cycle, cloned, copied
    return iter_next(ip, st, ev, inner)


def peek(ip, st, ev, name):
    """the look-ahead of a peekable iterator; the rule hears of an item when it is taken"""
    a = lastaddr(ip, st, ev.args[0])
    v = chase(ip, st, a)
    if not (is_iter(v) and v.a[1] == 'peekable' and a.op == 'addr'):
        return None
    if name == 'next_if':
        return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__next_if'], [a, ev.args[1]])
    if name != 'peek' and name != 'peek_mut':
        return None
    slot = a.a[0], a.a[1] + (('p', ''),)
    p = chase(ip, st, v.a[4][1])
    if p.op == 'agg' and p.a[2] == 'Some':
        w = p.a[4][0]
        return w.a[4][0] if w.op == 'agg' and w.a[0] == 'peeked' else w
    inner = mk('addr', a.a[0], a.a[1] + (('i', ''),))
    iv = chase(ip, st, inner)
    if is_iter(iv) and iv.a[0] != 'iter':
        return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__peek'], [inner, mk('addr', *slot)])
    ip.defer = d = []
    try:
        r = norm_res(st, iter_next(ip, st, ev, inner))
    finally:
        ip.defer = None
    out = []
    for s2, o in r:
        coll, k, first = d or (iv, '', False)
        ip.store_at(s2, *slot, some(mk('agg', 'peeked', '', '', ('o', 'c', 'k', 'f'), (o, coll, mk('str', k), TRUE if first else FALSE))))
        ip.rule.on_peek(s2, coll, o.a[4][0] if o.a[4] else None)
        out.append((s2, o))
    return out


def norm_res(st, r):
    if r is None:
        return []
    if isinstance(r, T):
        return [(st, r)]
    return r


def eq_forks(ip, st, a, b, depth=0):
    """structural equality; list of (state, TRUE/FALSE/term)"""
    a, b = chase(ip, st, a), chase(ip, st, b)
    from .interp import b_eq
    if a is b:
        return [(st, TRUE)]
    if a.op == 'agg' and b.op != 'agg':
        a, b = b, a
    if b.op == 'upd' or b.op != 'agg' or depth > 5:
        return [(st, b_eq(ip.val(st, a), ip.val(st, b)))]
    if b.a[0] == 'adt':
        name, var = b.a[1], b.a[2]
        A = ip.F.adts.get(name)
        if A and A['kind'] == 'enum' or name in ('core::option::Option', 'core::result::Result'):
            va = st.variant(a)
            vs = [v['name'] for v in A['variants']] if A else (['None', 'Some'] if 'Option' in name else ['Ok', 'Err'])
            out = []
            if va is None:
                ip.vadt[a] = vs
                s2 = st.copy()
                if ip.set_fact(s2, mk('variant', a), False, var):
                    out.append((s2, FALSE))
                s3 = st
                if not ip.set_fact(s3, mk('variant', a), True, var):
                    return out
            elif va != var:
                return [(st, FALSE)]
            cur = [(st, TRUE)]
            for f, x in zip(b.a[3], b.a[4]):
                nxt = []
                for s, r in cur:
                    if r is FALSE:
                        nxt.append((s, r))
                        continue
                    for s2, r2 in eq_forks(ip, s, fld(a, f, var), x, depth + 1):
                        nxt.append((s2, conj(r, r2)))
                cur = nxt
            return out + cur
    cur = [(st, TRUE)]
    for f, x in zip(b.a[3] or [str(i) for i in range(len(b.a[4]))], b.a[4]):
        nxt = []
        for s, r in cur:
            if r is FALSE:
                nxt.append((s, r))
                continue
            y = fld(a, f) if b.a[0] != 'array' else ip.index(s, a, const(int(f)))
            for s2, r2 in eq_forks(ip, s, y, x, depth + 1):
                nxt.append((s2, conj(r, r2)))
        cur = nxt
    return cur


def conj(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return mk('band', a, b)


def default_of(ip, ty):
    t = ty.strip()
    if t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
        return const(0)
    if t == 'bool':
        return FALSE
    if t == '()':
        return UNIT
    from .interp import head
    h = head(t)
    if h == 'core::option::Option':
        return NONE
    if h == 'alloc::string::String' or h == 'str':
        return strc('')
    if re.match(r'(alloc::vec::Vec|alloc::collections::|std::collections::)', h):
        return SEQ0
    return None


# ----------------------------------------------------------------------- fmt
def decode_template(bs):
    parts, i, n, auto = [], 0, len(bs), 0
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            parts.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            parts.append(bytes(bs[i:i + l]).decode('utf8', 'replace'))
            i += l
        else:
            flags = width = prec = None
            idx = auto
            if b & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), 'little')
                i += 4
            if b & 2:
                width = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                prec = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            auto = idx + 1
            parts.append((idx, flags, width, prec))
    return parts


def fmt_term(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] == 'd' and len(p) == 2:
            x = p[1]
            if x.op == 'str':
                p = x.a[0]
            elif x.op == 'fmt':
                for q in x.a[0]:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    else:
                        out.append(q)
                continue
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if all(isinstance(x, str) for x in out):
        return strc(''.join(out))
    return mk('fmt', tuple(out))


def mk_args(ip, st, tmpl, args):
    a = chase(ip, st, args)
    if tmpl.op == 'bytes':
        bs = tmpl.a[0]
    elif tmpl.op == 'str':
        bs = tuple(tmpl.a[0].encode())
    elif tmpl.op == 'agg' and all(x.op == 'const' for x in tmpl.a[4]):
        bs = tuple(x.a[0] for x in tmpl.a[4])
    else:
        return None
    out = []
    for p in decode_template(list(bs)):
        if isinstance(p, str):
            out.append(p)
            continue
        idx, flags, width, prec = p
        x = ip.index(st, a, const(idx))
        spec = 'd'
        if x.op == 'fmtarg':
            spec, x = x.a
        if (flags, width, prec) == (None, None, None) and spec == 'd':
            out.append(('d', x))
        else:
            out.append((spec, x, flags, width, prec))
    return fmt_term(out)


# ----------------------------------------------------------------------- dispatch
def dispatch(ip, st, ev):
    p, args, name = ev.path, ev.args, ev.name
    F = ip.F
    if p in IDENT or p.startswith('gkmodels::ident'):
        a = args[0]
        if p not in MUTFAM:
            a = chase(ip, st, a)
        # a type of the analysed code may implement the trait itself (Deref, AsRef, Clone)
        if ev.body is not None and p.split('::')[-2] in ('Deref', 'AsRef', 'DerefMut', 'AsMut', 'Borrow', 'Clone'):
            return None
        if p == 'core::ops::deref::DerefMut::deref_mut' and a.op != 'addr':
            return mk('addr', ('O', a), ())
        return a
    if p.startswith('gkmodels::any_item'):
        v = to_iter(ip, st, args[0])
        if v.a[0] == 'iter' and v.a[1] == '' and v.a[4][0].op == 'agg' and v.a[4][0].a[0] == 'array':
            out = [(st.copy(), some(x)) for x in v.a[4][0].a[4]]
            return out + [(st, NONE)]
        return iter_next(ip, st, ev, args[0])
    fn = NATIVE.get(p)
    if fn is not None:
        return fn(ip, st, ev)
    if p in ITER_SRC and p.startswith(('core::option', 'core::result')):
        c = chase(ip, st, args[0])
        return c if is_iter(c) else it(c, ITER_SRC[p])
    if p.startswith('core::option::Option::') or p.startswith('core::result::Result::') or p.startswith('core::bool::'):
        m = p.split('::')[-2].lower() + '__' + name
        b = F.bodies.get('gkmodels::' + m)
        if b is not None:
            a = list(args)
            if name in ('is_some', 'is_none', 'is_ok', 'is_err'):
                a[0] = chase(ip, st, a[0])
            return ip.inline(st, ev, b, a)
        return None
    if p.startswith(IT) or p.startswith('itertools::Itertools::') or \
            p.startswith('core::iter::traits::double_ended::DoubleEndedIterator::'):
        return iterator(ip, st, ev, name)
    if p.startswith('core::iter::adapters::peekable::Peekable::'):
        return peek(ip, st, ev, name)
    if p == 'core::iter::sources::from_fn::from_fn':
        return ad('from_fn', it(SEQ0), args[0])
    if p in ITER_SRC:
        k = ITER_SRC[p]
        if k == 'empty':
            return it(SEQ0)
        c = chase(ip, st, args[0])
        if k == 'split':
            return it(mk('split', c, *[chase(ip, st, x) for x in args[1:]]))
        if is_iter(c):
            return c
        return it(c, k)
    if EMPTY_NEW.match(p):
        return strc('') if '::String::' in p else SEQ0
    if p == 'core::ops::range::Range::contains':
        return ip.inline(st, ev, F.bodies['gkmodels::range__contains'], [chase(ip, st, args[0]), chase(ip, st, args[1])])
    if p == 'core::ops::range::RangeInclusive::contains':
        r = chase(ip, st, args[0])
        if r.op == 'call' and r.a[0] == 'core::ops::range::RangeInclusive::new':
            lo, hi = (chase(ip, st, z) for z in r.a[1])
            return ip.inline(st, ev, F.bodies['gkmodels::incl__contains'], [lo, hi, chase(ip, st, args[1])])
    if p in ('core::slice::contains', 'core::str::contains'):
        c = chase(ip, st, args[0])
        x = chase(ip, st, args[1])
        from .interp import dombase
        if dombase(x) is not None:
            vals = None
            if c.op == 'bytes':
                vals = tuple(c.a[0])
            elif c.op == 'str':
                vals = tuple(c.a[0].encode())
            elif c.op == 'agg' and c.a[0] == 'array' and all(y.op == 'const' for y in c.a[4]):
                vals = tuple(y.a[0] for y in c.a[4])
            if vals is not None:
                return mk('pred', vals, x)
        if p == 'core::slice::contains' and c.op == 'agg' and c.a[0] == 'array' and len(c.a[4]) <= 8:
            out, rest = [], [st]
            for y in c.a[4]:
                more = []
                for s in rest:
                    for s2, r in eq_forks(ip, s, x, chase(ip, s, y)):
                        s3 = s2.copy()
                        if ip.assume(s3, r, True):
                            out.append((s3, TRUE))
                        if ip.assume(s2, r, False):
                            more.append(s2)
                rest = more
            return out + [(s, FALSE) for s in rest]
    if name == 'checked_add_signed' and p.startswith('core::num::u'):
        k = ip.val(st, chase(ip, st, args[1]))
        if k.op == 'const' and 0 <= k.a[0] < 8:          # as the checked `+`: beyond the width of the type nothing is counted
            return some(mk('bin', 'Add', chase(ip, st, args[0]), k))
    for m in MAPTY:
        if p.startswith(m):
            return mapop(ip, st, ev, name)
    for m in SETTY:
        if p.startswith(m):
            return setop(ip, st, ev, name)
    if name in CHARCLS and (p.startswith('core::char') or p.startswith('core::num::u8')):
        x = ip.val(st, chase(ip, st, args[0]))
        if x.op == 'const':
            return TRUE if CHARCLS[name](x.a[0]) else FALSE
        return mk('pred', name, x)
    return None


def iterator(ip, st, ev, name):
    args = ev.args
    if ev.body is not None and name not in ('next',) and ev.body['crate'] != 'gkmodels-lib' and name not in ADAPT:
        pass
    if name == 'next':
        if ev.body is not None:  # an iterator of the analysed code
            return None
        return iter_next(ip, st, ev, args[0])
    if name == 'next_back':
        return iter_next(ip, st, ev, args[0])
    if name in ('peek', 'peek_mut', 'next_if', 'next_if_eq'):
        return peek(ip, st, ev, name)
    src = args[0]
    v = chase(ip, st, src)
    if name in ADAPT:
        inner = v if is_iter(v) else (src if src.op == 'addr' else to_iter(ip, st, v))
        return ad(name, inner, *args[1:])
    if name in PASS_AD:
        inner = v if is_iter(v) else (src if src.op == 'addr' else to_iter(ip, st, v))
        if name in ('cloned', 'copied'):
            return inner
        if name in ('chain', 'zip'):
            return ad(name, inner, to_iter(ip, st, args[1]))
        return ad(name, inner)
    if not is_iter(v) and ev.body is None and src.op != 'addr':
        src = to_iter(ip, st, v)
    elif src.op == 'addr' and name in CONSUME:
        src = src
    elif is_iter(v):
        src = v
    if name in CONSUME:
        return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__' + name], [src] + args[1:])
    if name in ('collect', 'collect_vec', 'try_collect', 'collect_into'):
        ty = ip.subst_ty(st.frame, ev.targs[-1]) if name == 'collect' and ev.targs else 'alloc::vec::Vec'
        from .interp import head
        h = head(ty)
        if h == 'core::result::Result':
            return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__collect_result'], [src])
        if h == 'core::option::Option':
            return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__collect_option'], [src])
        if h in ('alloc::string::String',):
            b = ip.F.bodies['gkmodels::iter__collect']
            return ip.inline(st, ev, b, [src], wrap=compose(ev.wrap, lambda t: mk('concat', t)))
        if is_iter(v) and v.a[0] == 'iter' and v.a[1] == '' and v.a[4][1] is FALSE:
            return v.a[4][0]
        if getattr(ip.rule, 'COPIES', False) and is_iter(v) and v.a[0] == 'ad' and v.a[1] == 'chain':
            c, d = whole_of(ip, st, v.a[4][0]), chase(ip, st, v.a[4][1])
            x = one_of(ip, st, d)
            if c is not None and x is not None:
                from .interp import seq_add
                return seq_add(c, x)
        return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__collect'], [src])
    if name == 'last':
        c = v.a[4][0] if is_iter(v) and v.a[0] == 'iter' and v.a[1] == '' else v
        return opt_of(ip, st, isempty(c), mk('lastof', c))
    if name in ('join',):
        return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__collect'], [src],
                         wrap=compose(ev.wrap, lambda t, s=chase(ip, st, args[1]): mk('join', t, s)))
    if name in ('count',):
        if is_iter(v) and v.a[0] == 'ad':
            return ip.inline(st, ev, ip.F.bodies['gkmodels::iter__count'], [src])
        return mk('count', v)
    return None


def compose(w, f):
    return f if w is None else (lambda t: w(f(t)))


def opt_of(ip, st, empty, val):
    """None when `empty`, Some(val) otherwise"""
    out = []
    s2 = st.copy()
    if ip.assume(s2, empty, True):
        out.append((s2, NONE))
    if ip.assume(st, empty, False):
        out.append((st, some(val)))
    return out


def mapop(ip, st, ev, name):
    a0 = ev.args[0]
    m = chase(ip, st, a0)
    if name in ('get', 'get_mut', 'get_key_value', 'remove', 'remove_entry'):
        k = chase(ip, st, ev.args[1])
        t = mk('mapget', m, k)
        ip.vadt[t] = ['None', 'Some']
        if name == 'get_mut':
            out = []
            for s2, vn in ip.fork_variant(st, t, 'core::option::Option'):
                out.append((s2, NONE if vn == 'None' else some(mk('addr', ('O', fld(t, '0', 'Some')), ()))))
            return out
        if name == 'get_key_value':
            return [(s2, NONE if vn == 'None' else some(tup(k, fld(t, '0', 'Some'))))
                    for s2, vn in ip.fork_variant(st, t, 'core::option::Option')]
        if name.startswith('remove'):
            a = lastaddr(ip, st, a0)
            if a.op == 'addr':
                ip.store_at(st, a.a[0], a.a[1], mk('mapdel', m, k))
        return t
    if name == 'contains_key':
        t = mk('mapget', m, chase(ip, st, ev.args[1]))
        ip.vadt[t] = ['None', 'Some']
        return mk('isvar', t, 'Some')
    if name == 'insert':
        a = lastaddr(ip, st, a0)
        from .interp import seq_add
        old = mk('mapget', m, chase(ip, st, ev.args[1]))
        if a.op == 'addr':
            ip.store_at(st, a.a[0], a.a[1], seq_add(m, tup(ev.args[1], ev.args[2])))
        ip.vadt[old] = ['None', 'Some']
        return old
    if name in ('len',):
        return length(ip, st, m)
    if name == 'is_empty':
        return isempty(m)
    if name == 'clear':
        return set_to(ip, st, a0, SEQ0)
    return None


def setop(ip, st, ev, name):
    a0 = ev.args[0]
    m = chase(ip, st, a0)
    if name in ('contains',):
        return FALSE if m is SEQ0 else mk('in', chase(ip, st, ev.args[1]), m)
    if name == 'insert':
        x = chase(ip, st, ev.args[1])
        was = FALSE if m is SEQ0 else mk('in', x, m)
        a = lastaddr(ip, st, a0)
        from .interp import seq_add, b_not
        if a.op == 'addr':
            ip.store_at(st, a.a[0], a.a[1], seq_add(m, x))
        return b_not(was)
    if name in ('len',):
        return length(ip, st, m)
    if name == 'is_empty':
        return isempty(m)
    return None


def set_to(ip, st, a, v):
    a = lastaddr(ip, st, a)
    if a.op == 'addr':
        ip.store_at(st, a.a[0], a.a[1], v)
    return UNIT


def n_push(ip, st, ev):
    from .interp import seq_add
    a = lastaddr(ip, st, ev.args[0])
    if a.op != 'addr':
        return None
    v = ip.load(st, *a.a)
    if ev.path.startswith('alloc::string::String'):
        x = chase(ip, st, ev.args[1])
        x2 = ip.val(st, x)
        if v.op == 'str' and x2.op == 'str':
            nv = strc(v.a[0] + x2.a[0])
        elif v.op == 'str' and x2.op == 'const' and ev.name == 'push':
            nv = strc(v.a[0] + chr(x2.a[0]))
        else:
            nv = mk('cat', v, x)
        ip.store_at(st, a.a[0], a.a[1], nv)
        return UNIT
    x = ev.args[-1]
    ip.store_at(st, a.a[0], a.a[1], seq_add(v, x))
    return UNIT


def n_extend(ip, st, ev):
    a = lastaddr(ip, st, ev.args[0])
    if a.op != 'addr':
        return None
    if (ev.targs or ('',))[-1].startswith('core::option::Option') and ip.load(st, *a.a).op not in ('emptymap', 'mapins'):
        return ip.inline(st, ev, ip.F.bodies['gkmodels::vec__extend_opt'], list(ev.args))
    i = to_iter(ip, st, ev.args[1])
    if getattr(ip.rule, 'COPIES', False):
        cur, c = chase(ip, st, ev.args[0]), whole_of(ip, st, i)
        if c is not None and cur.op == 'agg' and cur.a[0] == 'array' and not cur.a[4] or cur.op == 'seq' and cur.a[0] is None and not cur.a[1]:
            if c is not None:
                ip.store_at(st, a.a[0], a.a[1], c)
                return UNIT
    return ip.inline(st, ev, ip.F.bodies['gkmodels::vec__extend'], [ev.args[0], i])


def one_of(ip, st, i):
    """the single item of an iterator over one value, not yet started"""
    if is_iter(i) and i.a[0] == 'iter' and i.a[1] == 'once' and i.a[4][1] is FALSE:
        return chase(ip, st, i.a[4][0])
    if i.op == 'agg' and i.a[0] == 'array' and len(i.a[4]) == 1:
        return i.a[4][0]
    return None


def whole_of(ip, st, i):
    """the collection that an iterator, not yet started, goes through as a whole"""
    i = chase(ip, st, i)
    if is_iter(i) and i.a[0] == 'iter' and i.a[1] == '' and i.a[4][1] is FALSE:
        return i.a[4][0]
    return None


def n_append(ip, st, ev):
    return ip.inline(st, ev, ip.F.bodies['gkmodels::vec__append'], list(ev.args))


def n_eq(ip, st, ev):
    if ev.body is not None:
        return None
    out = eq_forks(ip, st, ev.args[0], ev.args[1])
    if ev.name == 'ne':
        from .interp import b_not
        out = [(s, b_not(r)) for s, r in out]
    return out


def n_cmp(ip, st, ev):
    from .interp import b_lt, b_not
    if ev.body is not None:
        return None
    a, b = [ip.val(st, chase(ip, st, x)) for x in ev.args[:2]]
    # tuples / aggregates are compared lexicographically: left opaque unless scalar
    n = ev.name
    if n == 'lt':
        return b_lt(a, b)
    if n == 'gt':
        return b_lt(b, a)
    if n == 'le':
        return b_not(b_lt(b, a))
    if n == 'ge':
        return b_not(b_lt(a, b))
    if n in ('cmp', 'partial_cmp'):
        if a.op == 'const' and b.op == 'const':
            o = adt('core::cmp::Ordering', 'Less' if a.a[0] < b.a[0] else 'Equal' if a.a[0] == b.a[0] else 'Greater', (), ())
            return o if n == 'cmp' else some(o)
        t = mk('cmp', a, b)
        ip.vadt[t] = ['Less', 'Equal', 'Greater']
        return t if n == 'cmp' else some(t)
    return None


def n_into_iter(ip, st, ev):
    if ev.body is not None:
        return None
    a = ev.args[0]
    if a.op == 'addr':
        v = chase(ip, st, a)
        if is_iter(v):
            return a
        if v.op not in ('agg', 'seq') and ev.callee and 'Iter' in ev.callee.get('selfty', ''):
            return a
    return to_iter(ip, st, a)


def n_callop(ip, st, ev):
    f, tupv = ev.args[0], chase(ip, st, ev.args[1])
    if ev.body is not None and ev.body['kind'] not in ('closure',):
        return None
    if tupv.op == 'agg':
        xs = list(tupv.a[4])
    else:
        xs = [tupv]
    fv = chase(ip, st, f)
    if fv.op == 'agg' and fv.a[0] == 'closure' and f.op == 'addr':
        f = lastaddr(ip, st, f)
    return ip.call_value(st, ev, f, xs, ev.wrap)


def n_branch(ip, st, ev):
    from .interp import head
    h = head(ip.subst_ty(st.frame, ev.callee.get('selfty', '')))
    if h.endswith('option::Option'):
        return ip.inline(st, ev, ip.F.bodies['gkmodels::option__' + ev.name], list(ev.args))
    if h.endswith('result::Result'):
        b = ip.F.bodies['gkmodels::result__' + ev.name]
        if ev.name == 'from_residual':
            # error type conversion: From<E> for F
            r = list(ev.args)
            ty = ip.subst_ty(st.frame, ev.callee.get('selfty', ''))
            return ip.inline(st, ev, ip.F.bodies['gkmodels::result__from_residual_id'], r)
        return ip.inline(st, ev, b, list(ev.args))
    return None


def n_default(ip, st, ev):
    if ev.body is not None:
        return None
    ty = ip.subst_ty(st.frame, ev.callee.get('selfty', '') or (ev.targs[0] if ev.targs else ''))
    return type_default(ip, ty)


def type_default(ip, ty, d=0):
    from .interp import head
    v = default_of(ip, ty)
    if v is not None or d > 4:
        return v
    a = ip.F.adts.get(head(ty))
    if not a:
        return mk('call', 'default<%s>' % ty, (), None)
    if a['kind'] == 'struct':
        fs = a['variants'][0]['fields']
        vals = []
        for f in fs:
            x = type_default(ip, f['ty'], d + 1)
            vals.append(x if x is not None else mk('call', 'default<%s>' % f['ty'], (), None))
        return adt(head(ty), a['variants'][0]['name'], [f['name'] for f in fs], vals)
    return mk('call', 'default<%s>' % ty, (), None)


def n_from(ip, st, ev):
    """From::from / Into::into"""
    from .interp import head
    if ev.body is not None:
        return None
    if ev.name == 'into':
        src, dst = (ev.targs + ['', ''])[:2]
    else:
        dst, src = (ev.targs + ['', ''])[:2]
    hits = [i for i in ip.F.impls if i['trait'] == 'core::convert::From' and head(i['self']) == head(dst)]
    good = []
    for i in hits:
        b = ip.F.bodies.get(i['methods'].get('from'))
        if b is not None and head(b['locals'][1]) == head(src):
            good.append(b)
    if len(good) > 1:
        good = [b for b in good if ip_same_ref(b['locals'][1], src)] or good
    if len(good) > 1:
        good = [b for b in good if dst in (b.get('implself'), )] or good
    if good:
        if ip.in_stack(st.frame, good[0]['id']):
            return None
        import copy
        e2 = copy.copy(ev)
        e2.name, e2.body, e2.path = 'from', good[0], good[0]['path']
        r = ip.rule.on_call(st, e2)
        if r is not None:
            return r
        if ip.rule.opaque(good[0]['path'], good[0]):
            return None
        return ip.inline(st, ev, good[0], list(ev.args))
    a = ev.args[0]
    # standard conversions keep the content
    return chase(ip, st, a)


def ip_same_ref(a, b):
    return a.startswith('&') == b.startswith('&')


def n_tostring(ip, st, ev):
    from .interp import head
    x = chase(ip, st, ev.args[0])
    ty = ip.subst_ty(st.frame, ev.callee.get('selfty', '')) if ev.callee else ''
    h = head(ty)
    if h in ('str', 'alloc::string::String') or x.op in ('str', 'fmt'):
        return x
    return fmt_term([('d', x)])


def n_args_new(ip, st, ev):
    t = chase(ip, st, ev.args[0])
    return mk_args(ip, st, t, ev.args[1]) if len(ev.args) > 1 else t


def n_fmtarg(spec):
    def f(ip, st, ev):
        x = chase(ip, st, ev.args[0])
        return mk('fmtarg', spec, x)
    return f


def n_poll(ip, st, ev):
    a = ev.args[0]
    fut = chase(ip, st, a)
    ready = lambda v: mk('agg', 'adt', 'core::task::poll::Poll', 'Ready', ('0',), (v,))
    if fut.op == 'agg' and fut.a[0] == 'coroutine':
        b = ip.find_body(fut.a[1], st.frame.body)
        if b is not None and not ip.in_stack(st.frame, b['id']) and not ip.rule.opaque(b['path'], b):
            ip.rule.on_call(st, ev)
            return ip.inline(st, ev, b, [fut, mk('opaque', 'cx')], wrap=compose(ev.wrap, ready))
    return ready(mk('await', fut))


def n_replace(ip, st, ev):
    a = lastaddr(ip, st, ev.args[0])
    if a.op != 'addr':
        return None
    old = ip.load(st, *a.a)
    if ev.name == 'take':
        v = type_default(ip, ev.targs[0]) if ev.targs else None
        if v is None:
            return None
    else:
        v = ev.args[1]
    ip.store_at(st, a.a[0], a.a[1], v)
    return old


def n_swap(ip, st, ev):
    a, b = lastaddr(ip, st, ev.args[0]), lastaddr(ip, st, ev.args[1])
    if a.op != 'addr' or b.op != 'addr':
        return None
    x, y = ip.load(st, *a.a), ip.load(st, *b.a)
    ip.store_at(st, a.a[0], a.a[1], y)
    ip.store_at(st, b.a[0], b.a[1], x)
    return UNIT


def n_lock_read(ip, st, ev):
    return fld(chase(ip, st, ev.args[0]), 'data')


def n_lock_write(ip, st, ev):
    return mk('addr', ('O', fld(chase(ip, st, ev.args[0]), 'data')), ())


def n_lock_new(ip, st, ev):
    return mk('agg', 'adt', 'lock_api::rwlock::RwLock', 'RwLock', ('data',), (ev.args[-1],))


def n_starts_with(ip, st, ev):
    s = ip.val(st, chase(ip, st, ev.args[0]))
    pat = ip.val(st, chase(ip, st, ev.args[1]))
    if pat.op == 'agg' and pat.a[0] == 'closure' or pat.op == 'fn':
        return ip.call_value(st, ev, ev.args[1], [mk('firstchar', s)], ev.wrap)
    if s.op == 'str' and pat.op == 'str':
        r = s.a[0].startswith(pat.a[0]) if ev.name == 'starts_with' else s.a[0].endswith(pat.a[0])
        return TRUE if r else FALSE
    if s.op == 'str' and pat.op == 'const':
        c = chr(pat.a[0])
        r = s.a[0].startswith(c) if ev.name == 'starts_with' else s.a[0].endswith(c)
        return TRUE if r else FALSE
    if pat.op == 'const':
        pat = strc(chr(pat.a[0]))
    return mk('call', ev.path, (s, pat), None)


def n_isempty(ip, st, ev):
    return isempty(ip.val(st, chase(ip, st, ev.args[0])))


def n_len(ip, st, ev):
    return length(ip, st, ev.args[0])


def n_index(ip, st, ev):
    if ev.body is not None:
        return None
    v, i = chase(ip, st, ev.args[0]), ip.val(st, chase(ip, st, ev.args[1]))
    ty = ip.subst_ty(st.frame, ev.targs[0]).lstrip('&') if ev.targs else ''
    if ty.replace('mut ', '').startswith(('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')) and ev.name == 'index':
        t = mk('mapget', v, i)
        ip.vadt[t] = ['None', 'Some']
        if st.variant(t) == 'None':
            return None
        ip.set_fact(st, mk('variant', t), True, 'Some')
        return fld(t, '0', 'Some')
    if i.op == 'agg':
        return mk('slice', v, i)
    r = ip.index(st, v, i)
    if ev.name == 'index_mut':
        a = lastaddr(ip, st, ev.args[0])
        if a.op == 'addr':
            return mk('addr', a.a[0], a.a[1] + (('[]', i),))
    return r


def n_get(ip, st, ev):
    v, i = chase(ip, st, ev.args[0]), ip.val(st, chase(ip, st, ev.args[1]))
    if i.op == 'ix0' or i.op == 'ix2' and i.a[0] is v:
        return [(s2, NONE if x is None else some(x)) for s2, x in ip.cursor(st, i, v)]
    if i.op == 'idx' and i.a[0] is v:
        return some(i.a[1])
    t = mk('get', v, i)
    ip.vadt[t] = ['None', 'Some']
    return t


def n_first(ip, st, ev):
    v = chase(ip, st, ev.args[0])
    return opt_of(ip, st, isempty(v), ip.index(st, v, const(0)))


def n_last(ip, st, ev):
    v = chase(ip, st, ev.args[0])
    return opt_of(ip, st, isempty(v), mk('lastof', v))


def n_split_first(ip, st, ev):
    v = chase(ip, st, ev.args[0])
    x = ip.index(st, v, const(0)) if ev.name == 'split_first' else mk('lastof', v)
    return opt_of(ip, st, isempty(v), tup(x, mk('tail' if ev.name == 'split_first' else 'init', v)))


def n_vecpop(ip, st, ev):
    a = lastaddr(ip, st, ev.args[0])
    v = chase(ip, st, ev.args[0])
    front = ev.name == 'pop_front'
    e = isempty(v)
    out = []
    s2 = st.copy()
    if ip.assume(s2, e, True):
        out.append((s2, NONE))
    if v is SEQ0 or not ip.assume(st, e, False):
        return out
    nv = mk('seq', v.a[0], v.a[1], False) if v.op == 'seq' else v if v.op == 'popped' else mk('popped', v)
    if a.op == 'addr':
        ip.store_at(st, a.a[0], a.a[1], nv)
    if v.op == 'seq':
        for x in sorted(v.a[1], key=lambda t: t.id):
            out.append((st.copy(), some(x)))
        if v.a[0] is not None:
            s3 = st.copy()
            x = ip.fresh(s3, mk('item', v.a[0]))
            out.append((s3, some(x)))
        return out
    base = nv.a[0] if nv.op == 'popped' else nv
    x = mk('firstof' if front else 'lastof', base) if v.op != 'popped' else mk('item', base)
    x = ip.fresh(st, x) if v.op == 'popped' else x
    return out + [(st, some(x))]


def n_clear(ip, st, ev):
    return set_to(ip, st, ev.args[0], strc('') if '::String::' in ev.path else SEQ0)


def n_new_uninit(ip, st, ev):
    r = ('B', st.frame.fid, st.bb)
    st.store[r] = mk('undef', r)
    return mk('addr', r, ())


def n_into_vec_box(ip, st, ev):
    a = ev.args[0]
    v = chase(ip, st, a)
    if a.op == 'addr':
        st.store.pop(a.a[0], None)
    for _ in range(2):
        if v.op == 'upd' or v.op == 'fld':
            v = fld(v, 'value')
    return v


def n_utf8(ip, st, ev):
    # Ok(s) / Err: undecided
    x = chase(ip, st, ev.args[0])
    t = mk('call', 'from_utf8', (x,), None)
    s2 = st.copy()
    out = []
    ip.vadt[t] = ['Ok', 'Err']
    for s2, vn in ip.fork_variant(st, t, 'core::result::Result'):
        out.append((s2, ok(mk('utf8', x)) if vn == 'Ok' else err(fld(t, '0', 'Err'))))
    return out


def n_parse(ip, st, ev):
    x = ip.val(st, chase(ip, st, ev.args[0]))
    ty = ip.subst_ty(st.frame, ev.targs[-1]) if ev.targs else ''
    t = mk('call', 'parse', (x, strc(ty)), None)
    ip.vadt[t] = ['Ok', 'Err']
    return t


def n_char_case(ip, st, ev):
    x = ip.val(st, chase(ip, st, ev.args[0]))
    if x.op == 'const':
        c = x.a[0]
        if 'lower' in ev.name and 65 <= c <= 90:
            c += 32
        if 'upper' in ev.name and 97 <= c <= 122:
            c -= 32
        return const(c)
    return mk('case', ev.name, x)


def n_unit(ip, st, ev):
    return UNIT


def n_chain_opt(ip, st, ev):
    return None


NATIVE = {
    'core::cmp::PartialEq::eq': n_eq, 'core::cmp::PartialEq::ne': n_eq,
    'core::cmp::PartialOrd::lt': n_cmp, 'core::cmp::PartialOrd::gt': n_cmp, 'core::cmp::PartialOrd::le': n_cmp,
    'core::cmp::PartialOrd::ge': n_cmp, 'core::cmp::Ord::cmp': n_cmp, 'core::cmp::PartialOrd::partial_cmp': n_cmp,
    'core::iter::traits::collect::IntoIterator::into_iter': n_into_iter,
    'core::ops::function::Fn::call': n_callop, 'core::ops::function::FnMut::call_mut': n_callop,
    'core::ops::function::FnOnce::call_once': n_callop,
    'core::ops::try_trait::Try::branch': n_branch, 'core::ops::try_trait::FromResidual::from_residual': n_branch,
    'core::default::Default::default': n_default,
    'core::convert::From::from': n_from, 'core::convert::Into::into': n_from,
    'alloc::string::ToString::to_string': n_tostring,
    'core::fmt::Arguments::new': n_args_new, 'core::fmt::Arguments::from_str': n_args_new,
    'core::fmt::Arguments::new_const': n_args_new,
    'alloc::fmt::format': lambda ip, st, ev: chase(ip, st, ev.args[0]),
    'core::fmt::rt::Argument::new_display': n_fmtarg('d'), 'core::fmt::rt::Argument::new_lower_hex': n_fmtarg('x'),
    'core::fmt::rt::Argument::new_upper_hex': n_fmtarg('X'), 'core::fmt::rt::Argument::new_debug': n_fmtarg('?'),
    'core::future::future::Future::poll': n_poll,
    'core::mem::replace': n_replace, 'core::mem::take': n_replace, 'core::mem::swap': n_swap,
    'core::mem::drop': n_unit, 'core::mem::forget': n_unit,
    'lock_api::rwlock::RwLock::read': n_lock_read, 'lock_api::rwlock::RwLock::write': n_lock_write,
    'lock_api::rwlock::RwLock::new': n_lock_new,
    'core::str::starts_with': n_starts_with, 'core::str::ends_with': n_starts_with,
    'alloc::vec::Vec::push': n_push, 'alloc::string::String::push': n_push, 'alloc::string::String::push_str': n_push,
    'alloc::collections::vec_deque::VecDeque::push_front': n_push,
    'alloc::collections::vec_deque::VecDeque::push_back': n_push, 'alloc::vec::Vec::insert': n_push,
    'core::iter::traits::collect::Extend::extend': n_extend, 'alloc::vec::Vec::extend_from_slice': n_extend,
    'alloc::vec::Vec::append': n_append,
    'alloc::vec::Vec::is_empty': n_isempty, 'core::slice::is_empty': n_isempty, 'core::str::is_empty': n_isempty,
    'alloc::string::String::is_empty': n_isempty, 'alloc::collections::vec_deque::VecDeque::is_empty': n_isempty,
    'alloc::vec::Vec::len': n_len, 'core::slice::len': n_len, 'core::str::len': n_len, 'alloc::string::String::len': n_len,
    'core::ops::index::Index::index': n_index, 'core::ops::index::IndexMut::index_mut': n_index,
    'core::slice::get': n_get, 'core::str::get': n_get, 'core::slice::get_mut': None,
    'core::slice::split_first': n_split_first, 'core::slice::split_last': n_split_first,
    'core::slice::first': n_first, 'core::slice::last': n_last,
    'alloc::vec::Vec::pop': n_vecpop, 'alloc::collections::vec_deque::VecDeque::pop_front': n_vecpop,
    'alloc::collections::vec_deque::VecDeque::pop_back': n_vecpop,
    'alloc::vec::Vec::clear': n_clear, 'alloc::string::String::clear': n_clear,
    'alloc::boxed::Box::new_uninit': n_new_uninit, 'alloc::boxed::box_assume_init_into_vec_unsafe': n_into_vec_box,
    'alloc::string::String::from_utf8': n_utf8, 'core::str::converts::from_utf8': n_utf8,
    'core::str::parse': n_parse, 'core::str::traits::FromStr::from_str': None,
    'core::num::u8::to_ascii_lowercase': n_char_case, 'core::num::u8::to_ascii_uppercase': n_char_case,
    'core::char::methods::char::to_ascii_lowercase': n_char_case,
}


def n_lsp_new(ip, st, ev):
    n = ev.path.split('::')[-2]
    fs = {'Position': ('line', 'character'), 'Range': ('start', 'end'), 'Location': ('uri', 'range'),
          'Diagnostic': ('range', 'severity', 'code', 'source', 'message', 'related_information', 'tags')}[n]
    t = adt('lsp_types::' + n, n, fs, ev.args)
    ip.rule.on_agg(st, t)
    return t


for _n in ('Position', 'Range', 'Location', 'Diagnostic'):
    NATIVE['lsp_types::%s::new' % _n] = n_lsp_new
def n_multiple(ip, st, ev):
    from .interp import arith, b_eq
    return b_eq(arith('Rem', chase(ip, st, ev.args[0]), chase(ip, st, ev.args[1])), const(0))


for _n in ('usize', 'u8', 'u16', 'u32', 'u64'):
    NATIVE['core::num::%s::is_multiple_of' % _n] = n_multiple
NATIVE['gkmodels::take_copy'] = lambda ip, st, ev: chase(ip, st, ev.args[0])
NATIVE['gkmodels::index_of'] = lambda ip, st, ev: mk('idxof', chase(ip, st, ev.args[0]))
NATIVE = {k: v for k, v in NATIVE.items() if v is not None}
