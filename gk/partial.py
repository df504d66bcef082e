"""Which operations can panic, and when it is known that they do not."""
import re
from .interp import b_lt, b_eq, arith, positive, norm
from .terms import *
from . import natives

RADIX = re.compile(r'core::num::\w+::from_str_radix|core::char::methods::(char::)?(to_digit|from_digit)|core::char::(to|from)_digit')
INDEX = re.compile(r'core::ops::index::Index(Mut)?::index(_mut)?$')
UNWRAP = re.compile(r'(core::(option::Option|result::Result)::(unwrap|expect|unwrap_err|expect_err)|core::panicking::.*|std::rt::.*panic.*|'
                    r'std::panicking::.*|core::option::(unwrap|expect)_failed|core::result::unwrap_failed|core::hint::unreachable_unchecked)$')
PARTIAL = re.compile(
    r'alloc::vec::Vec::(remove|swap_remove|insert|drain|split_off|splice|extend_from_within)$|'
    r'alloc::collections::vec_deque::VecDeque::(insert|swap|drain|split_off|range|range_mut|rotate_left|rotate_right)$|'
    r'core::slice::(split_at|split_at_mut|swap|copy_from_slice|clone_from_slice|chunks|chunks_mut|chunks_exact|rchunks|windows|'
    r'rotate_left|rotate_right|select_nth_unstable|copy_within|array_chunks)$|'
    r'core::str::(split_at|split_at_mut)$|'
    r'alloc::string::String::(remove|insert|insert_str|drain|split_off|replace_range|truncate)$|'
    r'core::iter::traits::iterator::Iterator::(step_by|sum|product)$|'
    r'core::num::\w+::(pow|abs|ilog|ilog2|ilog10|isqrt|div_euclid|rem_euclid|next_power_of_two|div_ceil|next_multiple_of|strict_\w+)$|'
    r'core::cell::RefCell::(borrow|borrow_mut|replace|swap)$|'
    r'core::time::Duration::\w*(sub|add|mul|div|from_secs_f)\w*$|'
    r'core::array::from_fn$|itertools::Itertools::(chunks|tee|step)$|'
    r'tokio::runtime::.*::block_on$')
SAFE_INT = {'line', 'character', 'depth'}


def facts_on(st, v):
    return ((t, f) for t, f in st.facts.items() if any(x is v for x in subs(t)) or t is v)


def minlen(ip, st, v):
    """what is known of the least length of v"""
    v = natives.chase(ip, st, v)
    n = natives.length(ip, st, v)
    if n.op == 'const':
        return n.a[0]
    least = 0
    for t, f in st.facts.items():
        if t.op == 'isempty' and t.a[0] is v and f == ('=', 0):
            least = max(least, 1)
        elif t is n or t.op == 'len' and t.a[0] is v:
            if f[0] == '=' and isinstance(f[1], int):
                least = max(least, f[1])
            else:
                k = 0
                while f[0] == '!' and k in f[1]:
                    k += 1
                least = max(least, k)
        elif t.op == 'lt' and f[0] == '=':
            a, b = t.a
            if f[1] == 1 and b.op == 'len' and b.a[0] is v and a.op == 'const':
                least = max(least, a.a[0] + 1)
            if f[1] == 0 and a.op == 'len' and a.a[0] is v and b.op == 'const':
                least = max(least, b.a[0])
        elif f == ('=', 1) and t.op == 'call' and t.a[0] in ('core::str::starts_with', 'core::str::ends_with') and t.a[1][0] is v and t.a[1][1].op == 'str':
            least = max(least, len(t.a[1][1].a[0].encode()))
    x = ip.val(st, v)
    if x.op == 'str':
        least = max(least, len(x.a[0].encode()))
    return least


def below(ip, st, a, b, strict=True):
    """a < b (a <= b)"""
    a, b = ip.val(st, a), ip.val(st, b)
    if a is b:
        return not strict
    if a.op == 'const' and a.a[0] == 0 and not strict:
        return True
    if ip.truth(st, b_lt(a, b)) or not strict and ip.truth(st, b_lt(b, a)) is False:
        return True
    if a.op == 'const' and b.op == 'len':
        return a.a[0] + strict <= minlen(ip, st, b.a[0])
    if a.op == 'const' and a.a[0] + strict == 1 and (positive(b, st.facts) or ip.truth(st, mk('eq', b, const(0))) is False):
        return True
    if a.op == 'const':
        f = st.facts.get(b)
        k = 0
        while f and f[0] == '!' and k in f[1]:
            k += 1
        if f and f[0] == '!' and k >= a.a[0] + strict:
            return True
        for t, f in st.facts.items():
            if t.op == 'lt' and f[0] == '=':
                if f[1] == 1 and t.a[1] is b and t.a[0].op == 'const' and t.a[0].a[0] + 1 >= a.a[0] + strict:
                    return True
                if f[1] == 0 and t.a[0] is b and t.a[1].op == 'const' and t.a[1].a[0] >= a.a[0] + strict:
                    return True
    if a.op == 'const' and b.op == 'bin' and b.a[0] == 'Add' and any(x.op == 'const' and x.a[0] >= a.a[0] + strict for x in b.a[1:3]):
        return True
    if b.op == 'bin' and b.a[0] == 'Add' and b.a[1] is a and b.a[2].op == 'const' and b.a[2].a[0] >= strict:
        return True
    if a.op == 'bin' and a.a[0] == 'Sub' and a.a[1] is b and a.a[2].op == 'const' and a.a[2].a[0] >= 1:
        return True
    return False


def within(ip, st, v, i, strict=True):
    """i is an index of v (or its length)"""
    v = natives.chase(ip, st, v)
    i = ip.val(st, i)
    if below(ip, st, i, natives.length(ip, st, v), strict):
        return True
    if i.op in ('idx', 'ix1', 'idxof', 'ix2', 'stepidx') and any(x is v for x in subs(i)):
        return True
    # two at a time through a text of even length
    if i.op == 'bin' and i.a[0] == 'Add' and i.a[1] is mk('stepidx', v) and i.a[2].op == 'const' and i.a[2].a[0] <= 2 - strict:
        return even(ip, st, natives.length(ip, st, v))
    return False


def even(ip, st, n):
    return any(ip.truth(st, b_eq(arith(o, n, const(k)), const(0))) for o, k in (('Rem', 2), ('BitAnd', 1))) or \
        ip.truth(st, mk('odd', n)) is False


PLAIN = ('UnparsedNumber.0', 'Ident.0', 'Label.0')       # texts of tokens that the lexer only makes of ASCII characters (C28)


def boundary(ip, st, v, i):
    """i is a position between characters of the text v: its start or end, behind a known prefix, or one that find gave"""
    v, i = natives.chase(ip, st, v), ip.val(st, i)
    if i.op == 'const' and i.a[0] == 0 or i is natives.length(ip, st, v):
        return True
    if v.op == 'fld' and v.a[1] in PLAIN:
        return True
    if i.op == 'const':
        # behind a byte that is a character of its own
        for t, f in st.facts.items():
            if f[0] == '=' and isinstance(f[1], int) and f[1] < 128 and t.op == 'elem' and t.a[1] is const(i.a[0] - 1) and \
                    (t.a[0] is v or t.a[0].op in ('as_bytes', 'bytes') and t.a[0].a[0] is v):
                return True
        for t, f in st.facts.items():
            if f == ('=', 1) and t.op == 'call' and t.a[0] == 'core::str::starts_with' and t.a[1][0] is v and t.a[1][1].op == 'str':
                s = t.a[1][1].a[0]
                if any(len(s[:k].encode()) == i.a[0] for k in range(len(s) + 1)):
                    return True
    return i.op in ('idxof', 'find', 'idx') and any(x is v for x in subs(i)) or \
        i.op == 'fld' and any(x.op == 'call' and x.a[0].split('::')[-1] in ('find', 'rfind') and x.a[1] and x.a[1][0] is v for x in subs(i))


def keyof(m, k):
    """k came out of the map m when that was gone through"""
    x = k.a[0] if k.op == 'fld' and k.a[1] == '0' else k
    x = x.a[0] if x.op == 'old' else x
    if x.op == 'item' and x.a[0].op in ('call', 'keys') and x.a[0].a[0].split('::')[-1] in ('keys', 'into_keys'):
        return x.a[0].a[1][0] is m
    return x.op == 'item' and k.op == 'fld' and x.a[0] is m


def bounds_of(i):
    """(start, end, inclusive) of a range"""
    n = i.a[1].split('::')[-1]
    d = dict(zip(i.a[3], i.a[4]))
    return n, d.get('start'), d.get('end')


def sized(t):
    """numbers that stand for lengths, positions and counters: they stay far below the largest 32 bit number"""
    if t.op == 'const':
        return abs(t.a[0]) < 1 << 20
    if t.op in ('len', 'count', 'idx', 'ix0', 'ix1', 'ix2', 'idxof', 'phi', 'wid', 'isempty', 'addsigned', 'lenutf16'):
        return True
    if t.op == 'bin':
        return t.a[0] in ('Add', 'Sub', 'Rem', 'Div', 'BitAnd', 'Shr') and all(sized(x) for x in t.a[1:] if isinstance(x, T))
    if t.op == 'fld':
        return t.a[1] in SAFE_INT or sized(t.a[0]) if t.a[0].op != 'call' else t.a[1] in SAFE_INT
    if t.op in ('cast', 'old', 'neg'):
        return all(sized(x) for x in t.a if isinstance(x, T))
    if t.op == 'call':
        return t.a[0].split('::')[-1] in ('line', 'character', 'len', 'count', 'min', 'len_utf8', 'len_utf16', 'saturating_sub', 'saturating_add', 'chars_count')
    return False


def partial(ip, st, ev):
    """None, or why the call may panic"""
    p = ev.path
    a = ev.args
    if INDEX.match(p) and ev.body is None:
        v, i = natives.chase(ip, st, a[0]), ip.val(st, natives.chase(ip, st, a[1]))
        ty = (ip.subst_ty(st.frame, ev.targs[0]) if ev.targs else '').lstrip('&').replace('mut ', '')
        if ty.startswith('enum_map::'):
            return None
        if ty.startswith(('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')):
            return None if st.variant(mk('mapget', v, i)) == 'Some' or keyof(v, i) else 'the key may be missing'
        if i.op == 'agg' and 'range' in i.a[1].lower():
            n, lo, hi = bounds_of(i)
            text = ty in ('str', 'alloc::string::String')
            end = natives.length(ip, st, v)
            for x in (lo, hi):
                if x is not None and not within(ip, st, v, x, strict=n.endswith('Inclusive') and x is hi):
                    return 'the range may go beyond the end'
                if x is not None and text and not boundary(ip, st, v, x):
                    return 'the range may cut a character'
            if lo is not None and hi is not None and not below(ip, st, lo, hi, strict=False):
                return 'the range may be reversed'
            return None
        if i.op == 'call' and 'RangeInclusive' in i.a[0]:
            return 'the range may go beyond the end'
        if i.op == 'agg' and i.a[1].endswith('RangeFull') or 'RangeFull' in show(i):
            return None
        return None if within(ip, st, v, i) else 'the index may be out of range'
    if RADIX.match(p):
        r = ip.val(st, natives.chase(ip, st, a[-1]))
        return None if r.op == 'const' and 2 <= r.a[0] <= 36 else 'the radix may be out of range'
    m = PARTIAL.match(p)
    if not m or ev.body is not None and not ev.body['id'].startswith('gkmodels'):
        return None
    n = p.split('::')[-1]
    v = natives.chase(ip, st, a[0]) if a else None
    x = ip.val(st, natives.chase(ip, st, a[1])) if len(a) > 1 else None
    if n in ('remove', 'swap_remove') and '::vec::' in p:
        return None if within(ip, st, v, x) else 'the index may be out of range'
    if n == 'remove':
        return None if within(ip, st, v, x) and boundary(ip, st, v, x) else 'the position may not be one of a character'
    if n in ('insert', 'split_off', 'split_at', 'split_at_mut', 'insert_str', 'truncate', 'rotate_left', 'rotate_right'):
        if n == 'truncate' and '::string::' not in p:
            return None
        good = within(ip, st, v, x, strict=False)
        if good and ('::string::' in p or '::str::' in p):
            good = boundary(ip, st, v, x)
        return None if good else 'the position may be out of range'
    if n in ('drain', 'splice', 'replace_range', 'range', 'range_mut'):
        if x is not None and ('RangeFull' in show(x)):
            return None
        if x is not None and x.op == 'agg':
            k, lo, hi = bounds_of(x)
            good = all(y is None or within(ip, st, v, y, strict=False) and ('::string::' not in p or boundary(ip, st, v, y)) for y in (lo, hi)) \
                and (lo is None or hi is None or below(ip, st, lo, hi, strict=False)) and not k.endswith('Inclusive')
            return None if good else 'the range may go beyond the end'
        return 'the range may go beyond the end'
    if n in ('chunks', 'chunks_mut', 'chunks_exact', 'rchunks', 'windows', 'step_by', 'next_multiple_of', 'div_ceil', 'div_euclid', 'rem_euclid'):
        return None if below(ip, st, const(0), x) else 'the number may be zero'
    if n == 'swap' and len(a) > 2:
        y = ip.val(st, natives.chase(ip, st, a[2]))
        return None if within(ip, st, v, x) and within(ip, st, v, y) else 'an index may be out of range'
    if n in ('sum', 'product'):
        return None if n == 'sum' else 'the product may overflow'
    return 'it may panic'


def assertion(ip, st, t, c):
    """None, or why the check that the compiler put there may fail"""
    r = ip.truth(st, c)
    if r is not None:
        return None       # a check that fails is reported as a panic
    m = t['m']
    e = bool(t['e'])
    while c.op == 'not':
        c, e = c.a[0], not e
    if m == 'bounds':
        if c.op == 'lt' and e:
            i, n = c.a
            if n.op == 'len' and within(ip, st, n.a[0], i) or below(ip, st, i, n):
                return None
        return 'the index may be out of range'
    if m in ('div0', 'rem0'):
        if c.op == 'eq' and below(ip, st, const(0), c.a[0]):
            return None
        return 'the divisor may be zero'
    if c.op == 'ovf':
        o, a, b, ty = c.a
        bits = re.search(r'[ui](\d+|size)', str(ty))
        wide = bits and (bits.group(1) == 'size' or int(bits.group(1)) >= 32)
        if o == 'Add' and wide and (sized(a) and sized(b) or bits.group(1) == 'size' and any(x.op == 'const' and sized(x) for x in (a, b))):
            return None
        if o == 'Sub' and str(ty).strip('(').startswith('i') and sized(a) and sized(b):
            return None
        if o == 'Sub' and below(ip, st, b, a, strict=False):
            return None
        return 'the %s may overflow (%s, %s)' % ({'Add': 'sum', 'Sub': 'difference', 'Mul': 'product'}.get(o, o), show(a)[:60], show(b)[:60])
    return 'the check may fail (%s)' % m


class Judge:
    """what was found at the operations that were reached"""

    def __init__(self):
        self.visited, self.failed, self.bodies = set(), {}, set()


def judge_of(F):
    return F.__dict__.setdefault('_judge', Judge())


def here(ip, st):
    """(body, block) of the code of the workspace that is executed"""
    fr, bb = st.frame, st.bb
    while fr.body['crate'] == 'gkmodels-lib' and fr.up is not None:
        bb = ip.fidinfo[fr.fid][2]
        fr = fr.up
    return fr.body['id'], bb


def note(judge, ip, st, why):
    k = here(ip, st)
    judge.visited.add(k)
    if why:
        judge.failed.setdefault(k, why)


def on_std(judge, ip, st, ev):
    if UNWRAP.search(ev.path):
        note(judge, ip, st, None)
    elif INDEX.match(ev.path) or RADIX.match(ev.path) or PARTIAL.match(ev.path):
        note(judge, ip, st, partial(ip, st, ev))
