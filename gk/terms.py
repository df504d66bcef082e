"""Hash-consed terms: the abstract values of the dataflow analysis (provenance + shape)."""


class T:
    __slots__ = ('op', 'a', 'subs_', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.subs_ = None
        t.id = len(_tab)
        _tab[k] = t
    return t


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def subs(t):
    """all subterms, including t"""
    s = t.subs_
    if s is None:
        s = {t}
        for k in kids(t):
            s |= subs(k)
        t.subs_ = s = frozenset(s)
    return s


def map_kids(t, f):
    def g(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(g(y) for y in x)
        return x
    return mk(t.op, *[g(x) for x in t.a])


def rename(t, m, memo):
    """replace subterms by the mapping m"""
    if t in m:
        return m[t]
    if not (subs(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is None:
        r = map_kids(t, lambda x: rename(x, m, memo))
        memo[t] = r
    return r


# ------------------------------------------------------------------ constructors
UNIT = mk('agg', 'tuple', '', '', (), ())
TRUE = mk('const', 1)
FALSE = mk('const', 0)


def const(v):
    if v is True:
        v = 1
    elif v is False:
        v = 0
    return mk('const', v)


def strc(s):
    return mk('str', s)


def adt(name, variant, fields, vals):
    return mk('agg', 'adt', name, variant, tuple(fields), tuple(vals))


def tup(*vals):
    return mk('agg', 'tuple', '', '', tuple(str(i) for i in range(len(vals))), tuple(vals))


def some(x):
    return adt('core::option::Option', 'Some', ('0',), (x,))


NONE = adt('core::option::Option', 'None', (), ())


def ok(x):
    return adt('core::result::Result', 'Ok', ('0',), (x,))


def err(x):
    return adt('core::result::Result', 'Err', ('0',), (x,))


# seq(base, elements, definitely-non-empty)
SEQ0 = mk('seq', None, frozenset(), False)


def is_agg(t, name=None, variant=None):
    return t.op == 'agg' and (name is None or t.a[1] == name) and (variant is None or t.a[2] == variant)


def fld(t, name, variant=''):
    """project field `name` (of enum variant `variant`, '' for structs/tuples)"""
    if t.op == 'agg':
        if t.a[3] and name in t.a[3] and (not variant or t.a[2] == variant or t.a[0] != 'adt'):
            return t.a[4][t.a[3].index(name)]
        return mk('bot', 'nofield', name)
    if t.op == 'upd':
        key = (variant + '.' + name) if variant else name
        for k, v in t.a[1]:
            if k == key:
                return v
        return fld(t.a[0], name, variant)
    return mk('fld', t, (variant + '.' + name) if variant else name)


def agg_set(t, name, variant, v):
    if t.op == 'agg' and name in t.a[3]:
        i = t.a[3].index(name)
        vals = list(t.a[4])
        vals[i] = v
        return mk('agg', t.a[0], t.a[1], t.a[2], t.a[3], tuple(vals))
    key = (variant + '.' + name) if variant else name
    base, ups = (t.a[0], dict(t.a[1])) if t.op == 'upd' else (t, {})
    ups[key] = v
    if v is fld(base, name, variant):
        del ups[key]
    if not ups:
        return base
    return mk('upd', base, tuple(sorted(ups.items())))


def short(p):
    import re
    p = re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', p))
    return '::'.join(p.split('::')[-2:])


def show(t, d=0):
    if d > 7:
        return '…'
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    o = t.op
    if o == 'const':
        return str(t.a[0])
    if o == 'str':
        return repr(t.a[0])
    if o == 'agg':
        n = (t.a[1].split('::')[-1] if t.a[1] else t.a[0])
        if t.a[2] and t.a[2] != n:
            n += '::' + t.a[2]
        return n + '(' + ', '.join('%s' % s(v) for v in t.a[4]) + ')'
    if o == 'fld':
        return '%s.%s' % (s(t.a[0]), t.a[1])
    if o == 'arg':
        return str(t.a[0])
    if o == 'call':
        return '%s(%s)' % (short(t.a[0]), ', '.join(s(x) for x in t.a[1]))
    if o == 'upd':
        return '%s{%s}' % (s(t.a[0]), ', '.join('%s=%s' % (k, s(v)) for k, v in t.a[1]))
    if o == 'seq':
        return '[%s%s]' % ((s(t.a[0]) + '++') if t.a[0] is not None else '', ', '.join(sorted(s(x) for x in t.a[1])))
    if o == 'bin':
        return '(%s %s %s)' % (s(t.a[1]), t.a[0], s(t.a[2]))
    if o == 'addr':
        r, p = t.a
        return '&mut ' + (s(r[1]) if r[0] == 'O' else '_%s' % (r[2],)) + ''.join('.' + str(x[0]) for x in p)
    if o == 'phi':
        return 'phi%s' % (t.id,)
    if o == 'havoc':
        return 'havoc%s' % (t.id,)
    if o == 'fmt':
        return 'fmt"%s"' % ''.join(x if isinstance(x, str) else '{' + s(x[1]) + '}' for x in t.a[0])
    return '%s(%s)' % (o, ', '.join(s(x) if isinstance(x, T) else repr(x)[:40] for x in t.a))
