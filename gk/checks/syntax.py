"""The checks on the syntax: what the units of the lexer (lex.py), the parser (parse.py) and its leaves (cells.py) found."""
from .cells import *
from .lex import lexer, pseudo
from .project import kept

SILENT = r'^\w+:(lost|bits|early|kind|other|list|expression)\b'      # something is left out

UNITFLOORS = {
    ('payload', 'item:Property'): 40, ('payload', 'item:Node'): 10, ('payload', 'item:DeletedNode'): 3, ('payload', 'item:DeletedProperty'): 3,
    ('payload', 'ret:Err'): 60, ('payload', 'recursion'): 8, ('file', 'item'): 1, ('values', 'item'): 4, ('value', 'item:cell'): 20,
    ('value', 'item:bytes'): 6, ('value', 'value:String'): 1, ('value', 'value:Reference'): 1, ('primary', 'element:Root'): 1,
    ('primary', 'element:ReferencedNode'): 1, ('primary', 'element:Include'): 1, ('primary', 'element:Memreserve'): 1,
    ('primary', 'element:DeletedNode'): 1, ('primary', 'element:OmitIfNoRef'): 1, ('primary', 'element:DtsHeader'): 1,
    ('primary', 'element:Plugin'): 1, ('semi', 'ret:Ok'): 3}
LEAFFLOORS = {
    ('cell', 'number:one'): 1, ('cell', 'number:hex'): 1, ('cell', 'number:oct'): 1, ('cell', 'number:dec'): 1, ('mem', 'number:hex'): 1,
    ('cell', 'cell:Reference'): 1, ('cell', 'cell:Expression'): 1, ('bytes', 'bytes:good'): 2, ('bytes', 'bytes:odd'): 1, ('bytes', 'bytes:bad'): 1,
    ('reference', 'ret:Simple'): 1, ('reference', 'ret:Path'): 2, ('nodename', 'ret'): 2, ('path', 'item'): 3,
    ('peek', 'peek'): 2, ('peek', 'next'): 2, ('peek', 'lexer'): 2, ('new', 'ret'): 1}


def take(ctx, aspect, parts=('parser', 'leaves')):
    for part in parts:
        f, n, c2 = parser(ctx) if part == 'parser' else leaves(ctx)
        ctx.obligations += c2.obligations
        ctx.analysed |= c2.analysed
        for k, msg in sorted(f.get(aspect, {}).items()):
            ctx.violate('%s:%s' % (aspect, k), msg)
        anchors = [m for a in f.values() for k, m in a.items() if k.startswith('anchor:') or ':anchor:' in k]
        if aspect not in ('tree', 'names'):
            for m in anchors:
                ctx.violate('anchor:' + m.split()[-3], m)
        for k, v in (UNITFLOORS if part == 'parser' else LEAFFLOORS).items():
            ctx.floor('%s %s' % k, n.get(k, 0), v)
        ctx.notes.append('%s: %d abstract steps; %s' % (part, sum(v for k, v in n.items() if k[0] == 'steps'),
                         ', '.join('%s %s %d' % (k[0], k[1], v) for k, v in sorted(n.items()) if k[0] != 'steps')))


@check('C30')
def c30(ctx):
    """the tree is what is written"""
    take(ctx, 'tree')
    f, n, c2 = leaves(ctx)
    for k, msg in sorted(f.get('peek', {}).items()):
        ctx.violate('peek:' + k, msg)


@check('C03')
def c03(ctx):
    """errors are returned or reported; what is not a production is reported"""
    take(ctx, 'errors')
    for f, n, c2 in (parser(ctx), leaves(ctx)):
        for a, pat in (('tree', SILENT), ('semicolon', r':(silent|Include|skipped)')):
            for k, msg in sorted(f.get(a, {}).items()):
                if re.search(pat, k):
                    ctx.violate('silent:' + k, msg)
    kept(ctx)


@check('C22')
def c22(ctx):
    take(ctx, 'names')


@check('C23')
def c23(ctx):
    take(ctx, 'alphabet', ('leaves',))


@check('C24')
def c24(ctx):
    take(ctx, 'number', ('leaves',))


@check('C31')
def c31(ctx):
    take(ctx, 'rules', ('parser',))


@check('C41')
def c41(ctx):
    take(ctx, 'semicolon', ('parser',))
    pseudo(ctx)


@check('C07')
def c07(ctx):
    take(ctx, 'depth')
    recursion(ctx)


def cycles(nodes, edges):
    """the strongly connected components that have a cycle (Tarjan, iterative enough for these sizes)"""
    idx, low, stack, on, out = {}, {}, [], set(), []

    def go(v):
        idx[v] = low[v] = len(idx)
        stack.append(v)
        on.add(v)
        for w in sorted(edges.get(v, ())):
            if w not in nodes:
                continue
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            if len(c) > 1 or v in edges.get(v, ()):
                out.append(c)
    for v in sorted(nodes):
        if v not in idx:
            go(v)
    return out


def recursion(ctx):
    """no cycle of calls in the lexer and the parser but the guarded one through the body of a node"""
    from .effects import Graph
    from . import panics
    F = ctx.F
    U = units(F)
    if not ctx.anchor('payload' in U and 'file' in U, 'functions of the parser'):
        return
    g = Graph(F)
    seen = g.reach([b['id'] for b in F.bodies.values() if b['crate'] == 'ginko-lib' and b['file'].endswith(panics.INPUT) and 'test' not in b['path'].split('::')])
    # conversions, comparisons and the like of the syntax tree are called on parts of fixed depth
    nodes = {x for x in seen if F.bodies[x]['crate'] == 'ginko-lib' and x not in F.derived and
             (F.bodies[x]['file'].endswith(panics.INPUT) or not (F.bodies[x]['path'].startswith('<') or F.bodies[x]['path'].endswith(('HasSpan::start', 'HasSpan::end'))))}
    guard = U['payload']['id']
    inside = {guard} | {b['id'] for b in F.bodies.values() if b.get('parent') == guard}
    for c in cycles(nodes - inside, g.edges):
        p = sorted(norm(F.bodies[x]['path']) for x in c)
        ctx.violate('recursion:' + p[0], 'a recursion that no counter limits: ' + ' -> '.join(p)[:300])
    ctx.obligations += len(nodes)
    ctx.saw(*[F.bodies[x] for x in nodes])
    ctx.floor('functions of lexer and parser in the call graph', len(nodes), 50)
    ctx.notes.append('call graph: no cycle without the body of a node among %d functions' % len(nodes))


def lexed(ctx, aspect):
    f, n = lexer(ctx)
    ctx.obligations += n.get('obligations', 0)
    for k, msg in sorted(f.get(aspect, {}).items()):
        ctx.violate('lexer:%s:%s' % (aspect, k), msg)
    ctx.floor('tokens', n.get('token', 0), 300)
    ctx.notes.append('lexer: tokens on %d abstract traces (%d steps)' % (n.get('token', 0), n.get('steps', 0)))


@check('C05')
def c05(ctx):
    take(ctx, 'progress')
    lexed(ctx, 'progress')


@check('C06')
def c06(ctx):
    take(ctx, 'panic')
    lexed(ctx, 'panic')
    from . import panics
    panics.report(ctx, lambda b: b['file'].endswith(panics.INPUT), 25)
