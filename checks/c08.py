"""Data is written before the index entries that refer to it; positions are taken at the end of the file."""
import re
from guards import Guards
from streams import Streams, fstream
import flow

LEVEL = 'other'


def check(ctx):
    m = ctx.m
    S = Guards(m)
    T = Streams(m, S)
    ctx.rule('R1: a file position is asked for only where the stream is known to be at its end: a seek to the end (or opening at the end) on every path, with no other operation on that stream in between')
    ctx.rule('R2: a value derived from the position of a stream is written to another stream, or handed to a function that records it, only after that stream has been written and flushed since')
    ctx.rule('R3: a position of a stream is never recorded in the stream itself')
    for f in m.fn.values():
        if f.rawcfg is None:
            continue
        tells = [i for i in f.all() if (T.direct(f, i) or ('',))[0] == 'tell']
        if tells:
            positions(ctx, m, S, T, f, tells)
        src = list(tells)
        # helpers that return a position of a stream they are given
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'MCall') and f.callee(i) and f.callee(i).get('src'):
                if any(op == 'tell' for op, p, must in T.ops(f, i)) and returns_position(m, S, T, f, i):
                    src.append(i)
        if src:
            recorded(ctx, m, S, T, f, src)
    ctx.require('positions taken', 3)
    ctx.require('recorded positions', 3)


def returns_position(m, S, T, f, i):
    for t in m.targets(f, i):
        g = m.fn.get(t)
        if g is None or g.rawcfg is None:
            continue
        tells = [j for j in g.all() if (T.direct(g, j) or ('',))[0] == 'tell']
        tv = tainted(g, tells)
        for j in g.all():
            if g.n(j)['k'] == 'Return' and g.n(j).get('c') and touches(g, g.n(j)['c'][0], tells, tv):
                return True
    return False


def positions(ctx, m, S, T, f, tells):
    g = f.cfg
    by = {}
    for p, x in enumerate(g.payload):
        if x and x[0] == 's':
            by.setdefault(p, x[1])
    start = set()
    if f.inits:
        for t in f.inits:
            if t.get('field') and t.get('i') is not None and t['i'] >= 0 and any(re.search(r'\bate\b', f.expr(t['i'], 12)) for _ in (0,)) and fstream(m.field(t['field'])['t']):
                start.add('this.' + t['field'])

    def transfer(p, x, s):
        if not x or x[0] != 's':
            return s
        i = x[1]
        n = f.n(i)
        add, rem = set(), set()
        if n['k'] == 'Decl':
            for v in n['vars']:
                if fstream(v['t']) and v.get('i') is not None and v['i'] >= 0 and re.search(r'\bate\b', f.expr(v['i'], 12)):
                    add.add('v' + str(v['d']))
        d = T.direct(f, i)
        for op, q, must in T.ops(f, i):
            if q is None:
                rem |= set(s)
            elif op == 'end' and must:
                add.add(q)
                # the position of get and put area of a file is the same
            elif op in ('seek', 'read', 'write', 'use', 'end'):
                rem.add(q)
        if (d is None or d[0] != 'tell') and n['k'] in ('MCall', 'Call', 'OpCall', 'Ctor'):
            ps, fs = S.mutated(f, i)
            for q in s:
                if not (d and d[1] == q) and any(S.mentions(q, mp) and mp != q for mp in ps):
                    rem.add(q)
        return (s - frozenset(rem)) | frozenset(add)
    IN, OUT = g.forward(frozenset(start), transfer, lambda a, b: a & b, handler_init=frozenset())
    for i in tells:
        ctx.count('positions taken')
        q = T.direct(f, i)[1]
        p = g.point(i)
        if p is None or p not in IN:
            continue
        if q is None or q not in IN[p]:
            ctx.violation('position:%s:%s' % (f.qn, short(q)), f.loc(i), '%s takes the position of %s without moving it to the end before' % (f.qn, short(q)), [])


def tainted(f, src):
    """locals computed from the nodes in src"""
    tv = {}
    ch = True
    while ch:
        ch = False
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i') is not None and v['i'] >= 0:
                        s = touches(f, v['i'], src, tv)
                        if s and not s <= tv.get(v['d'], set()):
                            tv.setdefault(v['d'], set()).update(s)
                            ch = True
            elif flow.assign(f, i) is not None and len(n['c']) == 2:
                t = f.n(flow.strip(f, n['c'][0]))
                if t['k'] == 'Ref':
                    s = touches(f, n['c'][1], src, tv)
                    if s and not s <= tv.get(t['d'], set()):
                        tv.setdefault(t['d'], set()).update(s)
                        ch = True
    return tv


def touches(f, i, src, tv):
    """the source nodes on which expression i depends by value"""
    out = set()
    st = [i]
    while st:
        x = st.pop()
        n = f.n(x)
        if x in src:
            out.add(x)
            continue
        if n['k'] == 'Ref' and n.get('d') in tv:
            out |= tv[n['d']]
        if n['k'] in ('Sizeof', 'SizeOf', 'Lambda'):
            continue
        st.extend(c for c in n.get('c', []) if c is not None and c >= 0)
    return out


def recorded(ctx, m, S, T, f, src):
    g = f.cfg
    tv = tainted(f, src)
    spath = {}
    for s in src:
        d = T.direct(f, s)
        spath[s] = {d[1]} if d else {p for op, p, _ in T.ops(f, s) if op == 'tell'}
    wpts, fpts = {}, {}
    for i in f.all():
        if f.n(i)['k'] in ('MCall', 'Call', 'OpCall', 'Ctor'):
            for op, q, must in T.ops(f, i):
                if q is None or not must:
                    continue
                p = g.point(i)
                if op in ('write', 'use'):
                    wpts.setdefault(q, set()).add(p)
                if op == 'flush':
                    fpts.setdefault(q, set()).add(p)
    for i in f.all():
        n = f.n(i)
        k = n['k']
        if k not in ('MCall', 'Call', 'OpCall', 'Ctor') or i in src:
            continue
        d = T.direct(f, i)
        args = f.args(i) if k != 'OpCall' else n['c'][1:]
        dep = set()
        for a in args:
            if a is not None and a >= 0:
                dep |= touches(f, a, src, tv)
        if not dep:
            continue
        dst = None
        if d and d[0] == 'write':
            dst = d[1]
        elif d:
            continue
        elif k in ('MCall', 'Call') and f.callee(i) and f.callee(i).get('src'):
            ds = {q for op, q, _ in T.ops(f, i) if op in ('write', 'use')}
            dst = sorted(str(x) for x in ds)[0] if ds else ''
        else:
            continue
        for s in dep:
            for A in spath[s]:
                ctx.count('recorded positions')
                if A == dst:
                    ctx.violation('self:%s:%s' % (f.qn, short(A)), f.loc(i), '%s records a position of %s in that file itself' % (f.qn, short(A)), [])
                    continue
                t = g.point(i)
                o = g.point(s)
                if t is None or o is None:
                    continue
                W = {p for p in wpts.get(A, ()) if p is not None and p != t}
                if t in g.reach(o, avoid=W):
                    ctx.violation('order:%s:%s' % (f.qn, short(A)), f.loc(i), '%s records a position of %s before the data has been written there' % (f.qn, short(A)), ['position taken at %s' % f.loc(s)])
                    continue
                F = {p for p in fpts.get(A, ()) if p is not None}
                if any(t in g.reach(w, avoid=F) for w in W if w not in F and w in g.reach(o) and t in g.reach(w)):
                    ctx.violation('flush:%s:%s' % (f.qn, short(A)), f.loc(i), '%s records a position of %s while the data may still be buffered' % (f.qn, short(A)), ['position taken at %s' % f.loc(s)])


def short(q):
    return re.sub(r'[\w:()<>, ]*::', '', re.sub(r'@\d+:\d+(#\d+)?', '', q or 'an unknown stream'))[:100]
