"""Imports and searches visit every detail level and every tile of the requested range."""
import itertools
import re
import flow
from guards import Guards
from ranks import Interp, LV, Undecided, Thrown, clean

LEVEL = 'other'


def lin(f, i, stop=(), depth=0):
    """linear form ({term: coefficient}, constant) of an integer expression; a term is a variable or a member of one"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Int':
        return {}, int(n['v'])
    if n['k'] == 'Bin' and n['op'] in ('+', '-'):
        a, b = lin(f, n['c'][0], stop, depth), lin(f, n['c'][1], stop, depth)
        if a is None or b is None:
            return None
        s = 1 if n['op'] == '+' else -1
        t = dict(a[0])
        for k, c in b[0].items():
            t[k] = t.get(k, 0) + s * c
        return {k: c for k, c in t.items() if c}, a[1] + s * b[1]
    if n['k'] == 'Mem' and n.get('c'):
        b = flow.strip(f, n['c'][0])
        bn = f.n(b)
        if bn['k'] == 'Ref':
            return {('m', bn['d'], n['n'], f.typ(b)): 1}, 0
        if bn['k'] == 'Mem' and bn.get('c'):
            return {('m', f.expr(b), n['n'], f.typ(b)): 1}, 0
        if bn['k'] == 'This':
            return {('m', 'this', n['n'], ''): 1}, 0
        return None
    if n['k'] == 'Ref' and 'd' in n:
        if n['d'] not in stop and depth < 6:
            j = flow.init_of(f, n['d'])
            if j is not None:
                r = lin(f, j, stop, depth + 1)
                if r is not None:
                    return r
        return {('v', n['d']): 1}, 0
    return None


PAIRS = {'start': 'end', 'tileX': 'tileX', 'tileY': 'tileY'}


def rangeterm(t):
    """('m', object, field, type) of a level range or tile position"""
    if len(t) != 4 or t[0] != 'm':
        return None
    ty = clean(t[3]).rsplit('::', 1)[-1]
    if t[2] in ('start', 'end') and ty in ('LodRange', 'Zoom'):
        return 'level'
    if t[2] in ('tileX', 'tileY') and ty == 'QuadKey':
        return 'tile'
    return None


class Loop:
    def __init__(self, f, var, first, kind):
        self.f, self.var, self.first, self.kind = f, var, first, kind
        self.conds = []       # (condition node, polarity that continues, last term, offset, direction)


def loops(f):
    """loops whose variable starts at one end of a level range or tile rectangle"""
    out = []
    asg = {}
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Un' and n['op'] in ('++', '--'):
            t = flow.strip(f, n['c'][0])
            if f.n(t)['k'] == 'Ref':
                asg.setdefault(f.n(t)['d'], []).append((i, 1 if n['op'] == '++' else -1))
        elif flow.assign(f, i) is not None:
            t = flow.strip(f, flow.assign(f, i))
            if f.n(t)['k'] == 'Ref':
                step = None
                if n.get('op') in ('+=', '-='):
                    v = lin(f, n['c'][1])
                    if v is not None and not v[0]:
                        step = v[1] if n['op'] == '+=' else -v[1]
                elif n.get('op') == '=':
                    v = lin(f, n['c'][1], (f.n(t)['d'],))
                    if v is not None and v[0] == {('v', f.n(t)['d']): 1}:
                        step = v[1]
                asg.setdefault(f.n(t)['d'], []).append((i, step))
    for i in f.all():
        if f.n(i)['k'] != 'Decl':
            continue
        for v in f.n(i)['vars']:
            if v['d'] not in asg or v.get('i') is None or v['i'] < 0:
                continue
            a = lin(f, v['i'])
            if a is None or len(a[0]) != 1:
                continue
            t, c = next(iter(a[0].items()))
            k = rangeterm(t)
            if c != 1 or k is None:
                continue
            L = Loop(f, v['d'], (t, a[1]), k)
            L.steps = asg[v['d']]
            L.name = v['n']
            L.decl = i
            g = f.cfg
            seen = set()
            for p in range(len(g.succ)):
                for q, lab in g.succ[p]:
                    if not lab or lab[0] == 'case' or lab[0] in seen or f.n(lab[0])['k'] == 'RFor':
                        continue
                    cn, pol = flow.normal(None, f, lab[0], True)
                    n = f.n(cn)
                    if n['k'] != 'Bin' or n['op'] not in ('<', '<=', '>', '>=', '!='):
                        continue
                    x, y = lin(f, n['c'][0], (v['d'],)), lin(f, n['c'][1], (v['d'],))
                    if x is None or y is None:
                        continue
                    d = dict(x[0])
                    for kk, cc in y[0].items():
                        d[kk] = d.get(kk, 0) - cc
                    d = {kk: cc for kk, cc in d.items() if cc}
                    vc = d.pop(('v', v['d']), 0)
                    if abs(vc) != 1 or len(d) != 1:
                        continue
                    tt, tc = next(iter(d.items()))
                    if tc != -vc or rangeterm(tt) != k:
                        continue
                    # vc*(var - tt) + const op 0
                    seen.add(lab[0])
                    const = x[1] - y[1]
                    op = n['op']
                    if vc < 0:
                        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
                        const = -const
                    # var - tt + const op 0 when the condition node is true
                    L.conds.append((lab[0], pol, tt, const, op))
            out.append(L)
    return out


def edges_of(f, cond, pol):
    g = f.cfg
    return [(p, q, lab) for p in range(len(g.succ)) for q, lab in g.succ[p] if lab and lab[0] == cond and lab[1] == pol]


def iscancel(f, facts, a, ap):
    n = f.n(a)
    return n['k'] in ('MCall', 'Call') and ap and 'isCancelled' in (f.cqn(a) or '')


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('a loop that starts at one end of a range of detail levels or of a tile rectangle goes one by one to the other end, that end included, and leaves early only when the request is cancelled')
    ctx.rule('the tile rectangle of an area spans from the tile of its western to that of its eastern edge, and from the tile of its northern to that of its southern edge; every tile of it that intersects the area is handed to the visitor')
    ctx.rule('an element is handed on for every visited level and tile: a level is left out only because of the style, a tile only because of the filter of the import')
    ctx.rule('the filter of an import accepts every element that overlaps the requested area, none that is apart from it, and for the import of one tile only that tile')
    ctx.rule('a search asks every registered store that has data')
    visitors = set()
    tileloops = {}
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        for L in loops(f):
            where = f.loc(L.decl)
            nm = re.sub(r'<.*', '', f.qn).rsplit('::', 1)[-1]
            key = '%s:%s' % (nm, L.name)
            if not L.conds:
                ctx.count('loops outside the vocabulary')
                continue
            ctx.count('level loops' if L.kind == 'level' else 'tile loops')
            t, off = L.first
            bad = None
            steps = {s for _, s in L.steps}
            cond, pol, tt, const, op = L.conds[0]
            up = tt[2] == 'end' if L.kind == 'level' else None
            if L.kind == 'level':
                if tt[2] == t[2] or tt[1] != t[1]:
                    bad = 'runs from the %s to the %s of a range' % (t[2], tt[2])
            else:
                if tt[2] != t[2]:
                    bad = 'runs from a column to a row'
                up = steps == {1}
            goes = pol      # condition true continues
            # last value reached: var <= tt + k  (up) / var >= tt + k (down)
            o = op if goes else {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}.get(op)
            last = None
            # var - tt + const o 0
            if up:
                last = {'<': -const - 1, '<=': -const, '!=': -const - 1}.get(o)
            else:
                last = {'>': -const + 1, '>=': -const, '!=': -const + 1}.get(o)
            if not bad:
                if steps != {1 if up else -1}:
                    if None in steps or len(steps) != 1:
                        ctx.count('loops outside the vocabulary')
                        continue
                    bad = 'does not go one by one'
                elif off:
                    bad = 'starts %+d from the first' % off
                elif last is None:
                    # the condition leaves the loop in the wrong direction: not a bound of this loop
                    ctx.count('loops outside the vocabulary')
                    continue
                elif last:
                    bad = 'ends %+d from the last' % last if (last < 0) == bool(up) else 'goes beyond the last'
                    if L.kind == 'tile' and ((last > 0) == bool(up)):
                        bad = None
            if bad:
                ctx.violation('ends:' + key, where, 'the loop over %s in %s %s' % ('levels' if L.kind == 'level' else 'tiles', nm, bad))
                continue
            # leaving early
            body = [q for p, q, lab in edges_of(f, cond, goes)]
            cps = {p for p, q, lab in edges_of(f, cond, goes)}
            # points evaluating the condition: walk back to its first sub-expression is not needed, its last point is enough
            es = flow.edges(S, f, iscancel)
            g = f.cfg
            for b in body:
                r = g.reach(b, avoid=cps, edge_ok=lambda p, q, l: (p, q, l) not in es)
                if g.exit in r:
                    ctx.violation('early:' + key, where, 'the loop over %s in %s can be left before the last one' % ('levels' if L.kind == 'level' else 'tiles', nm))
                    break
            if L.kind == 'tile':
                tileloops.setdefault(f.id, []).append((L, tt, body, cps, up))
                corner(ctx, m, f, L, t, tt, up, key)
            else:
                ctx.sample('%s: %s from %s to %s' % (f.loc(L.decl), L.name, t[2], tt[2]))
                levels(ctx, m, S, f, L, body, cps, key)
    # every tile is visited
    for fid, Ls in sorted(tileloops.items()):
        f = m.fn[fid]
        nm = re.sub(r'<.*', '', f.qn).rsplit('::', 1)[-1]
        # innermost: its condition is reached from inside the other's body
        L, tt, body, cps, up = Ls[-1]
        calls = visits(m, S, f)
        if not calls:
            ctx.count('tile loops without visitor')
            continue
        ctx.count('tile visits')
        ok = apart(S, f)
        visitors.add(fid)
        for b in body:
            r = f.cfg.reach(b, avoid=calls, edge_ok=lambda p, q, l: (p, q, l) not in ok) if b not in calls else set()
            if r & cps or f.cfg.exit in r:
                ctx.violation('tile:' + nm, f.loc(), 'a tile of the rectangle which intersects the area can be left out')
    handed(ctx, m, S)
    filters(ctx, m)
    stores(ctx, m, S)
    ctx.require('level loops', 1)
    ctx.require('tile loops', 2)


def visits(m, S, f, depth=0):
    """points of f where the visitor is called with a tile, or a function which calls it unless the tile is apart from the area"""
    calls = set()
    for i in f.all():
        n = f.n(i)
        if n['k'] not in ('OpCall', 'Call', 'MCall'):
            continue
        args = f.args(i) if n['k'] != 'OpCall' else n['c'][1:]
        if not any(clean(f.typ(a)).endswith('QuadKey') for a in args):
            continue
        good = n['k'] == 'OpCall' and n['op'] == '()' or n['k'] == 'Call' and not f.cqn(i)
        if not good and depth < 3:
            ts = [m.fn.get(t if isinstance(t, str) else t[0]) for t in m.targets(f, i)]
            good = bool(ts)
            for g in ts:
                if g is None or g.rawcfg is None or not g.decl.get('src') or g.id == f.id:
                    good = False
                    break
                ok = apart(S, g)
                if not flow.must_hit(g, g.cfg.entry, visits(m, S, g, depth + 1), ok):
                    good = False
        if good:
            p = f.cfg.point(i)
            if p is not None:
                calls.add(p)
    return calls


def apart(S, f):
    ok = flow.edges(S, f, lambda f_, facts, a, ap: not ap and f_.n(a)['k'] == 'MCall' and (f_.cqn(a) or '').endswith('::intersects'))
    return ok | flow.edges(S, f, iscancel)


def corner(ctx, m, f, L, t, tt, up, key):
    """which edge of the area the first and last tile come from"""
    ends = []
    for x in (t, tt):
        j = flow.init_of(f, x[1])
        if j is None:
            return
        j = flow.strip(f, j)
        while f.n(j)['k'] == 'Ctor' and len(f.n(j)['c']) == 1:
            j = flow.strip(f, f.n(j)['c'][0])
        if f.n(j)['k'] not in ('Call', 'MCall') or not f.args(j):
            return
        a = flow.strip(f, f.args(j)[0])
        for _ in range(3):
            if f.n(a)['k'] == 'Ref' and flow.init_of(f, f.n(a)['d']) is not None:
                a = flow.strip(f, flow.init_of(f, f.n(a)['d']))
        if f.n(a)['k'] != 'Mem' or f.n(a)['n'] not in ('minPoint', 'maxPoint'):
            return
        ends.append(f.n(a)['n'])
    lo, hi = ends if up else ends[::-1]
    want = ('minPoint', 'maxPoint') if t[2] == 'tileX' else ('maxPoint', 'minPoint')
    ctx.count('tile rectangle edges')
    if (lo, hi) != want:
        ctx.violation('corner:' + key, f.loc(L.decl), 'the tiles run from the %s to the %s corner of the area' % (lo[:3], hi[:3]))


def levels(ctx, m, S, f, L, body, cps, key):
    """a level loop that visits tiles does so for every level"""
    calls = set()
    for i in f.all():
        if f.n(i)['k'] in ('Call', 'MCall'):
            for t in m.targets(f, i):
                t = t if isinstance(t, str) else t[0]
                g = m.fn.get(t)
                if g is not None and g.rawcfg is not None and any(x.kind == 'tile' for x in loops(g)):
                    p = f.cfg.point(i)
                    if p is not None:
                        calls.add(p)
    if not calls:
        return
    ctx.count('level loops that visit tiles')

    def style(f_, facts, a, ap):
        n = f_.n(a)
        if n['k'] == 'MCall' and not ap and (f_.cqn(a) or '').rsplit('::', 1)[-1] in ('empty', 'has'):
            return False
        return n['k'] == 'MCall' and bool(n.get('c')) and clean(f_.typ(n['c'][0])).rsplit('::', 1)[-1] in ('Style', 'StyleProvider')
    ok = flow.edges(S, f, style) | flow.edges(S, f, iscancel)
    for b in body:
        r = f.cfg.reach(b, avoid=calls, edge_ok=lambda p, q, l: (p, q, l) not in ok) if b not in calls else set()
        if r & cps:
            ctx.violation('level:' + key, f.loc(L.decl), 'a level of the range can be left out for a reason other than the style')


def handed(ctx, m, S):
    """tile visitors of stores hand the element on"""
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if not f.isLambda or f.rawcfg is None or not f.decl.get('src'):
            continue
        if not (f.params and clean(f.params[0]['t']).endswith('::QuadKey')) or len(f.params) != 2:
            continue
        caps = {}
        own = None
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Ref' and n.get('t') and clean(n['t']).endswith('entities::Element'):
                own = n['d']
        if own is None:
            continue
        calls = set()
        for i in f.all():
            n = f.n(i)
            if n['k'] not in ('Call', 'MCall', 'OpCall'):
                continue
            a = f.args(i) if n['k'] != 'OpCall' else n['c'][1:]
            if any(f.n(flow.strip(f, x)).get('d') == own for x in a) and not clean(f.typ(i)).startswith('bool'):
                p = f.cfg.point(i)
                if p is not None:
                    calls.add(p)
        if not calls:
            continue
        ctx.count('tile visitors handing elements on')

        def filt(f_, facts, a, ap):
            n = f_.n(a)
            return not ap and (n['k'] == 'OpCall' and n['op'] == '()' or n['k'] == 'Call')
        ok = flow.edges(S, f, filt) | flow.edges(S, f, iscancel)
        if not flow.must_hit(f, f.cfg.entry, calls, ok):
            ctx.violation('handed:%s' % re.sub(r'<.*', '', S.m.fn[f.decl['owner']].qn if f.decl.get('owner') in m.fn else 'tile visitor'), f.loc(), 'an element is not handed on for a tile that the filter accepted')


IV = [(0, 1), (1, 2), (1, 3), (2, 3), (3, 4), (0, 5), (4, 5), (5, 6), (0, 2)]


def filters(ctx, m):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if not f.isLambda or f.rawcfg is None or len(f.params) != 2 or not all(clean(p['t']).endswith('::BoundingBox') for p in f.params):
            continue
        own = {p['d'] for p in f.params}
        caps = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Ref' and n.get('t') and clean(n['t']).endswith('::BoundingBox') and n['d'] not in own and n.get('dk') != 'func':
                declared = [v['d'] for j in f.all() if f.n(j)['k'] == 'Decl' for v in f.n(j)['vars']]
                if n['d'] not in declared:
                    caps[n['d']] = n.get('dk')
        if len(caps) > 1:
            ctx.count('filters outside the vocabulary')
            continue
        # the captured box of a single tile
        tile = False
        for d in caps:
            for g in m.fn.values():
                if g.rawcfg is None:
                    continue
                j = flow.init_of(g, d)
                if j is not None and any(g.n(x)['k'] in ('Call', 'MCall') and any(clean(g.typ(y)).endswith('::QuadKey') for y in g.args(x)) for x in g.walk(j)):
                    tile = True
        ctx.count('import filters')
        key = 'filter:' + ('one tile' if tile else 'area' if caps else 'everything')
        axes = [(('minPoint', a), ('maxPoint', a)) for a in ('latitude', 'longitude')]
        try:
            q = ((1, 3), (1, 3))
            for e in itertools.product(IV, repeat=2):
                for t in (((1, 3), (1, 3)), ((1, 3), (3, 5)), ((3, 5), (1, 3)), ((7, 9), (7, 9)), ((-1, 1), (1, 3)), ((-1, 1), (-1, 1))):
                    v = {}
                    for base, box in (('e', e), ('t', t), ('q', q)):
                        for (lo, hi), iv in zip(axes, box):
                            v[base, lo], v[base, hi] = iv
                    def given(b, p):
                        if (b, p) in v:
                            return v[b, p]
                        raise Undecided('reads ' + str(b))
                    it = Interp(m, given)
                    it.outer = {d: LV('q') for d in caps}
                    r = bool(it.num(it.call(f, LV('closure'), [LV('e'), LV('t')])))
                    ctx.count('filter positions')
                    over = all(max(l1, l2) < min(h1, h2) for (l1, h1), (l2, h2) in zip(e, q))
                    apart = any(max(l1, l2) > min(h1, h2) for (l1, h1), (l2, h2) in zip(e, q))
                    tover = all(max(l1, l2) < min(h1, h2) for (l1, h1), (l2, h2) in zip(t, q))
                    if not caps:
                        if not r:
                            raise Wrong('an import without area leaves elements out')
                        continue
                    if over and tover and not r:
                        raise Wrong('an element that overlaps the requested area is left out')
                    if apart and r:
                        raise Wrong('an element apart from the requested area is imported')
                    if tile and t != q and r:
                        raise Wrong('the import of one tile also stores in a neighbouring tile')
        except (Undecided, Thrown) as x:
            ctx.count('filters outside the vocabulary')
            ctx.sample('filter %s not decided: %s' % (f.loc(), x))
        except Wrong as x:
            ctx.violation(key, f.loc(), str(x))


class Wrong(Exception):
    pass


def stores(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'RFor' or 'ElementStore' not in f.typ(n['range']):
                continue
            calls = set()
            for j in f.walk(n['body'] if n.get('body', -1) is not None and n.get('body', -1) >= 0 else i):
                if f.n(j)['k'] == 'MCall' and (f.cqn(j) or '').endswith('::search'):
                    p = f.cfg.point(j)
                    if p is not None:
                        calls.add(p)
            if not calls:
                continue
            ctx.count('searches over all stores')
            g = f.cfg
            ins = [(p, q) for p in range(len(g.succ)) for q, lab in g.succ[p] if lab and lab[0] == n['cond'] and lab[1] is True]
            ok = flow.edges(S, f, lambda f_, facts, a, ap: not ap and (f_.cqn(a) or '').endswith('::hasData') if f_.n(a)['k'] == 'MCall' else False)
            can = flow.edges(S, f, iscancel)
            key = '%s(%s)' % (re.sub(r'<.*', '', f.qn), clean(f.params[0]['t']).rsplit('::', 1)[-1] if f.params else '')
            for p, b in ins:
                r = g.reach(b, avoid=calls | {p}, edge_ok=lambda x, y, l: (x, y, l) not in ok and (x, y, l) not in can)
                if p in {y for x in r for y, _ in g.succ[x] if x not in calls and all((x, y2, l) not in ok and (x, y2, l) not in can for y2, l in g.succ[x] if y2 == y)} or g.exit in r:
                    ctx.violation('store:' + key, f.loc(i), 'a registered store with data can be left out of the search')
                r = g.reach(b, avoid={p}, edge_ok=lambda x, y, l: (x, y, l) not in can)
                if g.exit in r:
                    ctx.violation('store:' + key, f.loc(i), 'the search ends before every registered store was asked')
