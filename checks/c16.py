"""Everything that appends to a mesh appends to all of its arrays, and triangles refer to vertices appended with them."""
import re
import flow
from guards import Guards
from paths import Walk, TooMany
from c34 import short, num

LEVEL = 'other'
MESH = 'utymap::math::Mesh'
ARRAYS = ('vertices', 'colors', 'uvs', 'triangles', 'uvMap')
# elements of each array per vertex, per index of a triangle and per texture record
GROW = ('push_back', 'emplace_back')
OTHER = ('resize', 'insert', 'emplace', 'erase', 'pop_back', 'assign', 'swap', 'clear', 'reset')


def report(ctx, f, i, msg, key):
    ctx.violation(key, f.loc(i) if isinstance(i, int) else f.loc(), msg)


# ---- sums of symbols: {symbol: factor}, '' is the constant
def lin(v):
    return dict(v[1]) if isinstance(v, tuple) and v and v[0] == 'lin' else None


def mk(d):
    return ('lin', tuple(sorted((k, x) for k, x in d.items() if x or k == '')))


def const(k):
    return mk({'': k})


def add(a, b, sign=1):
    d = dict(a)
    for k, x in b.items():
        d[k] = d.get(k, 0) + sign * x
    return d


def ismesh(t):
    return t.replace('const ', '').replace('struct ', '').rstrip('&* ').strip() == MESH


def array(f, i):
    """(expression of the mesh, name of the array)"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Ref' and n.get('d') and '&' in (vt(f, n['d']) or '&'):
        j = flow.init_of(f, n['d'])
        if j is not None and j >= 0:
            return array(f, j)
    if n['k'] == 'Mem' and str(n.get('d', '')).startswith(MESH + '::') and n['n'] in ARRAYS and n.get('c'):
        return flow.strip(f, n['c'][0]), n['n']
    return None


def vt(f, d):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if v['d'] == d:
                    return v.get('t') or ''
    return None


def text(f, i):
    """a name for the object an expression denotes"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Ref':
        if n.get('d'):
            j = flow.init_of(f, n['d'])
            if j is not None and j >= 0 and f.n(flow.strip(f, j))['k'] in ('Ref', 'Mem') and '&' in (vt(f, n['d']) or ''):
                return text(f, j)
        return str(n.get('d') or n.get('n'))
    if n['k'] == 'Mem':
        return (text(f, n['c'][0]) if n.get('c') else '') + '.' + n['n']
    if n['k'] == 'This':
        return 'this'
    if n['k'] in ('Un', 'OpCall', 'MCall') and n.get('c'):
        return n.get('op', short(f, i) if n['k'] == 'MCall' else '') + text(f, n['c'][0])
    return 'e%s:%d' % (f.id, i)


def touches(f):
    """does the function change the length of an array of a mesh itself"""
    for i in f.all():
        if growth(f, i) or bulk(f, i):
            return True
    return False


def growth(f, i):
    n = f.n(i)
    if n['k'] == 'MCall' and n.get('c') and short(f, i) in GROW + OTHER:
        return array(f, n['c'][0])
    return None


def handed(m, f, i):
    """functions an array of a mesh is handed to for changes"""
    out = []
    if f.n(i)['k'] in ('Call', 'MCall'):
        for k, a in enumerate(f.args(i)):
            if array(f, a) and f.n(flow.strip(f, a))['k'] in ('Mem', 'Ref'):
                for x in m.targets(f, i):
                    g = m.fn.get(x)
                    if g is not None and g.rawcfg is not None and k < len(g.params) and g.params[k]['t'].endswith('&') and not g.params[k]['t'].startswith('const'):
                        out.append(g)
    return out


def bulk(f, i):
    """(target array, source array, function applied) when a whole array is appended to another"""
    n = f.n(i)
    if n['k'] == 'Call' and short(f, i) in ('copy', 'transform'):
        a = f.args(i)
        if len(a) < 3:
            return None
        dst = None
        for x in f.walk(a[2]):
            if f.n(x)['k'] == 'Call' and short(f, x) == 'back_inserter':
                dst = array(f, f.args(x)[0])
        b, e = bound(f, a[0], ('begin', 'cbegin')), bound(f, a[1], ('end', 'cend'))
        if dst and b and e:
            return dst, b, e, (a[3] if len(a) > 3 else None)
    if n['k'] == 'MCall' and short(f, i) == 'insert' and n.get('c') and array(f, n['c'][0]):
        a = f.args(i)
        if len(a) == 3 and bound(f, a[0], ('end', 'cend')):
            b, e = bound(f, a[1], ('begin', 'cbegin')), bound(f, a[2], ('end', 'cend'))
            if b and e:
                return array(f, n['c'][0]), b, e, None
    return None


def bound(f, a, names):
    for x in f.walk(a):
        n = f.n(x)
        if n['k'] == 'MCall' and short(f, x) in names and n.get('c') and array(f, n['c'][0]):
            return array(f, n['c'][0])
        if n['k'] == 'Call' and short(f, x) in names and f.args(x) and array(f, f.args(x)[0]):
            return array(f, f.args(x)[0])
    return None


def internal(m, f):
    """callable from its own class or file only"""
    return f.isLambda or '(anonymous namespace)' in f.qn or f.decl.get('acc') == 2


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('on every way through a function which appends to a mesh: three coordinates, one colour and two texture coordinates per vertex, and triangles in threes; loops are counted by their bodies')
    ctx.rule('every triangle index is the number of vertices when the batch began plus the position of a vertex of this batch; the three indices of a triangle differ and every vertex of a batch belongs to a triangle')
    ctx.rule('a loop which appends vertices for indices made elsewhere appends in every round; the three indices of such a triangle differ whichever way it is turned')
    ctx.rule('a mesh is copied into another one array by array, each into its counterpart, with indices moved by the number of vertices there before and texture ranges by the number of texture coordinates there before')
    ctx.rule('a texture record has eight numbers, starts with the end of its range, and is merged only when all of the others are equal')
    ctx.rule('every array is handed over with its own length; on every way to a delivery, a texture record is written after the last geometry')
    fs = [m.fn[x] for x in sorted(m.fn)]
    fs = [f for f in fs if f.rawcfg is not None and '/test/' not in (f.file or '') and f.cls != MESH and 'MeshStream' not in (f.file or '')]
    direct = {f.id for f in fs if touches(f)}
    lent = set()
    for f in fs:
        for i in f.all():
            gs = handed(m, f, i)
            if gs:
                direct.add(f.id)
                lent |= {g.id for g in gs}
    # functions which append through helpers of their own
    grow = set(direct)
    while True:
        more = set()
        for f in fs:
            if f.id in grow:
                continue
            for i in f.all():
                if f.n(i)['k'] in ('Call', 'MCall', 'OpCall'):
                    for x in m.targets(f, i):
                        if x in grow and internal(m, m.fn[x]):
                            more.add(f.id)
        if not more:
            break
        grow |= more
    ctx.count('functions which append', len(direct))
    for f in fs:
        if f.id in grow and f.id not in lent and not internal(m, f):
            one(ctx, m, S, f, grow, lent)
    for f in fs:
        batches(ctx, m, f, grow, lent)
        turned(ctx, m, S, f)
    delivery(ctx, m, fs)
    mapping(ctx, m)
    ctx.require('functions which append', 3)
    ctx.require('ways through them', 4)
    ctx.require('triangles', 3)


def appends(m, f, i, name, grow, lent, depth=0):
    """does node i append to that array, itself or through a helper"""
    a = growth(f, i)
    if a:
        return a[1] == name and short(f, i) in GROW
    if depth < 3 and f.n(i)['k'] in ('Call', 'MCall', 'OpCall'):
        for x in m.targets(f, i):
            g = m.fn.get(x)
            if g is not None and g.rawcfg is not None and (x in grow and internal(m, g) or x in lent):
                if any(appends(m, g, j, name, grow, lent, depth + 1) for j in g.all()):
                    return True
    return False


def batches(ctx, m, f, grow, lent):
    """a loop which appends vertices but no triangles: their indices count its rounds, so no round goes without its vertex"""
    for L in f.all():
        n = f.n(L)
        if n['k'] not in ('For', 'While', 'RFor') or n.get('body') is None or n['body'] < 0:
            continue
        body = list(f.walk(n['body']))
        vs = [i for i in body if f.n(i)['k'] in ('MCall', 'Call', 'OpCall') and appends(m, f, i, 'vertices', grow, lent)]
        if not vs or any(appends(m, f, i, 'triangles', grow, lent) for i in body if f.n(i)['k'] in ('MCall', 'Call', 'OpCall')):
            continue
        ctx.count('loops which append vertices for triangles from elsewhere')
        g = f.cfg
        conds = {L} if n['k'] == 'RFor' else set()
        c = n.get('cond')
        while n['k'] != 'RFor' and c is not None and c >= 0:
            conds.add(c)
            c = flow.strip(f, c)
            conds.add(c)
            c = f.n(c)['c'][1] if f.n(c)['k'] == 'Bin' and f.n(c)['op'] == '&&' else None
        starts = set()
        heads = set()
        for p in range(len(g.succ)):
            for q, lab in g.succ[p]:
                if lab and len(lab) == 2 and lab[0] in conds and lab[1]:
                    starts.add(q)
                    heads.add(p)
        pts = {g.point(i) for i in vs} - {None}
        thr = {g.point(i) for i in body if f.n(i)['k'] == 'Throw'} - {None}
        for s in sorted(starts):
            if s in pts:
                continue
            r = g.reach(s, avoid=pts | thr) | {s}
            if r & heads or g.exit in r:
                report(ctx, f, vs[0], 'a round of a loop goes by without appending the vertex which triangle indices from elsewhere count on', 'vertex-skipped:' + f.name)
                break


def turned(ctx, m, S, f):
    """the three indices of a triangle differ whichever way its corners are turned"""
    for i in f.all():
        if f.n(i)['k'] != 'Block':
            continue
        run = []
        for st in f.n(i).get('c', []):
            j = flow.strip(f, st)
            a = growth(f, j)
            if a and a[1] == 'triangles' and short(f, j) in GROW and f.args(j):
                run.append(j)
                if len(run) == 3:
                    corners(ctx, m, f, run)
                    run = []
            else:
                run = []


def corners(ctx, m, f, run):
    conds = set()
    for j in run:
        for x in f.walk(f.args(j)[0]):
            k = flow.init_of(f, f.n(x)['d']) if f.n(x)['k'] == 'Ref' and f.n(x).get('d') else x
            if k is not None and k >= 0 and f.n(flow.strip(f, k))['k'] == 'Cond':
                conds.add(f.expr(f.n(flow.strip(f, k))['c'][0]))
    if len(conds) > 4:
        return
    cl = sorted(conds)
    for bits in range(1 << len(cl)):
        pol = {c: bool(bits >> k & 1) for k, c in enumerate(cl)}
        vals = [sym(f, f.args(j)[0], pol) for j in run]
        ctx.count('corners of triangles compared')
        if len(set(vals)) < 3:
            report(ctx, f, run[-1], 'two indices of a triangle are the same' + (' where ' + ', '.join('%s is %s' % (c, str(v).lower()) for c, v in sorted(pol.items())) if pol else ''), 'same-corner:' + f.name)
            return


def sym(f, i, pol, depth=0):
    """text of an expression with conditional constants resolved, sums in normal form"""
    i = flow.strip(f, i)
    n = f.n(i)
    k = num(f, i)
    if k is not None:
        return mk({'': k})
    if n['k'] == 'Cond' and f.expr(n['c'][0]) in pol:
        return sym(f, n['c'][1 if pol[f.expr(n['c'][0])] else 2], pol, depth)
    if n['k'] == 'Ref' and n.get('d') and depth < 6:
        j = flow.init_of(f, n['d'])
        if j is not None and j >= 0:
            return sym(f, j, pol, depth + 1)
    if n['k'] == 'Bin' and n['op'] in '+-':
        a, b = (dict(x[1]) if isinstance(x, tuple) and x and x[0] == 'lin' else {x: 1} for x in (sym(f, y, pol, depth + 1) for y in n['c']))
        return ('lin', tuple(sorted(((k, v) for k, v in add(a, b, 1 if n['op'] == '+' else -1).items() if v), key=str)))
    if n['k'] in ('Un', 'MCall', 'Call') or n['k'] == 'OpCall' and n['op'] != '[]':
        # may be another value each time
        return ('at', i) if n['k'] == 'Un' and n['op'] in ('++', '--') else f.expr(i)
    if n['k'] in ('Sub', 'OpCall', 'Bin') and len(n.get('c', [])) == 2:
        return (n.get('op', '[]'),) + tuple(sym(f, y, pol, depth + 1) for y in n['c'])
    return f.expr(i)


def one(ctx, m, S, f, grow, lent):
    syms = {'n': 0}

    def inline(g, i):
        return [m.fn[x] for x in m.targets(g, i) if (x in grow and internal(m, m.fn[x]) or x in lent) and m.fn[x].rawcfg is not None and x != f.id]

    def obj(w, g, i, env, ev):
        v = w.eval(g, i, env, ev)
        return v[1] if isinstance(v, tuple) and v and v[0] == 'obj' else text(g, i)

    def arr(g, i, env):
        """(mesh, array) of an expression, arrays handed over included"""
        i = flow.strip(g, i)
        if g.n(i)['k'] == 'Ref':
            v = env.get(g.n(i).get('d'))
            if isinstance(v, tuple) and v and v[0] == 'arr':
                return v[1:]
        a = array(g, i)
        return (obj(W, g, a[0], env, ()), a[1]) if a else None

    def size(ev, o, a):
        d = {'vertices': {'N:' + o: 3}, 'colors': {'N:' + o: 1}, 'uvs': {'N:' + o: 2}, 'triangles': {'T:' + o: 1}, 'uvMap': {'R:' + o: 1}}[a]
        for e in ev:
            if e[0] == 'push' and e[3] == (o, a):
                d = add(d, {'': 1})
            elif e[0] == 'bulk' and e[3] == (o, a):
                d = add(d, size((), *e[4])) if e[4] else add(d, {'?': 1})
            elif e[0] == 'other' and e[3] == (o, a):
                d = add(d, {'?': 1})
        return d

    def event(g, i, env, ev):
        if not isinstance(i, int):
            return None
        n = g.n(i)
        b = bulk(g, i)
        if b:
            (dm, da), (sm, sa), (em, ea), fun = b
            d, s, e = (obj(W, g, dm, env, ev), da), (obj(W, g, sm, env, ev), sa), (obj(W, g, em, env, ev), ea)
            moved = None
            if fun is not None:
                lam = [m.fn.get(g.n(x).get('f')) for x in g.walk(fun) if g.n(x)['k'] == 'Lambda']
                if len(lam) == 1 and lam[0] is not None and lam[0].params:
                    lf = lam[0]
                    out = W.run(lf, {**env, lf.params[0]['d']: mk({'element': 1})}, 5, ev)
                    vs = {v for _, _, v in out}
                    moved = vs.pop() if len(vs) == 1 else ('?',)
                else:
                    moved = ('?',)
            return ('bulk', g, i, d, s if s == e else None, moved)
        o = arr(g, n['c'][0], env) if n['k'] == 'MCall' and n.get('c') and short(g, i) in GROW + OTHER else None
        if o:
            if short(g, i) in GROW:
                val = W.eval(g, g.args(i)[0], env, ev)
                # one element of another mesh
                src, at = element(W, g, g.args(i)[0], env, ev, obj) or (None, None)
                return ('push', g, i, o, val, src, at)
            return ('other', g, i, o)
        if n['k'] in ('Bin', 'OpCall') and n['op'] in ('=', '+=', '-=') or n['k'] == 'Un' and n['op'] in ('++', '--'):
            t = flow.strip(g, n['c'][0])
            if g.n(t)['k'] == 'Ref' and g.n(t).get('d') and re.search(r'int|long|short|size_t', g.typ(t)) and n['op'] != '=':
                d = 1 if n['k'] == 'Un' else num(g, n['c'][1])
                return ('step', g, i, g.n(t)['d'], -d if d is not None and n['op'] in ('--', '-=') else d)
            if g.n(t)['k'] in ('OpCall', 'Sub') and g.n(t).get('op', '[]') == '[]':
                a = array(g, g.n(t)['c'][0])
                if a and a[1] == 'uvMap':
                    ds = {g.n(y)['d'] for y in g.walk(g.n(t)['c'][1]) if g.n(y)['k'] == 'Ref' and g.n(y).get('d')}
                    return ('set', g, i, (obj(W, g, a[0], env, ev), a[1]), W.eval(g, g.n(t)['c'][1], env, ev), W.eval(g, n['c'][1], env, ev) if len(n['c']) > 1 else None, n['op'], ds.pop() if len(ds) == 1 else None)
        if n['k'] in ('Bin', 'OpCall') and n['op'] in ('==', '!='):
            for x, y in (n['c'], n['c'][::-1]):
                x = flow.strip(g, x)
                if g.n(x)['k'] == 'OpCall' and g.n(x)['op'] == '[]':
                    a = array(g, g.n(x)['c'][0])
                    if a and a[1] == 'uvMap':
                        return ('same', g, i, (obj(W, g, a[0], env, ev), 'uvMap'), W.eval(g, g.n(x)['c'][1], env, ev), fieldof(g, y))
        return None

    def value(w, g, i, env, ev):
        n = g.n(i)
        k = num(g, i)
        if k is not None:
            return const(k)
        a = arr(g, i, env) if n['k'] in ('Mem', 'Ref') else None
        if a:
            return ('arr',) + a
        if ismesh(g.typ(i)) and n['k'] in ('Ref', 'Mem', 'Un', 'OpCall', 'MCall'):
            return ('obj', text(g, i))
        if n['k'] == 'MCall' and short(g, i) == 'size' and n.get('c'):
            a = arr(g, n['c'][0], env)
            if a:
                return mk(size(ev, a[0], a[1]))
        if n['k'] == 'Un' and n['op'] in ('++', '--'):
            v = lin(w.eval(g, n['c'][0], env, ev))
            if v is not None and n.get('post'):
                # already advanced by its own event
                return mk(add(v, {'': 1}, -1 if n['op'] == '++' else 1))
            return mk(v) if v is not None else None
        if n['k'] == 'Bin' and n['op'] in ('+', '-', '*', '/'):
            a, b = lin(w.eval(g, n['c'][0], env, ev)), lin(w.eval(g, n['c'][1], env, ev))
            if n['op'] in '+-':
                if a is None and b is None:
                    return None
                a = {'?%s:%d' % (g.id, n['c'][0]): 1} if a is None else a
                b = {'?%s:%d' % (g.id, n['c'][1]): 1} if b is None else b
                return mk(add(a, b, 1 if n['op'] == '+' else -1))
            if b is not None and set(b) <= {''} and b.get('') and a is not None:
                if n['op'] == '*':
                    return mk({x: y * b[''] for x, y in a.items()})
                if all(y % b[''] == 0 for y in a.values()):
                    return mk({x: y // b[''] for x, y in a.items()})
                return ('part',)
            if n['op'] == '*' and a is not None and set(a) <= {''} and b is not None:
                return mk({x: y * a.get('', 0) for x, y in b.items()})
        if n['k'] == 'Ctor' and not n.get('c'):
            return None
        return None

    def arith(w, g, i, env, ev):
        n = g.n(i)
        v = lin(w.eval(g, n['c'][0], env, ev))
        if v is None:
            return None
        if n['k'] == 'Un':
            return mk(add(v, {'': 1}, 1 if n['op'] == '++' else -1))
        b = lin(w.eval(g, n['c'][1], env, ev))
        if b is None or n['op'] not in ('+=', '-='):
            return None
        return mk(add(v, b, 1 if n['op'] == '+=' else -1))

    W = Walk(m, S, inline, event, value, arith=arith)
    W.value = value
    try:
        ways = W.run(f)
    except TooMany:
        ctx.count('functions with too many ways')
        return
    seen = set()
    for ev, ex, ret in ways:
        if ex == 'throw':
            continue
        ev = tuple(e for e in ev if e[0] != 'branch')
        k = tuple((e[0], e[2], e[3], e[4] if len(e) > 4 else None) for e in ev)
        if k in seen:
            continue
        seen.add(k)
        ctx.count('ways through them')
        balance(ctx, f, ev)
        loops(ctx, ev)
        triangles(ctx, f, ev)
        records(ctx, f, ev, size)


def fieldof(g, y):
    """dotted name of the members an expression selects"""
    y = flow.strip(g, y)
    out = []
    while g.n(y)['k'] == 'Mem' and g.n(y).get('c'):
        out.append(g.n(y)['n'])
        y = flow.strip(g, g.n(y)['c'][0])
    return '.'.join(out[::-1]) if out else None


def element(w, g, i, env, ev, obj):
    """(mesh, array) an element of which the expression reads"""
    for x in g.walk(i):
        n = g.n(x)
        if n['k'] in ('OpCall', 'MCall') and (n.get('op') == '[]' or n['k'] == 'MCall' and short(g, x) == 'at') and n.get('c'):
            a = array(g, n['c'][0])
            if a:
                ix = n['c'][1] if n['k'] == 'OpCall' else g.args(x)[0]
                ds = {g.n(y)['d'] for y in g.walk(ix) if g.n(y)['k'] == 'Ref' and g.n(y).get('d')}
                return (obj(w, g, a[0], env, ev), a[1]), (w.eval(g, ix, env, ev), ds.pop() if len(ds) == 1 else None)
        if n['k'] == 'Ref' and n.get('d') and g.n(x).get('d') in rangevars(g):
            a = rangevars(g)[n['d']]
            if a:
                return (obj(w, g, a[0], env, ev), a[1]), None
    return None


def rangevars(g):
    if not hasattr(g, '_rangevars'):
        g._rangevars = {}
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'RFor' and n.get('range') is not None:
                a = array(g, n['range'])
                if a and n.get('var'):
                    g._rangevars[n['var']] = a
    return g._rangevars


def balance(ctx, f, ev):
    objs = sorted({e[3][0] for e in ev if e[0] in ('push', 'bulk', 'other')})
    for o in objs:
        n = {a: 0 for a in ARRAYS}
        whole = {a: set() for a in ARRAYS}
        other = {a: set() for a in ARRAYS}
        last = {}
        for e in ev:
            if e[0] not in ('push', 'bulk', 'other') or e[3][0] != o:
                continue
            a = e[3][1]
            last[a] = e
            if e[0] == 'push' and e[5] is None:
                n[a] += 1
            elif e[0] == 'push':
                whole[a].add(e[5])
            elif e[0] == 'bulk':
                whole[a].add(e[4])
            else:
                other[a].add(short(e[1], e[2]))
        anye = list(last.values())[0]
        if n['vertices'] != 3 * n['colors'] or n['uvs'] != 2 * n['colors']:
            e = last.get('vertices') or last.get('uvs') or last.get('colors')
            report(ctx, e[1], e[2], 'on a way through %s %d coordinates, %d colours and %d texture coordinates are appended: the arrays of the mesh get out of step' % (f.name, n['vertices'], n['colors'], n['uvs']), 'lockstep')
        if n['triangles'] % 3:
            e = last['triangles']
            report(ctx, e[1], e[2], 'on a way through %s %d triangle indices are appended, which is no multiple of three' % (f.name, n['triangles']), 'triangle-threes')
        if n['uvMap'] % 8:
            e = last['uvMap']
            report(ctx, e[1], e[2], 'on a way through %s a texture record of %d numbers is appended instead of 8' % (f.name, n['uvMap']), 'record-size')
        srcs = set()
        for a in ARRAYS:
            for s in whole[a]:
                if s is None:
                    continue
                srcs.add(s[0])
                if s[1] != a:
                    e = last[a]
                    report(ctx, e[1], e[2], '%s of a mesh are appended to %s of another one' % (s[1], a), 'copied-into:' + a)
        for s in sorted(srcs):
            if s == o:
                continue
            for a in ARRAYS:
                # loops over elements may be empty on this way
                if not any(x and x[0] == s for x in whole[a]) and not looped(ev, o, s, a, f):
                    report(ctx, anye[1], anye[2], 'a mesh is copied into another one without its %s' % a, 'copied-without:' + a)
        if any(other[a] for a in ('vertices', 'colors', 'uvs')):
            if not (other['vertices'] == other['colors'] == other['uvs'] == other['triangles']):
                a = [x for x in ARRAYS if other[x]][0]
                report(ctx, last[a][1], last[a][2], 'the length of %s is changed without that of the others' % a, 'length:' + a)


def loops(ctx, ev):
    """an array copied element by element is copied from its first element on, and none is passed over"""
    ps = {}
    for e in ev:
        if e[0] == 'push' and e[5] is not None and e[6] is not None and e[5][0] != e[3][0]:
            ps.setdefault((e[3], e[5]), []).append(e)
    for k in sorted(ps, key=str):
        es = ps[k]
        at = [lin(e[6][0]) for e in es]
        ds = {e[6][1] for e in es}
        if None in at or len(ds) != 1 or None in ds or any(set(a) - {''} for a in at):
            continue
        ctx.count('arrays copied by a loop')
        d = ds.pop()
        got = [a.get('', 0) for a in at]
        st = [x[4] for x in ev if x[0] == 'step' and x[3] == d]
        if got != list(range(len(got))) or st and None not in st and sum(st) != len(got):
            report(ctx, es[-1][1], es[-1][2], 'not every element of %s is copied in its order' % k[1][1], 'copied-part:' + k[1][1])


def looped(ev, o, s, a, f):
    """an array copied by a loop is missing on the way which does not enter it"""
    for g in {f} | {e[1] for e in ev}:
        for i in g.all():
            if growth(g, i) and array(g, g.n(i)['c'][0])[1] == a and g.n(i)['k'] == 'MCall' and short(g, i) in GROW:
                for x in g.walk(g.args(i)[0]):
                    if g.n(x)['k'] in ('OpCall', 'MCall') and (g.n(x).get('op') == '[]' or short(g, x) == 'at') and g.n(x).get('c') and array(g, g.n(x)['c'][0]):
                        return True
                    if g.n(x)['k'] == 'Ref' and g.n(x).get('d') in rangevars(g):
                        return True
    return False


def triangles(ctx, f, ev):
    objs = sorted({e[3][0] for e in ev if e[0] in ('push', 'bulk') and e[3][1] == 'triangles'})
    for o in objs:
        ts = [(k, e) for k, e in enumerate(ev) if e[0] == 'push' and e[3] == (o, 'triangles') and e[5] is None or e[0] == 'push' and e[3] == (o, 'triangles') and e[5] and e[5][0] == o]
        ks = [k for k, e in enumerate(ev) if e[0] == 'push' and e[3] == (o, 'vertices') and e[5] is None]
        vs = len(ks) // 3
        used, known, group, batch = set(), True, [], ''
        for k, e in ts:
            ctx.count('triangles')
            v = lin(e[4])
            if e[4] == ('part',):
                report(ctx, e[1], e[2], 'the number of vertices is computed from the number of coordinates by another factor than three', 'index-factor')
                known = False
                continue
            if v is None:
                known = False
                report(ctx, e[1], e[2], 'the index of a triangle does not depend on the number of vertices present', 'index-base')
                continue
            base = v.pop('N:' + o, 0)
            c = v.pop('', 0)
            if base != 1:
                report(ctx, e[1], e[2], 'the index of a triangle does not start at the number of vertices present when it is added', 'index-base')
                known = False
                continue
            if v:
                # an index of a batch computed elsewhere
                known = False
                if c != 0:
                    report(ctx, e[1], e[2], 'the indices of a batch are moved by something else than the number of vertices before the batch', 'index-offset')
                continue
            if c < 0 or c >= vs:
                report(ctx, e[1], e[2], 'a triangle refers to vertex %d of a batch of %d' % (c, vs), 'index-range')
                known = False
                continue
            used.add(c)
            group.append((c, e))
        if known and group and len(group) % 3 == 0:
            for k in range(0, len(group), 3):
                g = group[k:k + 3]
                if len({c for c, _ in g}) < 3:
                    report(ctx, g[-1][1][1], g[-1][1][2], 'a triangle refers to the same vertex twice', 'degenerate')
            miss = set(range(vs)) - used
            if miss:
                e = group[-1][1]
                report(ctx, e[1], e[2], 'on a way through %s vertex %d of the batch is appended but belongs to no triangle' % (f.name, min(miss)), 'unused-vertex')
        for e in ev:
            if e[0] == 'push' and e[3] == (o, 'triangles') and e[5] and e[5][0] != o:
                ctx.count('triangles')
                v = lin(e[4])
                v = {a: b for a, b in v.items() if b} if v is not None else {}
                own = [a for a in v if a.startswith('?')]
                if v.get('N:' + o) != 1 or len(own) != 1 or v[own[0]] != 1 or len(v) != 2:
                    report(ctx, e[1], e[2], 'indices of another mesh are not moved by the number of vertices there before', 'index-copied')
            if e[0] == 'bulk' and e[3] == (o, 'triangles') and e[4]:
                ctx.count('triangles')
                before = ev[:ev.index(e)]
                v = lin(e[5]) if e[5] else None
                if e[5] is None:
                    report(ctx, e[1], e[2], 'indices of another mesh are appended as they are', 'index-copied')
                elif v is not None:
                    v = dict(v)
                    one = v.pop('element', 0)
                    base = v.pop('N:' + o, 0)
                    c = v.pop('', 0)
                    if one != 1 or base != 1 or c or v:
                        # vertices of the other mesh may be there already
                        report(ctx, e[1], e[2], 'indices of another mesh are not moved by the number of vertices there before', 'index-copied')
                elif e[5] != ('?',):
                    report(ctx, e[1], e[2], 'indices of another mesh are not moved by the number of vertices there before', 'index-copied')


def records(ctx, f, ev, size):
    """texture records"""
    objs = sorted({e[3][0] for e in ev if e[0] in ('push', 'set', 'same') and e[3][1] == 'uvMap'})
    for o in objs:
        ps = [e for e in ev if e[0] == 'push' and e[3] == (o, 'uvMap') and e[5] is None]
        for k in range(0, len(ps) - len(ps) % 8, 8):
            ctx.count('texture records')
            v = lin(ps[k][4])
            now = size(ev[:ev.index(ps[k])], o, 'uvs')
            if v is None or mk(v) != mk(now):
                report(ctx, ps[k][1], ps[k][2], 'a texture record does not start with the number of texture coordinates', 'record-start')
        for e in ev:
            if e[0] == 'set' and e[3] == (o, 'uvMap'):
                at, v = lin(e[4]), lin(e[5]) if e[5] else None
                bulkd = [x for x in ev if x[0] == 'bulk' and x[3] == (o, 'uvMap')]
                if bulkd:
                    # ranges of a copied mesh
                    src = bulkd[0][4]
                    if src is None:
                        continue
                    ctx.count('ranges moved')
                    k0 = ev.index(bulkd[0])
                    uv = [x for x in ev if x[0] == 'bulk' and x[3] == (o, 'uvs')]
                    want = {'N:' + o: 2}
                    v = {a: b for a, b in v.items() if b} if v is not None else None
                    if e[6] == '=' and v:
                        own = [a for a in v if a.startswith('?')]
                        if len(own) == 1 and v[own[0]] == 1:
                            v.pop(own[0])
                    if e[7]:
                        st = [x[4] for x in ev[k0:] if x[0] == 'step' and x[3] == e[7]]
                        if st and None not in st and sum(st) != 8:
                            report(ctx, e[1], e[2], 'the ranges of every %s number of copied texture records are moved: a record has 8' % sum(st), 'range-step')
                    if v != want:
                        report(ctx, e[1], e[2], 'the ranges of copied texture records are not moved by the number of texture coordinates there before', 'range-moved')
                    if at is not None and {a: b for a, b in at.items() if b} != {'R:' + o: 1}:
                        report(ctx, e[1], e[2], 'the ranges moved are not those of the copied texture records', 'range-place')
                    continue
                ctx.count('records merged')
                now = size(ev[:ev.index(e)], o, 'uvs')
                if at is not None and mk(at) != mk({'R:' + o: 1, '': -8}):
                    report(ctx, e[1], e[2], 'the range which is extended is not that of the last texture record', 'merge-place')
                if e[6] == '=' and (v is None or mk(v) != mk(now)):
                    report(ctx, e[1], e[2], 'the range of a merged texture record does not end with the number of texture coordinates', 'merge-range')
                got = {}
                for x in ev[:ev.index(e)]:
                    if x[0] == 'same' and x[3] == (o, 'uvMap') and lin(x[4]):
                        got[lin(x[4]).get('', 0)] = x
                if len(got) < 7:
                    report(ctx, e[1], e[2], 'a texture record is merged although only %d of its seven numbers were compared' % len(got), 'merge-compared')
    # what is compared is what is stored there
    order = {}
    for g in {e[1] for e in ev}:
        ps = sorted((g.cfg.point(i), i) for i in g.all() if growth(g, i) and array(g, g.n(i)['c'][0])[1] == 'uvMap' and short(g, i) in GROW and g.cfg.point(i) is not None)
        ps = sorted((i for _, i in ps), key=lambda i: (g.n(i).get('l', 0), i))
        if len(ps) == 8:
            for k, i in enumerate(ps):
                order[k - 8] = fieldof(g, g.args(i)[0])
    if order:
        for e in ev:
            if e[0] == 'same' and lin(e[4]) and lin(e[4]).get('', 0) in order:
                w = order[lin(e[4]).get('', 0)]
                ctx.count('record fields compared')
                if w and e[5] and w.split('.')[-1] != e[5].split('.')[-1]:
                    report(ctx, e[1], e[2], '%s of a texture record is compared with %s' % (w, e[5]), 'merge-field:' + w)


def delivery(ctx, m, fs):
    """every array is handed over with its own length, in the order of the callback"""
    for f in fs:
        for i in f.all():
            if f.n(i)['k'] not in ('Call', 'MCall', 'OpCall'):
                continue
            args = f.args(i) if f.n(i)['k'] != 'OpCall' else f.n(i)['c'][1:]
            ds = [(k, member(f, a, ('data',))) for k, a in enumerate(args)]
            ds = [(k, d) for k, d in ds if d]
            if len(ds) < 2:
                continue
            ctx.count('deliveries')
            for k, d in ds:
                if k + 1 < len(args):
                    s = member(f, args[k + 1], ('size',))
                    if s and s != d:
                        report(ctx, f, args[k + 1], '%s are handed over with the length of %s' % (d[1], s[1]), 'delivered-length:' + d[1])
            got = [d[1] for _, d in ds]
            want = [a for a in ('vertices', 'triangles', 'colors', 'uvs', 'uvMap')]
            if len(got) == 5 and got != want:
                report(ctx, f, i, 'arrays are handed over as %s; the callback expects %s' % (', '.join(got), ', '.join(want)), 'delivered-order')
            missing = [a for a in want if a not in got]
            if missing:
                report(ctx, f, i, '%s are not handed over' % ', '.join(missing), 'delivered-missing')


def member(f, a, names):
    for x in f.walk(a):
        n = f.n(x)
        if n['k'] == 'MCall' and short(f, x) in names and n.get('c'):
            r = array(f, n['c'][0])
            if r:
                return text(f, r[0]), r[1]
    return None


def mapping(ctx, m):
    """geometry is delivered only after its texture record was written"""
    fs = {x: m.fn[x] for x in sorted(m.fn) if m.fn[x].rawcfg is not None and '/test/' not in (m.fn[x].file or '')}
    kind = {}
    for x, f in fs.items():
        if f.cls == MESH or 'MeshStream' in (f.file or ''):
            continue
        a = set()
        for i in f.all():
            b = bulk(f, i)
            g = growth(f, i)
            if b:
                a.add('copy')
            elif g and short(f, i) in GROW:
                a.add(g[1])
        if 'copy' in a:
            kind[x] = None
        elif 'uvMap' in a:
            kind[x] = 'mapped'
        elif a & {'vertices', 'uvs'}:
            kind[x] = 'open'
    # functions which may reach one of them
    call = {}
    for x, f in fs.items():
        call[x] = [(i, [t for t in m.targets(f, i) if t in fs]) for i in f.all() if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'New')]
    near = set(kind)
    while True:
        more = {x for x in fs if x not in near and any(t in near for _, ts in call[x] for t in ts)}
        if not more:
            break
        near |= more
    summ = {}
    IN = ('mapped', 'open')

    def step(f, i, st, ts):
        """states after a call"""
        ts = [t for t in ts if t in near and t in fs]
        if not ts:
            return st
        out = set()
        for t in ts:
            if t in kind:
                out |= st if kind[t] is None else {kind[t]}
            else:
                for s in st:
                    out |= summ.get((t, s), set())
        return out

    def flowthrough(f, start, sites=None):
        g = f.cfg
        by = dict((i, ts) for i, ts in call[f.id])
        state = {g.entry: {start}}
        work = [g.entry]
        while work:
            p = work.pop()
            st = state[p]
            x = g.payload[p]
            if x and x[0] == 's' and x[1] in by:
                if sites is not None and x[1] in sites:
                    sites[x[1]] |= st
                st = step(f, x[1], st, by[x[1]])
            for q, lab in g.succ[p]:
                if not st <= state.get(q, set()):
                    state[q] = state.get(q, set()) | st
                    work.append(q)
                elif q not in state:
                    state[q] = set(st)
                    work.append(q)
        return state.get(g.exit, set())

    todo = sorted(x for x in near if x not in kind)
    changed = True
    while changed:
        changed = False
        for x in todo:
            for s in IN:
                o = flowthrough(fs[x], s)
                if o - summ.get((x, s), set()):
                    summ[(x, s)] = summ.get((x, s), set()) | o
                    changed = True
    for x in sorted(fs):
        f = fs[x]
        sites = {}
        for i, ts in call[x]:
            n = f.n(i)
            if n['k'] == 'OpCall' and n['op'] == '()' and len(n['c']) == 2 and ismesh(f.typ(n['c'][1])):
                sites[i] = set()
        if not sites or f.isLambda and not any(t in near for _, ts in call[x] for t in ts):
            continue
        flowthrough(f, 'mapped', sites)
        for i, st in sorted(sites.items()):
            ctx.count('deliveries reached')
            if 'open' in st:
                report(ctx, f, i, 'a mesh is handed over although geometry was added after its last texture record', 'unmapped')
