"""Latitude and longitude never change places: axes inferred for expressions and compared where they are declared to be one or the other."""
import re
import flow
from guards import Guards
from c34 import num

LEVEL = 'other'
LAT, LON, ELE = 'latitude', 'longitude', 'elevation'
PASS = ('min', 'max', 'abs', 'fabs', 'floor', 'ceil', 'round', 'clamp', 'move', 'forward', 'lround', 'trunc')


def word(name):
    """axis a declared name stands for"""
    ws = [w.lower() for w in re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+|\d+', name or '')]
    la = any(w in ('lat', 'lats', 'latitude', 'latitudes') for w in ws)
    lo = any(w in ('lon', 'lons', 'lng', 'longitude', 'longitudes') for w in ws)
    return LAT if la and not lo else LON if lo and not la else None


def number(m, t):
    t = re.sub(r'\b(const|volatile)\b', '', m.deref(t)).strip().rstrip('&* ')
    return t in ('double', 'float', 'long double') or re.fullmatch(r'(std::)?(u?int\d*(_t)?|long|long long|unsigned|int|unsigned int|unsigned long|short)', t) is not None


VEC = {'utymap::math::Vector2': {'x': LON, 'y': LAT}, 'utymap::math::Vector3': {'x': LON, 'y': ELE, 'z': LAT}, 'ClipperLib::IntPoint': {'X': LON, 'Y': LAT}}
ORDER = {'utymap::math::Vector2': (LON, LAT), 'utymap::math::Vector3': (LON, ELE, LAT), 'ClipperLib::IntPoint': (LON, LAT), 'utymap::math::Rectangle': (LON, LAT, LON, LAT)}


class Axes:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.memo = {}
        self.par = {}

    def strong(self, f, i, depth=0):
        return self.of(f, i, False, depth)

    def of(self, f, i, weak=True, depth=0):
        """axis of an expression; weak: coordinates of vectors count as axes too"""
        if i is None or i < 0 or depth > 14:
            return None
        key = (f.id, i, weak)
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self._of(f, i, weak, depth)
        return self.memo[key]

    def _of(self, f, i, weak, depth):
        i = flow.strip(f, i)
        n = f.n(i)
        k, c = n['k'], n.get('c', [])
        if num(f, i) is not None or k == 'Float':
            return None
        if k == 'Mem':
            fl = self.m.field(n['d'])
            if fl is not None and number(self.m, f.typ(i)) and word(n['n']):
                return word(n['n'])
            if weak:
                rec = str(n['d']).rsplit('::', 1)[0]
                return VEC.get(rec, {}).get(n['n'])
            return None
        if k == 'Ref':
            if n.get('dk') in ('local', 'param', 'global', 'static') and number(self.m, f.typ(i)):
                # the value counts, not the name, where it is known
                j = flow.init_of(f, n['d']) if n.get('dk') == 'local' else None
                v = self.of(f, j, weak, depth + 1) if j is not None and j >= 0 else None
                if v:
                    return v
                if word(n['n']):
                    return word(n['n'])
                if n.get('dk') == 'param':
                    return self.param(f, n['d'], weak, depth)
            return None
        if k == 'Un' and n['op'] in ('-', '+', '++', '--', '*'):
            return self.of(f, c[0], weak, depth + 1)
        if k == 'Bin':
            op = n['op']
            a, b = (self.of(f, x, weak, depth + 1) for x in c)
            if op in ('+', '-'):
                if a and b:
                    return a if a == b else None
                return a or b
            if op == '*':
                return None if a and b else a or b
            if op in ('/', '%'):
                return None if b else a
            if n.get('asg'):
                return b
            return None
        if k == 'Cond':
            vs = {self.of(f, x, weak, depth + 1) for x in c[1:]} - {None}
            return vs.pop() if len(vs) == 1 else None
        if k in ('Call', 'MCall') and (f.callee(i) or {}).get('n') in PASS and not (f.callee(i) or {}).get('src'):
            vs = {self.of(f, x, weak, depth + 1) for x in f.args(i)} - {None}
            return vs.pop() if len(vs) == 1 else None
        if k in ('Call', 'MCall') and number(self.m, f.typ(i)) and (f.callee(i) or {}).get('n') in ('lat', 'latitude', 'lon', 'lng', 'longitude'):
            return word(f.callee(i)['n'])
        if k == 'Sub' or k == 'OpCall' and n['op'] == '[]':
            # coordinates of shapes
            b = f.n(flow.strip(f, c[0]))
            return {'padfX': LON, 'padfY': LAT}.get(b.get('n')) if b['k'] == 'Mem' else None
        if k in ('Call', 'MCall') and number(self.m, f.typ(i)):
            # a helper returns an axis when all of its results are of it
            vs = set()
            for t in self.m.targets(f, i):
                g = self.m.fn.get(t)
                if g is None or g.rawcfg is None:
                    return None
                for j in g.all():
                    if g.n(j)['k'] == 'Return' and g.n(j).get('c') and num(g, g.n(j)['c'][0]) is None:
                        vs.add(self.named(g, g.n(j)['c'][0], depth + 1))
            return vs.pop() if len(vs) == 1 else None
        return None

    def named(self, f, i, depth):
        """axis of a result without looking at what callers hand in"""
        if any(f.n(j)['k'] == 'Ref' and f.n(j).get('dk') == 'param' and not word(f.n(j)['n']) and number(self.m, f.typ(j)) for j in f.walk(i)):
            return None
        return self.of(f, i, False, depth)

    def param(self, f, d, weak, depth):
        """axis of a parameter without a telling name: what all callers hand in"""
        key = (f.id, d, weak)
        if key in self.par:
            return self.par[key]
        self.par[key] = None
        at = next((j for j, p in enumerate(f.params) if p['d'] == d), None)
        cs = self.m.callers(f.id)
        if at is None or not cs or f.isLambda:
            return None
        vs = set()
        for c, ci in cs:
            g = self.m.fn[c]
            a = g.args(ci)
            vs.add(self.of(g, a[at], weak, depth + 1) if at < len(a) else None)
        self.par[key] = vs.pop() if len(vs) == 1 else None
        return self.par[key]


    def wants(self, g, k):
        """axis a parameter without a telling name becomes in the points the function makes"""
        key = ('wants', g.id, k)
        if key not in self.par:
            self.par[key] = None
            p = g.params[k]
            out = set()
            if not word(p['n']) and number(self.m, p['t']):
                for i in g.all():
                    n = g.n(i)
                    d = g.callee(i) if n['k'] == 'Ctor' else None
                    if d and d.get('cls') in ORDER and len(g.args(i)) == len(ORDER[d['cls']]):
                        for x, w in zip(g.args(i), ORDER[d['cls']]):
                            refs = [g.n(j)['d'] for j in g.walk(x) if g.n(j)['k'] == 'Ref' and g.n(j).get('d') and g.n(j).get('dk') in ('param', 'local')]
                            if refs and set(refs) == {p['d']} and not any(g.n(j)['k'] in ('Call', 'MCall') for j in g.walk(x)):
                                out.add(w)
            self.par[key] = out.pop() if len(out) == 1 else None
        return self.par[key]


def parity(f, i):
    """is the index even or odd, when that is plain"""
    i = flow.strip(f, i)
    n = f.n(i)
    k = num(f, i)
    if k is not None:
        return k % 2
    if n['k'] == 'Bin' and n['op'] in '+-':
        a, b = parity(f, n['c'][0]), parity(f, n['c'][1])
        return None if a is None or b is None else (a + b) % 2
    if n['k'] == 'Bin' and n['op'] == '*':
        a, b = parity(f, n['c'][0]), parity(f, n['c'][1])
        return 0 if 0 in (a, b) else 1 if a == b == 1 else None
    if n['k'] == 'Ref' and n.get('d'):
        v = n['d']
        start = None
        for j in f.all():
            x = f.n(j)
            if x['k'] == 'Decl':
                for q in x['vars']:
                    if q['d'] == v and q.get('i') is not None and q['i'] >= 0:
                        start = num(f, q['i'])
            elif flow.assign(f, j) is not None and f.n(flow.strip(f, x['c'][0])).get('d') == v:
                if x.get('op') not in ('+=', '-=') or num(f, x['c'][1]) is None or num(f, x['c'][1]) % 2:
                    return None
            elif x['k'] == 'Un' and x['op'] in ('++', '--') and f.n(flow.strip(f, x['c'][0])).get('d') == v:
                return None
        return None if start is None else start % 2
    return None


def element(f, i):
    """(declaration of an array, parity of the index) for an element of it"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] in ('Sub', 'OpCall') and n.get('op', '[]') == '[]' and len(n['c']) == 2:
        b = f.n(flow.strip(f, n['c'][0]))
        p = parity(f, n['c'][1])
        if (num(f, n['c'][1]) or 0) > 1:
            # a record of several values, not a list of coordinates
            p = None
        if b.get('d') and p is not None and b['k'] in ('Ref', 'Mem'):
            return b['d'], p
    if n['k'] == 'Ref' and n.get('d'):
        j = flow.init_of(f, n['d'])
        if j is not None and j >= 0:
            return element(f, j)
    if n['k'] == 'Bin' and n['op'] in '*/':
        return element(f, n['c'][0])
    return None


def appended(m, f, A, sts, demand):
    """two coordinates appended one after the other take the even and the odd place"""
    runs, last = [], None
    for st in list(sts) + [None]:
        j = flow.strip(f, st) if st is not None else None
        d = None
        if j is not None and f.n(j)['k'] == 'MCall' and (f.callee(j) or {}).get('n') in ('push_back', 'emplace_back') and len(f.args(j)) == 1 and number(m, f.typ(flow.strip(f, f.args(j)[0]))):
            b = f.n(flow.strip(f, f.obj(j)))
            d = b.get('d') if b['k'] == 'Mem' else None
        if d is not None and d == last:
            runs[-1].append(j)
        elif d is not None:
            runs.append([j])
        last = d
    for r in runs:
        if len(r) == 2:
            ax = [A.of(f, f.args(j)[0]) for j in r]
            if set(ax) == {LAT, LON}:
                b = f.n(flow.strip(f, f.obj(r[0])))
                for par, (a, j) in enumerate(zip(ax, r)):
                    demand.setdefault(b['d'], []).append((par, a, f, j))


def same(m, fs):
    """flat arrays which are one: a pointer member set to the data of a vector member"""
    out = set()
    for f in fs:
        for i in f.all():
            if flow.assign(f, i) is None or f.n(i).get('op') != '=':
                continue
            a, b = (flow.strip(f, x) for x in f.n(i)['c'])
            if f.n(b)['k'] == 'MCall' and (f.callee(b) or {}).get('n') == 'data' and f.n(b).get('c'):
                b = flow.strip(f, f.n(b)['c'][0])
                if f.n(a)['k'] == f.n(b)['k'] == 'Mem':
                    out.add((f.n(a)['d'], f.n(b)['d']))
    return out


def check(ctx):
    m = ctx.m
    S = Guards(m)
    A = Axes(m, S)
    ctx.rule('R1: what is handed to a parameter, stored in a member or a variable that stands for latitude (longitude) is never a longitude (latitude) or an elevation; the axis of a value follows from the '
             'members and parameters it is computed from (sums keep it, quotients and products of axes do not), the x, y and z of points are longitude, latitude (elevation) and elevation (latitude)')
    ctx.rule('R2: points are made of longitude and latitude in this order')
    ctx.rule('R3: two coordinates in a flat array keep their places: all reads of one array take the same axis from even and from odd positions')
    fs = [m.fn[x] for x in sorted(m.fn) if m.fn[x].rawcfg is not None and '/test/' not in (m.fn[x].file or '')]
    demand = {}

    def sink(f, i, want, what, node):
        if want is None or i is None or i < 0:
            return
        ctx.count('places for a latitude or longitude')
        got = A.of(f, i)
        if got and got != want:
            ctx.violation('axis:%s:%s:%s' % (f.qn, what, want), f.loc(node), '%s takes %s (%s) for the %s of %s' % (f.qn, f.expr(i)[:80], got, want, what))
        elif got:
            ctx.count('values whose axis is known')
        e = element(f, i)
        if e:
            demand.setdefault(e[0], []).append((e[1], want, f, node))

    for f in fs:
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall', 'Ctor', 'OpCall'):
                d = f.callee(i)
                if not d:
                    continue
                a = f.args(i)
                rec = d.get('cls') if n['k'] == 'Ctor' else None
                if rec in ORDER and len(a) == len(ORDER[rec]):
                    ctx.count('points made')
                    for x, want in zip(a, ORDER[rec]):
                        got = A.strong(f, x)
                        if got and got != want and want != ELE or got and want == ELE:
                            ctx.violation('point:%s:%s' % (f.qn, want), f.loc(i), '%s makes a point with %s (%s) in the place of the %s' % (f.qn, f.expr(x)[:80], got, want))
                    continue
                ts = [m.fn[t] for t in m.targets(f, i) if t in m.fn]
                if n.get('f') in m.fn and not ts:
                    ts = [m.fn[n['f']]]
                for k, x in enumerate(a):
                    ws = {word(g.params[k]['n']) for g in ts if k < len(g.params) and number(m, g.params[k]['t'])} - {None}
                    if not ws and x >= 0:
                        us = {A.wants(g, k) for g in ts if k < len(g.params) and g.rawcfg is not None}
                        if len(us) == 1 and None not in us:
                            ctx.count('coordinates handed to functions which make points of them')
                            got, want = A.strong(f, x), us.pop()
                            if got and got != want:
                                ctx.violation('point:%s:%s' % (f.qn, want), f.loc(i), '%s hands %s (%s) to %s, which makes it the %s of a point' % (f.qn, f.expr(x)[:80], got, d['n'], want))
                    if len(ws) == 1 and x >= 0:
                        sink(f, x, ws.pop(), d['n'], i)
            elif n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i') is not None and v['i'] >= 0 and number(m, v['t']):
                        sink(f, v['i'], word(v.get('n')), v.get('n'), i)
            elif n['k'] in ('Bin', 'OpCall') and (n.get('asg') or n.get('op') == '=') and n['op'] in ('=', '+=', '-='):
                t = f.n(flow.strip(f, n['c'][0]))
                if t['k'] in ('Ref', 'Mem') and number(m, f.typ(flow.strip(f, n['c'][0]))):
                    sink(f, n['c'][1], word(t.get('n')), t.get('n'), i)
                    rec = str(t.get('d')).rsplit('::', 1)[0]
                    if t['k'] == 'Mem' and rec in VEC:
                        got, want = A.strong(f, n['c'][1]), VEC[rec].get(t['n'])
                        ctx.count('points made')
                        if got and want and got != want:
                            ctx.violation('point:%s:%s' % (f.qn, want), f.loc(i), '%s stores %s (%s) in the place of the %s' % (f.qn, f.expr(n['c'][1])[:80], got, want))
            elif n['k'] == 'Block':
                appended(m, f, A, n.get('c', []), demand)
        for x in f.inits:
            if x.get('field') and m.field(x['field']) and number(m, m.field(x['field'])['t']):
                sink(f, x['i'], word(m.field(x['field'])['n']), m.field(x['field'])['n'], x['i'])
    for a, b in sorted(same(m, fs)):
        if a in demand or b in demand:
            demand[a] = demand.get(a, []) + demand.get(b, [])
    for d in sorted(demand):
        for par in (0, 1):
            got = [x for x in demand[d] if x[0] == par]
            ctx.count('coordinates read from flat arrays', len(got))
            # an axis at both parities at one place each is a swap as well
            if len({x[1] for x in got}) > 1:
                few = min((LAT, LON), key=lambda w: (sum(x[1] == w for x in got), w))
                x = next(x for x in got if x[1] == few)
                ctx.violation('array:%s' % x[2].qn, x[2].loc(x[3]), '%s takes the %s from where others find the other coordinate in %s' % (x[2].qn, few, str(d).rsplit('::', 1)[-1]))
                break
    ctx.require('places for a latitude or longitude', 60)
    ctx.require('values whose axis is known', 40)
    ctx.require('points made', 20)
    ctx.assumptions += ['names with the words lat, latitude, lon, lng or longitude mean what they say', 'x, y and z of points in the plane of the map are axes of the map: declared so for Vector2, Vector3 and IntPoint']
