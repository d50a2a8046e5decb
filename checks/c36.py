"""Boxes and rectangles: containment, intersection and expansion mean what they say for every position of the operands."""
import itertools
import re
from ranks import Interp, LV, Iter, Undecided, Thrown, clean

LEVEL = 'other'


class Box:
    """the corner fields of a box type: names of (low, high) leaves per axis"""

    def __init__(self, m, rec, axes, point, paxes):
        self.m, self.rec, self.axes, self.point, self.paxes = m, rec, axes, point, paxes
        self.short = rec.rsplit('::', 1)[-1]


def find(m):
    out = []
    for rec in sorted(m.records):
        L = Interp(m, lambda b, p: 0).leaves(rec) if m.fields(rec) else None
        if not L:
            continue
        if ('minPoint', 'latitude') in L and ('maxPoint', 'longitude') in L:
            pt = clean(next(f['t'] for f in m.fields(rec) if f['n'] == 'minPoint'))
            out.append(Box(m, rec, [(('minPoint', a), ('maxPoint', a)) for a in ('latitude', 'longitude')], pt, [('latitude',), ('longitude',)]))
        elif ('xMin',) in L and ('yMax',) in L:
            for f in sorted(m.fn.values(), key=lambda f: f.id):
                if f.cls == rec and f.name == 'contains' and len(f.params) == 1:
                    out.append(Box(m, rec, [(('xMin',), ('xMax',)), (('yMin',), ('yMax',))], clean(f.params[0]['t']), [('x',), ('y',)]))
                    break
    return out


R4 = [(a, b) for a in range(4) for b in range(a, 4)]


def methods(m, b, name, nparams, ptype=None):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.cls == b.rec and f.name == name and len(f.params) == nparams and f.rawcfg is not None and (ptype is None or clean(f.params[0]['t']) == ptype):
            yield f


class Run:
    def __init__(self, ctx, b, f, title):
        self.ctx, self.b, self.f = ctx, b, f
        self.key = '%s::%s(%s)' % (b.short, f.name, ', '.join(clean(p['t']).rsplit('::', 1)[-1] for p in f.params))
        if len(self.key) > 90:
            self.key = '%s::%s(...)' % (b.short, f.name)
        self.bad = False

    def vals(self, this, other=None, point=None, seq=()):
        b = self.b
        v = {}
        for (lo, hi), iv in zip(b.axes, this or ()):
            v['a', lo], v['a', hi] = iv
        for (lo, hi), iv in zip(b.axes, other or ()):
            v['b', lo], v['b', hi] = iv
        for ax, x in zip(b.paxes, point or ()):
            v['p', ax] = x
        for k, q in enumerate(seq):
            for ax, x in zip(b.paxes, q):
                v['s', (k,) + ax] = x
        return v

    def do(self, v, args, mem=None):
        def given(base, p):
            if (base, p) in v:
                return v[base, p]
            raise Undecided('reads %s.%s' % (base, '.'.join(map(str, p))))
        it = Interp(self.ctx.m, given)
        if mem:
            it.mem.update(mem)
        r = it.call(self.f, LV('a'), args)
        self.ctx.count('positions evaluated')
        return it, r

    def after(self, it):
        return [(it.read(LV('a', lo)), it.read(LV('a', hi))) for lo, hi in self.b.axes]

    def report(self, kind, msg, detail):
        if not self.bad:
            self.bad = True
            self.ctx.violation('%s:%s' % (kind, self.key), self.f.loc(), '%s %s' % (self.key, msg), [detail])


def guarded(ctx, r, fn):
    ctx.count('operations')
    try:
        fn()
        if not r.bad:
            ctx.sample('%s: every position of the operands agrees' % r.key)
    except (Undecided, Thrown) as e:
        ctx.count('operations outside the vocabulary')
        ctx.sample('%s not decided: %s' % (r.key, e))


def check(ctx):
    m = ctx.m
    ctx.rule('the operations of box types only compare and combine coordinates: they are evaluated for every relative position of the operands (all orderings of their corners)')
    ctx.rule('contains(point): true strictly inside, false outside; contains(box): exactly both corners contained; intersects: true when interiors overlap, false when apart, the same with operands exchanged')
    ctx.rule('expand gives the smallest box around both operands; expanding the empty (default) box by a point gives that point; width, height and centre follow from the corners')
    for b in find(m):
        ctx.count('box types')
        pts = list(itertools.product((-1, 0, 0.5, 1, 2, 3, 4), repeat=2))
        # containment of points
        for f in methods(m, b, 'contains', 1, b.point):
            r = Run(ctx, b, f, '')

            def go():
                for iv in itertools.product(R4, repeat=2):
                    for p in pts:
                        _, v = r.do(r.vals(iv, point=p), [LV('p')])
                        v = bool(v)
                        inside = all(lo < x < hi for (lo, hi), x in zip(iv, p))
                        outside = any(x < lo or x > hi for (lo, hi), x in zip(iv, p))
                        if inside and not v:
                            r.report('contains', 'denies a point inside', 'box %s, point %s' % (iv, p))
                        if outside and v:
                            r.report('contains', 'accepts a point outside', 'box %s, point %s' % (iv, p))
            guarded(ctx, r, go)
        for f in methods(m, b, 'contains', 1, b.rec):
            r = Run(ctx, b, f, '')

            def go():
                for iv in itertools.product(R4, repeat=2):
                    for jv in itertools.product(R4, repeat=2):
                        _, v = r.do(r.vals(iv, jv), [LV('b')])
                        v = bool(v)
                        inside = all(lo < l2 and h2 < hi for (lo, hi), (l2, h2) in zip(iv, jv))
                        outside = any(l2 < lo or h2 > hi for (lo, hi), (l2, h2) in zip(iv, jv))
                        if inside and not v or outside and v:
                            r.report('contains', 'accepts a box that is not inside' if v else 'denies a box inside', 'box %s, other %s' % (iv, jv))
            guarded(ctx, r, go)
        for f in methods(m, b, 'intersects', 1, b.rec):
            r = Run(ctx, b, f, '')

            def go():
                T = {}
                boxes = list(itertools.product(R4, repeat=2))
                for iv in boxes:
                    for jv in boxes:
                        _, v = r.do(r.vals(iv, jv), [LV('b')])
                        T[iv, jv] = v = bool(v)
                        apart = any(max(l1, l2) > min(h1, h2) for (l1, h1), (l2, h2) in zip(iv, jv))
                        over = all(max(l1, l2) < min(h1, h2) for (l1, h1), (l2, h2) in zip(iv, jv)) or \
                            all(max(l1, l2) < min(h1, h2) or l1 < l2 == h2 < h1 or l2 < l1 == h1 < h2 or l1 == h1 == l2 == h2 for (l1, h1), (l2, h2) in zip(iv, jv))
                        if apart and v:
                            r.report('intersects', 'is true for boxes that are apart', 'box %s, other %s' % (iv, jv))
                        if over and not v:
                            r.report('intersects', 'is false for boxes that overlap', 'box %s, other %s' % (iv, jv))
                for (x, y), v in T.items():
                    if T[y, x] != v:
                        r.report('intersects', 'depends on the order of its operands', 'box %s, other %s' % (x, y))
            guarded(ctx, r, go)
        for name in ('expand', 'operator+='):
            for f in methods(m, b, name, 1, b.rec):
                r = Run(ctx, b, f, '')

                def go():
                    for iv in itertools.product(R4, repeat=2):
                        for jv in itertools.product(R4, repeat=2):
                            it, _ = r.do(r.vals(iv, jv), [LV('b')])
                            want = [(min(l1, l2), max(h1, h2)) for (l1, h1), (l2, h2) in zip(iv, jv)]
                            if r.after(it) != want:
                                r.report('expand', 'is not the smallest box around both', 'box %s, other %s' % (iv, jv))
                guarded(ctx, r, go)
        for f in methods(m, b, 'expand', 1, b.point):
            r = Run(ctx, b, f, '')

            def go():
                for iv in itertools.product(R4, repeat=2):
                    for p in pts:
                        it, _ = r.do(r.vals(iv, point=p), [LV('p')])
                        if r.after(it) != [(min(lo, x), max(hi, x)) for (lo, hi), x in zip(iv, p)]:
                            r.report('expand', 'is not the smallest box around both', 'box %s, point %s' % (iv, p))
                # from the empty box
                for c in m.fn.values():
                    if c.cls == b.rec and c.kind == 'ctor' and not c.params and c.rawcfg is not None:
                        for p in itertools.product((-89, -1, 0, 1, 89), repeat=2):
                            it = Interp(m, lambda base, q: 0)
                            it.call(c, LV('a'), [])
                            _, v = it, None
                            it2, _ = r.do(r.vals(None, point=p), [LV('p')], mem={k: v for k, v in it.mem.items() if k[0] == 'a'})
                            if r.after(it2) != [(x, x) for x in p]:
                                r.report('empty', 'does not shrink the empty box to the first point', 'point %s gives %s' % (p, r.after(it2)))
            guarded(ctx, r, go)
        for f in methods(m, b, 'expand', 2):
            r = Run(ctx, b, f, '')

            def go():
                for k in (0, 1, 2):
                    for seq in itertools.product([(-1, 5), (0, 0), (4, -2), (1, 2)], repeat=k):
                        it, _ = r.do(r.vals(((0, 2), (1, 3)), seq=seq), [Iter('s', 0, ''), Iter('s', k, '')])
                        want = [(min([lo] + [s[a] for s in seq]), max([hi] + [s[a] for s in seq])) for a, (lo, hi) in enumerate(((0, 2), (1, 3)))]
                        if r.after(it) != want:
                            r.report('expand', 'leaves out elements of the range', 'range %s' % (seq,))
            guarded(ctx, r, go)
        for name, want in (('width', lambda iv: iv[1 if b.rec.endswith('BoundingBox') else 0]), ('height', lambda iv: iv[0 if b.rec.endswith('BoundingBox') else 1])):
            for f in methods(m, b, name, 0):
                r = Run(ctx, b, f, '')

                def go():
                    for iv in itertools.product(R4, repeat=2):
                        _, v = r.do(r.vals(iv), [])
                        w = want(iv)
                        if v != w[1] - w[0]:
                            r.report('extent', 'is not the extent of the box', 'box %s' % (iv,))
                guarded(ctx, r, go)
        for f in methods(m, b, 'center', 0):
            r = Run(ctx, b, f, '')

            def go():
                for iv in itertools.product(R4, repeat=2):
                    it, v = r.do(r.vals(iv), [])
                    c = [it.read(LV(v.b, v.p + ax)) for ax in b.paxes]
                    if c != [(lo + hi) / 2 for lo, hi in iv]:
                        r.report('centre', 'is not the centre of the box', 'box %s' % (iv,))
            guarded(ctx, r, go)
        for f in methods(m, b, 'isValid', 0):
            r = Run(ctx, b, f, '')

            def go():
                for iv in itertools.product(itertools.product(range(3), repeat=2), repeat=2):
                    _, v = r.do(r.vals(iv), [])
                    if bool(v) and any(lo > hi for lo, hi in iv) or not v and all(lo < hi for lo, hi in iv):
                        r.report('valid', 'accepts an inverted box' if v else 'rejects a proper box', 'box %s' % (iv,))
            guarded(ctx, r, go)
    ctx.require('box types', 2)
    ctx.require('operations', 8)
