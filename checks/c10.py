"""Tags of elements are sorted by key wherever an element leaves the code that fills them in."""
import re
from guards import Guards
import flow

LEVEL = 'other'
TAG = re.compile(r'std::vector<utymap::entities::Tag\b')
UNSORT = ('push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'resize', 'swap')
KEEP = ('erase', 'pop_back', 'reserve', 'shrink_to_fit', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'data', 'front', 'back', 'at')


class Tags:
    def __init__(self, m):
        self.m = m
        self.S = Guards(m)
        self.sum = {}
        self.states = {}
        self.unknown = {}
        self.retU = {}

    def istags(self, t):
        return bool(TAG.search(self.m.noref(t))) and self.m.tmpl(t) == 'std::vector'

    def path(self, f, i):
        return self.S.path(f, i)

    def objpath(self, f, i):
        n = f.n(i)
        o = self.S.path(f, f.obj(i)) if f.obj(i) is not None else None
        if o is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.S.arrowop(f, f.obj(i)):
            o = self.S.deref(o)
        return o

    # -------------------------------------------------------------- what one node does: list of ('U'|'S'|'copy', path, source)
    def ops(self, f, i):
        n = f.n(i)
        k = n['k']
        out = []
        if k == 'Decl':
            for v in n['vars']:
                p = 'v' + str(v['d'])
                out.append(('new', p, None))
                ini = v.get('i')
                if self.istags(v['t']) and not v['t'].rstrip().endswith('&') and ini is not None and ini >= 0:
                    out += self.from_expr(f, p, ini)
            return out
        if k == 'MCall' or k == 'OpCall':
            d = f.callee(i)
            if d and not d.get('src'):
                if k == 'MCall' and f.obj(i) is not None and self.istags(self.otype(f, i)):
                    o = self.objpath(f, i)
                    if d['n'] == 'clear':
                        out.append(('S', o, i))
                    elif d['n'] in UNSORT and not (d['n'] in ('push_back', 'emplace_back') and self.maxtag(f, i)):
                        out.append(('U', o, i))
                    return out
                if k == 'OpCall' and n['op'] == '=' and self.istags(f.typ(n['c'][0])):
                    return self.from_expr(f, self.path(f, n['c'][0]), n['c'][1])
        a = flow.assign(f, i)
        if a is not None:
            # a key inside of a collection
            t = flow.strip(f, a)
            if f.n(t)['k'] == 'Mem' and f.n(t).get('d', '').endswith('entities::Tag::key') or f.n(t)['k'] in ('OpCall', 'Sub') and f.n(t).get('op') == '[]' and self.istags(f.typ(f.n(t)['c'][0])):
                q = self.S.path(f, t)
                mo = re.match(r'^(.*)\[', q) if q else None
                for b in f.walk(t):
                    if f.n(b)['k'] == 'OpCall' and f.n(b).get('op') == '[]' and self.istags(f.typ(f.n(b)['c'][0])):
                        out.append(('U', self.S.path(f, f.n(b)['c'][0]), i))
            return out
        if k == 'Call':
            d = f.callee(i)
            if d and not d.get('src'):
                if d['n'] in ('sort', 'stable_sort'):
                    args = f.args(i)
                    o = self.range(f, args)
                    if o is not None:
                        out.append(('S', o, i) if len(args) == 2 or self.bykey(f, args[2]) else ('U', o, i))
                    return out
                if d['n'] in ('transform', 'copy', 'copy_if', 'generate', 'fill', 'reverse', 'shuffle', 'rotate', 'swap', 'iter_swap', 'partition', 'for_each', 'merge'):
                    for b in f.args(i)[(2 if d['n'] in ('transform', 'copy', 'copy_if') else 0):]:
                        o = self.iter(f, b)
                        if o is not None and d['n'] != 'for_each':
                            out.append(('U', o, i))
                    if d['n'] == 'swap':
                        for b in f.args(i):
                            if self.istags(f.typ(b)):
                                out.append(('U', self.path(f, b), i))
        return out

    def otype(self, f, i):
        t = f.typ(f.obj(i))
        if f.n(i).get('arrow') and not self.istags(t):
            return self.m.pointee(t) or t
        return t

    def iter(self, f, b):
        for j in f.walk(b):
            if f.n(j)['k'] == 'MCall' and (f.callee(j) or {}).get('n') in ('begin', 'end', 'rbegin') and self.istags(self.otype(f, j)):
                return self.objpath(f, j) or '?'
            if f.n(j)['k'] == 'Call' and (f.callee(j) or {}).get('n') in ('back_inserter', 'inserter', 'begin', 'end') and f.args(j) and self.istags(f.typ(f.args(j)[0])):
                return self.path(f, f.args(j)[0]) or '?'
        return None

    def range(self, f, args):
        """the collection whose whole range [begin, end) is given"""
        if len(args) < 2:
            return None
        r = []
        for x, want in zip(args[:2], ('begin', 'end')):
            x = flow.strip(f, x)
            while f.n(x)['k'] == 'Ctor' and len(f.n(x).get('c', [])) == 1:
                x = flow.strip(f, f.n(x)['c'][0])
            if f.n(x)['k'] == 'Ref' and flow.init_of(f, f.n(x).get('d')) is not None:
                x = flow.strip(f, flow.init_of(f, f.n(x)['d']))
            d = f.callee(x) if f.n(x)['k'] in ('MCall', 'Call') else None
            if not d or d['n'] != want:
                return None
            if f.n(x)['k'] == 'MCall':
                if not self.istags(self.otype(f, x)):
                    return None
                r.append(self.objpath(f, x))
            else:
                if not self.istags(f.typ(f.args(x)[0])):
                    return None
                r.append(self.path(f, f.args(x)[0]))
        return r[0] if r[0] == r[1] else None

    def bykey(self, f, c):
        """comparison function object: first.key < second.key"""
        for j in f.walk(c):
            if f.n(j)['k'] == 'Lambda':
                g = self.m.fn.get(f.n(j).get('f') or f.n(j).get('call'))
                if g is not None:
                    return keyless(g)
            if f.n(j)['k'] == 'Ref' and f.n(j).get('d') in self.m.fn:
                return keyless(self.m.fn[f.n(j)['d']])
        return 'std::less' in f.typ(c)

    def maxtag(self, f, i):
        a = f.args(i)
        e = ' '.join(f.expr(x, 12) for x in a[:1])
        if self.S.path(f, a[0]) if a else None:
            e += self.S.path(f, a[0]) or ''
        for x in a[:1]:
            x = flow.strip(f, x)
            while f.n(x)['k'] in ('Cast', 'Ctor') and len(f.n(x).get('c', [])) == 1:
                x = flow.strip(f, f.n(x)['c'][0])
            if f.n(x)['k'] == 'Ref':
                v = self.S.vars(f).get(f.n(x).get('d'))
                if v and v[0] == 'local' and v[2] is not None and v[2] >= 0 and v[3] == 0:
                    x = v[2]
            for j in f.walk(x):
                if f.n(j)['k'] == 'Ctor' and f.callee(j) and 'entities::Tag' in str(f.callee(j).get('cls')) and len(f.args(j)) == 2:
                    q = self.S.path(f, f.args(j)[0])
                    e0 = f.expr(f.args(j)[0], 12)
                    return 'max()' in e0 or q in ('#4294967295',) or bool(q) and 'max()' in q
        if (f.callee(i) or {}).get('n') == 'emplace_back' and a:
            return 'max()' in f.expr(a[0], 12)
        return False

    def from_expr(self, f, p, e):
        """the collection p gets its value from expression e"""
        e = flow.strip(f, e)
        n = f.n(e)
        while n['k'] in ('Ctor', 'Call') and len(f.args(e)) == 1 and (n['k'] == 'Ctor' and self.istags(f.typ(f.args(e)[0])) or n['k'] == 'Call' and (f.callee(e) or {}).get('n') in ('move', 'forward')):
            e = flow.strip(f, f.args(e)[0])
            n = f.n(e)
        if n['k'] == 'Ctor':
            a = f.args(e)
            if not a:
                return [('S', p, e)]
            if len(a) >= 2 and self.iter(f, a[0]):
                return [('copy', p, self.iter(f, a[0]))]
            return [('U', p, e)]
        if n['k'] == 'InitList':
            return [('S' if len(n.get('c', [])) < 2 else 'U', p, e)]
        if n['k'] in ('Call', 'MCall') and f.callee(e) and f.callee(e).get('src'):
            ts = self.m.targets(f, e)
            if any(self.retU.get(t) for t in ts):
                return [('U', p, e)]
            q = self.S.path(f, e)
            return [('S', p, e)]
        if n['k'] == 'Cond':
            return [x for c in n['c'][1:] for x in self.from_expr(f, p, c)]
        q = self.S.path(f, e)
        return [('copy', p, q)] if q else [('S', p, e)]

    # -------------------------------------------------------------- per function
    def transfer(self, f):
        S = self.S

        def tr(p, x, s):
            if not x or x[0] != 's':
                return s
            i = x[1]
            for op, q, src in self.opsc(f, i):
                if q is None:
                    if op == 'U':
                        self.unknown[(f.id, i)] = 1
                    continue
                if op == 'new':
                    s = frozenset(y for y in s if not rooted(y[1], q))
                elif op == 'U':
                    s = s - {('S', q)} | {('U', q)}
                elif op == 'S':
                    s = s - {('U', q)} | {('S', q)}
                elif op == 'copy':
                    if ('U', src) in s:
                        s = s - {('S', q)} | {('U', q)}
                    else:
                        s = s - {('U', q)} | {('S', q)}
            # callee effects
            if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                for (op, q) in self.effects(f, i):
                    if op == 'U':
                        s = s - {('S', q)} | {('U', q)}
                    else:
                        s = s - {('U', q)} | {('S', q)}
            return s
        return tr

    def opsc(self, f, i):
        key = (f.id, i)
        c = self.cache.get(key)
        if c is None:
            c = self.cache[key] = self.ops(f, i)
        return c

    def effects(self, f, i):
        out = []
        for t in sorted(self.m.targets(f, i)):
            s = self.sum.get(t)
            if not s:
                continue
            g = self.m.fn[t]
            b = self.S.binding(f, i, g)
            for op, p in s:
                q = self.S.subst(p, b, g)
                if q is not None:
                    out.append((op, q))
        # with several possible callees only what may be unsorted is kept
        us = {q for op, q in out if op == 'U'}
        return [x for x in out if x[0] == 'U' or x[1] not in us]

    def run(self):
        self.cache = {}
        m = self.m
        cand = [f for f in m.fn.values() if f.rawcfg is not None and not any('istream' in p['t'] for p in f.params)]
        users = {}
        for f in cand:
            for i in f.all():
                if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                    for t in m.targets(f, i):
                        users.setdefault(t, set()).add(f.id)
        direct = [f.id for f in cand if any(self.opsc(f, i) and any(o[0] != 'new' for o in self.opsc(f, i)) for i in f.all())]
        todo = list(direct)
        rounds = {}
        while todo:
            fid = todo.pop(0)
            f = m.fn[fid]
            if any('istream' in p['t'] for p in f.params):
                continue
            rounds[fid] = rounds.get(fid, 0) + 1
            for i in f.all():
                if any(o[0] in ('S', 'U', 'copy') for o in self.opsc(f, i)):
                    # depends on what callees return
                    self.cache.pop((f.id, i), None)
            IN, OUT = f.cfg.forward(frozenset(), self.transfer(f), lambda a, b: frozenset({x for x in a | b if x[0] == 'U'} | {x for x in a & b if x[0] == 'S'}), handler_init=frozenset())
            self.states[fid] = IN
            ex = IN.get(f.cfg.exit, frozenset())
            own = self.S.vars(f)
            par = {str(p['d']) for p in f.params}
            new = tuple(sorted(x for x in ex if self.outward(f, x[1], par)))
            ru = self.returns_unsorted(f, IN)
            if (new, ru) != (self.sum.get(fid, ()), self.retU.get(fid, False)) and rounds[fid] < 10:
                self.sum[fid] = new
                self.retU[fid] = ru
                todo += sorted(u for u in users.get(fid, ()) if u not in todo)

    def outward(self, f, p, par):
        """can p be expressed at the callers"""
        r = root(p)
        if r == 'this' or r[1:] in par:
            return True
        return f.isLambda and r.startswith('v') and not any(str(x) == r[1:] for x in self.S.vars(f))

    def returns_unsorted(self, f, IN):
        if not self.istags((f.decl or {}).get('ret', '') or ''):
            return False
        for i in f.all():
            if f.n(i)['k'] == 'Return' and f.n(i).get('c'):
                p = f.cfg.point(i)
                st = IN.get(p, frozenset())
                for op, q, src in self.from_expr(f, '$', f.n(i)['c'][0]):
                    if op == 'U' or op == 'copy' and ('U', src) in st:
                        return True
        return False


def keyless(g):
    """returns first.key < second.key"""
    rs = [g.n(i)['c'][0] for i in g.all() if g.n(i)['k'] == 'Return' and g.n(i).get('c')]
    if len(rs) != 1:
        return False
    n = g.n(flow.strip(g, rs[0]))
    if n['k'] != 'Bin' or n['op'] not in ('<', '>'):
        return False
    a, b = n['c'] if n['op'] == '<' else n['c'][::-1]
    na, nb = g.n(flow.strip(g, a)), g.n(flow.strip(g, b))
    if not (na['k'] == 'Mem' and nb['k'] == 'Mem' and na['n'] == nb['n'] == 'key'):
        return False
    ra, rb = g.n(flow.strip(g, na['c'][0])) if na.get('c') else {}, g.n(flow.strip(g, nb['c'][0])) if nb.get('c') else {}
    if ra.get('k') == 'This':
        return rb.get('k') == 'Ref'
    ps = [p['d'] for p in g.params]
    return ra.get('d') in ps and rb.get('d') in ps and ps.index(ra['d']) < ps.index(rb['d'])


def root(p):
    mo = re.match(r'^(this|g[^.\[]*|v[A-Za-z_]\w*@\d+:\d+(?:#\d+)?)', p)
    return mo.group(1) if mo else p


def rooted(p, v):
    return root(p) == v


def check(ctx):
    m = ctx.m
    ctx.rule('R1: a collection of element tags that has been added to, filled, or assigned from such a collection is sorted over its whole range by key before the element (or the collection) is handed to other code, stored, returned or kept at the end of the function')
    ctx.rule('R2: the order used for sorting is the order of keys, which the binary search over tags compares')
    T = Tags(m)
    T.run()
    S = T.S
    less = [f for f in m.fn.values() if f.qn == 'utymap::entities::Tag::operator<']
    for f in less:
        ctx.count('tag comparisons')
        if not keyless(f):
            ctx.violation('order:%s' % f.qn, f.loc(), 'tags are not compared by key', [])
    for f in m.fn.values():
        if f.rawcfg is None or f.id not in T.states:
            continue
        IN = T.states[f.id]
        nops = sum(1 for i in f.all() for o in T.opsc(f, i) if o[0] != 'new' and o[2] is not None)
        if nops:
            ctx.count('functions that fill in tags')
            ctx.count('operations on tags', nops)
        for i in f.all():
            if (f.id, i) in T.unknown:
                ctx.violation('unknown:%s:%s' % (f.qn, f.expr(i)[:60]), f.loc(i), '%s adds tags to an element which cannot be followed' % f.qn, [])
        par = {str(p['d']) for p in f.params}
        for p, st in IN.items():
            us = [q for op, q in st if op == 'U']
            if not us:
                continue
            x = f.cfg.payload[p]
            if not x or x[0] != 's':
                continue
            i = x[1]
            n = f.n(i)
            if n['k'] in ('Call', 'MCall', 'Ctor', 'OpCall') and f.callee(i) and (f.callee(i).get('src') or n['k'] in ('MCall', 'OpCall') and m.targets(f, i)):
                touched = {q for op, q in T.effects(f, i)}
                for k, a in enumerate(f.args(i)):
                    if a is None or a < 0:
                        continue
                    q = S.path(f, a)
                    if q is None:
                        continue
                    for u in us:
                        if (u == q or u.startswith(q + '.')) and u not in touched:
                            ctx.violation('use:%s:%s' % (f.qn, f.callee(i)['n']), f.loc(i), '%s hands %s to %s before its tags are sorted' % (f.qn, f.expr(a)[:60], f.callee(i)['n']), [])
                if n['k'] == 'MCall' and (f.callee(i) or {}).get('n') == 'accept' and T.objpath(f, i):
                    q = T.objpath(f, i)
                    for u in us:
                        if u.startswith(q + '.'):
                            ctx.violation('use:%s:accept' % f.qn, f.loc(i), '%s lets %s be visited before its tags are sorted' % (f.qn, f.expr(f.obj(i))[:60]), [])
        ex = IN.get(f.cfg.exit, frozenset())
        for op, q in ex:
            if op != 'U':
                continue
            r = root(q)
            if T.outward(f, q, par) and m.callers(f.id) and not any(p['d'] == r[1:] and not p['t'].rstrip().endswith(('&', '*')) and 'ptr<' not in p['t'] for p in f.params):
                if all(expressible(m, S, f, q, r == 'this')):
                    continue   # judged at the callers
            t = vartype(f, r)
            if t is not None and not t.rstrip().endswith(('&', '*')) and 'ptr<' not in t and r[1:] not in par:
                continue   # a local value
            ctx.violation('exit:%s:%s' % (f.qn, short(q)), f.loc(), '%s leaves %s unsorted' % (f.qn, short(q)), [])
    ctx.require('functions that fill in tags', 5)
    ctx.require('tag comparisons', 1)


def expressible(m, S, f, q, own):
    for c, ci in m.callers(f.id):
        g = m.fn[c]
        b = S.binding(g, ci, f) if g.n(ci).get('f') == f.id else None
        t = S.subst(q, b, f) if b is not None else None
        yield t is not None and not (own and root(t) == 'this')


def vartype(f, r):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if 'v' + str(v['d']) == r:
                    return v['t']
    return None


def short(q):
    return re.sub(r'[\w:()<>, ]*::', '', re.sub(r'@\d+:\d+(#\d+)?', '', q))[:100]
