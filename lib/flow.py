"""Path conditions on control-flow graphs: which branch outcomes and which calls every way to (or from) a construct passes."""


def strip(f, i):
    while f.n(i)['k'] in ('Cast', 'Paren', 'Clean', 'Mat') and f.n(i).get('c'):
        i = f.n(i)['c'][0]
    return i


def normal(S, f, c, pol, depth=0):
    """the atom a branch on c with outcome pol decides: negations, casts and once-assigned locals removed"""
    while depth < 12:
        depth += 1
        c = strip(f, c)
        n = f.n(c)
        if n['k'] == 'Un' and n['op'] == '!':
            c = n['c'][0]
            pol = not pol
            continue
        if n['k'] == 'OpCall' and n['op'] == '!' and len(n['c']) == 1:
            c = n['c'][0]
            pol = not pol
            continue
        if n['k'] == 'Bin' and n['op'] in ('==', '!=') and S is not None:
            # comparison with a boolean constant
            a, b = n['c']
            for x, y in ((a, b), (b, a)):
                q = strip(f, y)
                if f.n(q)['k'] == 'Bool' and 'bool' in f.typ(x):
                    c = x
                    v = bool(f.n(q).get('v'))
                    if (n['op'] == '==') != v:
                        pol = not pol
                    break
            else:
                return c, pol
            continue
        if n['k'] == 'Ref' and S is not None and 'd' in n:
            i = init_of(f, n['d'])
            if i is not None:
                c = i
                continue
        return c, pol
    return c, pol


def init_of(f, var):
    """initialiser of a local which is never assigned afterwards"""
    if not hasattr(f, '_inits1'):
        f._inits1 = {}
        asg = set()
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i') is not None and v['i'] >= 0:
                        f._inits1[v['d']] = v['i']
            elif assign(f, i) is not None or n['k'] == 'Un' and n['op'] in ('++', '--', '&'):
                t = strip(f, n['c'][0])
                if f.n(t)['k'] == 'Ref':
                    asg.add(f.n(t)['d'])
        for d in asg:
            f._inits1.pop(d, None)
    return f._inits1.get(var)


def decide(S, f, c, pol, pred, depth=0):
    """does a branch on c with outcome pol establish pred: a conjunction by one of its parts, a disjunction by all of them"""
    a, ap = normal(S, f, c, pol)
    if pred(f, S.cond(f, c, pol), a, ap):
        return True
    n = f.n(a)
    if n['k'] == 'Bin' and n['op'] in ('&&', '||') and depth < 12:
        r = [decide(S, f, x, ap, pred, depth + 1) for x in n['c']]
        return any(r) if (n['op'] == '&&') == ap else all(r)
    if depth > 8 or S is None:
        return False
    if n['k'] == 'Ref' and n.get('dk') == 'param' and 'bool' in f.typ(a) and not f.isLambda and not reassigned(f, n['d']):
        # a flag computed by the callers
        at = next((j for j, p in enumerate(f.params) if p['d'] == n['d']), None)
        cs = S.m.callers(f.id)
        return at is not None and bool(cs) and all(at < len(S.m.fn[c].args(ci)) and S.m.fn[c].rawcfg is not None and
                                                   outcome(S, S.m.fn[c], S.m.fn[c].args(ci)[at], ap, pred, depth + 1) for c, ci in cs)
    if n['k'] == 'Cond' and 'bool' in f.typ(a):
        return all(outcome(S, f, x, ap, pred, depth + 1) or decide(S, f, n['c'][0], x == n['c'][1], pred, depth + 1) for x in n['c'][1:])
    if n['k'] in ('Call', 'MCall') and 'bool' in f.typ(a):
        # a test of its own
        ts = [t for t in S.m.targets(f, a)]
        return bool(ts) and all(t in S.m.fn and S.m.fn[t].rawcfg is not None and result(S, S.m.fn[t], ap, pred, depth + 1) for t in ts)
    return False


def outcome(S, f, x, pol, pred, depth):
    """value x of f is pol only where pred holds"""
    a, ap = normal(S, f, x, pol)
    if f.n(a)['k'] == 'Bool':
        return bool(f.n(a).get('v')) != ap
    return decide(S, f, x, pol, pred, depth)


def result(S, f, pol, pred, depth):
    """f returns pol only where pred holds"""
    key = (f.id, pol)
    if key in result.busy:
        return False
    result.busy.add(key)
    try:
        rs = [i for i in f.all() if f.n(i)['k'] == 'Return' and f.n(i).get('c')]
        es = None
        for i in rs:
            if outcome(S, f, f.n(i)['c'][0], pol, pred, depth):
                continue
            if es is None:
                es = edges(S, f, pred, depth)
            t = f.cfg.point(i)
            if t is None or not es or any(t in f.cfg.reach(r, edge_ok=lambda p, q, l: (p, q, l) not in es) for r in roots(f)):
                return False
        return bool(rs)
    finally:
        result.busy.discard(key)


result.busy = set()


def reassigned(f, d):
    if not hasattr(f, '_reassigned'):
        f._reassigned = set()
        for i in f.all():
            t = assign(f, i)
            if t is None and f.n(i)['k'] == 'Un' and f.n(i)['op'] in ('++', '--', '&'):
                t = f.n(i)['c'][0]
            if t is not None and f.n(strip(f, t))['k'] == 'Ref':
                f._reassigned.add(f.n(strip(f, t)).get('d'))
    return d in f._reassigned


def assign(f, i):
    """the target of an assignment"""
    n = f.n(i)
    if n.get('asg') or n['k'] == 'OpCall' and n['op'] in ASG:
        return n['c'][0]
    return None


ASG = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>=')


def edges(S, f, pred, depth=0):
    """branch edges (p, q, label) for which pred(f, facts, atom, polarity) holds"""
    out = set()
    g = f.cfg
    cache = {}
    for p in range(len(g.succ)):
        for q, lab in g.succ[p]:
            if not lab or lab[0] == 'case' or len(lab) != 2:
                continue
            if lab not in cache:
                c, pol = lab
                ok = False
                if f.n(c)['k'] != 'RFor':
                    ok = decide(S, f, c, pol, pred, depth)
                cache[lab] = ok
            if cache[lab]:
                out.add((p, q, lab))
    return out


def roots(f):
    return {f.cfg.entry} | set(f.cfg.handlers.values())


def needs_edge(S, f, i, pred):
    """every way to node i takes a branch for which pred holds"""
    g = f.cfg
    t = g.point(i)
    if t is None:
        return False
    es = edges(S, f, pred)
    if not es:
        return False
    for r in roots(f):
        if t == r or t in g.reach(r, edge_ok=lambda p, q, l: (p, q, l) not in es):
            return False
    return True


def needs_edge_ctx(S, m, f, i, pred, depth=0, seen=()):
    """needs_edge in f or at every call of f"""
    if needs_edge(S, f, i, pred):
        return True
    if depth > 4 or f.id in seen:
        return False
    if f.isLambda and not m.callers(f.id):
        return False
    cs = m.callers(f.id)
    return bool(cs) and all(m.fn[c].rawcfg is not None and needs_edge_ctx(S, m, m.fn[c], ci, pred, depth + 1, seen + (f.id,)) for c, ci in cs)


def must_hit(f, start, good, ok_edges=(), exits=None):
    """every way from point start to the exit passes a point in good or an edge in ok_edges"""
    g = f.cfg
    if start in good:
        return True
    r = g.reach(start, avoid=good, edge_ok=lambda p, q, l: (p, q, l) not in ok_edges)
    return g.exit not in r


class MustCall:
    """functions that reach a construct (pred(f, node)) on every normal way out"""

    def __init__(self, m, pred, S=None, okedge=None):
        self.m = m
        self.pred = pred
        self.S = S
        self.okedge = okedge
        self.memo = {}

    def points(self, f, depth=0):
        out = set()
        for i in f.all():
            k = f.n(i)['k']
            if self.pred(f, i) or k in ('Call', 'MCall', 'OpCall', 'Ctor') and self.calls(f, i, depth):
                p = f.cfg.point(i)
                if p is not None:
                    out.add(p)
        return out

    def calls(self, f, i, depth=0):
        ts = self.m.targets(f, i) if depth < 6 else []
        return bool(ts) and all(self.must(t if isinstance(t, str) else t[0], depth + 1) for t in ts)

    def must(self, fid, depth=0):
        f = self.m.fn.get(fid)
        if f is None or f.rawcfg is None:
            return False
        if fid not in self.memo:
            self.memo[fid] = False
            ok = edges(self.S, f, self.okedge) if self.okedge else ()
            self.memo[fid] = must_hit(f, f.cfg.entry, self.points(f, depth), ok)
        return self.memo[fid]
