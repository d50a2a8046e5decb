"""Cancelled requests stop: the caller's token is polled between deliveries and handed on unchanged."""
import re
import flow
from guards import Guards
from c34 import short

LEVEL = 'other'
TOKEN = 'utymap::CancellationToken'
ELEMENT = 'utymap::entities::Element'
VISITOR = 'utymap::entities::ElementVisitor'
MESH = 'utymap::math::Mesh'


def report(ctx, f, i, msg, key):
    ctx.violation(key, f.loc(i) if isinstance(i, int) else f.loc(), msg)


def bare(t):
    return re.sub(r'\b(const|volatile|struct|class) ', '', t or '').rstrip('&* ').strip()


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('every cycle of a request which delivers elements or meshes to a visitor or callback passes the not-cancelled outcome of a poll evaluated since the last delivery')
    ctx.rule('whatever takes a token is handed the token of the caller: a parameter, a reference member or a capture of one, never a token created on the way')
    ctx.rule('a token is polled by reading its flag each time; cancelling it sets the flag')
    ctx.rule('an import which was cancelled erases what it stored')
    P = Polls(m, S)
    entry = [x for x in sorted(m.fn) if m.fn[x].decl.get('extc') and (m.fn[x].file or '').startswith('core/shared/')]
    ctx.count('requests', len(entry))
    # builders are prepared when the first element asks for them
    entry += [x for x in sorted(m.fn) if m.fn[x].name == 'prepare' and m.fn[x].cls and derived(m, m.fn[x].cls, VISITOR)]
    seen = reachable(m, P, entry)
    ctx.count('functions of requests', len(seen))
    for x in seen:
        f = m.fn[x]
        for i in P.sites(f):
            ctx.count('delivery sites')
            if P.cycle(f, i):
                report(ctx, f, i, '%s: elements or meshes are delivered in a loop in which the cancellation token is not polled between two deliveries' % f.name, 'unpolled:' + f.qn.split('::')[-1])
    for x in sorted(m.fn):
        if P.completes(x) and m.fn[x].rawcfg is not None and '/test/' not in (m.fn[x].file or ''):
            f = m.fn[x]
            ctx.count('builders completed')
            # a builder which only hands its one mesh on has no work to be spared
            if P.unpolled(x) and P.many(f):
                report(ctx, f, None, '%s: meshes are built although the request was cancelled' % f.qn.replace('utymap::', ''), 'complete:' + f.cls.split('::')[-1])
    tokens(ctx, m)
    flag(ctx, m)
    cleanup(ctx, m, S, P)
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is not None and '/test/' not in (f.file or ''):
            for i in f.all():
                if P.ispoll(f, i):
                    ctx.count('polls')
    ctx.require('delivery sites', 1)
    ctx.require('tokens handed on', 8)
    ctx.require('polls', 1)


class Polls:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.memo = {}
        self.helper = {}
        self.edgememo = {}
        self.sitememo = {}
        self.out = {}

    def ispoll(self, f, i):
        n = f.n(i)
        return n['k'] == 'MCall' and bool(n.get('c')) and bare(f.typ(n['c'][0])) == TOKEN and short(f, i) == 'isCancelled'

    def poll(self, f, a):
        """True/False: the truth value of atom a when the token is cancelled; None if it is no poll"""
        if self.ispoll(f, a):
            return True
        n = f.n(a)
        if n['k'] in ('Call', 'MCall', 'OpCall'):
            ts = [t for t in self.m.targets(f, a) if t in self.m.fn]
            vs = {self.outcome(t) for t in ts}
            if len(vs) == 1:
                return vs.pop()
        if n['k'] == 'Mem' and bare(f.typ(n['c'][0]) if n.get('c') else '') == TOKEN:
            return True
        return None

    def outcome(self, t, depth=0):
        """value a helper returns whenever the token is cancelled"""
        if t in self.helper:
            return self.helper[t]
        self.helper[t] = None
        f = self.m.fn[t]
        if f.rawcfg is None or (self.m.decls.get(t) or {}).get('ret') not in ('bool', 'const bool'):
            return None
        # functions which deliver are no polls
        vs = set()
        es = self.okedges(f)
        r = f.cfg.reach(f.cfg.entry, edge_ok=lambda p, q, l: (p, q, l) not in es) | {f.cfg.entry}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Return' and n.get('c') and f.cfg.point(i) in r:
                a, ap = flow.normal(self.S, f, n['c'][0], True)
                vs.add(self.value(f, a, ap))
        if len(vs) == 1:
            self.helper[t] = vs.pop()
        return self.helper[t]

    def value(self, f, a, ap):
        n = f.n(a)
        if n['k'] == 'Bool':
            return None
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            for c in n['c']:
                b, bp = flow.normal(self.S, f, c, True)
                v = self.value(f, b, bp)
                if v is not None and v == (n['op'] == '||'):
                    return v == ap
            return None
        v = self.poll(f, a)
        return None if v is None else v == ap

    def okedges(self, f):
        """edges which are not taken once the token is cancelled: {edge: point of the poll}"""
        if f.id in self.edgememo:
            return self.edgememo[f.id]
        self.edgememo[f.id] = {}
        at = {}

        def pred(g, facts, a, ap):
            v = self.poll(g, a)
            if v is not None and v != ap:
                at['p'] = g.cfg.point(a)
                return True
            return False
        out = {}
        g = f.cfg
        for p in range(len(g.succ)):
            for q, lab in g.succ[p]:
                if not lab or lab[0] == 'case' or len(lab) != 2 or f.n(lab[0])['k'] == 'RFor':
                    continue
                at.clear()
                if flow.decide(self.S, f, lab[0], lab[1], pred):
                    e = at.get('p')
                    if any(g.point(x) == e for x in f.walk(lab[0])):
                        # the parts of a condition are evaluated together
                        c = flow.strip(f, lab[0])
                        while f.n(c)['k'] == 'Bin' and f.n(c)['op'] in ('&&', '||') or f.n(c)['k'] == 'Un' and f.n(c)['op'] == '!':
                            c = flow.strip(f, f.n(c)['c'][0])
                        e = g.point(c) if g.point(c) is not None else e
                    out[(p, q, lab)] = (e,)
                else:
                    v = self.polled(f, lab[0], lab[1])
                    if v:
                        out[(p, q, lab)] = v
        self.edgememo[f.id] = out
        return out

    def polled(self, f, c, pol):
        """points of the polls whose last outcome is in the variable c; none unless all that is assigned is a poll"""
        n = f.n(flow.strip(f, c))
        while n['k'] == 'Un' and n['op'] == '!':
            pol = not pol
            n = f.n(flow.strip(f, n['c'][0]))
        if n['k'] == 'Bin' and n['op'] == '&&' and pol or n['k'] == 'Bin' and n['op'] == '||' and not pol:
            for x in n['c']:
                v = self.polled(f, x, pol)
                if v:
                    return v
            return None
        if n['k'] != 'Ref' or 'bool' not in f.typ(flow.strip(f, c) if f.n(flow.strip(f, c))['k'] == 'Ref' else c):
            return None
        out = []
        for i in f.all():
            k = f.n(i)
            v = None
            if k['k'] == 'Decl':
                v = [x.get('i') for x in k['vars'] if x['d'] == n.get('d')]
                if not v:
                    continue
                v = v[0]
            elif flow.assign(f, i) is not None and f.n(flow.strip(f, k['c'][0])).get('d') == n.get('d'):
                v = k['c'][1]
            else:
                continue
            if v is None or v < 0:
                return None
            a, ap = flow.normal(self.S, f, v, True)
            r = self.poll(f, a)
            if r is None or (r == ap) == pol:
                return None
            out.append(f.cfg.point(a))
        return tuple(out) if out and None not in out else None

    def primitive(self, f, i):
        """does the node hand an element or a mesh to a visitor or callback"""
        n = f.n(i)
        m = self.m
        if n['k'] == 'MCall' and n.get('c'):
            r = bare(f.typ(n['c'][0]))
            for a in f.args(i):
                t = bare(f.typ(a))
                if derived(m, r, ELEMENT) and derived(m, t, VISITOR):
                    return self.outward(t)
                if derived(m, r, VISITOR) and derived(m, t, ELEMENT):
                    return self.outward(r)
        if n['k'] == 'OpCall' and n['op'] == '()' and 'std::function' in f.typ(n['c'][0]):
            return any(derived(m, bare(f.typ(a)), ELEMENT) or bare(f.typ(a)) == MESH for a in n['c'][1:])
        return False

    def outward(self, cls):
        """may a visitor of this class call what the caller of the request passed"""
        if cls not in self.out:
            self.out[cls] = True
            m = self.m
            seen, todo = set(), [x for x in sorted(m.fn) if m.fn[x].cls and derived(m, m.fn[x].cls, cls)]
            if any(m.fn[x].rawcfg is not None for x in todo) and cls != VISITOR:
                v = False
                while todo and not v:
                    x = todo.pop()
                    if x in seen or x not in m.fn or m.fn[x].rawcfg is None:
                        continue
                    seen.add(x)
                    f = m.fn[x]
                    for i in f.all():
                        n = f.n(i)
                        if n['k'] == 'OpCall' and n['op'] == '()' and 'std::function' in f.typ(n['c'][0]):
                            v = True
                        elif n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'New'):
                            ts = m.targets(f, i)
                            if n['k'] == 'Call' and not n.get('f'):
                                v = True
                            todo += sorted(ts)
                self.out[cls] = v
        return self.out[cls]

    def many(self, f):
        """does something reached from the function deliver in a loop"""
        seen, todo = set(), [f.id]
        while todo:
            x = todo.pop()
            if x in seen or x not in self.m.fn or self.m.fn[x].rawcfg is None:
                continue
            seen.add(x)
            g = self.m.fn[x]
            for i in self.sites(g):
                p = g.cfg.point(i)
                if p in g.cfg.reach(p):
                    return True
            for i in g.all():
                if g.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'New'):
                    todo += sorted(self.m.targets(g, i))
        return False

    def parents(self):
        """function a lambda is written in"""
        if not hasattr(self, 'par'):
            self.par = {}
            for x in sorted(self.m.fn):
                f = self.m.fn[x]
                if f.rawcfg is not None:
                    for i in f.all():
                        if f.n(i)['k'] == 'Lambda':
                            self.par[f.n(i)['f']] = f
        return self.par

    def completes(self, t):
        """ends of the construction of a tile"""
        f = self.m.fn.get(t)
        return f is not None and f.name == 'complete' and not f.params and f.cls and derived(self.m, f.cls, VISITOR)

    def single(self, f):
        """functions which handle the one element they were given"""
        while f is not None:
            if any(derived(self.m, bare(p['t']), ELEMENT) for p in f.params):
                return True
            f = self.parents().get(f.id) if f.isLambda else None
        return False

    def sites(self, f):
        """points at which something is delivered although the token may be cancelled since the last poll"""
        if f.id not in self.sitememo:
            self.sitememo[f.id] = ()
            out = []
            for i in f.all():
                if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor') and f.cfg.point(i) is not None:
                    if self.primitive(f, i) or any(self.unpolled(t) for t in sorted(self.m.targets(f, i)) if t in self.m.fn):
                        out.append(i)
            self.sitememo[f.id] = tuple(out)
        return self.sitememo[f.id]

    def unpolled(self, t):
        """may the function deliver before its first poll"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = False
        f = self.m.fn[t]
        if f.rawcfg is None or '/test/' in (f.file or '') or f.isLambda and self.single(f):
            return False
        ok = self.okedges(f)
        r = f.cfg.reach(f.cfg.entry, edge_ok=lambda p, q, l: (p, q, l) not in ok) | {f.cfg.entry}
        v = any(f.cfg.point(i) in r for i in self.sites(f))
        self.memo[t] = v
        return v

    def cycle(self, f, i):
        """can the site be passed again without a poll in between"""
        g = f.cfg
        d = g.point(i)
        ok = self.okedges(f)
        live = set()
        for e, at in ok.items():
            # the poll is repeated after each delivery
            if at[0] is not None and (d in at or e[0] not in g.reach(d, avoid=set(at))):
                live.add(e)
        return d in g.reach(d, edge_ok=lambda p, q, l: (p, q, l) not in live)


def derived(m, t, base):
    """class t or one of its bases is base"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x == base:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += (m.records.get(x) or {}).get('bases', [])
    return False


def reachable(m, P, entry):
    """functions of requests, receivers of deliveries excepted"""
    seen, todo = set(), list(entry)
    while todo:
        x = todo.pop()
        if x in seen or x not in m.fn or m.fn[x].rawcfg is None:
            continue
        seen.add(x)
        f = m.fn[x]
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'New') and not P.primitive(f, i):
                todo += sorted(t for t in m.targets(f, i) if t in m.fn and not P.single(m.fn[t]) and not P.completes(t))
    return sorted(x for x in seen if (m.fn[x].file or '').startswith('core/'))


def tokens(ctx, m):
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or not (f.file or '').startswith('core/') or '/test/' in f.file:
            continue
        if f.cls == TOKEN:
            continue
        for i in f.all():
            n = f.n(i)
            # a token of its own
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if bare(v.get('t')) == TOKEN and not (v.get('t') or '').rstrip().endswith(('&', '*')):
                        report(ctx, f, i, 'a token is created or copied on the way: the caller cannot cancel it', 'token-made:' + f.name)
            if n['k'] in ('Ctor', 'Temp', 'InitList', 'New') and bare(f.typ(i)) == TOKEN:
                p = f.parent[i]
                if p >= 0 and f.n(p)['k'] == 'Decl':
                    continue
                report(ctx, f, i, 'a token is created or copied on the way: the caller cannot cancel it', 'token-made:' + f.name)
            if n['k'] in ('Call', 'MCall', 'Ctor', 'OpCall', 'New'):
                args = f.args(i) if n['k'] in ('Call', 'MCall') else n.get('c', [])
                for a in args:
                    if bare(f.typ(a)) == TOKEN:
                        ctx.count('tokens handed on')
        for p in f.params:
            if bare(p['t']) == TOKEN:
                ctx.count('token parameters')
                if not p['t'].rstrip().endswith(('&', '*')):
                    report(ctx, f, None, 'the token is taken by value: later cancellation is not seen', 'token-copied:' + f.name)
        for fi in f.inits if isinstance(f.inits, list) else []:
            pass
    for r in sorted(m.records):
        if r == TOKEN or '/test/' in (m.records[r].get('file') or ''):
            continue
        for fd in m.fields(r, False):
            t = fd['t']
            if bare(t) == TOKEN:
                ctx.count('tokens kept')
                if not t.rstrip().endswith(('&', '*')):
                    ctx.violation('token-kept:%s' % fd['n'], m.records[r].get('file', '') + ':%s' % fd.get('line', 0), 'a copy of the token is kept: later cancellation is not seen')


def flag(ctx, m):
    """the token itself"""
    meths = [m.fn[x] for x in sorted(m.fn) if m.fn[x].cls == TOKEN and m.fn[x].rawcfg is not None]
    fields = m.fields(TOKEN, False) if TOKEN in m.records else []
    for fd in fields:
        ctx.count('flags')
        if 'volatile' not in fd['t'] and 'atomic' not in fd['t']:
            ctx.violation('flag-type', m.records[TOKEN].get('file', '') + ':%s' % fd.get('line', 0), 'the flag of the token may be kept in a register: a poll need not see the cancellation')
    for f in meths:
        if f.name == 'isCancelled':
            ctx.count('token methods')
            for i in f.all():
                if f.n(i)['k'] == 'Return' and f.n(i).get('c'):
                    v = truth(f, f.n(i)['c'][0], fields)
                    if v != {'zero': False, 'other': True}:
                        report(ctx, f, i, 'a poll does not tell whether the flag is set', 'poll-value')
        elif f.name == 'cancel':
            ctx.count('token methods')
            ws = [i for i in f.all() if flow.assign(f, i) is not None]
            if not ws:
                report(ctx, f, None, 'cancelling does not set the flag', 'cancel')
            for i in ws:
                n = f.n(i)
                c = f.n(flow.strip(f, n['c'][1]))
                if str(c.get('cv', c.get('v'))) in ('0', 'False', 'false'):
                    report(ctx, f, i, 'cancelling clears the flag', 'cancel')


def truth(f, i, fields):
    """value of the condition for a clear and a set flag"""
    a, ap = flow.normal(None, f, i, True)
    n = f.n(a)

    def isflag(x):
        x = flow.strip(f, x)
        k = f.n(x)
        if k['k'] == 'MCall' and short(f, x) in ('load', 'operator int', 'operator bool') and k.get('c'):
            return isflag(k['c'][0])
        return k['k'] == 'Mem' and k['n'] in {y['n'] for y in fields}
    if isflag(a):
        return {'zero': not ap, 'other': ap}
    if n['k'] == 'Bin' and n['op'] in ('==', '!=', '>'):
        for x, y in ((n['c'][0], n['c'][1]), (n['c'][1], n['c'][0])):
            k = f.n(flow.strip(f, y))
            if isflag(x) and str(k.get('cv', k.get('v'))) in ('0', 'False', 'false'):
                ne = (n['op'] != '==') == ap
                return {'zero': not ne, 'other': ne}
            if isflag(x) and str(k.get('cv', k.get('v'))) in ('1', 'True', 'true'):
                eq = (n['op'] == '==') == ap
                return {'zero': not eq, 'other': eq} if n['op'] != '>' else None
    return None


def cleanup(ctx, m, S, P):
    """an import into a store which was cancelled erases what it stored"""
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or not (f.file or '').startswith('core/src/index/GeoStore') or f.isLambda:
            continue
        # parsing with a function which stores elements
        imports = []
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall') and any(bare(f.typ(a)) == TOKEN for a in f.args(i)):
                for a in f.args(i):
                    for y in f.walk(a):
                        lam = m.fn.get(f.n(y).get('f')) if f.n(y)['k'] == 'Lambda' else None
                        if lam is not None and any(lam.n(j)['k'] == 'MCall' and short(lam, j) == 'store' for j in lam.all()):
                            imports.append(i)
        for i in sorted(set(imports)):
            ctx.count('imports')
            ok = P.okedges(f)
            er = {f.cfg.point(j) for j in f.all() if f.n(j)['k'] in ('Call', 'MCall') and erases(m, f, j, P)}
            # once cancelled, every way to the end passes an erase
            start = f.cfg.point(i)
            r = f.cfg.reach(start, avoid=er, edge_ok=lambda p, q, l: (p, q, l) not in ok)
            if f.cfg.exit in r:
                report(ctx, f, i, 'an import which was cancelled leaves what it stored', 'cancelled-import-kept')
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.name == 'erase' and f.rawcfg is not None and f.cls and '::index::' in f.qn and 'Store' in f.cls and len(f.params) in (1, 2) and bare(f.params[0]['t']) in ('utymap::QuadKey', 'utymap::BoundingBox'):
            ctx.count('erasing functions')
            if f.cfg.exit not in f.cfg.reach(f.cfg.entry) and any(f.n(i)['k'] == 'Throw' for i in f.all()):
                report(ctx, f, None, '%s(%s) always fails: what a cancelled import stored stays' % (f.qn.replace('utymap::index::', ''), ', '.join(bare(p['t']).split('::')[-1] for p in f.params)), 'erase-missing:%s(%s)' % (f.cls.split('::')[-1], ','.join(bare(p['t']).split('::')[-1] for p in f.params)))


def erases(m, f, j, P):
    if short(f, j) == 'erase' and f.n(j).get('c') and 'Store' in f.typ(f.n(j)['c'][0]):
        return True
    for t in m.targets(f, j):
        g = m.fn.get(t)
        if P is not None and g is not None and g.rawcfg is not None and g is not f:
            # a helper which erases once the token is cancelled
            ok = P.okedges(g)
            er = {g.cfg.point(k) for k in g.all() if g.n(k)['k'] == 'MCall' and erases(m, g, k, None)}
            if er and g.cfg.exit not in g.cfg.reach(g.cfg.entry, avoid=er, edge_ok=lambda p, q, l: (p, q, l) not in ok):
                return True
            continue
        if g is not None and g.rawcfg is not None and g is not f and any(g.n(k)['k'] == 'MCall' and short(g, k) == 'erase' and g.n(k).get('c') and 'Store' in g.typ(g.n(k)['c'][0]) for k in g.all()):
            return True
    return False
