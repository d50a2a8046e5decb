"""Typestate of objects named by access paths, with function summaries (state on entry -> states on exit)."""
import re
import flow

CALLS = ('Call', 'MCall', 'OpCall', 'Ctor', 'Delete')


class Typestate:
    """events(f, i) -> [(event, path)]; delta(state, event) -> (state', error or None); edges(f, cond, pol) -> [(event, path)]"""

    def __init__(self, m, S, events, delta, init, edge_events=None, follow=None, maxlen=900, exports=None):
        self.m, self.S, self.events, self.delta, self.init, self.edge_events = m, S, events, delta, init, edge_events
        self.follow = follow
        self.exports = exports
        self.maxlen = maxlen
        self.sum = {}
        self.own = {}
        self.res = {}
        self.bcache = {}
        self.run()

    def owned(self, f):
        """variables declared in f"""
        if not hasattr(f, '_declared'):
            f._declared = {}
            for i in f.all():
                if f.n(i)['k'] == 'Decl':
                    for v in f.n(i)['vars']:
                        f._declared[str(v['d'])] = i
        return f._declared

    def modified(self, f):
        """points where variables get another value"""
        if not hasattr(f, '_modified'):
            f._modified = {}
            for i in f.all():
                n = f.n(i)
                t = flow.assign(f, i)
                if t is None and n['k'] in ('Un', 'OpCall') and n.get('op') in ('++', '--') and n.get('c'):
                    t = n['c'][0]
                if t is not None and f.n(flow.strip(f, t))['k'] == 'Ref':
                    f._modified.setdefault(str(f.n(flow.strip(f, t)).get('d')), set()).add(f.cfg.point(i))
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        f._modified.setdefault(str(v['d']), set()).add(f.cfg.point(i))
        return f._modified

    @staticmethod
    def rootvar(p):
        mo = re.match(r'^[&(]*v([A-Za-z_]\w*@\d+:\d+(?:#\d+)?)', p)
        return mo.group(1) if mo else None

    def step(self, f, i):
        """[(path, kind, x)]: kind 'ev' with an event, or 'call' with the summaries of the possible callees"""
        key = (f.id, i)
        if key not in self.own:
            self.own[key] = [(p, 'ev', e) for e, p in self.events(f, i) if p is not None]
        out = list(self.own[key])
        if f.n(i)['k'] in CALLS:
            per = {}
            ts = sorted(t for t in self.m.targets(f, i) if self.follow is None or self.follow(f, i, t))
            for t in ts:
                s = self.sum.get(t)
                if not s:
                    continue
                g = self.m.fn[t]
                b = self.bcache.get((f.id, i, t))
                if b is None:
                    b = self.bcache[(f.id, i, t)] = self.S.binding(f, i, g)
                for p in s:
                    q = self.S.subst(p, b, g)
                    if q is not None and len(q) < self.maxlen:
                        per.setdefault(q, []).append((t, p))
            for q, L in sorted(per.items()):
                out.append((q, 'call', (tuple(L), len({t for t, _ in L}) == len(ts))))
        return out

    def run(self):
        m = self.m
        self.calls = {f.id: [i for i in f.all()] for f in m.fn.values() if f.rawcfg is not None}
        users = {}
        seeds = []
        for fid in sorted(self.calls):
            f = m.fn[fid]
            hit = False
            for i in self.calls[fid]:
                e = [(p, 'ev', ev) for ev, p in self.events(f, i) if p is not None]
                self.own[(fid, i)] = e
                hit = hit or bool(e)
            if hit:
                seeds.append(fid)
        m.callgraph()
        todo = list(seeds)
        rounds = {}
        while todo:
            fid = todo.pop(0)
            rounds[fid] = rounds.get(fid, 0) + 1
            s = self.analyse(m.fn[fid])
            if s != self.sum.get(fid, {}) and rounds[fid] < 16:
                self.sum[fid] = s
                for c in sorted({c for c, _ in m.callers(fid)}):
                    if c not in todo and m.fn[c].rawcfg is not None:
                        todo.append(c)
        self.enter()

    def relevant(self, f):
        out = {}
        for i in self.calls[f.id]:
            if not self.own.get((f.id, i)) and f.n(i)['k'] not in CALLS:
                continue
            for p, kind, x in self.step(f, i):
                out.setdefault(p, []).append((i, kind, x))
        return out

    def apply(self, cur, kind, x, errs, f, i):
        """cur: frozenset of (s0, s, origin)"""
        new = set()
        if kind == 'ev':
            for s0, s, o in cur:
                t, e = self.delta(s, x)
                if e:
                    errs.add((s0, e, f.id, i, o))
                new.add((s0, t, o if t == s and o else (f.id, i)))
            return self.canon(new)
        L, allt = x
        for s0, s, o in cur:
            if not allt:
                new.add((s0, s, o))
            for t, p in L:
                for s1, s2, o2 in self.sum[t].get(p, ()):
                    if s1 == s:
                        new.add((s0, s2, o if s2 == s and o else o2 or o))
                if not any(s1 == s for s1, _, _ in self.sum[t].get(p, ())):
                    pass
        return self.canon(new)

    @staticmethod
    def canon(new):
        """one origin per pair of states"""
        best = {}
        for s0, s, o in new:
            k = (s0, s)
            if k not in best or (o or ('', 0)) < (best[k] or ('', 0)):
                best[k] = o
        return frozenset((a, b, o) for (a, b), o in best.items())

    STATES = None

    def states(self):
        return self.STATES or (self.init,)

    def analyse(self, f):
        rel = self.relevant(f)
        res = {}
        out = {}
        decl = self.owned(f)
        for p in sorted(rel):
            r = self.rootvar(p)
            local = r in decl if r else False
            at = {}
            for i, kind, x in rel[p]:
                at.setdefault(f.cfg.point(i), []).append((i, kind, x))
            resets = set()
            if local:
                resets.add(f.cfg.point(decl[r]))
            if r:
                for i in f.all():
                    a = flow.assign(f, i)
                    if a is not None and f.n(flow.strip(f, a))['k'] == 'Ref' and str(f.n(flow.strip(f, a)).get('d')) == r and p != 'v' + r:
                        resets.add(f.cfg.point(i))
            # an element named by an index is another one once the index changed
            for v in set(re.findall(r'v([A-Za-z_]\w*@\d+:\d+(?:#\d+)?)', p)) - {r}:
                resets |= self.modified(f).get(v, set())
            start = frozenset((s, s, None) for s in ((self.init,) if local else self.states()))
            errs = set()

            def transfer(pt, x, s):
                if pt in resets:
                    s = self.canon({(a, self.init, None) for a, _, _ in s})
                for i, kind, y in sorted(at.get(pt, ()), key=lambda z: self.order(f, z[0])):
                    s = self.apply(s, kind, y, errs, f, i)
                return s

            def edge(a, b, lab, s):
                if self.edge_events and lab and lab[0] != 'case' and len(lab) == 2:
                    for ev, q in self.edge_events(f, lab[0], lab[1]):
                        if q == p:
                            n = set()
                            for s0, t, o in s:
                                u, e = self.delta(t, ev)
                                if u is not None:
                                    n.add((s0, u, o))
                            s = self.canon(n)
                            if not s:
                                return None
                return s
            IN, OUT = f.cfg.forward(start, transfer, lambda a, b: self.canon(a | b), edge, handler_init=start)
            errs.clear()
            for pt in IN:
                transfer(pt, None, IN[pt])
            res[p] = (IN, frozenset(errs), rel[p], local)
            if not local and (self.exports is None or self.exports(f, p)):
                out[p] = IN.get(f.cfg.exit, frozenset())
        self.res[f.id] = res
        return out

    def order(self, f, i):
        """nodes at one point: inner ones first"""
        return (-len(list(f.ancestors(i))), i)

    def enter(self):
        """states in which functions are entered"""
        self.entered = {}
        todo = []
        for fid in sorted(self.res):
            for p in sorted(self.res[fid]):
                self.entered[(fid, p)] = {self.init}
                todo.append((fid, p))
        while todo:
            fid, p = todo.pop(0)
            f = self.m.fn[fid]
            IN, errs, rel, local = self.res[fid][p]
            ent = self.entered[(fid, p)]
            for i, kind, x in rel:
                if kind != 'call':
                    continue
                pt = f.cfg.point(i)
                ss = {s for s0, s, o in self.before(f, p, i) if s0 in ent}
                for t, q in x[0]:
                    if (t, q) not in self.entered:
                        continue
                    if not ss <= self.entered[(t, q)]:
                        self.entered[(t, q)] |= ss
                        if (t, q) not in todo:
                            todo.append((t, q))

    def before(self, f, p, i):
        """states of path p just before node i"""
        IN, errs, rel, local = self.res[f.id][p]
        pt = f.cfg.point(i)
        s = IN.get(pt, frozenset())
        for j, kind, x in sorted([z for z in rel if f.cfg.point(z[0]) == pt], key=lambda z: self.order(f, z[0])):
            if j == i:
                break
            s = self.apply(s, kind, x, set(), f, j)
        return s

    def errors(self):
        """(error, fid, node, path, origin) in states that occur"""
        out = set()
        for fid in self.res:
            for p, (IN, errs, rel, local) in self.res[fid].items():
                ent = self.entered[(fid, p)]
                for s0, e, g, i, o in errs:
                    if s0 in ent:
                        out.add((e, g, i, p, o))
        return sorted(out, key=str)

    def exits(self):
        """(fid, path, state, origin) of functions which leave a path in a state other than the initial one"""
        for fid in sorted(self.res):
            f = self.m.fn[fid]
            for p, (IN, errs, rel, local) in sorted(self.res[fid].items()):
                for s0, s, o in sorted(IN.get(f.cfg.exit, ()), key=str):
                    if s0 in self.entered[(fid, p)]:
                        yield fid, p, s, o, local, s0
