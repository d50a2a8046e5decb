"""Must-hold lock sets, interprocedural. A lock is identified by the mutex declaration (field or global)."""
from collections import defaultdict

GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock', 'boost::lock_guard', 'boost::unique_lock')
MUTEX = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'boost::mutex', 'std::recursive_timed_mutex', 'std::shared_timed_mutex')
TOP = None


class Locks:
    def __init__(self, m, skip_construction=False):
        """skip_construction: what a constructor or destructor calls on its own object does not count as a caller (nobody shares that object then)"""
        self.m = m
        self.skip = skip_construction
        m.callgraph()
        self.escaping_lambdas()
        self.entry = {}
        self.local = {}
        for f in m.fn.values():
            self.local[f.id] = self._scan(f)
        self.solve()

    def is_mutex(self, t):
        m = self.m
        t = m.deref(t)
        return t in MUTEX

    def lockid(self, f, i):
        """identity of the mutex expression"""
        n = f.n(i)
        while n['k'] in ('Cast',) or (n['k'] == 'Un' and n['op'] in ('*', '&')):
            i = n['c'][0]
            n = f.n(i)
        if n['k'] == 'Mem':
            return n['d']
        if n['k'] == 'Ref':
            if n['dk'] in ('global', 'static'):
                return n['d']
            # a local reference to a mutex, or a mutex parameter
            init = self._local_init(f, n['d'])
            if init is not None:
                return self.lockid(f, init)
            return 'local:' + f.id + ':' + n['d']
        if n['k'] in ('Call', 'MCall'):
            g = self.m.fn.get(n.get('f'))
            if g:
                for j in g.all():
                    if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                        return self.lockid(g, g.n(j)['c'][0])
        if n['k'] == 'OpCall' and n['op'] in ('*', '->'):
            return self.lockid(f, n['c'][0])
        return 'expr:' + f.expr(i)

    def _local_init(self, f, d):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v['d'] == d:
                        return v.get('i')
        return None

    def _scan(self, f):
        """events per node / var"""
        ev = {'decl': {}, 'guard': {}, 'call': {}}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if self.m.tmpl(v['t']) in GUARDS and v.get('i') is not None:
                        c = f.n(v['i'])
                        args = [a for a in c.get('c', [])]
                        ids = []
                        deferred = False
                        adopt = False
                        for a in args:
                            t = f.typ(a)
                            if self.is_mutex(t):
                                ids.append(self.lockid(f, a))
                            elif 'defer_lock' in t:
                                deferred = True
                            elif 'try_to_lock' in t or 'adopt_lock' in t:
                                deferred = 'try' if 'try' in t else deferred
                        ev['guard'][v['d']] = tuple(ids)
                        ev['decl'][i] = ev['decl'].get(i, ()) + ((v['d'], tuple(ids), deferred),)
            elif n['k'] == 'MCall':
                d = f.callee(i)
                nm = d['n'] if d else ''
                if nm in ('lock', 'unlock', 'try_lock'):
                    o = f.obj(i)
                    t = f.typ(o)
                    if self.is_mutex(t):
                        ev['call'][i] = (nm, (self.lockid(f, o),), None)
                    elif self.m.tmpl(t) in GUARDS:
                        on = f.n(o)
                        if on['k'] == 'Ref':
                            ev['call'][i] = (nm, 'guard', on['d'])
        return ev

    def _transfer(self, f, ev, x, s):
        """s: frozenset of (lockid, holder)"""
        if x is None:
            return s
        if x[0] == 's':
            i = x[1]
            if i in ev['decl']:
                for var, ids, deferred in ev['decl'][i]:
                    if not deferred:
                        s = s | {(l, var) for l in ids}
            elif i in ev['call']:
                nm, ids, var = ev['call'][i]
                if ids == 'guard':
                    ids = ev['guard'].get(var, ())
                    if nm == 'lock':
                        s = s | {(l, var) for l in ids}
                    elif nm == 'unlock':
                        s = frozenset(e for e in s if e[1] != var)
                else:
                    if nm == 'lock':
                        s = s | {(l, 'manual') for l in ids}
                    elif nm == 'unlock':
                        s = frozenset(e for e in s if e[0] not in ids)
            else:
                # a helper that returns with a lock held / releases it
                for t in self.m.targets(f, i) if f.n(i)['k'] in ('Call', 'MCall') else ():
                    acq, rel = self.net.get(t, ((), ()))
                    if acq:
                        s = s | {(l, 'manual') for l in acq}
                    if rel:
                        s = frozenset(e for e in s if e[0] not in rel)
        elif x[0] == 'd':
            s = frozenset(e for e in s if e[1] != x[1])
        return s

    def analyse(self, f, entry):
        """IN states for each point: frozenset((lock, holder))"""
        if f.rawcfg is None:
            return {}
        ev = self.local[f.id]
        init = frozenset((l, 'caller') for l in entry)
        hs = {}
        for _ in range(4):
            IN, OUT = f.cfg.forward(init, lambda p, x, s: self._transfer(f, ev, x, s), lambda a, b: a & b, handler_init=hs)
            new = {}
            for c, h in f.cfg.handlers.items():
                # what is held throughout the try block is held in its handlers
                t = f.parent[c]
                pts = {f.cfg.point(i) for i in f.walk(f.n(t)['c'][0])}
                st = [x[p] for p in pts if p is not None for x in (IN, OUT) if p in x]
                if st:
                    new[h] = frozenset.intersection(*st)
            if new == hs:
                break
            hs = new
        return IN

    def _net(self):
        """manual lock()/unlock() helpers without matching pair"""
        self.net = {}
        for f in self.m.fn.values():
            ev = self.local[f.id]
            if not any(v[1] != 'guard' for v in ev['call'].values()) or f.rawcfg is None:
                continue
            IN, OUT = f.cfg.forward(frozenset(), lambda p, x, s: self._transfer(f, ev, x, s), lambda a, b: a & b, handler_init=frozenset())
            acq = tuple(l for l, h in IN.get(f.cfg.exit, ()) if h == 'manual')
            unl = {l for v in ev['call'].values() if v[1] != 'guard' and v[0] == 'unlock' for l in v[1]}
            lk = {l for v in ev['call'].values() if v[1] != 'guard' and v[0] == 'lock' for l in v[1]}
            self.net[f.id] = (acq, tuple(unl - lk))

    def escaping_lambdas(self):
        m = self.m
        m._fnflow()
        self.escaped = set()
        for slot in list(m._fedges):
            if slot[0] in ('f', 'g'):
                self.escaped |= m.fnvalues(slot)
        # lambda passed to std::function constructor inside new/make_unique etc. reaches ctor params -> fields, covered above

    def solve(self):
        m = self.m
        self.net = {}
        self._net()
        # where lambdas are created
        self.created = defaultdict(list)
        for f in m.fn.values():
            for i in f.all():
                if f.n(i)['k'] == 'Lambda':
                    self.created[f.n(i)['f']].append((f.id, i))
        self.entry = {fid: TOP for fid in m.fn}   # TOP = not yet reached
        roots = [fid for fid, f in m.fn.items() if self._is_root(f)]
        for r in roots:
            self.entry[r] = frozenset()
        self.IN = {}
        work = list(roots)
        pend = set(work)
        n = 0
        while work:
            fid = work.pop()
            pend.discard(fid)
            f = m.fn[fid]
            e = self.entry[fid]
            IN = self.analyse(f, e)
            self.IN[fid] = IN
            cfg = f.cfg if f.rawcfg else None
            upd = {}
            for i, t in m._cg[fid]:
                if self.skip and f.kind in ('ctor', 'dtor') and f.n(i)['k'] == 'MCall' and f.obj(i) is not None and f.n(f.obj(i))['k'] == 'This':
                    continue
                if cfg is None:
                    held = frozenset(e)
                else:
                    p = cfg.point(i)
                    st = IN.get(p) if p is not None else None
                    if st is None:
                        continue
                    held = frozenset(l for l, h in st)
                if m.fn[t].isLambda and t not in self.escaped:
                    # runs during the call that received it: everything its creator holds stays held
                    held = held | self._creation_held(t, fid)
                upd.setdefault(t, []).append(held)
            for t, hs in upd.items():
                h = frozenset.intersection(*hs)
                old = self.entry[t]
                new = h if old is TOP else (old & h)
                if old is TOP or new != old:
                    self.entry[t] = new
                    if t not in pend:
                        pend.add(t)
                        work.append(t)
            n += 1
            if n > 60000:
                raise Exception('lock analysis does not converge')

    def _creation_held(self, lam, caller):
        out = None
        for fid, i in self.created.get(lam, ()):
            f = self.m.fn[fid]
            IN = self.IN.get(fid)
            if IN is None or f.rawcfg is None:
                continue
            p = f.cfg.point(i)
            st = IN.get(p)
            if st is None:
                continue
            h = frozenset(l for l, _ in st)
            # only locks still held at the statement that consumes the lambda
            out = h if out is None else out & h
        return out or frozenset()

    def _is_root(self, f):
        m = self.m
        if f.ginit:
            return True
        if f.decl.get('extc'):
            return True
        if m.callers(f.id):
            return False
        return True

    def held(self, f, i):
        """set of locks certainly held when node i is evaluated"""
        IN = self.IN.get(f.id)
        if IN is None:
            return None
        if f.rawcfg is None:
            return self.entry.get(f.id) or frozenset()
        p = f.cfg.point(i)
        st = IN.get(p)
        if st is None:
            return None
        return frozenset(l for l, h in st)

    def may_acquire(self):
        """fn -> locks it or its callees may acquire; with witness"""
        m = self.m
        acq = {}
        for fid, f in m.fn.items():
            a = {}
            ev = self.local[fid]
            for i, items in ev['decl'].items():
                for var, ids, deferred in items:
                    for l in ids:
                        a[l] = (i, None)
            for i, (nm, ids, var) in ev['call'].items():
                if nm == 'lock':
                    for l in (ev['guard'].get(var, ()) if ids == 'guard' else ids):
                        a[l] = (i, None)
            acq[fid] = a
        work = [f for f in acq if acq[f]]
        pend = set(work)
        while work:
            g = work.pop()
            pend.discard(g)
            for fid, i in m.callers(g):
                ch = False
                for l in acq[g]:
                    if l not in acq[fid]:
                        acq[fid][l] = (i, g)
                        ch = True
                if ch and fid not in pend:
                    pend.add(fid)
                    work.append(fid)
        return acq
