"""Which concrete classes can stand behind a base-class reference: class sets propagated through parameters, fields and locals.
Virtual calls are resolved against them; double dispatch (accept(visitor)) is resolved at each call site."""
from collections import defaultdict

SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::reference_wrapper')


class Vta:
    def __init__(self, m):
        self.m = m
        self.PS = defaultdict(set)     # (fn, param index) -> classes
        self.FS = defaultdict(set)     # field -> classes
        self.dispatch = {}             # fn -> (param index, [(node, method)]) for pure dispatchers
        self._locals = {}
        self._over_in = {}
        self.done = False
        self.on = False
        self._solve()

    # ---- class helpers
    def cone(self, t):
        m = self.m
        p = m.pointee(t)
        r = (m.tk(p).get('r') if p else None) or m.recp(t)
        if r is None or r not in m.records:
            return set()
        return {r} | m.derived.get(r, set())

    def interesting(self, t):
        """reference, pointer or smart pointer to a class of the program that has derived classes"""
        m = self.m
        x = m.tk(m.noref(t))
        isref = m.tk(t).get('k') in ('ref', 'rref', 'ptr')
        smart = m.tmpl(t) in SMART
        if not (isref or smart):
            return False
        r = None
        if smart:
            a = m.targs(t)
            r = m.tk(a[0]).get('r') if a else None
        else:
            r = m.recp(t)
        return bool(r and m.derived.get(r) and m.records.get(r))

    def override_in(self, cls, meth):
        key = (cls, meth)
        if key not in self._over_in:
            m = self.m
            cands = {meth} | m.over.get(meth, set())
            res = None
            layer = [cls]
            seen = set()
            while layer and res is None:
                nxt = []
                for c in layer:
                    if c in seen:
                        continue
                    seen.add(c)
                    for o in cands:
                        if m.decls[o].get('cls') == c:
                            res = o
                    nxt += m.records.get(c, {}).get('bases', [])
                layer = nxt
            self._over_in[key] = res
        return self._over_in[key]

    # ---- expression -> classes
    def local_defs(self, f):
        if f.id not in self._locals:
            d = {}
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        d.setdefault(v['d'], [v['t'], []])
                        if v.get('i') is not None and d[v['d']][1] is not None:
                            d[v['d']][1].append(v['i'])
                elif n['k'] == 'RFor':
                    d[n['var']] = [n['vt'], None]
                elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and f.n(n['c'][0])['k'] == 'Ref':
                    d.setdefault(f.n(n['c'][0])['d'], ['', []])
                    e = d[f.n(n['c'][0])['d']]
                    if e[1] is not None:
                        e[1].append(n['c'][1])
                elif n['k'] == 'MCall' and f.callee(i) and f.callee(i)['n'] in ('reset', 'swap') and f.n(f.obj(i))['k'] == 'Ref':
                    e = d.setdefault(f.n(f.obj(i))['d'], ['', []])
                    if e[1] is not None:
                        if f.callee(i)['n'] == 'reset' and f.args(i):
                            e[1].append(f.args(i)[0])
                        elif f.callee(i)['n'] == 'swap':
                            e[1] = None
            self._locals[f.id] = d
        return self._locals[f.id]

    def dyn(self, f, i, depth=0):
        m = self.m
        if i is None or i < 0 or depth > 20:
            return None
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        if k == 'Cast':
            if n.get('ex') and n.get('ck') in ('BaseToDerived', 'Dynamic', 'static_cast', 'dynamic_cast'):
                return self.cone(n.get('t', '')) or None
            return self.dyn(f, c[0], depth + 1) if c else None
        if k == 'This':
            r = f.decl.get('cls')
            g = f
            while r is None and g is not None and g.encl:
                g = m.fn.get(g.encl)
                r = g.decl.get('cls') if g else None
            if f.isLambda:
                g = m.fn.get(f.encl) if f.encl else None
                while g is not None and g.isLambda:
                    g = m.fn.get(g.encl) if g.encl else None
                r = g.decl.get('cls') if g is not None else None
            return ({r} | m.derived.get(r, set())) if r in m.records else None
        if k == 'Un':
            if n['op'] in ('*', '&'):
                return self.dyn(f, c[0], depth + 1)
            return None
        if k == 'OpCall':
            if n['op'] in ('*', '->') and m.tmpl(f.typ(c[0])) in SMART:
                return self.dyn(f, c[0], depth + 1)
            return None
        if k == 'MCall':
            d = f.callee(i)
            if d and d['n'] == 'get' and m.tmpl(f.typ(c[0])) in SMART:
                return self.dyn(f, c[0], depth + 1)
            return None
        if k == 'Cond':
            a, b = self.dyn(f, c[1], depth + 1), self.dyn(f, c[2], depth + 1)
            return None if a is None or b is None else a | b
        if k == 'NullPtr':
            return set()
        if k in ('Ctor', 'InitList'):
            t = n.get('t', '')
            if m.tmpl(t) in SMART:
                a = f.args(i)
                if not a:
                    return set()
                return self.dyn(f, a[0], depth + 1)
            x = m.tk(m.noref(t))
            return {x['r']} if x.get('r') in m.records else None
        if k == 'New':
            x = m.tk(m.deref(n.get('t', '')))
            return {x['r']} if x.get('r') in m.records else None
        if k == 'Call':
            q = f.cqn(i)
            if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof'):
                return self.dyn(f, f.args(i)[0], depth + 1)
            if q.endswith('make_unique') or q.endswith('make_shared'):
                p = m.pointee(n.get('t', '') or f.typ(i)) or (m.targs(f.typ(i)) or [None])[0]
                x = m.tk(p) if p else {}
                return {x['r']} if x.get('r') in m.records else None
            return None
        if k == 'Mem':
            fl = m.field(n['d'])
            if not fl:
                return None
            x = m.tk(fl['t'])
            if x.get('k') == 'rec' and m.tmpl(fl['t']) not in SMART:
                return {x['r']} if x.get('r') in m.records else None
            return self.FS[n['d']] if self.interesting(fl['t']) else None
        if k == 'Ref' and n['dk'] in ('local', 'param'):
            g = f
            while g is not None:
                for j, p in enumerate(g.params):
                    if p['d'] == n['d']:
                        x = m.tk(p['t'])
                        if x.get('k') == 'rec' and m.tmpl(p['t']) not in SMART:
                            return {x['r']} if x.get('r') in m.records else None
                        return self.PS[(g.id, j)] if self.interesting(p['t']) else None
                e = self.local_defs(g).get(n['d'])
                if e:
                    t, inits = e
                    x = m.tk(t)
                    if x.get('k') == 'rec' and m.tmpl(t) not in SMART:
                        return {x['r']} if x.get('r') in m.records else None
                    if inits is None or not inits:
                        return None if inits is None else set()
                    out = set()
                    for j in inits:
                        s = self.dyn(g, j, depth + 1)
                        if s is None:
                            return None
                        out |= s
                    return out
                g = m.fn.get(g.encl) if g.encl else None
            return None
        return None

    # ---- fixpoint
    def _solve(self):
        m = self.m
        # pure dispatchers: nothing but virtual calls on one reference parameter
        for f in m.fn.values():
            cs = list(f.calls())
            if not cs or f.isLambda:
                continue
            par = {p['d']: j for j, p in enumerate(f.params) if self.interesting(p['t'])}
            idx, calls = None, []
            for i in cs:
                n = f.n(i)
                d = f.callee(i) or {}
                o = f.obj(i) if n['k'] == 'MCall' else None
                on = f.n(o) if o is not None and o >= 0 else {}
                if n['k'] == 'MCall' and d.get('virt') and on.get('k') == 'Ref' and on['d'] in par:
                    if idx not in (None, par[on['d']]):
                        idx = None
                        break
                    idx = par[on['d']]
                    calls.append((i, n['f']))
                else:
                    idx = None
                    break
            if idx is not None and len(calls) == len(cs):
                self.dispatch[f.id] = (idx, calls)
        # functions called in ways that do not show their arguments
        direct = defaultdict(int)
        for _ in range(30):
            ch = False
            hidden = set(m.fn)
            for f in m.fn.values():
                for i in f.calls():
                    n = f.n(i)
                    if n.get('f'):
                        ts = self.resolve(f, i)
                        for t in ts:
                            hidden.discard(t)
                            g = m.fn[t]
                            args = f.args(i)
                            for j, p in enumerate(g.params):
                                if j < len(args) and args[j] is not None and args[j] >= 0 and self.interesting(p['t']):
                                    s = self.dyn(f, args[j])
                                    if s is None:
                                        s = self.cone(f.typ(args[j]))
                                        if not s:
                                            s = self.cone(p['t'])
                                    if not s <= self.PS[(t, j)]:
                                        self.PS[(t, j)] |= s
                                        ch = True
                        if n['k'] == 'Ctor':
                            pass
                # fields
                for it in f.inits or []:
                    fd = it.get('field')
                    if fd and m.field(fd) and self.interesting(m.field(fd)['t']) and it.get('i') is not None:
                        ch |= self._addf(f, fd, it['i'])
                for i in f.all():
                    n = f.n(i)
                    if n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and f.n(n['c'][0])['k'] == 'Mem':
                        fd = f.n(n['c'][0])['d']
                        if m.field(fd) and self.interesting(m.field(fd)['t']):
                            ch |= self._addf(f, fd, n['c'][1])
                    elif n['k'] == 'MCall' and f.callee(i) and f.callee(i)['n'] in ('reset', 'swap') and f.obj(i) is not None and f.n(f.obj(i))['k'] == 'Mem':
                        fd = f.n(f.obj(i))['d']
                        if m.field(fd) and self.interesting(m.field(fd)['t']):
                            if f.callee(i)['n'] == 'swap':
                                s = self.cone(m.field(fd)['t'])
                                if not s <= self.FS[fd]:
                                    self.FS[fd] |= s
                                    ch = True
                            elif f.args(i):
                                ch |= self._addf(f, fd, f.args(i)[0])
                    elif n['k'] == 'InitList':
                        r = m.rec(n.get('t', ''))
                        if r in m.records:
                            for fl in m.fields(r):
                                if self.interesting(fl['t']):
                                    s = self.cone(fl['t'])
                                    if not s <= self.FS[fl['id']]:
                                        self.FS[fl['id']] |= s
                                        ch = True
            for fid in hidden:
                g = m.fn[fid]
                for j, p in enumerate(g.params):
                    if self.interesting(p['t']):
                        s = self.cone(p['t'])
                        if not s <= self.PS[(fid, j)]:
                            self.PS[(fid, j)] |= s
                            ch = True
            if not ch:
                break
        # anything also reached through a function value may get any argument
        self.done = True

    def _addf(self, f, fd, i):
        s = self.dyn(f, i)
        if s is None:
            s = self.cone(self.m.field(fd)['t'])
        if not s <= self.FS[fd]:
            self.FS[fd] |= s
            return True
        return False

    def resolve(self, f, i):
        """targets of a call that names its callee, virtual calls narrowed by what is known of the receiver"""
        m = self.m
        n = f.n(i)
        base = m.direct_targets(f, i)
        d = m.decls.get(n.get('f')) or {}
        if d.get('virt') and n['k'] == 'MCall' and not n.get('qualified'):
            o = f.obj(i)
            if o is not None and o >= 0:
                s = self.dyn(f, o)
                if s:
                    out = set()
                    for r in s:
                        t = self.override_in(r, n['f'])
                        if t in m.fn:
                            out.add(t)
                    if not self.done:
                        return out
                    return out if out else base
                if s is not None and not self.done:
                    return set()
        return base

    def dispatched(self, f, i, t):
        """call at i reaches dispatcher t: what the dispatcher calls for the classes the argument may have here"""
        k, calls = self.dispatch[t]
        args = f.args(i)
        if k >= len(args):
            return None
        s = self.dyn(f, args[k])
        if not s:
            return None
        out = set()
        for node, meth in calls:
            for r in s:
                x = self.override_in(r, meth)
                if x in self.m.fn:
                    out.add(x)
        return out
