"""Divisors of integer divisions, of quotients turned into integers, and steps of loops are known not to be zero."""
import re
import flow
from bounds import Bounds, const
from model import CFG

LEVEL = 'other'
SCOPE = ('core/src/', 'core/shared/')
INTS = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|long long|std::u?int\d+_t|u?int\d+_t|size_t|std::size_t|std::ptrdiff_t)( int| long| char)?$')
FLOATS = re.compile(r'^(const )?(double|float|long double)$')
ROUND = ('ceil', 'floor', 'round', 'trunc', 'abs', 'fabs', 'max', 'min', 'fmod', 'sqrt', 'lround')
SHRINK = ('clear', 'pop_back', 'erase', 'resize', 'swap', 'assign', 'operator=')
GROW = ('push_back', 'emplace_back', 'insert', 'emplace')


class B31(Bounds):
    def path(self, f, i, env=None, depth=0, subst=True):
        if i is not None and i >= 0 and f.n(i)['k'] == 'Float':
            v = f.n(i)['v']
            return '#%d' % int(v) if float(v) == int(v) else None
        return super().path(f, i, env, depth, subst)


class Positive:
    def __init__(self, m):
        self.m = m
        self.S = B31(m)
        self.fmemo = {}
        self.nmemo = {}
        self.busy = set()

    def typ(self, f, e):
        return self.m.noref(f.typ(e)).replace('const ', '').strip()

    def isfloat(self, f, e):
        return bool(FLOATS.match(self.typ(f, e)))

    # e >= k: k = 1, or k = 0 for e > 0, or k = None for e != 0
    def holds(self, f, i, e, k, depth=0):
        if depth > 14 or e is None or e < 0:
            return False
        key = (f.id, i, e, k)
        if key in self.busy:
            return False
        self.busy.add(key)
        try:
            return self.known(f, i, e, k) or self.structure(f, i, e, k, depth + 1)
        finally:
            self.busy.discard(key)

    def known(self, f, i, e, k):
        """by the branches and assignments on the way"""
        S = self.S
        p = S.path(f, e)
        if p is None:
            return False
        c = const(p)
        if c is not None:
            return c >= (k or 0) and c != 0 if k is not None else c != 0
        st = S.at(f, i)
        if ('dead', '', '') in st:
            return True
        if k is None and (('!=', p, '#0') in st or ('!=', '#0', p) in st or ('t', p, '') in st or ('t', '(%s!=#0)' % p, '') in st):
            return True
        if self.isfloat(f, e):
            for op, a, b in sorted(st, key=str):
                if op == 't' and isinstance(a, str):
                    from bounds import split
                    s = split(a)
                    if s and s[0] in ('<', '<=', '>', '>='):
                        op, a, b = s
                if op in ('<', '<='):
                    op, a, b = {'<': '>', '<=': '>='}[op], b, a
                if op in ('>', '>=') and a == p:
                    x = const(b) if isinstance(b, str) and b else None
                    if x is not None and (x > (k or 0) or x == (k or 0) and (op == '>' or k == 1)):
                        return True
                if op in ('>', '>=') and b == p and k is None:
                    x = const(a) if isinstance(a, str) and a else None
                    if x is not None and (x < 0 or x == 0 and op == '>'):
                        return True
            return False
        if S.prove(f, i, '#1', '<=', p):
            return True
        return k is None and S.prove(f, i, p, '<', '#0')

    def structure(self, f, i, e, k, depth):
        m = self.m
        n = f.n(e)
        kd = n['k']
        c = n.get('c', [])
        R = lambda x, kk=k: self.holds(f, i, x, kk, depth)
        if kd == 'Float':
            v = float(n['v'])
            return v != 0 if k is None else v > 0 if k == 0 else v >= 1
        if kd == 'Cast' and c:
            if INTS.match(self.typ(f, e)) and self.isfloat(f, c[0]):
                # fractions are lost
                return R(c[0], 1)
            if k == 1 and self.isfloat(f, e) and not self.isfloat(f, c[0]):
                return R(c[0], 1)
            return R(c[0])
        if kd in ('Paren', 'Clean', 'Mat') and c:
            return R(c[0])
        if kd == 'Bin' and not n.get('asg'):
            if n['op'] == '*':
                return all(R(x) for x in c)
            if n['op'] == '/' and self.isfloat(f, e) and k is None:
                return R(c[0])
            if n['op'] == '+' and k is not None:
                return (R(c[0]) and self.nonneg(f, i, c[1], depth)) or (R(c[1]) and self.nonneg(f, i, c[0], depth))
            return False
        if kd == 'Un' and n['op'] in ('-', '+') and c and (k is None or n['op'] == '+'):
            return R(c[0])
        if kd == 'Cond':
            return all(R(x) or self.arm(f, c[0], x, pol, k) for x, pol in ((c[1], True), (c[2], False)))
        if kd == 'Ctor' and len(c) == 1 and FLOATS.match(self.typ(f, e)):
            return R(c[0])
        if kd in ('Call', 'MCall'):
            q = f.cqn(e) or ''
            a = f.args(e)
            if q in ('std::max', 'std::fmax', 'fmax') and len(a) >= 2:
                return any(self.holds(f, i, x, k if k is not None else 0, depth) for x in a[:2])
            if q in ('std::min', 'fmin', 'std::fmin') and len(a) >= 2:
                return all(self.holds(f, i, x, k if k is not None else 0, depth) for x in a[:2])
            if q in ('std::ceil', 'ceil') and a:
                return self.holds(f, i, a[0], 0, depth)
            if q in ('std::abs', 'std::fabs', 'abs', 'fabs') and a:
                return self.holds(f, i, a[0], None if k != 1 else 1, depth)
            if q in ('std::sqrt', 'sqrt', 'std::exp', 'exp') and a:
                return q.endswith('exp') and k != 1 or R(a[0], 0 if k is None else k)
            d = f.callee(e)
            if kd == 'MCall' and d and d['n'] in ('size', 'length') and not d.get('src'):
                return self.nonempty(f, i, f.obj(e), depth)
            g = m.fn.get(n.get('f'))
            if g is not None and g.rawcfg is not None and not (d or {}).get('virt'):
                rs = [j for j in g.all() if g.n(j)['k'] == 'Return' and g.n(j).get('c')]
                return bool(rs) and all(self.holds(g, j, g.n(j)['c'][0], k, depth + 1) for j in rs)
            return False
        if kd == 'Ref' and 'd' in n and n.get('dk') in ('local', 'param'):
            return self.variable(f, i, n['d'], k, depth)
        if kd == 'Ref' and n.get('dk') in ('global', 'static'):
            return self.glob(n['d'], k)
        if kd == 'Mem':
            fd = n.get('d')
            return bool(fd) and self.field(str(fd), k, depth)
        return False

    def arm(self, f, c, x, pol, k):
        p = self.S.path(f, x)
        if p is None:
            return False
        fs = self.S.cond(f, c, pol)
        return ('>', p, '#0') in fs and k != 1 or k is None and ('!=', p, '#0') in fs or ('>=', p, '#1') in fs

    def nonneg(self, f, i, e, depth):
        t = self.typ(f, e)
        if 'unsigned' in t or t.endswith('size_t') or re.search(r'uint\d+_t$', t):
            return True
        x = flow.strip(f, e)
        if x != e and self.nonneg(f, i, x, depth + 1):
            return True
        n = f.n(e)
        if n['k'] in ('Int', 'Float'):
            return float(n['v']) >= 0
        if n['k'] in ('Call',) and f.cqn(e) in ('std::abs', 'std::sqrt', 'std::fabs'):
            return True
        return self.holds(f, i, e, 0, depth)

    def glob(self, d, k):
        v = self.m.globals.get(d) or {}
        x = v.get('cv', v.get('fv'))
        if x is None:
            return False
        if not v.get('const'):
            if not hasattr(self, 'gw'):
                self.gw = set()
                for f in self.m.fn.values():
                    for i in f.all():
                        t = flow.assign(f, i)
                        if t is None and f.n(i)['k'] == 'Un' and f.n(i)['op'] in ('++', '--', '&'):
                            t = f.n(i)['c'][0]
                        if t is not None and f.n(flow.strip(f, t))['k'] == 'Ref':
                            self.gw.add(f.n(flow.strip(f, t)).get('d'))
            if d in self.gw:
                return False
        x = float(x)
        return x != 0 if k is None else x > 0 if k == 0 else x >= 1

    def writes(self, f, var):
        """(function, node, expression) of everything assigned to the variable; None if it may change otherwise"""
        S = self.S
        g = S.owner(f, var)
        v = S.vars(g).get(var)
        if not v or v[0] not in ('local', 'param'):
            return None
        out = []
        cnt = 0
        if v[0] == 'local' and v[2] is not None and v[2] >= 0:
            out.append((g, v[2], v[2]))
        for h in [g] + [h for h in self.m.fn.values() if S.within(h, g)]:
            for j in h.all():
                n = h.n(j)
                if n['k'] == 'Bin' and n.get('asg') and h.n(flow.strip(h, n['c'][0])).get('d') == var and h.n(flow.strip(h, n['c'][0]))['k'] == 'Ref':
                    cnt += 1
                    if n['op'] == '=':
                        out.append((h, j, n['c'][1]))
                    elif n['op'] in ('*=', '+='):
                        out.append((h, j, n['c'][1]))
                    else:
                        return None
                elif n['k'] == 'Un' and n['op'] == '++' and h.n(flow.strip(h, n['c'][0])).get('d') == var:
                    cnt += 1
        return out if cnt == v[3] else None

    def variable(self, f, i, var, k, depth):
        S = self.S
        g = S.owner(f, var)
        v = S.vars(g).get(var)
        if not v:
            return False
        ws = self.writes(f, var)
        if ws is None:
            return False
        if v[0] == 'param':
            if v[3] or g.isLambda:
                return False
            idx = [x['d'] for x in g.params].index(var)
            if self.m.decls.get(g.id, {}).get('virt') or self.m.decls.get(g.id, {}).get('extc'):
                return False
            cs = self.m.callers(g.id)
            for cid, ci in cs:
                c = self.m.fn[cid]
                a = c.args(ci)
                if c.rawcfg is None or c.n(ci).get('f') != g.id or idx >= len(a) or not self.holds(c, ci, a[idx], k, depth + 1):
                    return False
            return bool(cs)
        if v[2] is None or v[2] < 0:
            # declared without a value: assigned before every use (definite assignment is the compiler's warning)
            if not ws:
                return False
        return bool(ws) and all(self.holds(h, j, e, k if k is not None else None, depth + 1) for h, j, e in ws)

    def field(self, fd, k, depth):
        """every value the field may hold"""
        key = (fd, k)
        if key in self.fmemo:
            return self.fmemo[key]
        self.fmemo[key] = True    # by induction over the writes
        ok = self.fieldwrites(fd, k, depth)
        self.fmemo[key] = ok
        if not ok:
            # results that relied on the assumption are not kept
            pass
        return ok

    def fieldwrites(self, fd, k, depth):
        m, S = self.m, self.S
        cls = fd.rsplit('::', 1)[0]
        seen = 0
        for f in m.fn.values():
            if f.kind == 'ctor' and f.cls == cls and not f.decl.get('copy') and not f.decl.get('move'):
                mine = [x['i'] for x in f.inits if x.get('field') == fd]
                deleg = any(x.get('deleg') for x in f.inits)
                for e in mine:
                    seen += 1
                    if not self.holds(f, e, e, k, depth + 1) and not self.validated(f, f.cfg.entry if f.rawcfg is not None else None, fd, k):
                        return False
            if f.rawcfg is None:
                continue
            for i in f.all():
                n = f.n(i)
                if n['k'] != 'Mem' or str(n.get('d')) != fd:
                    continue
                p = f.parent[i]
                while p is not None and p >= 0 and f.n(p)['k'] in ('Paren',):
                    p = f.parent[p]
                q = f.n(p) if p is not None and p >= 0 else {}
                if q.get('asg') and flow.strip(f, q['c'][0]) == i:
                    seen += 1
                    if q['op'] not in ('=', '*=', '+=') or not self.holds(f, p, q['c'][1], k, depth + 1) and not self.validated(f, f.cfg.point(p), fd, k, S.path(f, i)):
                        return False
                elif q.get('k') == 'Un' and (q['op'] in ('--', '&')):
                    return False
                elif q.get('k') in ('Call', 'MCall', 'Ctor') and i in f.args(p):
                    d = f.callee(p) or {}
                    ps = d.get('params', [])
                    x = m.tk(ps[f.args(p).index(i)]) if f.args(p).index(i) < len(ps) else {}
                    if x.get('k') == 'ref' and not x['p'].startswith('const '):
                        return False
        return seen > 0

    def validated(self, f, pt, fd, k, p=None):
        """after the write every normal way out passes a branch that establishes it"""
        if f.rawcfg is None or pt is None:
            return False
        S = self.S
        p = p or 'this.' + fd

        def pred(f2, facts, c, pol):
            return (('>', p, '#0') in facts and k != 1) or ('>=', p, '#1') in facts or ('>', p, '#0') in facts and INTS.match(self.ftype(fd)) or k is None and ('!=', p, '#0') in facts
        es = set()
        for a in range(len(f.cfg.succ)):
            for b, lab in f.cfg.succ[a]:
                if lab and lab[0] != 'case' and len(lab) == 2 and f.n(lab[0])['k'] != 'RFor' and pred(f, S.cond(f, lab[0], lab[1]), lab[0], lab[1]):
                    es.add((a, b, lab))
        return bool(es) and flow.must_hit(f, pt, set(), es)

    def ftype(self, fd):
        x = self.m.field(fd) if hasattr(self.m, 'field') else None
        return self.m.noref((x or {}).get('t', '')).replace('const ', '') if x else ''

    # ------------------------------------------------------------ collections
    def nonempty(self, f, i, e, depth=0):
        if depth > 14:
            return False
        S = self.S
        key = ('ne', f.id, i, e)
        if key in self.busy:
            return False
        self.busy.add(key)
        try:
            p = S.path(f, e)
            if p is not None and (S.prove(f, i, '#1', '<=', p + '.size()') or ('f', p + '.empty()', '') in S.at(f, i)):
                return True
            x = flow.strip(f, e)
            n = f.n(x)
            while n['k'] == 'Ctor' and len(n.get('c', [])) == 1:
                x = flow.strip(f, n['c'][0])
                n = f.n(x)
            if n['k'] == 'Un' and n['op'] == '*' or n['k'] == 'OpCall' and n['op'] == '*' and len(n['c']) == 1:
                return False
            if n['k'] == 'Call' and f.cqn(x) == 'std::move' and f.args(x):
                return self.nonempty(f, i, f.args(x)[0], depth + 1)
            if n['k'] in ('Call', 'MCall'):
                g = self.m.fn.get(n.get('f'))
                if g is not None and g.rawcfg is not None:
                    rs = [j for j in g.all() if g.n(j)['k'] == 'Return' and g.n(j).get('c')]
                    return bool(rs) and all(self.nonempty(g, j, g.n(j)['c'][0], depth + 1) for j in rs)
                return False
            if n['k'] == 'Ref' and n.get('dk') == 'param':
                g = S.owner(f, n['d'])
                idx = [y['d'] for y in g.params].index(n['d'])
                cs = self.m.callers(g.id)
                if g.isLambda or S.vars(g)[n['d']][3]:
                    return False
                return bool(cs) and all(self.m.fn[c].rawcfg is not None and self.m.fn[c].n(ci).get('f') == g.id and idx < len(self.m.fn[c].args(ci)) and
                                        self.nonempty(self.m.fn[c], ci, self.m.fn[c].args(ci)[idx], depth + 1) for c, ci in cs)
            if n['k'] == 'Ref' and n.get('dk') == 'local':
                return self.local(f, i, n['d'], depth)
            if n['k'] == 'Mem' and n.get('d'):
                return self.fieldfull(str(n['d']), depth)
            return False
        finally:
            self.busy.discard(key)

    def local(self, f, i, var, depth):
        """filled on every way to i, and never emptied"""
        S = self.S
        g = S.owner(f, var)
        if g is not f:
            return False
        v = S.vars(f).get(var)
        pts = set()
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'MCall' and f.obj(j) is not None and f.n(flow.strip(f, f.obj(j))).get('d') == var and f.n(flow.strip(f, f.obj(j)))['k'] == 'Ref':
                nm = (f.callee(j) or {}).get('n')
                if nm in GROW and not (nm == 'insert' and len(f.args(j)) != 1):
                    pts.add(f.cfg.point(j))
                elif nm in SHRINK:
                    return False
            elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and f.n(flow.strip(f, n['c'][0])).get('d') == var:
                if not self.nonempty(f, j, n['c'][1], depth + 1):
                    return False
        if v and v[2] is not None and v[2] >= 0:
            z = flow.strip(f, v[2])
            if f.n(z)['k'] in ('Call', 'MCall', 'Ref', 'Mem') or f.n(z)['k'] == 'Ctor' and len(f.args(z)) == 1 and f.callee(z) and (f.callee(z).get('copy') or f.callee(z).get('move')):
                if self.nonempty(f, v[2], v[2], depth + 1):
                    return True
        if not pts:
            return False
        return self.before(f, i, pts, depth)

    def before(self, f, i, pts, depth):
        t = f.cfg.point(i)
        es = self.firsts(f, depth, pts)
        r = f.cfg.reach(f.cfg.entry, avoid=pts, edge_ok=lambda p, q, l: (p, q, l) not in es)
        return t not in r and f.cfg.entry not in pts

    def firsts(self, f, depth, pts):
        """exits of loops whose first round always takes place (if the round fills the collection, leaving without having filled it is impossible)"""
        es = set()
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'RFor':
                ok = self.nonempty(f, n['range'], n['range'], depth + 1)
                cond = j
            elif n['k'] in ('For', 'While') and n.get('cond') is not None and n['cond'] >= 0:
                cond = n['cond']
                ok = self.firstround(f, j, depth)
            else:
                continue
            if ok:
                out, back = set(), set()
                for a in range(len(f.cfg.succ)):
                    for b, lab in f.cfg.succ[a]:
                        if lab and lab[0] != 'case' and len(lab) == 2 and (lab[0] == cond or flow.strip(f, lab[0]) == flow.strip(f, cond)):
                            if lab[1] is False:
                                out.add((a, b, lab))
                            elif b not in pts:
                                back |= f.cfg.reach(b, avoid=pts) | {b}
                # every round fills the collection
                if not any(a in back for a, _, _ in out):
                    es |= out
        return es

    def firstround(self, f, j, depth):
        S = self.S
        n = f.n(j)
        c = flow.strip(f, n['cond'])
        x = f.n(c)
        # counting up to the size of a collection
        if x['k'] == 'Bin' and x['op'] in ('<', '!='):
            a, b = (flow.strip(f, y) for y in x['c'])
            if f.n(a)['k'] == 'Ref' and f.n(b)['k'] == 'MCall' and (f.callee(b) or {}).get('n') in ('size', 'length'):
                v = S.vars(S.owner(f, f.n(a)['d'])).get(f.n(a)['d'])
                if v and v[2] is not None and v[2] >= 0 and S.path(f, v[2]) == '#0':
                    return self.nonempty(f, c, f.obj(b), depth + 1)
        # a stream that was just made from a string is good
        st = None
        if x['k'] == 'MCall' and (f.callee(c) or {}).get('n') in ('good', 'operator bool') and f.obj(c) is not None:
            st = flow.strip(f, f.obj(c))
        if st is not None and f.n(st)['k'] == 'Ref' and 'stringstream' in f.typ(st):
            d = f.n(st)['d']
            body = set(f.walk(j))
            return all(r in body for r in f.all() if f.n(r)['k'] == 'Ref' and f.n(r).get('d') == d)
        return False

    def fieldfull(self, fd, depth):
        key = ('full', fd)
        if key in self.nmemo:
            return self.nmemo[key]
        self.nmemo[key] = False
        m = self.m
        cls = fd.rsplit('::', 1)[0]
        # never emptied
        fill = set()
        for f in m.fn.values():
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Mem' and str(n.get('d')) == fd:
                    p = f.parent[i]
                    q = f.n(p) if p is not None and p >= 0 else {}
                    while q and q['k'] == 'Cast':
                        p = f.parent[p]
                        q = f.n(p) if p is not None and p >= 0 else {}
                    if q.get('k') == 'MCall' and f.obj(p) is not None and flow.strip(f, f.obj(p)) == i:
                        if f.callee(p)['n'] in SHRINK:
                            return False
                        if f.callee(p)['n'] in GROW and f.rawcfg is not None and f.cls == cls and flow.must_hit(f, f.cfg.entry, {f.cfg.point(p)}):
                            fill.add(f.id)
                    elif q.get('k') == 'OpCall' and q['op'] == '=' and q['c'][0] == i or q.get('k') == 'Call' and (f.cqn(p) or '') == 'std::move':
                        return False
        # filled by each constructor
        ctors = [f for f in m.fn.values() if f.kind == 'ctor' and f.cls == cls and not f.decl.get('copy') and not f.decl.get('move')]
        if ctors:
            ok = True
            for f in ctors:
                e = [x['i'] for x in f.inits if x.get('field') == fd]
                ok = ok and (f.id in fill or bool(e) and self.nonempty(f, e[0], e[0], depth + 1))
            if ok:
                self.nmemo[key] = True
                return True
        # or right after each creation
        sites = self.creations(cls)
        ok = bool(fill) and bool(sites) and all(self.filled(f, i, fill) for f, i in sites)
        self.nmemo[key] = ok
        return ok

    def creations(self, cls):
        """where objects of the class come into being without being copied from another one: (function, node or field)"""
        m = self.m
        out = []
        for f in m.fn.values():
            if not f.file.startswith(SCOPE):
                continue
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Ctor' and f.callee(i) and f.callee(i).get('cls') == cls and not f.callee(i).get('copy') and not f.callee(i).get('move'):
                    out.append((f, i))
                elif n['k'] == 'OpCall' and n['op'] == '[]' and m.tmpl(f.typ(n['c'][0])) in ('std::map', 'std::unordered_map') and m.rec(m.noref(f.typ(i))) == cls:
                    out.append((f, i))
            for x in f.inits:
                if x.get('field') and self.m.rec((self.m.field(x['field']) or {}).get('t', '')) == cls:
                    j = x['i']
                    if j is not None and j >= 0 and (f, j) in out:
                        out.remove((f, j))
                        out.append((f, 'this.' + x['field']))
        return out

    def filled(self, f, i, fill):
        if f.rawcfg is None:
            return False
        S = self.S
        if isinstance(i, str):
            pts = {f.cfg.point(j) for j in f.all() if f.n(j)['k'] == 'MCall' and f.n(j).get('f') in fill and f.obj(j) is not None and S.path(f, f.obj(j)) == i}
            return bool(pts) and flow.must_hit(f, f.cfg.entry, pts)
        p = f.parent[i]
        while p is not None and p >= 0 and f.n(p)['k'] in ('Cast', 'Paren', 'Mat', 'Clean'):
            p = f.parent[p]
        q = f.n(p) if p is not None and p >= 0 else {}
        if q.get('k') == 'MCall' and q.get('f') in fill and flow.strip(f, f.obj(p)) == i:
            return True
        # named: filled before anything else happens to it
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i') is not None and v['i'] >= 0 and flow.strip(f, v['i']) == i:
                        pts = {f.cfg.point(x) for x in f.all() if f.n(x)['k'] == 'MCall' and f.n(x).get('f') in fill and f.n(flow.strip(f, f.obj(x))).get('d') == v['d']}
                        return bool(pts) and flow.must_hit(f, f.cfg.point(j), pts)
        return False


def quotients(f, e, depth=0, seen=None):
    """divisions whose result e is, up to rounding and other arithmetic"""
    if e is None or e < 0 or depth > 20:
        return
    n = f.n(e)
    c = n.get('c', [])
    if n['k'] in ('Cast', 'Paren', 'Clean', 'Mat') and c:
        yield from quotients(f, c[0], depth + 1)
    elif n['k'] == 'Bin' and not n.get('asg') and n['op'] in ('+', '-', '*', '/'):
        if n['op'] == '/':
            yield e
        for x in c:
            yield from quotients(f, x, depth + 1)
    elif n['k'] == 'Un' and n['op'] in ('-', '+') and c:
        yield from quotients(f, c[0], depth + 1)
    elif n['k'] == 'Cond':
        for x in c[1:]:
            yield from quotients(f, x, depth + 1)
    elif n['k'] == 'Call' and f.cqn(e).rsplit('::', 1)[-1] in ROUND:
        for x in f.args(e):
            yield from quotients(f, x, depth + 1)
    elif n['k'] == 'Ref' and 'd' in n:
        j = flow.init_of(f, n['d'])
        if j is not None:
            yield from quotients(f, j, depth + 1)


def check(ctx):
    m = ctx.m
    P = Positive(m)
    ctx.rule('R1: the divisor of every integer division or remainder is a non-zero constant or known not to be zero: by the branches passed, by how it is computed, by what every caller passes, or because every value the field may hold was checked')
    ctx.rule('R2: the same for the divisor of a floating point quotient which is turned into an integer')
    ctx.rule('R3: a loop which advances by a variable step is entered only with a step known to be positive')
    done = set()
    for f in sorted(m.fn.values(), key=lambda x: x.id):
        if f.rawcfg is None or not f.file.startswith(SCOPE):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Bin' and n['op'] in ('/', '%', '/=', '%=') and INTS.match(P.typ(f, i)):
                divisor(ctx, m, P, f, i, n['c'][1], 'integer divisions')
            elif n['k'] == 'Cast' and n.get('c') and INTS.match(P.typ(f, i)) and P.isfloat(f, n['c'][0]):
                for j in quotients(f, n['c'][0]):
                    divisor(ctx, m, P, f, j, f.n(j)['c'][1], 'quotients turned into integers')
            elif n['k'] == 'For' or n['k'] == 'While':
                stepping(ctx, m, P, f, i)
    ctx.require('integer divisions', 5)
    ctx.require('quotients turned into integers', 3)


def divisor(ctx, m, P, f, i, e, what):
    n = f.n(e)
    ctx.count(what)
    if n.get('cv') is not None and str(n['cv']) not in ('0',):
        return
    ctx.count(what + ' by something that is not a constant')
    ctx.sample('%s: %s' % (f.loc(i), f.expr(i, 5)[:90]))
    if not P.holds(f, i, e, None):
        ctx.violation('divisor %s %s' % (f.qn, f.expr(i, 5)[:80]), f.loc(i), 'divisor %s in %s may be zero' % (f.expr(e, 5)[:60], f.qn))


def stepping(ctx, m, P, f, i):
    n = f.n(i)
    c = n.get('cond')
    if c is None or c < 0:
        return
    named = {f.n(j)['d'] for j in f.walk(c) if f.n(j)['k'] == 'Ref' and 'd' in f.n(j)}
    for j in f.walk(i):
        x = f.n(j)
        if x['k'] == 'Bin' and x.get('asg') and x['op'] in ('+=', '=') and f.n(flow.strip(f, x['c'][0])).get('d') in named and f.n(flow.strip(f, x['c'][0]))['k'] == 'Ref':
            e = x['c'][1]
            if x['op'] == '=':
                # v = v + step
                z = f.n(flow.strip(f, e))
                v = f.n(flow.strip(f, x['c'][0]))['d']
                if z['k'] != 'Bin' or z['op'] != '+':
                    continue
                rest = [y for y in z['c'] if f.n(flow.strip(f, y)).get('d') != v]
                if len(rest) != 1:
                    continue
                e = rest[0]
            if n['k'] == 'For' and j not in set(f.walk(n['inc'])) if n.get('inc') is not None and n['inc'] >= 0 else n['k'] == 'For':
                continue
            t = P.typ(f, x['c'][0])
            if not INTS.match(t) and not FLOATS.match(t) or f.n(e).get('cv') is not None:
                continue
            ctx.count('loops with a variable step')
            ctx.sample('%s: step %s' % (f.loc(j), f.expr(e, 5)[:60]))
            if not P.holds(f, j, e, 0):
                ctx.violation('step %s %s' % (f.qn, f.expr(j, 5)[:80]), f.loc(j), 'loop in %s may advance by a step that is not positive' % f.qn)
