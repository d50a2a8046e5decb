"""Proves upper and lower bounds of integer expressions from the facts known at a point (difference constraints between access paths and constants), following parameters to
the callers and results of program functions to their returns."""
import re
import flow
from sizes import Sizes

INF = float('inf')


def split(p):
    """operator and operands of a parenthesised path (a<b), (a+b) ..."""
    if not (p.startswith('(') and p.endswith(')')):
        return None
    d = 0
    j = 0
    while j < len(p):
        ch = p[j]
        if ch == '"':
            j = p.find('"', j + 1)
            if j < 0:
                return None
        elif ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
            if d == 0 and j != len(p) - 1:
                return None
        elif d == 1 and j > 1:
            if ch == '-' and p[j + 1:j + 2] == '>':
                j += 2
                continue
            if ch == '-' and p[j - 1] == '#':   # negative constant
                j += 1
                continue
            for op in ('<=', '>=', '==', '!=', '&&', '||', '<', '>', '+', '-', '*', '/', '%'):
                if p.startswith(op, j):
                    return op, p[1:j], p[j + len(op):-1]
        j += 1
    return None


def const(p):
    return int(p[1:]) if re.match(r'^#-?\d+$', p) else None


def linear(p):
    """(base, c): value of p is base + c; base '' for constants"""
    c = const(p)
    if c is not None:
        return '', c
    s = split(p)
    if s and s[0] in '+-':
        a, b = s[1], s[2]
        cb = const(b)
        if cb is not None:
            x, y = linear(a)
            return x, y + (cb if s[0] == '+' else -cb)
        ca = const(a)
        if ca is not None and s[0] == '+':
            x, y = linear(b)
            return x, y + ca
    if p.startswith('(-#'):
        return '', -int(p[3:-1])
    return p, 0


class Bounds(Sizes):
    def __init__(self, m, eff=None, nonneg=None, extra=None):
        super().__init__(m, eff)
        self.isnonneg = nonneg or (lambda p: p.endswith('.size()'))
        self.extra = extra    # extra(B, f, i, path) -> (lo, hi) known about a leaf path
        self._ret = {}

    # results of program functions
    def gen(self, f, i):
        out = super().gen(f, i)
        n = f.n(i)
        tg = []
        if n['k'] == 'Decl':
            tg = [('v' + str(v['d']), v['i']) for v in n['vars'] if v.get('i') is not None and v['i'] >= 0]
        elif n['k'] == 'Bin' and n.get('op') == '=' and len(n.get('c', [])) == 2:
            tg = [(self.path(f, n['c'][0]), n['c'][1])]
        for p, e in tg:
            e = flow.strip(f, e)
            while f.n(e)['k'] == 'Cast' and f.n(e).get('c'):
                e = f.n(e)['c'][0]
            if p and f.n(e)['k'] in ('Call', 'MCall') and f.n(e).get('f') in self.m.fn:
                lo, hi = self.returned(f.n(e)['f'])
                if hi < INF:
                    out.add(('<=', p, '#%d' % hi))
                if lo > -INF:
                    out.add(('>=', p, '#%d' % lo))
        return out

    def returned(self, fid):
        if fid in self._ret:
            return self._ret[fid]
        self._ret[fid] = (-INF, INF)
        g = self.m.fn[fid]
        if g.rawcfg is None or not re.match(r'^(unsigned |signed )?(int|long|short|char|long long)$|.*size_t$|.*int\d+_t$', str(g.decl.get('ret', '')).replace('const ', '')):
            return self._ret[fid]
        lo, hi, seen = INF, -INF, 0
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'Return' and n.get('c'):
                a, b = self.interval(g, i, n['c'][0])
                lo, hi = min(lo, a), max(hi, b)
                seen = 1
        if seen:
            self._ret[fid] = (lo, hi)
        return self._ret[fid]

    # ------------------------------------------------------------------ constraints
    def constraints(self, f, i, facts, goal):
        """edges x - y <= c as (x, y) -> c"""
        E = {}

        def le(a, b, c):
            # a + ca <= b + cb + c
            x, ca = linear(a)
            y, cb = linear(b)
            w = c + cb - ca
            if x != y and E.get((x, y), INF) > w:
                E[(x, y)] = w
        ne = []

        def fact(op, a, b):
            if op in ('t', 'f'):
                s = split(a)
                if s and s[0] in ('<', '<=', '>', '>=', '==', '!='):
                    o = s[0]
                    if op == 'f':
                        o = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[o]
                    fact(o, s[1], s[2])
                elif s and (op, s[0]) in (('t', '&&'), ('f', '||')):
                    fact(op, s[1], '')
                    fact(op, s[2], '')
                elif op == 'f' and a.endswith('.empty()'):
                    le('#1', a[:-8] + '.size()', 0)
                return
            if not isinstance(a, str) or not isinstance(b, str) or not a or not b:
                return
            if op in ('<', '<='):
                le(a, b, -1 if op == '<' else 0)
            elif op in ('>', '>='):
                le(b, a, -1 if op == '>' else 0)
            elif op == '==':
                le(a, b, 0)
                le(b, a, 0)
            elif op == '!=':
                ne.append((a, b))
        for x in sorted(facts, key=str):
            if x[0] in ('<', '<=', '>', '>=', '==', '!=', 't', 'f'):
                fact(*x)
        nodes = {z for e in E for z in e} | {linear(x)[0] for x in goal}
        for a, b in ne:
            nodes |= {linear(a)[0], linear(b)[0]}
        for p in sorted(nodes):
            if not p:
                continue
            if self.isnonneg(p):
                le('#0', p, 0)
            if re.match(r'^v[^.\[\(]*$', p):
                if p in self.nonnegative():
                    le('#0', p, 0)
                lo = self.counter(f, p)
                if lo is not None:
                    le('#%d' % lo, p, 0)
            if self.extra:
                lo, hi = self.extra(self, f, i, p)
                if hi < INF:
                    le(p, '#%d' % hi, 0)
                if lo > -INF:
                    le('#%d' % lo, p, 0)
        # a <= b and a != b: a < b
        for _ in range(2):
            D = self.close_over(E)
            for a, b in ne:
                x, ca = linear(a)
                y, cb = linear(b)
                if D.get((x, y), INF) == cb - ca:
                    E[(x, y)] = cb - ca - 1
                if D.get((y, x), INF) == ca - cb:
                    E[(y, x)] = ca - cb - 1
        return self.close_over(E)

    @staticmethod
    def close_over(E):
        D = dict(E)
        nodes = sorted({z for e in E for z in e})
        if len(nodes) > 60:
            return D
        for k in nodes:
            for a in nodes:
                w = D.get((a, k))
                if w is None:
                    continue
                for b in nodes:
                    v = D.get((k, b))
                    if v is not None and a != b and D.get((a, b), INF) > w + v:
                        D[(a, b)] = w + v
        return D

    def counter(self, f, p):
        """lower bound of a local which only grows from a constant"""
        g = f
        d = None
        while g is not None:
            for v in self.vars(g):
                if 'v' + str(v) == p:
                    d = v
            if d is not None:
                break
            g = self.m.fn.get(g.encl) if g.encl else None
        if d is None:
            return None
        kind, t, init, muts = self.vars(g)[d]
        if 'unsigned' in self.m.noref(t) or self.m.noref(t).endswith('size_t'):
            return 0
        if kind != 'local' or init is None or init < 0:
            return None
        q = self.path(g, init)
        lo = const(q) if q else None
        if lo is None and q and self.isnonneg(q):
            lo = 0
        if lo is None:
            return None
        seen = 0
        for h in [g] + [h for h in self.m.fn.values() if self.within(h, g)]:
            for i in h.all():
                n = h.n(i)
                c = n.get('c', [])
                if n['k'] == 'Un' and n['op'] == '++' and h.n(c[0])['k'] == 'Ref' and h.n(c[0]).get('d') == d:
                    seen += 1
                elif n['k'] == 'Bin' and n.get('asg') and h.n(c[0])['k'] == 'Ref' and h.n(c[0]).get('d') == d:
                    q = self.path(h, c[1])
                    k = const(q) if q else None
                    if n['op'] == '+=' and k is not None and k >= 0:
                        seen += 1
                    elif n['op'] == '=' and k is not None:
                        lo = min(lo, k)
                        seen += 1
                    elif n['op'] == '=' and q and linear(q)[0] == p and linear(q)[1] >= 0:
                        seen += 1
                    else:
                        return None
        return lo if seen == muts else None

    def nonnegative(self):
        """integer variables which only ever get values that are not negative (greatest set that agrees with every definition)"""
        if getattr(self, '_nn', None) is not None:
            return self._nn
        m = self.m
        INT = re.compile(r'^(unsigned |signed )?(int|long|short|char|long long)$|.*size_t$|.*int\d+_t$')
        defs, bad = {}, set()
        for f in m.fn.values():
            for v, (kind, t, init, muts) in self.vars(f).items():
                if not INT.match(m.noref(t).replace('const ', '').strip()):
                    continue
                ds = defs.setdefault(v, [])
                if kind == 'param':
                    if m.decls.get(f.id, {}).get('virt') or m.decls.get(f.id, {}).get('extc') or f.isLambda:
                        bad.add(v)
                        continue
                    k = [j for j, x in enumerate(f.params) if x['d'] == v][0]
                    cs = m.callers(f.id)
                    if not cs or m.tk(t).get('k') in ('ref', 'ptr'):
                        bad.add(v)
                    for cid, ci in cs:
                        c = m.fn[cid]
                        a = c.args(ci)
                        if c.n(ci).get('f') != f.id or k >= len(a) or a[k] is None or a[k] < 0:
                            bad.add(v)
                        else:
                            ds.append((c, a[k]))
                elif kind == 'local' and init is not None and init >= 0 and m.tk(t).get('k') not in ('ref', 'ptr'):
                    ds.append((f, init))
                else:
                    bad.add(v)
        for f in m.fn.values():
            for i in f.all():
                n = f.n(i)
                c = n.get('c', [])
                if n['k'] == 'Un' and n['op'] in ('--', '&') and f.n(c[0])['k'] == 'Ref':
                    bad.add(f.n(c[0]).get('d'))
                elif n['k'] == 'Bin' and n.get('asg') and f.n(c[0])['k'] == 'Ref' and f.n(c[0]).get('d') in defs:
                    if n['op'] in ('=', '+='):
                        defs[f.n(c[0])['d']].append((f, c[1]))
                    elif n['op'] not in ('/=', '%=', '>>=', '*='):
                        bad.add(f.n(c[0])['d'])
                    else:
                        defs[f.n(c[0])['d']].append((f, c[1]))
                elif n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                    d = f.callee(i)
                    pl = d.get('params', []) if d else []
                    for j, a in enumerate(f.args(i)):
                        if a is not None and a >= 0 and f.n(a)['k'] == 'Ref' and f.n(a).get('d') in defs:
                            x = m.tk(pl[j]) if j < len(pl) else {'k': '?'}
                            if x.get('k') == '?' or x.get('k') == 'ref' and not x['p'].startswith('const '):
                                bad.add(f.n(a)['d'])
                elif n['k'] == 'Decl':
                    # bound to a reference
                    for v in n['vars']:
                        if v.get('i') is not None and v['i'] >= 0 and m.tk(v['t']).get('k') == 'ref' and not m.tk(v['t'])['p'].startswith('const ') and f.n(v['i'])['k'] == 'Ref':
                            bad.add(f.n(v['i']).get('d'))
        ok = {v for v in defs if v not in bad and defs[v]}
        retbad = set()

        def val(f, e, depth=0):
            e = flow.strip(f, e)
            n = f.n(e)
            c = n.get('c', [])
            if depth > 12:
                return False
            if n['k'] == 'Cast' and c:
                return val(f, c[0], depth + 1)
            if n['k'] == 'Int':
                return int(n['v']) >= 0
            if n['k'] == 'Ref' and n.get('d') in ok:
                return True
            if 'unsigned' in m.noref(f.typ(e)) and n['k'] in ('Ref', 'Mem', 'MCall', 'Call', 'Sub', 'OpCall'):
                return True
            if n['k'] == 'Bin' and n['op'] in ('+', '*', '/', '%', '>>') and not n.get('asg'):
                return val(f, c[0], depth + 1) and val(f, c[1], depth + 1)
            if n['k'] == 'Cond':
                return val(f, c[1], depth + 1) and val(f, c[2], depth + 1)
            if n['k'] in ('Call', 'MCall') and n.get('f') in m.fn:
                return n['f'] not in retbad and INT.match(str(m.fn[n['f']].decl.get('ret', '')).replace('const ', '').strip()) is not None
            q = self.path(f, e)
            return bool(q) and self.isnonneg(q)
        ch = True
        while ch:
            ch = False
            for v in sorted(ok, key=str):
                if not all(val(f, e) for f, e in defs[v]):
                    ok.discard(v)
                    ch = True
            for f in m.fn.values():
                if f.id not in retbad and INT.match(str(f.decl.get('ret', '')).replace('const ', '').strip()):
                    if m.decls.get(f.id, {}).get('virt') or any(f.n(i)['k'] == 'Return' and not (f.n(i).get('c') and val(f, f.n(i)['c'][0])) for i in f.all()):
                        retbad.add(f.id)
                        ch = True
        self._nn = {'v' + str(v) for v in ok}
        return self._nn

    def interval(self, f, i, e):
        """constants between which the value of expression e lies at node i"""
        q = self.path(f, e)
        if q is None:
            z = flow.strip(f, e)
            if f.n(z)['k'] in ('Call', 'MCall') and f.n(z).get('f') in self.m.fn:
                return self.returned(f.n(z)['f'])
            return -INF, INF
        x, c = linear(q)
        if x == '':
            return c, c
        D = self.constraints(f, i, self.at(f, i), [q])
        hi = D.get((x, ''), INF) + c
        lo = -D.get(('', x), INF) + c
        return lo, hi

    def prove(self, f, i, a, op, b, depth=0):
        """a op b (op in <, <=) holds at node i on every path, or at all callers if expressed in parameters"""
        goal = '(%s%s%s)' % (a, op, b)
        if self.proves(f, i, a, op, b):
            return True
        return bool(self.at_callers(f, i, goal, self.test))

    def proves(self, f, i, a, op, b):
        x, ca = linear(a)
        y, cb = linear(b)
        w = cb - ca - (1 if op == '<' else 0)
        if x == y:
            return w >= 0
        st = self.at(f, i)
        if ('dead', '', '') in st:
            return True
        return self.constraints(f, i, st, [a, b]).get((x, y), INF) <= w

    @staticmethod
    def test(self, c, ci, q):
        s = split(q)
        return bool(s) and s[0] in ('<', '<=') and self.proves(c, ci, s[1], s[0], s[2])
