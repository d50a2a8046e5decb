"""What is known to hold at a point: branch conditions on access paths, carried along the control-flow graph until something they mention is modified.

Paths are canonical strings: v<var> | this | g<global>, then .<field> | .* | .method(args) | [index]; reference locals and locals assigned once stand for what
they were initialised with. A fact is (op, a, b): op in t (a is true), f (a is false), ==, !=, <, <=, >, >= between paths or integer constants '#n'."""
from effects import Effects

NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
PASS = ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof')
FORWARDERS = ('make_unique', 'make_shared', 'make_pair', 'make_tuple', 'emplace', 'emplace_back', 'emplace_hint', 'bind', 'try_emplace', 'pair', 'tuple')
SMART = ('std::unique_ptr', 'std::shared_ptr')


class Env(dict):
    """bindings of an inlined callee: parameter variable -> path, 'this' -> path"""


class Guards:
    def __init__(self, m, eff=None):
        self.m = m
        self.eff = eff or Effects(m)
        self._once = {}
        self._states = {}
        self._kills = {}
        self._fm = None
        self._owner = {}
        self._lamctx = None

    # ---------------------------------------------------------------- variables
    def owner(self, f, var):
        """function that declares the variable (lambdas see those of the enclosing functions)"""
        g = f
        while g is not None:
            if var in self.vars(g):
                return g
            g = self.m.fn.get(g.encl) if g.encl else None
        return f

    def vars(self, f):
        if f.id in self._once:
            return self._once[f.id]
        d = {}
        for p in f.params:
            d[p['d']] = ['param', p['t'], None, 0]
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    d.setdefault(v['d'], ['local', v['t'], v.get('i'), 0])
            elif n['k'] == 'RFor':
                d[n['var']] = ['rfor', n['vt'], n['range'], 0]
            elif n['k'] == 'Catch' and n.get('var'):
                d[n['var']] = ['catch', '', None, 0]
        self._once[f.id] = d
        fs = [f] + [g for g in self.m.fn.values() if self.within(g, f)]
        for g in fs:
            for i in g.all():
                n = g.n(i)
                c = n.get('c', [])
                t = None
                if n['k'] == 'Bin' and n.get('asg') or n['k'] == 'Un' and n['op'] in ('++', '--'):
                    t = c[0]
                elif n['k'] == 'OpCall' and c and n['op'] in ('=', '+=', '-=', '++', '--', '>>'):
                    t = c[-1] if n['op'] == '>>' else c[0]
                elif n['k'] == 'Un' and n['op'] == '&':
                    t = c[0]
                elif n['k'] == 'MCall' and n.get('f') and not (self.m.decls[n['f']].get('const')):
                    o = g.n(c[0]) if c else {}
                    # a reference variable is not modified by modifying what it refers to
                    t = c[0]
                elif n['k'] in ('Call', 'Ctor', 'MCall'):
                    pass
                if t is not None and g.n(t)['k'] == 'Ref' and g.n(t)['d'] in d:
                    e = d[g.n(t)['d']]
                    x = self.m.tk(e[1]).get('k')
                    if x in ('ref', 'rref'):
                        continue
                    if n['k'] == 'MCall' and x in ('ptr',):
                        continue
                    e[3] += 1
                if n['k'] in ('Call', 'Ctor', 'MCall', 'OpCall'):
                    dd = g.callee(i)
                    ps = dd.get('params', []) if dd else []
                    for j, a in enumerate(g.args(i)):
                        if a is None or a < 0 or g.n(a)['k'] != 'Ref' or g.n(a)['d'] not in d:
                            continue
                        x = self.m.tk(ps[j]) if j < len(ps) else {}
                        if x.get('k') == 'ref' and not x['p'].startswith('const ') and not (dd and dd.get('n') in FORWARDERS) and not (dd and dd.get('qn') in PASS):
                            e = d[g.n(a)['d']]
                            if self.m.tk(e[1]).get('k') not in ('ref', 'rref'):
                                e[3] += 1
        return d

    def within(self, g, f):
        while g is not None and g.encl:
            if g.encl == f.id:
                return True
            g = self.m.fn.get(g.encl)
        return False

    # ---------------------------------------------------------------- canonical paths
    def path(self, f, i, env=None, depth=0, subst=True):
        if i is None or i < 0 or depth > 14:
            return None
        m = self.m
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        if n.get('cv') is not None:
            return '#%s' % n['cv']
        R = lambda j: self.path(f, j, env, depth + 1, subst)
        if k in ('Int', 'Char'):
            return '#%s' % n['v']
        if k == 'Bool':
            return '#1' if n['v'] in (True, 'true', 1) else '#0'
        if k == 'NullPtr':
            return '#0'
        if k == 'Str':
            return '"%s"' % n['v']
        if k == 'This':
            return (env or {}).get('this', 'this')
        if k == 'Cast':
            return R(c[0]) if c else None
        if k == 'Ref':
            if n['dk'] in ('global', 'static'):
                return 'g' + str(n['d'])
            if n['dk'] in ('local', 'param'):
                if env is not None and n['d'] in env:
                    return env[n['d']]
                g = self.owner(f, n['d'])
                e = self.vars(g).get(n['d'])
                if e and subst:
                    kind, t, init, muts = e
                    x = m.tk(t).get('k')
                    if kind == 'local' and init is not None and init >= 0 and n['d'] not in getattr(self, '_busy', ()):
                        if x in ('ref', 'rref') or muts == 0:
                            self._busy = getattr(self, '_busy', ()) + (n['d'],)
                            p = self.path(g, init, env if g is f else None, depth + 1, subst)
                            self._busy = self._busy[:-1]
                            if p is not None and (x in ('ref', 'rref', 'ptr') or self.substitutable(t)):
                                return p
                return 'v' + str(n['d'])
            return None
        if k == 'Mem':
            p = R(c[0]) if c else None
            if p is None:
                return None
            if n.get('arrow') and f.n(c[0])['k'] != 'This' and not self.arrowop(f, c[0]):
                p = self.deref(p)
            return p + '.' + str(n['d'] or n.get('n'))
        if k == 'Un':
            if n['op'] == '*':
                p = R(c[0])
                return None if p is None else self.deref(p)
            if n['op'] == '&':
                p = R(c[0])
                return None if p is None else (p[:-2] if p.endswith('.*') else '&' + p)
            if n['op'] in ('-', '+', '!', '~') and not n.get('post'):
                p = R(c[0])
                return None if p is None else '(%s%s)' % (n['op'], p)
            return None
        if k == 'Sub':
            a, b = R(c[0]), R(c[1])
            return None if a is None or b is None else '%s[%s]' % (a, b)
        if k == 'OpCall':
            if n['op'] == '[]':
                a, b = R(c[0]), R(c[1])
                return None if a is None or b is None else '%s[%s]' % (a, b)
            if n['op'] in ('*', '->') and len(c) == 1:
                p = R(c[0])
                return None if p is None else self.deref(p)
            if n['op'] in ('==', '!=', '<', '>', '<=', '>=', '+', '-') and len(c) == 2:
                a, b = R(c[0]), R(c[1])
                return None if a is None or b is None else '(%s%s%s)' % (a, n['op'], b)
            return None
        if k == 'Bin' and not n.get('asg') and n['op'] != ',':
            a, b = R(c[0]), R(c[1])
            return None if a is None or b is None else '(%s%s%s)' % (a, n['op'], b)
        if k == 'MCall':
            d = f.callee(i)
            if not d:
                return None
            o = R(c[0]) if c else None
            if o is None:
                return None
            if n.get('arrow') and f.n(c[0])['k'] != 'This' and not self.arrowop(f, c[0]):
                o = self.deref(o)
            if d['n'] == 'get' and m.tmpl(f.typ(c[0])) in SMART:
                return o
            if d['n'] in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty', 'length', 'count', 'find', 'front', 'back', 'at', 'data', 'good', 'is_open', 'fail', 'eof', 'lower_bound', 'upper_bound') or d.get('const'):
                a = [R(x) for x in c[1:]]
                if any(x is None for x in a):
                    return None
                nm = {'cbegin': 'begin', 'cend': 'end', 'length': 'size'}.get(d['n'], d['n'])
                if nm == 'at':
                    return '%s[%s]' % (o, a[0])
                if nm.startswith('operator '):
                    return o
                # a getter of the program that returns a member: the member itself
                g = m.fn.get(n.get('f'))
                if g is not None and not d.get('virt') and depth < 8:
                    r = self.inline(f, i, env, depth)
                    if r is not None:
                        return r
                return '%s.%s(%s)' % (o, nm, ','.join(a))
            return None
        if k == 'Call':
            q = f.cqn(i)
            if q in PASS and f.args(i):
                return R(f.args(i)[0])
            if q in ('std::begin', 'std::end') and f.args(i):
                p = R(f.args(i)[0])
                return None if p is None else '%s.%s()' % (p, q[5:])
            g = m.fn.get(n.get('f'))
            if g is not None:
                r = self.inline(f, i, env, depth)
                if r is not None:
                    return r
            if q in ('std::find', 'std::find_if', 'std::lower_bound', 'std::min', 'std::max', 'std::abs', 'std::distance', 'std::tolower') and f.args(i):
                a = [R(x) for x in f.args(i)]
                return None if any(x is None for x in a) else '%s(%s)' % (q, ','.join(a))
            return None
        if k == 'Ctor':
            d = f.callee(i)
            a = f.args(i)
            if d and len(a) == 1 and (d.get('copy') or d.get('move')):
                return R(a[0])
            if d and 'basic_string' in d.get('clsn', '') and a and not (d.get('copy') or d.get('move')):
                q = R(a[0])
                if q is not None and q.startswith('"'):
                    return q
            if len(a) == 1 and 'iterator' in m.tmpl(n.get('t', '')).lower():
                return R(a[0])
            if not a:
                return None
            return None
        return None

    def substitutable(self, t):
        """values a const local may stand for: numbers, booleans, iterators, pointers"""
        m = self.m
        x = m.tk(t)
        tt = m.noref(t).replace('const ', '').strip()
        if x.get('k') in ('ptr', 'ref', 'rref'):
            return True
        if tt in ('bool', 'char', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'signed char', 'unsigned char', 'long long', 'unsigned long long', 'double', 'float', 'std::size_t', 'size_t') or x.get('k') in ('int', 'enum', 'builtin'):
            return True
        return 'iterator' in m.tmpl(t) or 'iterator' in tt

    @staticmethod
    def arrowop(f, i):
        while f.n(i)['k'] == 'Cast' and f.n(i).get('c'):
            i = f.n(i)['c'][0]
        return f.n(i)['k'] == 'OpCall' and f.n(i)['op'] == '->'

    @staticmethod
    def deref(p):
        return p[1:] if p.startswith('&') else p + '.*'

    def binding(self, f, i, g, env=None, depth=0):
        """bindings of callee g's parameters at call i of f"""
        e = Env()
        n = f.n(i)
        args = f.args(i)
        for j, p in enumerate(g.params):
            if j < len(args) and args[j] is not None and args[j] >= 0:
                a = self.path(f, args[j], env, depth + 1)
                if a is not None:
                    e[p['d']] = a
        if n['k'] in ('MCall', 'OpCall') and f.obj(i) is not None:
            o = self.path(f, f.obj(i), env, depth + 1)
            if o is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.arrowop(f, f.obj(i)):
                o = self.deref(o)
            if g.isLambda:
                if env:
                    for kk, vv in env.items():
                        e.setdefault(kk, vv)
            elif o is not None:
                e['this'] = o
        return e

    def single_return(self, g):
        """the returned expression of a function that does nothing else"""
        b = g.o.get('body') if hasattr(g, 'o') else None
        rets = [i for i in g.all() if g.n(i)['k'] == 'Return' and g.n(i).get('c')]
        if len(rets) != 1:
            return None
        for i in g.all():
            if g.n(i)['k'] in ('If', 'For', 'While', 'Do', 'RFor', 'Switch', 'Try', 'Throw', 'Decl') or (g.n(i)['k'] == 'Bin' and g.n(i).get('asg')):
                return None
        return g.n(rets[0])['c'][0]

    def inline(self, f, i, env, depth):
        n = f.n(i)
        g = self.m.fn.get(n.get('f'))
        if g is None or depth > 8:
            return None
        r = self.single_return(g)
        if r is None:
            return None
        e = self.binding(f, i, g, env, depth)
        p = self.path(g, r, e, depth + 1)
        if p is None:
            return None
        for q in g.params:
            if 'v' + str(q['d']) in p and q['d'] not in e:
                return None
        if f.n(i)['k'] == 'MCall' and 'this' not in e and ('this' in p):
            return None
        return p

    # ---------------------------------------------------------------- conditions
    def cond(self, f, i, pol, env=None, depth=0):
        """facts that hold when expression i evaluates to pol"""
        if i is None or i < 0 or depth > 10:
            return set()
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        if k == 'Cast':
            return self.cond(f, c[0], pol, env, depth + 1)
        if k == 'Un' and n['op'] == '!':
            return self.cond(f, c[0], not pol, env, depth + 1)
        if k == 'OpCall' and n['op'] == '!' and len(c) == 1:
            return self.cond(f, c[0], not pol, env, depth + 1)
        if k == 'Bin' and n['op'] in ('&&', '||'):
            if (n['op'] == '&&') == pol:
                return self.cond(f, c[0], pol, env, depth + 1) | self.cond(f, c[1], pol, env, depth + 1)
            return set()
        if (k == 'Bin' or k == 'OpCall') and n.get('op') in NEG and len(c) == 2:
            a, b = self.path(f, c[0], env), self.path(f, c[1], env)
            out = set()
            if a is not None and b is not None:
                op = n['op'] if pol else NEG[n['op']]
                if a.startswith('#') and not b.startswith('#'):
                    a, b, op = b, a, SWAP[op]
                out.add((op, a, b))
            # comparison of a condition with a boolean constant
            for x, y in ((c[0], b), (c[1], a)):
                if y in ('#0', '#1') and n['op'] in ('==', '!='):
                    out |= self.cond(f, x, ((y == '#1') == (n['op'] == '==')) == pol, env, depth + 1)
            return out
        if k == 'Bin' and n.get('asg') and n['op'] == '=':
            a = self.path(f, c[0], env)
            return {('t' if pol else 'f', a, '')} if a else set()
        out = set()
        if k == 'Ref' and n['dk'] in ('local', 'param') and (env is None or n['d'] not in env):
            g = self.owner(f, n['d'])
            e = self.vars(g).get(n['d'])
            if e and e[0] == 'local' and e[2] is not None and e[2] >= 0 and e[3] == 0 and self.m.noref(e[1]).replace('const ', '') == 'bool':
                out |= self.cond(g, e[2], pol, env if g is f else None, depth + 1)
        if k in ('Call', 'MCall', 'OpCall') and n.get('f') in self.m.fn:
            g = self.m.fn[n['f']]
            if not (self.m.decls[n['f']].get('virt')):
                r = self.single_return(g)
                if r is not None:
                    out |= self.cond(g, r, pol, self.binding(f, i, g, env), depth + 2)
                else:
                    out |= self.branch_summary(f, i, g, pol, env, depth)
        p = self.path(f, i, env)
        if p is not None:
            if p == '#1' and not pol or p == '#0' and pol:
                return {('dead', '', '')}
            out.add(('t' if pol else 'f', p, ''))
        return out

    def branch_summary(self, f, i, g, pol, env, depth):
        """facts at every `return <pol>` of a boolean function, in terms of the caller"""
        if depth > 4 or self.m.noref(g.decl.get('ret', '')) != 'bool' or g.rawcfg is None:
            return set()
        if (g.id,) in getattr(self, '_sumbusy', ()):
            return set()
        self._sumbusy = getattr(self, '_sumbusy', ()) + ((g.id,),)
        try:
            st = self.state(g)
            acc = None
            for j in g.all():
                if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                    v = g.n(j)['c'][0]
                    pv = self.path(g, v)
                    p = g.cfg.point(j)
                    if p not in st:
                        continue
                    if pv in ('#0', '#1') and (pv == '#1') != pol:
                        continue
                    s = set(st[p]) | (self.cond(g, v, pol, None, depth + 1) if pv not in ('#0', '#1') else set())
                    acc = s if acc is None else acc & s
            if not acc:
                return set()
            return self.translate(acc, self.binding(f, i, g, env), g)
        finally:
            self._sumbusy = self._sumbusy[:-1]

    def translate(self, facts, e, g):
        out = set()
        for fct in facts:
            if fct[0] == '=>':
                continue
            op, a, b = fct
            x, y = self.subst(a, e, g), self.subst(b, e, g)
            if x is not None and y is not None:
                out.add((op, x, y))
        return out

    def subst(self, p, e, g):
        """path of callee g in terms of the caller's bindings; None if it mentions anything else"""
        if p == '' or p.startswith('#') or p.startswith('"'):
            return p
        import re
        ok = [True]
        own = self.vars(g)

        def rep(mo):
            t = mo.group(0)
            if t == 'this':
                if 'this' in e:
                    return e['this']
                ok[0] = False
                return t
            v = t[1:]
            if v in e:
                return e[v]
            if v in own or any(str(x) == v for x in own):
                ok[0] = False
            return t
        r = re.sub(r'(?<![\w:.>/])(?:v[A-Za-z_]\w*@\d+:\d+(?:#\d+)?|this(?!\w))', rep, p)
        return r if ok[0] else None

    # ---------------------------------------------------------------- what a statement modifies
    def fieldmut(self):
        """fields each function may modify, including what it calls"""
        if self._fm is None:
            cg = self.m.callgraph()
            own = {}
            for f in self.m.fn.values():
                own[f.id] = {r for kd, r, nd in self.eff.mutations(f) if kd in ('f', 'g')}
            fm = {k: set(v) for k, v in own.items()}
            ch = True
            edges = {k: [t for t in self.callees(k)] for k in fm}
            while ch:
                ch = False
                for k in fm:
                    b = len(fm[k])
                    for t in edges[k]:
                        if t in fm:
                            fm[k] |= fm[t]
                    if len(fm[k]) != b:
                        ch = True
            self._fm = fm
        return self._fm

    def callees(self, fid):
        cg = self.m.callgraph()
        e = cg.get(fid, ())
        out = set()
        for x in e:
            out.add(x[1] if isinstance(x, tuple) else x)
        return out

    def mutated(self, f, i):
        """(paths, fields) modified by evaluating node i itself"""
        key = (f.id, i)
        if key in self._kills:
            return self._kills[key]
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        ps, fs = [], set()
        tg = []
        m = self.m
        if k == 'Bin' and n.get('asg') or k == 'Un' and n['op'] in ('++', '--'):
            tg.append(c[0])
        elif k == 'OpCall' and c and n['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '>>', '|=', '&=', '%='):
            tg.append(c[0])
            if n['op'] == '>>' and len(c) > 1:
                tg.append(c[1])
        elif k == 'MCall' and c:
            d = f.callee(i)
            if d and not d.get('const') and not d.get('static') and not d.get('src'):
                from effects import READERS
                if d['n'] not in READERS:
                    tg.append(c[0])
        elif k == 'Decl':
            for v in n['vars']:
                ps.append('v' + str(v['d']))
        if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
            d = f.callee(i)
            pl = d.get('params', []) if d else []
            tgts = [t for t in m.targets(f, i) if t in m.fn]
            for j, a in enumerate(f.args(i)):
                if a is None or a < 0:
                    continue
                x = m.tk(pl[j]) if j < len(pl) else {}
                if x.get('k') == 'ref' and not x['p'].startswith('const '):
                    if n.get('f') in m.fn:
                        if not any(j in self.eff.mutated_params(t) for t in tgts):
                            # handed on to something that modifies it: decided by fields below
                            continue
                    elif d and (d.get('qn') in ('std::move', 'std::forward', 'std::ref', 'std::addressof', 'std::begin', 'std::end', 'std::get') or d.get('n') in FORWARDERS):
                        continue
                    tg.append(a)
                elif x.get('k') == 'ptr' and not x['p'].startswith('const ') and f.n(a)['k'] == 'Un' and f.n(a)['op'] == '&':
                    tg.append(f.n(a)['c'][0])
                elif x.get('k') == 'rref' and f.cqn(a) == 'std::move':
                    tg.append(f.args(a)[0])
            for t in tgts:
                fs |= self.fieldmut().get(t, set())
                if m.fn[t].isLambda or True:
                    g = m.fn[t]
                    if g.isLambda:
                        for kd, r, nd in self.eff.mutations(g):
                            if kd == 'v':
                                ps.append('v' + str(r))
            # lambdas handed over may run now
            for a in f.args(i):
                if a is not None and a >= 0 and f.n(a)['k'] == 'Lambda' and (k != 'Ctor' or n.get('f') in m.fn and not m.fn[n['f']].isLambda):
                    g = m.fn.get(f.n(a).get('f'))
                    if g:
                        fs |= self.fieldmut().get(g.id, set())
                        for kd, r, nd in self.eff.mutations(g):
                            if kd == 'v':
                                ps.append('v' + str(r))
        for t in tg:
            p = self.path(f, t)
            if p is not None:
                ps.append(p)
            if f.n(t)['k'] == 'Ref' and f.n(t)['dk'] in ('local', 'param'):
                ps.append('v' + str(f.n(t)['d']))
            if p is None:
                for kd, r, nd in self.eff.roots(f, t):
                    if kd == 'v':
                        ps.append('v' + str(r))
                    elif kd == 'f':
                        fs.add(r)
        self._kills[key] = (ps, fs)
        return ps, fs

    @staticmethod
    def mentions(p, mp):
        """does path p go through mp (or a part of it)?"""
        j = p.find(mp)
        while j >= 0:
            e = j + len(mp)
            before = p[j - 1] if j else ''
            if (e == len(p) or p[e] in '.[](),+-<>=!*/%&|') and (not before or before in '(,&[+-<>=!*/%|'):
                return True
            j = p.find(mp, j + 1)
        return False

    def kill(self, st, ps, fs):
        if not ps and not fs:
            return st
        out = []
        for fact in st:
            dead = False
            for x in (fact[1:] if fact[0] != '=>' else (fact[1][1], fact[1][2], fact[2][1], fact[2][2])):
                if not x or x[0] == '#':
                    continue
                for mp in ps:
                    if self.mentions(x, mp):
                        dead = True
                        break
                if not dead and fs:
                    for fd in fs:
                        if '.' + str(fd) in x or 'g' + str(fd) == x:
                            dead = True
                            break
                if dead:
                    break
            if not dead:
                out.append(fact)
        return frozenset(out)

    # ---------------------------------------------------------------- facts made by statements
    def gen(self, f, i):
        """facts that hold right after node i (overridable)"""
        out = set()
        n = f.n(i)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if v.get('i') is not None and v['i'] >= 0:
                    out |= self.made(f, 'v' + str(v['d']), v['i'], v['t'])
        elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and len(n.get('c', [])) == 2:
            p = self.path(f, n['c'][0])
            if p:
                out |= self.made(f, p, n['c'][1], f.typ(n['c'][0]))
        elif n['k'] in ('Call', 'MCall') and n.get('f') in self.m.fn:
            out |= self.postcond(f, i)
        return out

    def made(self, f, p, i, t):
        q = self.path(f, i)
        out = set()
        if q is not None and q != p and not self.mentions(q, p):
            out.add(('==', p, q))
        return out

    def postcond(self, f, i):
        """facts established by a helper that returns normally only when they hold"""
        g = self.m.fn[f.n(i)['f']]
        if self.m.decls[g.id].get('virt') or g.rawcfg is None or (g.id, 'p') in getattr(self, '_sumbusy', ()):
            return set()
        if not hasattr(self, '_post'):
            self._post = {}
        if g.id not in self._post:
            self._sumbusy = getattr(self, '_sumbusy', ()) + ((g.id, 'p'),)
            if len(self._sumbusy) > 12:
                self._sumbusy = self._sumbusy[:-1]
                return set()
            st = self.state(g)
            self._sumbusy = self._sumbusy[:-1]
            self._post[g.id] = set(st.get(g.cfg.exit, ()))
        s = self._post[g.id]
        if not s:
            return set()
        return self.translate(s, self.binding(f, i, g), g)

    # ---------------------------------------------------------------- dataflow
    @staticmethod
    def join(a, b):
        if a == b:
            return a
        out = set(a & b)
        # what holds on one side only holds under the condition that led there
        for x, y in ((a, b), (b, a)):
            dx = x - y
            if not dx or len(dx) > 60:
                continue
            for c in dx:
                if c[0] in ('t', 'f') and (('f' if c[0] == 't' else 't'), c[1], '') in y:
                    for fct in dx:
                        if fct != c and fct[0] != '=>':
                            out.add(('=>', c, fct))
            for i in dx:
                if i[0] == '=>':
                    c = i[1]
                    if i[2] in y or (('f' if c[0] == 't' else 't'), c[1], '') in y:
                        out.add(i)
        return frozenset(out)

    @staticmethod
    def imply(s):
        s = set(s)
        for x in list(s):
            if x[0] == '=>' and x[1] in s:
                s.add(x[2])
        return s

    def close(self, s):
        """facts about a value hold for the variable it was just assigned to"""
        eq = [(x[1], x[2]) for x in s if x[0] == '==' and x[1].startswith('v') and not x[2].startswith('#')]
        if not eq:
            return s
        new = set()
        for v, q in eq:
            for x in s:
                if x[0] in ('!=', '<', '>', '<=', '>=', 't', 'f') and x[1] == q:
                    new.add((x[0], v, x[2]))
        return frozenset(s | new)

    def entry(self, f):
        """facts at the start of a lambda that runs where it is created"""
        if not f.isLambda:
            return frozenset()
        h = self.lamctx().get(f.id)
        if h is None:
            return frozenset()
        g, i = h
        if (f.id, 'e') in getattr(self, '_sumbusy', ()):
            return frozenset()
        self._sumbusy = getattr(self, '_sumbusy', ()) + ((f.id, 'e'),)
        try:
            return frozenset(self.at(g, i))
        finally:
            self._sumbusy = self._sumbusy[:-1]

    def lamctx(self):
        """lambda -> (function, call it is handed to directly)"""
        if self._lamctx is None:
            d = {}
            for f in self.m.fn.values():
                for i in f.all():
                    n = f.n(i)
                    if n['k'] == 'Lambda' and n.get('f'):
                        a = f.parent[i]
                        while a is not None and a >= 0 and f.n(a)['k'] in ('Cast', 'Ctor'):
                            b = f.parent[a]
                            if f.n(a)['k'] == 'Ctor' and 'function' not in f.typ(a) and 'lambda' not in f.typ(a):
                                break
                            a = b
                        if a is not None and a >= 0 and f.n(a)['k'] in ('Call', 'MCall'):
                            q = f.cqn(a)
                            if q.startswith('std::') and f.n(a)['k'] == 'Call' and q.rsplit('::', 1)[-1] not in ('bind', 'async', 'make_shared', 'make_unique', 'make_pair', 'make_tuple', 'move', 'forward', 'ref') or f.n(a).get('f') in self.m.fn:
                                d[n['f']] = (f, a)
            self._lamctx = d
        return self._lamctx

    def state(self, f):
        """must-facts before every point"""
        if f.id in self._states:
            return self._states[f.id]
        if f.rawcfg is None:
            return {}
        g = f.cfg
        busy = getattr(self, '_inprogress', set())
        if f.id in busy:
            return {}
        self._inprogress = busy | {f.id}
        cache = {}

        def transfer(p, x, s):
            if p not in cache:
                ps, fs, gen = [], set(), set()
                if x and x[0] == 's':
                    ps, fs = self.mutated(f, x[1])
                    gen = self.gen(f, x[1])
                elif x and x[0] == 'd':
                    ps = ['v' + str(x[1])]
                cache[p] = (ps, fs, gen)
            ps, fs, gen = cache[p]
            s = self.kill(s, ps, fs)
            return self.close(s | gen) if gen else s

        def edge(p, q, lab, s):
            if lab and lab[0] != 'case' and len(lab) == 2:
                c, pol = lab
                fs = ecache.get((c, pol))
                if fs is None:
                    if f.n(c)['k'] == 'RFor':
                        fs = self.rfor(f, c, pol)
                    else:
                        fs = self.cond(f, c, pol) | self.rforcond(f, c, pol)
                    ecache[(c, pol)] = fs
                if ('dead', '', '') in fs:
                    return None
                r = s | fs
                if any(x[0] == '=>' for x in r):
                    r = frozenset(self.imply(r))
                return r
            return s
        ecache = {}
        IN, OUT = g.forward(frozenset(self.entry(f)), transfer, self.join, edge=edge, handler_init=frozenset())
        self._inprogress = busy
        self._states[f.id] = IN
        return IN

    def rfor(self, f, c, pol):
        return set()

    def rforcond(self, f, c, pol):
        """range-for: inside the body the range is not empty"""
        out = set()
        if pol:
            for a in f.ancestors(c):
                n = f.n(a)
                if n['k'] == 'RFor' and c not in set(f.walk(n['c'][-1] if n.get('c') else a)):
                    p = self.path(f, n['range'])
                    if p:
                        out.add(('f', p + '.empty()', ''))
                break
        return out

    def at(self, f, i):
        """facts known when node i is evaluated"""
        st = self.state(f)
        p = f.cfg.point(i) if f.rawcfg is not None else None
        s = set(st.get(p, ()))
        # operands of && and || and ?: evaluated only after their left side
        child = i
        for a in f.ancestors(i):
            n = f.n(a)
            if n['k'] == 'Bin' and n['op'] in ('&&', '||') and n['c'][1] == child:
                s |= self.cond(f, n['c'][0], n['op'] == '&&')
            elif n['k'] == 'Cond' and child in n['c'][1:]:
                s |= self.cond(f, n['c'][0], child == n['c'][1])
            elif n['k'] == 'RFor' and child != n['range']:
                q = self.path(f, n['range'])
                if q:
                    s.add(('f', q + '.empty()', ''))
            child = a
        return self.imply(s)

    # ---------------------------------------------------------------- obligations of callers
    def unmodified(self, f, i, p):
        """path p has at node i the value it had on entry of f"""
        if f.rawcfg is None:
            return False
        g = f.cfg
        e = g.point(i)
        back = g.reach(e, fwd=False) | {e}
        for q in back:
            x = g.payload[q]
            if x and x[0] == 's' and (q != e):
                ps, fs = self.mutated(f, x[1])
                if any(self.mentions(p, mp) for mp in ps) or any('.' + str(fd) in p for fd in fs):
                    return False
        return True

    def at_callers(self, f, i, p, test, depth=0, seen=()):
        """test(guards, caller, call, path in the caller) holds at every call of f, p being expressed in f's parameters; None if the callers are not known"""
        if depth > 4 or f.id in seen or not self.unmodified(f, i, p):
            return None
        if self.m.decls.get(f.id, {}).get('virt') or self.m.decls.get(f.id, {}).get('extc'):
            return None
        cs = self.m.callers(f.id)
        if not cs:
            return None
        for cid, ci in cs:
            c = self.m.fn[cid]
            if c.rawcfg is None or c.n(ci).get('f') != f.id:
                return None
            q = self.subst(p, self.binding(c, ci, f), f)
            if q is None:
                return None
            if test(self, c, ci, q):
                continue
            r = self.at_callers(c, ci, q, test, depth + 1, seen + (f.id,))
            if not r:
                return r if r is False else None
        return True
