"""Every way through a function: what happens on it, in order, with helpers followed and loops entered at most once."""
import flow


class TooMany(Exception):
    pass


class Walk:
    """inline(f, call) -> functions followed at this call; event(f, node, value, env) -> event or None;
    value(f, node, env, ev) -> value of an expression the default evaluation does not know"""

    def __init__(self, m, S, inline, event, value=None, limit=3000, arith=None):
        self.m, self.S, self.inline, self.event, self.value, self.limit, self.arith = m, S, inline, event, value, limit, arith
        self.steps = 0

    def run(self, f, env=None, depth=0, ev=()):
        """[(events, exit, value)], exit is 'return' or 'throw'"""
        out = []
        g = f.cfg
        st = [(g.entry, dict(env or {}), tuple(ev), frozenset(), None)]
        while st:
            p, env, ev, used, ret = st.pop()
            self.steps += 1
            if self.steps > 200 * self.limit:
                raise TooMany()
            if p == g.exit:
                out.append((ev, 'return', ret))
                if len(out) > self.limit:
                    raise TooMany()
                continue
            x = g.payload[p]
            todo = [(env, ev, ret)]
            if x and x[0] == 's':
                i = x[1]
                n = f.n(i)
                if n['k'] == 'Throw':
                    out.append((ev, 'throw', None))
                    continue
                todo = []
                gs = self.inline(f, i) if n['k'] in ('Call', 'MCall', 'OpCall') and depth < 6 else ()
                if gs:
                    for h in gs:
                        henv = dict(env)
                        args = f.args(i)
                        for q, a in zip(h.params, args):
                            henv[q['d']] = self.eval(f, a, env, ev)
                        for hev, ex, hv in self.run(h, henv, depth + 1, ev):
                            if ex == 'throw':
                                out.append((hev, 'throw', None))
                            else:
                                e2 = {**env, ('call', id(f), i): hv}
                                # references handed over
                                for q, a in zip(h.params, args):
                                    pass
                                todo.append((e2, hev, ret))
                else:
                    e = self.event(f, i, env, ev)
                    env = dict(env)
                    if e is not None:
                        ev = ev + (e,)
                    if n['k'] == 'Decl':
                        for v in n['vars']:
                            if v.get('i') is not None and v['i'] >= 0:
                                env[v['d']] = self.eval(f, v['i'], env, ev)
                    elif n['k'] in ('Bin', 'OpCall') and n['op'] == '=':
                        t = flow.strip(f, n['c'][0])
                        if f.n(t)['k'] == 'Ref':
                            env[f.n(t)['d']] = self.eval(f, n['c'][1], env, ev)
                    elif self.arith and n['k'] == 'Un' and n['op'] in ('++', '--') or self.arith and n['k'] == 'Bin' and n['op'] in ('+=', '-=', '*=', '/='):
                        t = flow.strip(f, n['c'][0])
                        if f.n(t)['k'] == 'Ref' and f.n(t).get('d') in env:
                            env[f.n(t)['d']] = self.arith(self, f, i, env, ev)
                    elif n['k'] == 'Return' and n.get('c'):
                        ret = self.eval(f, n['c'][0], env, ev)
                    todo.append((env, ev, ret))
            elif x:
                e = self.event(f, x, env, ev)
                if e is not None:
                    todo = [(env, ev + (e,), ret)]
            for env, ev, ret in todo:
                for q, lab in g.succ[p]:
                    # a branch is taken in one way once; what lies between branches is passed again when a loop is left
                    ev2, env2 = ev, env
                    fx = self.fixed(f).get(lab[0]) if lab and len(lab) == 2 and lab[1] in (True, False) else None
                    if fx:
                        # a loop over a list written down: once for each of its elements
                        j = env.get(('turn', id(f), lab[0]), 0)
                        if lab[1] != (j < len(fx[1])):
                            continue
                        env2 = {**env, ('turn', id(f), lab[0]): j + 1 if lab[1] else 0, ('turns', id(f)): env.get(('turns', id(f)), 0) + 1}
                        if lab[1]:
                            env2[fx[0]] = self.eval(f, fx[1][j], env, ev)
                        st.append((q, env2, ev, used, ret))
                        continue
                    k = (p, q, 0, env.get(('turns', id(f)), 0))
                    if k in used:
                        if lab:
                            continue
                        k = (p, q, 1, k[3])
                        if k in used:
                            continue
                    if lab and len(lab) == 2 and isinstance(lab[1], bool):
                        a, ap = flow.normal(None, f, lab[0], lab[1])
                        v = self.eval(f, a, env, ev)
                        if isinstance(v, bool):
                            if v != ap:
                                continue
                        else:
                            env2 = {**env, ('out', id(f), a): ap}
                        if v is not None and isinstance(v, tuple) and v and v[0] == 'cond':
                            pol = ap == v[2]
                            ev2 = ev + (('branch', v[1], pol),)
                    st.append((q, env2, ev2, used | {k}, ret))
        return out

    def fixed(self, f):
        """{condition of a range loop: (variable, elements)} where the elements are written down"""
        if not hasattr(f, '_fixedloops'):
            f._fixedloops = {}
            for i in f.all():
                n = f.n(i)
                if n['k'] != 'RFor' or not isinstance(n.get('range'), int):
                    continue
                r = flow.strip(f, n['range'])
                if f.n(r)['k'] == 'Ref':
                    r = flow.init_of(f, f.n(r).get('d'))
                    r = flow.strip(f, r) if r is not None else None
                while r is not None and f.n(r)['k'] == 'Ctor' and len(f.n(r).get('c', [])) == 1:
                    r = flow.strip(f, f.n(r)['c'][0])
                if r is not None and f.n(r)['k'] == 'InitList' and 0 < len(f.n(r)['c']) <= 16 and ('[' in f.n(r).get('t', '') or 'initializer_list' in f.n(r).get('t', '')):
                    f._fixedloops[n['cond']] = (n['var'], f.n(r)['c'])
        return f._fixedloops

    def eval(self, f, i, env, ev):
        i = flow.strip(f, i)
        n = f.n(i)
        if ('call', id(f), i) in env:
            return env[('call', id(f), i)]
        if n['k'] == 'Bool':
            return str(n.get('v')).lower() in ('1', 'true')
        if n['k'] == 'Ref' and n.get('d') in env:
            return env[n['d']]
        if n['k'] == 'Un' and n['op'] == '!':
            v = self.eval(f, n['c'][0], env, ev)
            if isinstance(v, bool):
                return not v
            if isinstance(v, tuple) and v and v[0] == 'cond':
                return ('cond', v[1], not v[2])
            return None
        if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
            # the outcome of the first part on the way here
            a, ap = flow.normal(None, f, n['c'][0], True)
            v = env.get(('out', id(f), a))
            if v is None:
                v = self.eval(f, n['c'][0], env, ev)
                v = v if isinstance(v, bool) else None
            else:
                v = v == ap
            if v is not None:
                if v == (n['op'] == '||'):
                    return v
                w = self.eval(f, n['c'][1], env, ev)
                if w is not None:
                    return w
        if n['k'] in ('Ctor',) and len(n.get('c', [])) == 1:
            return self.eval(f, n['c'][0], env, ev)
        if self.value:
            return self.value(self, f, i, env, ev)
        return None
