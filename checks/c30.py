"""Reads of files: nothing is taken from a read before its outcome is tested, and no content is taken from a file which could not be opened."""
import re
import flow
from guards import Guards
from streams import Streams, fstream

LEVEL = 'other'
SCOPE = ('core/src/', 'core/shared/')
UNINIT = re.compile(r'^(const )?(unsigned |signed )?(int|long|short|char|float|double|bool|long long|std::u?int\d+_t|u?int\d+_t|size_t|std::size_t)( int| long| char)?( *\[\d+\])?$')
WHOLE = ('istreambuf_iterator', 'istream_iterator')


class Reads:
    def __init__(self, m):
        self.m = m
        self.S = Guards(m)
        self.T = Streams(m, self.S)
        self.fs = {f.id: f for f in m.fn.values() if f.rawcfg is not None and f.file.startswith(SCOPE)}
        self.sum = {fid: frozenset() for fid in self.fs}
        self.bad = {}
        self.ev = {}
        self.labs = {}
        self.isin = {}
        self.solve()

    # ------------------------------------------------------------ streams
    def isstream(self, t):
        t = self.m.noref(t)
        t = self.m.pointee(t) or t
        return re.match(r'^(const )?std::(__cxx11::)?(basic_)?(i|f|if|io)stream\b', t) is not None

    def stream(self, f, e, depth=0):
        """path of the stream an expression denotes: operations in a chain return their stream"""
        e = flow.strip(f, e)
        n = f.n(e)
        if depth > 12:
            return None
        if n['k'] == 'OpCall' and n['op'] in ('>>', '<<') and n['c']:
            return self.stream(f, n['c'][0], depth + 1)
        if n['k'] == 'MCall' and f.callee(e) and not f.callee(e).get('src') and f.callee(e)['n'] in ('read', 'seekg', 'ignore', 'getline', 'get', 'write', 'seekp', 'flush', 'put', 'operator bool'):
            return self.mobj(f, e, depth)
        if n['k'] == 'Call' and f.cqn(e) == 'std::getline' and f.args(e):
            return self.stream(f, f.args(e)[0], depth + 1)
        if n['k'] == 'Call' and n.get('f') in self.m.fn:
            # a helper that returns the stream it was given
            g = self.m.fn[n['f']]
            r = [g.n(j)['c'][0] for j in g.all() if g.n(j)['k'] == 'Return' and g.n(j).get('c')]
            ps = {self.stream(g, j, depth + 1) for j in r}
            if len(ps) == 1:
                p = ps.pop()
                if p is not None:
                    return self.S.subst(p, self.S.binding(f, e, g), g)
        return self.T.path(f, e)

    def mobj(self, f, i, depth=0):
        o = f.obj(i)
        if o is None:
            return None
        n = f.n(flow.strip(f, o))
        if n['k'] in ('OpCall', 'MCall', 'Call') and self.isstream(f.typ(flow.strip(f, o))) and not f.typ(flow.strip(f, o)).rstrip().endswith('*') and not (n['k'] == 'OpCall' and n['op'] in ('*', '->')):
            return self.stream(f, o, depth + 1)
        p = self.S.path(f, o)
        if p is not None and f.n(i).get('arrow') and f.n(o)['k'] != 'This' and not self.S.arrowop(f, o):
            p = self.S.deref(p)
        return p

    # ------------------------------------------------------------ tests
    def tests(self, f, c, pol, depth=0):
        """[(stream, ok)] decided by expression c having outcome pol"""
        if depth > 8:
            return []
        c, pol = flow.normal(self.S, f, c, pol)
        n = f.n(c)
        k = n['k']
        if k == 'Bin' and n['op'] in ('&&', '||'):
            a, b = (self.tests(f, x, pol, depth + 1) for x in n['c'])
            if (n['op'] == '&&') == pol:
                return a + b
            # either may have decided
            return [x for x in a if x in b]
        if k in ('Bin', 'OpCall') and n.get('op') in ('==', '!=', '<', '<=', '>', '>=') and len(n['c']) == 2:
            for x, y, sw in ((n['c'][0], n['c'][1], 0), (n['c'][1], n['c'][0], 1)):
                x = flow.strip(f, x)
                j = flow.init_of(f, f.n(x)['d']) if f.n(x)['k'] == 'Ref' and 'd' in f.n(x) else x
                j = flow.strip(f, j) if j is not None else None
                if j is not None and f.n(j)['k'] == 'MCall' and (f.callee(j) or {}).get('n') == 'gcount':
                    op = n['op']
                    if sw:
                        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    ok = op in ('==', '>=', '>')
                    return [(self.mobj(f, j), ok == pol)]
                if j is not None and f.n(j)['k'] == 'MCall' and (f.callee(j) or {}).get('n') == 'peek':
                    ok = n['op'] == '!='
                    return [(self.mobj(f, j), ok == pol)]
                j = self.tellof(f, x)
                if j is not None:
                    v = self.S.path(f, y)
                    v = int(v[1:]) if v and re.match(r'^#-?\d+$', v) else -1 if v == '(-#1)' else None
                    op = n['op']
                    if sw:
                        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    if not pol:
                        op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
                    # the position is -1 after a failure, never negative otherwise
                    if v is not None and (op == '==' and v >= 0 or op == '!=' and v == -1 or op == '>' and v >= -1 or op == '>=' and v >= 0):
                        return [(self.mobj(f, j), True)]
                    if v is not None and (op == '==' and v == -1 or op == '<' and v <= 0 or op == '<=' and v <= -1):
                        return [(self.mobj(f, j), False)]
        if k == 'MCall':
            d = f.callee(c)
            if d and not d.get('src') and f.obj(c) is not None and d['n'] in ('good', 'is_open', 'fail', 'bad', 'eof', 'operator bool', 'operator void *', 'operator!'):
                p = self.mobj(f, c)
                if d['n'] in ('bad', 'eof') and not pol:
                    # says nothing about other failures
                    return []
                return [(p, (d['n'] in ('good', 'is_open', 'operator bool', 'operator void *')) == pol)] if p is not None else []
        if k in ('Call', 'MCall') and n.get('f') in self.m.fn and depth < 4:
            g = self.m.fn[n['f']]
            if (g.decl.get('ret') or '') == 'bool':
                b = self.S.binding(f, c, g)
                out = []
                for p, ok in self.answers(g, pol, depth):
                    q = self.S.subst(p, b, g)
                    if q is not None:
                        out.append((q, ok))
                return out
        if self.isstream(f.typ(c)) and not f.typ(c).rstrip().endswith('*'):
            p = self.stream(f, c)
            return [(p, pol)] if p is not None else []
        return []

    def tellof(self, f, e):
        """the tellg call whose result the expression is"""
        for _ in range(8):
            e = flow.strip(f, e)
            n = f.n(e)
            if n['k'] == 'MCall' and (f.callee(e) or {}).get('n', '').startswith('operator ') and f.obj(e) is not None:
                e = f.obj(e)
            elif n['k'] == 'Ctor' and len(n.get('c', [])) == 1:
                e = n['c'][0]
            elif n['k'] == 'Ref' and 'd' in n and flow.init_of(f, n['d']) is not None:
                e = flow.init_of(f, n['d'])
            else:
                break
        return e if self.istell(f, e) else None

    def istell(self, f, j):
        d = f.callee(j) if f.n(j)['k'] == 'MCall' else None
        return bool(d) and not d.get('src') and d['n'] in ('tellg', 'tellp')

    def answers(self, g, pol, depth):
        """tests every return of g with outcome pol implies"""
        if g.rawcfg is None:
            return []
        out = None
        for j in g.all():
            n = g.n(j)
            if n['k'] != 'Return' or not n.get('c'):
                continue
            e = flow.strip(g, n['c'][0])
            if g.n(e)['k'] == 'Bool' and bool(g.n(e)['v'] in (True, 'true', 1)) != pol:
                continue
            here = set(self.tests(g, e, pol, depth + 1))
            for p, ok in [(p, ok) for lab in self.branches(g) for p, ok in self.tests(g, lab[0], lab[1], depth + 1)]:
                if (p, ok) not in here and flow.needs_edge(self.S, g, j, lambda f2, fa, c2, po2, p=p, ok=ok: (p, ok) in self.tests(f2, c2, po2, depth + 1)):
                    here.add((p, ok))
            out = here if out is None else out & here
        return sorted(out or (), key=str)

    def branches(self, g):
        seen = set()
        for p in range(len(g.cfg.succ)):
            for q, lab in g.cfg.succ[p]:
                if lab and lab[0] != 'case' and len(lab) == 2 and g.n(lab[0])['k'] != 'RFor':
                    seen.add(lab)
        return sorted(seen)

    def labtests(self, f, lab):
        k = (f.id, lab)
        if k not in self.labs and lab[0] == 'case':
            self.labs[k] = []
            c = self.tellof(f, f.n(lab[1])['cond'])
            x = f.n(lab[2]) if lab[2] is not None and lab[2] >= 0 else {}
            if c is not None and x.get('k') == 'Case' and re.match(r'^\d+$', str(x.get('v'))):
                self.labs[k] = [(self.mobj(f, c), True)]
        if k not in self.labs:
            self.labs[k] = self.tests(f, lab[0], lab[1])
        return self.labs[k]

    # ------------------------------------------------------------ events
    def uninit(self, f, e):
        """local variable without initial value"""
        e = flow.strip(f, e)
        n = f.n(e)
        if n['k'] == 'Sub':
            return self.uninit(f, n['c'][0])
        if n['k'] == 'Mem' and not n.get('arrow'):
            return None
        if n['k'] != 'Ref' or n.get('dk') != 'local':
            return None
        v = self.S.vars(self.S.owner(f, n['d'])).get(n['d'])
        if v and v[0] == 'local' and (v[2] is None or v[2] < 0) and UNINIT.match(self.m.noref(v[1]).strip()):
            return n['d']
        return None

    def dest(self, f, e):
        """(object that receives the data, nodes that only say so)"""
        js = list(f.walk(e))
        for j in js:
            n = f.n(j)
            if n['k'] == 'Ref' and n.get('dk') in ('local', 'param') or n['k'] == 'Mem' and f.n(flow.strip(f, n['c'][0]))['k'] == 'This':
                # the first object named is the one whose address is taken
                return (n['d'] if n['k'] == 'Ref' else 'this.%s' % n['d']), js
        return None, js

    def target(self, f, e):
        """variable whose address is handed over"""
        e = flow.strip(f, e)
        n = f.n(e)
        if n['k'] == 'Un' and n['op'] == '&':
            return self.uninit(f, n['c'][0])
        return self.uninit(f, e)

    def input(self, f, args):
        """opening with these arguments allows reading"""
        s = ' '.join(f.expr(a, 12) for a in args[1:] if a is not None and a >= 0)
        return not s or re.search(r'\bin\b', s) is not None or 'out' not in s and 'app' not in s

    def events(self, f):
        """point -> [(kind, ...)] in evaluation order"""
        if f.id in self.ev:
            return self.ev[f.id]
        out = {}

        def add(i, *e):
            p = f.cfg.point(i)
            if p is not None:
                out.setdefault(p, []).append(e)
        outs = set()
        for i in f.all():
            n = f.n(i)
            k = n['k']
            d = f.callee(i) if k in ('Call', 'MCall', 'OpCall', 'Ctor') else None
            if k == 'Decl':
                for v in n['vars']:
                    self.opened(f, v.get('i'), 'v%s' % v['d'], add)
                continue
            if k == 'MCall' and d and not d.get('src') and f.obj(i) is not None and self.isstream(f.typ(f.obj(i))):
                p = self.mobj(f, i)
                a = f.args(i)
                if d['n'] in ('read', 'readsome', 'get', 'getline') and a:
                    v, js = self.dest(f, a[0])
                    outs.update(js)
                    add(i, 'read', p, v, i)
                elif d['n'] == 'open' and a and 'ofstream' not in f.typ(f.obj(i)):
                    if self.input(f, a):
                        add(i, 'open', p, i)
                elif d['n'] == 'clear':
                    add(i, 'forget', p, i)
                continue
            if k == 'OpCall' and n['op'] == '>>' and len(n['c']) == 2 and self.isstream(f.typ(n['c'][0])) and not (d and d.get('src')):
                v = self.uninit(f, n['c'][1])
                if v is not None:
                    outs.add(flow.strip(f, n['c'][1]))
                    outs.add(n['c'][1])
                    add(i, 'read', self.stream(f, n['c'][0]), v, i)
                continue
            if k == 'Ctor':
                t = self.m.noref(n.get('t', ''))
                if any(w in t for w in WHOLE) and f.args(i) and self.isstream(f.typ(f.args(i)[0])):
                    add(i, 'whole', self.stream(f, f.args(i)[0]), i)
                    continue
            if k in ('Call', 'MCall') and d and not d.get('src') and not d['qn'].startswith(('std::', 'boost::')):
                # a library outside of the program reads
                for x in f.args(i):
                    if x is not None and x >= 0 and self.isstream(f.typ(x)):
                        v = None
                        if k == 'MCall' and f.obj(i) is not None:
                            v, js = self.dest(f, f.obj(i))
                            outs.update(js)
                        add(i, 'read', self.stream(f, x), v, i)
            if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
                ts = [t for t in sorted(self.m.targets(f, i)) if t in self.fs]
                a = f.args(i)
                vs = []
                for x in a:
                    if x is None or x < 0:
                        continue
                    v = self.target(f, x)
                    if v is not None and (f.n(flow.strip(f, x))['k'] == 'Un' or self.byref(d, a.index(x))):
                        vs.append(v)
                        for j in f.walk(x):
                            outs.add(j)
                if ts:
                    add(i, 'call', tuple(ts), tuple(vs), i)
                if self.delivers(f, i, d):
                    add(i, 'deliver', i)
        for x in f.inits:
            if x.get('field'):
                self.opened(f, x['i'], 'this.%s' % x['field'], add)
        # variables: uses and assignments
        ins = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Ref' and n.get('dk') in ('local', 'param') or n['k'] == 'Mem' and f.n(flow.strip(f, n['c'][0]))['k'] == 'This':
                par = f.parent[i]
                key = n['d'] if n['k'] == 'Ref' else 'this.%s' % n['d']
                q = f.n(par) if par is not None and par >= 0 else {}
                if i in outs or q.get('k') == 'MCall' and f.obj(par) is not None and flow.strip(f, f.obj(par)) == i and (f.callee(par) or {}).get('n') in ('size', 'empty', 'resize', 'clear', 'reserve', 'capacity', 'assign'):
                    continue
                if (q.get('k') in ('Bin', 'OpCall') and q.get('op') == '=' and q['c'][0] == i):
                    add(par, 'set', key)
                else:
                    p = f.cfg.point(i)
                    if p is not None:
                        ins.setdefault(p, []).append(('use', key, i))
        self.ev[f.id] = {p: ins.get(p, []) + out.get(p, []) for p in set(ins) | set(out)}
        return self.ev[f.id]

    def opened(self, f, i, p, add):
        """a stream constructed with the path of a file"""
        if i is None or i < 0:
            return
        i = flow.strip(f, i)
        n = f.n(i)
        t = self.m.noref(n.get('t', ''))
        if n['k'] in ('Ctor', 'Call') and re.search(r'basic_i?fstream|std::i?fstream', t) and f.args(i):
            if n['k'] == 'Call':
                p += '.*'
            elif f.callee(i) and (f.callee(i).get('copy') or f.callee(i).get('move')):
                return
            if self.input(f, f.args(i)):
                add(i, 'open', p, i)

    def byref(self, d, j):
        ps = (d or {}).get('params', [])
        x = self.m.tk(ps[j]) if j < len(ps) else {}
        return x.get('k') == 'ref' and not x['p'].startswith('const ')

    def delivers(self, f, i, d):
        """hands data over to the caller's callback or visitor"""
        n = f.n(i)
        if n['k'] == 'OpCall' and n['op'] == '()' and n.get('c') and self.m.tmpl(f.typ(n['c'][0])) == 'std::function':
            return True
        if n['k'] == 'MCall' and d and d.get('src') and (d['n'] == 'accept' or d['n'].startswith('visit')):
            return True
        return False

    # ------------------------------------------------------------ dataflow
    def params(self, f):
        """streams of the caller: parameters and members"""
        out = []
        for p in f.params:
            if self.isstream(p['t']):
                out.append('v%s' % p['d'] + ('.*' if self.m.noref(p['t']).rstrip().endswith('*') else ''))
        return out

    def run(self, f):
        ev = self.events(f)
        new = {}
        seeds = self.params(f)
        # member streams used here
        for es in ev.values():
            for e in es:
                p = e[1] if e[0] in ('read', 'whole', 'forget') else None
                if isinstance(p, str) and p.startswith('this') and p not in seeds:
                    seeds.append(p)
        for lab in self.branches(f):
            for p, ok in self.labtests(f, lab):
                if isinstance(p, str) and p.startswith('this') and p not in seeds:
                    seeds.append(p)
        init = set()
        for p in seeds:
            init |= {('d', p, 'seed'), ('u', 'seed', p), ('o', p, 'seed')}
        needopen = set()

        def report(kind, i, x):
            new[(kind, f.id, i)] = x

        def transfer(p, x, s):
            s = set(s)
            for e in ev.get(p, ()):
                if e[0] == 'use':
                    for t in sorted(s, key=str):
                        if t[0] == 'u' and t[1] == e[1]:
                            report('use', e[2], t)
                elif e[0] == 'set':
                    s = {t for t in s if not (t[0] == 'u' and t[1] == e[1])}
                elif e[0] == 'read':
                    s.add(('d', e[1], (f.id, e[3])))
                    if e[2] is not None:
                        s.add(('u', e[2], e[1]))
                elif e[0] == 'open':
                    s.add(('o', e[1], (f.id, e[2])))
                elif e[0] == 'forget':
                    # the outcome of previous reads is lost
                    for t in s:
                        if t[0] == 'd' and t[1] == e[1] and t[2] != 'seed':
                            report('forget', e[2], t)
                elif e[0] == 'whole':
                    for t in sorted(s, key=str):
                        if t[0] == 'o' and t[1] == e[1]:
                            if t[2] == 'seed':
                                needopen.add(('n', e[1], (f.id, e[2])))
                            else:
                                report('whole', e[2], t)
                elif e[0] == 'deliver':
                    for t in sorted(s, key=str):
                        if t[0] == 'd' and t[2] != 'seed':
                            report('deliver', e[1], t)
                elif e[0] == 'call':
                    i = e[3]
                    gained = set()
                    lost = None
                    for t in e[1]:
                        g = self.fs[t]
                        b = self.S.binding(f, i, g)
                        mine = set()
                        for k, q, site in self.sum[t]:
                            r = self.S.subst(q, b, g) if q is not None else None
                            if k == 'd':
                                gained.add(('d', r, site))
                                for v in e[2]:
                                    gained.add(('u', v, r))
                            elif k == 'n':
                                for y in sorted(s, key=str):
                                    if y[0] == 'o' and y[1] == r:
                                        if y[2] == 'seed':
                                            needopen.add(('n', r, site))
                                        else:
                                            report('whole', i, y)
                            else:
                                mine.add((k, r))
                        lost = mine if lost is None else lost & mine
                    for k, r in lost or ():
                        if k == 'cd':
                            s = {y for y in s if not (y[0] == 'd' and y[1] == r)}
                        elif k == 'cu':
                            s = {y for y in s if not (y[0] == 'u' and y[2] == r)}
                        elif k == 'co':
                            s = {y for y in s if not (y[0] == 'o' and y[1] == r)}
                    s |= gained
            return frozenset(s)

        def edge(p, q, lab, s):
            if not lab or lab[0] != 'case' and (len(lab) != 2 or f.n(lab[0])['k'] == 'RFor'):
                return s
            for r, ok in self.labtests(f, lab):
                s = {t for t in s if not (t[0] in 'do' and t[1] == r or ok and t[0] == 'u' and t[2] == r)} if ok else {t for t in s if not (t[0] == 'd' and t[1] == r)}
            return frozenset(s)

        st = f.cfg.forward(frozenset(init), transfer, lambda a, b: a | b, edge, frozenset())[0]
        end = st.get(f.cfg.exit)
        out = set(needopen)
        if end is not None:
            for t in end:
                if t[0] == 'd' and t[2] != 'seed':
                    if t[1] is not None and self.outer(f, t[1]):
                        out.add(t)
                    else:
                        report('exit', t[2][1] if t[2][0] == f.id else None, t)
            for p in seeds:
                if ('d', p, 'seed') not in end:
                    out.add(('cd', p, ''))
                if ('u', 'seed', p) not in end:
                    out.add(('cu', p, ''))
                if ('o', p, 'seed') not in end:
                    out.add(('co', p, ''))
        self.bad[f.id] = new
        return frozenset(out)

    def outer(self, f, p):
        """stream of the caller"""
        return p.startswith('this') or any(p == x or p.startswith(x + '.') for x in ['v%s' % q['d'] for q in f.params]) or f.isLambda and not p.startswith('v') or f.isLambda and int(re.match(r'v(\d+)', p).group(1) if re.match(r'v(\d+)', p) else -1) not in self.S.vars(f)

    def solve(self):
        users = {}
        for f in self.fs.values():
            for es in self.events(f).values():
                for e in es:
                    if e[0] == 'call':
                        for t in e[1]:
                            users.setdefault(t, set()).add(f.id)
        rel = {fid for fid, f in self.fs.items() if self.params(f) or any(e[0] in ('read', 'open', 'whole', 'forget') for es in self.events(f).values() for e in es)}
        todo = sorted(rel)
        n = {}
        while todo:
            fid = todo.pop(0)
            n[fid] = n.get(fid, 0) + 1
            r = self.run(self.fs[fid])
            if r != self.sum[fid]:
                if n[fid] > 12:
                    continue
                self.sum[fid] = r
                for u in sorted(users.get(fid, ())):
                    if u not in todo:
                        todo.append(u)
            # callers of something that reads are of interest as well


def check(ctx):
    m = ctx.m
    ctx.rule('R1: a local variable without initial value that a read fills is not used while the outcome of the read is unknown or known to be a failure')
    ctx.rule('R2: the outcome of every unformatted read of a file is tested before the function, or the caller which owns the stream, goes on to its normal end; forgetting it (clear) is no test')
    ctx.rule('R3: no callback or visitor receives data while a read whose outcome is unknown may have supplied it')
    ctx.rule('R4: the whole content of a file is taken (stream iterators) only after the stream is known to be open')
    ctx.rule('R5: a position of a file (tellg, tellp) is computed with only where the stream is known to be in a good state, or the position itself is tested')
    R = Reads(m)
    for f in sorted(R.fs.values(), key=lambda x: x.id):
        for es in R.events(f).values():
            for e in es:
                if e[0] in ('read', 'open', 'whole'):
                    ctx.count({'read': 'reads of file data', 'open': 'files opened', 'whole': 'reads of whole files'}[e[0]])
                    ctx.sample('%s: %s in %s' % (f.loc(e[3] if e[0] == 'read' else e[2]), e[0], f.qn))
                    if e[1] is None:
                        ctx.count('streams without a name')
    say = {'use': 'value is used although the read that supplies it may have failed', 'deliver': 'data is handed over while the outcome of a read is unknown',
           'forget': 'outcome of a read is forgotten before it is tested', 'whole': 'content is taken from a file which may not have been opened', 'exit': 'outcome of a read is never tested'}
    for fid, bad in sorted(R.bad.items()):
        f = R.fs[fid]
        for (kind, _, i), t in sorted(bad.items(), key=str):
            g, j = f, i
            if kind == 'exit':
                g, j = m.fn[t[2][0]], t[2][1]
            ctx.violation('%s %s %s' % (kind, f.qn, g.expr(j, 4)[:60]), g.loc(j), '%s in %s' % (say[kind], f.qn))
    # streams of the caller without a caller
    for fid, s in sorted(R.sum.items()):
        f = R.fs[fid]
        for k, p, site in sorted(s, key=str):
            if k == 'd' and not [c for c, _ in m.callers(fid) if c in R.fs]:
                g = m.fn[site[0]]
                ctx.violation('exit %s %s' % (f.qn, g.expr(site[1], 4)[:60]), g.loc(site[1]), 'outcome of a read is never tested in %s' % f.qn)
    tells(ctx, m, R)
    ctx.require('reads of file data', 4)
    ctx.require('files opened', 5)


def tells(ctx, m, R):
    for f in sorted(R.fs.values(), key=lambda x: x.id):
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'MCall' or (f.callee(i) or {}).get('n') not in ('tellg', 'tellp') or (f.callee(i) or {}).get('src'):
                continue
            ctx.count('positions of files')
            p = R.mobj(f, i)
            if not known(m, R, f, i, p) and not tested(m, R, f, i):
                ctx.violation('tell %s %s' % (f.qn, f.expr(i, 4)), f.loc(i), 'position of a file which may be in a failed state is used in %s' % f.qn)


def known(m, R, f, i, p, depth=0):
    if p is None or depth > 4:
        return False
    if flow.needs_edge(R.S, f, i, lambda f2, fa, c, pol: (p, True) in R.tests(f2, c, pol)):
        return True
    # a helper that tests
    pts = set()
    for j in f.all():
        if f.n(j)['k'] in ('Call', 'MCall'):
            for t in R.m.targets(f, j):
                if t in R.fs and any(k == 'co' and R.S.subst(q, R.S.binding(f, j, R.fs[t]), R.fs[t]) == p for k, q, _ in R.sum[t]):
                    pts.add(f.cfg.point(j))
    t = f.cfg.point(i)
    if pts and all(t not in f.cfg.reach(r, avoid=pts) for r in flow.roots(f)):
        return True
    if not R.outer(f, p):
        return False
    cs = [(c, ci) for c, ci in m.callers(f.id) if c in R.fs]
    return bool(cs) and all(known(m, R, R.fs[c], ci, R.S.subst(p, R.S.binding(R.fs[c], ci, f), f), depth + 1) for c, ci in cs)


def tested(m, R, f, i):
    """the position itself decides a branch (switch with default, comparison) before anything else uses it"""
    S = R.S
    e = i
    while f.parent[e] is not None and f.parent[e] >= 0 and f.n(f.parent[e])['k'] in ('Cast', 'Paren', 'Clean', 'Mat', 'Ctor', 'MCall'):
        e = f.parent[e]
    var = None
    for j in f.all():
        n = f.n(j)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if v.get('i') is not None and v['i'] >= 0 and i in set(f.walk(v['i'])):
                    var = v['d']
    refs = [j for j in f.all() if f.n(j)['k'] == 'Ref' and f.n(j).get('d') == var] if var is not None else [e]
    dec = []
    for j in refs:
        x = j
        for a in [j] + list(f.ancestors(j)):
            n = f.n(a)
            if n['k'] == 'Switch' or n['k'] in ('Bin', 'OpCall') and n.get('op') in ('==', '!=', '<', '<=', '>', '>='):
                dec.append(j)
                break
            if n['k'] in ('Decl', 'Return', 'Block') or n.get('asg'):
                break
    if not dec:
        return False
    rest = [j for j in refs if j not in dec]
    pts = {f.cfg.point(j) for j in dec}
    return all(f.cfg.point(j) in pts or all(f.cfg.point(j) not in f.cfg.reach(r, avoid=pts) for r in flow.roots(f)) for j in rest)
