"""File streams: which operations a construct performs on which stream (by access path), helpers included."""
import re
import flow

READ = ('read', 'get', 'getline', 'ignore', 'peek', 'readsome', 'unget', 'putback')
WRITE = ('write', 'put')
TELL = ('tellg', 'tellp')
SEEK = ('seekg', 'seekp')


def fstream(t):
    return bool(re.search(r'basic_[io]?fstream|basic_[io]{1,2}stream', t)) and 'stringstream' not in t


class Streams:
    def __init__(self, m, S):
        self.m = m
        self.S = S
        self._dir = None
        self.dcache = {}
        self.bcache = {}

    def path(self, f, i):
        """access path of the stream object (or null)"""
        i = flow.strip(f, i)
        p = self.S.path(f, i)
        if p is None:
            return None
        if f.typ(i).rstrip().endswith('*') or self.m.tmpl(f.typ(i)) in ('std::unique_ptr', 'std::shared_ptr'):
            p = self.S.deref(p)
        return p

    def direct(self, f, i):
        """(operation, stream path, node of interest) of a library operation on a file stream"""
        n = f.n(i)
        k = n['k']
        if k == 'MCall':
            d = f.callee(i)
            if not d or d.get('src') or f.obj(i) is None or not fstream(f.typ(f.obj(i))) and not fstream(self.m.pointee(f.typ(f.obj(i))) or ''):
                return None
            p = self.S.path(f, f.obj(i))
            if p is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.S.arrowop(f, f.obj(i)):
                p = self.S.deref(p)
            nm = d['n']
            if nm in TELL:
                return 'tell', p
            if nm in SEEK:
                a = f.args(i)
                if len(a) == 2 and self.S.path(f, a[0]) == '#0' and re.search(r'\bend\b', f.expr(a[1])):
                    return 'end', p
                return 'seek', p
            if nm in READ:
                return 'read', p
            if nm in WRITE:
                return 'write', p
            if nm in ('flush', 'close'):
                return 'flush', p
            if nm == 'open':
                return ('end' if any(re.search(r'\bate\b', f.expr(a, 12)) for a in f.args(i)) else 'seek'), p
            return None
        if k == 'OpCall' and n['op'] in ('<<', '>>') and len(n['c']) == 2 and fstream(f.typ(n['c'][0])):
            c = n['c'][0]
            while f.n(flow.strip(f, c))['k'] == 'OpCall' and f.n(flow.strip(f, c))['op'] == n['op']:
                c = f.n(flow.strip(f, c))['c'][0]
            if re.search(r'\b(endl|flush)\b', f.expr(n['c'][1])):
                return 'flush', self.path(f, c)
            return ('write' if n['op'] == '<<' else 'read'), self.path(f, c)
        if k == 'Call':
            d = f.callee(i)
            if d and not d.get('src') and d['n'] == 'getline' and f.args(i) and fstream(f.typ(f.args(i)[0])):
                return 'read', self.path(f, f.args(i)[0])
            if d and not d.get('src') and d['n'] in ('flush', 'endl') and f.args(i):
                return 'flush', self.path(f, f.args(i)[0])
        return None

    def ops(self, f, i):
        """[(operation, path, must)] performed by node i, in-repository callees included"""
        if self._dir is None:
            self.fix()
        return self.step(f, i)

    def step(self, f, i):
        out = []
        o = self.dcache.get((f.id, i))
        if o is None:
            o = self.dcache[(f.id, i)] = self.direct(f, i) or ()
        if o:
            return [(o[0], o[1], True)]
        if f.n(i)['k'] not in ('Call', 'MCall', 'OpCall', 'Ctor'):
            return out
        for t in sorted(self.m.targets(f, i)):
            s = self._dir.get(t)
            if not s:
                continue
            g = self.m.fn[t]
            b = self.bcache.get((f.id, i, t))
            if b is None:
                b = self.bcache[(f.id, i, t)] = self.S.binding(f, i, g)
            for op, p, must in s:
                q = self.S.subst(p, b, g) if p is not None else None
                if q is not None:
                    out.append((op, q, must))
        d = f.callee(i)
        if d and d.get('src'):
            # a stream handed over may be used in any way
            for a in f.args(i):
                if fstream(f.typ(a)):
                    q = self.path(f, a)
                    if not any(x[1] == q and (x[2] or x[0] not in ('write', 'use')) for x in out):
                        out.append(('use', q, True))
        return out

    def fix(self):
        """summaries of all functions, iterated until they no longer change"""
        self._dir = {}
        cand = [f for f in self.m.fn.values() if f.rawcfg is not None]
        users = {}
        calls = {f.id: [i for i in f.all() if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor')] for f in cand}
        for f in cand:
            for i in calls[f.id]:
                for t in self.m.targets(f, i):
                    users.setdefault(t, set()).add(f.id)
        todo = [f.id for f in cand]
        rounds = {}
        while todo:
            fid = todo.pop(0)
            g = self.m.fn[fid]
            rounds[fid] = rounds.get(fid, 0) + 1
            r = {}
            for j in calls[fid]:
                for op, p, must in self.step(g, j):
                    r.setdefault((op, p), []).append((g.cfg.point(j), must))
            out = []
            for (op, p), pts in sorted(r.items(), key=str):
                ps = {x for x, must in pts if must and x is not None}
                must = bool(ps) and flow.must_hit(g, g.cfg.entry, ps)
                if op == 'flush':
                    # nothing is written after it
                    ws = {x for o2 in ('write', 'use') for x, _ in r.get((o2, p), [])}
                    must = must and all(w is None or w in ps or flow.must_hit(g, w, ps) for w in ws)
                out.append((op, p, must))
            if out != self._dir.get(fid, []) and rounds[fid] < 12:
                self._dir[fid] = out
                todo.extend(sorted(u for u in users.get(fid, ()) if u not in todo))
