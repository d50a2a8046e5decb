"""Lower bounds on the number of entries of collections, on top of guards: facts (op, path.size(), #n), path.empty(), begin() == end()."""
import re
from guards import Guards, NEG, SWAP

CONT = ('std::vector', 'std::deque', 'std::list', 'std::basic_string', 'std::stack', 'std::queue', 'std::array', 'std::priority_queue', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::initializer_list')


class Sizes(Guards):
    def cont(self, t):
        t0 = self.m.tmpl(t)
        return t0 in CONT or t0.endswith('basic_string')

    def objpath(self, f, i):
        n = f.n(i)
        o = self.path(f, f.obj(i)) if f.obj(i) is not None else None
        if o is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.arrowop(f, f.obj(i)):
            o = self.deref(o)
        return o

    def mutated(self, f, i):
        """growing a collection keeps its lower bound"""
        key = (f.id, i, 's')
        if key in self._kills:
            return self._kills[key]
        ps, fs = super().mutated(f, i)
        n = f.n(i)
        if n['k'] == 'MCall' and f.callee(i) and f.callee(i)['n'] in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'push', 'append', 'reserve', 'resize', 'shrink_to_fit'):
            if not f.callee(i).get('src'):
                o = self.objpath(f, i)
                if f.callee(i)['n'] != 'resize':
                    ps = [x for x in ps if x != o and not (f.n(f.obj(i))['k'] == 'Ref' and x == 'v' + str(f.n(f.obj(i))['d']))]
                    ps = ps + [o + '.end()', o + '.begin()', '<' + str(o)] if o else ps
        if n['k'] == 'MCall' and f.callee(i) and not f.callee(i).get('src') and f.callee(i)['n'] in ('top', 'front', 'back', 'at', 'data', 'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound') and not n.get('asg'):
            o = self.objpath(f, i)
            ps = [x for x in ps if x != o]
        self._kills[key] = (ps, fs)
        return ps, fs

    def grow(self, st, o, k):
        """lower bound after adding k"""
        return (self.bound(st, o) or 0) + k

    def gen(self, f, i):
        out = super().gen(f, i)
        n = f.n(i)
        if n['k'] == 'MCall' and f.callee(i) and not f.callee(i).get('src'):
            nm = f.callee(i)['n']
            o = self.objpath(f, i)
            if o:
                if nm in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push') or nm in ('insert', 'emplace') and self.m.tmpl(f.typ(f.obj(i))) in ('std::map', 'std::set', 'std::unordered_map', 'std::unordered_set'):
                    out.add(('+', o, '#1'))
                elif nm in ('resize', 'assign') and f.args(i):
                    q = self.path(f, f.args(i)[0])
                    if q and re.match(r'^#\d+$', q):
                        out.add(('>=', o + '.size()', q))
        elif n['k'] == 'Decl':
            for v in n['vars']:
                self.made_size(f, 'v' + str(v['d']), v, out)
        return out

    def made_size(self, f, p, v, out):
        i = v.get('i')
        if i is None or i < 0 or not self.cont(v['t']):
            return
        k = self.ctor_size(f, i)
        if k:
            out.add(('>=', p + '.size()', '#%d' % k))

    def ctor_size(self, f, i):
        n = f.n(i)
        while n['k'] == 'Cast' and n.get('c'):
            i = n['c'][0]
            n = f.n(i)
        c = n.get('c', [])
        if n['k'] == 'InitList':
            return len(c)
        if n['k'] == 'Ctor':
            a = f.args(i)
            if a and f.n(a[0])['k'] == 'InitList':
                return len(f.n(a[0]).get('c', []))
            d = f.callee(i) or {}
            if a and 'basic_string' not in d.get('clsn', ''):
                q = self.path(f, a[0])
                ps = d.get('params', [])
                if q and re.match(r'^#\d+$', q) and ps and 'long' in ps[0]:
                    return int(q[1:])
            if a and 'basic_string' in d.get('clsn', ''):
                if f.n(a[0])['k'] == 'Str':
                    return len(f.n(a[0])['v'])
            if len(a) == 1:
                return self.ctor_size(f, a[0])
        if n['k'] == 'Str':
            return len(n['v'])
        return 0

    # '+' facts are folded into bounds as soon as they are made
    def close(self, s):
        plus = [x for x in s if x[0] == '+']
        if plus:
            s = set(s)
            for x in plus:
                s.discard(x)
                b = self.bound(s, x[1])
                s = {y for y in s if not (y[0] in ('<', '<=', '==', '>', '>=', '!=', 't', 'f') and self.about(y, x[1]))}
                s.add(('>=', x[1] + '.size()', '#%d' % min(b + 1, 8)))
            s = frozenset(s)
        return super().close(s)

    @staticmethod
    def about(y, o):
        return any(z in (o + '.size()', o + '.empty()') or z.startswith('(' + o + '.size()') for z in y[1:])

    def join(self, a, b):
        r = super().join(a, b)
        # keep the weaker of two bounds
        pa = {x[1][:-7] for x in a if x[0] == '>=' and x[1].endswith('.size()')} | {x[1][:-8] for x in a if x[0] == 'f' and x[1].endswith('.empty()')}
        out = set(r)
        for o in pa | {x[1][:-7] for x in a if x[1].__class__ is str and x[1].endswith('.size()')}:
            k = min(self.bound(a, o), self.bound(b, o))
            if k > 0:
                out.add(('>=', o + '.size()', '#%d' % k))
        return frozenset(out)

    def bound(self, st, o):
        """largest k known with size >= k"""
        k = 0
        sz = o + '.size()'
        em = o + '.empty()'
        for x in st:
            if x[0] == '=>' or x[0] == '+':
                continue
            op, a, b = x
            if b == sz and a != sz:
                op, a, b = SWAP.get(op, op), b, a
            if a == sz:
                if b.startswith('#'):
                    try:
                        c = int(b[1:])
                    except ValueError:
                        continue
                    if op in ('>=', '=='):
                        k = max(k, c)
                    elif op == '>':
                        k = max(k, c + 1)
                    elif op == '!=' and c == 0:
                        k = max(k, 1)
                elif op == '>':
                    # unsigned: something is smaller than the size
                    k = max(k, 1)
                elif op == 't':
                    k = max(k, 1)
                elif op in ('==', '>=') and b.endswith('.size()') and b != sz:
                    kk = self.bound({y for y in st if y != x}, b[:-7])
                    k = max(k, kk)
            elif a == em and op == 'f':
                k = max(k, 1)
            elif a == em and (op, b) in (('==', '#0'), ('!=', '#1')):
                k = max(k, 1)
            elif op in ('!=', '<') and {a, b} == {o + '.begin()', o + '.end()'}:
                k = max(k, 1)
            elif op == '!=' and ({a, b} == {o, '""'}):
                k = max(k, 1)
            elif op == '==' and a == o and b.startswith('"') and len(b) > 2:
                k = max(k, len(b) - 2)
            elif op == '!=' and b == o + '.end()' and a.startswith(o + '.find('):
                k = max(k, 1)
            elif op == '==' and a == o and b.startswith(('v', 'this', 'g')) and not b.startswith(o):
                k = max(k, self.bound({y for y in st if y != x}, b))
        return k
