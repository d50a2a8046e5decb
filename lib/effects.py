"""Field accesses: which member is read or mutated where, seen through aliases of fields, containers and helper parameters."""
from collections import defaultdict

# non-const library members that do not change the object itself
READERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'at', 'size', 'empty', 'front', 'back', 'data', 'c_str', 'lower_bound', 'upper_bound',
           'equal_range', 'count', 'get', 'operator->', 'operator*', 'good', 'is_open', 'fail', 'eof', 'capacity', 'length', 'rdstate', 'bad', 'operator bool', 'key_comp'}
ITER_GET = {'begin', 'end', 'find', 'at', 'front', 'back', 'data', 'lower_bound', 'upper_bound', 'get', 'rbegin', 'rend', 'emplace', 'insert'}


class Effects:
    def __init__(self, m):
        self.m = m
        self._mut_params = {}
        self._alias = {}
        self._mt = {}
        # classes with private instances: a method that modifies its object modifies what the caller applied it to
        self.value_classes = set()

    # ---- which fields does an expression denote a part of?
    def roots(self, f, i, depth=0):
        """fields / variables whose storage (or a part of it) the expression denotes, innermost owner first.
        returns list of ('f', fieldid, node) / ('v', varid, node) / ('g', id, node)"""
        if i is None or i < 0 or depth > 12:
            return []
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        if k == 'Mem':
            base = self.roots(f, c[0], depth + 1) if c else []
            fl = self.m.field(n['d'])
            if not fl:
                return base        # pair::second etc.
            if self.m.tk(fl['t']).get('k') in ('ref', 'ptr'):
                base = self.bound(n['d'], depth) + base
            if n.get('arrow') and f.n(c[0])['k'] != 'This':
                # other object reached through a pointer: the pointer itself is not part of it
                return [('f', n['d'], i)] + [b for b in base if False]
            return [('f', n['d'], i)] + base
        if k == 'Ref':
            if n['dk'] in ('local', 'param'):
                al = self.alias(f, n['d'])
                if al:
                    out = [('v', n['d'], i)]
                    for g, j in al:
                        out += self.roots(g, j, depth + 1)
                    return out
                return [('v', n['d'], i)]
            if n['dk'] in ('global', 'static'):
                return [('g', n['d'], i)]
            return []
        if k in ('Cast', 'Un'):
            if k == 'Un' and n['op'] == '*':
                return self.roots(f, c[0], depth + 1)
            if k == 'Un' and n['op'] not in ('&', '++', '--'):
                return []
            return self.roots(f, c[0], depth + 1)
        if k == 'Sub':
            return self.roots(f, c[0], depth + 1)
        if k == 'OpCall' and n['op'] in ('[]', '*', '->', '++', '--', '='):
            # element of a container / pointee of an iterator; smart pointers: pointee is another object
            t = self.m.tmpl(f.typ(c[0]))
            if n['op'] in ('*', '->') and t in ('std::unique_ptr', 'std::shared_ptr'):
                # exclusively owned object of a library class (file stream, container): part of its owner
                a = self.m.targs(f.typ(c[0]))
                if t == 'std::unique_ptr' and a and not self.m.tk(a[0]).get('src'):
                    return self.roots(f, c[0], depth + 1)
                return []
            return self.roots(f, c[0], depth + 1)
        if k == 'MCall':
            d = f.callee(i)
            if d and d['n'] in ITER_GET and not d.get('src') and c:
                t = self.m.tmpl(f.typ(c[0]))
                if t in ('std::unique_ptr', 'std::shared_ptr'):
                    return []
                return self.roots(f, c[0], depth + 1)
            # accessor returning a reference to a member
            if d and n.get('f') in self.m.fn and self.m.tk(d['ret']).get('k') in ('ref', 'ptr'):
                g = self.m.fn[n['f']]
                out = []
                for j in g.all():
                    if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                        out += [r for r in self.roots(g, g.n(j)['c'][0], depth + 1) if r[0] in ('f', 'g')]
                return out
            return []
        if k == 'Call':
            q = f.cqn(i)
            if q in ('std::move', 'std::forward', 'std::ref') and f.args(i):
                return self.roots(f, f.args(i)[0], depth + 1)
            return []
        if k == 'Ctor' and len(c) >= 1:
            d = f.callee(i)
            if d and (d.get('copy') or d.get('move')) and self.is_iter(n.get('t', '')):
                return self.roots(f, c[0], depth + 1)
            return []
        if k == 'Cond':
            return self.roots(f, c[1], depth + 1) + self.roots(f, c[2], depth + 1)
        return []

    def bound(self, fd, depth):
        """members and globals a reference or pointer member is bound to by the constructors of its class"""
        if not hasattr(self, '_bound'):
            self._bound = {}
        if fd in self._bound:
            return self._bound[fd]
        self._bound[fd] = []
        out = []
        for f in self.m.fn.values():
            if f.kind != 'ctor':
                continue
            for x in f.inits:
                if x.get('field') != fd or x['i'] is None or x['i'] < 0:
                    continue
                for kind, root, node in self.roots(f, x['i'], depth + 1):
                    if kind in 'fg':
                        out.append((kind, root, node))
                    at = next((j for j, p in enumerate(f.params) if p['d'] == root), None)
                    if kind != 'v' or at is None:
                        continue
                    for c, ci in self.m.callers(f.id):
                        g = self.m.fn[c]
                        if at < len(g.args(ci)) and g.args(ci)[at] >= 0:
                            out += [r for r in self.roots(g, g.args(ci)[at], depth + 1) if r[0] in 'fg']
        self._bound[fd] = out
        return out

    def is_iter(self, t):
        t = self.m.tmpl(t)
        return 'iterator' in t

    def alias(self, f, var):
        """initialisers of a local reference / pointer / iterator variable"""
        key = (f.id, var)
        if key in self._alias:
            return self._alias[key]
        self._alias[key] = []
        out = []
        g = f
        while g is not None:
            for i in g.all():
                n = g.n(i)
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        if v['d'] == var and v.get('i') is not None:
                            x = self.m.tk(v['t'])
                            if x.get('k') in ('ref', 'rref', 'ptr') or self.is_iter(v['t']):
                                out.append((g, v['i']))
                elif n['k'] == 'RFor' and n['var'] == var:
                    if self.m.tk(n['vt']).get('k') in ('ref', 'rref', 'ptr'):
                        out.append((g, n['range']))
                elif n['k'] in ('Bin', 'OpCall') and n['op'] == '=' and g.n(n['c'][0])['k'] == 'Ref' and g.n(n['c'][0])['d'] == var:
                    t = g.typ(n['c'][0])
                    if self.m.tk(t).get('k') == 'ptr' or self.is_iter(t):
                        out.append((g, n['c'][1]))
            g = self.m.fn.get(g.encl) if g.encl else None
        self._alias[key] = out
        return out

    def mutated_params(self, fid, seen=None):
        """indices of reference/pointer parameters through which the function may modify its argument"""
        if fid in self._mut_params:
            return self._mut_params[fid]
        self._mut_params[fid] = set()
        f = self.m.fn[fid]
        pv = {p['d']: k for k, p in enumerate(f.params)}
        out = set()
        fs = [f] + [g for g in self.m.fn.values() if g.encl == fid]
        for g in fs:
            for kind, root, node in self.mutations(g):
                if kind == 'v' and root in pv:
                    t = self.m.tk(f.params[pv[root]]['t'])
                    if t.get('k') in ('ref', 'rref', 'ptr'):
                        out.add(pv[root])
        self._mut_params[fid] = out
        return out

    def mutates_this(self, fid):
        if fid in self._mt:
            return self._mt[fid]
        self._mt[fid] = False
        f = self.m.fn[fid]
        r = False
        for kind, root, node in self.mutations(f):
            if kind == 'f' and self.m.field(root).get('rec', root.rsplit('::', 1)[0]) == f.decl.get('cls'):
                r = True
                break
        self._mt[fid] = r
        return r

    def mutations(self, f):
        """(kind, root, node) for every storage mutated by f's own code"""
        out = []
        for i in f.all():
            n = f.n(i)
            k = n['k']
            c = n.get('c', [])
            tgt = []
            if k == 'Bin' and n.get('asg'):
                tgt.append(c[0])
            elif k == 'Un' and n['op'] in ('++', '--'):
                tgt.append(c[0])
            elif k == 'OpCall' and n['op'] in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '<<=', '>>=', '++', '--', '>>', '<<') and c:
                d = f.callee(i)
                if n['op'] in ('<<', '>>'):
                    if self.is_stream(f.typ(c[0])):
                        tgt.append(c[0])
                    if n['op'] == '>>' and len(c) > 1:
                        tgt.append(c[1])
                else:
                    # assigning an iterator variable is no mutation of the container
                    if self.is_iter(f.typ(c[0])) and f.n(c[0])['k'] == 'Ref':
                        out.append(('v', f.n(c[0])['d'], i))
                        continue
                    tgt.append(c[0])
            elif k == 'OpCall' and n['op'] == '[]' and c:
                t = self.m.tmpl(f.typ(c[0]))
                if t in ('std::map', 'std::unordered_map') and not self.m.tk(self.m.noref(f.typ(c[0]))).get('const'):
                    tgt.append(c[0])
            elif k == 'MCall' and c:
                d = f.callee(i)
                if d and not d.get('const') and not d.get('static') and not d.get('src'):
                    if d['n'] not in READERS:
                        tgt.append(c[0])
                elif d and d.get('src') and not d.get('const') and not d.get('static') and d.get('cls') in self.value_classes and n.get('f') in self.m.fn and self.mutates_this(n['f']):
                    tgt.append(c[0])
                elif d and d.get('src') and not d.get('const') and not d.get('static') and n.get('f') in self.m.fn:
                    # method of a program class held by value: handled on its own fields
                    pass
            elif k == 'Delete':
                pass
            if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
                args = f.args(i)
                d = f.callee(i)
                if d:
                    ps = d.get('params', [])
                    tgts = [t for t in self.m.targets(f, i)] if n.get('f') in self.m.fn else None
                    for j, a in enumerate(args):
                        if j >= len(ps) or a < 0:
                            continue
                        x = self.m.tk(ps[j])
                        if x.get('k') == 'ref' and not self.m.tk(x['p']).get('const') and not x['p'].startswith('const '):
                            if tgts is not None:
                                if any(j in self.mutated_params(t) for t in tgts if t in self.m.fn):
                                    tgt.append(a)
                            elif not d.get('src') and d.get('qn') not in ('std::move', 'std::forward', 'std::ref', 'std::addressof', 'std::begin', 'std::end', 'std::get') and k != 'OpCall':
                                if k == 'Ctor' and 'lock' in d.get('clsn', ''):
                                    continue
                                if d.get('n') in ('make_unique', 'make_shared', 'emplace', 'emplace_back', 'make_pair', 'bind'):
                                    continue
                                tgt.append(a)
                        elif x.get('k') == 'ptr' and not x['p'].startswith('const ') and not d.get('src') and self.m.tk(x['p']).get('k') != 'fn':
                            if f.n(a)['k'] == 'Un' or f.n(a)['k'] == 'Cast' or 'data' in f.expr(a):
                                tgt.append(a)
                        elif x.get('k') == 'rref' and f.cqn(a) == 'std::move':
                            tgt.append(f.args(a)[0])
            if k == 'Ctor':
                d = f.callee(i)
                if d and d.get('move') and c and f.cqn(c[0]) == 'std::move':
                    tgt.append(f.args(c[0])[0])
            for t in tgt:
                for kind, root, node in self.roots(f, t):
                    out.append((kind, root, i))
        return out

    def is_stream(self, t):
        r = self.m.rec(t) or ''
        return 'stream' in r

    def accesses(self, f):
        """(fieldid, node) for every member expression"""
        return [(f.n(i)['d'], i) for i in f.all() if f.n(i)['k'] == 'Mem' and self.m.field(f.n(i)['d'])]
