"""Pointers, references and iterators into containers, temporaries and locals are not used after what they point into is gone."""
import re
import flow
from c34 import short

LEVEL = 'other'
GROW = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'resize', 'reserve', 'append', 'try_emplace', 'emplace_hint', 'push'}
DROP = {'clear', 'assign', 'swap', 'shrink_to_fit', 'reset'}
INTO = {'c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'get', 'what', 'find_first_of'}
ELEM = {'front', 'back', 'at', 'value'}
SMART = ('std::shared_ptr', 'std::unique_ptr')
LINEAR = ('std::vector', 'std::basic_string')


def check(ctx):
    m = ctx.m
    L = Lives(m)
    ctx.rule('a pointer, reference or iterator into a temporary is not used after the expression which made the temporary; one into a local is neither returned, nor kept in a member, nor used after the block of the local was left')
    ctx.rule('no pointer, reference or iterator into a container is used after the container was changed in a way that frees or moves its elements, directly or by a function which changes it; elements of a vector stay where they are only while no more are added than were reserved for')
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        if f.rawcfg is None:
            continue
        ctx.count('functions analysed')
        L.function(ctx, f)
    ctx.require('functions analysed', 300)
    ctx.require('pointers, references and iterators into owned memory', 100)


class Lives:
    def __init__(self, m):
        self.m = m
        self._mut = {}
        self._sum = {}
        self._reach = {}

    # ---- types
    def raw(self, t):
        x = self.m.tk(t)
        return x.get('k') == 'ptr' and not self.m.isfn(t) and self.m.tk(x['p']).get('k') != 'fn'

    def iter(self, t):
        x = self.m.tk(self.m.noref(t))
        q = (x.get('tmpl') or str(x.get('r') or '').split('<')[0] or t.split('<')[0])
        return bool(re.search(r'(__normal_iterator|_Node_iterator|_Node_const_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|_Bit_(const_)?iterator|_Local_(const_)?iterator|reverse_iterator)$', q))

    def ptrs(self, t):
        """a container of raw pointers"""
        x = self.m.tk(self.m.noref(t))
        return (x.get('tmpl') or '') in ('std::vector', 'std::array', 'std::deque') and bool(x.get('args')) and self.raw(x['args'][0])

    def ref(self, t):
        return self.m.tk(t).get('k') == 'ref'

    def decl(self, f, d):
        if not hasattr(f, '_decl35'):
            f._decl35 = {}
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        f._decl35.setdefault(v['d'], (v['t'], v.get('i') if v.get('i', -1) >= 0 else None, i, v.get('static')))
                elif n['k'] == 'Catch' and n.get('var'):
                    f._decl35[n['var']] = ('catch', None, i, False)
        return f._decl35.get(d)

    # ---- what an expression refers to
    def paths(self, f, e, depth=0):
        """[(root, steps)] of an lvalue or of what a pointer or iterator points into"""
        m = self.m
        if depth > 12:
            return []
        e = flow.strip(f, e)
        n = f.n(e)
        k = n['k']
        if k == 'Ref':
            dk = n.get('dk')
            if dk in ('global', 'static'):
                return [(('g', n['d']), ())]
            if dk == 'param':
                p = [p for p in f.params if p['d'] == n['d']]
                if not p:
                    return [(('c', n['d']), ())]
                if self.ref(p[0]['t']):
                    return [(('p', n['d']), ())]
                return [(('v', n['d']), ())]
            d = self.decl(f, n.get('d'))
            if not d:
                return [(('c', n.get('d')), ())] if dk == 'local' else []
            t, init, at, static = d
            if static:
                return [(('g', n['d']), ())]
            if t == 'catch':
                return [(('v', n['d']), ())]
            if self.ref(t) and init is not None:
                ps = self.paths(f, init, depth + 1)
                return [(('v', n['d']), ()) if r[0] == 't' and not heap(s) else (r, s) for r, s in ps]
            if m.tk(t).get('k') == 'rref':
                return [(('v', n['d']), ())]
            return [(('v', n['d']), ())]
        if k == 'This':
            return [(('this',), ())]
        if k == 'Mem':
            fl = m.field(n['d'])
            b = flow.strip(f, n['c'][0]) if n.get('c') else None
            if b is None:
                return []
            if f.n(b)['k'] == 'This':
                if fl and self.ref(fl['t']):
                    return [(('f', n['d'], 'ref'), ())]
                return [(('f', n['d']), ())]
            if fl and (self.ref(fl['t'])):
                return []
            if n.get('arrow'):
                base = self.deref(f, b, depth)
            else:
                base = self.paths(f, b, depth + 1)
            return [(r, s + (n.get('n') or n['d'],)) for r, s in base]
        if k == 'OpCall' and n.get('c'):
            if n['op'] == '[]':
                return [(r, s + ('[]',)) for r, s in self.paths(f, n['c'][0], depth + 1)]
            if n['op'] in ('*', '->') and len(n['c']) == 1:
                return self.deref(f, n['c'][0], depth)
            rt = (m.decls.get(n.get('f')) or {}).get('ret')
            if rt and self.value(rt, n):
                return [(('t', e), ())]
            return []
        if k == 'Sub':
            b = flow.strip(f, n['c'][0])
            if m.tk(f.typ(b)).get('k') == 'arr':
                return self.paths(f, b, depth + 1)
            return [(r, s + ('[]',)) for r, s in self.deref(f, b, depth)]
        if k == 'Un' and n.get('c'):
            if n['op'] == '&':
                return self.paths(f, n['c'][0], depth + 1)
            if n['op'] == '*':
                c = flow.strip(f, n['c'][0])
                return [(('this',), ())] if f.n(c)['k'] == 'This' else self.deref(f, c, depth)
            return []
        if k == 'Cond':
            return self.paths(f, n['c'][1], depth + 1) + self.paths(f, n['c'][2], depth + 1)
        if k in ('Call', 'MCall'):
            s = short(f, e)
            q = f.cqn(e) or ''
            if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::begin', 'std::end', 'std::next', 'std::prev', 'std::get', 'std::as_const', 'std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound', 'std::min_element', 'std::max_element') and f.args(e):
                ps = self.paths(f, f.args(e)[0], depth + 1)
                if q in ('std::begin', 'std::end'):
                    ps = [(r, x + ('h',)) for r, x in ps]
                if self.iter(f.typ(f.args(e)[0])):
                    ps = self.pointee(f, f.args(e)[0], depth)
                return ps
            o = f.obj(e) if k == 'MCall' else None
            t = f.typ(e)
            d = m.decls.get(n.get('f')) or {}
            rt = d.get('ret', t)
            own = [x for x in m.targets(f, e) if x in m.fn]
            std = (d.get('qn') or '').startswith('std::') or k == 'MCall' and not own and (m.tk(m.noref(f.typ(o))).get('tmpl') or '').startswith('std::')
            if k == 'MCall' and not own and s in INTO and (std or s == 'what') and not self.value(rt, n, False):
                if self.smart(f.typ(o)):
                    return [(r, x + ('*',)) for r, x in self.paths(f, o, depth + 1)]
                return [(r, x + ('h',)) for r, x in self.paths(f, o, depth + 1)]
            if k == 'MCall' and not own and s in ('insert', 'emplace', 'try_emplace', 'equal_range', 'erase', 'insert_or_assign') and std:
                return [(r, x + ('h',)) for r, x in self.paths(f, o, depth + 1)]
            if k == 'MCall' and not own and s in ELEM and std and (self.ref(rt) or self.ref(t) or not self.value(rt, n, False)):
                return [(r, x + ('[]' if s != 'back' else 'back',)) for r, x in self.paths(f, o, depth + 1)]
            if self.ref(rt) or self.raw(rt) or self.iter(rt) or self.ptrs(rt):
                out = []
                for x in own:
                    for root, st in self.summary(x):
                        if root[0] == 'f':
                            if k == 'MCall' and o is not None and f.n(flow.strip(f, o))['k'] == 'This' or k == 'Call' and not d.get('static') and o is None and f.cls and m.fn[x].cls == f.cls:
                                out.append((root, st))
                            elif k == 'MCall' and o is not None:
                                base = self.deref(f, o, depth) if self.m.tk(m.noref(f.typ(o))).get('k') == 'ptr' else self.paths(f, o, depth + 1)
                                out += [(r, y + ((m.field(root[1]) or {}).get('n') or root[1],) + st) for r, y in base]
                        elif root[0] == 'p':
                            g = m.fn[x]
                            j = next((j for j, p in enumerate(g.params) if p['d'] == root[1]), None)
                            a = f.args(e)
                            if j is not None and j < len(a) and a[j] >= 0:
                                out += [(r, y + st) for r, y in self.paths(f, a[j], depth + 1)]
                if self.ref(rt) or self.raw(rt) or self.iter(rt) or out:
                    return out
            if self.value(rt, n):
                if own and 'shared_ptr' in (m.tk(rt).get('tmpl') or ''):
                    return [(('s', x), ()) for x in sorted(own)]
                return [(('t', e), ())]
            return []
        if k in ('Ctor', 'InitList'):
            c = [x for x in n.get('c', []) if x >= 0]
            if k == 'Ctor' and self.iter(f.typ(e)) and len(c) == 1:
                return self.pointee(f, c[0], depth)
            if k == 'Ctor' and len(c) == 1 and self.ptrs(f.typ(e)) and self.m.noref(f.typ(e)) == self.m.noref(f.typ(c[0])) and f.n(flow.strip(f, c[0]))['k'] in ('Call', 'MCall'):
                return self.paths(f, c[0], depth + 1)
            if self.iter(f.typ(e)) or self.raw(f.typ(e)):
                return []
            return [(('t', e), ())]
        return []

    def value(self, t, n, strict=True):
        """an object is returned by value"""
        x = self.m.tk(t)
        if x.get('k') in ('ref', 'ptr', 'rref') or self.iter(t):
            return False
        return x.get('k') == 'rec' or bool(x.get('r')) or bool(x.get('tmpl'))

    def smart(self, t):
        return (self.m.tk(self.m.noref(t)).get('tmpl') or '') in SMART

    def pointee(self, f, i, depth):
        """what an iterator or pointer expression points into"""
        i = flow.strip(f, i)
        n = f.n(i)
        if n['k'] == 'Ref' and n.get('dk') == 'local':
            d = self.decl(f, n['d'])
            if d and d[1] is not None and (self.iter(d[0]) or self.raw(d[0])):
                if n['d'] in self.reassigned(f):
                    return []
                return self.paths(f, d[1], depth + 1)
            return []
        if n['k'] == 'Ref':
            return []
        if n['k'] == 'Bin' and n['op'] in '+-' or n['k'] == 'OpCall' and n['op'] in '+-':
            return self.pointee(f, n['c'][0], depth + 1) if depth < 12 else []
        if n['k'] == 'Mem' and not n.get('arrow') and n.get('c'):
            # a pointer or iterator held by a local object (an insert's result): what the object was made from, not the object
            b = f.n(flow.strip(f, n['c'][0]))
            if b['k'] == 'Ref' and b.get('dk') in ('local', 'param'):
                d = self.decl(f, b['d'])
                if d and d[1] is not None and isinstance(d[0], str) and d[0] != 'catch' and not self.ref(d[0]) and b['d'] not in self.reassigned(f):
                    return [(r, s) for r, s in self.paths(f, d[1], depth + 1) if r[0] != 't']
                return []
        return self.paths(f, i, depth + 1)

    def reassigned(self, f):
        if not hasattr(f, '_re35'):
            f._re35 = set()
            for i in f.all():
                t = flow.assign(f, i)
                if t is not None and f.n(flow.strip(f, t))['k'] == 'Ref':
                    f._re35.add(f.n(flow.strip(f, t)).get('d'))
        return f._re35

    def deref(self, f, b, depth):
        """what *b is"""
        b = flow.strip(f, b)
        t = self.m.noref(f.typ(b))
        if self.smart(t):
            return [(r, s + ('*',)) for r, s in self.paths(f, b, depth + 1)]
        if self.iter(t) or self.raw(t):
            ps = self.pointee(f, b, depth)
            return [(r, s if s and s[-1] in ('*', '[]', 'back') or self.raw(t) else s + ('[]',)) for r, s in ps]
        x = self.m.tk(t)
        if x.get('k') == 'ptr':
            return []
        return [(r, s + ('*',)) for r, s in self.paths(f, b, depth + 1)]

    def summary(self, fid):
        """paths of what a function returns by reference, pointer or iterator, in terms of its members and parameters"""
        if fid in self._sum:
            return self._sum[fid]
        self._sum[fid] = []
        f = self.m.fn[fid]
        out = []
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Return' and n.get('c'):
                for r, s in self.returned(f, n['c'][0]):
                    if r[0] in 'fp' and len(r) == 2 and (r, s) not in out:
                        out.append((r, s))
        self._sum[fid] = out
        return out

    def returned(self, f, v):
        v = flow.strip(f, v)
        n = f.n(v)
        while n['k'] == 'Call' and f.cqn(v) in ('std::move', 'std::forward') or n['k'] == 'Ctor' and len(n.get('c', [])) == 1 and n['c'][0] >= 0 and (self.ptrs(f.typ(v)) or self.iter(f.typ(v))):
            v = flow.strip(f, (f.args(v) if n['k'] == 'Call' else n['c'])[0])
            n = f.n(v)
        if n['k'] == 'Ref' and n.get('dk') == 'local':
            d = self.decl(f, n['d'])
            if d and (self.raw(d[0]) or self.iter(d[0]) or self.ptrs(d[0])):
                return [p for _, ps in self.defs(f).get(n['d'], []) for p in ps]
        return self.paths(f, v)

    # ---- pointers of a function
    def defs(self, f):
        """variable -> [(node, paths)] for pointers, references, iterators, containers of pointers and pointer members of locals"""
        if hasattr(f, '_defs35'):
            return f._defs35
        D = f._defs35 = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i', -1) < 0 or v.get('static'):
                        continue
                    t = v['t']
                    if self.ref(t):
                        ps = [(r, s) for r, s in self.paths(f, v['i']) if heap(s)]
                    elif self.raw(t) or self.iter(t):
                        j = flow.strip(f, v['i'])
                        ps = self.pointee(f, j, 0) if f.n(j)['k'] == 'Ref' else self.paths(f, j)
                    elif self.ptrs(t):
                        ps = [(r, s) for r, s in self.paths(f, v['i']) if r[0] != 't']
                    else:
                        continue
                    if ps:
                        D.setdefault(v['d'], []).append((i, ps))
                continue
            t = flow.assign(f, i)
            if t is not None and len(n['c']) == 2 and (n.get('op') == '='):
                tt = self.m.noref(f.typ(t))
                if self.raw(tt) or self.iter(tt):
                    q = flow.strip(f, t)
                    key = None
                    if f.n(q)['k'] == 'Ref':
                        key = f.n(q).get('d')
                    elif f.n(q)['k'] == 'Mem' and f.n(q).get('c'):
                        b = flow.strip(f, f.n(q)['c'][0])
                        key = ('f', f.n(q)['d']) if f.n(b)['k'] == 'This' else (f.n(b).get('d'), f.n(q)['d']) if f.n(b)['k'] == 'Ref' else None
                    j = flow.strip(f, n['c'][1])
                    ps = self.pointee(f, j, 0) if f.n(j)['k'] == 'Ref' else self.paths(f, j)
                    if key and ps:
                        D.setdefault(key, []).append((i, ps))
            if n['k'] == 'MCall' and n.get('c') and short(f, i) in ('push_back', 'emplace_back', 'insert', 'emplace') and self.ptrs(f.typ(f.obj(i))):
                o = flow.strip(f, f.obj(i))
                key = f.n(o).get('d') if f.n(o)['k'] == 'Ref' else ('f', f.n(o)['d']) if f.n(o)['k'] == 'Mem' else None
                ps = []
                for a in f.args(i):
                    j = flow.strip(f, a)
                    if self.raw(self.m.noref(f.typ(a))):
                        ps += self.pointee(f, j, 0) if f.n(j)['k'] == 'Ref' else self.paths(f, j)
                if key and ps:
                    D.setdefault(key, []).append((i, ps))
        return D

    # ---- changes
    def changes(self, f):
        """[(node, path of what is changed, kind)]"""
        if hasattr(f, '_chg35'):
            return f._chg35
        out = f._chg35 = []
        m = self.m
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'MCall' and n.get('c'):
                s = short(f, i)
                o = f.obj(i)
                own = [x for x in m.targets(f, i) if x in m.fn]
                if not own and s in GROW | DROP | {'erase', 'pop_back', 'pop_front', 'remove_if', 'pop'}:
                    for p in self.paths(f, o):
                        out.append((i, p, s, m.tk(m.noref(f.typ(o))).get('tmpl') or ''))
                elif own and o is not None:
                    this = f.n(flow.strip(f, o))['k'] == 'This'
                    for x in own:
                        for fid, how, tm in self.mutates(x):
                            if this:
                                out.append((i, (('f', fid), ()), how, tm))
                            else:
                                base = self.deref(f, o, 0) if m.tk(m.noref(f.typ(o))).get('k') == 'ptr' else self.paths(f, o)
                                nm = (m.field(fid) or {}).get('n') or fid
                                for r, st in base:
                                    out.append((i, (r, st + (nm,)), how, tm))
            t = flow.assign(f, i)
            if t is not None and n['k'] == 'OpCall' and n['op'] in ('=', '+='):
                tm = m.tk(m.noref(f.typ(t))).get('tmpl') or ''
                if tm.startswith('std::') and not self.iter(f.typ(t)):
                    for p in self.paths(f, t):
                        out.append((i, p, n['op'], tm))
            if n['k'] in ('Call', 'MCall'):
                for x in [x for x in m.targets(f, i) if x in m.fn]:
                    for j, how, tm in self.mutated(x):
                        a = f.args(i)
                        if j < len(a) and a[j] >= 0:
                            for p in self.paths(f, a[j]):
                                out.append((i, p, how, tm))
        return out

    def mutates(self, fid, depth=0):
        """members (of the object it is called on) a function changes so that their elements are freed or moved"""
        if fid in self._mut:
            return self._mut[fid]
        self._mut[fid] = set()
        f = self.m.fn[fid]
        out = set()
        if f.rawcfg is not None and f.cls and f.kind not in ('ctor', 'dtor'):
            for i, (r, s), how, tm in self.changes(f):
                if r[0] == 'f' and len(r) == 2 and not s:
                    out.add((r[1], how, tm))
        self._mut[fid] = out
        return out

    def mutated(self, fid):
        """parameters a function changes that way"""
        key = ('p', fid)
        if key in self._mut:
            return self._mut[key]
        self._mut[key] = set()
        f = self.m.fn[fid]
        out = set()
        if f.rawcfg is not None:
            for i, (r, s), how, tm in self.changes(f):
                if r[0] == 'p' and not s:
                    for j, p in enumerate(f.params):
                        if p['d'] == r[1]:
                            out.add((j, how, tm))
        self._mut[key] = out
        return out

    def kills(self, f, chg, path, key, it):
        """does the change free or move what the path leads to"""
        i, (r, s), how, tm = chg
        root, steps = path
        if r != root or len(s) >= len(steps) or steps[:len(s)] != s or any(x in ('[]', 'back', '*') for x in s):
            return False
        rest = steps[len(s):]
        if not heap(rest[:1]):
            return False
        if tm in ('std::shared_ptr', 'std::unique_ptr'):
            return how in ('reset', '=')
        if how == 'swap' and tm != 'std::basic_string':
            return False
        if how == 'pop_back':
            return rest[0] == 'back' and tm in ('std::vector', 'std::deque', 'std::list')
        if tm in LINEAR:
            if how == 'erase':
                return True
            if how == '+=' and tm != 'std::basic_string':
                return False
            return how in GROW | DROP | {'=', '+=', 'erase', 'remove_if', 'pop_front'}
        if tm == 'std::deque':
            if how in GROW:
                return it
            return how in DROP | {'=', 'erase'}
        if tm.startswith('std::') and tm:
            if how in GROW:
                return it and 'unordered' in tm and rest[0] == 'h'
            if how in ('clear', 'assign', '='):
                return True
            if how == 'erase':
                return self.same(f, i, key)
        return False

    def same(self, f, i, key):
        """erase is given the very iterator, or the key it was found with"""
        n = f.n(i)
        if n['k'] != 'MCall' or short(f, i) != 'erase':
            return False
        a = [flow.strip(f, x) for x in f.args(i)]
        for x in a:
            while f.n(x)['k'] == 'Ctor' and len(f.n(x).get('c', [])) == 1:
                x = flow.strip(f, f.n(x)['c'][0])
            if f.n(x)['k'] == 'Ref' and f.n(x).get('d') == key:
                return True
            t = f.expr(x)
            for at, ps in self.defs(f).get(key, []):
                for y in f.walk(at):
                    q = f.n(y)
                    if q['k'] == 'MCall' and short(f, y) in ('find', 'at') and f.args(y) and f.expr(flow.strip(f, f.args(y)[0])) == t:
                        return True
                    if q['k'] == 'OpCall' and q['op'] == '[]' and len(q['c']) == 2 and f.expr(flow.strip(f, q['c'][1])) == t:
                        return True
                    # a reference obtained through the iterator which is erased
                    if q['k'] == 'Ref' and f.n(x)['k'] == 'Ref' and q.get('d') == f.n(x).get('d') and f.n(at)['k'] == 'Decl' and any(self.ref(v['t']) for v in f.n(at)['vars']):
                        return True
        return False

    # ---- the check of a function
    def function(self, ctx, f):
        m = self.m
        g = f.cfg
        D = self.defs(f)
        chg = None
        if any(f.n(i)['k'] == 'Return' and f.n(i).get('c') for i in f.all()):
            self.returns(ctx, f)
        for key in sorted(D, key=str):
            var = key if isinstance(key, str) else None
            uses = [i for i in f.all() if self.isuse(f, i, key)]
            for at, ps in D[key]:
                ctx.count('pointers, references and iterators into owned memory')
                p0 = g.point(at)
                if p0 is None:
                    continue
                cont = var is not None and self.decl(f, var) and self.ptrs(self.decl(f, var)[0]) or f.n(at)['k'] == 'MCall'
                redef = {g.point(x) for x in self.redefs(f, key, cont)} - {None}
                after = g.reach(p0, avoid=redef - {p0})
                live = [u for u in uses if g.point(u) in after and u not in set(f.walk(at))]
                for root, steps in ps:
                    name = self.name(f, key)
                    if root[0] == 't':
                        if heap(steps) and live:
                            ctx.violation('temporary:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(live[0]), '%s points into a temporary object (%s) that is gone when it is used here' % (name, f.loc(at)))
                        elif heap(steps) and isinstance(key, tuple):
                            ctx.violation('temporary:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(at), '%s is left pointing into a temporary object' % name)
                        continue
                    if root[0] == 's':
                        # owned by what the function got it from until that is asked again
                        again = self.reaching(root[1])
                        qs = {g.point(x) for x in f.calls() if x != at and any(t in again for t in m.targets(f, x))} - {None}
                        if cont or g.point(at) in after:
                            qs |= {g.point(x) for x in f.walk(at) if any(t in again for t in m.targets(f, x))} & after if f.n(at)['k'] != 'Decl' else set()
                        for q in sorted(qs & after):
                            us = [u for u in live if g.point(u) in g.reach(q, avoid=redef) and g.point(u) != q]
                            if heap(steps) and us:
                                ctx.violation('shared:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(us[0]), '%s points into an object nothing keeps alive here: it may be gone once %s was called again' % (name, m.fn[root[1]].qn.split('utymap::')[-1]))
                                break
                        continue
                    if root[0] == 'v':
                        self.scope(ctx, f, key, var, root[1], steps, at, live, name)
                    if not heap(steps):
                        continue
                    if chg is None:
                        chg = self.changes(f)
                    it = self.iterlike(f, key)
                    for c in chg:
                        if not self.kills(f, c, (root, steps), key, it):
                            continue
                        q = g.point(c[0])
                        if q is None or q not in after or c[0] == at and not cont:
                            continue
                        if q in redef and q != p0:
                            continue
                        late = g.reach(q, avoid=redef)
                        us = [u for u in uses if g.point(u) in late and g.point(u) != q and not (u in set(f.walk(c[0])))]
                        if not us:
                            continue
                        if c[2] in ('push_back', 'emplace_back') and self.reserved(ctx, f, c, chg):
                            ctx.count('insertions within reserved capacity')
                            continue
                        if c[2] == 'reserve' and self.first(f, c, chg):
                            continue
                        ctx.violation('changed:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(c[0]), '%s points into elements which are freed or moved here and is used afterwards (line %d)' % (name, f.n(us[0])['l']))
                        break

    def reaching(self, fid):
        if fid not in self._reach:
            seen, st = set(), [fid]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += [c for c, i in self.m.callers(x)]
            self._reach[fid] = seen
        return self._reach[fid]

    def iterlike(self, f, key):
        d = self.decl(f, key) if isinstance(key, str) else None
        return bool(d and self.iter(d[0]))

    def name(self, f, key):
        d = self.decl(f, key) if isinstance(key, str) else None
        if d:
            return next((v['n'] for v in f.n(d[2]).get('vars', []) if v['d'] == key), 'variable').replace('__range', 'range').rstrip('0123456789')
        if isinstance(key, tuple):
            return str((self.m.field(key[1]) or {}).get('n', key[1]))
        return 'variable'

    def isuse(self, f, i, key):
        n = f.n(i)
        if isinstance(key, str):
            if n['k'] != 'Ref' or n.get('d') != key:
                return False
        elif key[0] == 'f':
            if n['k'] != 'Mem' or n['d'] != key[1]:
                return False
        else:
            # a member of a local: any use of the local
            if n['k'] != 'Ref' or n.get('d') != key[0]:
                return False
            p = f.parent[i]
            if p >= 0 and f.n(p)['k'] == 'Mem' and f.n(p)['d'] != key[1]:
                return False
        # the target of an assignment is no use
        x = i
        for a in f.ancestors(i):
            q = f.n(a)
            if q['k'] in ('Cast', 'Paren', 'Clean', 'Mat') or q['k'] == 'Mem' and isinstance(key, tuple) and key[0] != 'f' and f.n(x)['k'] == 'Ref':
                x = a
                continue
            t = flow.assign(f, a)
            if t is not None and q.get('op') == '=' and flow.strip(f, t) == flow.strip(f, x):
                return False
            if q['k'] == 'MCall' and q.get('c') and flow.strip(f, q['c'][0]) == i and short(f, a) in ('push_back', 'emplace_back', 'reserve', 'clear'):
                return False
            # comparing an iterator with end() is fine only before; looking at the size of a container of pointers is no use
            if q['k'] == 'MCall' and q.get('c') and flow.strip(f, q['c'][0]) == i and short(f, a) in ('size', 'empty', 'capacity'):
                return False
            break
        return True

    def redefs(self, f, key, cont):
        out = []
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl' and isinstance(key, str) and any(v['d'] == key for v in n['vars']):
                out.append(i)
            t = flow.assign(f, i)
            if t is not None and n.get('op') == '=':
                q = flow.strip(f, t)
                if isinstance(key, str) and f.n(q)['k'] == 'Ref' and f.n(q).get('d') == key or isinstance(key, tuple) and f.n(q)['k'] == 'Mem' and f.n(q)['d'] == key[1]:
                    out.append(i)
            if cont and n['k'] == 'MCall' and n.get('c') and short(f, i) in ('clear',) and f.n(flow.strip(f, n['c'][0])).get('d') == (key if isinstance(key, str) else key[1]):
                out.append(i)
        return out

    def scope(self, ctx, f, key, var, d, steps, at, live, name):
        """the local d, or what it owns, is referred to by key"""
        v = self.decl(f, d)
        m = self.m
        if v is None:
            # a value parameter
            if isinstance(key, tuple) and key[0] == 'f' and any(p['d'] == d and not self.raw(p['t']) for p in f.params) and not self.moved(f, d):
                ctx.violation('local:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(at), 'the member %s is left pointing into a parameter' % name)
            return
        if self.raw(v[0]) or self.iter(v[0]) or m.tk(v[0]).get('k') in ('ref', 'rref', 'ptr'):
            return
        if steps and self.moved(f, d):
            return
        if isinstance(key, tuple) and key[0] == 'f':
            if not any(f.n(x)['k'] == 'MCall' and short(f, x) == 'clear' or flow.assign(f, x) is not None for x in self.redefs(f, key, True) if x != at):
                ctx.violation('local:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(at), 'the member %s is left pointing into a local' % name)
            return
        if steps and v[1] is not None and 'shared_ptr' in (m.tk(v[0]).get('tmpl') or ''):
            src = self.paths(f, v[1])
            j = flow.strip(f, v[1])
            while f.n(j)['k'] == 'Ctor' and len(f.n(j).get('c', [])) == 1:
                j = flow.strip(f, f.n(j)['c'][0])
                src = self.paths(f, j)
            if not any(r[0] in 'st' for r, s in src):
                return
            for r, s in src:
                if r[0] == 's':
                    again = self.reaching(r[1])
                    g = f.cfg
                    qs = {g.point(x) for x in f.calls() if any(t in again for t in m.targets(f, x))} - {None}
                    if not any(g.point(u) in g.reach(q) for q in qs & g.reach(g.point(at)) for u in live):
                        return
        blk = self.block(f, v[2])
        if blk is None:
            return
        inside = set(f.walk(blk))
        kd = self.decl(f, var if var else key[0])
        if kd is None or kd[2] in inside:
            return
        for u in live:
            if u not in inside:
                ctx.violation('scope:%s:%s' % (f.qn.split('utymap::')[-1], name), f.loc(u), '%s points into a local of a block which was left (%s)' % (name, f.loc(at)))
                return

    def block(self, f, decl):
        if f.n(decl)['k'] == 'Catch':
            return decl
        for a in f.ancestors(decl):
            if f.n(a)['k'] in ('Block', 'RFor', 'For', 'While', 'If', 'Switch'):
                return a
        return None

    def moved(self, f, d):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Call' and f.cqn(i) == 'std::move' and f.args(i):
                x = flow.strip(f, f.args(i)[0])
                if f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d:
                    return True
            if n['k'] in ('MCall', 'Call') and short(f, i) in ('push_back', 'emplace_back', 'insert', 'emplace'):
                # a copy of a shared pointer lives on
                for a in f.args(i):
                    x = flow.strip(f, a)
                    while f.n(x)['k'] == 'Ctor' and len(f.n(x).get('c', [])) == 1:
                        x = flow.strip(f, f.n(x)['c'][0])
                    if f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d and 'shared_ptr' in f.typ(x):
                        return True
            if n['k'] == 'Return' and n.get('c'):
                x = flow.strip(f, n['c'][0])
                while f.n(x)['k'] == 'Ctor' and len(f.n(x).get('c', [])) == 1:
                    x = flow.strip(f, f.n(x)['c'][0])
                if f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d:
                    return True
        return False

    def returns(self, ctx, f):
        m = self.m
        rt = (m.decls.get(f.id) or {}).get('ret', '')
        for i in sorted(f.all()):
            n = f.n(i)
            if n['k'] != 'Return' or not n.get('c'):
                continue
            v = n['c'][0]
            t = rt or f.typ(v)
            if f.isLambda and not rt:
                t = f.typ(v)
            if not (self.ref(t) or self.raw(t) or self.iter(t) or self.ptrs(t)):
                continue
            if m.isfn(t):
                continue
            ctx.count('returns of pointers, references and iterators')
            for root, steps in self.returned(f, v):
                if root[0] == 't' and (heap(steps) or self.ref(t)) and not (f.n(root[1])['k'] in ('InitList', 'Ctor') and self.ptrs(f.typ(root[1]))):
                    ctx.violation('returned:' + f.qn.split('utymap::')[-1], f.loc(i), 'what is returned points into a temporary object')
                elif root[0] == 'v':
                    d = self.decl(f, root[1])
                    if d is None:
                        p = [p for p in f.params if p['d'] == root[1]]
                        if p and not self.raw(p[0]['t']) and not self.iter(p[0]['t']) and self.m.tk(p[0]['t']).get('k') not in ('ref', 'rref'):
                            if steps or self.ref(t) or self.raw(t):
                                ctx.violation('returned:' + f.qn.split('utymap::')[-1], f.loc(i), 'what is returned points into a parameter')
                        continue
                    if d[0] == 'catch':
                        continue
                    if self.raw(d[0]) or self.iter(d[0]) or m.tk(d[0]).get('k') in ('ref', 'rref', 'ptr') or self.ptrs(d[0]) and not steps and self.ptrs(t):
                        continue
                    if steps and self.moved(f, root[1]):
                        continue
                    if steps or self.ref(t) or self.raw(t):
                        ctx.violation('returned:' + f.qn.split('utymap::')[-1], f.loc(i), 'what is returned points into a local')

    # ---- capacity
    def first(self, f, c, chg):
        """reserve before anything points into the container on the way"""
        g = f.cfg
        return False

    def reserved(self, ctx, f, c, chg):
        """no more elements are added in the loop around c than were reserved for before it"""
        i, path, how, tm = c
        g = f.cfg
        res = [x for x in chg if x[2] == 'reserve' and x[1] == path]
        adds = [x for x in chg if x[1] == path and x[2] in GROW - {'reserve'}]
        if any(x[2] not in ('push_back', 'emplace_back') for x in adds):
            return False
        loop = next((a for a in f.ancestors(i) if f.n(a)['k'] in ('RFor', 'For', 'While', 'Do')), None)
        if loop is None:
            return False
        for r in res:
            # before the loop on every way
            if g.point(r[0]) is None or r[0] in set(f.walk(loop)) or not self.always(f, r[0], i):
                continue
            inner = set(f.walk(f.n(loop)['body'])) if f.n(loop).get('body') is not None else set()
            mine = [x for x in adds if x[0] in inner]
            if any(self.depth(f, x[0], loop) for x in mine):
                return False
            other = [x for x in adds if x[0] not in inner]
            coef, base = self.linear(f, f.args(r[0])[0])
            n = len({x[0] for x in mine})
            over = self.over(f, loop)
            if coef is None:
                continue
            if over is None or base is None or over != base:
                # not comparable
                if over is not None and base is not None:
                    continue
                if coef is not None and base is None:
                    continue
                return True
            if n <= coef and not other and self.empty(f, r, path):
                return True
        return False

    def always(self, f, a, b):
        g = f.cfg
        out = set()
        for r in flow.roots(f):
            out |= g.reach(r, avoid={g.point(a)})
        return g.point(b) not in out

    def depth(self, f, i, loop):
        for a in f.ancestors(i):
            if a == loop:
                return False
            if f.n(a)['k'] in ('RFor', 'For', 'While', 'Do'):
                return True
        return True

    def over(self, f, loop):
        """what the loop goes through once per element"""
        n = f.n(loop)
        if n['k'] == 'RFor':
            return self.text(f, n['range'])
        if n['k'] == 'For' and n.get('cond') is not None and n['cond'] >= 0:
            c = flow.strip(f, n['cond'])
            q = f.n(c)
            if q['k'] == 'Bin' and q['op'] in ('<', '!='):
                k, b = self.linear(f, q['c'][1])
                if k == 1:
                    return b
            if q['k'] in ('Bin', 'OpCall') and q['op'] in ('!=', '<'):
                e = flow.strip(f, q['c'][1])
                while f.n(e)['k'] == 'Ctor' and f.n(e).get('c'):
                    e = flow.strip(f, f.n(e)['c'][0])
                if f.n(e)['k'] == 'Ref':
                    j = flow.init_of(f, f.n(e).get('d'))
                    e = flow.strip(f, j) if j is not None else e
                if f.n(e)['k'] == 'MCall' and short(f, e) in ('end', 'cend'):
                    return self.text(f, f.n(e)['c'][0])
        return None

    def text(self, f, e):
        e = flow.strip(f, e)
        n = f.n(e)
        if n['k'] == 'Ref' and n.get('dk') == 'local':
            d = self.decl(f, n['d'])
            if d and self.ref(d[0]) and d[1] is not None:
                return self.text(f, d[1])
        return f.expr(e)

    def linear(self, f, e, depth=0):
        """(factor, text of the container) of factor * container.size(); (None, None) if it is something else"""
        e = flow.strip(f, e)
        n = f.n(e)
        if depth > 8:
            return None, None
        if n['k'] == 'MCall' and short(f, e) in ('size', 'length'):
            return 1, self.text(f, n['c'][0])
        if n['k'] == 'Int':
            return int(n['v']), None
        if n.get('cv') is not None:
            return int(n['cv']), None
        if n['k'] == 'Ref' and 'd' in n:
            j = flow.init_of(f, n['d'])
            return self.linear(f, j, depth + 1) if j is not None else (None, None)
        if n['k'] == 'Bin' and n['op'] in ('*', '+', '<<') and len(n['c']) == 2:
            a, b = self.linear(f, n['c'][0], depth + 1), self.linear(f, n['c'][1], depth + 1)
            if a[0] is None or b[0] is None:
                return None, None
            if n['op'] == '*' and (a[1] is None or b[1] is None):
                return a[0] * b[0], a[1] or b[1]
            if n['op'] == '<<' and b[1] is None:
                return a[0] << b[0], a[1]
            if n['op'] == '+':
                if a[1] == b[1]:
                    return a[0] + b[0], a[1]
                if a[1] is None or b[1] is None:
                    return (a[0], a[1]) if a[1] else (b[0], b[1])
        if n['k'] == 'Ctor' and len(n.get('c', [])) == 1:
            return self.linear(f, n['c'][0], depth + 1)
        return None, None

    def empty(self, f, r, path):
        """nothing is in the container when capacity is reserved"""
        root, steps = path
        g = f.cfg
        if root[0] == 'v':
            return True
        # cleared in the function before
        clears = [x for x in self.changes(f) if x[2] in ('clear',) and x[1] == path]
        if any(self.always(f, x[0], r[0]) for x in clears):
            return True
        if root[0] != 'f':
            return False
        # or after every use by every caller
        m = self.m
        cs = m.callers(f.id)
        if not cs:
            return False
        for x, c in cs:
            h = m.fn[x]
            good = {h.cfg.point(y[0]) for y in self.changes(h) if y[2] == 'clear' and y[1] == path} - {None}
            p = h.cfg.point(c)
            if p is None:
                continue
            ex = {q for q in range(len(h.cfg.succ)) if not h.cfg.succ[q]}
            exn = {h.cfg.exit} if hasattr(h.cfg, 'exit') else ex
            after = h.cfg.reach(p, avoid=good)
            back = p in after
            before = any(self.always(h, y[0], c) for y in self.changes(h) if y[2] == 'clear' and y[1] == path)
            if not before and (after & exn or back):
                return False
        return True


def heap(steps):
    return any(x in ('[]', 'h', '*', 'back') for x in steps)
