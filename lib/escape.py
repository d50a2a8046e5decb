"""What references, pointers and function values may refer to: lifetimes of what is kept in objects that live on."""
import flow


class Escape:
    def __init__(self, m):
        self.m = m
        self.long = set()
        st = []
        for g in m.globals:
            st += list(self.owned(m.globals[g].get('t', ''), True))
        sub = {}
        for r in m.records:
            for b in m.allbases.get(r, ()):
                sub.setdefault(b, set()).add(r)
        while st:
            r = st.pop()
            if r in self.long or r not in m.records:
                continue
            self.long.add(r)
            st += list(sub.get(r, ())) + list(m.allbases.get(r, ()))
            for fl in m.records[r]['fields']:
                st += list(self.owned(fl['t']))
        self._stores = None
        self.seen = set()

    # ---- types
    def owned(self, t, ptr=False, depth=0):
        m = self.m
        x = m.tk(t)
        k = x.get('k')
        if depth > 8:
            return set()
        if k == 'ref' or k == 'ptr':
            return self.owned(x['p'], False, depth + 1) if ptr and k == 'ptr' else set()
        if x.get('tmpl') == 'std::function' or x.get('tmpl') == 'std::reference_wrapper':
            return set()
        out = set()
        if x.get('r') in m.records:
            out.add(x['r'])
        for a in x.get('args', []) or []:
            if isinstance(a, str):
                out |= self.owned(a, False, depth + 1)
        if k == 'arr' and x.get('p'):
            out |= self.owned(x['p'], False, depth + 1)
        return out

    def holds(self, t, depth=0):
        """values of the type refer to something which they do not own"""
        m = self.m
        if not t or depth > 8:
            return False
        x = m.tk(t)
        if x.get('k') in ('ptr', 'ref', 'fn', 'mptr') or m.isfn(t) or x.get('lambda'):
            return True
        tm = x.get('tmpl') or ''
        if tm in ('std::function', 'std::reference_wrapper', 'std::_Bind', 'std::basic_string_view'):
            return True
        if tm.startswith(('std::allocator', 'std::default_delete', 'std::less', 'std::hash', 'std::char_traits')):
            return False
        if tm.startswith('std::'):
            return any(isinstance(a, str) and self.holds(a, depth + 1) for a in x.get('args', []) or [])
        return False

    def holder_rec(self, r, seen=()):
        """a class with members which refer to something"""
        if r not in self.m.records or r in seen:
            return False
        for fl in self.m.fields(r):
            if self.holds(fl['t']):
                return True
            if any(self.holder_rec(o, seen + (r,)) for o in self.owned(fl['t'])):
                return True
        return False

    def carries(self, t):
        return self.holds(t) or any(self.holder_rec(o) for o in self.owned(t))

    # ---- stores
    def target(self, f, t, depth=0):
        """where what is assigned to t goes: ('f', field), ('g', global), ('l', fn, var)"""
        m = self.m
        out = set()
        if depth > 10:
            return out
        t = flow.strip(f, t)
        n = f.n(t)
        k = n['k']
        if k == 'Mem':
            if m.field(n['d']):
                return {('f', n['d'])}
            return self.target(f, n['c'][0], depth + 1) if n.get('c') else out
        if k == 'Ref':
            if n.get('dk') in ('global', 'static'):
                return {('g', n['d'])}
            if n.get('dk') == 'param':
                return {('p', f.id, n['d'])}
            d = self.decl(f, n.get('d'))
            if d:
                g, kind, t2, init = d
                x = m.tk(t2)
                if init is not None and (x.get('k') in ('ref', 'ptr') or self.iter(t2) or 'pair' in (x.get('tmpl') or '')):
                    return self.target(g, init, depth + 1)
                return {('l', g.id, n['d'])}
            return out
        if k in ('OpCall', 'Sub', 'Un') and n.get('c'):
            return self.target(f, n['c'][0], depth + 1)
        if k == 'Ctor' and len(n.get('c', [])) >= 1:
            return self.target(f, n['c'][0], depth + 1)
        if k in ('MCall', 'Call'):
            t2 = [x for x in m.targets(f, t) if x in m.fn]
            if t2:
                for x in t2:
                    g = m.fn[x]
                    for i in g.all():
                        if g.n(i)['k'] == 'Return' and g.n(i).get('c'):
                            out |= {y for y in self.target(g, g.n(i)['c'][0], depth + 1) if y[0] in 'fg'}
                return out
            o = f.obj(t)
            if o is not None and o >= 0:
                return self.target(f, o, depth + 1)
        return out

    def iter(self, t):
        x = self.m.tk(self.m.noref(t))
        q = (x.get('tmpl') or '') + str(x.get('r') or '') + t
        return 'iterator' in q or '_Node_' in q or '_Rb_tree_' in q

    def decl(self, f, d):
        """(function, kind, type, initialiser) of a local variable, looked up in enclosing functions as well"""
        g = f
        while g is not None:
            if not hasattr(g, '_decls'):
                g._decls = {}
                for i in g.all():
                    n = g.n(i)
                    if n['k'] == 'Decl':
                        for v in n['vars']:
                            g._decls[v['d']] = ('static' if v.get('static') else 'local', v['t'], v.get('i') if v.get('i', -1) >= 0 else None)
                    elif n['k'] == 'RFor':
                        g._decls[n['var']] = ('loop', n.get('vt', ''), n['range'])
                    elif n['k'] == 'Catch' and n.get('var'):
                        g._decls[n['var']] = ('catch', 'catch &', None)
            if d in g._decls:
                k, t, i = g._decls[d]
                return g, k, t, i
            g = self.m.fn.get(g.encl) if g.encl else None
        return None

    def param(self, f, d):
        g = f
        while g is not None:
            for j, p in enumerate(g.params):
                if p['d'] == d:
                    return g, j, p['t']
            g = self.m.fn.get(g.encl) if g.encl else None
        return None

    def stores(self):
        """('f'|'g', id) or ('l', fn, var) -> [(function, value node, place, by reference)]"""
        if self._stores is not None:
            return self._stores
        m = self.m
        S = self._stores = {}
        for f in sorted(m.fn.values(), key=lambda f: f.id):
            for x in f.inits:
                if x.get('field') and x['i'] >= 0:
                    fl = m.field(x['field'])
                    if fl and self.carries(fl['t']):
                        S.setdefault(('f', x['field']), []).append((f, x['i'], x['i'], m.tk(fl['t']).get('k') == 'ref'))
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'InitList' and n.get('c'):
                    r = m.rec(f.typ(i))
                    if r in m.records:
                        for c, fl in zip(n['c'], m.records[r]['fields']):
                            if self.carries(fl['t']):
                                S.setdefault(('f', fl['id']), []).append((f, c, i, m.tk(fl['t']).get('k') == 'ref'))
                    continue
                t = flow.assign(f, i)
                if t is not None and len(n['c']) == 2:
                    if self.carries(f.typ(t)) or self.carries(f.typ(n['c'][1])):
                        for y in self.target(f, t):
                            S.setdefault(y, []).append((f, n['c'][1], i, False))
                    continue
                if n['k'] == 'MCall' and n.get('c'):
                    nm = (f.callee(i) or {}).get('n', '')
                    if nm in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'assign', 'swap', 'reset', 'store', 'resize'):
                        o = f.obj(i)
                        if o is None or not (self.holds(m.noref(f.typ(o))) or (m.tk(m.noref(f.typ(o))).get('tmpl') or '').startswith('std::')):
                            continue
                        vs = [a for a in f.args(i) if a >= 0 and self.carries(m.noref(f.typ(a)))]
                        if vs:
                            for y in self.target(f, o):
                                for a in vs:
                                    S.setdefault(y, []).append((f, a, i, False))
                if n['k'] == 'Call' and f.cqn(i) == 'std::swap' and len(f.args(i)) == 2:
                    a, b = f.args(i)
                    if self.carries(f.typ(a)):
                        for p, q in ((a, b), (b, a)):
                            for y in self.target(f, p):
                                S.setdefault(y, []).append((f, q, i, False))
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        if v.get('static') and v.get('i', -1) >= 0 and self.carries(v['t']):
                            S.setdefault(('g', v['d']), []).append((f, v['i'], i, m.tk(v['t']).get('k') == 'ref'))
        return S

    # ---- lifetimes
    def value(self, f, i, frame=None, seen=()):
        """reasons why what the value refers to may be gone: [(place, text)]"""
        m = self.m
        i = flow.strip(f, i)
        key = ('v', f.id, i, frame)
        if key in seen or len(seen) > 60:
            return []
        seen = seen + (key,)
        n = f.n(i)
        k = n['k']
        if k == 'Lambda':
            out = []
            for c in n.get('caps', []):
                if c['d'] == 'this':
                    out += self.this(f, i, frame)
                elif c.get('ref'):
                    out += self.var(f, c['d'], i, frame, seen)
                elif c.get('i') is not None and c['i'] >= 0 and self.carries(m.noref(c.get('t', '')) if m.tk(c.get('t', '')).get('k') == 'ref' else c.get('t', '')):
                    out += self.value(f, c['i'], frame, seen)
            return out
        if k in ('Ctor', 'InitList'):
            if frame is None and m.rec(f.typ(i)) in self.long:
                # its members are looked at themselves
                return []
            if k == 'Ctor' and m.rec(f.typ(i)) in m.records:
                c = [a for a in n.get('c', []) if a >= 0]
                d = f.callee(i) or {}
                if (d.get('copy') or d.get('move')) and c:
                    return self.value(f, c[0], frame, seen)
                return self.made(f, i, c, {t for t in m.targets(f, i) if t in m.fn}, frame, seen)
            if not self.carries(f.typ(i)):
                return []
            out = []
            r = m.rec(f.typ(i)) if k == 'InitList' else None
            fs = m.records[r]['fields'] if r in m.records else None
            for q, a in enumerate(n.get('c', [])):
                if a < 0:
                    continue
                if fs and q < len(fs):
                    if self.carries(fs[q]['t']):
                        out += self.obj(f, a, frame, seen) if m.tk(fs[q]['t']).get('k') == 'ref' else self.value(f, a, frame, seen)
                elif self.carries(m.noref(f.typ(a))) or f.n(flow.strip(f, a))['k'] == 'Lambda':
                    out += self.value(f, a, frame, seen)
            return out
        if k in ('Call', 'MCall', 'OpCall'):
            q = f.cqn(i) or ''
            a = [x for x in f.args(i) if x >= 0]
            if q in ('std::move', 'std::forward', 'std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::make_pair', 'std::make_tuple', 'std::get'):
                return [y for x in a for y in self.value(f, x, frame, seen)]
            if q == 'std::bind':
                return [y for x in a if self.carries(m.noref(f.typ(x))) for y in self.value(f, x, frame, seen)]
            if q in ('std::ref', 'std::cref', 'std::addressof'):
                return self.obj(f, a[0], frame, seen)
            ts = {t for t in m.targets(f, i) if t in m.fn}
            if q.endswith(('make_unique', 'make_shared')):
                return self.made(f, i, a, {t for t in ts if m.fn[t].kind == 'ctor'} or self.ctors(f, i, a), frame, seen)
            o = f.obj(i)
            if n['k'] == 'OpCall' and n['op'] in ('*', '->', '[]') and n.get('c'):
                return []
            if ts:
                out = []
                for t in sorted(ts):
                    g = m.fn[t]
                    ref = m.tk((m.decls.get(t) or {}).get('ret', '')).get('k') == 'ref'
                    if frame is None:
                        for j in g.all():
                            if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                                out += (self.obj if ref and False else self.value)(g, g.n(j)['c'][0], ('call', f.id, i), seen)
                    elif frame[0] == 'ret':
                        # what the callee returns may hold what it was given by reference
                        for j in g.all():
                            if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                                out += self.value(g, g.n(j)['c'][0], ('call', f.id, i, frame), seen)
                return out
            if o is not None and o >= 0 and (m.tk(f.typ(i)).get('k') in ('ptr', 'ref')):
                if m.isfn(f.typ(i)):
                    return []
                return self.obj(f, o, frame, seen)
            return []
        if k == 'Un' and n['op'] == '&':
            return self.obj(f, n['c'][0], frame, seen) if n.get('c') and f.n(flow.strip(f, n['c'][0])).get('dk') != 'func' else []
        if k == 'Cond':
            return self.value(f, n['c'][1], frame, seen) + self.value(f, n['c'][2], frame, seen)
        if k == 'New':
            c = [x for x in n.get('c', []) if x >= 0]
            return self.value(f, c[-1], frame, seen) if c and f.n(flow.strip(f, c[-1]))['k'] == 'Ctor' else []
        if k == 'This':
            return self.this(f, i, frame)
        if k == 'Mem':
            fl = m.field(n['d'])
            if not fl:
                return self.value(f, n['c'][0], frame, seen) if n.get('c') else []
            if m.tk(fl['t']).get('k') == 'arr':
                return self.obj(f, i, frame, seen)
            if fl['rec'] in self.long or frame:
                return []
            return self.slot(('f', n['d']), seen)
        if k == 'Ref':
            dk = n.get('dk')
            if dk in ('func', 'global', 'static', 'enumc'):
                return []
            p = self.param(f, n['d'])
            if p:
                return self.from_callers(p, False, i, f, frame, seen)
            d = self.decl(f, n['d'])
            if not d:
                return []
            g, kind, t, init = d
            if kind == 'static':
                return []
            if m.tk(t).get('k') == 'arr':
                return [(f.loc(i), 'the local array %s of %s' % (n.get('n'), g.qn))]
            out = []
            if kind == 'local' and init is not None:
                out += self.value(g, init, frame, seen)
            for h, v, at, ref in self.stores().get(('l', g.id, n['d']), []):
                out += self.value(h, v, frame, seen)
            return out
        return []

    def made(self, f, i, args, ctors, frame, seen):
        """what an object built from args refers to"""
        m = self.m
        out = []
        for t in sorted(ctors):
            g = m.fn[t]
            for x in g.inits:
                fl = m.field(x.get('field')) if x.get('field') else None
                if x['i'] < 0 or not (fl and self.carries(fl['t']) or x.get('base') or x.get('deleg')):
                    continue
                ref = fl and m.tk(fl['t']).get('k') == 'ref'
                fr = ('call', f.id, i, frame)
                out += (self.obj if ref else self.value)(g, x['i'], fr, seen)
        return out

    def ctors(self, f, i, a):
        p = self.m.pointee(f.typ(i))
        return self.m.ctors(p, len(a)) if p else set()

    def slot(self, key, seen):
        out = []
        if ('s', key) in seen:
            return out
        for h, v, at, ref in self.stores().get(key, []):
            out += (self.obj if ref else self.value)(h, v, None, seen + (('s', key),))
        return out

    def this(self, f, i, frame):
        if frame:
            return []
        c = f.cls
        if not c or c in self.long or any(b in self.long for b in self.m.allbases.get(c, ())):
            return []
        return [(f.loc(i), 'the object of class %s which %s is called on' % (c.split('::')[-1], f.name))]

    def var(self, f, d, i, frame, seen):
        """a reference to the variable d"""
        m = self.m
        p = self.param(f, d)
        if p:
            return self.from_callers(p, True, i, f, frame, seen)
        v = self.decl(f, d)
        if not v:
            return []
        g, kind, t, init = v
        if kind in ('static',):
            return []
        x = m.tk(t)
        if x.get('k') == 'ref' and init is not None:
            return self.obj(g, init, frame, seen)
        if kind == 'catch':
            return []
        return [(f.loc(i), 'the local %s of %s' % (next((v['n'] for q in g.all() if g.n(q)['k'] == 'Decl' for v in g.n(q)['vars'] if v['d'] == d), 'variable'), g.qn.split('utymap::')[-1]))]

    def obj(self, f, i, frame=None, seen=()):
        """reasons why an object may be gone"""
        m = self.m
        i = flow.strip(f, i)
        key = ('o', f.id, i, frame)
        if key in seen or len(seen) > 60:
            return []
        seen = seen + (key,)
        n = f.n(i)
        k = n['k']
        if k == 'Ref':
            if n.get('dk') in ('func', 'global', 'static', 'enumc'):
                return []
            d = self.decl(f, n['d'])
            if d and m.tk(d[2]).get('k') != 'ref':
                x = m.tk(d[2])
                if d[3] is not None and self.iter(d[2]):
                    return self.obj(d[0], d[3], frame, seen)
                if (x.get('tmpl') or '') in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr') and frame != 'exact':
                    return []
            return self.var(f, n['d'], i, frame, seen)
        if k == 'Mem':
            fl = m.field(n['d'])
            if fl and m.tk(fl['t']).get('k') == 'ref':
                if fl['rec'] in self.long or frame:
                    return []
                return self.slot(('f', n['d']), seen)
            b = n['c'][0] if n.get('c') else None
            if b is None:
                return []
            if f.n(flow.strip(f, b))['k'] == 'This':
                return self.this(f, b, frame)
            if n.get('arrow') and m.tk(m.noref(f.typ(b))).get('k') == 'ptr':
                return self.value(f, b, frame, seen)
            return self.obj(f, b, frame, seen)
        if k == 'Un' and n['op'] == '*':
            c = flow.strip(f, n['c'][0])
            return self.this(f, c, frame) if f.n(c)['k'] == 'This' else self.value(f, c, frame, seen)
        if k == 'OpCall' and n.get('c') and n['op'] in ('*', '->', '[]'):
            return self.obj(f, n['c'][0], frame, seen)
        if k == 'Sub':
            return self.value(f, n['c'][0], frame, seen)
        if k == 'Cond':
            return self.obj(f, n['c'][1], frame, seen) + self.obj(f, n['c'][2], frame, seen)
        if k in ('Call', 'MCall'):
            q = f.cqn(i) or ''
            if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::get'):
                return self.obj(f, f.args(i)[0], frame, seen)
            ts = {t for t in m.targets(f, i) if t in m.fn}
            o = f.obj(i)
            if ts:
                out = []
                for t in sorted(ts):
                    g = m.fn[t]
                    if m.tk((m.decls.get(t) or {}).get('ret', '')).get('k') != 'ref':
                        continue
                    for j in g.all():
                        if g.n(j)['k'] == 'Return' and g.n(j).get('c'):
                            c = flow.strip(g, g.n(j)['c'][0])
                            # a member of the object the function is called on
                            if own(g, c) and o is not None and o >= 0:
                                out += self.obj(f, o, frame, seen) if m.tk(m.noref(f.typ(o))).get('k') != 'ptr' else self.value(f, o, frame, seen)
                            else:
                                out += self.obj(g, c, ('call', f.id, i, frame), seen)
                return out
            if o is not None and o >= 0:
                return self.obj(f, o, frame, seen)
            return []
        if k == 'This':
            return self.this(f, i, frame)
        if k in ('Ctor', 'InitList') and self.iter(f.typ(i)):
            return self.obj(f, n['c'][0], frame, seen) if n.get('c') else []
        if k in ('Ctor', 'InitList') and (m.tk(f.typ(i)).get('tmpl') or '') in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            return []
        if k in ('Ctor', 'Lambda', 'InitList'):
            return [(f.loc(i), 'a temporary of %s' % f.qn.split('utymap::')[-1])]
        return []

    def from_callers(self, p, byref, i, f, frame, seen):
        """p: (function, index, type) of a parameter whose value (or, byref, the parameter itself) is kept"""
        m = self.m
        g, j, t = p
        isref = m.tk(t).get('k') in ('ref', 'rref')
        name = g.params[j].get('n') or 'parameter'
        if byref and not isref:
            return [(f.loc(i), 'the parameter %s of %s' % (name, g.qn.split('utymap::')[-1]))]
        mode = self.obj if byref else self.value
        if frame and frame[0] == 'call':
            # the call the value comes from
            h = m.fn[frame[1]]
            a = arg(m, h, frame[2], g, j)
            up = frame[3] if len(frame) > 3 else None
            return mode(h, a, up, seen) if a is not None else []
        if frame and frame[0] == 'ret':
            if not byref:
                return []
            # what a caller passes by reference matters if it returns the result as well
            out = []
            for x, c in m.callers(g.id):
                h = m.fn[x]
                if x != g.id and returned(h, c):
                    a = arg(m, h, c, g, j)
                    if a is not None:
                        out += self.obj(h, a, frame, seen)
            return out
        if exported(m, g):
            if g.name == 'connect':
                return []
            return [(g.loc(), '%s which is supplied to %s' % (name, g.name))]
        out = []
        for x, c in sorted(m.callers(g.id)):
            h = m.fn[x]
            a = arg(m, h, c, g, j)
            if a is not None:
                out += mode(h, a, None, seen)
        return out


def own(g, c):
    n = g.n(c)
    while n['k'] in ('Mem', 'OpCall', 'Sub', 'MCall') and n.get('c'):
        c = flow.strip(g, n['c'][0])
        n = g.n(c)
    return n['k'] == 'This'


def exported(m, g):
    return (g.file or '').endswith('ExportLib.cpp') and not g.cls and not g.isLambda and not g.ginit


def arg(m, h, c, g, j):
    n = h.n(c)
    k = n['k']
    if k not in ('Call', 'MCall', 'OpCall', 'Ctor'):
        return None
    a = h.args(c)
    if g.isLambda and k == 'OpCall' and len(a) == len(g.params) + 1:
        a = a[1:]
    if k == 'MCall' and (h.callee(c) or {}).get('n') in ('emplace', 'try_emplace', 'emplace_hint') and len(a) > len(g.params):
        a = a[-len(g.params):]
    if n.get('f') is None and k in ('Call', 'OpCall') or n.get('f') == g.id or len(a) == len(g.params) or g.kind == 'ctor':
        if j < len(a) and a[j] >= 0:
            return a[j]
    return None


def returned(h, c):
    """the result of the call is (part of) what the function returns"""
    for x in h.ancestors(c):
        if h.n(x)['k'] == 'Return':
            return True
        if h.n(x)['k'] == 'Decl':
            ds = {v['d'] for v in h.n(x)['vars']}
            for i in h.all():
                if h.n(i)['k'] == 'Return' and any(h.n(y)['k'] == 'Ref' and h.n(y).get('d') in ds for y in h.walk(i)):
                    return True
            return False
        if h.n(x)['k'] in ('Block', 'If', 'For', 'While'):
            return False
    return False
