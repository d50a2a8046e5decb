# Nothing is read before it was given a value: members after construction, local variables, objects filled in piece by piece.
import re

LEVEL = 'other'
SCALAR = re.compile(r'^(?:const )?(?:volatile )?(?:bool|char|signed char|unsigned char|wchar_t|short|int|long|long long|unsigned(?: (?:char|short|int|long|long long))?|float|double|long double)$')
PASS = ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof')


def check(ctx):
    m = ctx.m
    ctx.rule('every constructor gives every member of scalar or pointer type a value on every way to its end')
    ctx.rule('a local variable, or a member of a local object whose construction leaves it without value, is assigned on every way before it is read or the object is given away')
    A = Init(ctx, m)
    for r in sorted(A.own):
        if A.own[r]:
            ctx.count('types with members of scalar or pointer type')
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or '/lib/' in f.file:
            continue
        ctx.count('functions')
        if A.isctor(f):
            ctx.count('constructors')
            left = A.ctorleft(f)
            for p in sorted(left):
                ctx.violation('member:%s' % A.pname(p), f.loc(), '%s: a way through this constructor leaves %s without a value' % (f.qn, A.pname(p)))
        A.locals(f)
    ctx.require('constructors', 60)
    ctx.require('functions', 500)
    ctx.require('local variables and objects which start without a value', 15)
    ctx.require('objects which start with members without a value', 5)


class Init:
    def __init__(self, ctx, m):
        self.ctx, self.m = ctx, m
        self.own = {}
        self.names = {}
        for r, o in m.records.items():
            if not o or o.get('lambda'):
                continue
            self.own[r] = [x for x in o['fields'] if self.scalar(x['t']) and not x['hasinit']]
            for x in o['fields']:
                self.names[x['id']] = x['n']
        self._left = {}
        self._sum = {}
        self._par = {}
        self._busy = set()
        self.ctorof = {}
        for fid, f in m.fn.items():
            if self.isctor(f):
                self.ctorof.setdefault(f.cls, []).append(f)

    def isctor(self, f):
        d = self.m.decls.get(f.id) or {}
        return d.get('kind') == 'ctor' or bool(f.inits)

    def pname(self, p):
        return '.'.join([p[0].rsplit('::', 2)[-2] + '::' + self.names.get(p[0], p[0]) if '::' in p[0] else p[0]] + [self.names.get(x, x) for x in p[1:]])

    def scalar(self, t):
        t = self.m.tk(t) if isinstance(t, int) else t
        t = t.strip()
        if t.endswith('&') or t.endswith('&&'):
            return False
        a = re.match(r'^(.*?)\s*\[\d*\]$', t)
        if a:
            return False
        return bool(SCALAR.match(t)) or t.endswith('*') or t.endswith('*const') or t.endswith('*const ') or re.sub(r'^const ', '', t) in self.m.enums

    # ---- what default construction leaves without a value
    def left(self, r, depth=0):
        """paths of members of a record which its default construction leaves without a value"""
        m = self.m
        r = m.rec(r) or r
        if r in self._left:
            return self._left[r]
        if depth > 6 or r not in m.records or not m.records[r] or m.records[r].get('lambda'):
            return frozenset()
        cs = [f for f in self.ctorof.get(r, []) if not f.params]
        if cs:
            out = frozenset()
            for f in cs:
                out |= self.ctorleft(f)
        elif self.ctorof.get(r) or self.userctor(r):
            out = frozenset()
        else:
            out = frozenset(self.raw(r, depth))
        if r not in self._busy:
            self._left[r] = out
        return out

    def userctor(self, r):
        """a default constructor of its own, defined elsewhere"""
        return False

    def raw(self, r, depth=0):
        m = self.m
        out = set()
        for x in m.records[r]['fields']:
            if x['hasinit']:
                continue
            if self.scalar(x['t']):
                out.add((x['id'],))
            else:
                q = m.rec(x['t'])
                t = m.tk(x['t']) if isinstance(x['t'], int) else x['t']
                if q and q != r and not t.strip().endswith(('&', '*')):
                    out |= {(x['id'],) + p for p in self.left(q, depth + 1)}
        for b in m.records[r]['bases']:
            out |= set(self.left(b, depth + 1))
        return out

    def ctorleft(self, f):
        key = ('ctor', f.id)
        if key in self._sum:
            return self._sum[key]
        self._sum[key] = frozenset()
        r = f.cls
        if r not in self.m.records or not self.m.records[r]:
            return frozenset()
        if any(x.get('deleg') for x in f.inits):
            return frozenset()
        if len(f.params) == 1 and self.m.rec(f.params[0]['t']) == r and not any(x.get('written') for x in f.inits) and not f.calls():
            return frozenset()
        start = set()
        for x in self.m.records[r]['fields']:
            if x['hasinit']:
                continue
            if self.scalar(x['t']):
                start.add((x['id'],))
        # nested objects and bases constructed by default
        ini = {x.get('field'): x for x in f.inits}
        for x in self.m.records[r]['fields']:
            if x['hasinit'] or self.scalar(x['t']):
                continue
            q = self.m.rec(x['t'])
            t = self.m.tk(x['t']) if isinstance(x['t'], int) else x['t']
            if not q or t.strip().endswith(('&', '*')):
                continue
            i = ini.get(x['id'])
            if i is None or self.bare(f, i['i']):
                start |= {(x['id'],) + p for p in self.left(q)}
        for b in self.m.records[r]['bases']:
            i = next((z for z in f.inits if z.get('base') and (self.m.rec(z['base']) or z['base']) == b), None)
            if i is None or self.bare(f, i['i']):
                start |= set(self.left(b))
        out = self.solve(f, {('this',) + p for p in start}, self.say(f, 'this'))
        res = frozenset(k[1:] for k in out if k[0] == 'this')
        self._sum[key] = res
        return res

    def bare(self, f, i):
        """default construction which gives no values: T x; without parentheses or braces"""
        if i is None or i < 0:
            return True
        while f.n(i)['k'] in ('Clean', 'Mat', 'Paren') and f.n(i).get('c'):
            i = f.n(i)['c'][0]
        n = f.n(i)
        return n['k'] == 'Ctor' and not n.get('c') and not n.get('zi')

    # ---- functions
    def path(self, f, i):
        """(root, fields...) of an access to a local variable or this"""
        fs = []
        while True:
            n = f.n(i)
            k = n['k']
            if k == 'Mem':
                fs.append(n['d'])
                i = n['c'][0]
            elif k in ('Paren', 'Clean', 'Mat') or k == 'Cast' and n.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase'):
                i = n['c'][0]
            elif k == 'This':
                return ('this',) + tuple(reversed(fs))
            elif k == 'Ref' and n.get('dk') in ('local',) and not n.get('cap'):
                return (n['d'],) + tuple(reversed(fs))
            else:
                return None

    def locals(self, f):
        ds = []
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('static'):
                        continue
                    ks = self.starts(f, v)
                    if ks:
                        ds.append(v['d'])
                        self.ctx.count('local variables and objects which start without a value')
                        if any(len(k) > 1 for k in ks):
                            self.ctx.count('objects which start with members without a value')
                            self.ctx.sample('%s: %s' % (f.loc(i), v['n']))
        if ds:
            self.solve(f, set(), self.say(f, 'local'))

    def starts(self, f, v):
        if not v.get('t'):
            return set()
        if v.get('i') is None or v['i'] < 0:
            if self.scalar(v['t']):
                return {(v['d'],)}
            q = self.m.rec(v['t'])
            t = self.m.tk(v['t']) if isinstance(v['t'], int) else v['t']
            if q and not t.strip().endswith(('&', '*')):
                return {(v['d'],) + p for p in self.left(q)}
            return set()
        q = self.m.rec(v['t'])
        if q and self.bare(f, v['i']):
            return {(v['d'],) + p for p in self.left(q)}
        return set()

    def say(self, f, report):
        seen = set()

        def say(key, i, what):
            if (key, what) in seen:
                return
            seen.add((key, what))
            if key[0] == 'this':
                if report == 'this':
                    self.ctx.violation('read:%s' % self.pname(key[1:]), f.loc(i), '%s: %s %s before it was given a value' % (f.qn, self.pname(key[1:]), what))
            elif report == 'local':
                nm = self.varname(f, key[0])
                nm = nm + ''.join('.' + self.names.get(x, x) for x in key[1:])
                self.ctx.violation('local:%s:%s' % (f.qn, nm), f.loc(i), '%s: a way leads here on which %s was not given a value, it %s' % (f.qn, nm, what))
        return say

    def solve(self, f, start, say):
        m = self.m
        cfg = f.cfg
        par = f.parent
        parent = (lambda i: par.get(i)) if isinstance(par, dict) else (lambda i: par[i])

        def hit(st, p):
            return [k for k in st if k[:len(p)] == p or p[:len(k)] == k]

        def transfer(pt, x, st):
            if x is None:
                return st
            if x[0] == 'i':
                z = f.inits[x[1]]
                if z.get('field'):
                    if not self.bare(f, z.get('i')):
                        return frozenset(k for k in st if k[:2] != ('this', z['field']))
                    # default initialised: only what its construction sets
                return st
            if x[0] != 's':
                return st
            i = x[1]
            n = f.n(i)
            k = n['k']
            if k == 'Decl':
                for v in n['vars']:
                    if v.get('static'):
                        continue
                    st = frozenset(z for z in st if z[0] != v['d']) | self.starts(f, v)
                return st
            if k == 'Bin' and n.get('asg'):
                p = self.path(f, n['c'][0])
                if p:
                    if n['op'] != '=':
                        for z in hit(st, p):
                            say(z, i, 'is used')
                    return frozenset(z for z in st if z[:len(p)] != p)
                return st
            if k == 'Un' and n['op'] in ('++', '--'):
                p = self.path(f, n['c'][0])
                if p:
                    for z in hit(st, p):
                        say(z, i, 'is used')
                return st
            if k == 'Cast' and n.get('ck') == 'LValueToRValue':
                p = self.path(f, n['c'][0])
                if p:
                    for z in hit(st, p):
                        if len(z) <= len(p):
                            say(z, i, 'is read')
                return st
            if k in ('Ref', 'Mem', 'This'):
                return self.use(f, i, st, parent, say)
            return st

        def edge(a, b, lab, st):
            # a switch over every value of an enumeration has no other way out
            if lab and lab[0] == 'case' and len(lab) == 3 and (lab[2] is None or lab[2] < 0 or f.n(lab[2])['k'] not in ('Case', 'Default')) and self.covered(f, lab[1]):
                return None
            return st

        IN, OUT = cfg.forward(frozenset(start), transfer, lambda a, b: a | b, edge)
        return IN.get(cfg.exit, frozenset())

    def covered(self, f, sw):
        if sw is None or sw < 0:
            return False
        n = f.n(sw)
        vals, et = set(), None
        for i in f.walk(sw):
            if f.n(i)['k'] == 'Case':
                for j in f.walk(f.n(i)['c'][0]) if f.n(i).get('c') else []:
                    q = f.n(j)
                    if q['k'] == 'Ref' and q.get('dk') == 'enumc':
                        vals.add(q['d'])
                        et = q['d'].rsplit('::', 1)[0]
                        break
        for e, o in self.m.enums.items():
            if e == et or any(v.rsplit('::', 1)[0] == e.rsplit('::', 1)[0] and v.rsplit('::', 1)[1] in {x['n'] for x in o['vals']} for v in vals):
                if {x['n'] for x in o['vals']} <= {v.rsplit('::', 1)[-1] for v in vals}:
                    return True
        return False

    def varname(self, f, d):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v['d'] == d:
                        return v['n']
        return str(d)

    def use(self, f, i, st, parent, say):
        """an object mentioned as a whole: what is done with it"""
        p = self.path(f, i)
        if not p:
            return st
        ks = [k for k in st if k[:len(p)] == p]
        if not ks:
            return st
        c, q = i, parent(i)
        while q is not None and q >= 0:
            n = f.n(q)
            if n['k'] == 'Mem':
                return st                       # only a part of it
            if n['k'] in ('Paren', 'Clean', 'Mat') or n['k'] == 'Cast' and n.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase') or n['k'] in ('Call',) and f.cqn(q) in PASS:
                c, q = q, parent(q)
                continue
            break
        if q is None or q < 0:
            return st
        n = f.n(q)
        k = n['k']
        if k == 'Cast' and n.get('ck') == 'LValueToRValue' or k == 'Bin' and n.get('asg') and n['c'][0] == c or k in ('Block', 'Decl') and k != 'Decl':
            return st
        if k in ('MCall', 'OpCall', 'Call', 'Ctor'):
            return self.passed(f, q, c, p, ks, st, say)
        if k == 'Return' or k == 'Lambda' and False:
            for z in ks:
                say(z, i, 'is given away')
            return st
        if k == 'Un' and n['op'] == '&' or k in ('Lambda', 'Decl', 'RFor', 'Bin', 'Cond', 'InitList', 'Cast', 'Sub'):
            # an alias: whoever has it gives the value
            return st - frozenset(ks)
        return st

    def passed(self, f, q, c, p, ks, st, say):
        m = self.m
        n = f.n(q)
        fid = n.get('f')
        d = m.decls.get(fid) or {}
        g = m.fn.get(fid)
        args = f.args(q)
        if c in args and p == ('this',):
            return st                           # a pointer to the object, not the object
        if c in args:
            j = args.index(c)
            ps = d.get('params') or []
            t = None
            if j < len(ps):
                t = ps[j]['t'] if isinstance(ps[j], dict) else ps[j]
                t = m.tk(t) if isinstance(t, int) else t
            if t is not None and (t.rstrip().endswith('&&') or t.startswith('const ') and t.rstrip().endswith('&') or not t.rstrip().endswith(('&', '*'))):
                if len(p) == 1 and any(len(z) > 1 for z in ks) or any(len(z) > len(p) for z in ks) or any(z == p for z in ks):
                    for z in ks:
                        say(z, q, 'is given away')
                return st
            out = set(st)
            for z in ks:
                w, r = self.through(f, q, j, z[len(p):])
                if w:
                    out.discard(z)
                elif r and not self.assigned(f, z):
                    say(z, q, 'is given away')
            return frozenset(out)
        # the object of a method
        if n['k'] == 'OpCall' and n.get('op') == '=' and f.obj(q) == c:
            return st - frozenset(ks)
        if g is not None and len(p) >= 1:
            must, reads = self.summary(g)
            for z in ks:
                rel = z[len(p):]
                if rel and any(rel == r or rel[:len(r)] == r for r in reads):
                    say(z, q, 'is read by %s' % g.name)
            return frozenset(z for z in st if not (z in ks and z[len(p):] in must))
        return st

    def through(self, f, q, j, rel):
        """whether what a reference is passed to may set, may read the part rel of the object"""
        m = self.m
        gs = [m.fn[t] for t in m.targets(f, q) if t in m.fn]
        d = m.decls.get(f.n(q).get('f')) or {}
        if not gs or not rel:
            ps = d.get('params') or []
            t = ps[j] if j < len(ps) else None
            t = t['t'] if isinstance(t, dict) else t
            t = m.tk(t) if isinstance(t, int) else t
            byval = t is not None and (t.startswith('const ') or not t.rstrip().endswith(('&', '*')))
            return not byval, byval
        w = r = False
        for g in gs:
            if j >= len(g.params):
                return True, False
            a, b = self.param(g, j, rel)
            w |= a
            r |= b
        return w, r

    def param(self, g, j, rel):
        key = (g.id, j, rel)
        if key in self._par:
            return self._par[key]
        self._par[key] = (False, False)
        if g.rawcfg is None:
            return True, False
        d = g.params[j]['d']
        t = self.m.tk(g.params[j]['t']) if isinstance(g.params[j]['t'], int) else g.params[j]['t']
        if t.startswith('const ') or not t.rstrip().endswith(('&', '*')):
            self._par[key] = (False, True)
            return False, True
        w = r = False
        for h in [g] + list(self.m.lambdas_of(g.id)):
            par = h.parent
            parent = (lambda i: par.get(i)) if isinstance(par, dict) else (lambda i: par[i])
            for i in h.all():
                n = h.n(i)
                if n['k'] != 'Ref' or n.get('d') != d:
                    continue
                c, q, k = i, parent(i), 0
                while q is not None and q >= 0:
                    x = h.n(q)
                    if x['k'] == 'Mem' and k < len(rel):
                        if x['d'] != rel[k]:
                            break
                        k += 1
                    elif not (x['k'] in ('Paren', 'Clean', 'Mat') or x['k'] == 'Cast' and x.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived') or x['k'] == 'Call' and h.cqn(q) in PASS):
                        break
                    c, q = q, parent(q)
                if q is None or q < 0:
                    continue
                x = h.n(q)
                if x['k'] == 'Mem':
                    continue
                if k == len(rel):
                    if x['k'] == 'Cast' and x.get('ck') == 'LValueToRValue':
                        r = True
                    elif x['k'] == 'Bin' and x.get('asg'):
                        if x['c'][0] == c:
                            w = True
                        else:
                            r = True
                    elif x['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                        a, b = self.through(h, q, h.args(q).index(c), ()) if c in h.args(q) else (False, True)
                        w |= a
                        r |= b
                    else:
                        w = True
                elif x['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                    if c in h.args(q):
                        a, b = self.through(h, q, h.args(q).index(c), rel[k:])
                        w |= a
                        r |= b
                    elif x['k'] == 'OpCall' and x.get('op') == '=':
                        w = True
                    else:
                        for t2 in self.m.targets(h, q):
                            if t2 in self.m.fn:
                                must, reads = self.summary(self.m.fn[t2])
                                w |= any(z[:1] == rel[k:k + 1] for z in must)
                                r |= any(z[:1] == rel[k:k + 1] for z in reads)
                elif x['k'] in ('Block',):
                    pass
                elif x['k'] == 'Lambda':
                    pass
                else:
                    w = True
        self._par[key] = (w, r)
        return w, r

    def assigned(self, f, z):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Bin' and n.get('asg') and self.path(f, n['c'][0]) == z:
                return True
        return False

    def summary(self, g):
        """members of its object a method gives a value on every way, and those it reads without having done so"""
        key = ('sum', g.id)
        if key in self._sum:
            return self._sum[key]
        self._sum[key] = (frozenset(), frozenset())
        r = g.cls
        if g.rawcfg is None or r not in self.m.records or not self.m.records[r]:
            return self._sum[key]
        start = {('this',) + q for q in self.allpaths(r)}
        reads = set()
        out = self.solve(g, start, lambda k, i, what: reads.add(k[1:]) if k[0] == 'this' else None)
        left = {k[1:] for k in out if k[0] == 'this'}
        self._sum[key] = (frozenset(k[1:] for k in start) - frozenset(left), frozenset(reads))
        return self._sum[key]

    def allpaths(self, r, depth=0):
        out = set(self.raw(r)) | {x for x in self.left(r)}
        return out

