"""The result of a lookup that may fail is used only where the lookup is known to have succeeded."""
from guards import Guards

LEVEL = 'other'
FIND_M = ('find', 'lower_bound', 'upper_bound')
FIND_F = ('std::find', 'std::find_if', 'std::lower_bound', 'std::upper_bound', 'std::find_if_not', 'std::search', 'std::max_element', 'std::min_element')
MARK = '\0'
SMART = ('std::unique_ptr', 'std::shared_ptr')


class G(Guards):
    """adds: an insertion makes the key present"""

    def gen(self, f, i):
        out = super().gen(f, i)
        n = f.n(i)
        if n['k'] == 'MCall':
            d = f.callee(i)
            if d and d['n'] in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and f.args(i):
                o = self.path(f, f.obj(i))
                k = self.key(f, i, d['n'])
                if o is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.arrowop(f, f.obj(i)):
                    o = self.deref(o)
                if o is not None and k is not None:
                    out.add(('t', '%s.has(%s)' % (o, k), ''))
        elif n['k'] == 'OpCall' and n['op'] == '[]' and self.m.tmpl(f.typ(n['c'][0])) in ('std::map', 'std::unordered_map'):
            o, k = self.path(f, n['c'][0]), self.path(f, n['c'][1])
            if o and k:
                out.add(('t', '%s.key(%s)' % (o, k), ''))
        elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and f.n(n['c'][0])['k'] == 'OpCall' and f.n(n['c'][0])['op'] == '[]':
            x = f.n(n['c'][0])['c']
            o, k = self.path(f, x[0]), self.path(f, x[1])
            if o and k:
                out |= {('t', '%s.key(%s)' % (o, k), ''), ('t', '%s.has(%s)' % (o, k), '')}
        return out

    def cond(self, f, i, pol, *a, **kw):
        # what a branch says about the result of a search it says about the key
        out = set(super().cond(f, i, pol, *a, **kw))
        for op, x, y in list(out):
            if op == '!=' and isinstance(x, str) and isinstance(y, str):
                for u, v in ((x, y), (y, x)):
                    j = u.rfind('.find(')
                    if j > 0 and u.endswith(')') and v == u[:j] + '.end()':
                        out.add(('t', u[:j] + '.has(' + u[j + 6:], ''))
        return out

    def mutated(self, f, i):
        # insertion makes no other key absent
        ps, fs = super().mutated(f, i)
        n = f.n(i)
        if n['k'] == 'MCall' and (f.callee(i) or {}).get('n') in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push_back', 'emplace_back') or n['k'] == 'OpCall' and n.get('op') == '[]':
            o = self.path(f, n['c'][0])
            if o is not None and n.get('arrow') and f.n(n['c'][0])['k'] != 'This' and not self.arrowop(f, n['c'][0]):
                o = self.deref(o)
            ps = [x for x in ps if x != o] + ([MARK + o] if o else [])
        return ps, fs

    def kill(self, st, ps, fs):
        st = super().kill(st, [x for x in ps if x[0] != MARK], fs)
        new = [x[1:] for x in ps if x[0] == MARK]
        if new:
            # a search from now on may find what an earlier one did not
            st = frozenset(x for x in st if not (x[0] == '==' and any(str(y).startswith(o + '.find(') for o in new for y in x[1:])))
        return st

    def close(self, s):
        s = super().close(s)
        out = set()
        for op, a, b in s:
            if op == '==' and b and a[:1] == 'v' and '.find(' in b and present(s, b):
                out.add(('!=', a, b[:b.rindex('.find(')] + '.end()'))
        return s | out

    def made(self, f, p, i, t):
        out = super().made(f, p, i, t)
        q = self.path(f, i)
        if q is not None and '.find(' in q and permanent(self.m, self, f, q):
            out.add(('!=', p, q[:q.rindex('.find(')] + '.end()'))
        e = strip(f, i)
        if f.n(e)['k'] == 'New' or f.cqn(e).endswith(('make_unique', 'make_shared')) or f.n(e)['k'] == 'This' or (f.n(e)['k'] == 'Un' and f.n(e)['op'] == '&') or (f.n(e)['k'] == 'Ctor' and f.n(e).get('c') and f.n(f.n(e)['c'][0])['k'] == 'New'):
            out.add(('t', p, ''))
        # position returned by an insertion
        e = strip(f, i)
        n = f.n(e)
        if n['k'] == 'Mem' and n.get('n') == 'first':
            e = strip(f, n['c'][0])
            n = f.n(e)
        if n['k'] == 'MCall' and (f.callee(e) or {}).get('n') in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign', 'try_emplace'):
            o = self.path(f, f.obj(e))
            if o is not None:
                if n.get('arrow') and f.n(f.obj(e))['k'] != 'This' and not self.arrowop(f, f.obj(e)):
                    o = self.deref(o)
                out.add(('!=', p, o + '.end()'))
        return out

    def key(self, f, i, name):
        a = f.args(i)[0]
        if name in ('emplace', 'try_emplace', 'insert_or_assign'):
            return self.path(f, a)
        for _ in range(6):
            n = f.n(a)
            if n['k'] == 'Cast' or (n['k'] == 'Ctor' and len(n.get('c', [])) == 1):
                a = n['c'][0]
            elif n['k'] in ('Call', 'Ctor', 'InitList') and n.get('c'):
                return self.path(f, f.args(a)[0] if n['k'] == 'Call' else n['c'][0])
            else:
                break
        return self.path(f, a)


def lookup(m, f, i):
    """is expression i itself a lookup that may fail? returns its kind"""
    for _ in range(8):
        n = f.n(i)
        if n['k'] in ('Cast',) and n.get('c'):
            i = n['c'][0]
        elif n['k'] == 'Ctor' and len(n.get('c', [])) == 1:
            i = n['c'][0]
        else:
            break
    n = f.n(i)
    if n['k'] == 'MCall':
        d = f.callee(i)
        if d and not d.get('src') and d['n'] in FIND_M and 'iterator' in iter_type(m, f, i):
            return i
    if n['k'] == 'Call' and f.cqn(i) in FIND_F:
        return i
    if n['k'] in ('Call', 'MCall') and n.get('f') in m.fn:
        # helper that returns the result of a lookup
        g = m.fn[n['f']]
        if 'iterator' in iter_type(m, f, i):
            for j in g.all():
                if g.n(j)['k'] == 'Return' and g.n(j).get('c') and lookup(m, g, g.n(j)['c'][0]) is not None:
                    return i
    return None


def iter_type(m, f, i):
    t = f.typ(i)
    return (m.tmpl(t) + ' ' + m.noref(t)).lower()


def defs(m, f, var):
    """expressions assigned to the variable, with the function they are in"""
    out = []
    g = f
    while g is not None:
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'Decl':
                out += [(g, v['i']) for v in n['vars'] if v['d'] == var and v.get('i') is not None]
            elif n['k'] in ('Bin', 'OpCall') and n.get('op') == '=' and g.n(n['c'][0])['k'] == 'Ref' and g.n(n['c'][0])['d'] == var:
                out.append((g, n['c'][1]))
        g = m.fn.get(g.encl) if g.encl else None
    return out


def strip(f, i):
    while f.n(i)['k'] == 'Cast' and f.n(i).get('c') or (f.n(i)['k'] == 'Ctor' and len(f.n(i).get('c', [])) == 1):
        i = f.n(i)['c'][0]
    return i


def check(ctx):
    m = ctx.m
    G_ = G(m)
    ctx.rule('R1: an iterator obtained from a search (find, lower_bound, std::find_if, ...) is dereferenced only where it is known to differ from the end iterator: by a branch, by an insertion of the same key on every path, or by a helper that establishes it')
    ctx.rule('R2: a pointer that may be null because a program function returned it as "not found", or a dynamic_cast produced it, is dereferenced only where it is known not to be null')
    ctx.rule('R3: operator[] on a map of pointers is dereferenced only where the key is known to be present')
    mayb = may_return_null(m)
    ctx.count('functions that return null for "not found"', len(mayb))
    for f in m.fn.values():
        if f.rawcfg is None:
            continue
        for i in f.all():
            n = f.n(i)
            k = n['k']
            c = n.get('c', [])
            # dereference operand
            op = None
            if k == 'Mem' and n.get('arrow'):
                op = c[0]
            elif k == 'Un' and n['op'] == '*':
                op = c[0]
            elif k == 'OpCall' and n['op'] in ('*', '->') and len(c) == 1:
                op = c[0]
            elif k == 'MCall' and n.get('arrow') and c:
                op = c[0]
            if op is None or op < 0:
                continue
            e = strip(f, op)
            if f.n(e)['k'] == 'OpCall' and f.n(e)['op'] == '->' and k in ('Mem', 'MCall'):
                continue        # counted at the operator itself
            judge(ctx, m, G_, mayb, f, i, e)
    ctx.require('dereferences of lookup results', 10)
    ctx.assumptions += ['distinct access paths do not alias', 'search algorithms whose result is only compared or passed on are judged where it is dereferenced']


def judge(ctx, m, G_, mayb, f, i, e):
    n = f.n(e)
    lk = lookup(m, f, e)
    var = None
    if lk is None and n['k'] == 'Ref' and n['dk'] in ('local',):
        ds = defs(m, f, n['d'])
        lks = [(g, j) for g, j in ds if lookup(m, g, j) is not None]
        if lks:
            var, lf, lk = n['d'], lks[0][0], lks[0][1]
            if len(lks) > 1 or lf is not f:
                lf = None
        else:
            nulls = [(g, j) for g, j in ds if null_source(m, mayb, g, j) or null_const(m, g, j)]
            if nulls:
                ctx.count('dereferences of pointers that may be null')
                if not nonnull(G_, f, e):
                    ctx.violation('null:%s:%s' % (f.qn, f.expr(e)), f.loc(i), '%s dereferences %s, which is null when nothing was found (%s)' % (f.qn, f.expr(e), nulls[0][0].expr(nulls[0][1])), [])
            return
    if lk is not None:
        ctx.count('dereferences of lookup results')
        p = G_.path(f, e)
        st = G_.at(f, e)
        if var is not None and found(st, 'v' + str(var), G_):
            return
        if p is not None and (found(st, p, G_) or permanent(m, G_, f, p)):
            return
        if p is not None and (var is None or lf is not None) and present(st if var is None else G_.at(lf, lk), p):
            # the key was there when it was searched for
            return
        if p is not None and G_.at_callers(f, e, p, lambda g, c, ci, q: found(g.at(c, ci), q, g) or present(g.at(c, ci), q) or permanent(m, g, c, q)):
            ctx.count('dereferences proved at all callers')
            return
        if p is None and var is None:
            # not expressible: judged by the function that made it
            ctx.count('dereferences of lookup results not expressible as access path')
        ctx.violation('find:%s:%s' % (f.qn, f.expr(e)), f.loc(i), '%s uses the result of a lookup without knowing that it succeeded: %s' % (f.qn, f.expr(e)), ['path: %s known here: ' % p + str(sorted(x for x in st if p and (p in x[1] or p in x[2])))[:400]])
        return
    if n['k'] in ('Call', 'MCall', 'Cast') and null_source(m, mayb, f, e):
        ctx.count('dereferences of pointers that may be null')
        if not nonnull(G_, f, e):
            ctx.violation('null:%s:%s' % (f.qn, f.expr(e)), f.loc(i), '%s dereferences %s, which is null when nothing was found' % (f.qn, f.expr(e)), [])
        return
    if n['k'] == 'OpCall' and n['op'] == '[]' and m.tmpl(f.typ(n['c'][0])) in ('std::map', 'std::unordered_map'):
        a = m.targs(f.typ(n['c'][0]))
        if len(a) > 1 and (m.tmpl(a[1]) in SMART or m.tk(m.noref(a[1])).get('k') == 'ptr'):
            ctx.count('dereferences of map elements')
            o, kk = G_.path(f, n['c'][0]), G_.path(f, n['c'][1])
            st = G_.at(f, e)
            if o is not None and kk is not None and (('t', '%s.has(%s)' % (o, kk), '') in st or found(st, '%s.find(%s)' % (o, kk), G_)):
                return
            ctx.violation('index:%s:%s' % (f.qn, f.expr(e)), f.loc(i), '%s dereferences %s, which is null when the key is absent' % (f.qn, f.expr(e)), [])


def permanent(m, G_, f, p):
    """key given to the table where it is created: initialiser of a constant, or every constructor of the class, and nothing removes it"""
    if not hasattr(G_, '_perm'):
        G_._perm = {}
    key = (p, f.decl.get('cls'))
    if key not in G_._perm:
        G_._perm[key] = False
        G_._perm[key] = permanent_(m, G_, f, p)
    return G_._perm[key]


def permanent_(m, G_, f, p):
    import re
    mo = re.match(r'^(g.*?)\.find\(("[^"]*"|#[-\w]+|g[^(),]*)\)$', p)
    if mo:
        gid, key = mo.group(1)[1:], mo.group(2)
        g = m.globals.get(gid)
        if g is None or not (g['const'] or not written(m, G_, ('g', gid))):
            return False
        return key in init_keys(m, G_, gid)
    mo = re.match(r'^this\.(.*)\.find\(("[^"]*"|#[-\w]+|g[^(),]*)\)$', p)
    if mo:
        fd, key = mo.group(1), mo.group(2)
        fl = m.field(fd)
        if fl is None:
            return False
        ctors = [h for h in m.fn.values() if h.decl.get('kind') == 'ctor' and h.decl.get('cls') == fl['rec'] and not h.decl.get('copy') and not h.decl.get('move') and h.rawcfg is not None]
        if not ctors or removed(m, G_, fd):
            return False
        return all(found(set(G_.state(h).get(h.cfg.exit, ())), p, G_) or present(set(G_.state(h).get(h.cfg.exit, ())), p) for h in ctors)
    return False


def init_keys(m, G_, gid):
    out = set()
    for f in m.fn.values():
        if f.ginit == gid:
            for i in f.all():
                n = f.n(i)
                if n['k'] in ('InitList', 'Ctor') and len(n.get('c', [])) >= 2:
                    q = G_.path(f, n['c'][0])
                    if q:
                        out.add(q)
    return out


def written(m, G_, root):
    return any((kd, r) == root for f in m.fn.values() for kd, r, nd in G_.eff.mutations(f))


def removed(m, G_, fd):
    for f in m.fn.values():
        for kd, r, nd in G_.eff.mutations(f):
            if kd == 'f' and r == fd:
                n = f.n(nd)
                if n['k'] == 'MCall' and (f.callee(nd) or {}).get('n') in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') or n['k'] == 'OpCall' and n.get('op') == '[]':
                    continue
                return True
    return False


def present(st, p):
    """the key that p searches for is in the table"""
    j = p.rfind('.find(')
    return j > 0 and any(('t', p[:j] + w + p[j + 6:], '') in st for w in ('.has(', '.key('))


def found(st, p, G_):
    eqs = {p}
    st = {x for x in st if x[0] != '=>'}
    for op, a, b in st:
        if op == '==' and (a == p or b == p):
            eqs.add(b if a == p else a)
    for op, a, b in st:
        if op in ('!=', '<') and (a in eqs and (b.endswith('.end()') or 'std::end' in b) or b in eqs and a.endswith('.end()')):
            return True
        if op == 't' and '.count(' in a:
            q = a.replace('.count(', '.find(')
            if q in eqs:
                return True
        if op in ('>', '!=', '>=', '==') and '.count(' in a and a.replace('.count(', '.find(') in eqs:
            if (op, b) in (('>', '#0'), ('!=', '#0'), ('>=', '#1'), ('==', '#1')):
                return True
    # assigned from something that is no lookup (insert, emplace)
    return any(op == '==' and a == p and '.insert(' in b for op, a, b in st)


def nonnull(G_, f, e):
    p = G_.path(f, e)
    st = G_.at(f, e)
    if p is None:
        return False
    vs = {p}
    if f.n(e)['k'] == 'Ref':
        vs.add('v' + str(f.n(e)['d']))
    return any(('t', x, '') in st or ('!=', x, '#0') in st or ('!=', '#0', x) in st or any(y[0] == '==' and y[1] == x and y[2] != '#0' and '"' != y[2][:1] for y in st) for x in vs)


def may_return_null(m):
    out = set()
    ch = True
    while ch:
        ch = False
        for f in m.fn.values():
            if f.id in out or f.isLambda and False:
                continue
            t = f.decl.get('ret', '')
            if not (m.tk(t).get('k') == 'ptr' or m.tmpl(t) in SMART):
                continue
            for i in f.all():
                if f.n(i)['k'] == 'Return' and f.n(i).get('c'):
                    e = strip(f, f.n(i)['c'][0])
                    if f.n(e)['k'] == 'NullPtr' or (f.n(e)['k'] == 'Ctor' and not f.n(e).get('c') and m.tmpl(f.typ(e)) in SMART) or \
                            (f.n(e)['k'] == 'Int' and str(f.n(e)['v']) == '0') or (f.n(e)['k'] in ('Call', 'MCall') and f.n(e).get('f') in out):
                        out.add(f.id)
                        ch = True
                        break
    return out


def null_const(m, f, i):
    i = strip(f, i)
    n = f.n(i)
    t = f.typ(i)
    return n['k'] == 'NullPtr' or (n['k'] == 'Ctor' and m.tmpl(n.get('t', '')) in SMART and (not n.get('c') or f.n(strip(f, n['c'][0]))['k'] == 'NullPtr'))


def null_source(m, mayb, f, i):
    i0 = i
    while f.n(i)['k'] == 'Cast' and f.n(i).get('ck') not in ('Dynamic', 'dynamic_cast') and f.n(i).get('c') or (f.n(i)['k'] == 'Ctor' and len(f.n(i).get('c', [])) == 1):
        i = f.n(i)['c'][0]
    n = f.n(i)
    if n['k'] == 'Cast' and n.get('ck') in ('Dynamic', 'dynamic_cast') and m.tk(f.typ(i)).get('k') == 'ptr':
        return True
    if n['k'] in ('Call', 'MCall') and n.get('f'):
        return any(t in mayb for t in m.targets(f, i))
    return False
