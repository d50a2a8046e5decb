"""Entries of a collection that can be empty are read only where its size is known to suffice."""
import re
import flow
from sizes import Sizes

LEVEL = 'other'
NEED1 = ('front', 'back', 'pop_back', 'pop_front', 'top', 'pop')
SEQ = ('std::vector', 'std::deque', 'std::array')


def obligations(m, S, f):
    """(node, path of the collection, entries needed, what)"""
    for i in f.all():
        n = f.n(i)
        k = n['k']
        c = n.get('c', [])
        if k == 'MCall':
            d = f.callee(i)
            if d and not d.get('src') and d['n'] in NEED1 and c and S.cont(f.typ(f.obj(i))):
                yield i, S.objpath(f, i), 1, d['n'] + '()'
        elif k in ('OpCall', 'Sub') and (k == 'Sub' or n['op'] == '[]') and len(c) == 2:
            t = m.tmpl(f.typ(c[0]))
            if t in SEQ and t != 'std::array' or t.endswith('basic_string'):
                q = S.path(f, c[1])
                o = S.path(f, c[0])
                if q is None:
                    continue
                if re.match(r'^#\d+$', q):
                    need = int(q[1:]) + (0 if t.endswith('basic_string') else 1)
                    if need:
                        yield i, o, need, '[%s]' % q[1:]
                else:
                    mo = re.match(r'^\((.*)\.size\(\)-#(\d+)\)$', q)
                    if mo and mo.group(1) == o:
                        yield i, o, int(mo.group(2)), '[size() - %s]' % mo.group(2)
        elif k == 'Bin' and n['op'] == '-' and not n.get('asg'):
            if 'unsigned' in m.noref(f.typ(i)) or 'size_t' in f.typ(i):
                a = stripi(f, c[0])
                q = S.path(f, c[1])
                if f.n(a)['k'] == 'MCall' and (f.callee(a) or {}).get('n') in ('size', 'length') and q and re.match(r'^#\d+$', q) and int(q[1:]) > 0:
                    if matters(f, i):
                        yield i, S.objpath(f, a), int(q[1:]), 'size() - %s' % q[1:]
        # first or last entry through an iterator
        op = None
        if k == 'Un' and n['op'] == '*' or k == 'OpCall' and n['op'] in ('*', '->') and len(c) == 1:
            op = c[0]
        elif k in ('Mem', 'MCall') and n.get('arrow') and c and f.n(c[0])['k'] in ('MCall', 'OpCall'):
            op = c[0]
        if op is not None:
            e = stripi(f, op)
            if f.n(e)['k'] == 'MCall' and (f.callee(e) or {}).get('n') in ('begin', 'rbegin', 'cbegin', 'crbegin') and S.cont(f.typ(f.obj(e))):
                yield i, S.objpath(f, e), 1, '*%s()' % f.callee(e)['n']
            elif f.n(e)['k'] == 'OpCall' and f.n(e)['op'] == '-' and len(f.n(e)['c']) == 2:
                z = stripi(f, f.n(e)['c'][0])
                q = S.path(f, f.n(e)['c'][1])
                if f.n(z)['k'] == 'MCall' and (f.callee(z) or {}).get('n') in ('end', 'cend') and q and re.match(r'^#\d+$', q):
                    yield i, S.objpath(f, z), int(q[1:]), '*(end() - %s)' % q[1:]
            elif f.n(e)['k'] in ('OpCall', 'Un') and f.n(e)['op'] == '--' and not f.n(e).get('post'):
                z = stripi(f, f.n(e)['c'][0])
                if f.n(z)['k'] == 'MCall' and (f.callee(z) or {}).get('n') == 'end':
                    yield i, S.objpath(f, z), 1, '*--end()'


RELOPS = ('<', '<=', '>', '>=', '+', '-', '*', '/', '%')


def matters(f, i):
    """the value of the unsigned subtraction i may be used in a way in which its wraparound shows: not if it is only compared for equality or used as the length of a substring"""
    p = f.parent[i]
    while p is not None and p >= 0 and f.n(p)['k'] in ('Cast', 'Paren', 'Clean', 'Mat'):
        i, p = p, f.parent[p]
    if p is None or p < 0:
        return True
    n = f.n(p)
    if n['k'] == 'Bin' and n['op'] in ('==', '!='):
        return False
    if n['k'] == 'Bin' and n['op'] in ('<', '<=', '>', '>='):
        # a branch which is not a loop has to be judged with what it guards
        for a in f.ancestors(p):
            if f.n(a)['k'] in ('For', 'While', 'Do'):
                return True
            if f.n(a)['k'] == 'If':
                return False
        return True
    if n['k'] in ('MCall',) and (f.callee(p) or {}).get('n') == 'substr' and f.args(p) and len(f.args(p)) > 1 and f.args(p)[1] == i:
        return False
    if n['k'] == 'Decl':
        for v in n['vars']:
            if v.get('i') == i:
                uses = [j for j in f.all() if f.n(j)['k'] == 'Ref' and f.n(j).get('d') == v['d']]
                return any(matters(f, j) for j in uses)
    if n['k'] == 'Cond':
        return matters(f, p)
    return True


def lambdas_in(m, f):
    return [g for g in m.fn.values() if g.isLambda and g.encl == f.id]


def ownfield(f, i):
    """the field that i names, through casts"""
    n = f.n(stripi(f, i))
    return n.get('d') if n['k'] == 'Mem' else None


SHRINK = ('pop_back', 'pop_front', 'pop', 'erase', 'clear', 'resize', 'assign', 'swap', 'remove', 'remove_if', 'operator=')
GROW = ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert', 'push', 'emplace')


class Invariants:
    """Fields which hold at least one entry from construction on: built from a collection known to have one, and whatever takes entries out is followed on every path by an insertion of such a collection."""

    def __init__(self, m, S):
        self.m = m
        self.S = S
        self.memo = {}

    def holds(self, fd, ctx=None):
        if fd not in self.memo:
            self.memo[fd] = True   # induction over the lifetime of objects
            self.memo[fd] = self.decide(fd)
        return self.memo[fd]

    def nonempty(self, f, i, e):
        """expression e is a collection with at least one entry at node i"""
        d = ownfield(f, e)
        if d and self.memo.get(d):
            return True
        n = f.n(stripi(f, e))
        if n['k'] == 'Ref' and n.get('d') in [p['d'] for p in f.params]:
            k = [p['d'] for p in f.params].index(n['d'])
            cs = self.m.callers(f.id)
            if cs and all(self.m.fn[c].n(ci).get('f') == f.id and k < len(self.m.fn[c].args(ci)) and self.nonempty(self.m.fn[c], ci, self.m.fn[c].args(ci)[k]) for c, ci in cs):
                return True
        q = self.S.path(f, e)
        if q is None:
            return False
        st = self.S.at(f, i)
        return ('dead', '', '') in st or self.S.bound(st, q) >= 1

    def grows(self, f, i, fd, depth=0):
        n = f.n(i)
        if n['k'] not in ('MCall', 'Call'):
            return False
        d = f.callee(i)
        if not d:
            return False
        if not d.get('src'):
            if d['n'] in GROW and n['k'] == 'MCall' and ownfield(f, f.obj(i)) == fd:
                rng = []
                for a in f.args(i):
                    b = stripi(f, a)
                    if f.n(b)['k'] == 'MCall' and (f.callee(b) or {}).get('n') in ('begin', 'cbegin', 'rbegin', 'end', 'cend', 'rend') and ownfield(f, f.obj(b)) != fd or f.n(b)['k'] == 'MCall' and (f.callee(b) or {}).get('n') in ('begin', 'end', 'rbegin', 'rend') and f.n(stripi(f, f.obj(b)))['k'] == 'Ref':
                        rng.append(f.obj(b))
                return all(self.nonempty(f, i, r) for r in rng)
            return False
        g = self.m.fn.get(n.get('f'))
        if g is None or g.rawcfg is None or depth > 3:
            return False
        return self.onall(g, None, fd, depth + 1)

    def onall(self, f, i, fd, depth=0):
        g = f.cfg
        good = set()
        for j in f.all():
            if self.grows(f, j, fd, depth):
                p = g.point(j)
                if p is not None:
                    good.add(p)
        start = g.point(i) if i is not None else g.entry
        return g.exit not in g.reach(start, avoid=good)

    def decide(self, fd):
        m = self.m
        cls = fd.rsplit('::', 1)[0]
        built = 0
        for f in m.fn.values():
            for i in f.all():
                n = f.n(i)
                d = f.callee(i) if n['k'] in ('Call', 'Ctor', 'MCall') else None
                if not d:
                    # assignments to the field
                    if flow.assign(f, i) is not None and ownfield(f, n['c'][0]) == fd:
                        return False
                    continue
                if n['k'] == 'Call' and d['n'] in ('make_shared', 'make_unique') and re.search(r'<%s>$' % re.escape(cls), f.typ(i).strip()) or n['k'] == 'Ctor' and d.get('cls') == cls or n['k'] == 'Ctor' and d.get('clsn') == cls:
                    args = f.args(i)
                    if n['k'] == 'Ctor' and len(args) == 1 and cls in f.typ(args[0]):
                        continue   # a copy
                    src = self.source(cls, fd, len(args))
                    if src is None or src >= len(args) or not self.nonempty(f, i, args[src]):
                        return False
                    built += 1
                if n['k'] == 'MCall' and not d.get('src') and d['n'] in SHRINK and ownfield(f, f.obj(i)) == fd and not self.onall(f, i, fd):
                    return False
        return built > 0

    def source(self, cls, fd, k):
        """index of the parameter whose entries the constructor of k arguments copies into the field"""
        r = None
        for g in self.m.fn.values():
            if g.inits and len(g.params) == k:
                for t in g.inits:
                    if t.get('field') == fd and t.get('i') is not None:
                        for j in g.walk(t['i']):
                            if g.n(j)['k'] == 'Ref':
                                for x, p in enumerate(g.params):
                                    if p['d'] == g.n(j)['d'] and self.S.cont(p['t']):
                                        r = x
        return r


def pushloop(m, S, f, i, o, need):
    """o gets an entry in every round of a loop which is run completely before i, and is known to run at least once"""
    if need != 1:
        return False
    g = f.cfg
    here = g.point(i)
    for j in f.all():
        n = f.n(j)
        if n['k'] == 'MCall' and (f.callee(j) or {}).get('n') in ('push_back', 'emplace_back') and not f.callee(j).get('src') and S.objpath(f, j) == o:
            for L in f.ancestors(j):
                if f.n(L)['k'] not in ('For', 'While'):
                    continue
                c = f.n(L).get('cond')
                if c is None or c < 0:
                    continue
                once = [(a, b) for op, a, b in S.cond(f, c, True) if op in ('<', '!=')] + [(b, a) for op, a, b in S.cond(f, c, True) if op in ('>', '!=')]
                pc = g.point(c)
                pj = g.point(j)
                # every way from the loop's test into its body and back or out passes the insertion
                inner = [q for q, lab in g.succ[pc] if lab and lab[-1] is True] if pc is not None else []
                if pc is None or pj is None or not inner:
                    continue
                if any(pc in g.reach(q, avoid={pj}) | {q} or here in g.reach(q, avoid={pj}) for q in inner if q != pj):
                    continue
                if not g.dominates(pc, here):
                    continue
                st = S.at(f, c)
                init = f.n(L).get('init')
                for a, b in once:
                    # the counter starts at 0 and its limit is at least 1
                    zero = init is not None and init >= 0 and f.n(init)['k'] == 'Decl' and any('v' + str(v['d']) == a and v.get('i') is not None and S.path(f, v['i']) == '#0' for v in f.n(init)['vars'])
                    if zero and any(x[1] == b and (x[0] == '>=' and re.match(r'^#[1-9]', x[2]) or x[0] == '>' and re.match(r'^#\d', x[2])) for x in st):
                        return True
    return False


def stripi(f, i):
    while f.n(i)['k'] == 'Cast' and f.n(i).get('c') or (f.n(i)['k'] == 'Ctor' and len(f.n(i).get('c', [])) == 1):
        i = f.n(i)['c'][0]
    return i


def check(ctx):
    m = ctx.m
    S = Sizes(m)
    inv = Invariants(m, S)
    ctx.rule('R1: front, back, pop and top, a constant index, the entry before the end and a dereferenced begin() are evaluated only where the collection is known to have that many entries: by a branch, a loop over it, insertions on every path, its initialiser, or the same knowledge at every caller')
    ctx.rule('R2: a constant is subtracted from an unsigned size only where the size is known to be at least that constant')
    for f in m.fn.values():
        if f.rawcfg is None:
            continue
        for i, o, need, what in obligations(m, S, f):
            ctx.count('accesses that need entries')
            if o is None:
                ctx.count('accesses on collections without access path')
                ctx.violation('size:%s:%s' % (f.qn, f.expr(i)[:80]), f.loc(i), 'UNKNOWN PATH %s in %s' % (f.expr(i), f.qn), [])
                continue
            st = S.at(f, i)
            if ('dead', '', '') in st or S.bound(st, o) >= need:
                continue
            if need == 1 and nodeof(f, i) is not None and (lambda d: d and inv.holds(d))(ownfield(f, nodeof(f, i))):
                ctx.count('accesses to collections which are never empty')
                continue

            def known(g, c, ci, q):
                return g.bound(g.at(c, ci), q) >= need or need == 1 and any(g.path(c, a) == q and (lambda d: d and inv.holds(d))(ownfield(c, a)) for a in c.args(ci))
            if S.at_callers(f, i, o, known):
                ctx.count('accesses proved at all callers')
                continue
            if pushloop(m, S, f, i, o, need):
                ctx.count('accesses after a filling loop')
                continue
            if 'LruCache<' in f.qn and o.endswith('::itemsList_'):
                ctx.count('accesses of the cache list (C32)')
                continue
            ctx.violation('size:%s:%s' % (f.qn, f.expr(i)[:80]), f.loc(i), '%s uses %s of %s without knowing that it has %d entr%s' % (f.qn, what, short(o), need, 'y' if need == 1 else 'ies'), ['known: %d' % S.bound(st, o)])
    ctx.require('accesses that need entries', 20)


def nodeof(f, i):
    """the collection expression of an access"""
    n = f.n(i)
    if n['k'] == 'MCall':
        return f.obj(i)
    if n['k'] in ('OpCall', 'Sub') and len(n.get('c', [])) == 2:
        return n['c'][0]
    if n['k'] == 'Bin':
        return f.obj(stripi(f, n['c'][0]))
    if n.get('c'):
        e = stripi(f, n['c'][0])
        return f.obj(e) if f.n(e)['k'] == 'MCall' else None
    return None


def short(o):
    return re.sub(r'[\w:()<>, ]*::', '', re.sub(r'@\d+:\d+(#\d+)?', '', o))[:120]
