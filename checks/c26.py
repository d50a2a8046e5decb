"""Orderings are strict weak orders which tell keys apart by what identifies them; equality and hashing agree with them."""
import itertools
import re
import flow
import ranks
from ranks import Interp, LV, Undecided, Thrown, leaves_read, clean

LEVEL = 'other'
LIB = re.compile(r'^/repo|^core/|/core/(src|shared)/')
ALGO = re.compile(r'^std::(sort|stable_sort|partial_sort|nth_element|lower_bound|upper_bound|equal_range|binary_search|min_element|max_element|minmax_element|merge|inplace_merge|is_sorted|make_heap|push_heap|pop_heap|sort_heap|set_\w+|includes)$')


class Rel:
    """a function of two objects of one type, decided over all orderings of what it reads"""

    def __init__(self, m, f, method, lam=None):
        """method: the first object is *this"""
        self.m, self.f, self.method = m, f, method
        self.keys = self.consts = None
        self.ctx_fields = set()

    def call(self, given):
        it = Interp(self.m, given)
        try:
            if self.method:
                v = it.call(self.f, LV('a'), [LV('b')])
            else:
                this = LV('self') if self.f.cls else None
                v = it.call(self.f, this, [LV('a'), LV('b')])
        except Thrown:
            raise Undecided('throws')
        return bool(it.num(v))

    def domain(self, extra=()):
        """paths and constants; the values each path ranges over"""
        rd = leaves_read(self.m, self.call)
        paths = sorted({p for b, p in rd if b in ('a', 'b')} | set(extra), key=repr)
        consts = sorted({b for b, p in rd if isinstance(b, tuple) and b[0] == 'const'})
        other = [b for b, p in rd if b not in ('a', 'b') and not (isinstance(b, tuple) and b[0] == 'const')]
        if other:
            raise Undecided('depends on ' + str(other[0]))
        lits = set()
        for i in self.f.all():
            if self.f.n(i)['k'] in ('Int', 'Float') and abs(float(self.f.n(i)['v'])) >= 1:
                lits.add(float(self.f.n(i)['v']))
        return paths, consts, sorted(lits)

    def table(self, paths, consts, lits=()):
        """{(vector, vector): outcome}"""
        cv = {c: 3 + 4 * k for k, c in enumerate(consts)}
        if consts:
            D = list(range(0, 4 * len(consts) + 3))
        elif lits:
            D = sorted({x + d for x in lits for d in (-1, 0, 1)} | {0, 1, 2})
        else:
            D = [0, 1, 2]
        while len(D) ** len(paths) > 400 and len(D) > 2:
            D = D[:-1] if not consts else [x for x in D if x in cv.values() or x + 1 in cv.values() or x - 1 in cv.values()][:len(D) - 1]
        if len(D) ** len(paths) > 1100:
            raise Undecided('too many values')
        vec = list(itertools.product(D, repeat=len(paths)))
        T = {}
        for a in vec:
            va = dict(zip(paths, a))
            for b in vec:
                vb = dict(zip(paths, b))

                def given(base, p):
                    if base == 'a':
                        return va.get(p, 0)
                    if base == 'b':
                        return vb.get(p, 0)
                    return cv.get(base, 0)
                T[a, b] = self.call(given)
        return vec, T, cv


def order_errors(vec, T):
    """why a relation is not a strict weak order"""
    for a in vec:
        if T[a, a]:
            return 'an object is ordered before itself', (a, a)
    for a in vec:
        for b in vec:
            if T[a, b] and T[b, a]:
                return 'two objects are each ordered before the other', (a, b)
    up = {a: [b for b in vec if T[a, b]] for a in vec}
    for a in vec:
        ups = set(up[a])
        for b in up[a]:
            for c in up[b]:
                if c not in ups:
                    return 'the order is not transitive', (a, b, c)
    # equivalence
    eq = {a: frozenset(b for b in vec if not T[a, b] and not T[b, a]) for a in vec}
    for a in vec:
        for b in eq[a]:
            if eq[b] != eq[a]:
                return 'being equivalent is not transitive', (a, b)
    return None


def eq_errors(vec, T):
    for a in vec:
        if not T[a, a]:
            return 'an object does not equal itself', (a, a)
    for a in vec:
        for b in vec:
            if T[a, b] != T[b, a]:
                return 'equality differs with the order of its operands', (a, b)
    return None


def show(paths, v):
    return '(%s)' % ', '.join('%s=%s' % ('.'.join(str(x) for x in p) or 'value', x) for p, x in zip(paths, v))


class C26:
    def __init__(self, ctx):
        self.ctx, self.m = ctx, ctx.m
        self.seen = {}

    def lib(self, fid):
        f = self.m.fn.get(fid)
        return f is not None and f.rawcfg is not None and f.decl.get('src')

    def functor(self, t):
        """call operator of a functor type"""
        t = clean(t)
        if t.startswith('lambda:'):
            f = self.m.fn.get(t[7:])
            return f
        for fid in sorted(self.m.fn):
            f = self.m.fn[fid]
            if f.cls == t and f.name == 'operator()' and f.rawcfg is not None and len(f.params) == 2:
                return f
        return None

    def operator(self, t, op):
        t = clean(t)
        for fid in sorted(self.m.fn):
            f = self.m.fn[fid]
            if f.name != 'operator' + op or f.rawcfg is None:
                continue
            if f.cls == t and len(f.params) == 1 and clean(f.params[0]['t']) == t:
                return f, True
            if not f.cls and len(f.params) == 2 and all(clean(p['t']) == t for p in f.params):
                return f, False
        return None

    # ---- identity of a key
    def identity(self, t):
        """(function same(paths -> values a, b), paths, consts) of what identifies a key of type t"""
        m = self.m
        t = clean(t)
        mo = re.match(r'std::(shared|unique)_ptr<(.*)>$', t)
        if mo:
            r = clean(m.targs(t)[0])
            if r not in m.records:
                return None
            conds = []
            for d in sorted(m.derived.get(r, ())):
                L = [(f['n'],) for f in m.fields(d)] if m.records[d].get('fields') or m.fields(d) else []
                for x in L:
                    conds.append((('const', 'typeid ' + d), ('*',) + x))
            return [('*', 'typeid')], conds
        if t in m.records:
            I = Interp(m, lambda b, p: 0)
            L = I.leaves(t)
            if L:
                return L, []
        return None

    def less(self, f, method, where, key, keytype, who):
        ctx = self.ctx
        k = (f.id, keytype)
        if k in self.seen:
            return
        self.seen[k] = True
        ctx.count('orderings')
        R = Rel(self.m, f, method)
        ident = self.identity(keytype) if keytype else None
        try:
            extra = []
            if ident:
                extra = ident[0] + [p for _, p in ident[1]]
            paths, consts, lits = R.domain(extra)
            if ident:
                consts = sorted(set(consts) | {c for c, _ in ident[1]})
            vec, T, cv = R.table(paths, consts, lits)
        except Undecided as e:
            ctx.count('orderings outside the vocabulary')
            ctx.sample('%s not decided: %s' % (f.qn, e))
            return
        ctx.count('pairs of keys', len(T))
        e = order_errors(vec, T)
        if e:
            ctx.violation('order:' + key, f.loc(), '%s used by %s is not a strict weak order: %s' % (self.nm(f), who, e[0]), [show(paths, v) for v in e[1]])
            return
        if not ident:
            return
        ctx.count('orderings of keys')

        def same(a, b):
            va, vb = dict(zip(paths, a)), dict(zip(paths, b))
            if any(va[p] != vb[p] for p in ident[0]):
                return False
            for c, p in ident[1]:
                if va[ident[0][0]] == cv.get(c) and va[p] != vb[p]:
                    return False
            return True
        for (a, b), r in T.items():
            eq = not r and not T[b, a]
            s = same(a, b)
            if eq and not s:
                ctx.violation('confuse:' + key, f.loc(), '%s used by %s does not tell different keys apart' % (self.nm(f), who), [show(paths, a), show(paths, b)])
                return
            if s and not eq:
                ctx.violation('split:' + key, f.loc(), '%s used by %s orders equal keys' % (self.nm(f), who), [show(paths, a), show(paths, b)])
                return
        ctx.sample('%s: %d orderings of %s' % (self.nm(f), len(T), ', '.join('.'.join(map(str, p)) for p in paths)))

    def nm(self, f):
        if f.isLambda:
            return 'the comparison at %s' % f.loc()
        return re.sub(r'<.*>', '', f.qn.replace('utymap::', ''))

    def equal(self, f, method, neg):
        ctx, m = self.ctx, self.m
        t = clean(f.cls if method else f.params[0]['t'])
        ctx.count('equality operators')
        key = '%s::%s' % (t.rsplit('::', 1)[-1], f.name)
        R = Rel(m, f, method)
        ident = self.identity(t)
        try:
            paths, consts, lits = R.domain(ident[0] if ident else [])
            vec, T, cv = R.table(paths, consts, lits)
        except Undecided as e:
            ctx.count('equality operators outside the vocabulary')
            ctx.sample('%s not decided: %s' % (f.qn, e))
            return None
        if neg:
            T = {k: not v for k, v in T.items()}
        ctx.count('pairs compared', len(T))
        e = eq_errors(vec, T)
        if e:
            ctx.violation('eq:' + key, f.loc(), '%s: %s' % (f.qn, e[0]), [show(paths, v) for v in e[1]])
            return None
        if ident:
            for (a, b), r in T.items():
                if r != all(x == y for p, x, y in zip(paths, a, b) if p in ident[0]):
                    ctx.violation('eq:' + key, f.loc(), '%s says %s of objects which %s' % (f.qn, 'equal' if r else 'different', 'differ' if r else 'are the same'), [show(paths, a), show(paths, b)])
                    return None
        return paths, T


def elem(m, t):
    """element type of an iterator or pointer"""
    mo = re.match(r'__gnu_cxx::__normal_iterator<(?:const )?(.*?) ?\*', t)
    if mo:
        return clean(mo.group(1))
    mo = re.match(r'(?:const )?(.*?) ?\*$', t)
    return clean(mo.group(1)) if mo else None


def types_used(m):
    out = {}
    for fid in sorted(m.fn):
        f = m.fn[fid]
        for i in f.all():
            t = f.n(i).get('t')
            if t and 'std::' in t and ('map<' in t or 'set<' in t or 'priority_queue<' in t):
                out.setdefault(t, (f, i))
            if f.n(i)['k'] == 'Decl':
                for v in f.n(i)['vars']:
                    out.setdefault(v['t'], (f, i))
    for r in sorted(m.records):
        for fd in m.fields(r, inherited=False):
            out.setdefault(fd['t'], (None, r))
    for g, o in sorted(m.globals.items()):
        if o.get('t'):
            out.setdefault(o['t'], (None, g))
    return out


def check(ctx):
    m = ctx.m
    ctx.rule('a comparison is evaluated for every ordering of the values it reads (three ranks each, and ranks around every constant): irreflexive, asymmetric, transitive, and equivalence is transitive')
    ctx.rule('the ordering of an ordered container tells two keys apart exactly when they differ in what identifies them: all data members of the key, or the dynamic type and the members of that type for owned polymorphic keys')
    ctx.rule('operator== compares every data member, is reflexive and symmetric; operator!= is its negation; an equality given to unique() only joins elements which the preceding sort puts next to each other')
    ctx.rule('a hash function reads only what equality compares')
    ctx.rule('an integer key packed from two numbers keeps both of them')
    C = C26(ctx)
    # ordered and hashed containers
    for t, (f, i) in sorted(types_used(m).items(), key=lambda x: x[0]):
        for mo in re.finditer(r'std::(multimap|multiset|map|set|priority_queue|unordered_map|unordered_set)<', t):
            s = t[mo.start():]
            depth = 0
            for k, ch in enumerate(s):
                depth += (ch == '<') - (ch == '>')
                if ch == '>' and depth == 0 and (k == 0 or s[k - 1] != '-'):
                    s = s[:k + 1]
                    break
            a = m.targs(s)
            if not a:
                continue
            kind = mo.group(1)
            kt = clean(a[0])
            short = kt.rsplit('::', 1)[-1] if '<' not in kt else re.sub(r'.*::', '', kt.rstrip('>'))
            if kind in ('map', 'set', 'multimap', 'multiset'):
                pos = 2 if kind.endswith('map') else 1
                cmp_ = a[pos] if len(a) > pos else 'std::less<%s>' % kt
                if s in C.seen:
                    continue
                C.seen[s] = True
                ctx.count('ordered container types')
                if cmp_.startswith(('std::less', 'std::greater')):
                    op = C.operator(kt, '<' if 'less' in cmp_ else '>')
                    if op:
                        C.less(op[0], op[1], None, '%s of %s' % (kind, short), kt, 'containers of ' + short)
                    elif re.search(r'\*$|_ptr<', kt):
                        ctx.count('containers ordered by address')
                    continue
                g = C.functor(cmp_)
                if g is None:
                    ctx.sample('comparator %s not used' % cmp_[:80])
                    continue
                C.less(g, False, None, '%s of %s' % (kind, short), kt, 'containers of ' + short)
            elif kind.startswith('unordered'):
                if s in C.seen:
                    continue
                C.seen[s] = True
                ctx.count('hashed container types')
                pos = 2 if kind.endswith('map') else 1
                h = a[pos] if len(a) > pos else 'std::hash<%s>' % kt
                hashed(ctx, C, h, kt, short)
    # algorithms
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None:
            continue
        sorts = []
        for i in sorted(f.all(), key=lambda i: (f.cfg.point(i) is None, i)):
            n = f.n(i)
            if n['k'] != 'Call':
                continue
            q = re.sub(r'<.*', '', f.cqn(i) or '')
            A = f.args(i)
            if ALGO.match(q) and len(A) >= 2:
                et = elem(m, f.typ(A[0]))
                ct = f.typ(A[-1])
                g = C.functor(ct)
                fn = '%s in %s' % (q[5:], f.qn.rsplit('::', 1)[-1])
                ctx.count('calls of ordering algorithms')
                if g is not None:
                    C.less(g, False, None, fn, None, fn)
                    sorts.append((et, g, False))
                elif et:
                    op = C.operator(et, '<')
                    if op:
                        C.less(op[0], op[1], None, fn, None, fn)
                        sorts.append((et, op[0], op[1]))
            if q == 'std::unique' and len(A) == 3:
                g = C.functor(f.typ(A[2]))
                et = elem(m, f.typ(A[0]))
                if g is None:
                    continue
                ctx.count('equality predicates')
                unique(ctx, C, f, i, g, [s for s in sorts if s[0] == et])
    # operators of the library's types
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src') or f.decl.get('defaulted'):
            continue
        for op in ('==', '!=', '<'):
            if f.name != 'operator' + op:
                continue
            method = bool(f.cls) and len(f.params) == 1
            if method and clean(f.params[0]['t']) != clean(f.cls) or not method and len(f.params) != 2 or not method and clean(f.params[0]['t']) != clean(f.params[1]['t']):
                continue
            if op == '<':
                t = clean(f.cls if method else f.params[0]['t'])
                C.less(f, method, None, t.rsplit('::', 1)[-1] + '::operator<', None, t.rsplit('::', 1)[-1])
            else:
                C.equal(f, method, op == '!=')
    for fid in sorted(m.fn):
        packed(ctx, C, m.fn[fid])
    ctx.require('orderings', 4)
    ctx.require('equality operators', 2)


def fields_read(m, f, seen=None):
    out = set()
    seen = seen or set()
    if f.id in seen:
        return out
    seen.add(f.id)
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Mem' and m.field(n.get('d')):
            out.add(n['d'])
        if n['k'] in ('Call', 'MCall', 'OpCall'):
            for t in m.targets(f, i):
                g = m.fn.get(t if isinstance(t, str) else t[0])
                if g is not None and g.rawcfg is not None:
                    out |= fields_read(m, g, seen)
    return out


def hashed(ctx, C, h, kt, short):
    m = ctx.m
    h = clean(h)
    g = None
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.cls == h and f.name == 'operator()' and f.rawcfg is not None and f.decl.get('src'):
            g = f
    if g is None:
        return
    ctx.count('hash functions')
    hf = {x for x in fields_read(m, g) if m.field(x)['rec'] == kt}
    op = C.operator(kt, '==')
    if op is None:
        return
    ef = {x for x in fields_read(m, op[0]) if m.field(x)['rec'] == kt}
    if hf - ef:
        ctx.violation('hash:' + short, g.loc(), 'the hash of %s depends on %s which equality does not compare: equal keys get different hashes' % (short, ', '.join(sorted(m.field(x)['n'] for x in hf - ef))))
    if any(op[0].n(i)['k'] == 'Call' and re.sub(r'.*::', '', op[0].cqn(i) or '') in ('abs', 'fabs') for i in op[0].all()):
        ctx.violation('hash:' + short, g.loc(), 'keys %s equal within a tolerance get different hashes' % short)


def unique(ctx, C, f, i, g, sorts):
    m = ctx.m
    key = 'unique in ' + f.qn.rsplit('::', 1)[-1]
    try:
        E = Rel(m, g, False)
        pe, ce, le = E.domain()
        if not sorts:
            return
        S = Rel(m, sorts[-1][1], sorts[-1][2])
        ps, cs, ls = S.domain()
        paths = sorted(set(pe) | set(ps), key=repr)
        vec, TE, _ = E.table(paths, sorted(set(ce) | set(cs)), le)
        vec, TS, _ = S.table(paths, sorted(set(ce) | set(cs)), ls)
    except Undecided as e:
        ctx.sample('%s not decided: %s' % (key, e))
        return
    e = eq_errors(vec, TE)
    if e:
        ctx.violation('eq:' + key, f.loc(i), 'the equality given to unique(): %s' % e[0], [show(paths, v) for v in e[1]])
        return
    for (a, b), r in TE.items():
        if r and (TS[a, b] or TS[b, a]):
            ctx.violation('eq:' + key, f.loc(i), 'elements that unique() is to join need not be next to each other in the order they were sorted by', [show(paths, a), show(paths, b)])
            return
    ctx.count('pairs compared', len(TE))


def packed(ctx, C, f):
    """integer keys of containers made from two numbers"""
    m = ctx.m
    if f.rawcfg is None:
        return
    for i in f.all():
        n = f.n(i)
        if n['k'] != 'MCall' or not n.get('c') or not re.match(r'(const )?std::(unordered_)?(map|set)<(const )?unsigned long', f.typ(n['c'][0])):
            continue
        if (f.cqn(i) or '').rsplit('::', 1)[-1] not in ('find', 'count', 'at') or not f.args(i):
            continue
        x = flow.strip(f, f.args(i)[0])
        for _ in range(4):
            if f.n(x)['k'] == 'Ref' and flow.init_of(f, f.n(x)['d']) is not None:
                x = flow.strip(f, flow.init_of(f, f.n(x)['d']))
        n = f.n(x)
        if n['k'] != 'Bin' or n['op'] not in ('+', '|', '^'):
            continue
        for a, b in (n['c'], n['c'][::-1]):
            s = flow.strip(f, a)
            for _ in range(4):
                if f.n(s)['k'] == 'Ref' and flow.init_of(f, f.n(s)['d']) is not None:
                    s = flow.strip(f, flow.init_of(f, f.n(s)['d']))
            if f.n(s)['k'] != 'Bin' or f.n(s)['op'] not in ('<<', '*'):
                continue
            hi, sh = f.n(s)['c']
            sh = flow.strip(f, sh)
            k = int(f.n(sh)['v']) if f.n(sh)['k'] == 'Int' else None
            if k is None:
                continue
            ctx.count('packed keys')
            key = 'packed:' + f.qn.rsplit('::', 1)[-1]
            if f.n(s)['op'] == '*':
                k = k.bit_length() - 1
            if k < 32:
                ctx.violation(key, f.loc(x), 'the key packs two numbers %d bits apart: different pairs get the same key' % k)
                continue
            if f.n(s).get('t') not in ('unsigned long', 'long', 'unsigned long long', 'long long', 'const unsigned long') and 'long' not in f.n(s).get('t', '') and '64' not in f.n(s).get('t', ''):
                ctx.violation(key, f.loc(x), 'the upper half of the key is shifted out of %s' % f.n(s).get('t'))
                continue
            # both numbers can be told from the two halves
            try:
                seen = {}
                for v in itertools.product((0, 1, 2), repeat=2):
                    it = Interp(m, lambda b_, p_: 0)
                    env = {p['d']: x_ for p, x_ in zip(f.params, v)}
                    if len(f.params) != 2:
                        raise Undecided('parameters')
                    o = (it.num(it.ev(f, hi, env, {}, None, 0)), it.num(it.ev(f, b, env, {}, None, 0)))
                    seen.setdefault(o, set()).add(tuple(sorted(v)))
                if any(len(v) > 1 for v in seen.values()):
                    ctx.violation(key, f.loc(x), 'different pairs of numbers get the same key')
            except Undecided as e:
                ctx.sample('%s not decided: %s' % (key, e))
            break
