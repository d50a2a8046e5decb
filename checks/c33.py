"""Values given away by std::move are not read before they are assigned anew."""
import re
from guards import Guards
from typestate import Typestate
import flow

LEVEL = 'other'
RESET = ('clear', 'assign', 'reset', 'swap', 'str', 'open')
GONE = ('erase', 'clear', 'swap', 'pop_front', 'pop_back', 'pop', 'assign', 'extract')
OK, MOVED = 'valid', 'moved'
# objects that do their one job once: (field, reason)
ONESHOT = {'TerraGenerator::mesh_': 'a generator lives for one tile and generates once (TerraBuilder::complete)'}


class Moves(Typestate):
    STATES = (OK, MOVED)


def movearg(m, f, i):
    """x of std::move(x) or static_cast<T&&>(x), unless x is constant (then nothing is moved)"""
    n = f.n(i)
    if n['k'] == 'Call' and f.cqn(i) in ('std::move', 'std::forward') and len(f.args(i)) == 1:
        if f.cqn(i) == 'std::forward':
            return None
        x = f.args(i)[0]
    elif n['k'] == 'Cast' and n.get('t', '').rstrip().endswith('&&') and n.get('c') and n.get('exp'):
        x = n['c'][0]
    else:
        return None
    if re.match(r'\s*const\b', f.typ(x)) or f.typ(i).startswith('const '):
        return None
    return x


def consumer(m, f, i):
    """the node that takes the value: the innermost call or construction around std::move which may take it over, or None"""
    par = f.parent
    p = par.get(i) if isinstance(par, dict) else par[i]
    c = i
    while p is not None and p >= 0 and f.n(p)['k'] in ('Cast', 'Paren', 'Clean', 'Mat', 'DefArg'):
        c, p = p, (par.get(p) if isinstance(par, dict) else par[p])
    if p is None or p < 0:
        return None, c
    return p, c


class Analysis:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.moves = {}
        self.fields = set()
        self.ftype = {}
        self.cand = {}
        self.ctype = {}
        for fid in sorted(m.fn):
            f = m.fn[fid]
            if f.rawcfg is None:
                continue
            for i in f.all():
                x = movearg(m, f, i)
                if x is None:
                    continue
                p, c = consumer(m, f, i)
                if p is None:
                    continue
                k = f.n(p)['k']
                if k not in ('Call', 'MCall', 'Ctor', 'OpCall', 'Return', 'Decl', 'Init', 'New', 'InitList'):
                    continue
                if k == 'OpCall' and f.n(p)['op'] == '=' and f.n(p)['c'][0] == c:
                    continue
                if k in ('Call', 'MCall', 'Ctor') and not self.takes(f, p, c):
                    continue
                q = self.path(f, x)
                self.moves.setdefault(fid, []).append((p, i, x, q))
                if q is None:
                    continue
                mo = re.search(r'(\.[^.\[\]()*]*::[^.\[\]()*]*(?:\.\*)?)$', q)
                if mo:
                    self.fields.add(mo.group(1))
                    self.ftype[mo.group(1)] = m.noref(f.typ(x))
                self.cand.setdefault(fid, set()).add(q)
                self.ctype[(fid, q)] = m.noref(f.typ(x))
        # callers whose own values a helper takes away
        m.callgraph()
        todo = sorted(self.cand)
        while todo:
            fid = todo.pop(0)
            g = m.fn[fid]
            for c, ci in m.callers(fid):
                f = m.fn[c]
                if f.rawcfg is None:
                    continue
                b = S.binding(f, ci, g)
                for q in sorted(self.cand[fid]):
                    r = Typestate.rootvar(q)
                    pr = [x for x in g.params if str(x['d']) == r]
                    if r and not pr:
                        continue
                    if pr and not g.isLambda and not pr[0]['t'].rstrip().endswith(('&', '*')):
                        continue
                    z = S.subst(q, b, g)
                    if z is None or len(z) > 300 or z in self.cand.get(c, ()):
                        continue
                    self.cand.setdefault(c, set()).add(z)
                    self.ctype[(c, z)] = self.ctype.get((fid, q), '')
                    if c not in todo:
                        todo.append(c)

    def path(self, f, i):
        return self.S.path(f, i)

    def takes(self, f, p, c):
        """the callee's parameter may take the value over (an rvalue reference or a value), or is unknown"""
        d = f.callee(p)
        if f.n(p)['k'] == 'Ctor':
            return not (d and len(f.args(p)) == 1 and d.get('copy'))
        g = self.m.fn.get(f.n(p).get('f'))
        if g is None:
            return True
        a = f.args(p)
        for j, x in enumerate(g.params):
            if j < len(a) and a[j] == c:
                t = x['t'].rstrip()
                return t.endswith('&&') or not t.endswith('&')
        return True

    def candidates(self, f):
        if not hasattr(f, '_mvcand'):
            f._mvcand = (frozenset(self.cand.get(f.id, ())),)
        return f._mvcand[0]

    def match(self, f, q):
        """moved paths that reading q reads"""
        out = {p for p in self.candidates(f) if q == p or q.startswith(p) and q[len(p)] in '.['}
        for s in self.fields:
            j = q.find(s)
            while j >= 0:
                e = j + len(s)
                if e == len(q) or q[e] in '.[':
                    out.add(q[:e])
                j = q.find(s, j + 1)
        return out

    def nullable(self, f, p):
        t = self.ctype.get((f.id, p))
        if t is None:
            t = next((y for x, y in self.ftype.items() if p.endswith(x)), '')
        return (self.m.tk(t).get('tmpl') or '') in ('std::unique_ptr', 'std::shared_ptr')

    def dereferenced(self, f, i):
        c, p = i, self.par(f, i)
        while p is not None and p >= 0 and f.n(p)['k'] in ('Paren', 'Cast'):
            c, p = p, self.par(f, p)
        if p is None or p < 0:
            return False
        n = f.n(p)
        return n['k'] == 'OpCall' and n['op'] in ('*', '->') and len(n['c']) == 1 or n['k'] == 'Mem' and n['c'][0] == c

    def branches(self, f, c, pol):
        """a pointer which is not null was not moved away"""
        out = []
        todo = [(c, pol)]
        while todo:
            a, ap = flow.normal(self.S, f, *todo.pop())
            n = f.n(a)
            if n['k'] == 'Bin' and n['op'] in ('&&', '||') and (n['op'] == '&&') == ap:
                todo += [(x, ap) for x in n['c']]
                continue
            if n['k'] in ('Bin', 'OpCall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
                if (n['op'] == '!=') != ap:
                    continue
                for x, y in (n['c'], n['c'][::-1]):
                    if 'nullptr' in f.typ(y):
                        a = flow.strip(f, x)
            elif n['k'] == 'MCall' and (f.callee(a) or {}).get('n') in ('operator bool', 'get') and ap:
                a = flow.strip(f, f.obj(a))
            elif not ap:
                continue
            if f.n(a)['k'] == 'MCall' and (f.callee(a) or {}).get('n') == 'get':
                a = flow.strip(f, f.obj(a))
            if f.n(a)['k'] in ('Ref', 'Mem'):
                self.interesting(f, a)
                q = self.path(f, a)
                if q:
                    out += [('set', p) for p in sorted(self.known(f)) if p == q and self.nullable(f, p)]
        return out

    def known(self, f):
        """candidates of f including the member ones occurring in it"""
        return self.candidates(f) | f._mvfields if hasattr(f, '_mvfields') else self.candidates(f)

    def events(self, f, i):
        """[(event, path)]"""
        n = f.n(i)
        k = n['k']
        out = []
        for p, mi, x, q in self.bycons(f).get(i, ()):
            if q is not None:
                out.append(('move', q))
        if k in ('Ref', 'Mem'):
            if not self.interesting(f, i):
                return out
            q = self.path(f, i)
            if q is None or self.inner(f, i) or self.ismoved(f, i):
                return out
            how = self.how(f, i)
            for p in sorted(self.match(f, q)):
                if how == 'set':
                    if p == q:
                        pass
                elif how == 'use':
                    # a smart pointer which was moved away is known to be null
                    if p == q and self.nullable(f, p) and not self.dereferenced(f, i):
                        continue
                    out.append(('use', p))
            return out
        if k == 'Decl':
            for v in n['vars']:
                for p in sorted(self.known(f)):
                    if Typestate.rootvar(p) == str(v['d']):
                        out.append(('set', p))
            return out
        t = None
        if flow.assign(f, i) is not None:
            t = flow.assign(f, i)
        elif k == 'MCall':
            d = f.callee(i)
            if d and not d.get('src') and d['n'] in RESET + GONE:
                t = f.obj(i)
                if d['n'] == 'erase' and f.args(i):
                    q = self.path(f, f.args(i)[0])
                    if q:
                        out += [('set', p) for p in sorted(self.known(f)) if p.startswith(q)]
        if t is not None:
            q = self.path(f, t)
            if q is not None:
                out += [('set', p) for p in sorted(self.known(f)) if p == q or p.startswith(q) and p[len(q)] in '.[']
        if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
            for a, st in self.refargs(f, i):
                if st == 'fill':
                    q = self.path(f, a)
                    if q is not None:
                        out += [('set', p) for p in sorted(self.known(f)) if p == q or p.startswith(q) and p[len(q)] in '.[']
        return out

    def bycons(self, f):
        if not hasattr(f, '_mvcons'):
            f._mvcons = {}
            for t in self.moves.get(f.id, ()):
                f._mvcons.setdefault(t[0], []).append(t)
        return f._mvcons

    def interesting(self, f, i):
        if not hasattr(f, '_mvnames'):
            names = set()
            for p in self.candidates(f):
                names.update(re.findall(r'v([A-Za-z_]\w*@\d+:\d+(?:#\d+)?)', p))
                names.update(x for x in re.findall(r'\.([^.\[\]()*]*::[^.\[\]()*]*)', p))
                if p.startswith('g'):
                    names.add(p[1:])
            for s in self.fields:
                names.update(re.findall(r'\.([^.\[\]()*]*::[^.\[\]()*]*)', s))
            f._mvnames = names
            f._mvfields = set()
            for j in f.all():
                if f.n(j)['k'] == 'Mem' and str(f.n(j).get('d')) in names:
                    q = self.path(f, j)
                    if q:
                        f._mvfields |= {x for x in self.match(f, q)}
                        f._mvfields |= {x for x in self.match(f, q + '.*')}
        n = f.n(i)
        if str(n.get('d')) in f._mvnames:
            return True
        if n['k'] == 'Ref':
            q = flow.init_of(f, n.get('d'))
            return q is not None
        return False

    def par(self, f, i):
        par = f.parent
        return par.get(i) if isinstance(par, dict) else par[i]

    def inner(self, f, i):
        """only the outermost member expression counts"""
        p = self.par(f, i)
        c = i
        while p is not None and p >= 0 and (f.n(p)['k'] in ('Cast', 'Paren') or f.n(p)['k'] == 'OpCall' and f.n(p)['op'] in ('->', '*') and len(f.n(p)['c']) == 1):
            c, p = p, self.par(f, p)
        return p is not None and p >= 0 and f.n(p)['k'] == 'Mem' and f.n(p)['c'][0] == c

    def ismoved(self, f, i):
        p = i
        while p is not None and p >= 0 and f.n(p)['k'] in ('Ref', 'Mem', 'Cast', 'Paren') or p is not None and p >= 0 and f.n(p)['k'] == 'OpCall' and f.n(p)['op'] in ('*', '->') or p is not None and p >= 0 and f.n(p)['k'] == 'Un' and f.n(p)['op'] == '*':
            p = self.par(f, p)
        if p is None or p < 0:
            return False
        return movearg(self.m, f, p) is not None or f.n(p)['k'] == 'Call' and f.cqn(p) == 'std::move'

    def how(self, f, i):
        c, p = i, self.par(f, i)
        deref = False
        while p is not None and p >= 0 and (f.n(p)['k'] in ('Paren',) or f.n(p)['k'] == 'Cast' or f.n(p)['k'] == 'OpCall' and f.n(p)['op'] in ('*', '->') and len(f.n(p)['c']) == 1 or f.n(p)['k'] == 'Un' and f.n(p)['op'] == '*'):
            if f.n(p)['k'] in ('OpCall', 'Un'):
                deref = True
            c, p = p, self.par(f, p)
        if p is None or p < 0:
            return 'use'
        n = f.n(p)
        if flow.assign(f, p) is not None and n['c'][0] == c and (n.get('op') == '=' or n.get('op') is None):
            return 'set'
        if n['k'] == 'MCall' and f.obj(p) == c:
            d = f.callee(p)
            if d and not d.get('src') and d['n'] in RESET:
                return 'set'
        if n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
            for a, st in self.refargs(f, p):
                if a == c and st == 'fill':
                    return 'set'
        if n['k'] == 'Expr' or n['k'] == 'Compound':
            return 'none'
        if n['k'] == 'Lambda':
            return 'none'
        return 'use'

    def refargs(self, f, i):
        """arguments handed over to be filled in"""
        key = (f.id, i)
        if not hasattr(self, '_ra'):
            self._ra = {}
        if key in self._ra:
            return self._ra[key]
        out = []
        g = self.m.fn.get(f.n(i).get('f'))
        a = f.args(i)
        if g is not None and g.rawcfg is not None:
            for j, x in enumerate(g.params):
                if j < len(a) and a[j] is not None and a[j] >= 0 and x['t'].rstrip().endswith('&') and not x['t'].rstrip().endswith('&&') and not x['t'].startswith('const '):
                    if self.fills(g, x['d']):
                        out.append((a[j], 'fill'))
        elif f.cqn(i) in ('std::getline',) and len(a) > 1:
            out.append((a[1], 'fill'))
        self._ra[key] = out
        return out

    def fills(self, g, d):
        """the first thing done with parameter d is to give it a new value"""
        key = (g.id, d)
        if not hasattr(self, '_fl'):
            self._fl = {}
        if key in self._fl:
            return self._fl[key]
        sets, uses = set(), set()
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'Ref' and n.get('d') == d:
                pt = g.cfg.point(i)
                p, c = self.par(g, i), i
                while p is not None and p >= 0 and g.n(p)['k'] in ('Cast', 'Paren'):
                    c, p = p, self.par(g, p)
                pn = g.n(p)
                if pn['k'] == 'OpCall' and pn['op'] == '=' and pn['c'][0] == c or pn['k'] == 'Bin' and pn.get('asg') and pn['op'] == '=' and pn['c'][0] == c or pn['k'] == 'MCall' and g.obj(p) == c and g.callee(p) and not g.callee(p).get('src') and g.callee(p)['n'] in RESET:
                    sets.add(g.cfg.point(p))
                else:
                    uses.add(pt)
        r = bool(sets)
        if r:
            reach = g.cfg.reach(g.cfg.entry, avoid=sets)
            r = not (uses & reach) and flow.must_hit(g, g.cfg.entry, sets)
        self._fl[key] = r
        return r


def delta(s, ev):
    if ev == 'move':
        return MOVED, ('again' if s == MOVED else None)
    if ev == 'set':
        return OK, None
    return s, ('read' if s == MOVED else None)


def check(ctx):
    m = ctx.m
    S = Guards(m)
    A = Analysis(m, S)
    ctx.rule('typestate of every value given to std::move (variables, members, what pointers and iterators name), across helpers: not read or moved again before it is assigned, cleared or declared anew')
    ctx.rule('an entry of a longer-lived collection which was moved out is removed or assigned before the function returns')
    ctx.rule('a member left moved-from by one operation is not read by another operation of the object')
    for fid, L in A.moves.items():
        ctx.count('moves', len(L))
        ctx.count('moves of named values', sum(1 for x in L if x[3] is not None))
    ctx.count('moved members', len(A.fields))
    for f in m.fn.values():
        if f.rawcfg is not None:
            for i in f.all():
                if f.n(i)['k'] == 'Mem':
                    A.interesting(f, i)
                    break
    T = Moves(m, S, A.events, delta, OK, edge_events=A.branches, maxlen=300, exports=lambda f, p: lvalue(f, p))
    ctx.count('functions with tracked values', len(T.res))
    for e, fid, i, p, o in T.errors():
        f = m.fn[fid]
        og = m.fn[o[0]] if o else None
        # the value left behind by an earlier call of the same object: reported once below
        ctx.violation('moved:%s:%s' % (f.qn, short(p)), f.loc(i), '%s after it was moved away%s' % ('reads a value' if e == 'read' else 'moves a value again', ' at ' + og.loc(o[1]) if o else ''))
    members(ctx, m, A, T)
    # entries of collections
    for fid in sorted(A.moves):
        f = m.fn[fid]
        for p, mi, x, q in A.moves[fid]:
            c = container(m, S, f, x)
            if c is None:
                continue
            ctx.count('moves out of collections')
            good = set()
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'MCall' and f.callee(i) and not f.callee(i).get('src') and f.callee(i)['n'] in GONE and S.path(f, f.obj(i)) == c:
                    good.add(f.cfg.point(i))
                if n['k'] in ('MCall', 'Call') and f.callee(i) and f.callee(i)['n'] in ('swap', 'exchange') and any(S.path(f, a) == c for a in f.args(i)):
                    good.add(f.cfg.point(i))
                a = flow.assign(f, i)
                if a is not None and (S.path(f, a) == c or q is not None and S.path(f, a) == q):
                    good.add(f.cfg.point(i))
            if not flow.must_hit(f, f.cfg.point(p), good):
                ctx.violation('entry:%s:%s' % (f.qn, short(c)), f.loc(p), 'an entry of a collection is moved away but stays in it')
    ctx.require('moves', 20)


def members(ctx, m, A, T, only=None):
    """members left moved-from by one operation and read by another"""
    left = {}
    for fid, p, s, o, local, s0 in T.exits():
        f = m.fn[fid]
        if s != MOVED or local or not p.startswith('this.') or s0 == MOVED or f.kind in ('ctor', 'dtor') or 'operator=' in f.qn or p.count('.') - p.endswith('.*') > 1:
            continue
        if only is None or o and only(o):
            left.setdefault(p, []).append((f, o))
    for p, L in sorted(left.items()):
        if any(k in p for k in ONESHOT):
            ctx.count('one-shot members')
            ctx.assumptions += [k + ': ' + v for k, v in ONESHOT.items() if k in p]
            continue
        for fid, s0s in sorted(later(m, T, p).items()):
            g = m.fn[fid]
            if g.kind in ('ctor', 'dtor'):
                continue
            for s0, e, gid, i, o in sorted(T.res[fid][p][1], key=str):
                if s0 == MOVED and s0 in s0s and not (e == 'again' and A.nullable(g, p)):
                    f, fo = L[0]
                    ctx.violation('member:%s:%s' % (f.qn, short(p)), m.fn[fo[0]].loc(fo[1]) if fo else f.loc(), 'leaves a moved-from member behind which %s reads' % m.fn[gid].qn)


def later(m, T, p):
    """{function: states in which it may find the member} when an operation of the object begins with the member moved away"""
    inner = {}
    for fid in T.res:
        if p in T.res[fid]:
            for i, kind, x in T.res[fid][p][2]:
                if kind == 'call':
                    for t, q in x[0]:
                        if q == p and t in T.res and p in T.res[t]:
                            inner.setdefault(t, set()).add(fid)
    out = {}
    todo = []
    for fid in sorted(T.res):
        if p in T.res[fid] and not ({c for c, _ in m.callers(fid)} and {c for c, _ in m.callers(fid)} <= inner.get(fid, set())):
            out[fid] = {MOVED}
            todo.append(fid)
    while todo:
        fid = todo.pop()
        f = m.fn[fid]
        for i, kind, x in T.res[fid][p][2]:
            if kind != 'call':
                continue
            ss = {s for s0, s, o in T.before(f, p, i) if s0 in out[fid]}
            for t, q in x[0]:
                if q == p and t in T.res and p in T.res[t] and not ss <= out.get(t, set()):
                    out[t] = out.get(t, set()) | ss
                    todo.append(t)
    return out


def lvalue(f, p):
    """what happens to it is the caller's business beyond the caller's own std::move"""
    r = Typestate.rootvar(p)
    for x in f.params:
        if str(x['d']) == r:
            t = x['t'].rstrip()
            return t.endswith(('&', '*')) and not t.endswith('&&') or '.*' in p and not t.endswith('&&')
    return True


def container(m, S, f, x):
    """path of the long-lived collection that x is part of (member, global or reference parameter)"""
    seen = 0
    while seen < 20:
        seen += 1
        x = flow.strip(f, x)
        n = f.n(x)
        k = n['k']
        if k == 'Mem':
            x = n['c'][0]
            continue
        if k == 'OpCall' and n['op'] in ('*', '->') and len(n['c']) == 1:
            x = n['c'][0]
            continue
        if k == 'OpCall' and n['op'] == '[]' or k == 'MCall' and f.callee(x) and f.callee(x)['n'] in ('find', 'begin', 'end', 'front', 'back', 'at', 'lower_bound', 'upper_bound') and not f.callee(x).get('src'):
            o = n['c'][0] if k == 'OpCall' else f.obj(x)
            return longlived(m, S, f, o)
        if k in ('Cond', 'Tern'):
            x = n['c'][1]
            continue
        if k == 'Ctor' and len(f.args(x)) == 1:
            x = f.args(x)[0]
            continue
        if k == 'Ref':
            for i in f.all():
                if f.n(i)['k'] == 'RFor' and n.get('d') is not None:
                    if f.n(i).get('var') == n['d']:
                        if not f.n(i)['vt'].rstrip().endswith('&'):
                            return None
                        return longlived(m, S, f, f.n(i)['range'])
            i = flow.init_of(f, n.get('d'))
            if i is None:
                return None
            x = i
            continue
        return None
    return None


def longlived(m, S, f, o):
    p = S.path(f, o)
    if p is None:
        return None
    if p.startswith(('this.', 'g')):
        return p
    r = Typestate.rootvar(p)
    for x in f.params:
        if str(x['d']) == r and x['t'].rstrip().endswith('&') and not x['t'].rstrip().endswith('&&'):
            return p
    return None


def short(p):
    return re.sub(r'@\d+:\d+(#\d+)?', '', p).replace('utymap::', '')[-60:]
