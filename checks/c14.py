"""Native handles and memory: released exactly once on every way out, exceptions included."""
import re
from collections import defaultdict
from guards import Guards
from throws import Throws
from typestate import Typestate
import flow

LEVEL = 'other'
# acquiring function -> (what is acquired, releasing functions)
RET = {
    'SHPOpen': ('SHPClose',), 'SHPOpenLL': ('SHPClose',), 'SHPCreate': ('SHPClose',), 'SHPCreateLL': ('SHPClose',),
    'DBFOpen': ('DBFClose',), 'DBFOpenLL': ('DBFClose',), 'DBFCreate': ('DBFClose',), 'DBFCreateEx': ('DBFClose',),
    'SHPReadObject': ('SHPDestroyObject',), 'SHPCreateObject': ('SHPDestroyObject',), 'SHPCreateSimpleObject': ('SHPDestroyObject',),
    'SHPCreateTree': ('SHPDestroyTree',),
    'malloc': ('free', 'realloc', 'trifree'), 'calloc': ('free', 'realloc', 'trifree'), 'realloc': ('free', 'realloc', 'trifree'), 'strdup': ('free',), 'trimalloc': ('trifree', 'free'),
    'fopen': ('fclose',), 'fdopen': ('fclose',), 'tmpfile': ('fclose',), 'popen': ('pclose',), 'gzopen': ('gzclose',), 'opendir': ('closedir',), 'dlopen': ('dlclose',),
}
# functions initialising state behind their first argument: successful when they return zero
STATE = {'inflateInit_': ('inflateEnd',), 'inflateInit2_': ('inflateEnd',), 'deflateInit_': ('deflateEnd',), 'deflateInit2_': ('deflateEnd',)}
RELEASE = sorted({r for v in list(RET.values()) + list(STATE.values()) for r in v})
SMART = ('std::unique_ptr', 'std::shared_ptr')
N, H, G, g_, R, RG = 'nothing', 'held', 'guarded', 'guard waiting', 'released', 'released by guard'


def cname(f, i):
    d = f.callee(i)
    return d['n'] if d and f.n(i)['k'] == 'Call' and not d.get('cls') else None


class Res:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.T = Throws(m)
        self.acqfn = {}       # in-repository functions that return something acquired
        self.lifted = {}       # helpers that acquire into an object of their caller
        self.relmemo = {}
        self.cand = [f for f in m.fn.values() if f.rawcfg is not None]

    # ------------------------------------------------------------------ releases
    def releases(self, f, i):
        """[(path, release function)] of node i, in-repository helpers included"""
        n = f.n(i)
        k = n['k']
        m, S = self.m, self.S
        if k == 'Call':
            c = cname(f, i)
            if c in RELEASE and f.args(i):
                p = self.argpath(f, f.args(i)[0], c)
                return [(p, c)] if p else []
        if k == 'Delete':
            p = S.path(f, n['c'][0])
            return [(p, 'delete')] if p else []
        out = []
        if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
            ts = sorted(m.targets(f, i))
            per = []
            for t in ts:
                g = m.fn[t]
                s = self.must_release(t)
                if not s:
                    return []
                b = S.binding(f, i, g)
                x = set()
                for p, c in s:
                    q = S.subst(p, b, g)
                    if q is not None:
                        x.add((q, c))
                per.append(x)
            if per:
                out = sorted(set.intersection(*per))
        return out

    def argpath(self, f, a, fn):
        p = self.S.path(f, a)
        if p is None:
            return None
        if any(fn in v for v in STATE.values()):
            p = self.S.deref(p)
        return p

    def must_release(self, fid):
        """releases every normal way through the function performs, on paths of its caller"""
        if fid not in self.relmemo:
            self.relmemo[fid] = ()
            f = self.m.fn[fid]
            if f.rawcfg is None:
                return ()
            pts = defaultdict(set)
            for i in f.all():
                if f.n(i)['k'] in ('Call', 'Delete', 'MCall', 'OpCall', 'Ctor'):
                    for r in self.releases(f, i):
                        pts[r].add(f.cfg.point(i))
            out = []
            for (p, c), ps in sorted(pts.items()):
                r = Typestate.rootvar(p)
                if r and not any(str(x['d']) == r for x in f.params) and not f.isLambda:
                    continue
                ok = set()
                for lab_p in flow.edges(self.S, f, lambda ff, facts, a, pol, p=p: ('==', p, '#0') in facts or ('==', '#0', p) in facts or ('f', p, '') in facts):
                    ok.add(lab_p)
                if flow.must_hit(f, f.cfg.entry, ps, ok):
                    out.append((p, c))
            self.relmemo[fid] = tuple(out)
        return self.relmemo[fid]

    # ------------------------------------------------------------------ guards
    def guards(self, f, i):
        """[(path or prefix, release function)] a local declared at i will release when it goes out of scope"""
        n = f.n(i)
        out = []
        if n['k'] != 'Decl':
            return out
        for v in n['vars']:
            t = v['t'].strip()
            if t.endswith(('&', '*')):
                continue
            ini = v.get('i')
            if ini is None or ini < 0:
                continue
            out += self.owner(f, ini, t)
        return out

    def owner(self, f, ini, t):
        m, S = self.m, self.S
        c = ini
        while f.n(c)['k'] in ('Cast', 'Paren', 'Clean', 'Mat') or f.n(c)['k'] == 'Ctor' and (f.callee(c) or {}).get('move') and len(f.args(c)) == 1:
            nx = f.n(c).get('c', []) if f.n(c)['k'] != 'Ctor' else f.args(c)
            if not nx:
                break
            c = nx[0]
        n = f.n(c)
        out = []
        if n['k'] not in ('Ctor', 'InitList', 'Call'):
            return out
        tm = m.tmpl(t)
        args = f.args(c)
        if tm in SMART:
            if not args:
                return out
            p = S.path(f, args[0])
            a0 = flow.strip(f, args[0])
            if f.n(a0)['k'] == 'New':
                for j in f.n(a0).get('c', []):
                    if f.n(flow.strip(f, j))['k'] in ('Ctor', 'InitList'):
                        out += self.owner(f, j, f.n(a0)['nt'])
                return out
            if f.n(c)['k'] == 'Call' or p is None:
                return out
            rel = self.deleter(f, args[1] if len(args) > 1 else None, t)
            for r in rel:
                out.append((p, r))
            return out
        # a class of the program whose destructor releases
        r = m.rec(t)
        for d in m.fn.values():
            if d.kind == 'dtor' and d.decl.get('cls') == r and n['k'] == 'InitList':
                fb = {}
                for x, a in zip(m.fields(r), n.get('c', [])):
                    q = S.path(f, a)
                    if q is not None:
                        fb['this.' + str(x['id'])] = q
                for p, rel in self.must_release(d.id):
                    for fp, q in fb.items():
                        if p == fp or p.startswith(fp) and p[len(fp)] in '.[':
                            rest = p[len(fp):]
                            out.append((q[1:] + rest[2:] if q.startswith('&') and rest.startswith('.*') else q + rest, rel))
                continue
            if d.kind == 'dtor' and d.decl.get('cls') == r and n['k'] == 'Ctor':
                ct = m.fn.get(n.get('f'))
                if ct is None:
                    continue
                b = S.binding(f, c, ct)
                fb = {}
                for x in ct.inits:
                    if x.get('field') and x.get('i', -1) is not None and x['i'] >= 0:
                        q = S.path(ct, x['i'])
                        if q is None:
                            e = flow.strip(ct, x['i'])
                            while ct.n(e)['k'] in ('Ctor', 'InitList') and len(ct.n(e).get('c', [])) == 1:
                                e = flow.strip(ct, ct.n(e)['c'][0])
                            q = S.path(ct, e)
                        if q is not None:
                            q = S.subst(q, b, ct)
                        if q is not None:
                            fb['this.' + str(x['field'])] = q
                for p, rel in self.must_release(d.id):
                    for fp, q in fb.items():
                        if p == fp or p.startswith(fp) and p[len(fp)] in '.[':
                            rest = p[len(fp):]
                            if q.startswith('&') and rest.startswith('.*'):
                                q2 = q[1:] + rest[2:]
                            else:
                                q2 = q + rest
                            out.append((q2, rel))
                # destructors that call a function they were given
                if any(d.n(j)['k'] == 'OpCall' and d.n(j)['op'] == '()' for j in d.all()):
                    for a in args:
                        for j in f.walk(a):
                            if f.n(j)['k'] == 'Lambda' and f.n(j).get('f') in m.fn:
                                out += list(self.must_release(f.n(j)['f']))
        return out

    def deleter(self, f, a, t):
        m = self.m
        if a is None:
            ta = m.targs(t)
            if m.tmpl(t) == 'std::unique_ptr' and len(ta) > 1 and 'default_delete' not in ta[1]:
                r = m.rec(ta[1]) or ta[1]
                out = []
                for g in m.fn.values():
                    if g.decl.get('cls') == r and g.name == 'operator()':
                        out += [c for p, c in self.must_release(g.id)]
                if 'decltype' in ta[1] or '(*)' in ta[1] or '(&' in ta[1]:
                    return ['?']
                return out
            return ['delete']
        out = []
        for j in f.walk(a):
            n = f.n(j)
            if n['k'] == 'Ref' and n.get('dk') == 'func':
                d = m.decls.get(n.get('f') or n.get('d')) or {}
                if d.get('n') in RELEASE:
                    out.append(d['n'])
                elif (n.get('f') or n.get('d')) in m.fn:
                    out += [c for p, c in self.must_release(n.get('f') or n.get('d'))]
            if n['k'] == 'Lambda' and n.get('f') in m.fn:
                out += [c for p, c in self.must_release(n['f'])]
            if n['k'] == 'Ctor' and not out:
                r = m.rec(n.get('t', ''))
                for g in m.fn.values():
                    if r and g.decl.get('cls') == r and g.name == 'operator()':
                        out += [c for p, c in self.must_release(g.id)]
        return out

    # ------------------------------------------------------------------ acquisitions
    def target(self, f, i):
        """where the value of node i goes: ('var', path) | ('own', node) | ('return',) | ('lost',)"""
        par = f.parent
        c = i
        p = par.get(c) if isinstance(par, dict) else par[c]
        while p is not None and p >= 0:
            n = f.n(p)
            k = n['k']
            if k in ('Cast', 'Paren', 'Clean', 'Mat'):
                c, p = p, par.get(p) if isinstance(par, dict) else par[p]
                continue
            if k == 'Decl':
                for v in n['vars']:
                    if v.get('i') == c:
                        if self.m.tmpl(v['t']) in SMART:
                            return ('own', p)
                        return ('var', 'v' + str(v['d']), p)
                return ('lost',)
            if flow.assign(f, p) is not None:
                t = self.S.path(f, flow.assign(f, p))
                return ('var', t, p) if t else ('own', p)
            if k == 'Return':
                return ('return',)
            if k == 'Ctor' and (self.m.tmpl(f.typ(p)) in SMART):
                return ('own', p)
            if k == 'MCall' and f.callee(p) and f.callee(p)['n'] in ('reset',):
                return ('own', p)
            if k in ('Call', 'MCall', 'Ctor', 'OpCall', 'InitList'):
                return ('passed', p)
            if k == 'Bin' and n['op'] in ('==', '!=', '&&', '||') or k in ('Un', 'If', 'While', 'Cond'):
                return ('lost',)
            return ('lost',)
        for x in f.inits:
            if x.get('field') and x.get('i') == c:
                return ('var', 'this.' + str(x['field']), i)
        return ('lost',)

    def acquisitions(self, f, i):
        """[(kind, releases, path, node)]: kind 'ret' or 'state'"""
        n = f.n(i)
        k = n['k']
        if k == 'Call':
            c = cname(f, i)
            if c in RET and not (f.callee(i) or {}).get('src'):
                return [('ret', RET[c], None, i)]
            if c in STATE and f.args(i):
                p = self.S.path(f, f.args(i)[0])
                return [('state', STATE[c], self.S.deref(p), i)] if p else []
            if c == 'triangulate' and len(f.args(i)) > 2:
                p = self.S.path(f, f.args(i)[2])
                if not p or p == '#0':
                    return []
                p = self.S.deref(p)
                return [('out', ('free', 'trifree'), p + '.' + x, i) for x in self.outputs(f, i)]
        if k == 'New' and not n.get('place'):
            return [('ret', ('delete',), None, i)]
        if k in ('Call', 'MCall') and n.get('f') in self.acqfn:
            return [('ret', self.acqfn[n['f']], None, i)]
        if k in ('Call', 'MCall') and n.get('f') in self.lifted:
            g = self.m.fn[n['f']]
            b = self.S.binding(f, i, g)
            out = []
            for kind, rel, p, sw in self.lifted[g.id]:
                q = self.S.subst(p, b, g)
                if q is None:
                    continue
                if sw is not None:
                    out += [(kind, rel, q + '.' + x, i) for x in self.outputs(f, i, f.args(i)[sw] if sw >= 0 else None)]
                else:
                    out.append((kind, rel, q, i))
            return out
        return []

    def lift(self, f):
        """what a helper acquires into an object of its caller, which it does not release itself"""
        out = []
        for i in f.all():
            for kind, rel, p, j in self.acquisitions(f, i):
                if kind not in ('state', 'out'):
                    continue
                mo = re.match(r'^[&(*]*v([A-Za-z_]\w*@\d+:\d+(?:#\d+)?)', p)
                x = next((x for x in f.params if mo and str(x['d']) == mo.group(1)), None)
                if x is None or not x['t'].rstrip().endswith(('&', '*')) or not self.m.callers(f.id):
                    continue
                if any(q == p for k in f.all() if f.n(k)['k'] in ('Call', 'Delete', 'MCall', 'OpCall') for q, c in self.releases(f, k) or ()) or any(q == p for k in f.all() for q, c in self.guards(f, k)):
                    continue
                sw = None
                if kind == 'out':
                    p, fl = p.rsplit('.triangulateio::', 1)
                    sw = -1
                    a = f.args(i)[0] if cname(f, i) == 'triangulate' else None
                    for z in f.walk(a) if a is not None else ():
                        if f.n(z)['k'] == 'Ref' and f.n(z).get('dk') == 'param':
                            sw = next((j for j, y in enumerate(f.params) if y['d'] == f.n(z)['d']), -1)
                if (kind, rel, p, sw) not in out:
                    out.append((kind, rel, p, sw))
        return out

    def outputs(self, f, i, a=None):
        """what triangulate allocates, from the switches that may reach the call"""
        if a is None:
            a = f.args(i)[0]
        lits = []
        for j in f.walk(a):
            n = f.n(j)
            if n['k'] == 'Str':
                lits.append(n['v'])
            if n['k'] == 'Ref' and n.get('dk') in ('local', 'param'):
                for q in f.all():
                    x = f.n(q)
                    if x['k'] == 'Decl' and any(v['d'] == n['d'] for v in x['vars']) or flow.assign(f, q) is not None and any(f.n(z).get('d') == n['d'] for z in f.walk(flow.assign(f, q))):
                        lits += [f.n(z)['v'] for z in f.walk(q) if f.n(z)['k'] == 'Str']
        sw = ''.join(x.strip('"') for x in lits)
        out = ['pointlist', 'trianglelist']
        if 'B' not in sw and sw:
            out.append('pointmarkerlist')
        if sw and 'p' in sw and 'P' not in sw:
            out.append('segmentlist')
            if 'B' not in sw:
                out.append('segmentmarkerlist')
        if 'n' in sw:
            out.append('neighborlist')
        return ['triangulateio::' + x for x in out]


def check(ctx):
    m = ctx.m
    S = Guards(m)
    A = Res(m, S)
    ctx.rule('typestate with exceptional edges: what an acquiring function of the table returns or initialises is released by its own releasing function exactly once on every way out')
    ctx.rule('owners count: smart pointers with a matching deleter, classes whose destructor releases, members released by the destructor, values returned to the caller')
    ctx.assumptions.append('acquire and release functions: ' + ', '.join('%s/%s' % (k, '|'.join(v)) for k, v in sorted({**RET, **STATE}.items())) + ', new/delete, outputs of triangulate/free')
    # functions that hand out what they acquired
    changed = True
    while changed:
        changed = False
        for f in A.cand:
            if f.id in A.acqfn:
                continue
            for i in f.all():
                for kind, rel, p, j in A.acquisitions(f, i):
                    if kind != 'ret':
                        continue
                    t = A.target(f, i)
                    if t[0] == 'return' and m.pointee(f.decl.get('ret', '')) and m.tmpl(f.decl.get('ret', '')) not in SMART:
                        A.acqfn[f.id] = rel
                        changed = True
                    elif t[0] == 'var' and t[1].startswith('v') and any(f.n(q)['k'] == 'Return' and f.n(q).get('c') and S.path(f, f.n(q)['c'][0]) == t[1] for q in f.all()) and m.tmpl(f.decl.get('ret', '')) not in SMART:
                        A.acqfn[f.id] = rel
                        changed = True
    changed = True
    rounds = 0
    while changed and rounds < 5:
        changed = False
        rounds += 1
        for f in m.fn.values():
            if f.rawcfg is None or f.isLambda:
                continue
            L = A.lift(f)
            if L and L != A.lifted.get(f.id):
                A.lifted[f.id] = L
                changed = True
    for f in sorted(A.cand, key=lambda f: f.id):
        acq = []
        for i in f.all():
            acq += A.acquisitions(f, i)
        if f.id in A.lifted:
            # the caller's business
            ps = {p for _, _, p, _ in A.lifted[f.id]}
            ctx.count('acquisitions on behalf of callers', len(acq))
            acq = [x for x in acq if x[2] is None or not any(x[2] == p or x[2].startswith(p + '.') for p in ps)]
        rels = {}
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'Delete', 'MCall', 'OpCall'):
                r = A.releases(f, i)
                if r:
                    rels[i] = r
        if not acq and not rels:
            continue
        analyse(ctx, m, S, A, f, acq, rels)
    ctx.require('acquisitions', 6)


def analyse(ctx, m, S, A, f, acq, rels):
    ctx.count('functions that acquire or release')
    cfg = f.cfg
    paths = {}
    for kind, rel, p, i in acq:
        ctx.count('acquisitions')
        at = i
        if kind == 'ret':
            t = A.target(f, i)
            if t[0] == 'var':
                p, at = t[1], t[2]
            elif t[0] == 'own':
                # owned at once: by a matching owner?
                o = f.n(t[1])
                if rel != ('delete',) and not own_ok(m, A, f, t[1], i, rel):
                    ctx.violation('owner:%s:%s' % (f.qn, f.expr(i)[:60]), f.loc(i), 'is given to an owner that does not release it with %s' % '/'.join(rel))
                continue
            elif t[0] == 'return':
                continue
            elif t[0] == 'passed':
                if rel == ('delete',) or released_by_callee(m, S, A, f, t[1], i):
                    continue
                ctx.violation('lost:%s:%s' % (f.qn, f.expr(i)[:60]), f.loc(i), 'what is acquired here is never released')
                continue
            else:
                ctx.violation('lost:%s:%s' % (f.qn, f.expr(i)[:60]), f.loc(i), 'what is acquired here is never released')
                continue
        if p is None:
            continue
        paths.setdefault(p, []).append((at, i, rel, kind))
    for i, L in rels.items():
        for p, c in L:
            paths.setdefault(p, [])
    gs = []
    for i in f.all():
        for p, c in A.guards(f, i):
            gs.append((i, p, c))
    # storing in a smart pointer that exists already
    for p in sorted(paths):
        rel = sorted({r for at, i, rr, kind in paths[p] for r in rr})
        one(ctx, m, S, A, f, p, paths[p], rels, gs, rel)


def own_ok(m, A, f, at, i, rel):
    n = f.n(at)
    if n['k'] == 'Decl':
        for v in n['vars']:
            if v.get('i') is not None and v['i'] >= 0 and i in set(f.walk(v['i'])):
                c = flow.strip(f, v['i'])
                args = f.args(c) if f.n(c)['k'] in ('Ctor', 'InitList') else []
                d = A.deleter(f, args[1] if len(args) > 1 else None, v['t'])
                return any(x in rel or x == '?' for x in d)
        return False
    if n['k'] == 'Ctor':
        args = f.args(at)
        d = A.deleter(f, args[1] if len(args) > 1 else None, f.typ(at))
        return any(x in rel or x == '?' for x in d)
    if n['k'] == 'MCall':
        d = A.deleter(f, f.args(at)[1] if len(f.args(at)) > 1 else None, f.typ(f.obj(at)))
        return any(x in rel or x == '?' for x in d) or m.tmpl(f.typ(f.obj(at))) == 'std::unique_ptr' and len(m.targs(f.typ(f.obj(at)))) > 1
    return True


def released_by_callee(m, S, A, f, call, i):
    for t in m.targets(f, call):
        g = m.fn[t]
        for j, p in enumerate(g.params):
            if j < len(f.args(call)) and i in set(f.walk(f.args(call)[j])):
                return any(q == 'v' + str(p['d']) for q, c in A.must_release(t))
    return False


def resultof(S, f, x):
    x = flow.strip(f, x)
    while f.n(x)['k'] == 'Ref':
        q = flow.init_of(f, f.n(x).get('d'))
        if q is None:
            break
        x = flow.strip(f, q)
    return x


def one(ctx, m, S, A, f, p, acq, rels, gs, rel):
    cfg = f.cfg
    glob = p.startswith('g') and not p.startswith('(')
    member = p.startswith('this.')
    at = defaultdict(list)
    for a, i, rr, kind in acq:
        at[cfg.point(a)].append((order(f, a), 'acq', a, i, f.n(a)['k'] == 'Decl', kind))
    for i, L in rels.items():
        for q, c in L:
            if q == p and (not rel or c in rel):
                at[cfg.point(i)].append((order(f, i), 'rel', i, i, c, None))
            elif q == p and rel and c not in rel:
                ctx.violation('mismatch:%s:%s' % (f.qn, short(p)), f.loc(i), 'releases with %s what needs %s' % (c, '/'.join(rel)))
                at[cfg.point(i)].append((order(f, i), 'rel', i, i, c, None))
    for i, q, c in gs:
        if q == p:
            if rel and c not in rel and c != '?':
                ctx.violation('mismatch:%s:%s' % (f.qn, short(p)), f.loc(i), 'an owner releases with %s what needs %s' % (c, '/'.join(rel)))
            at[cfg.point(i)].append((order(f, i), 'guard', i, i, c, None))
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Return' and n.get('c') and S.path(f, n['c'][0]) == p:
            at[cfg.point(i)].append((order(f, i), 'give', i, i, None, None))
        a = flow.assign(f, i)
        if a is not None and S.path(f, a) == p and not any(x[2] == i for x in at[cfg.point(i)]):
            v = S.path(f, n['c'][1]) if len(n['c']) > 1 else None
            at[cfg.point(i)].append((order(f, i), 'set', i, i, v, None))
        elif a is not None and len(n['c']) > 1 and S.path(f, n['c'][1]) == p and S.path(f, a) not in (None, p) and (S.path(f, a) or '').startswith(('this.', 'g')):
            at[cfg.point(i)].append((order(f, i), 'give', i, i, None, None))
        if n['k'] in ('Ctor', 'MCall') and (n['k'] == 'Ctor' and m.tmpl(f.typ(i)) in SMART or n['k'] == 'MCall' and f.callee(i) and f.callee(i)['n'] == 'reset') and f.args(i) and S.path(f, f.args(i)[0]) == p:
            d = A.deleter(f, f.args(i)[1] if len(f.args(i)) > 1 else None, f.typ(i) if n['k'] == 'Ctor' else f.typ(f.obj(i)))
            if n['k'] == 'Ctor' and rel and not any(x in rel or x == '?' for x in d):
                continue
            if not any(x[1] == 'guard' and i in set(f.walk(x[2])) for L in at.values() for x in L):
                at[cfg.point(i)].append((order(f, i), 'give', i, i, None, None))
    ctx.count('tracked resources')
    for i, L in rels.items():
        ctx.count('releases', sum(1 for q, c in L if q == p))
    errs = {}

    def act(s, ev):
        _, kind, node, i, x, ak = ev
        if kind == 'acq':
            if s == H and not glob:
                errs.setdefault('leak', (node, 'acquired again while the previous one is still held'))
            if s == G and not x and ak != 'out':
                return H
            if s in (g_, RG):
                return G
            return H if not (s == G and ak == 'out') else G
        if kind == 'rel':
            if s in (G, RG, g_) and s == G:
                errs.setdefault('double', (node, 'is released here and again by its owner'))
                return RG
            if s in (R, RG):
                errs.setdefault('double', (node, 'is released twice'))
            return R if s != g_ else g_
        if kind == 'guard':
            if s == R:
                errs.setdefault('double', (node, 'is released twice: an owner is created after the release'))
            if s == G:
                errs.setdefault('double', (node, 'has two owners'))
            return {H: G, N: g_, R: RG}.get(s, s)
        if kind == 'give':
            return N if s == H else s
        if kind == 'set':
            if s == H and x != '#0':
                errs.setdefault('leak', (node, 'is overwritten while it is held'))
            if s == H and x == '#0':
                errs.setdefault('leak', (node, 'is forgotten while it is held'))
            return {R: N, RG: g_}.get(s, s)
        return s

    def trans(pt, s):
        for ev in sorted(at.get(pt, ()), key=lambda e: e[:4]):
            s = frozenset(act(x, ev) for x in s)
        return s

    def edge(a, b, lab, s):
        if lab and lab[0] != 'case' and len(lab) == 2 and f.n(lab[0])['k'] != 'RFor':
            facts = S.cond(f, lab[0], lab[1])
            if ('==', p, '#0') in facts or ('==', '#0', p) in facts or ('f', p, '') in facts:
                s = frozenset({N} if x in (N, H, R) else x for x in s) if False else frozenset(N if x in (N, H, R) else x for x in s)
            # result of an initialisation
            at2, pol = flow.normal(S, f, lab[0], lab[1])
            n = f.n(at2)
            for kind, node in [(k, i) for a2, i, rr, k in acq if k == 'state']:
                ok = None
                if n['k'] == 'Bin' and n['op'] in ('==', '!='):
                    for x, y in (n['c'], n['c'][::-1]):
                        if resultof(S, f, x) == node and S.path(f, y) == '#0':
                            ok = (n['op'] == '==') == pol
                elif resultof(S, f, at2) == node:
                    ok = not pol
                if ok is False:
                    s = frozenset(N if x == H else x for x in s)
            if not s:
                return None
        return s
    # handlers see the states of what may throw inside of their try block
    hin = {h: frozenset() for h in set(cfg.handlers.values())}
    init = frozenset({N})
    raising = None
    for rnd in range(4):
        IN, OUT = cfg.forward(init, lambda pt, x, s: trans(pt, s), lambda a, b: a | b, edge, handler_init={h: s or frozenset({N}) for h, s in hin.items()})
        if raising is None:
            raising = [(i, ts) for i in f.all() if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'Throw') for ts in [A.T.node_throws(f, i)] if ts]
        new = dict(hin)
        for i, ts in raising:
            pt = cfg.point(i)
            if pt not in IN:
                continue
            s = before(f, at, pt, i, IN, act)
            for t in sorted(ts):
                c = A.T.escaping(f, i, t)
                if c is not None and c in cfg.handlers:
                    h = cfg.handlers[c]
                    new[h] = new.get(h, frozenset()) | s
        if new == hin:
            break
        hin = new
    errs.clear()
    for pt in IN:
        trans(pt, IN[pt])
    for e, (node, msg) in sorted(errs.items()):
        ctx.violation('%s:%s:%s' % (e, f.qn, short(p)), f.loc(node), '%s %s' % (name(f, p), msg))
    if glob:
        # a deleted global must not keep pointing there
        if R in IN.get(cfg.exit, ()):
            for i, L in rels.items():
                if any(q == p for q, c in L):
                    ctx.violation('dangling:%s:%s' % (f.qn, short(p)), f.loc(i), '%s still refers to what was released here: it is used or released again later' % name(f, p))
        return
    if member:
        return member_ok(ctx, m, S, A, f, p, acq, IN)
    if not acq:
        return
    first = acq[0][0]
    if H in IN.get(cfg.exit, ()):
        ctx.violation('leak:%s:%s' % (f.qn, short(p)), f.loc(first), '%s is not released on every way out' % name(f, p))
    for i, ts in raising:
        pt = cfg.point(i)
        if pt not in IN or any(i == x[3] or i == x[2] for L in at.values() for x in L if x[1] in ('acq', 'rel')):
            continue
        if H in before(f, at, pt, i, IN, act):
            for t in sorted(ts):
                if A.T.escaping(f, i, t) is None:
                    tr = []
                    for tg in sorted(m.targets(f, i)):
                        if t in A.T.out.get(tg, {}):
                            tr = A.T.trace(tg, t)
                            break
                    ctx.violation('exception:%s:%s' % (f.qn, short(p)), f.loc(i), '%s is not released when %s leaves here' % (name(f, p), t), tr)
                    break


def before(f, at, pt, i, IN, act):
    s = IN[pt]
    k = order(f, i)
    for ev in sorted(at.get(pt, ()), key=lambda e: e[:4]):
        if ev[0] < k:
            s = frozenset(act(x, ev) for x in s)
    return s


def member_ok(ctx, m, S, A, f, p, acq, IN):
    if not acq or H not in IN.get(f.cfg.exit, ()):
        return
    cls = f.cls
    for d in m.fn.values():
        if d.kind == 'dtor' and d.decl.get('cls') == cls and any(q == p for q, c in A.must_release(d.id)):
            ctx.count('members released by their destructor')
            return
    ctx.violation('member:%s:%s' % (f.qn, short(p)), f.loc(acq[0][0]), 'a member holds what is acquired here but its destructor does not release it')


def order(f, i):
    return (-len(list(f.ancestors(i))), i)


def name(f, p):
    return re.sub(r'@\d+:\d+(#\d+)?', '', p).split('::')[-1].lstrip('v') or 'it'


def short(p):
    return re.sub(r'@\d+:\d+(#\d+)?', '', p).replace('utymap::', '')[-60:]
