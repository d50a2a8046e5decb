"""The mesh pool: meshes are cleared before they are handed out again, leave the pool when taken, and are not touched after being given back."""
import re
from guards import Guards
from typestate import Typestate
from facts import AnalysisBroken
import c33
import flow

LEVEL = 'other'
MESH = re.compile(r'^(const )?utymap::math::Mesh$')
ARRAY = re.compile(r'^std::(vector|basic_string|deque|list|map|set|unordered_\w+|array)\b')
INS = ('emplace', 'insert', 'emplace_hint', 'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'try_emplace', 'insert_or_assign')


class Pool:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.memo = {}

    def clears(self, f, i, path):
        """does node i empty the collection at path"""
        n = f.n(i)
        k = n['k']
        m, S = self.m, self.S
        if k == 'MCall':
            d = f.callee(i)
            if d and not d.get('src') and d['n'] in ('clear',) and f.obj(i) is not None and self.opath(f, i) == path:
                return True
            if d and not d.get('src') and d['n'] in ('resize',) and f.args(i) and S.path(f, f.args(i)[0]) == '#0' and self.opath(f, i) == path:
                return True
            if d and not d.get('src') and d['n'] == 'erase' and self.opath(f, i) == path and len(f.args(i)) == 2:
                a = [S.path(f, x) for x in f.args(i)]
                if a == [path + '.begin()', path + '.end()']:
                    return True
        a = flow.assign(f, i)
        if a is not None and S.path(f, a) == path:
            r = flow.strip(f, n['c'][1])
            while f.n(r)['k'] in ('Ctor', 'InitList') and len([x for x in f.n(r).get('c', []) if x >= 0 and f.n(x)['k'] != 'DefArg']) == 1:
                r = flow.strip(f, f.n(r)['c'][0])
            return f.n(r)['k'] in ('Ctor', 'InitList') and not [x for x in f.args(r) if f.n(x)['k'] != 'DefArg']
        if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
            ts = sorted(m.targets(f, i))
            if not ts:
                return False
            for t in ts:
                g = m.fn[t]
                b = S.binding(f, i, g)
                ok = False
                cand = [(kk if kk == 'this' else 'v' + str(kk), vv) for kk, vv in b.items()]
                for name, v in cand:
                    if path == v or path.startswith(v) and path[len(v)] in '.[':
                        ok = ok or self.must(t, name + path[len(v):])
                if g.isLambda and self.must(t, path):
                    ok = True
                if not ok:
                    return False
            return True
        return False

    def opath(self, f, i):
        o = self.S.path(f, f.obj(i))
        n = f.n(i)
        if o is not None and n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not self.S.arrowop(f, f.obj(i)):
            o = self.S.deref(o)
        return o

    def points(self, f, path):
        return {f.cfg.point(i) for i in f.all() if f.n(i)['k'] in ('MCall', 'Call', 'OpCall', 'Ctor', 'Bin') and self.clears(f, i, path)}

    def must(self, fid, path):
        key = (fid, path)
        if key not in self.memo:
            self.memo[key] = False
            f = self.m.fn.get(fid)
            if f is not None and f.rawcfg is not None:
                self.memo[key] = flow.must_hit(f, f.cfg.entry, self.points(f, path))
        return self.memo[key]

    def before(self, f, i, path, depth=0):
        """every way to node i empties path"""
        g = f.cfg
        t = g.point(i)
        pts = self.points(f, path)
        if pts and all(t not in g.reach(r, avoid=pts) and t != r for r in flow.roots(f)):
            return True
        cs = self.m.callers(f.id)
        r = Typestate.rootvar(path)
        if depth > 4 or not cs or r is None or not any(str(p['d']) == r for p in f.params):
            return False
        for c, ci in cs:
            h = self.m.fn[c]
            if h.rawcfg is None:
                return False
            q = self.S.subst(path, self.S.binding(h, ci, f), f)
            if q is None or not self.before(h, ci, q, depth + 1):
                return False
        return True


def check(ctx):
    m = ctx.m
    S = Guards(m)
    P = Pool(m, S)
    ctx.rule('every collection inside a mesh is emptied on all ways to putting it into the pool, or on all ways from taking it out to handing it out')
    ctx.rule('the pool hands meshes out by value and a mesh taken out leaves the pool')
    ctx.rule('typestate: a mesh given away is neither read nor given away again, directly, through helpers or through objects that refer to it')
    mesh = m.record('utymap::math::Mesh')
    arrays = [x for x in m.fields(mesh) if ARRAY.match(m.noref(x['t'])) and 'basic_string' not in x['t']]
    ctx.count('collections of a mesh', len(arrays))
    pools = {}
    for r in sorted(m.records):
        for x in m.fields(r):
            t = m.noref(x['t'])
            if ARRAY.match(t) and re.search(r'[<, ]utymap::math::Mesh\s*[,>]', t) and 'shared_ptr' not in t and 'unique_ptr' not in t:
                if any(f.cls == r and any(re.search(r'math::Mesh &&$', p['t']) for p in f.params) for f in m.fn.values()):
                    pools.setdefault(r, []).append(x)
    ctx.count('pools', len(pools))
    ctx.require('pools', 1)
    ctx.require('collections of a mesh', 4)
    A = c33.Analysis(m, S)
    for r, fields in sorted(pools.items()):
        fs = [f for f in m.fn.values() if f.rawcfg is not None and (f.cls == r or f.encl and f.encl in m.fn and m.fn[f.encl].cls == r)]
        takers = []
        inserts = []
        for f in sorted(fs, key=lambda f: f.id):
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'MCall' and f.callee(i) and not f.callee(i).get('src') and f.callee(i)['n'] in INS and any(S.path(f, f.obj(i)) == 'this.' + str(x['id']) for x in fields):
                    inserts.append((f, i))
                if n['k'] == 'OpCall' and n['op'] == '=' and any((S.path(f, n['c'][0]) or '').startswith('this.' + str(x['id']) + '[') for x in fields):
                    inserts.append((f, i))
            for p, mi, x, q in A.moves.get(f.id, ()):
                c = c33.container(m, S, f, x)
                if c in ['this.' + str(x['id']) for x in fields]:
                    takers.append((f, p, c, x, q))
        ctx.count('meshes put into a pool', len(inserts))
        ctx.count('meshes taken out of a pool', len(takers))
        for f in sorted(fs, key=lambda f: f.id):
            rt = f.decl.get('ret') or ''
            if re.search(r'math::Mesh (&|\*)$', rt):
                ctx.violation('shared:' + f.qn, f.loc(), 'hands out a mesh that stays in the pool')
        for f, i in inserts:
            ps = [S.path(f, x) for _, _, x, q in [t for t in A.moves.get(f.id, ()) if t[0] == i or i in set(f.ancestors(t[1]))]]
            ps = [p for p in ps if p is not None]
            if not ps:
                ctx.count('unnamed meshes put into a pool')
                continue
            for x in arrays:
                ctx.count('collections to be emptied')
                if P.before(f, i, ps[0] + '.' + str(x['id'])):
                    continue
                # taken care of when the mesh is taken out
                if takers and all(after(m, S, P, g, p, x2) for g, p, c, x2, q in takers for x2 in [taken(m, S, g, p, str(x['id']))]):
                    continue
                ctx.violation('notcleared:%s:%s' % (f.qn, x['n']), f.loc(i), 'a mesh is put into the pool with old entries in %s, and nothing empties it before it is handed out again' % x['n'])
        for f, p, c, x, q in takers:
            good = set()
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'MCall' and f.callee(i) and not f.callee(i).get('src') and f.callee(i)['n'] in c33.GONE and S.path(f, f.obj(i)) == c:
                    good.add(f.cfg.point(i))
            if not flow.must_hit(f, f.cfg.point(p), good):
                ctx.violation('stays:' + f.qn, f.loc(p), 'a mesh taken out of the pool stays in it and is handed out again')
    # use after release
    for f in m.fn.values():
        if f.rawcfg is not None:
            for i in f.all():
                if f.n(i)['k'] == 'Mem':
                    A.interesting(f, i)
                    break
    T = c33.Moves(m, S, A.events, c33.delta, c33.OK, maxlen=300, exports=lambda f, p: c33.lvalue(f, p))
    for fid, L in sorted(A.moves.items()):
        f = m.fn[fid]
        for p, mi, x, q in L:
            if MESH.match(m.noref(f.typ(x))):
                ctx.count('meshes given away')
                if q is not None:
                    aliases(ctx, m, S, f, p, q)
    for e, fid, i, p, o in T.errors():
        f = m.fn[fid]
        og = m.fn[o[0]] if o else None
        if not any(MESH.match(A.ctype.get(k, '')) for k in ((fid, p), (o[0], p) if o else (fid, p))) and not ('Mesh' in p and o and meshmove(m, A, o)):
            continue
        ctx.violation('released:%s:%s' % (f.qn, c33.short(p)), f.loc(i), '%s a mesh after it was given away%s' % ('reads or changes' if e == 'read' else 'gives away again', ' at ' + og.loc(o[1]) if o else ''))
    c33.members(ctx, m, A, T, lambda o: meshmove(m, A, o))
    ctx.require('meshes given away', 5)


def meshmove(m, A, o):
    return any(p == o[1] and MESH.match(m.noref(m.fn[o[0]].typ(x))) for p, mi, x, q in A.moves.get(o[0], ()))


def taken(m, S, f, p, field):
    """path of the collection of the variable which takes the mesh"""
    a = p
    par = f.parent
    while a is not None and a >= 0:
        n = f.n(a)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if v.get('i') is not None and v['i'] >= 0 and p in set(f.walk(v['i'])):
                    return 'v' + str(v['d']) + '.' + field
        if flow.assign(f, a) is not None:
            q = S.path(f, flow.assign(f, a))
            return q + '.' + field if q else None
        a = par.get(a) if isinstance(par, dict) else par[a]
    return None


def after(m, S, P, f, p, path):
    if path is None:
        return False
    return flow.must_hit(f, f.cfg.point(p), P.points(f, path))


def aliases(ctx, m, S, f, p, q):
    """local objects that keep a reference to the mesh: not used once it was given away"""
    decl = {}
    for i in f.all():
        n = f.n(i)
        if n['k'] != 'Decl':
            continue
        for v in n['vars']:
            ini = v.get('i')
            if ini is None or ini < 0:
                continue
            r = m.rec(v['t'])
            if not r or not any(re.search(r'math::Mesh\b.*[&*]$', x['t']) for x in m.fields(r)):
                continue
            if any(f.n(j)['k'] in ('Ref', 'Mem', 'OpCall', 'Un') and S.path(f, j) == q for j in f.walk(ini)):
                decl[v['d']] = i
    if not decl:
        return
    ctx.count('objects referring to a mesh given away', len(decl))
    for d, di in sorted(decl.items()):
        reach = f.cfg.reach(f.cfg.point(p), avoid={f.cfg.point(di)})
        for i in f.all():
            if f.n(i)['k'] == 'Ref' and f.n(i).get('d') == d and f.cfg.point(i) in reach:
                ctx.violation('alias:%s' % f.qn, f.loc(i), 'uses an object that refers to a mesh already given away')
                break
