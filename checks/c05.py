"""Caching sessions: completion marker only after a complete build, every session ended by its owner on every way out."""
import re
from guards import Guards
import flow

LEVEL = 'other'
STREAM = ('basic_fstream', 'basic_ofstream', 'basic_ostream', 'basic_iostream')
INSERT = ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'operator[]')


def holds_stream(m, t, depth=0):
    t = m.noref(t)
    if re.search(r'basic_[io]?fstream', t):
        return True
    if depth > 2 or 'iterator' in t or m.tmpl(t) not in ('std::shared_ptr', 'std::unique_ptr', 'std::pair', 'std::tuple') and t.startswith('std::'):
        return False
    for a in m.targs(t) or []:
        if holds_stream(m, a, depth + 1):
            return True
    r = m.rec(t) or m.recp(t)
    if r and not r.startswith('std::'):
        return any(holds_stream(m, fl['t'], depth + 1) for fl in m.fields(r, inherited=False))
    return False


def session_fields(m):
    out = []
    for q in m.records:
        for fl in m.fields(q, inherited=False):
            if m.tmpl(fl['t']) in ('std::map', 'std::unordered_map') and holds_stream(m, m.targs(fl['t'])[1]):
                out.append((q, fl['id']))
    return out


def fieldof(f, i):
    n = f.n(flow.strip(f, i))
    return n.get('d') if n['k'] == 'Mem' else None


def on_field(f, i, fd, names):
    n = f.n(i)
    if n['k'] == 'MCall' and (f.callee(i) or {}).get('n') in names and not f.callee(i).get('src'):
        return fieldof(f, f.obj(i)) == fd
    if n['k'] == 'OpCall' and n['op'] == '[]' and '[]' in ''.join(names):
        return fieldof(f, n['c'][0]) == fd
    return False


def char_writes(m, S, f):
    """(node, stream expression, constant or None) single characters written to a stream"""
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'OpCall' and n['op'] == '<<' and len(n['c']) == 2 and m.noref(f.typ(n['c'][1])).replace('const ', '') == 'char':
            yield i, n['c'][0], const(S, f, n['c'][1])
        elif n['k'] == 'MCall' and (f.callee(i) or {}).get('n') == 'put' and f.args(i):
            yield i, f.obj(i), const(S, f, f.args(i)[0])
        elif n['k'] == 'MCall' and (f.callee(i) or {}).get('n') == 'write' and f.args(i) and not f.callee(i).get('src'):
            a = flow.strip(f, f.args(i)[0])
            for j in f.walk(a):
                if f.n(j)['k'] == 'Ref' and f.n(j).get('d') and m.noref(f.typ(j)).replace('const ', '') == 'char':
                    k = flow.init_of(f, f.n(j)['d'])
                    yield i, f.obj(i), const(S, f, k) if k is not None else None


def const(S, f, i):
    q = S.path(f, i)
    if q is None and f.n(flow.strip(f, i)).get('v') is not None:
        q = '#%s' % f.n(flow.strip(f, i))['v']
    mo = re.match(r'^#(-?\d+)$', q or '')
    return int(mo.group(1)) if mo else None


def under(m, f, i, fd, depth=0):
    """does expression i reach into field fd (through iterators, references and locals)"""
    for j in f.walk(i):
        n = f.n(j)
        if n['k'] == 'Mem' and n.get('d') == fd:
            return True
        if n['k'] == 'Ref' and n.get('dk') == 'local' and depth < 5:
            k = flow.init_of(f, n['d'])
            if k is not None and k != i and under(m, f, k, fd, depth + 1):
                return True
            for L in f.all():
                if f.n(L)['k'] == 'RFor' and f.n(L).get('var') == n['d'] and under(m, f, f.n(L)['range'], fd, depth + 1):
                    return True
    return False


def predicates(m, S):
    """functions that read a character from a stream and tell whether it is a constant: {fn id: constant}"""
    out = {}
    for f in m.fn.values():
        if f.rawcfg is None or f.isLambda or 'bool' != m.noref((f.decl or {}).get('ret', '') or ''):
            continue
        if not any(re.search(r'istream|fstream|iostream', p['t']) for p in f.params):
            continue
        rd = [f.n(i)['c'][1] for i in f.all() if f.n(i)['k'] == 'OpCall' and f.n(i)['op'] == '>>' and len(f.n(i)['c']) == 2 and m.noref(f.typ(f.n(i)['c'][1])) == 'char']
        rd += [a for i in f.all() if f.n(i)['k'] == 'MCall' and (f.callee(i) or {}).get('n') in ('get', 'read') and not f.callee(i).get('src') for a in f.args(i)[:1]]
        vs = {f.n(j)['d'] for r in rd for j in f.walk(r) if f.n(j)['k'] == 'Ref' and 'd' in f.n(j)}
        if not vs:
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Bin' and n['op'] in ('==', '!='):
                for a, b in (n['c'], n['c'][::-1]):
                    r = f.n(flow.strip(f, a))
                    if r['k'] == 'Ref' and r.get('d') in vs and const(S, f, b) is not None:
                        out[f.id] = (const(S, f, b), i, n['op'])
    return out


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('R1: the character a session begins with differs from the one the reader takes for completed')
    ctx.rule('R2: the completed character is written only behind branches which establish: the caller reported completion, the request is not cancelled, the stream is good')
    ctx.rule('R3: ending a session removes its entry on every path, except where no entry exists or it belongs to another request; it removes it only if the entry belongs to the calling request; every function between the caller and the removal gets there on every path')
    ctx.rule('R4: completion is reported only after the wrapped build returned normally: the call which reports it is dominated by the build call, and neither a destructor nor a handler reports it, and no handler swallows an exception of a build which is completed afterwards')
    ctx.rule('R5: the object that begins a session keeps the session context and its destructor ends the session, unless it was ended before')
    ctx.rule('R6: cached data is read only behind the completion check')
    ctx.rule('R7: a session begins only where no session of that tile exists, decided in the critical section which registers it')
    sf = session_fields(m)
    ctx.count('session maps', len(sf))
    preds = predicates(m, S)
    done = {}
    for cls, fd in sf:
        own = [f for f in m.fn.values() if f.rawcfg is not None and (f.cls == cls or f.qn.startswith(cls + '::')) and not f.isLambda]
        begins = [(f, i) for f in own for i in f.all() if on_field(f, i, fd, INSERT)]
        ends = [(f, i) for f in own for i in f.all() if on_field(f, i, fd, ('erase', 'clear', 'extract'))]
        ctx.count('session begins', len(begins))
        ctx.count('session ends', len(ends))
        if not begins or not ends:
            ctx.violation('session:%s' % cls, cls, 'sessions of %s are %s' % (cls, 'never ended' if begins else 'never begun'), [])
            continue
        rp = {p: v for p, v in preds.items() if m.fn[p].qn.startswith(cls)}
        ctx.count('completion predicates', len(rp))
        if not rp:
            ctx.violation('marker:%s' % cls, cls, 'nothing in %s tells completed cache files from incomplete ones' % cls, [])
            continue
        marks = {v[0] for v in rp.values()}
        if len(marks) != 1:
            ctx.violation('marker:%s' % cls, cls, 'readers of %s take different characters for the completion marker' % cls, [])
        done[cls] = marks
        predicate_true(ctx, m, S, rp)
        writes(ctx, m, S, cls, fd, own, begins, ends, marks)
        ending(ctx, m, S, cls, fd, ends)
        reading(ctx, m, S, cls, own, rp)
        beginning(ctx, m, S, cls, fd, begins)
        owners(ctx, m, S, cls, fd, begins, ends)
    ctx.require('session maps', 1)
    ctx.require('session begins', 1)
    ctx.require('session owners', 1)
    ctx.require('completion writes', 1)
    ctx.require('cache reads', 1)


def predicate_true(ctx, m, S, rp):
    """the predicate is true only if the character is the constant"""
    for p, (c, node, op) in rp.items():
        f = m.fn[p]

        def eq(g, fs, a, pol):
            n = g.n(a)
            return a == node and pol == (op == '==')
        for i in f.all():
            if f.n(i)['k'] == 'Return' and f.n(i).get('c'):
                r = f.n(i)['c'][0]
                if const(S, f, r) == 0:
                    continue
                ctx.count('completion predicate results')
                a, pol = flow.normal(S, f, r, True)
                conj = [(a, pol)]
                ok = False
                while conj:
                    x, xp = conj.pop()
                    if x == node and xp == (op == '=='):
                        ok = True
                    if f.n(x)['k'] == 'Bin' and f.n(x)['op'] == '&&' and xp:
                        conj += [flow.normal(S, f, y, True) for y in f.n(x)['c']]
                if not ok and not flow.needs_edge(S, f, i, eq):
                    ctx.violation('predicate:%s' % f.qn, f.loc(i), '%s reports a completed file without comparing its marker' % f.qn, [])


def writes(ctx, m, S, cls, fd, own, begins, ends, marks):
    bf = {f.id for f, i in begins}
    ef = {f.id for f, i in ends}
    begun = 0
    for f in own:
        for i, s, c in char_writes(m, S, f):
            if c is None:
                ctx.violation('marker:%s:%s' % (f.qn, f.expr(i)), f.loc(i), '%s writes a character which is not constant to a session stream' % f.qn, [])
                continue
            if c in marks:
                ctx.count('completion writes')
                need = (('the caller reported completion', completed(m, S)), ('the request is not cancelled', alive(m)), ('the stream is good', good(m)))
                for what, pr in need:
                    if not flow.needs_edge_ctx(S, m, f, i, pr):
                        ctx.violation('complete:%s:%s' % (f.qn, what), f.loc(i), '%s marks the cache file complete without a branch which establishes that %s' % (f.qn, what), [])
            else:
                begun += 1
    for f, i in begins:
        w = [j for j, s, c in char_writes(m, S, f) if c is not None and c not in marks]
        g = f.cfg
        okp = any(g.point(j) is not None and g.dominates(g.point(j), g.point(i)) for j in w)
        if not okp and not begun_by_callee(m, S, f, i, marks):
            ctx.violation('begin:%s' % f.qn, f.loc(i), '%s begins a session without marking the file as incomplete first' % f.qn, [])


def begun_by_callee(m, S, f, i, marks):
    """a helper called before (or the caller) writes the incomplete marker"""
    g = f.cfg
    for j in f.all():
        if f.n(j)['k'] in ('Call', 'MCall'):
            for t in m.targets(f, j):
                h = m.fn.get(t)
                if h and h.rawcfg is not None and any(c is not None and c not in marks for _, _, c in char_writes(m, S, h)) and g.point(j) is not None and g.dominates(g.point(j), g.point(i)):
                    return True
    cs = m.callers(f.id)
    for c, ci in cs:
        h = m.fn[c]
        w = [j for j, s, v in char_writes(m, S, h) if v is not None and v not in marks]
        if not any(h.cfg.point(j) is not None and h.cfg.dominates(h.cfg.point(j), h.cfg.point(ci)) for j in w):
            return False
    return bool(cs)


def completed(m, S):
    def pr(f, fs, a, pol):
        n = f.n(a)
        if not (pol and n['k'] == 'Ref' and n.get('dk') == 'param' and m.noref(f.typ(a)) in ('bool', 'const bool')):
            return False
        # a flag which callers make up has to depend on what they were told themselves
        at = next((j for j, p in enumerate(f.params) if p['d'] == n['d']), None)
        if at is None or f.id in busy:
            return False
        busy.add(f.id)
        try:
            for c, ci in m.callers(f.id):
                h = m.fn[c]
                v = h.args(ci)[at] if at < len(h.args(ci)) else None
                if v is None or const(S, h, v) is not None:
                    continue
                if not flow.decide(S, h, v, True, pr):
                    return False
        finally:
            busy.discard(f.id)
        return True
    busy = set()
    return pr


def alive(m):
    def pr(f, fs, a, pol):
        n = f.n(a)
        if n['k'] in ('MCall', 'Call') and not pol:
            d = f.callee(a) or {}
            return 'CancellationToken' in (d.get('cls') or d.get('clsn') or '') or d.get('n') == 'isCancelled'
        if n['k'] == 'Bin' and n['op'] in ('!=', '=='):
            return any(f.n(j)['k'] == 'Mem' and 'CancellationToken' in str(f.n(j).get('d')) for j in f.walk(a)) and pol == (n['op'] == '==')
        return False
    return pr


def good(m):
    def pr(f, fs, a, pol):
        n = f.n(a)
        if n['k'] == 'MCall':
            d = f.callee(a) or {}
            if d.get('n') == 'good' and pol or d.get('n') in ('fail', 'bad') and not pol or d.get('n') == 'operator bool' and pol:
                return True
        if n['k'] == 'Cast' or n['k'] == 'Ref':
            return pol and 'stream' in f.typ(a)
        return False
    return pr


def ending(ctx, m, S, cls, fd, ends):
    pts = {}
    for f, i in ends:
        pts.setdefault(f.id, []).append(i)
        st = S.at(f, i)
        # only the request which began it
        def mine(g, fs, a, pol):
            n = g.n(a)
            if n['k'] == 'Bin' and n['op'] in ('==', '!='):
                x, y = n['c']
                for p, q in ((x, y), (y, x)):
                    if under(m, g, p, fd) and not under(m, g, q, fd) and any(g.n(j)['k'] == 'Ref' and g.n(j).get('dk') == 'param' for j in g.walk(q)):
                        return pol == (n['op'] == '==')
            return False
        ctx.count('session removals')
        if not flow.needs_edge_ctx(S, m, f, i, mine):
            ctx.violation('owner:%s' % f.qn, f.loc(i), '%s removes a session without knowing that it belongs to the calling request' % f.qn, [])
    # every path removes it
    def skip(g, fs, a, pol):
        n = g.n(a)
        ops = n['c'] if n['k'] in ('Bin', 'OpCall') and len(n.get('c', [])) == 2 else None
        op = n.get('op')
        if ops and op in ('==', '!='):
            x, y = ops
            for p, q in ((x, y), (y, x)):
                if under(m, g, p, fd) and any(g.n(j)['k'] == 'MCall' and (g.callee(j) or {}).get('n') in ('end', 'cend') for j in g.walk(q)) :
                    return pol == (op == '==')
                if under(m, g, p, fd) and not under(m, g, q, fd) and any(g.n(j)['k'] == 'Ref' and g.n(j).get('dk') == 'param' for j in g.walk(q)):
                    return pol == (op == '!=')
        if n['k'] == 'MCall' and (g.callee(a) or {}).get('n') in ('count', 'contains') and fieldof(g, g.obj(a)) == fd:
            return not pol
        return False
    for fid, nodes in pts.items():
        f = m.fn[fid]
        ok = flow.edges(S, f, skip)
        gp = {f.cfg.point(i) for i in nodes}
        if not flow.must_hit(f, f.cfg.entry, gp, ok):
            ctx.violation('end:%s' % f.qn, f.loc(), '%s can return without removing the session it was asked to end' % f.qn, [])


def reading(ctx, m, S, cls, own, rp):
    """functions that open the file for reading give the stream to others only behind the predicate"""
    def pred(f, fs, a, pol):
        return pol and f.n(a)['k'] in ('Call', 'MCall') and any(t in rp for t in m.targets(f, a))
    for f in own:
        if f.id in rp:
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall'):
                d = f.callee(i)
                if d and d.get('src') and not any(t in rp for t in m.targets(f, i)) and any('istream' in p for p in d.get('params', [])):
                    ctx.count('cache reads')
                    if not flow.needs_edge_ctx(S, m, f, i, pred):
                        ctx.violation('read:%s:%s' % (f.qn, d['n']), f.loc(i), '%s reads cached data without the completion check' % f.qn, [])


def beginning(ctx, m, S, cls, fd, begins):
    def free(g, fs, a, pol):
        n = g.n(a)
        if n['k'] in ('Bin', 'OpCall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            x, y = n['c']
            for p, q in ((x, y), (y, x)):
                if under(m, g, p, fd) and any(g.n(j)['k'] == 'MCall' and (g.callee(j) or {}).get('n') in ('end', 'cend') for j in g.walk(q)):
                    return pol == (n['op'] == '==')
        if n['k'] == 'MCall' and (g.callee(a) or {}).get('n') in ('count', 'contains') and fieldof(g, g.obj(a)) == fd:
            return not pol
        if n['k'] in ('MCall', 'Call') and a not in free.seen:
            # a helper which is the test
            for t in m.targets(g, a):
                h = m.fn.get(t)
                if h and h.rawcfg is not None and helper(h, pol):
                    return True
        return False
    free.seen = set()

    def helper(h, pol):
        rs = [h.n(i)['c'][0] for i in h.all() if h.n(i)['k'] == 'Return' and h.n(i).get('c')]
        if len(rs) != 1:
            return False
        a, p = flow.normal(S, h, rs[0], pol)
        return h.n(a)['k'] in ('Bin', 'OpCall', 'MCall') and (h.n(a)['k'] != 'MCall' or not (h.callee(a) or {}).get('src')) and free(h, None, a, p)
    locks = lock_points(m)
    for f, i in begins:
        if not flow.needs_edge_ctx(S, m, f, i, free):
            ctx.violation('begin:%s:free' % f.qn, f.loc(i), '%s begins a session without knowing that none exists for that tile' % f.qn, [])
            continue
        # one critical section: no mutex is taken or released between the test and the registration
        g, node = f, i
        for _ in range(6):
            es = flow.edges(S, g, free)
            if es:
                t = g.cfg.point(node)
                between = set()
                for p, q, l in es:
                    between |= ({q} | g.cfg.reach(q)) & ({t} | g.cfg.reach(t, fwd=False))
                lp = {g.cfg.point(j) for j in locks.get(g.id, ())}
                ds = {p for p in between if g.cfg.payload[p] and g.cfg.payload[p][0] == 'd' and re.search(r'lock', str(g.cfg.payload[p]))}
                if lp & between or ds:
                    ctx.violation('begin:%s:atomic' % f.qn, g.loc(node), '%s releases or takes a mutex between the test for an existing session and its registration' % g.qn, [])
                if not any(g.cfg.point(j) is not None and all(g.cfg.dominates(g.cfg.point(j), p) for p, q, l in es) for j in locks.get(g.id, ())):
                    cs = m.callers(g.id)
                    if not cs or not all(any(m.fn[c].cfg.dominates(m.fn[c].cfg.point(j), m.fn[c].cfg.point(ci)) for j in locks.get(c, ())) for c, ci in cs):
                        ctx.violation('begin:%s:lock' % f.qn, g.loc(node), '%s tests for an existing session before it takes the mutex' % g.qn, [])
                break
            cs = m.callers(g.id)
            if not cs:
                break
            if lock_points(m).get(g.id):
                ctx.violation('begin:%s:atomic' % f.qn, g.loc(node), '%s takes a mutex of its own between the test for an existing session and its registration' % g.qn, [])
            c, node = cs[0]
            g = m.fn[c]


def lock_points(m):
    if not hasattr(m, '_lockpts'):
        m._lockpts = {}
        for f in m.fn.values():
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Decl' and any(re.search(r'std::(lock_guard|unique_lock|scoped_lock)', v['t']) for v in n['vars']) or n['k'] == 'MCall' and (f.callee(i) or {}).get('n') in ('lock', 'unlock') and 'mutex' in f.typ(f.obj(i)) + 'lock':
                    m._lockpts.setdefault(f.id, []).append(i)
    return m._lockpts


def owners(ctx, m, S, cls, fd, begins, ends):
    """who begins sessions, from outside of the session class"""
    endf = {f.id for f, i in ends}
    mc = flow.MustCall(m, lambda f, i: f.n(i)['k'] in ('Call', 'MCall') and any(t in endf for t in m.targets(f, i)), S)
    # the interface in front of the session class: functions whose only work is to forward
    outer = cls.rsplit('::', 1)[0]

    def inside(fid):
        q = m.fn[fid].qn
        return q.startswith(cls + '::') or q.startswith(outer + '::') and m.fn[fid].cls in (outer, cls)
    beg = {f.id for f, i in begins}
    todo = list(beg)
    sites = []
    seen = set(beg)
    while todo:
        x = todo.pop()
        for c, ci in m.callers(x):
            if inside(c):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
            else:
                sites.append((c, ci))
    eseen = set(endf)
    todo = list(endf)
    esites = []
    while todo:
        x = todo.pop()
        for c, ci in m.callers(x):
            if inside(c):
                if c not in eseen:
                    eseen.add(c)
                    todo.append(c)
                    if c not in endf and not mc.must(c):
                        ctx.violation('end:%s' % m.fn[c].qn, m.fn[c].loc(), '%s can return without ending the session' % m.fn[c].qn, [])
            else:
                esites.append((c, ci))
    ctx.count('session begin sites outside', len(sites))
    ctx.count('session end sites outside', len(esites))
    endsite = {}
    for c, ci in esites:
        endsite.setdefault(c, []).append(ci)
    for c, ci in sites:
        f = m.fn[c]
        K = f.cls
        ctx.count('session owners')
        # kept in a field
        kept = None
        for a in [ci] + list(f.ancestors(ci)):
            n = f.n(a)
            if flow.assign(f, a) is not None and fieldof(f, n['c'][0]):
                kept = fieldof(f, n['c'][0])
                break
        if kept is None:
            ctx.violation('keep:%s' % f.qn, f.loc(ci), '%s begins a session and does not keep its context in the object' % f.qn, [])
            continue
        for h in m.fn.values():
            if h.cls == K:
                for j in h.all():
                    n = h.n(j)
                    t = None
                    if flow.assign(h, j) is not None:
                        t = n['c'][0]
                    elif n['k'] == 'MCall' and (h.callee(j) or {}).get('n') in ('reset', 'release', 'swap'):
                        t = h.obj(j)
                    if t is not None and fieldof(h, t) == kept and not (h.id == f.id and any(x == ci for x in h.walk(j))):
                        ctx.violation('keep:%s:%s' % (h.qn, h.expr(j)[:60]), h.loc(j), '%s drops the context of a session which has not ended' % h.qn, [])
        dt = [h for h in m.fn.values() if h.cls == K and h.name.startswith('~') and h.rawcfg is not None]
        if not dt:
            ctx.violation('dtor:%s' % tail(K), f.loc(ci), '%s begins sessions but has no destructor which ends them' % K, [])
            continue
        flags = ended_flags(m, S, K, endsite)

        def skip(g, fs, a, pol):
            n = g.n(a)
            if fieldof(g, a) == kept or any(g.n(j)['k'] == 'Mem' and g.n(j).get('d') == kept for j in g.walk(a)) and (n['k'] in ('MCall', 'Cast', 'OpCall') or n['k'] == 'Bin' and n['op'] in ('==', '!=')):
                neg = pol
                if n['k'] in ('OpCall', 'Bin') and n.get('op') in ('==', '!='):
                    neg = pol if n['op'] == '!=' else not pol
                return not neg
            return fieldof(g, a) in flags and pol
        # every way through the destructor gets to the end call
        ids = {c2 for c2 in endsite}
        mk = flow.MustCall(m, lambda g, i: i in endsite.get(g.id, ()), S, okedge=skip)
        for h in dt:
            ctx.count('session destructors')
            if not mk.must(h.id):
                ctx.violation('dtor:%s' % tail(h.qn), h.loc(), '%s does not end the session on every path' % h.qn, [])
        # reports of completion
        for e, nodes in endsite.items():
            if m.fn[e].cls != K:
                continue
            for node in nodes:
                report(ctx, m, S, m.fn[e], node, K)


def tail(q):
    return re.sub(r'<.*>', '', q).split('utymap::')[-1]


def ended_flags(m, S, K, endsite):
    """boolean members that are set only where the session is ended on every path that follows"""
    out = set()
    bad = set()
    for h in m.fn.values():
        if h.cls != K or h.rawcfg is None:
            continue
        for j in h.all():
            n = h.n(j)
            if flow.assign(h, j) is not None and fieldof(h, n['c'][0]) and m.noref(h.typ(n['c'][0])) in ('bool', 'std::atomic<bool>'):
                fd = fieldof(h, n['c'][0])
                v = const(S, h, n['c'][1])
                if v == 0:
                    continue
                pts = {h.cfg.point(x) for x in endsite.get(h.id, ())}
                p = h.cfg.point(j)
                if v == 1 and pts and (flow.must_hit(h, p, pts) or any(h.cfg.dominates(x, p) for x in pts)):
                    out.add(fd)
                else:
                    bad.add(fd)
    return out - bad


def report(ctx, m, S, f, node, K, depth=0):
    """the completion argument of an end call is true only after the build"""
    flagpar = None
    for a in f.args(node):
        if m.noref(f.typ(a)) in ('bool', 'const bool'):
            flagpar = a
    d = f.callee(node) or {}
    if flagpar is None:
        ctx.violation('report:%s' % tail(f.qn), f.loc(node), '%s ends a session without saying whether it is completed' % f.qn, [])
        return
    a = flow.strip(f, flagpar)
    v = const(S, f, flagpar)
    if v is None and f.n(a)['k'] in ('Def', 'DefArg', 'Default') and f.n(a).get('c'):
        v = const(S, f, f.n(a)['c'][0])
    if v == 0:
        return
    if v is None and f.n(a)['k'] == 'Ref' and f.n(a).get('dk') == 'param':
        cs = m.callers(f.id)
        for c, ci in cs:
            report(ctx, m, S, m.fn[c], ci, K, depth + 1) if depth < 5 else None
        return
    ctx.count('reports of completion')
    if f.name.startswith('~'):
        ctx.violation('report:%s' % tail(f.qn), f.loc(node), 'the destructor %s reports the build as completed' % f.qn, [])
        return
    g = f.cfg
    t = g.point(node)
    if t is None:
        return
    built = {g.point(j) for j in f.all() if f.n(j)['k'] in ('MCall', 'Call') and j != node and (f.callee(j) or {}).get('n') == 'complete'}
    for r in flow.roots(f):
        if t in g.reach(r, avoid=built):
            ctx.violation('report:%s' % tail(f.qn), f.loc(node), '%s reports the build as completed on a path which does not complete it' % f.qn, [])
            return
    # nobody runs this from a handler or a destructor
    todo = [f.id]
    seen = set(todo)
    while todo:
        x = todo.pop()
        for c, ci in m.callers(x):
            h = m.fn[c]
            if h.name.startswith('~') or any(h.n(y)['k'] == 'Catch' for y in h.ancestors(ci)):
                ctx.violation('report:%s:%s' % (tail(f.qn), tail(h.qn)), h.loc(ci), '%s completes a build while it is given up' % h.qn, [])
                continue
            given_up(ctx, m, f, h, ci, K)
            if c not in seen:
                seen.add(c)
                todo.append(c)


def swallows(m, h, c):
    """a handler that can be left otherwise than by throwing; returns its entry and the throwing points"""
    g = h.cfg
    e = g.handlers.get(c)
    thr = [g.point(i) for i in h.walk(c) if h.n(i)['k'] == 'Throw']
    return e, [p for p in thr if p is not None]


def given_up(ctx, m, f, h, ci, K):
    """no handler turns a build which failed into one that is completed: neither around the build in h nor below it"""
    from checks.c01 import conversion_default
    g = h.cfg
    t = g.point(ci)
    if t is None:
        return
    for c in h.all():
        if h.n(c)['k'] != 'Catch':
            continue
        e, thr = swallows(m, h, c)
        if e is not None and (e == t or t in g.reach(e, avoid=thr)):
            ctx.violation('report:%s:%s:handler' % (tail(f.qn), tail(h.qn)), h.loc(c), '%s goes on to complete the build after it has swallowed an exception' % h.qn, [])
    visits = {x.id for x in m.fn.values() if x.cls == K and x.name.startswith('visit')}
    for j in h.all():
        if h.n(j)['k'] not in ('Call', 'MCall') or j == ci:
            continue
        p = g.point(j)
        if p is None or t not in g.reach(p):
            continue
        ts = [x for x in m.targets(h, j) if x in m.fn]
        reach, par = m.reachable(ts)
        if not (set(reach) | set(ts)) & visits:
            continue
        for x in sorted(set(reach) | set(ts)):
            k = m.fn[x]
            if k.rawcfg is None or k.id == h.id:
                continue
            ctx.count('functions of a build looked at for handlers')
            for c in k.all():
                if k.n(c)['k'] == 'Catch' and not conversion_default(m, k, c):
                    e, thr = swallows(m, k, c)
                    if e is not None and (e == k.cfg.exit or k.cfg.exit in k.cfg.reach(e, avoid=thr)):
                        ctx.violation('report:%s:handler' % tail(k.qn), k.loc(c), '%s swallows an exception of a build which is then completed' % k.qn, [])
