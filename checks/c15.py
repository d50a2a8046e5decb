"""Recursion driven by references between relations passes a mark of the relation; relations own no relation which is still being resolved."""
import re
import flow
from guards import Guards
from c09 import sccs
from c34 import short

LEVEL = 'other'
ASSOC = re.compile(r'std::(unordered_)?(multi)?(map|set)<')


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('every cycle of calls in the import of OSM data passes a function which marks the relation it is given in a container that outlives the call, under its own identifier, before it goes on, and goes on only if the mark was not there; the mark is not removed before all of that returned')
    ctx.rule('a function which marks relations reports one which is marked but not finished as not resolved; what says it is finished is set only after its members were processed')
    ctx.rule('a relation found by identifier becomes a member of another one only where resolving it was reported successful')
    ed, calls = {}, {}
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        if f.rawcfg is None or '/formats/' not in (f.file or ''):
            continue
        s = set()
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                for t in m.targets(f, i):
                    if t in m.fn and m.fn[t].rawcfg is not None:
                        s.add(t)
                        calls.setdefault(f.id, []).append((i, t))
        ed[f.id] = s
    # helpers outside of the folder which call back
    todo = [t for s in ed.values() for t in s if t not in ed]
    while todo:
        t = todo.pop()
        if t in ed:
            continue
        f = m.fn[t]
        s = set()
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                for x in m.targets(f, i):
                    if x in m.fn and m.fn[x].rawcfg is not None:
                        s.add(x)
                        calls.setdefault(f.id, []).append((i, x))
        ed[t] = s
        todo += [x for x in s if x not in ed]
    ctx.count('functions in the call graph of the import', len(ed))
    for comp in sccs(ed):
        C = set(comp)
        if len(C) == 1 and not any(x in ed.get(x, ()) for x in C):
            continue
        if not any('/formats/' in (m.fn[x].file or '') for x in C):
            continue
        if not any(lookup(m, m.fn[x]) for x in C):
            # descends what it was given
            ctx.count('recursions over owned trees')
            continue
        ctx.count('recursions over references')
        ctx.count('functions of such recursions', len(C))
        guards = {}
        for x in sorted(C):
            g = guard(m, S, m.fn[x], [i for i, t in calls.get(x, []) if t in C])
            if g:
                guards[x] = g
                ctx.count('functions which mark relations')
                ctx.sample('%s marks %s' % (m.fn[x].qn, g[0]))
        rest = {x: {t for t in ed[x] if t in C and t not in guards} for x in C if x not in guards}
        for c2 in sccs(rest):
            if len(c2) > 1 or c2[0] in rest.get(c2[0], ()):
                f = m.fn[sorted(c2, key=lambda x: (m.fn[x].file or '', m.fn[x].qn))[0]]
                for x in sorted(c2):
                    if lookup(m, m.fn[x]) or m.fn[x].name == 'resolve':
                        f = m.fn[x]
                names = sorted({m.fn[x].qn.split('utymap::')[-1] for x in c2})
                ctx.violation('unmarked:' + '+'.join(sorted({n.split('::')[-1] for n in names}))[:80], f.loc(), 'relations which refer to each other are followed forever: no mark is set and checked in ' + ', '.join(names))
        for x, g in sorted(guards.items()):
            results(ctx, m, S, m.fn[x], g, [i for i, t in calls.get(x, []) if t in C])
        adopt(ctx, m, S, C, set(guards), calls)
    loops(ctx, m, S, ed)
    ctx.require('recursions over references', 1)
    ctx.require('relations adopted', 2)


def loops(ctx, m, S, ed):
    """loops which go from one relation to another"""
    for x in sorted(ed):
        f = m.fn[x]
        if '/formats/' not in (f.file or '') and '/utils/' not in (f.file or ''):
            continue
        for l in f.all():
            n = f.n(l)
            if n['k'] not in ('While', 'Do', 'For'):
                continue
            body = set(f.walk(l))
            inner = {f.n(i)['d'] for i in body if f.n(i)['k'] == 'Decl' and 'd' in f.n(i)} | {v['d'] for i in body if f.n(i)['k'] == 'Decl' for v in f.n(i).get('vars', [])}
            steps = []
            for i in sorted(body):
                q = f.n(i)
                t = flow.assign(f, i)
                if t is not None and f.n(flow.strip(f, t))['k'] == 'Ref' and len(q.get('c', [])) == 2:
                    d = f.n(flow.strip(f, t)).get('d')
                    if d not in inner and refs(f, q['c'][1], d) and related(f, q['c'][1]):
                        steps.append(i)
                # a list of work to do
                if q['k'] == 'MCall' and short(f, i) in ('push', 'push_back', 'emplace', 'emplace_back', 'insert') and f.n(flow.strip(f, q['c'][0]))['k'] == 'Ref':
                    d = f.n(flow.strip(f, q['c'][0])).get('d')
                    if d not in inner and n.get('cond') is not None and any(f.n(y)['k'] == 'Ref' and f.n(y).get('d') == d for y in f.walk(n['cond'])) and any(related(f, y) for y in body):
                        if not inserted_set(f, i):
                            steps.append(i)
            if not steps:
                continue
            ctx.count('loops over references')
            if not any(marked(f, y, inner) for y in body):
                ctx.violation('loop:' + f.qn.split('utymap::')[-1], f.loc(steps[0]), 'a loop goes from one relation to another without marking those it has seen: it never ends if they refer to each other')


def inserted_set(f, i):
    return bool(re.search(r'std::(unordered_)?set<', f.typ(f.n(i)['c'][0])))


def marked(f, y, inner):
    n = f.n(y)
    if n['k'] == 'MCall' and n.get('c') and short(f, y) in ('insert', 'emplace') and ASSOC.search(f.typ(n['c'][0])):
        b = f.n(flow.strip(f, n['c'][0]))
        return b.get('d') not in inner
    return False


def related(f, i):
    return any(f.n(j)['k'] in ('MCall', 'OpCall') and f.n(j).get('c') and (f.n(j)['k'] == 'MCall' and short(f, j) in ('find', 'at', 'equal_range') or f.n(j)['k'] == 'OpCall' and f.n(j)['op'] == '[]') and ASSOC.search(f.typ(f.n(j)['c'][0])) and 'elation' in f.typ(f.n(j)['c'][0]) for j in f.walk(i))


def refs(f, i, d):
    return any(f.n(j)['k'] == 'Ref' and f.n(j).get('d') == d for j in f.walk(i))


def lookup(m, f):
    """finds something by key in a collection of relations or their members"""
    for i in f.all():
        n = f.n(i)
        if n['k'] in ('MCall', 'OpCall') and n.get('c') and (n['k'] == 'MCall' and short(f, i) in ('find', 'at', 'count', 'equal_range') or n['k'] == 'OpCall' and n['op'] == '[]'):
            if ASSOC.search(f.typ(n['c'][0])) and 'elation' in f.typ(n['c'][0]):
                return True
    return False


def key(m, f, i):
    """path of an expression from a parameter, or None"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Ref':
        j = flow.init_of(f, n.get('d'))
        if j is not None:
            return key(m, f, j)
        return n.get('n') if n.get('dk') == 'param' else None
    if n['k'] == 'Mem' and n.get('c'):
        b = key(m, f, n['c'][0])
        return b + '.' + str(n.get('n')) if b else None
    if n['k'] in ('OpCall', 'Un') and n.get('op') in ('*', '->', '&') and n.get('c'):
        return key(m, f, n['c'][0])
    if n['k'] == 'Ctor' and len(n.get('c', [])) == 1:
        return key(m, f, n['c'][0])
    return None


def store(m, f, i):
    """identity of a container which outlives the call: a member, or what a reference parameter refers to"""
    i = flow.strip(f, i)
    n = f.n(i)
    if not ASSOC.search(f.typ(i)):
        return None
    if n['k'] == 'Mem':
        return ('m', n.get('d'))
    if n['k'] == 'Ref':
        if n.get('dk') == 'param':
            p = [p for p in f.params if p['d'] == n['d']]
            return ('p', n['d']) if p and '&' in (p[0].get('t') or '') else None
        if n.get('dk') in ('global', 'static', 'field'):
            return ('g', n.get('d'))
        j = flow.init_of(f, n.get('d'))
        return store(m, f, j) if j is not None else ('g', n['d']) if n.get('dk') not in ('local',) else None
    if n['k'] in ('Un', 'OpCall') and n.get('op') == '*' and n.get('c'):
        return store(m, f, n['c'][0])
    return None


def inserted(m, f, i):
    """(container, key) of an insertion that does not replace"""
    n = f.n(i)
    if n['k'] == 'MCall' and n.get('c') and short(f, i) in ('emplace', 'insert', 'try_emplace') and f.args(i):
        s = store(m, f, n['c'][0])
        if s is None:
            return None
        a = flow.strip(f, f.args(i)[0])
        while f.n(a)['k'] in ('Ctor', 'Call', 'InitList') and f.n(a).get('c'):
            # a pair
            x = f.args(a)[0] if f.n(a)['k'] == 'Call' and f.args(a) else f.n(a)['c'][0]
            a = flow.strip(f, x)
        k = key(m, f, a)
        return (s, k) if k else None
    return None


def absent(m, ff, a, pol):
    """(container, key) the atom shows to be absent: find(...) == end(), count(...) == 0"""
    a = flow.strip(ff, a)
    n = ff.n(a)
    if n['k'] in ('Bin', 'OpCall') and n['op'] in ('==', '!=', '>', '<'):
        for x, y in (n['c'], n['c'][::-1]):
            r = looked(m, ff, x)
            if not r:
                continue
            e = flow.strip(ff, y)
            if ff.n(e)['k'] == 'Ctor' and ff.n(e).get('c'):
                e = flow.strip(ff, ff.n(e)['c'][0])
            zero = str(ff.n(e).get('cv', ff.n(e).get('v'))) == '0'
            one = str(ff.n(e).get('cv', ff.n(e).get('v'))) == '1'
            end = ff.n(e)['k'] == 'MCall' and short(ff, e) in ('end', 'cend')
            if n['op'] in '<>' and not zero:
                return None
            if zero or end:
                return r if (pol if n['op'] == '==' else not pol) else None
            if one:
                return r if (not pol if n['op'] == '==' else pol) else None
        return None
    r = looked(m, ff, a)
    return r if r and not pol and short(ff, a) in ('count', 'contains') else None


def tried(m, ff, a, t, depth):
    """what a helper which returned true has marked, in terms of its caller"""
    f = m.fn[t]
    if f.rawcfg is None:
        return None
    S = Guards(m)
    fresh = outcome(m, f, depth + 1)
    rets = [i for i in f.all() if f.n(i)['k'] == 'Return' and f.n(i).get('c')]
    found = None
    for i in rets:
        v = flow.strip(f, f.n(i)['c'][0])
        if f.n(v)['k'] == 'Bool' and str(f.n(v).get('v')).lower() in ('0', 'false'):
            continue
        va, vp = flow.normal(S, f, v, True)
        r = fresh(f, None, va, vp)
        if not r:
            r = next((c for c in candidates(m, S, f, fresh) if flow.needs_edge(S, f, i, lambda q, cc, x, pol: fresh(q, cc, x, pol) == c)), None)
        if r and r[0] == 'find':
            # the mark has to be set as well
            ms = marks(m, f, *r[1])
            es = flow.edges(S, f, lambda q, cc, x, pol: fresh(q, cc, x, pol) == r)
            g = f.cfg
            if not ms or any(g.point(i) in g.reach(q, avoid=ms) and q not in ms for p, q, lab in es):
                return None
            r = ('insert', r[1])
        if not r or found and found != r:
            return None
        found = r
    if not found or found[1][0][0] == 'p':
        return None
    s, k = found[1]
    names = [p['n'] for p in f.params]
    head, dot, rest = k.partition('.')
    if head not in names or names.index(head) >= len(ff.args(a)):
        return None
    base = key(m, ff, ff.args(a)[names.index(head)])
    return ('insert', (s, base + dot + rest)) if base else None


def candidates(m, S, f, fresh):
    out = {}
    for p in range(len(f.cfg.succ)):
        for q, lab in f.cfg.succ[p]:
            if not lab or len(lab) != 2 or lab[0] == 'case' or f.n(lab[0])['k'] == 'RFor':
                continue
            st = [flow.normal(S, f, lab[0], lab[1])]
            while st:
                a, ap = st.pop()
                n = f.n(a)
                if n['k'] == 'Bin' and n['op'] in ('&&', '||'):
                    st += [flow.normal(S, f, x, ap) for x in n['c']]
                    continue
                r = fresh(f, None, a, ap)
                if r:
                    out[r] = 1
    return sorted(out, key=str)


def outcome(m, f, depth=0):
    """pred(f, facts, atom, polarity): the branch shows that the mark was not there; returns (pred, places)"""
    def fresh(ff, c, a, pol):
        a = flow.strip(ff, a)
        n = ff.n(a)
        # insert(...).second
        if n['k'] == 'Mem' and n.get('n') == 'second' and n.get('c'):
            j = flow.strip(ff, n['c'][0])
            if ff.n(j)['k'] == 'Ref':
                q = flow.init_of(ff, ff.n(j).get('d'))
                j = flow.strip(ff, q) if q is not None else j
            while ff.n(j)['k'] == 'Ctor' and len(ff.n(j).get('c', [])) == 1:
                j = flow.strip(ff, ff.n(j)['c'][0])
            r = inserted(m, ff, j)
            return ('insert', r) if r and pol else None
        r = absent(m, ff, a, pol)
        if r:
            return ('find', r)
        # a helper which tries to set the mark
        if n['k'] in ('Call', 'MCall') and pol and n.get('f') in m.fn and depth < 3:
            return tried(m, ff, a, n['f'], depth)
        return None
    return fresh


def looked(m, f, x):
    x = flow.strip(f, x)
    if f.n(x)['k'] == 'Ref':
        j = flow.init_of(f, f.n(x).get('d'))
        if j is None:
            return None
        x = flow.strip(f, j)
    while f.n(x)['k'] == 'Ctor' and len(f.n(x).get('c', [])) == 1:
        x = flow.strip(f, f.n(x)['c'][0])
    if f.n(x)['k'] == 'MCall' and short(f, x) in ('find', 'count', 'contains') and f.args(x):
        s, k = store(m, f, f.n(x)['c'][0]), key(m, f, f.args(x)[0])
        if s and k:
            return s, k
    return None


def marks(m, f, s, k):
    """points at which the container gets the key"""
    out = set()
    for i in f.all():
        r = inserted(m, f, i)
        if r == (s, k):
            out.add(f.cfg.point(i))
        n = f.n(i)
        if n['k'] == 'OpCall' and n['op'] == '[]' and len(n['c']) == 2 and store(m, f, n['c'][0]) == s and key(m, f, n['c'][1]) == k:
            out.add(f.cfg.point(i))
    return out - {None}


def guard(m, S, f, inner):
    """(container, key, kind) if every call in inner is made only after the relation was marked for the first time"""
    if not inner:
        return None
    fresh = outcome(m, f)
    for kind, (s, k) in candidates(m, S, f, fresh):
        pred = lambda ff, c, a, pol: fresh(ff, c, a, pol) == (kind, (s, k))
        if not all(flow.needs_edge(S, f, i, pred) for i in inner):
            continue
        g = f.cfg
        if kind == 'find':
            # marked between the test and the calls
            ms = marks(m, f, s, k)
            es = flow.edges(S, f, pred)
            if not all(g.point(i) is None or all(g.point(i) not in g.reach(q, avoid=ms) or q in ms for p, q, lab in es) for i in inner):
                continue
        # not removed before
        bad = False
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'MCall' and n.get('c') and short(f, j) in ('erase', 'clear', 'extract', 'swap') and store(m, f, n['c'][0]) == s and g.point(j) is not None:
                if any(g.point(i) in g.reach(g.point(j)) for i in inner if g.point(i) is not None):
                    bad = True
        if bad:
            continue
        return (s[1], k, kind, s)
    return None


def results(ctx, m, S, f, g, inner):
    """what the function says about a relation which is marked already"""
    s, k = g[3], g[1]
    fresh = outcome(m, f)
    first = flow.edges(S, f, lambda ff, c, a, pol: (fresh(ff, c, a, pol) or (0, 0))[1] == (s, k))
    gr = f.cfg
    ipts = {gr.point(i) for i in inner} - {None}
    rets = [i for i in f.all() if f.n(i)['k'] == 'Return' and f.n(i).get('c')]
    if not rets:
        return
    # ways to a return on which the relation was not marked for the first time
    again = set()
    for r in flow.roots(f):
        again |= gr.reach(r, edge_ok=lambda p, q, l: (p, q, l) not in first) | {r}
    for i in rets:
        p = gr.point(i)
        if p is None or p not in again:
            continue
        v = flow.strip(f, f.n(i)['c'][0])
        n = f.n(v)
        ctx.count('answers about relations seen before')
        if n['k'] == 'Bool':
            if str(n.get('v')).lower() in ('1', 'true') and not finished(m, S, f, i, s, ipts):
                ctx.violation('unfinished:' + f.name, f.loc(i), 'a relation which is still being resolved is reported as resolved: it becomes a member of itself')
            continue
        # a stored answer: starts as false, turns true when all is done
        if n['k'] == 'Mem' and n.get('n') == 'second' or n['k'] == 'OpCall' and n['op'] == '[]' or n['k'] == 'MCall' and short(f, v) == 'at':
            for j in f.all():
                q = f.n(j)
                r = inserted(m, f, j)
                if r and r == (s, k):
                    val = [x for x in f.walk(j) if f.n(x)['k'] == 'Bool']
                    if val and str(f.n(val[-1]).get('v')).lower() in ('1', 'true') and any(x in gr.reach(gr.point(j)) for x in ipts):
                        ctx.violation('unfinished:' + f.name, f.loc(j), 'a relation is marked as resolved before its members are')
                t = flow.assign(f, j)
                if t is not None and answer(m, f, t, s):
                    if gr.point(j) is not None and any(x in gr.reach(gr.point(j)) for x in ipts):
                        val = flow.strip(f, f.n(j)['c'][1])
                        if not (f.n(val)['k'] == 'Bool' and str(f.n(val).get('v')).lower() in ('0', 'false')):
                            ctx.violation('unfinished:' + f.name, f.loc(j), 'a relation is marked as resolved before its members are')


def answer(m, f, t, s):
    t = flow.strip(f, t)
    n = f.n(t)
    if n['k'] == 'OpCall' and n['op'] == '[]' or n['k'] == 'MCall' and short(f, t) == 'at':
        return store(m, f, n['c'][0]) == s
    if n['k'] == 'Mem' and n.get('n') == 'second':
        return 'bool' in f.typ(t)
    return False


def finished(m, S, f, i, s, ipts):
    """the answer is given only where another mark was found which is set after everything was done"""
    g = f.cfg
    other = set()
    for j in f.all():
        n = f.n(j)
        if n['k'] == 'MCall' and n.get('c') and short(f, j) in ('insert', 'emplace'):
            o = store(m, f, n['c'][0])
            if o and o != s:
                other.add((o, not any(x in g.reach(g.point(j)) for x in ipts) if g.point(j) is not None else False))
    good = {o for o, late in other if late} - {o for o, late in other if not late}

    def pred(ff, c, a, pol):
        r = absent(m, ff, a, not pol)
        return bool(r and r[0] in good)
    # what follows the processing itself is an answer about a finished relation
    if ipts and g.point(i) is not None:
        r = set()
        for q in flow.roots(f):
            r |= g.reach(q, avoid=ipts)
        if g.point(i) not in r:
            return True
    return flow.needs_edge(S, f, i, pred)


def adopt(ctx, m, S, C, guards, calls):
    """a relation found by identifier is stored only after it was resolved"""
    # functions which pass the answer on
    guards = set(guards)
    while True:
        more = set()
        for x in C - guards:
            f = m.fn[x]
            rets = [i for i in f.all() if f.n(i)['k'] == 'Return' and f.n(i).get('c')]
            if not rets or 'bool' not in f.typ(f.n(rets[0])['c'][0]):
                continue
            res = {i for i, t in calls.get(x, []) if t in guards}
            ok = lambda ff, c, a, pol: flow.strip(ff, a) in res and pol
            good = True
            for i in rets:
                v = flow.strip(f, f.n(i)['c'][0])
                if f.n(v)['k'] == 'Ref' and flow.init_of(f, f.n(v).get('d')) is not None:
                    v = flow.strip(f, flow.init_of(f, f.n(v)['d']))
                parts = [v]
                if f.n(v)['k'] == 'Bin' and f.n(v)['op'] == '&&':
                    parts = [flow.strip(f, y) for y in f.n(v)['c']]
                false = f.n(v)['k'] == 'Bool' and str(f.n(v).get('v')).lower() in ('0', 'false')
                if not (false or any(y in res for y in parts) or flow.needs_edge(S, f, i, ok)):
                    good = False
            if good and res:
                more.add(x)
        if not more:
            break
        guards |= more
    for x in sorted(C):
        f = m.fn[x]
        res = {i for i, t in calls.get(x, []) if t in C and (t in guards) and 'bool' in f.typ(i)}
        ok = lambda ff, c, a, pol: flow.strip(ff, a) in res and pol
        for i in f.all():
            n = f.n(i)
            if n['k'] not in ('Call', 'MCall', 'OpCall') or i in res:
                continue
            for a in f.args(i) if n['k'] != 'OpCall' else n['c'][1:]:
                if not relation(m, f, a):
                    continue
                ctx.count('relations adopted')
                if not flow.needs_edge(S, f, i, ok):
                    ctx.violation('adopted:' + f.qn.split('utymap::')[-1], f.loc(i), 'a relation becomes a member although it was not resolved, or is still being resolved: relations can own each other')


def relation(m, f, a):
    """the shared pointer of a relation found in a map of relations"""
    st = [a]
    while st:
        a = flow.strip(f, st.pop())
        n = f.n(a)
        t = f.typ(a)
        if n['k'] == 'Mem' and n.get('n') == 'second' and re.search(r'shared_ptr<utymap::entities::Relation', t):
            return True
        if n['k'] == 'Ref':
            j = flow.init_of(f, n.get('d'))
            if j is not None and 'shared_ptr' in t:
                st.append(j)
        elif n['k'] in ('Ctor',) and len(n.get('c', [])) == 1:
            st.append(n['c'][0])
        elif n['k'] == 'Call' and short(f, a) in ('move', 'static_pointer_cast') and f.args(a):
            st.append(f.args(a)[0])
    return False
