"""Reusable polygon clippers and offsetters: subjects of one run are gone before the next one."""
import re
from guards import Guards
from typestate import Typestate
import flow

LEVEL = 'other'
CLEAR = ('Clear', 'removeSubject', 'moveSubjectToClip')
E, A, X = 'empty', 'added', 'executed'


class Clip(Typestate):
    STATES = (E, A, X)


def kind(m, t):
    mo = re.search(r'ClipperLib::(ClipperEx|ClipperOffset|ClipperBase|Clipper)\b', t)
    return mo.group(1) if mo and 'vector' not in t else None


def event(m, S, f, i):
    n = f.n(i)
    if n['k'] != 'MCall':
        return None
    d = f.callee(i)
    if not d or f.obj(i) is None or 'ClipperLib' not in d.get('qn', ''):
        return None
    o = S.path(f, f.obj(i))
    if o is None:
        return None
    if n.get('arrow') and f.n(f.obj(i))['k'] != 'This' and not S.arrowop(f, f.obj(i)):
        o = S.deref(o)
    nm = d['n']
    if nm in ('AddPath', 'AddPaths'):
        if 'ClipperOffset' in d['qn']:
            return 'add', o
        a = f.args(i)
        pt = S.path(f, a[1]) if len(a) > 1 else None
        e = f.expr(a[1]) if len(a) > 1 else ''
        if 'ptClip' in e or pt == '#1':
            return 'clip', o
        return 'add', o
    if nm == 'Execute':
        return 'run', o
    if nm in CLEAR:
        return ('clear' if nm != 'Clear' else 'clearall'), o
    return None


def delta(s, ev):
    if ev == 'add':
        return A, ('leftover' if s == X else None)
    if ev == 'run':
        return (X if s != E else E), None
    if ev in ('clear', 'clearall'):
        return E, None
    return s, None


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('typestate of every clipper and offsetter (by access path, across helpers): contours are added only while none of an executed run are left')
    ctx.rule('a function that got a clipper which lives on (member or reference) leaves it without subjects on every way out, unless its caller removes them')
    ctx.rule('clip contours are given to a member clipper in its constructor (and it is then never cleared as a whole) or it is cleared as a whole after its run')

    ev = {}
    for f in m.fn.values():
        for i in f.all():
            e = event(m, S, f, i)
            if e:
                ev[(f.id, i)] = e
    T = Clip(m, S, lambda f, i: [ev[(f.id, i)]] if (f.id, i) in ev else [], delta, E)
    for (fid, i), e in sorted(ev.items()):
        ctx.count({'add': 'additions of subjects', 'clip': 'additions of clip contours', 'run': 'executions'}.get(e[0], 'removals'))
    for fid in sorted(T.res):
        for p in T.res[fid]:
            ctx.count('tracked clippers in functions')
    for e, fid, i, p, o in T.errors():
        f = m.fn[fid]
        ctx.violation('leftover:%s:%s' % (f.qn, short(p)), f.loc(i), 'adds contours to a clipper which still holds those of the run at %s' % (m.fn[o[0]].loc(o[1]) if o else 'its caller'))
    for fid, p, s, o, local, s0 in T.exits():
        f = m.fn[fid]
        if s == E or local or s == s0 and not o:
            continue
        if tracked(m, S, T, f, p):
            continue
        g, i = (m.fn[o[0]], o[1]) if o else (f, None)
        ctx.violation('left:%s:%s' % (g.qn, short(p)), g.loc(i) if i is not None else f.loc(), 'a clipper that is used again keeps the contours added here when %s returns' % f.qn)
    # clip contours of members
    clips = {}
    alls = {}
    for fid in sorted(T.res):
        f = m.fn[fid]
        for p, (IN, errs, rel, local) in T.res[fid].items():
            for i, k, x in rel:
                if k == 'ev' and x in ('clip', 'clearall') and p.startswith('this.'):
                    (clips if x == 'clip' else alls).setdefault(p, []).append((f, i))
                elif k == 'call':
                    for t, q in x[0]:
                        if not q.startswith('this.') and p.startswith('this.'):
                            for j, k2, y in (T.res.get(t, {}).get(q) or (0, 0, (), 0))[2]:
                                if k2 == 'ev' and y in ('clip', 'clearall'):
                                    (clips if y == 'clip' else alls).setdefault(p, []).append((f, i))
    for p, L in sorted(clips.items()):
        inctor = [x for x in L if x[0].kind == 'ctor']
        later = [x for x in L if x[0].kind != 'ctor']
        ctx.count('member clippers with clip contours')
        if inctor:
            for f, i in alls.get(p, []):
                if f.kind != 'ctor':
                    ctx.violation('clipcleared:%s:%s' % (f.qn, short(p)), f.loc(i), 'clears the clip contours that only the constructor sets')
            for f, i in later:
                ctx.violation('clipadded:%s:%s' % (f.qn, short(p)), f.loc(i), 'adds clip contours to a clipper set up by its constructor: later runs see them')
        elif later and not alls.get(p):
            f, i = later[0]
            ctx.violation('clipkept:%s:%s' % (f.qn, short(p)), f.loc(i), 'clip contours added here are never cleared')
        elif later:
            # every run is followed by clearing everything
            for fid in sorted(T.res):
                f = m.fn[fid]
                if p not in T.res[fid]:
                    continue
                for i, k, x in T.res[fid][p][2]:
                    runs = k == 'ev' and x == 'run' or k == 'call' and any(ev_in(T, t, q, 'run') for t, q in x[0])
                    if not runs or f.kind == 'ctor':
                        continue
                    good = {f.cfg.point(j) for j, k2, y in T.res[fid][p][2] if k2 == 'ev' and y == 'clearall' or k2 == 'call' and all(ev_in(T, t, q, 'clearall') for t, q in y[0])}
                    if f.cfg.point(i) in good:
                        continue
                    if not flow.must_hit(f, f.cfg.point(i), good):
                        # the callers may do it
                        if not after_callers(m, T, f, p, ev_in, 0):
                            ctx.violation('cliprun:%s:%s' % (f.qn, short(p)), f.loc(i), 'the clip contours of this run are not cleared on every way out')
    ctx.require('additions of subjects', 3)
    ctx.require('executions', 3)


def ev_in(T, t, q, ev, depth=0):
    r = T.res.get(t, {}).get(q)
    if not r or depth > 6:
        return False
    return any(k == 'ev' and x == ev or k == 'call' and any(ev_in(T, t2, q2, ev, depth + 1) for t2, q2 in x[0]) for i, k, x in r[2])


def after_callers(m, T, f, p, ev_in, depth):
    cs = m.callers(f.id)
    if not cs or depth > 4 or not p.startswith('this.'):
        return False
    for c, ci in cs:
        g = m.fn[c]
        r = T.res.get(c, {}).get(p)
        if not r:
            return False
        good = {g.cfg.point(j) for j, k2, y in r[2] if k2 == 'ev' and y == 'clearall' or k2 == 'call' and all(ev_in(T, t, q, 'clearall') for t, q in y[0])}
        if not flow.must_hit(g, g.cfg.point(ci), good) and not after_callers(m, T, g, p, ev_in, depth + 1):
            return False
    return True


def tracked(m, S, T, f, p):
    """every caller knows the clipper by a name of its own"""
    cs = m.callers(f.id)
    if not cs or f.decl.get('virt') or any(f.id in m.virt_targets(b) for b in ()):
        return False
    for c, ci in cs:
        g = m.fn[c]
        if g.rawcfg is None:
            return False
        if held_by_local(m, S, T, g, ci, f, p):
            continue
        if not any(k == 'call' and j == ci and any(t == f.id and q == p for t, q in x[0]) for pp, (IN, errs, rel, local) in T.res.get(c, {}).items() for j, k, x in rel):
            return False
    return True


def held_by_local(m, S, T, g, ci, f, p):
    """the clipper the caller passes hangs off a variable of its own, under no stable name"""
    r = T.rootvar(p)
    if r is None:
        return False
    j = [k for k, q in enumerate(f.params) if str(q['d']) == r]
    if not j:
        return False
    a = g.args(ci)[j[0]]
    if S.path(g, a) is not None:
        return False
    while True:
        a = flow.strip(g, a)
        n = g.n(a)
        if n['k'] == 'Ref':
            return str(n.get('d')) in T.owned(g) and not g.typ(a).rstrip().endswith('&')
        if n['k'] == 'This' or not n.get('c'):
            return False
        a = n['c'][0]


def short(p):
    return re.sub(r'@\d+:\d+(#\d+)?', '', p).replace('utymap::', '')[-60:]
