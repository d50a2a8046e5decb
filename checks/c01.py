"""No C++ exception crosses the native interface; every handler on the way reports."""
from throws import Throws
from ctx import AnalysisBroken

LEVEL = 'other'


def entry_points(m):
    return [f for f in m.fn.values() if f.decl.get('extc') and f.file.startswith('core/shared/')]


def is_fnptr(m, t):
    x = m.tk(t)
    return x.get('k') == 'ptr' and m.tk(x['p']).get('k') == 'fn'


def error_cb_type(m, t):
    """void(*)(const char*) parameters: candidates for an error (or directory) callback"""
    if not is_fnptr(m, t):
        return False
    fn = m.tk(m.tk(t)['p'])
    return fn.get('ret') == 'void' and fn.get('params') == ['const char *']


def check(ctx):
    m = ctx.m
    T = Throws(m)
    ctx.rule('R1: for every exported function that receives an error callback, no exception (explicit throw, throwing standard/boost/clipper operation, '
             'anywhere in its resolved call tree) may leave it uncaught')
    ctx.rule('R2: every exception handler in the call tree of such a function calls the error callback it was given, or throws again, on every path')
    ctx.rule('R3: a function declared noexcept (or a destructor) in that call tree lets no exception out')
    eps = entry_points(m)
    with_cb = []
    for f in eps:
        ps = [p for p in f.params if error_cb_type(m, p['t']) and 'rror' in p['n']]
        # identified by the declared type used for errors: the parameter forwarded to a handler
        if ps:
            with_cb.append((f, ps[0]))
        ctx.count('exported functions')
    for f, p in with_cb:
        ctx.count('exported functions with an error callback')
        ctx.sample(f.qn)
        for t in sorted(T.out.get(f.id, {})):
            tr = T.trace(f.id, t)
            ctx.violation('escape:%s:%s' % (f.qn, t), f.loc(), '%s may let %s escape to the native caller instead of reporting it through the error callback' % (f.qn, t), tr)
    ctx.require('exported functions with an error callback', 6)
    reach, par = m.reachable([f.id for f, _ in with_cb])
    ctx.count('functions reachable from them', len(reach))
    # R2
    nthrow = 0
    for fid in sorted(reach):
        f = m.fn[fid]
        nthrow += len(T.local.get(fid, []))
        d = f.decl
        if (d.get('noex') or d.get('kind') == 'dtor') and T.out.get(fid):
            t = sorted(T.out[fid])[0]
            ctx.violation('noexcept:%s' % f.qn, f.loc(), '%s cannot throw by declaration but lets %s out: the process terminates' % (f.qn, t), T.trace(fid, t))
        for i in f.all():
            if f.n(i)['k'] != 'Catch':
                continue
            ctx.count('exception handlers')
            if conversion_default(m, f, i):
                ctx.count('handlers that turn a failed text conversion into the documented default')
                continue
            if not handler_reports(m, f, i):
                ctx.violation('swallow:%s:%s' % (f.qn, f.n(i)['ct']), f.loc(i), 'handler for %s in %s neither reports through the error callback nor rethrows on every path' % (f.n(i)['ct'], f.qn),
                              m.path_to(par, fid))
    ctx.count('throwing operations in reach', nthrow)
    ctx.require('throwing operations in reach', 30)
    ctx.require('exception handlers', 2)
    ctx.assumptions += ['caller-supplied callbacks do not throw', 'allocation failure (bad_alloc) is not considered', 'standard, boost and clipper operations throw as listed in lib/throws.py']


def conversion_default(m, f, c):
    """catch (bad_lexical_cast) around nothing but the conversion itself: the value is optional by contract (parseDouble's default)"""
    if m.deref(f.n(c)['ct']) != 'boost::bad_lexical_cast':
        return False
    t = f.parent[c]
    ops = [i for i in f.walk(f.n(t)['c'][0]) if f.n(i)['k'] in ('Call', 'MCall', 'Throw') or (f.n(i)['k'] == 'OpCall' and f.n(i)['op'] == '()')]
    return all(f.cqn(i).startswith('boost::lexical_cast') or f.cqn(i).endswith('lexicalCast') for i in ops)


def handler_reports(m, f, c):
    """every path from the handler's entry to the function exit calls a void(const char*) function pointer, throws, or converts"""
    g = f.cfg
    h = g.handlers.get(c)
    if h is None:
        return False
    good = set()
    for i in f.walk(c):
        n = f.n(i)
        if n['k'] == 'Throw':
            good.add(g.point(i))
        if n['k'] == 'Call' and not n.get('f'):
            t = f.typ(n['c'][0])
            x = m.tk(m.deref(t))
            if x.get('k') == 'fn' and x.get('params') == ['const char *']:
                good.add(g.point(i))
        elif n['k'] in ('Call', 'MCall') and n.get('f') in m.fn and reports_fn(m, n['f'], set()):
            good.add(g.point(i))
    r = g.reach(h, avoid=[p for p in good if p is not None])
    return g.exit not in r and bool(good)


def reports_fn(m, fid, seen):
    """helper that reports on every path"""
    if fid in seen:
        return False
    seen.add(fid)
    f = m.fn[fid]
    if f.rawcfg is None:
        return False
    g = f.cfg
    good = set()
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Throw':
            good.add(g.point(i))
        elif n['k'] == 'Call' and not n.get('f'):
            x = m.tk(m.deref(f.typ(n['c'][0])))
            if x.get('k') == 'fn' and x.get('params') == ['const char *']:
                good.add(g.point(i))
        elif n['k'] in ('Call', 'MCall') and n.get('f') in m.fn and reports_fn(m, n['f'], seen):
            good.add(g.point(i))
    return bool(good) and g.exit not in g.reach(g.entry, avoid=[p for p in good if p is not None])
