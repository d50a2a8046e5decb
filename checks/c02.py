"""Mutable state shared by concurrent requests is only touched under one lock that guards it."""
from collections import defaultdict
from locks import Locks
from effects import Effects

LEVEL = 'other'
# the documented life cycle: these are called before / after all requests, never concurrently with them
SETUP = {'connect', 'disconnect', 'registerInMemoryStore', 'registerPersistentStore', 'enableMeshCache'}
# library calls with hidden process-wide state
UNSAFE = {'rand', 'srand', 'std::rand', 'std::srand', 'strtok', 'std::strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'std::localtime', 'std::gmtime', 'std::ctime', 'std::asctime',
          'setlocale', 'std::setlocale', 'std::locale::global', 'strerror', 'std::strerror', 'tmpnam', 'std::tmpnam', 'setenv', 'putenv', 'unsetenv', 'chdir', 'drand48', 'lrand48', 'srand48', 'random', 'srandom'}


def requests(m):
    return [f for f in m.fn.values() if f.decl.get('extc') and f.file.startswith('core/shared/') and f.name not in SETUP]


def app_class(m):
    """the class of the process-wide application object: what exported functions work on"""
    out = set()
    for g, d in m.globals.items():
        t = m.tk(d['t'])
        while t.get('k') in ('ptr', 'ref'):
            t = m.tk(t['p'])
        if t.get('k') == 'rec' and t.get('src'):
            out.add((g, t['r']))
        for a in t.get('args', []):
            x = m.tk(a)
            if x.get('k') == 'rec' and x.get('src'):
                out.add((g, x['r']))
    return out


def shared_classes(m):
    seen = {}

    def owned(t, via):
        x = m.tk(t)
        if x.get('k') == 'rec':
            if x.get('src'):
                rec(x['r'], via)
            else:
                for a in x.get('args', []):
                    if a in m.types:
                        owned(a, via)
        elif x.get('k') == 'arr':
            owned(x['p'], via)

    def rec(r, via):
        if r in seen:
            return
        seen[r] = via
        for f in m.fields(r):
            owned(f['t'], via + [f['n']])
        for d in m.derived.get(r, ()):
            rec(d, via)
    roots = app_class(m)
    for g, r in sorted(roots):
        rec(r, [g])
    return seen, roots


def construction_only(m, reach):
    """constructors, and helpers called by nothing else"""
    cons = {f for f in reach if m.fn[f].kind in ('ctor', 'dtor')}
    ch = True
    while ch:
        ch = False
        for f in reach:
            if f in cons:
                continue
            cs = {c for c, _ in m.callers(f)}
            if cs and cs <= cons and m.fn[f].decl.get('clsn') in {m.fn[c].decl.get('clsn') for c in cs}:
                cons.add(f)
                ch = True
    return cons


def by_value_local(m, f, node):
    """the object whose member is touched is a variable of the function itself"""
    n = f.n(node)
    while True:
        k = n['k']
        if k == 'Mem':
            if n.get('arrow') or not n.get('c'):
                return False
            n = f.n(n['c'][0])
        elif k in ('Cast',):
            n = f.n(n['c'][0])
        elif k == 'Ref':
            if n['dk'] == 'local':
                t = local_type(f, n['d'])
                return t is not None and m.tk(t).get('k') not in ('ref', 'rref', 'ptr')
            if n['dk'] == 'param':
                for p in f.params:
                    if p['d'] == n['d']:
                        return m.tk(p['t']).get('k') not in ('ref', 'rref', 'ptr')
            return False
        elif k in ('Ctor', 'Call', 'MCall', 'InitList'):
            return k in ('Ctor', 'InitList')
        else:
            return False


def local_type(f, d):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Decl':
            for v in n['vars']:
                if v['d'] == d:
                    return v['t']
    return None


def check(ctx):
    m = ctx.m
    L = Locks(m, skip_construction=True)
    E = Effects(m)
    ctx.rule('R1: a data member of an object reachable by ownership from the process-wide application object, which code reachable from a request modifies outside '
             'construction, is read and modified (directly or through a reference, pointer or iterator obtained from it) only while one common mutex is held')
    ctx.rule('R2: a global or static variable modified by code reachable from a request is accessed under one common mutex, or is thread_local or atomic')
    ctx.rule('R3: request code calls no library function with hidden process-wide state')
    shared, roots = shared_classes(m)
    ctx.count('classes shared by ownership', len(shared))
    ctx.require('classes shared by ownership', 8)
    req = requests(m)
    ctx.count('request functions', len(req))
    ctx.require('request functions', 5)
    reach, par = m.reachable([f.id for f in req])
    ctx.count('functions reachable from requests', len(reach))
    cons = construction_only(m, reach)
    sf = {}
    for r in shared:
        for fl in m.fields(r, False):
            sf[fl['id']] = (r, fl)
    mut = defaultdict(list)
    gmut = defaultdict(list)
    value_classes = value_only(m, shared, reach)
    E.value_classes = value_classes
    ctx.count('shared classes judged at their owner', len(value_classes))
    for fid in sorted(reach):
        f = m.fn[fid]
        for kind, root, node in E.mutations(f):
            if kind == 'f' and root in sf and fid not in cons and sf[root][0] not in value_classes:
                mut[root].append((f, node))
            elif kind == 'g':
                gmut[root].append((f, node))
    acc = defaultdict(list)
    for fid in sorted(reach):
        if fid in cons:
            continue
        f = m.fn[fid]
        for fld, i in field_uses(m, E, f):
            if fld in mut:
                acc[fld].append((f, i))
    for fld in sorted(mut):
        r, fl = sf[fld]
        if is_sync(m, fl['t']):
            continue
        sites = []
        for f, i in acc[fld]:
            if by_value_local(m, f, i):
                continue
            h = L.held(f, i)
            if h is None:
                continue
            sites.append((f, i, h | lent(m, L, f, i, fld)))
        for f, i in mut[fld]:
            if not any(s[0] is f for s in sites) and not by_value_mut(m, f, i, fld):
                h = L.held(f, i)
                if h is not None:
                    sites.append((f, i, h | lent(m, L, f, i, fld)))
        if not sites:
            continue
        if not any(f is g for f, i in mut[fld] for g, _, _ in sites):
            continue
        ctx.count('shared members modified by requests')
        ctx.count('accesses of those members', len(sites))
        common = frozenset.intersection(*[h for _, _, h in sites])
        if common:
            ctx.sample('%s guarded by %s (%d accesses)' % (fld, sorted(common)[0].rsplit('::', 1)[-1], len(sites)))
            continue
        # the lock most sites hold
        votes = defaultdict(int)
        for _, _, h in sites:
            for l in h:
                votes[l] += 1
        best = max(votes, key=lambda l: (votes[l], l)) if votes else None
        seen = set()
        for f, i, h in sites:
            if best is not None and best in h:
                continue
            key = 'unguarded:%s:%s' % (fld, f.qn)
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(key, f.loc(i), '%s accesses %s without %s; requests modify it concurrently (e.g. %s)' % (
                f.qn, fld, ('holding ' + best) if best else 'any lock', mut[fld][0][0].loc(mut[fld][0][1])), m.path_to(par, f.id))
    ctx.require('shared members modified by requests', 5)
    for g in sorted(gmut):
        d = m.globals.get(g) or {}
        if not d.get('src') or d.get('tls') or is_sync(m, d.get('t', '')):
            continue
        sites = []
        for fid in reach:
            f = m.fn[fid]
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Ref' and n['d'] == g and n['dk'] in ('global', 'static'):
                    h = L.held(f, i)
                    if h is not None:
                        sites.append((f, i, h))
        if not sites:
            continue
        ctx.count('global variables modified by requests')
        if not frozenset.intersection(*[h for _, _, h in sites]):
            f, i = gmut[g][0]
            ctx.violation('global:%s' % g, f.loc(i), 'request code modifies the global %s without a common lock' % g, m.path_to(par, f.id))
    for fid in sorted(reach):
        f = m.fn[fid]
        for i in f.calls():
            if f.cqn(i) in UNSAFE and f.callee(i) and not f.callee(i).get('src'):
                h = L.held(f, i)
                ctx.violation('unsafe:%s:%s' % (f.qn, f.cqn(i)), f.loc(i), '%s called by a request: it keeps process-wide state no lock of this program guards' % f.cqn(i), m.path_to(par, fid))
            ctx.count('call sites checked against the list of thread-unsafe library functions')
    ctx.assumptions += ['connect, disconnect, store registration and cache switching do not run concurrently with requests (documented life cycle)',
                        'two objects of one class use the mutex of the same object (lock identity is the mutex member)',
                        'configuration values owned by a single request (meshes, elements, parsed styles under construction) are not shared: they are reached through local variables']


def is_sync(m, t):
    t = m.deref(t)
    return 'mutex' in t or t.startswith('std::atomic') or 'once_flag' in t or 'condition_variable' in t


def value_only(m, shared, reach):
    """classes of which request code makes private instances (locals, temporaries, heap objects) and which hold no mutex:
    they are judged where a shared object holds them"""
    def has_mutex(r, seen):
        if r in seen:
            return False
        seen.add(r)
        for fl in m.fields(r):
            # a mutex, or an open stream (a position shared by everyone who uses the object): not a plain value
            if is_sync(m, fl['t']) or 'stream' in m.tmpl(fl['t']) or (m.tmpl(fl['t']) == 'std::unique_ptr' and 'stream' in (m.targs(fl['t']) or [''])[0]):
                return True
            x = m.tk(fl['t'])
            if x.get('k') == 'rec' and x.get('src') and has_mutex(x['r'], seen):
                return True
            if x.get('tmpl') == 'std::unique_ptr' and x.get('args'):
                y = m.tk(x['args'][0])
                if y.get('src') and any(has_mutex(q, seen) for q in [y['r']] + list(m.derived.get(y['r'], ()))):
                    return True
        return False
    inst = set()
    for fid in reach:
        f = m.fn[fid]
        for i in f.all():
            n = f.n(i)
            ts = []
            if n['k'] == 'Decl':
                ts = [v['t'] for v in n['vars']]
            elif n['k'] in ('Ctor', 'InitList'):
                ts = [n.get('t', '')]
            for t in ts:
                x = m.tk(t)
                if x.get('k') == 'rec' and x.get('src'):
                    inst.add(x['r'])
        for p in f.params:
            x = m.tk(p['t'])
            if x.get('k') == 'rec' and x.get('src'):
                inst.add(x['r'])
    for r in list(inst):
        inst |= set(m.allbases.get(r, ()))
    return {r for r in shared if r in inst and not has_mutex(r, set())}


def by_value_mut(m, f, i, fld):
    """find the member expression inside node i that denotes fld and look whether it belongs to a local object"""
    for j in f.walk(i):
        n = f.n(j)
        if n['k'] == 'Mem' and n['d'] == fld:
            if by_value_local(m, f, j):
                return True
    return False


def lent(m, L, f, i, fld):
    """locks held wherever an object is made through whose reference member the shared member is touched: it lives no longer than they are held"""
    out = frozenset()
    for j in f.walk(i):
        n = f.n(j)
        if n['k'] != 'Mem' or n['d'] == fld or not m.field(n['d']) or m.tk(m.field(n['d'])['t']).get('k') not in ('ref', 'ptr'):
            continue
        K = m.field(n['d']).get('rec', n['d'].rsplit('::', 1)[0])
        common = None
        for ct in m.fn.values():
            if ct.kind != 'ctor' or ct.cls != K or ct.decl.get('copy') or ct.decl.get('move'):
                continue
            for c, ci in m.callers(ct.id):
                g = m.fn[c]
                a = ci
                while a is not None and a >= 0 and g.n(a)['k'] not in ('Decl', 'New', 'Return', 'Call', 'MCall', 'Bin', 'Lambda'):
                    a = g.parent[a]
                if a is None or a < 0 or g.n(a)['k'] != 'Decl':
                    return frozenset()
                h = L.held(g, ci) or frozenset()
                if any(g.n(x)['k'] == 'MCall' and (g.callee(x) or {}).get('n') == 'unlock' for x in g.all()):
                    h = frozenset()
                common = h if common is None else common & h
        out |= common or frozenset()
    return out


def field_uses(m, E, f):
    """(field, node): member expressions, and uses of local references / pointers / iterators that denote a part of the field"""
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Mem':
            if m.field(n['d']):
                yield n['d'], i
                if m.tk(m.field(n['d'])['t']).get('k') in ('ref', 'ptr'):
                    for kind, root, _ in E.bound(n['d'], 0):
                        if kind == 'f':
                            yield root, i
        elif n['k'] == 'Ref' and n['dk'] == 'local':
            for kind, root, _ in E.roots(f, i):
                if kind == 'f':
                    yield root, i
