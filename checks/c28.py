"""Each kind of element keeps its kind through import, storage, filtering, clipping, styling and export."""
import re
import flow
from guards import Guards
from ranks import clean

LEVEL = 'other'


def art(k):
    return ('an ' if k[0] in 'AEIOUaeiou' else 'a ') + k.lower()

KINDS = ('Node', 'Way', 'Area', 'Relation')
ENT = 'utymap::entities::'
CHAR = ('char', 'unsigned char', 'signed char', 'std::uint8_t', 'uint8_t', 'int8_t', 'std::int8_t')
WORDS = {'node': 'Node', 'n': 'Node', 'way': 'Way', 'w': 'Way', 'area': 'Area', 'relation': 'Relation', 'r': 'Relation'}


def kindof(t):
    """the element kind a type is (a reference or pointer to, or an owner of)"""
    t = clean(t)
    mo = re.match(r'(?:std::)?(?:shared_ptr|unique_ptr|__shared_ptr)<(?:const )?(?:utymap::entities::)(\w+)\b', t)
    if mo:
        return mo.group(1) if mo.group(1) in KINDS else None
    t = t.rstrip('*& ').replace('const ', '')
    return t[len(ENT):] if t.startswith(ENT) and t[len(ENT):] in KINDS else None


def iscancel(f, facts, a, ap):
    return f.n(a)['k'] in ('MCall', 'Call') and ap and 'isCancelled' in (f.cqn(a) or '')


def created(f, i):
    """kind of the element which node i creates"""
    n = f.n(i)
    if n['k'] in ('Call', 'MCall'):
        q = re.sub(r'<.*', '', f.cqn(i) or '')
        if q.rsplit('::', 1)[-1] in ('make_shared', 'make_unique'):
            return kindof(f.typ(i))
    if n['k'] in ('Ctor', 'New', 'TempObj'):
        if n['k'] == 'Ctor' and len(n.get('c', [])) == 1 and kindof(f.typ(n['c'][0])) == kindof(f.typ(i)) and n.get('move'):
            return None
        t = clean(f.typ(i))
        if t.startswith(ENT):
            return kindof(t)
    return None


def visitmethods(m):
    """{class: {kind: visit method}}"""
    out = {}
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or len(f.params) != 1 or not f.cls or f.isLambda:
            continue
        k = kindof(f.params[0]['t'])
        if k and f.name == 'visit' + k and 'const' in f.params[0]['t']:
            out.setdefault(f.cls, {})[k] = f
    return out


def arguments(f, i):
    n = f.n(i)
    if n['k'] == 'OpCall':
        return n['c'][1:] if n['op'] in ('()', '<<', '+=', '=') else n['c']
    if n['k'] in ('Call', 'MCall'):
        return f.args(i)
    return n.get('c', [])


def refers(f, i, d, whole=False):
    """does the expression pass on variable d (whole: itself rather than a part of it)"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Ref':
        return n.get('d') == d
    if whole:
        if n['k'] == 'Un' and n['op'] in ('&', '*') or n['k'] in ('Ctor', 'InitList', 'TempObj'):
            return any(refers(f, c, d, True) for c in n.get('c', []))
        return False
    return any(f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d for x in f.walk(i))


def single(f, i):
    """one fixed member of a relation"""
    for x in f.walk(i):
        n = f.n(x)
        if n['k'] == 'OpCall' and n['op'] == '[]' or n['k'] == 'MCall' and (f.cqn(x) or '').rsplit('::', 1)[-1] in ('at', 'front', 'back'):
            o = flow.strip(f, n['c'][0])
            if f.n(o)['k'] == 'Mem' and f.n(o)['n'] == 'elements' and (n['k'] == 'OpCall' and f.n(flow.strip(f, n['c'][1]))['k'] == 'Int' or n['k'] == 'MCall' and all(f.n(flow.strip(f, a))['k'] == 'Int' for a in f.args(x))):
                return True
    return False


def pure(f, i):
    """a call which merely asks something"""
    n = f.n(i)
    return clean(f.typ(i)) == 'bool' or (f.cqn(i) or '').rsplit('::', 1)[-1] in ('size', 'begin', 'end', 'cbegin', 'cend', 'reserve', 'empty', 'forElement', 'hasStyle')


def deliveries(m, f, d, whole=False):
    """CFG points of f at which the element d, or a part of it, is passed on"""
    out = set()
    for i in f.all():
        n = f.n(i)
        p = None
        if n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'New'):
            if n['k'] == 'OpCall' and n['op'] in ('==', '!=', '[]', '!', '<', '*', '->', '++'):
                continue
            if n['k'] in ('Call', 'MCall', 'OpCall') and pure(f, i) and not (n['k'] == 'OpCall' and n['op'] == '<<'):
                continue
            if any(refers(f, a, d, whole) and not single(f, a) and clean(f.typ(flow.strip(f, a))) not in ('unsigned long', 'std::uint64_t', 'uint64_t') for a in arguments(f, i)):
                p = f.cfg.point(i)
            elif n['k'] == 'MCall' and n.get('c') and (f.cqn(i) or '').endswith('::accept') and refers(f, n['c'][0], d, True):
                p = f.cfg.point(i)
        elif n['k'] == 'RFor' and not whole and refers(f, n['range'], d):
            # members handed on one by one
            if any(f.n(x)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor') and not pure(f, x) and
                   (any(refers(f, a, n['var']) for a in arguments(f, x)) or f.n(x)['k'] == 'MCall' and f.n(x).get('c') and refers(f, f.n(x)['c'][0], n['var']))
                   for x in f.walk(n['body'])):
                p = f.cfg.point(n['range'])
        if p is not None:
            out.add(p)
    return out


def declined(f_, facts, a, ap):
    """branches that decline an element: a filter, a place outside, an empty result"""
    n = f_.n(a)
    if n['k'] in ('MCall', 'Call', 'OpCall'):
        if n['k'] == 'OpCall' and n['op'] == '()':
            return not ap
        nm = (f_.cqn(a) or '').rsplit('::', 1)[-1]
        if nm in ('contains', 'intersects'):
            return not ap
        if nm == 'isCancelled':
            return ap
    return nullres(f_, a, ap)


def nullres(f, a, ap):
    n = f.n(a)
    if n['k'] in ('Bin', 'OpCall') and n['op'] in ('==', '!='):
        for x, y in ((0, 1), (1, 0)):
            if f.n(flow.strip(f, n['c'][y]))['k'] == 'Null' or 'nullptr_t' in f.typ(flow.strip(f, n['c'][y])):
                return (n['op'] == '==') == ap
    if n['k'] == 'MCall' and 'operator bool' in (f.cqn(a) or ''):
        return not ap
    return False


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('a visitor which passes on at least three kinds of elements passes on all four, on every path, unless a filter or the area declines the element')
    ctx.rule('a visitor or clipping step never turns one kind into another; only parts of a clipped element are wrapped in a relation, with the id and the tags of the original')
    ctx.rule('the type mark written for a kind is the one from which the reader makes that kind, and no two kinds share one')
    ctx.rule('the style rules consulted for a kind are those the style sheet states for the selector of that name')
    ctx.rule('words and marks that name a kind in input select the collections and visit operations of that kind')
    ctx.rule('an import hands over every collected kind')
    ctx.rule('ways are clipped as open lines, areas as closed ones; closed input becomes an area, open input a way')
    vm = visitmethods(m)
    forwarders(ctx, m, S, vm)
    conversions(ctx, m, S)
    marks(ctx, m, S, vm)
    selectors(ctx, m, S, vm)
    words(ctx, m, S)
    shapes(ctx, m, S)
    handover(ctx, m, S)
    closed(ctx, m, S)
    rings(ctx, m, S)
    clipped(ctx, m, S)
    ctx.require('element visitors', 5)


def base(q):
    return re.sub(r'<.*', '', q).rsplit('::', 1)[-1]


def forwarders(ctx, m, S, vm):
    for cls in sorted(vm):
        ms = vm[cls]
        if len(ms) < 4:
            continue
        builder = any(b.endswith('ElementBuilder') for b in [cls] + sorted(bases(m, cls)))
        ctx.count('element visitors')
        some = {}
        total = {}
        whole = {}
        for k, f in ms.items():
            d = f.params[0]['d']
            pts = deliveries(m, f, d, builder)
            some[k] = bool(pts)
            ok = flow.edges(S, f, declined)
            total[k] = flow.must_hit(f, f.cfg.entry, pts | (deliveries(m, f, d) if builder and pts else set()), ok)
            whole[k] = bool(deliveries(m, f, d, True))
        if builder and not all(forwards(m, ms[k]) for k in KINDS if some[k]):
            # a builder which makes something of the element itself need not know every kind
            ctx.count('builders of their own')
            continue
        if sum(some.values()) < 3:
            continue
        ctx.count('visitors passing elements on')
        for k in KINDS:
            if not total[k]:
                what = 'ignores' if not some[k] else 'can leave out'
                ctx.violation('forgets:%s:%s' % (base(cls), k), ms[k].loc(), '%s passes other kinds of elements on, but %s %ss' % (base(cls), what, k.lower()))
        if all(whole[k] for k in KINDS[:3]) and not whole['Relation'] and not builder:
            ctx.violation('members:%s' % base(cls), ms['Relation'].loc(), '%s passes on the members of a relation instead of the relation' % base(cls))


def bases(m, cls):
    out = set()
    st = [cls]
    while st:
        r = m.records.get(st.pop())
        for b in (r or {}).get('bases', []):
            q = clean(b if isinstance(b, str) else b.get('t', b.get('qn', '')))
            if q not in out:
                out.add(q)
                st.append(q)
    return out


def forwards(m, f):
    """does the builder's method only hand the element to another visitor, a callback or a helper shared by all kinds"""
    d = f.params[0]['d']
    for i in f.all():
        n = f.n(i)
        if n['k'] in ('Call', 'MCall', 'OpCall') and any(refers(f, a, d, True) for a in arguments(f, i)):
            if n['k'] == 'OpCall' and n['op'] == '()':
                return True
            if (f.cqn(i) or '').rsplit('::', 1)[-1] == f.name:
                return True
    return False


def conversions(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src') or f.isLambda:
            continue
        ks = {kindof(p['t']) for p in f.params if 'const' in p['t']} - {None}
        if len(ks) != 1:
            continue
        k = ks.pop()
        for i in f.all():
            c = created(f, i)
            if not c:
                continue
            ctx.count('elements made from others')
            if c == k:
                continue
            if c == 'Relation' and pushes(m, f):
                continue
            ctx.violation('converts:%s:%s' % (base(f.qn) if not f.cls else base(f.cls) + '::' + f.name, k), f.loc(i), '%s is turned into %s' % (art(k), art(c)))


def pushes(m, f):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'MCall' and (f.cqn(i) or '').rsplit('::', 1)[-1] in ('push_back', 'emplace_back', 'insert', 'assign') and n.get('c'):
            o = flow.strip(f, n['c'][0])
            if f.n(o)['k'] == 'Mem' and f.n(o)['n'] == 'elements':
                return True
        if flow.assign(f, i) is not None:
            o = flow.strip(f, flow.assign(f, i))
            if f.n(o)['k'] == 'Mem' and f.n(o)['n'] == 'elements':
                return True
    return False


def const(m, f, i):
    """integer constant of an expression"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n.get('cv') is not None and re.fullmatch(r'-?\d+', str(n['cv'])):
        return int(n['cv'])
    if n['k'] in ('Int', 'Char'):
        return int(n['v'])
    if n['k'] == 'Ref' and n.get('d'):
        j = flow.init_of(f, n['d'])
        if j is not None and j >= 0:
            return const(m, f, j)
        g = m.globals.get(n['d'])
        if g and g.get('v') is not None:
            return int(g['v'])
    if n.get('v') is not None and re.fullmatch(r'-?\d+', str(n['v'])):
        return int(n['v'])
    return None


def reaches(m, S, f, fixed):
    """points of f reachable if every comparison with, and switch over, a constant is decided by fixed(node) -> value or None"""
    g = f.cfg

    def ok(p, q, lab):
        if not lab:
            return True
        if lab[0] == 'case':
            term, l = lab[1], lab[2]
            n = f.n(term)
            v = fixed(n.get('cond', -1))
            if v is None:
                return True
            labels = [int(f.n(x)['v']) for x in f.walk(term) if f.n(x)['k'] == 'Case' and f.n(x).get('v') is not None]
            ln = f.n(l) if l is not None and l >= 0 else None
            if ln is not None and ln['k'] == 'Case':
                return int(ln['v']) == v
            return v not in labels
        if len(lab) != 2:
            return True
        a, ap = flow.normal(S, f, lab[0], lab[1])
        n = f.n(a)
        if n['k'] == 'Bin' and n['op'] in ('==', '!='):
            for x, y in (n['c'], n['c'][::-1]):
                v, c = fixed(x), const(m, f, y)
                if v is not None and c is not None:
                    return ((v == c) == (n['op'] == '==')) == ap
        return True
    r = g.reach(g.entry, edge_ok=ok)
    return r | {g.entry}


def made(m, f, pts, depth=0, seen=()):
    """kinds created at the given points of f or in functions called there which return an element"""
    out = set()
    for i in f.all():
        if f.n(i)['k'] not in ('Call', 'MCall', 'Ctor', 'New'):
            continue
        p = f.cfg.point(i)
        if p is None or p not in pts:
            continue
        c = created(f, i)
        if c:
            out.add(c)
            continue
        if f.n(i)['k'] in ('Call', 'MCall'):
            q = f.cqn(i) or ''
            if kindof(f.typ(i)) and m.fn.get(f.n(i).get('f')) is not None and m.fn[f.n(i)['f']].rawcfg is not None and depth < 4 and m.fn[f.n(i)['f']].decl.get('src'):
                out.add(kindof(f.typ(i)))
    return out


def marks(ctx, m, S, vm):
    """writer: char constants written first per kind; reader: the switch over a char that makes elements"""
    writers = []
    for cls in sorted(vm):
        w = {}
        for k, f in vm[cls].items():
            vs = set()
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'OpCall' and n['op'] == '<<' or n['k'] == 'MCall' and (f.cqn(i) or '').rsplit('::', 1)[-1] in ('put', 'write'):
                    for a in arguments(f, i) if n['k'] == 'MCall' else n['c'][1:]:
                        b = flow.strip(f, a)
                        if n['k'] == 'MCall':
                            while f.n(b)['k'] == 'Un' and f.n(b)['op'] == '&':
                                b = flow.strip(f, f.n(b)['c'][0])
                        if clean(f.typ(b)) in CHAR:
                            v = const(m, f, b)
                            if v is not None:
                                vs.add(v)
                # helper with a constant argument
                elif n['k'] in ('Call', 'MCall') and m.fn.get(n.get('f')) is not None and m.fn[n['f']].decl.get('src'):
                    for a in f.args(i):
                        if clean(f.typ(a)) == 'char' or clean(f.typ(flow.strip(f, a))) == 'char':
                            v = const(m, f, a)
                            if v is not None:
                                vs.add(v)
            if len(vs) == 1:
                w[k] = (vs.pop(), f)
        if len(w) >= 3:
            writers.append((cls, w))
    readers = []
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        rv = {}
        allk = made(m, f, set(range(len(f.cfg.succ))))
        if len(allk) < 3:
            continue
        var = set()
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Switch':
                if clean(f.typ(flow.strip(f, n['cond']))) in CHAR:
                    var.add(f.expr(flow.strip(f, n['cond'])))
            elif n['k'] == 'Bin' and n['op'] in ('==', '!='):
                for x, y in (n['c'], n['c'][::-1]):
                    if const(m, f, y) is not None and clean(f.typ(flow.strip(f, x))) in CHAR:
                        var.add(f.expr(flow.strip(f, x)))
        if len(var) != 1:
            continue
        readers.append((f, var.pop()))
    for cls, w in writers:
        ctx.count('writers of type marks')
        vals = {}
        for k, (v, f) in w.items():
            if v in vals:
                ctx.violation('mark:%s:%s' % (base(cls), k), f.loc(), '%s is written with the mark of %s' % (art(k), art(vals[v])))
            vals[v] = k
        for f, var in readers:
            ctx.count('readers of type marks')
            for k, (v, wf) in sorted(w.items()):
                def fixed(i):
                    return v if i is not None and i >= 0 and f.expr(flow.strip(f, i)) == var else None
                got = made(m, f, reaches(m, S, f, fixed))
                ctx.count('type marks')
                if got and got != {k}:
                    ctx.violation('read:%s:%s' % (base(f.cls or f.qn), k), f.loc(), 'what is written for %s is read as %s' % (art(k), ' or '.join(sorted(x.lower() for x in got))))
                elif not got:
                    ctx.violation('read:%s:%s' % (base(f.cls or f.qn), k), f.loc(), 'what is written for %s is not read' % art(k))


def streq(f, a):
    """(expression compared, literal) of a string comparison atom"""
    n = f.n(a)
    if n['k'] in ('OpCall', 'Bin') and n['op'] in ('==', '!=') and len(n['c']) == 2:
        for x, y in (n['c'], n['c'][::-1]):
            z = flow.strip(f, y)
            while f.n(z)['k'] == 'Ctor' and f.n(z).get('c'):
                z = flow.strip(f, f.n(z)['c'][0])
            if f.n(z)['k'] == 'Str':
                return flow.strip(f, x), f.n(z)['v'], n['op'] == '=='
            if f.n(z)['k'] == 'Ref' and f.n(z).get('d'):
                g = strglobal(f.m, f.n(z)['d'])
                if g is not None:
                    return flow.strip(f, x), g, n['op'] == '=='
    return None


def strglobal(m, d):
    g = m.globals.get(d)
    if not g:
        return None
    s = g.get('s')
    return s


def selectors(ctx, m, S, vm):
    """fields of the filter collection: chosen for a selector name, consulted for a kind"""
    fields = {}
    for rec in sorted(m.records):
        if not rec.endswith('FilterCollection'):
            continue
        for fd in m.fields(rec):
            fields[fd['id']] = fd['n']
    if not fields:
        return
    # consulted
    for cls in sorted(vm):
        for k, f in vm[cls].items():
            used = {f.n(i)['d']: i for i in f.all() if f.n(i)['k'] == 'Mem' and f.n(i).get('d') in fields}
            for fd, i in used.items():
                ctx.count('style rules consulted per kind')
                names = chosen(ctx, m, S, fields, fd)
                if not names and any(chosen(ctx, m, S, fields, x) for x in fields):
                    ctx.violation('style:%s' % k, f.loc(i), 'no rules are stored where the style of %s is taken from' % art(k))
                elif names and names != {k.lower()}:
                    ctx.violation('style:%s' % k, f.loc(i), 'the style of %s is taken from the rules for "%s"' % (art(k), '", "'.join(sorted(names))))


def chosen(ctx, m, S, fields, fd):
    """selector names under which a collection of rules is filled"""
    out = set()
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        uses = [i for i in f.all() if f.n(i)['k'] == 'Mem' and f.n(i).get('d') == fd]
        if not uses:
            continue
        lits = set()
        for i in f.all():
            s = streq(f, i)
            if s and s[1] in WORDS and len(s[1]) > 1:
                lits.add(s[1])
        if not lits:
            continue
        for w in lits:
            es = flow.edges(S, f, lambda f_, facts, a, ap: (lambda s: s is not None and s[1] == w and s[2] == ap)(streq(f_, a)))
            for i in uses:
                p = f.cfg.point(i)
                if p is None or not es:
                    continue
                g = f.cfg
                if p not in g.reach(g.entry, edge_ok=lambda a, b, l: (a, b, l) not in es) and p != g.entry:
                    out.add(w)
    return out


def mapkind(t):
    """element kind of a map from identifiers to elements"""
    mo = re.search(r'map<unsigned long(?: long)?, (?:std::)?shared_ptr<utymap::entities::(\w+)>', clean(t))
    return mo.group(1) if mo and mo.group(1) in KINDS else None


def words(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        lits = {}
        for i in f.all():
            s = streq(f, i)
            if s and s[1] in WORDS and ('type' in f.expr(s[0]).lower() or f.n(s[0])['k'] == 'Ref'):
                lits.setdefault(s[1], set()).add(i)
        if not lits:
            continue
        g = f.cfg
        for w in sorted(lits):
            want = {WORDS[w]} if WORDS[w] != 'Way' else {'Way', 'Area'}
            es = flow.edges(S, f, lambda f_, facts, a, ap: (lambda s: s is not None and s[1] == w and s[2] == ap)(streq(f_, a)))
            if not es:
                continue
            free = g.reach(g.entry, edge_ok=lambda a, b, l: (a, b, l) not in es) | {g.entry}
            for i in f.all():
                n = f.n(i)
                p = g.point(i)
                if p is None or p in free:
                    continue
                if n['k'] == 'Mem' and mapkind(f.typ(i)):
                    ctx.count('collections selected by a word')
                    if mapkind(f.typ(i)) not in want:
                        ctx.violation('word:%s:%s' % (base(f.qn), w), f.loc(i), 'the word "%s" selects %ss' % (w, mapkind(f.typ(i)).lower()))
                elif n['k'] == 'Return' and n.get('c'):
                    z = flow.strip(f, n['c'][0])
                    while f.n(z)['k'] == 'Ctor' and f.n(z).get('c'):
                        z = flow.strip(f, f.n(z)['c'][0])
                    if f.n(z)['k'] == 'Str' and f.n(z)['v'] in WORDS:
                        ctx.count('words translated')
                        if WORDS[f.n(z)['v']] != WORDS[w]:
                            ctx.violation('word:%s:%s' % (base(f.qn), w), f.loc(i), 'the word "%s" is translated to "%s"' % (w, f.n(z)['v']))


GEO = {'Point': 'Node', 'LineString': 'Way', 'Polygon': 'Relation', 'MultiLineString': 'Relation', 'MultiPolygon': 'Relation'}
SHAPE = {1: 'Node', 11: 'Node', 21: 'Node', 3: 'Way', 13: 'Way', 23: 'Way', 5: 'Relation', 15: 'Relation', 25: 'Relation'}


def yields(m, f, pts, depth=0, seen=()):
    """kinds which are created or visited at the given points or in helpers called there"""
    out = set()
    for i in f.all():
        n = f.n(i)
        if n['k'] not in ('Call', 'MCall', 'Ctor', 'New', 'OpCall'):
            continue
        p = f.cfg.point(i)
        if p is None or p not in pts:
            continue
        c = created(f, i)
        if c:
            out.add(c)
        q = (f.cqn(i) or '').rsplit('::', 1)[-1]
        if q in ('visitNode', 'visitWay', 'visitRelation', 'visitArea'):
            out.add(q[5:])
            continue
        g = m.fn.get(n.get('f'))
        if g is not None and g.rawcfg is not None and g.cls == f.cls and depth < 4 and g.id not in seen:
            out |= yields(m, g, set(range(len(g.cfg.succ))), depth + 1, seen + (f.id,))
    return out


def shapes(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        g = f.cfg
        lits = {s[1] for s in (streq(f, i) for i in f.all()) if s and s[1] in GEO}
        for w in sorted(lits if len(lits) > 1 else ()):
            es = flow.edges(S, f, lambda f_, facts, a, ap: (lambda s: s is not None and s[1] == w and s[2] == ap)(streq(f_, a)))
            other = flow.edges(S, f, lambda f_, facts, a, ap: (lambda s: s is not None and (s[1] in GEO and s[1] != w and s[2] == ap or s[1] == w and s[2] != ap))(streq(f_, a)))
            got = yields(m, f, g.reach(g.entry, edge_ok=lambda a, b, l: (a, b, l) not in other) if es else set())
            # what every geometry yields is not specific to this one
            ctx.count('geometry words')
            if GEO[w] not in got:
                ctx.violation('geometry:%s' % w, f.loc(), 'a geometry of type "%s" does not become a %s' % (w, GEO[w].lower()))
            elif GEO[w] != 'Relation' and got != {GEO[w]}:
                ctx.violation('geometry:%s' % w, f.loc(), 'a geometry of type "%s" can become a %s' % (w, ', '.join(sorted(got - {GEO[w]})).lower()))
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'Switch' or 'nSHPType' not in f.expr(flow.strip(f, n['cond'])):
                continue
            e = f.expr(flow.strip(f, n['cond']))
            for v, k in sorted(SHAPE.items()):
                got = yields(m, f, reaches(m, S, f, lambda x: v if x is not None and x >= 0 and f.expr(flow.strip(f, x)) == e else None))
                ctx.count('shape types')
                if got != {k}:
                    ctx.violation('shape:%s' % k, f.loc(i), 'a shape of type %d %s' % (v, 'becomes a ' + ' or '.join(sorted(got)).lower() if got else 'is ignored'))


def handover(ctx, m, S):
    """every collected kind leaves the import"""
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src') or f.isLambda:
            continue
        loops = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'RFor':
                r = flow.strip(f, n['range'])
                k = mapkind(f.typ(r))
                if k and f.n(r)['k'] == 'Mem' and any(f.n(x)['k'] in ('MCall', 'Call', 'OpCall') and not pure(f, x) and not (f.n(x)['k'] == 'OpCall' and f.n(x)['op'] in ('*', '->')) and any(refers(f, a, n['var']) for a in arguments(f, x)) for x in f.walk(n['body'])):
                    p = f.cfg.point(n['range'])
                    if p is not None:
                        loops.setdefault(k, set()).add(p)
        if len(loops) < 3:
            continue
        ctx.count('imports handing elements over')
        can = flow.edges(S, f, iscancel)
        for k in KINDS:
            if not flow.must_hit(f, f.cfg.entry, loops.get(k, set()), can):
                ctx.violation('handover:%s:%s' % (base(f.cls or ''), k), f.loc(), 'an import can end without handing over the %ss it collected' % k.lower())


def boolvalue(m, f, i, depth=0):
    """constants an expression can have: in f or, for a parameter, at every call"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Bool':
        return {bool(n.get('v'))}
    if n['k'] == 'Ref' and n.get('d'):
        j = flow.init_of(f, n['d'])
        if j is not None:
            return boolvalue(m, f, j, depth)
        for k, p in enumerate(f.params):
            if p['d'] == n['d'] and depth < 4:
                out = set()
                for c, ci in m.callers(f.id):
                    g = m.fn[c]
                    a = g.args(ci)
                    if k >= len(a):
                        return {None}
                    out |= boolvalue(m, g, a[k], depth + 1)
                return out
    if n.get('v') in (True, False):
        return {n['v']}
    return {None}


def closed(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src'):
            continue
        ks = {kindof(p['t']) for p in f.params} & {'Way', 'Area'}
        if len(ks) != 1 or '/index/' not in f.loc():
            continue
        k = ks.pop()
        for i in f.all():
            n = f.n(i)
            if n['k'] not in ('Call', 'MCall') or not (f.cqn(i) or '').rsplit('::', 1)[-1].lower() in ('addsubject', 'addpath', 'addpaths', 'addsubjects'):
                continue
            bs = [a for a in f.args(i) if clean(f.typ(flow.strip(f, a))) == 'bool']
            for a in bs:
                vs = boolvalue(m, f, a)
                if None in vs:
                    continue
                ctx.count('shapes handed to clipping')
                if vs - {k == 'Area'}:
                    ctx.violation('closed:%s' % k, f.loc(i), 'the shape of %s is clipped as %s one' % ('a way' if k == 'Way' else 'an area', 'a closed' if True in vs and k == 'Way' else 'an open'))


def ringtest(f_, facts, a, ap):
    """+1 closed / -1 not closed for branch atoms about ring-ness"""
    n = f_.n(a)
    nm = n.get('n', '') if n['k'] == 'Mem' else (n.get('n') or str(n.get('d', '')).split('@')[0]) if n['k'] == 'Ref' else ''
    if n['k'] in ('MCall', 'Call'):
        nm = (f_.cqn(a) or '').rsplit('::', 1)[-1]
        g = f_.m.fn.get(n.get('f'))
        if g is not None and g.rawcfg is not None and g.decl.get('src') and any(coordeq(g, x) for x in g.all()):
            return ap
    if re.match(r'(?i)(is)?_?(ring|closed)', nm):
        return ap
    if coordeq(f_, a):
        return ap == (n['op'] == '==')
    return False


def coordeq(f, a):
    n = f.n(a)
    return n['k'] == 'OpCall' and n['op'] in ('==', '!=') and all(clean(f.typ(c)).endswith('GeoCoordinate') for c in n['c'])


def rings(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src') or '/formats/' not in f.loc() and not f.loc().startswith('core/shared/'):
            continue
        cr = {}
        for i in f.all():
            c = created(f, i)
            n = f.n(i)
            if not c and n['k'] in ('Call', 'MCall') and re.search(r'<utymap::entities::(Way|Area)>', f.cqn(i) or '') and m.fn.get(n.get('f')) is not None and m.fn[n['f']].decl.get('src'):
                c = re.search(r'<utymap::entities::(Way|Area)>', f.cqn(i)).group(1)
            if c in ('Way', 'Area') and f.cfg.point(i) is not None:
                cr.setdefault(c, []).append(i)
        if len(cr) < 2:
            continue
        es = flow.edges(S, f, ringtest)
        ctx.count('decisions between way and area')
        g = f.cfg
        free = g.reach(g.entry, edge_ok=lambda a, b, l: (a, b, l) not in es) | {g.entry}
        ring = set()
        for a, b, l in es:
            ring |= {b} | g.reach(b, edge_ok=lambda x, y, z: True)
        for i in cr['Area']:
            if g.point(i) in free:
                ctx.violation('ring:Area:%s' % base(f.qn), f.loc(i), 'an area is made from coordinates which are not known to be closed')
        for i in cr['Way']:
            if g.point(i) not in free:
                ctx.violation('ring:Way:%s' % base(f.qn), f.loc(i), 'a way is made from closed coordinates')


def clipped(ctx, m, S):
    """elements made anew from another element carry its id and its tags"""
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not f.decl.get('src') or f.isLambda:
            continue
        src = [p for p in f.params if kindof(p['t']) and 'const' in p['t']]
        if len(src) != 1 or not re.search(r'(shared|unique)_ptr<utymap::entities::', clean(f.decl.get('ret') or '')):
            continue
        made_ = {}
        for i in f.all():
            if f.n(i)['k'] == 'Decl':
                for v in f.n(i)['vars']:
                    if v.get('i') is None or v['i'] < 0:
                        continue
                    j = flow.strip(f, v['i'])
                    while f.n(j)['k'] == 'Ctor' and len(f.n(j).get('c', [])) == 1:
                        j = flow.strip(f, f.n(j)['c'][0])
                    if created(f, j) or re.match(r'(std::)?(shared|unique)_ptr<utymap::entities::', clean(v['t'])):
                        made_[v['d']] = (i, created(f, j), arguments(f, j) if f.n(j)['k'] in ('Call', 'MCall', 'Ctor') else [])
        sets = {}
        outer = set()
        for i in f.all():
            n = f.n(i)
            if flow.assign(f, i) is not None:
                t = flow.strip(f, flow.assign(f, i))
                if f.n(t)['k'] == 'Mem' and f.n(t)['n'] in ('id', 'tags'):
                    o = [f.n(x)['d'] for x in f.walk(t) if f.n(x)['k'] == 'Ref' and f.n(x).get('d')]
                    v = flow.strip(f, n['c'][1])
                    from_src = f.n(v)['k'] == 'Ref' and any(p['d'] == f.n(v).get('d') for p in f.params) or f.n(v)['k'] == 'Mem' and f.n(v)['n'] == f.n(t)['n'] and any(f.n(x)['k'] == 'Ref' and f.n(x).get('d') == src[0]['d'] for x in f.walk(v))
                    for d in o:
                        sets.setdefault((d, f.n(t)['n']), []).append((f.cfg.point(i), from_src))
        rets = {}
        for i in f.all():
            if f.n(i)['k'] == 'Return' and f.n(i).get('c'):
                for x in f.walk(f.n(i)['c'][0]):
                    if f.n(x)['k'] == 'Ref' and f.n(x).get('d') in made_ and f.cfg.point(i) is not None:
                        rets.setdefault(f.n(x)['d'], set()).add(f.cfg.point(i))
        for d, ps in sorted(rets.items()):
            i, k, args = made_[d]
            ctx.count('elements returned by clipping')
            if any(refers(f, a, src[0]['d'], True) for a in args):
                continue
            g = f.cfg
            start = g.point(i)
            for what in ('id', 'tags'):
                good = {p for p, fs in sets.get((d, what), []) if fs and p is not None}
                if what == 'tags' and not good and k == 'Relation' and parts(f, d, made_) and all(any(fs for _, fs in sets.get((dd, 'tags'), [])) for dd in parts(f, d, made_)):
                    continue
                r = g.reach(start, avoid=good)
                if ps & r:
                    ctx.violation('identity:%s:%s' % (base(f.qn), what), f.loc(i), 'a clipped %s does not carry the %s of the original' % (src[0]['t'].rsplit('::', 1)[-1].rstrip(' &').lower(), what))


def parts(f, d, made):
    """objects made here which become elements of d"""
    out = set()
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'MCall' and (f.cqn(i) or '').rsplit('::', 1)[-1] in ('push_back', 'emplace_back') and n.get('c'):
            if not any(f.n(x)['k'] == 'Mem' and f.n(x)['n'] == 'elements' for x in f.walk(n['c'][0])) or not any(f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d for x in f.walk(n['c'][0])):
                continue
            for a in f.args(i):
                out |= {f.n(x)['d'] for x in f.walk(a) if f.n(x)['k'] == 'Ref' and f.n(x).get('d') in made}
    return out
