import re
import facts, flow, model
from grammar import Grammar, Star, Once, Auto, compare, filestream, match
from c34 import short, num
from c04 import bare

LEVEL = 'other'
SPACE = (9, 10, 11, 12, 13, 32)


def check(ctx):
    # what is read and written by libraries is part of the layout
    m = ctx.wide = model.Model(None, lambda t: t.startswith('src/'), ('src', 'shared', 'lib/ewah'))
    ctx._m = m
    ctx.rule('the languages of fields (kind, width, constants, repetition, order) of the writer and of the reader of a record are the same: the reader follows every word of the writer to its end and reads nothing the writer does not write')
    ctx.rule('a field is read into the member it was written from')
    ctx.rule('a count written before a loop is the size of what the loop writes, the loop writes something for every entry, and the loop of the reader runs exactly as often as the count read says')
    ctx.rule('every data member of an element, mesh, tag and coordinate is written; every data member of an object which reads itself is restored')
    ctx.rule('sizes of index entries used to compute positions are those of the entry written')
    ctx.rule('binary records contain no formatted numbers, and no white space where the reader skips it')

    units = {}
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        if f.name in ('read', 'write') and f.cls and f.rawcfg is not None and '/lib/' not in (f.file or '') and any(filestream(pt(m, f, p)) for p in f.params):
            units.setdefault(f.cls, {})[f.name] = f
    units = {c: u for c, u in units.items() if len(u) == 2}

    def unit(f):
        u = units.get(f.cls)
        if u and f.id in (u['read'].id, u['write'].id):
            return ('r' if f.name == 'read' else 'w', f.cls.split('::')[-1])
        return None

    done = set()
    for c in sorted(units):
        w, r = units[c]['write'], units[c]['read']
        files = {w.file, r.file}
        G = Grammar(m, lambda g: g.file in files or '/lib/' in '/' + (g.file or ''), unit)
        W, R = Once([G.build(w)]), Once([G.build(r)])
        pair(ctx, m, c.split('::')[-1], W, R)
        counts(ctx, m, G, [w], 'w')
        counts(ctx, m, G, [r], 'r')
        members(ctx, m, G, w, r)
        spaces(ctx, m, G, W, R, c.split('::')[-1])
        done |= files
    # files of other classes
    files = sorted({f.file for f in m.fn.values() if f.rawcfg is not None and f.file and f.file not in done and re.search(r'(^|/)src/(index|builders)/', f.file)})
    for fl in files:
        G = Grammar(m, lambda g: g.file == fl, unit)
        fs = [f for f in sorted(m.fn.values(), key=lambda f: f.id) if f.file == fl and f.rawcfg is not None and G.touches(f)]
        if not fs:
            continue
        inner = {h.id for f in fs for i in G.calls(f) for h in G.entered(f, i) if h.id != f.id}
        roots = [f for f in fs if f.id not in inner]
        group(ctx, m, fl, G, roots)
        counts(ctx, m, G, roots, 'w')
        counts(ctx, m, G, roots, 'r')
        sizes(ctx, m, fl, G, [f for f in sorted(m.fn.values(), key=lambda f: f.id) if f.file == fl and f.rawcfg is not None], roots)
    restore(ctx, m)
    entries(ctx, m)
    ctx.require('pairs of languages compared', 6)
    ctx.require('pairs of states of writer and reader', 60)
    ctx.require('counted loops of writers', 2)
    ctx.require('counted loops of readers', 3)
    ctx.require('sizes of index entries', 1)
    ctx.require('members of records', 14)


def pt(m, f, p):
    return p.get('t') or ''


def name(m, fid):
    f = m.fn[fid]
    return re.sub(r'<.*', '', f.qn.split('utymap::')[-1])


def say(sym):
    if sym[0] in 'ifo':
        k = {'i': 'integer', 'f': 'float', 'o': 'object'}[sym[0]]
        c = sym[2] if len(sym) > 2 else None
        return '%s-byte %s%s' % (sym[1], k, '' if c is None else ' %s' % c if not isinstance(c, tuple) else ' other than known')
    return {'text': 'text', 'block': 'block', 'again': 'nested record', 'record': 'record of ' + str(sym[1] if len(sym) > 1 else ''), 'formatted': 'formatted ' + str(sym[1] if len(sym) > 1 else '')}[sym[0]]


def pair(ctx, m, what, W, R, whatr=None):
    def mismatch(kind, word, places):
        ws = ', '.join(say(s) for s, _ in word)
        fid, i = places[0] if places else ((word[-1][1]) if word else (None, None))
        loc = m.fn[fid].loc(i) if fid else '?'
        msg = {'write': 'the reader of %s does not expect what is written here: %s' % (what, ws),
               'write-end': 'the reader of %s goes on after everything was written: %s' % (what, ws),
               'read': 'the reader of %s reads here what is not written: %s' % (what, ws)}[kind]
        ctx.violation('layout:%s:%s:%s' % (what, kind, word[-1][0] if word else ''), loc, msg)

    def swapped(a, b, pa, pb):
        ctx.violation('names:%s:%s:%s' % (what, a[1], b[1]), m.fn[pb[0]].loc(pb[1]), 'the field of %s written from %s at %s is read into %s' % (what, a[1], m.fn[pa[0]].loc(pa[1]), b[1]))

    n = compare(W, R, mismatch, swapped)
    ctx.count('pairs of languages compared')
    ctx.count('pairs of states of writer and reader', n)
    ctx.sample('%s: %d pairs of states' % (what, n))


def symbols(L):
    """every step of a language"""
    out, seen, st = [], set(), [L.closure(L.initial())]
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        g = {}
        for sym, t, nm, pl in L.steps(a):
            out.append((sym, nm, pl))
            g.setdefault((sym, t), t)
        nx = {}
        for (sym, t) in g:
            nx.setdefault(sym, set()).add(t)
        st += [L.closure(v) for v in nx.values()]
    return out


def streams(G, f):
    """(direction, stream) of the operations of a function, helpers followed"""
    out = set()

    def only(d, s):
        out.add((d, s))
        return True
    a = Auto(G, f, {}, only)
    seen, st = set(), [a.start]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        st += [t for _, t, _, _ in a.moves(s)[0]]
        if len(seen) > 60000:
            raise facts.AnalysisBroken('too many states in ' + f.qn)
    return out


def group(ctx, m, fl, G, roots):
    where = {}
    for f in roots:
        for d, s in streams(G, f):
            where.setdefault(s if s and s[1] == 'field' else ('rest', f.id, s), []).append((d, f, s))
    base = fl.split('/')[-1].split('.')[0]
    rest = []
    for k in sorted(where, key=str):
        ds = {d for d, _, _ in where[k]}
        if k[0] == 's' and ds == {'r', 'w'}:
            aut = {'r': [], 'w': []}
            for d, f, s in where[k]:
                aut[d].append(G.build(f, {}, lambda dd, ss, d=d, k=k: dd == d and ss == k))
            ctx.count('files with named streams')
            W, R = Star(aut['w']), Star(aut['r'])
            pair(ctx, m, '%s of %s' % (k[2], base), W, R)
            spaces(ctx, m, G, W, R, base)
        else:
            rest += where[k]
    ws, rs = [x for x in rest if x[0] == 'w'], [x for x in rest if x[0] == 'r']
    if not ws or not rs:
        return
    heads, first, entries = [], [], []
    for d, f, s in sorted(ws, key=str):
        a = G.build(f, {}, lambda dd, ss, s=s: dd == 'w' and ss == s)
        (heads if rewinds(m, G, f) else first if creates(m, G, f) else entries).append(a)
    reads = [G.build(f, {}, lambda dd, ss, s=s: dd == 'r' and ss == s) for d, f, s in sorted(rs, key=str)]
    if heads and first:
        # the mark at the beginning replaces one of the same size
        for h in heads:
            hs = [[x[0] for x in symbols(Once([a]))] for a in (h, first[0])]
            plain = [sorted({x[:2] for x in y}, key=str) for y in hs]
            if plain[0] != plain[1]:
                f = m.fn[h.start[0][0][0]]
                ctx.violation('mark:%s' % base, f.loc(), 'what is written over the beginning of the file has another size than what was written there first')
        first = []
    # a local stream is opened again and again
    if entries and (heads or first):
        W, R = Tail(entries, heads or first), Once(reads)
    else:
        W, R = Star(heads or first or entries), Star(reads)
    pair(ctx, m, base, W, R)
    spaces(ctx, m, G, W, R, base)


class Tail(Star):
    """head, then entries; words end anywhere between entries"""


def reach(G, f):
    seen, st = {}, [f]
    while st:
        g = st.pop()
        if g.id in seen:
            continue
        seen[g.id] = g
        for i in G.calls(g):
            st += [h for h in G.entered(g, i) if G.follow(h)]
    return list(seen.values())


def rewinds(m, G, f):
    for g in reach(G, f):
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'MCall' and n.get('c') and filestream(g.typ(n['c'][0])) and short(g, i) in ('seekg', 'seekp') and g.args(i) and num(g, g.args(i)[0]) == 0 and not ends(g, g.args(i)):
                s = G.ev(g, n['c'][0], {})
                if s is not None and any(o.d == 'w' and G.ev(g, o.obj, {}) == s for o in (G.op(g, j) for j in G.calls(g)) if o) or s is not None and any(
                        here(G, g, j, 'w') and any(G.ev(g, a, {}) == s for a in g.args(j)) for j in G.calls(g) if not G.op(g, j)):
                    return True
    return False


def ends(f, args):
    return any(f.n(j)['k'] == 'Ref' and (f.n(j).get('n') == 'end' or str(f.n(j).get('cv')) == '2') or 'end' == str(f.n(j).get('n')) for a in args[1:] for j in f.walk(a))


def creates(m, G, f):
    for g in reach(G, f):
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'MCall' and n.get('c') and filestream(g.typ(n['c'][0])) and short(g, i) == 'open':
                return True
    return False


def spaces(ctx, m, G, W, R, what):
    ws, rs = symbols(W), symbols(R)
    for sym, nm, pl in ws + rs:
        if sym[0] == 'formatted':
            f = m.fn[pl[0]]
            ctx.violation('formatted:%s:%s' % (what, sym[1]), f.loc(pl[1]), 'a number is written or read as text in a binary record')
    skips = [pl for sym, nm, pl in rs if sym[0] == 'i' and G.op(m.fn[pl[0]], pl[1]) and G.op(m.fn[pl[0]], pl[1]).what == 'fmt']
    if skips:
        for sym, nm, pl in ws:
            if sym[:2] == ('i', 1) and sym[2] in SPACE:
                ctx.violation('space:%s:%s' % (what, sym[2]), m.fn[pl[0]].loc(pl[1]), 'the reader skips the white space written here')
        ctx.count('marks read with white space skipped', len(skips))


# counts

def loops(f):
    for i in f.all():
        n = f.n(i)
        if n['k'] in ('RFor', 'For', 'While', 'Do') and n.get('body') is not None or n['k'] in ('For', 'While', 'Do'):
            yield i, n


def counts(ctx, m, G, roots, d):
    fs = {g.id: g for f in roots for g in reach(G, f)}
    for f in sorted(fs.values(), key=lambda f: f.id):
        for i, n in loops(f):
            b = n.get('body')
            if b is None or b < 0:
                continue
            ops = [j for j in f.walk(b) if f.n(j)['k'] in ('Call', 'MCall', 'OpCall') and here(G, f, j, d)]
            if not ops:
                continue
            (writer if d == 'w' else reader)(ctx, m, G, f, i, n, ops)


def here(G, f, j, d):
    o = G.op(f, j)
    if o is not None:
        return o.d == d
    for h in G.entered(f, j):
        u = G.unit(h)
        if u:
            if u[0] == d:
                return True
        elif G.follow(h) and G.touches(h) and direction(G, h, d):
            return True
    return False


def direction(G, h, d):
    return any(G.op(g, j) and G.op(g, j).d == d for g in reach(G, h) for j in G.calls(g))


def base(f, i):
    """the object a name path ends in"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Ref':
        j = init_of(f, n['d'])
        if j is not None and 'size' not in str(f.n(flow.strip(f, j)).get('k')):
            t = f.n(flow.strip(f, j))
            if t['k'] in ('Ref', 'Mem'):
                return base(f, j)
        return ('v', n.get('d'))
    if n['k'] == 'Mem':
        return ('m', n.get('d'))
    if n['k'] in ('OpCall', 'Un') and n.get('c') and n['op'] in ('*', '->'):
        return base(f, n['c'][0])
    return None


def init_of(f, d):
    return f._ginits.get(d) if hasattr(f, '_ginits') else flow.init_of(f, d)


def plain(f, i):
    """value of an expression: casts and once-assigned locals removed"""
    while True:
        i = flow.strip(f, i)
        n = f.n(i)
        if n['k'] == 'Ref':
            j = init_of(f, n['d'])
            if j is None:
                return i
            t = f.n(flow.strip(f, j))
            if t['k'] in ('Int', 'Call', 'Ctor', 'OpCall'):
                return i
            i = j
            continue
        return i


def sizeof(f, i):
    """container whose size the expression is"""
    i = plain(f, i)
    n = f.n(i)
    if n['k'] == 'MCall' and short(f, i) in ('size', 'length') and n.get('c'):
        return base(f, n['c'][0])
    return None


def arithmetic(f, i):
    i = plain(f, i)
    n = f.n(i)
    if n['k'] in ('Bin', 'Cond') and n.get('cv') is None or n['k'] == 'Call' and short(f, i) in ('min', 'max'):
        return any(sizeof(f, c) is not None or f.n(plain(f, c))['k'] == 'Ref' for c in (n['c'] if n['k'] != 'Call' else f.args(i)) if c is not None and c >= 0)
    return False


def skips(f, i, n, ops):
    """a way through the body of the loop on which none of ops happens, back to the loop or out of it"""
    g = f.cfg
    pts = {g.point(j) for j in ops} - {None}
    body = set(f.walk(n['body']))
    inb = {p for p in range(len(g.payload)) if g.payload[p] and g.payload[p][0] == 's' and g.payload[p][1] in body}
    # edges which enter the body
    st = []
    for p in range(len(g.succ)):
        for q, lab in g.succ[p]:
            if lab and len(lab) == 2 and lab[1] is True and owner(f, lab[0]) == i:
                st.append(q)
    heads = {p for p in range(len(g.succ)) for q, lab in g.succ[p] if lab and len(lab) == 2 and owner(f, lab[0]) == i}
    seen = set()
    while st:
        p = st.pop()
        if p in seen or p in pts:
            continue
        seen.add(p)
        if p in heads:
            return 'again'
        if p == g.exit:
            return 'out'
        for q, lab in g.succ[p]:
            st.append(q)
    return None


def owner(f, c):
    """the loop whose condition a node is part of"""
    if not hasattr(f, '_loopconds'):
        f._loopconds = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'RFor':
                f._loopconds[i] = i
                for k in ('cond',):
                    if isinstance(n.get(k), int) and n[k] >= 0:
                        for j in f.walk(n[k]):
                            f._loopconds[j] = i
            elif n['k'] in ('For', 'While', 'Do') and isinstance(n.get('cond'), int) and n['cond'] >= 0:
                for j in f.walk(n['cond']):
                    f._loopconds[j] = i
    return f._loopconds.get(c)


def written(ctx, G, f):
    """[(node, operand)] of raw integer writes of f"""
    for i in G.calls(f):
        o = G.op(f, i)
        if o and o.d == 'w' and o.what in ('raw', 'char', 'fmt'):
            yield i, G.under(f, o.item), o
        elif o is None:
            # a helper which writes its argument
            for h in G.entered(f, i):
                if G.follow(h) and G.touches(h) and direction(G, h, 'w'):
                    for a in f.args(i):
                        if sizeof(f, a) is not None or arithmetic(f, a):
                            yield i, flow.strip(f, a), None


def writer(ctx, m, G, f, i, n, ops):
    cs = [(j, a, o) for j, a, o in written(ctx, G, f) if j not in set(f.walk(n['body'])) and (sizeof(f, a) is not None or arithmetic(f, a))]
    if not cs:
        return
    ctx.count('counted loops of writers')
    fn = name(m, f.id)
    for j, a, o in cs:
        if arithmetic(f, a):
            ctx.violation('count-changed:' + fn, f.loc(j), 'the count written is not the number of entries')
    rng = None
    if n['k'] == 'RFor':
        rng = base(f, n['range'])
    elif n['k'] == 'For' and isinstance(n.get('cond'), int) and n['cond'] >= 0:
        rng = bound(ctx, m, f, i, n, 'w')
    if rng is not None and all(sizeof(f, a) is not None for _, a, _ in cs) and rng not in {sizeof(f, a) for _, a, _ in cs}:
        ctx.violation('count-other:' + fn, f.loc(cs[0][0]), 'the count written is not the size of what is written after it')
    s = skips(f, i, n, ops)
    if s:
        ctx.violation('count-skips:' + fn, f.loc(i), 'entries are left out of what is written after the count' if s == 'again' else 'writing stops before all counted entries are written')
    for q in f.walk(n['body']):
        if f.n(q)['k'] == 'Break' and enclosing(f, q) == i:
            ctx.violation('count-stops:' + fn, f.loc(q), 'writing stops before all counted entries are written')
    for j, a, o in cs:
        if o is not None and sizeof(f, a) is not None:
            w = G.bytes(f, o.size, {}) if o.what == 'raw' else 1
            if w is not None and w < 4:
                ctx.violation('count-width:%s:%s' % (w, element(f, a)), f.loc(j), 'the count is cut to %d bytes: more than %d entries are written after a count which is too small' % (w, 2 ** (8 * w) - 1))


def element(f, a):
    i = plain(f, a)
    n = f.n(i)
    if n['k'] == 'MCall' and n.get('c'):
        t = bare(f.typ(n['c'][0]))
        t = re.sub(r', *std::allocator<.*', '', t)
        q = re.sub(r'^std::vector<|[<>]', '', t).split('::')[-1]
        return q
    return '?'


def enclosing(f, q):
    best, size = None, None
    for i, n in loops(f):
        if isinstance(n.get('body'), int) and n['body'] >= 0:
            w = set(f.walk(n['body']))
            if q in w and (size is None or len(w) < size):
                best, size = i, len(w)
    for i in f.all():
        if f.n(i)['k'] == 'Switch':
            w = set(f.walk(i))
            if q in w and (size is None or len(w) < size):
                best, size = i, len(w)
    return best


def bound(ctx, m, f, i, n, d):
    """what a counting loop counts to: container, ('read', variable) or None; odd loops are reported"""
    c = flow.strip(f, n['cond'])
    q = f.n(c)
    fn = name(m, f.id)
    if q['k'] != 'Bin' or q['op'] not in ('<', '<=', '!=', '>', '>='):
        return None
    a, b = q['c']
    op = q['op']
    if op in ('>', '>='):
        a, b, op = b, a, {'>': '<', '>=': '<='}[op]
    var = f.n(flow.strip(f, a))
    if var['k'] != 'Ref':
        return None
    init = None
    for j in f.all():
        if f.n(j)['k'] == 'Decl':
            for v in f.n(j)['vars']:
                if v['d'] == var['d'] and v.get('i') is not None and v['i'] >= 0:
                    init = num(f, v['i'])
    steps = []
    for j in f.all():
        t = flow.assign(f, j)
        if t is not None and f.n(flow.strip(f, t)).get('d') == var['d']:
            steps.append(None if f.n(j).get('op') != '+=' else num(f, f.n(j)['c'][1]))
        elif f.n(j)['k'] == 'Un' and f.n(j)['op'] in ('++', '--') and f.n(flow.strip(f, f.n(j)['c'][0])).get('d') == var['d']:
            steps.append(1 if f.n(j)['op'] == '++' else -1)
    if init is None or len(steps) != 1 or steps[0] is None or steps[0] < 1:
        return None
    what = 'entries are read' if d == 'r' else 'entries are written'
    if arithmetic(f, b):
        ctx.violation('loop-bound:' + fn, f.loc(c), '%s another number of times than the count says' % what)
        return None
    if (init, op) not in ((0, '<'), (0, '!='), (1, '<=')) or steps[0] != 1:
        ctx.violation('loop-bound:' + fn, f.loc(c), '%s another number of times than the count says' % what)
        return None
    # a narrow index never reaches the count
    wi, wb = width(f.typ(a)), width(f.typ(plain(f, b)))
    if wi and wb and wi < wb and d == 'r':
        ctx.violation('loop-index:' + fn, f.loc(c), 'the index of %d bytes does not reach a count of %d bytes' % (wi, wb))
    s = sizeof(f, b)
    if s is not None:
        return s
    r = f.n(flow.strip(f, b))
    if r['k'] == 'Ref':
        return ('read', r['d'])
    return None


def width(t):
    from grammar import WIDTH
    t = re.sub(r'^const ', '', bare(t))
    return WIDTH.get(t)


def reader(ctx, m, G, f, i, n, ops):
    fn = name(m, f.id)
    if n['k'] == 'RFor':
        rng = base(f, n['range'])
    elif n['k'] == 'For' and isinstance(n.get('cond'), int) and n['cond'] >= 0:
        rng = bound(ctx, m, f, i, n, 'r')
    else:
        return
    if rng is None:
        return
    src = None
    if rng[0] == 'read':
        src = rng[1]
    else:
        # the container has the size read
        rs = [j for j in f.all() if f.n(j)['k'] == 'MCall' and short(f, j) in ('resize', 'assign') and f.n(j).get('c') and base(f, f.n(j)['c'][0]) == rng and f.args(j)]
        if not rs:
            return
        for j in rs:
            if arithmetic(f, f.args(j)[0]):
                ctx.violation('resize:' + fn, f.loc(j), 'the container gets another size than the count read')
            r = f.n(flow.strip(f, f.args(j)[0]))
            src = r.get('d') if r['k'] == 'Ref' else src
    if src is None:
        return
    got = [j for j in G.calls(f) if reads(G, f, j, src)]
    if not got and not copied(G, f, src):
        return
    ctx.count('counted loops of readers')
    for j in f.all():
        t = flow.assign(f, j)
        if t is not None and f.n(flow.strip(f, t)).get('d') == src and f.n(flow.strip(f, t))['k'] == 'Ref':
            v = flow.strip(f, f.n(j)['c'][1])
            if f.n(v)['k'] in ('Bin', 'Cond', 'Int') or f.n(j).get('op') != '=' or f.n(v)['k'] == 'Call' and short(f, v) in ('min', 'max'):
                ctx.violation('count-adjusted:' + fn, f.loc(j), 'the count read is changed before as many entries are read')
    s = skips(f, i, n, ops)
    if s:
        ctx.violation('read-skips:' + fn, f.loc(i), 'there are entries for which nothing is read' if s == 'again' else 'reading stops before all entries are read')
    for q in f.walk(n['body']):
        if f.n(q)['k'] == 'Break' and enclosing(f, q) == i:
            ctx.violation('read-stops:' + fn, f.loc(q), 'reading stops before all entries are read')


def reads(G, f, j, d):
    """call j reads into variable d"""
    o = G.op(f, j)
    if o is not None:
        return o.d == 'r' and any(f.n(q)['k'] == 'Ref' and f.n(q).get('d') == d for q in f.walk(o.item))
    if f.n(j)['k'] not in ('Call', 'MCall'):
        return False
    return any(f.n(flow.strip(f, a)).get('d') == d and f.n(flow.strip(f, a))['k'] == 'Ref' for a in f.args(j)) and here(G, f, j, 'r')


def copied(G, f, d):
    """variable d is the result of a reading call"""
    j = init_of(f, d)
    if j is None:
        return False
    return any(f.n(q)['k'] in ('Call', 'MCall') and here(G, f, q, 'r') for q in f.walk(j))


# members

def members(ctx, m, G, w, r):
    """every member of what is given to the writer"""
    starts = []
    for i in G.calls(w):
        for g in G.entered(w, i):
            if g.name.startswith('visit') and g.params:
                starts.append(g)
    if not starts:
        starts = [w]
    for g in starts:
        q = [p for p in g.params if not filestream(pt(m, g, p))]
        if len(q) != 1:
            continue
        c = bare(pt(m, g, q[0]))
        if c not in m.records:
            continue
        need = leaves(m, c, set())
        if not need:
            continue
        names, unknown = set(), 0
        for sym, nm, pl in symbols(Once([G.build(g)])):
            if nm is not None:
                names.add(nm[1])
            elif sym[0] in ('i', 'f', 'o') and not (len(sym) > 2 and sym[2] is not None) or sym[0] == 'text':
                unknown += 1
        said = {(h.n(j).get('n') or (m.field(h.n(j)['d']) or {}).get('n')) for h in reach(G, g) for j in h.all() if h.n(j)['k'] == 'Mem'}
        for owner_, n in sorted(need):
            ctx.count('members of records')
            if n not in names and (n not in said or not unknown):
                ctx.violation('member:%s::%s' % (owner_.split('::')[-1], n), g.loc(), 'member %s of %s is not written' % (n, owner_.split('::')[-1]))


def leaves(m, c, seen):
    if c in seen or c not in m.records:
        return set()
    seen.add(c)
    out = set()
    r = m.records[c]
    for b in r.get('bases', []):
        out |= leaves(m, b, seen)
    for fd in r['fields']:
        if fd.get('static') or fd['n'] == 'id' and 'entities' in c:
            continue
        t = bare(fd['t'])
        inner = re.sub(r'^std::vector<([^,<>]*).*', r'\1', t).strip()
        inner = bare(inner)
        if t in m.records and t.startswith('utymap'):
            out |= leaves(m, t, seen)
        else:
            out.add((c, fd['n']))
            if inner != t and inner.startswith('utymap'):
                out |= leaves(m, inner, seen)
    return out


# sizes of entries

def sizes(ctx, m, fl, G, fs, roots):
    width_ = {}
    for f in roots:
        for d, s in streams(G, f):
            if d == 'w' and s and s[1] == 'field' and s not in width_:
                a = Star([G.build(x, {}, lambda dd, ss, s=s: dd == 'w' and ss == s) for x in roots])
                width_[s] = period(a)
    for f in fs:
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Bin' and n['op'] in ('/', '%'):
                c = num(f, n['c'][1])
                o = [q for q in deep(f, n['c'][0]) if f.n(q)['k'] == 'MCall' and short(f, q) in ('tellg', 'tellp')]
                if c is None or not o:
                    continue
                s = G.ev(f, f.n(o[0])['c'][0], {})
                one(ctx, m, f, i, c, s, width_)
            elif n['k'] == 'MCall' and n.get('c') and short(f, i) in ('seekg', 'seekp') and filestream(f.typ(n['c'][0])) and f.args(i):
                ctx.count('positions sought')
                if len(f.args(i)) > 1 and num(f, f.args(i)[0]) is None and refname(f, f.args(i)[1]) in ('cur', 'end'):
                    ctx.violation('seek-from:%s' % name(m, f.id), f.loc(i), 'a computed or stored position is sought from where the file happens to be (or from its end), positions are counted from its beginning')
                for q in deep(f, f.args(i)[0]):
                    if f.n(q)['k'] == 'Bin' and f.n(q)['op'] == '*':
                        for x in f.n(q)['c']:
                            c = num(f, x)
                            if c is not None:
                                one(ctx, m, f, q, c, G.ev(f, n['c'][0], {}), width_)


def refname(f, i):
    n = f.n(flow.strip(f, i))
    return n.get('n') or (f.cqn(flow.strip(f, i)) or '').rsplit('::', 1)[-1] or str(n)


def deep(f, i, depth=0):
    for q in f.walk(i):
        yield q
        if f.n(q)['k'] == 'Ref' and depth < 6:
            j = init_of(f, f.n(q).get('d'))
            if j is not None:
                yield from deep(f, j, depth + 1)


def one(ctx, m, f, i, c, s, width_):
    w = width_.get(s)
    if w is None:
        return
    ctx.count('sizes of index entries')
    if c != w:
        ctx.violation('entry-size:%s:%s' % (name(m, f.id), s[2]), f.loc(i), 'an entry of %s has %d bytes, positions are computed for %d' % (s[2], w, c))


def period(L):
    """size of every entry, if it is always the same"""
    out, st, seen = set(), [(L.closure(L.initial()), 0)], set()
    while st:
        a, n = st.pop()
        if (a, n) in seen or n > 4096:
            continue
        seen.add((a, n))
        if n and L.accepts(a):
            out.add(n)
            continue
        g = {}
        for sym, t, _, _ in L.steps(a):
            g.setdefault(sym, set()).add(t)
        for sym, ts in g.items():
            if sym[0] not in 'ifo' or not isinstance(sym[1], int):
                return None
            st.append((L.closure(ts), n + sym[1]))
    return out.pop() if len(out) == 1 else None


# objects which read themselves

def restore(ctx, m):
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        if f.rawcfg is None or not f.cls or not any(filestream(pt(m, f, p)) for p in f.params):
            continue
        if not any(g.cls == f.cls and g.name == 'write' and any(filestream(pt(m, g, p)) for p in g.params) for g in m.fn.values()):
            continue
        c = f.cls if f.cls in m.records else next((k for k in m.records if k == bare(f.cls)), None)
        G = Grammar(m, lambda g: g.cls == f.cls, lambda g: None)
        own = set()
        for i in G.calls(f):
            o = G.op(f, i)
            if o and o.d == 'r' and o.what == 'raw':
                for q in f.walk(o.item):
                    if f.n(q)['k'] == 'Mem' and f.n(q).get('c') and f.n(flow.strip(f, f.n(q)['c'][0]))['k'] == 'This':
                        own.add(f.n(q)['d'])
        if not own or c is None:
            continue
        ctx.count('objects which read themselves')
        sets = set()
        for g in reach(G, f):
            for i in g.all():
                n = g.n(i)
                t = flow.assign(g, i)
                if t is None and n['k'] == 'Un' and n['op'] in ('++', '--', '&'):
                    t = n['c'][0]
                if t is None and n['k'] == 'MCall' and n.get('c') and short(g, i) in ('resize', 'assign', 'clear', 'swap'):
                    t = n['c'][0]
                if t is not None:
                    t = flow.strip(g, t)
                    while g.n(t)['k'] in ('OpCall', 'Sub', 'Index', 'ArrSub') and g.n(t).get('c'):
                        t = flow.strip(g, g.n(t)['c'][0])
                    if g.n(t)['k'] == 'Mem':
                        sets.add(g.n(t)['d'])
        for fd in m.records[c]['fields']:
            if fd.get('static'):
                continue
            ctx.count('members of objects which read themselves')
            if fd['id'] not in sets and fd['id'] not in own:
                ctx.violation('restore:%s::%s' % (re.sub('<.*', '', c), fd['n']), f.loc(), 'member %s of %s keeps its old value when the object is read' % (fd['n'], re.sub('<.*', '', c)))


def entries(ctx, m):
    """what is read for an entry of a loop goes to that entry, and is not dropped"""
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or not re.search(r'(^|/)src/(index|builders)/', f.file or ''):
            continue
        decl, filled = {}, {}
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl' and f.cfg.point(i) is not None:
                for v in n['vars']:
                    decl[v['d']] = (f.cfg.point(i), v)
            if n['k'] in ('Call', 'MCall') and f.cfg.point(i) is not None:
                st = [a for a in (n.get('c', []) if n['k'] == 'MCall' else f.args(i)) if re.search(r'basic_[if]*stream|istream', f.typ(a) or '')]
                if not st or short(f, i) not in ('read', 'get') and not any(m.fn.get(t) is not None and m.fn[t].rawcfg is not None for t in m.targets(f, i)):
                    continue
                for a in f.args(i):
                    t = f.typ(a) or ''
                    for y in f.walk(a):
                        if f.n(y)['k'] == 'Ref' and f.n(y).get('d') in decl and re.match(r'^(const )?(unsigned |signed )?(char|short|int|long|bool|float|double|long long|std::u?int\d+_t|u?int\d+_t)\b', bare(decl[f.n(y)['d']][1].get('t') or '')) and (f.n(y)['d'] not in filled) and (y == flow.strip(f, a) or any(f.n(z)['k'] == 'Un' and f.n(z)['op'] == '&' for z in f.walk(a))):
                            filled[f.n(y)['d']] = (i, y)
        for d, (i, y) in sorted(filled.items()):
            p, v = decl[d]
            if 'const ' in (v.get('t') or '') or not any(re.search(r'istream|fstream', f.typ(a) or '') for a in f.walk(i)):
                continue
            ctx.count('locals filled by reads')
            uses = [z for z in f.all() if f.n(z)['k'] == 'Ref' and f.n(z).get('d') == d and z not in set(f.walk(i))]
            inner = [g for g in m.fn.values() if g.isLambda and g.rawcfg is not None and g.file == f.file and any(g.n(z)['k'] == 'Ref' and g.n(z).get('d') == d for z in g.all())]
            if not uses and not inner:
                ctx.violation('dropped:%s:%s' % (f.name, v['n'] if 'n' in v else d.split('@')[0]), f.loc(i), 'a field is read and not used: what was written is not restored')
            if p not in f.cfg.reach(p):
                continue
            for j in f.all():
                t = flow.assign(f, j)
                if t is None or f.cfg.point(j) is None or f.n(j)['k'] not in ('Bin', 'Assign', 'OpCall') or f.n(j).get('op') not in ('=', None):
                    continue
                r = flow.strip(f, f.n(j)['c'][1])
                if f.n(r)['k'] != 'Ref' or f.n(r).get('d') != d:
                    continue
                b = flow.strip(f, t)
                if f.n(b)['k'] != 'Mem':
                    continue
                while f.n(b)['k'] == 'Mem' and f.n(b).get('c') or f.n(b)['k'] == 'OpCall' and f.n(b)['op'] in ('->', '*') or f.n(b)['k'] == 'Un' and f.n(b)['op'] == '*':
                    b = flow.strip(f, f.n(b)['c'][0])
                o = f.n(b).get('d') if f.n(b)['k'] == 'Ref' else None
                if o in decl and decl[o][0] not in f.cfg.reach(decl[o][0]) and p in f.cfg.reach(decl[o][0]) and not (decl[o][1].get('t') or '').rstrip().endswith(('&', '*')):
                    # the object of all entries instead of the one of this entry
                    if not any(flow.assign(f, z) is not None and f.n(flow.strip(f, flow.assign(f, z))).get('d') == o and f.cfg.point(z) in f.cfg.reach(p) for z in f.all()):
                        ctx.violation('entry:%s:%s' % (f.name, d.split('@')[0]), f.loc(j), 'what is read for each entry of a loop is stored in one object made before the loop: the entries do not get it')
