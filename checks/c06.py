"""What selects the content of a cached tile is part of the name it is cached under."""
import re
import flow
from guards import Guards
from paths import Walk, TooMany
from c34 import short, num
from c04 import bare, report

LEVEL = 'other'
QUADKEY = 'utymap::QuadKey'
SP = 'utymap::mapcss::StyleProvider'
CTX = 'utymap::builders::BuilderContext'
NEUTRAL = ('c_str', 'str', 'data', 'substr', 'get', 'load')


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('every name under which tile data is kept on disk is built, on every path, from the tile (each bit of both coordinates at each level) and the kind of file; names of cached meshes also from the tag of the style and the name of the builder')
    ctx.rule('the tag of a style is the hash of a text in which every field of every rule takes part on every path')
    ctx.rule('the text tells neighbouring items and lists apart: whatever has no fixed text is ended by a mark of its own')
    ctx.rule('everything a style provider takes from a stylesheet takes part in the tag')
    N = Names(ctx, m, S)
    names(ctx, m, N)
    tiles(ctx, m, S)
    extensions(ctx, m, N)
    T = tag(ctx, m, S)
    content(ctx, m, S, T)
    ctx.require('file names', 3)
    ctx.require('tag functions', 2)
    ctx.require('fields of rules', 8)
    ctx.require('tile codes', 1)
    ctx.require('cache names', 1)
    apart(ctx, m, N)


class Names:
    """where the parts of a file name come from"""

    def __init__(self, ctx, m, S):
        self.m, self.S = m, S
        self.memo = {}

    def of(self, f, i, seen=(), depth=0):
        m = self.m
        if i is None or i < 0 or depth > 40 or (f.id, i) in seen:
            return set()
        k = (f.id, i)
        if k in self.memo:
            return self.memo[k]
        r = self._of(f, i, seen + (k,), depth)
        self.memo[k] = r
        return r

    def _of(self, f, i, seen, depth):
        m = self.m
        i = flow.strip(f, i)
        n = f.n(i)
        k = n['k']
        if k in ('Str', 'Char'):
            return {('const', str(n.get('v')))}
        if n.get('cv') is not None:
            return {('const', str(n['cv']))}
        if k == 'Ref':
            d = n.get('d')
            for j, p in enumerate(f.params):
                if p['d'] == d:
                    return self.param(f, j, seen, depth)
            if n.get('dk') in ('global', 'static'):
                return {('global', n.get('n'))}
            out = set()
            if self.isstream(f.typ(i)):
                return self.stream(f, i, seen, depth)
            g = f
            v = flow.init_of(f, d)
            if v is not None:
                out |= self.of(f, v, seen, depth + 1)
            else:
                out |= self.assigned(f, d, seen, depth)
            if not out and f.isLambda:
                for x in sorted(m.fn):
                    h = m.fn[x]
                    if h.rawcfg is not None and any(h.n(j)['k'] == 'Lambda' and h.n(j)['f'] == f.id for j in h.all()):
                        for j in h.all():
                            if h.n(j)['k'] == 'Ref' and h.n(j).get('d') == d:
                                return self.of(h, j, seen, depth + 1)
                        for j, p in enumerate(h.params):
                            if p['d'] == d:
                                return self.param(h, j, seen, depth)
            return out
        if k == 'Mem':
            fd = m.field(n['d'])
            nm = fd['n'] if fd else n.get('n')
            base = bare(f.typ(n['c'][0])) if n.get('c') else ''
            if base == QUADKEY:
                return {('quadkey', nm)}
            # a field which is only set by constructors
            out = set()
            rec = n['d'].rsplit('::', 1)[0] if '::' in n['d'] else base
            for x in sorted(m.fn):
                g = m.fn[x]
                for t in g.inits if isinstance(g.inits, list) and g.rawcfg is not None else []:
                    if t.get('field') == n['d'] and t.get('i') is not None and not g.decl.get('move') and not g.decl.get('copy'):
                        out |= self.of(g, t['i'], seen, depth + 1)
            if base == CTX or not out:
                return {('field', base.split('::')[-1] + '.' + str(nm))}
            return out | {('field', str(nm))}
        if k == 'OpCall' and n['op'] in ('+', '<<', '+='):
            out = set()
            for c in n['c']:
                out |= self.of(f, c, seen, depth + 1)
            return out
        if k in ('Bin',) and n['op'] == '+':
            return self.of(f, n['c'][0], seen, depth + 1) | self.of(f, n['c'][1], seen, depth + 1)
        if k == 'Cond':
            # what both outcomes depend on
            return self.of(f, n['c'][1], seen, depth + 1) & self.of(f, n['c'][2], seen, depth + 1)
        if k in ('MCall', 'Call'):
            nm = short(f, i)
            own = [m.fn[t] for t in sorted(m.targets(f, i)) if t in m.fn and m.fn[t].rawcfg is not None]
            if k == 'MCall' and own and bare(f.typ(n['c'][0])) == SP:
                return {('style', nm)}
            if own:
                h = own[0]
                if 'string' in (h.decl.get('ret') or '') and any(bare(p['t']) == QUADKEY for p in h.params) and len(own) == 1 and codes(h):
                    return {('code', h.id)}
                out = None
                for h in own:
                    r = self.returned(h, seen, depth)
                    out = r if out is None else out & r
                return out or set()
            if k == 'MCall' and nm in ('str',) and self.isstream(f.typ(n['c'][0])):
                return self.of(f, n['c'][0], seen, depth + 1)
            if k == 'MCall' and nm in NEUTRAL:
                return self.of(f, n['c'][0], seen, depth + 1) - ({('all',)} if nm == 'substr' else set())
            out = set()
            for a in f.args(i):
                out |= self.of(f, a, seen, depth + 1)
            return out
        if k in ('Ctor', 'InitList', 'Temp', 'Init'):
            out = set()
            for c in n.get('c', []):
                out |= self.of(f, c, seen, depth + 1)
            return out
        return set()

    def isstream(self, t):
        return 'stringstream' in t

    def returned(self, h, seen, depth):
        out = None
        for j in h.all():
            if h.n(j)['k'] == 'Return' and h.n(j).get('c'):
                r = self.of(h, h.n(j)['c'][0], seen, depth + 1)
                out = r if out is None else out & r
        return out or set()

    def param(self, f, j, seen, depth):
        out = None
        for x, c in sorted(self.m.callers(f.id)):
            g = self.m.fn[x]
            if '/test/' in (g.file or ''):
                continue
            a = g.args(c)
            if j < len(a):
                r = self.of(g, a[j], seen, depth + 1)
                out = r if out is None else out | r
        return out if out else {('param', f.params[j].get('n'))}

    def assigned(self, f, d, seen, depth):
        """a string which is put together by assignments every path passes"""
        out = set()
        for i in f.all():
            n = f.n(i)
            v = None
            if n['k'] == 'Decl':
                for x in n['vars']:
                    if x['d'] == d and x.get('i') is not None:
                        out |= self.of(f, x['i'], seen, depth + 1)
                continue
            t = flow.assign(f, i)
            if t is not None and self.chained(f, t) == d:
                v = [n['c'][1]]
            elif n['k'] == 'MCall' and short(f, i) in ('append', 'push_back', 'insert', 'assign') and self.chained(f, n['c'][0]) == d:
                v = f.args(i)
            if v and self.always(f, i):
                for a in v:
                    out |= self.of(f, a, seen, depth + 1)
        return out

    def stream(self, f, i, seen, depth):
        """what is always inserted into a text stream"""
        d = f.n(i).get('d')
        out = set()
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'OpCall' and n['op'] == '<<' and self.base(f, j) == d and self.always(f, j):
                out |= self.of(f, n['c'][1], seen, depth + 1)
            if n['k'] == 'MCall' and short(f, j) in ('write', 'put', 'str') and f.n(flow.strip(f, n['c'][0])).get('d') == d and self.always(f, j):
                for a in f.args(j):
                    out |= self.of(f, a, seen, depth + 1)
        # handed to a helper which inserts
        for j in f.all():
            n = f.n(j)
            if n['k'] in ('Call', 'MCall') and self.always(f, j):
                for t in sorted(self.m.targets(f, j)):
                    h = self.m.fn.get(t)
                    if h is None or h.rawcfg is None:
                        continue
                    for q, a in zip(h.params, f.args(j)):
                        if f.n(flow.strip(f, a)).get('d') == d and d is not None:
                            for y in h.all():
                                if h.n(y)['k'] == 'Ref' and h.n(y).get('d') == q['d']:
                                    out |= self.stream(h, y, seen, depth + 1)
                                    break
        return out

    def chained(self, f, i):
        """the variable a chain of appends starts with"""
        i = flow.strip(f, i)
        while f.n(i)['k'] == 'MCall' and short(f, i) in ('append', 'insert', 'assign') or f.n(i)['k'] == 'OpCall' and f.n(i)['op'] == '+=':
            i = flow.strip(f, f.n(i)['c'][0])
        return f.n(i).get('d') if f.n(i)['k'] == 'Ref' else None

    def base(self, f, j):
        while f.n(j)['k'] == 'OpCall' and f.n(j)['op'] == '<<':
            j = flow.strip(f, f.n(j)['c'][0])
        return f.n(j).get('d') if f.n(j)['k'] == 'Ref' else None

    def always(self, f, i):
        p = f.cfg.point(i)
        return p is None or f.cfg.exit not in f.cfg.reach(f.cfg.entry, avoid={p})


def codes(h):
    """does the function write a tile by its bits"""
    return any(h.n(i)['k'] == 'Mem' and h.n(i).get('n') in ('tileX', 'tileY') for i in h.all())


FILES = ('basic_ifstream', 'basic_ofstream', 'basic_fstream')


def names(ctx, m, N):
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or not (f.file or '').startswith('core/src/') or f.cls is None:
            continue
        kind = 'mesh' if 'MeshCache' in f.qn else 'data' if re.search(r'ElementStore|QuadKeyData|BitmapData', f.qn) else None
        if kind is None:
            continue
        for i in f.all():
            n = f.n(i)
            a = None
            if n['k'] == 'Ctor' and re.match(r'std::basic_[io]?fstream<', bare(f.typ(i))) and n.get('c'):
                a = n['c'][0]
            elif n['k'] == 'MCall' and short(f, i) == 'open' and any(b in f.typ(n['c'][0]) for b in FILES) and f.args(i):
                a = f.args(i)[0]
            elif n['k'] == 'Call' and short(f, i) in ('remove', 'rename', 'unlink', 'fopen'):
                a = f.args(i)[0]
            if a is None or 'basic_string' not in f.typ(a) and 'std::string' not in f.typ(a) and 'char' not in f.typ(a):
                continue
            ctx.count('file names')
            o = N.of(f, a)
            where = f.qn.split('::')[-2] + '::' + f.name
            if not any(p[0] == 'code' for p in o) and not {('quadkey', 'tileX'), ('quadkey', 'tileY'), ('quadkey', 'levelOfDetail')} <= o:
                report(ctx, f, i, 'the name of the file does not depend on the whole tile (level and both coordinates)', 'name-tile:' + where)
            if kind == 'mesh':
                if not any(p[0] == 'style' and p[1] == 'getTag' for p in o):
                    report(ctx, f, i, 'the name of the cached file does not depend on the style', 'name-style:' + where)
                if ('field', 'extension_') not in o and not any(p[0] in ('field', 'param') and re.search(r'ext|name|kind|builder', p[1], re.I) for p in o):
                    report(ctx, f, i, 'the name of the cached file does not depend on the builder', 'name-builder:' + where)
                if not any('eleProvider' in str(p[1]) for p in o if p[0] in ('field', 'style')):
                    ctx.violation('name-elevation', f.loc(i), 'the name of the cached file does not depend on the elevation data the request selects')
            else:
                if not any(p[0] in ('global', 'const') and '.' in p[1] or p[0] == 'global' for p in o):
                    report(ctx, f, i, 'the name of the file does not depend on its kind', 'name-kind:' + where)


def apart(ctx, m, N):
    """numbers of a name which follow each other directly: 1, 12 and 11, 2 give the same text"""
    def flat(f, i):
        i = flow.strip(f, i)
        n = f.n(i)
        if n['k'] == 'OpCall' and n['op'] in ('<<', '+', '+=') and len(n['c']) == 2 or n['k'] == 'Bin' and n['op'] == '+' and 'string' in f.typ(i):
            return flat(f, n['c'][0]) + flat(f, n['c'][1])
        if n['k'] in ('Ctor', 'Temp', 'Init') and len(n.get('c', [])) == 1 and 'string' in f.typ(i):
            return flat(f, n['c'][0])
        if n['k'] == 'MCall' and short(f, i) == 'append' and len(f.args(i)) == 1:
            return flat(f, n['c'][0]) + flat(f, f.args(i)[0])
        return [i]
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or not (f.file or '').startswith('core/src/') or not re.search(r'MeshCache|ElementStore|QuadKeyData|BitmapData|GeoUtils', f.qn):
            continue
        texts = {}
        for i in f.all():
            n = f.n(i)
            if not (n['k'] == 'OpCall' and n['op'] in ('<<', '+', '+=') or n['k'] == 'Bin' and n['op'] == '+' and 'string' in f.typ(i) or n['k'] == 'MCall' and short(f, i) == 'append'):
                continue
            q = f.parent[i]
            while q >= 0 and flow.strip(f, q) == flow.strip(f, i):
                q = f.parent[q]
            if q >= 0 and (f.n(q)['k'] == 'OpCall' and f.n(q)['op'] in ('<<', '+', '+=') or f.n(q)['k'] == 'MCall' and short(f, q) == 'append'):
                continue
            ps = flat(f, i)
            d = f.n(ps[0]).get('d') if f.n(ps[0])['k'] == 'Ref' else None
            if d is not None:
                texts.setdefault(d, []).extend(ps[1:])
            else:
                texts[i] = ps
        for d in sorted(texts, key=str):
            last = None
            for a in texts[d]:
                if f.n(a)['k'] == 'Ref' and (f.n(a).get('n') or f.n(a).get('d', '')).split('::')[-1] in ('hex', 'dec', 'oct', 'boolalpha', 'noskipws'):
                    continue
                o = N.of(f, a)
                num = any(p[0] == 'quadkey' for p in o) and not any(p[0] in ('const', 'code') for p in o)
                tag = any(p[0] == 'style' for p in o) and not any(p[0] == 'const' for p in o)
                if num or tag:
                    ctx.count('varying parts of names')
                if last is not None and num:
                    report(ctx, f, a, 'two numbers of a name of a file follow each other with nothing between them: different tiles share it', 'name-adjacent:' + f.qn.split('::')[-2] + '::' + f.name)
                last = a if num or tag else None


def tiles(ctx, m, S):
    """the code of a tile: one character for each level, a different one for each pair of bits"""
    for x in sorted(m.fn):
        h = m.fn[x]
        if h.rawcfg is None or '/test/' in (h.file or '') or 'string' not in (h.decl.get('ret') or '') or not any(bare(p['t']) == QUADKEY for p in h.params) or not codes(h):
            continue
        ctx.count('tile codes')
        seen = {h.n(i)['n'] for i in h.all() if h.n(i)['k'] == 'Mem' and bare(h.typ(h.n(i)['c'][0])) == QUADKEY}
        for want in ('tileX', 'tileY', 'levelOfDetail'):
            if want not in seen:
                report(ctx, h, None, 'the code of a tile does not depend on %s' % want, 'code:' + want)
        masks(ctx, h)
        digits(ctx, m, S, h)


def masks(ctx, h):
    """the bit looked at goes through all levels"""
    for i in h.all():
        n = h.n(i)
        if n['k'] != 'For':
            continue
        rng = loop(h, i)
        if rng is None:
            continue
        var, lo, hi = rng
        for j in h.walk(n['body'] if 'body' in n else i):
            s = h.n(j)
            if s['k'] == 'Bin' and s['op'] in ('<<', '>>'):
                c = s['c'][0] if s['op'] == '<<' else None
                off = linear(h, s['c'][1], var)
                if off is None or c is not None and num(h, c) is not None and num(h, c) != 1:
                    continue
                ctx.count('bits of tile codes')
                # bits 0 .. level - 1
                if (lo + off, hi + off) != (0, -1):
                    report(ctx, h, j, 'the code of a tile does not take every bit of its coordinates into account', 'code:bits')


def loop(h, i):
    """(variable, lowest value, highest value relative to the level) of a counting loop"""
    n = h.n(i)
    var = first = None
    if n.get('init') is None or n.get('cond') is None:
        return None
    d = h.n(n['init'])
    if d['k'] != 'Decl' or len(d['vars']) != 1 or d['vars'][0].get('i') is None:
        return None
    var = d['vars'][0]['d']
    c = h.n(flow.strip(h, n['cond']))
    if c['k'] != 'Bin' or c['op'] not in ('<', '<=', '>', '>=', '!='):
        return None
    a, b, op = flow.strip(h, c['c'][0]), flow.strip(h, c['c'][1]), c['op']
    if h.n(b).get('d') == var:
        a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    if h.n(a).get('d') != var:
        return None
    start, end = level(h, d['vars'][0]['i']), level(h, b)
    if start is None or end is None:
        return None
    # (is it relative to the level, number)
    if start[0] and not end[0]:
        lo = end[1] + (1 if op in ('>', '!=') else 0)
        hi = start[1]
    elif end[0] and not start[0]:
        lo = start[1]
        hi = end[1] - (1 if op in ('<', '!=') else 0)
    else:
        return None
    return var, lo, hi


def level(h, i):
    i = flow.strip(h, i)
    n = h.n(i)
    v = num(h, i)
    if v is not None:
        return (False, v)
    if n['k'] == 'Mem' and n.get('n') == 'levelOfDetail':
        return (True, 0)
    if n['k'] == 'Ref':
        j = flow.init_of(h, n.get('d'))
        return level(h, j) if j is not None else None
    if n['k'] == 'Bin' and n['op'] in ('+', '-'):
        a, b = level(h, n['c'][0]), level(h, n['c'][1])
        if a and b and not b[0]:
            return (a[0], a[1] + (b[1] if n['op'] == '+' else -b[1]))
    return None


def linear(h, i, var):
    """offset of variable + constant"""
    i = flow.strip(h, i)
    n = h.n(i)
    if n['k'] == 'Ref':
        if n.get('d') == var:
            return 0
        j = flow.init_of(h, n.get('d'))
        return linear(h, j, var) if j is not None else None
    if n['k'] == 'Bin' and n['op'] in ('+', '-'):
        a, b = linear(h, n['c'][0], var), num(h, n['c'][1])
        if a is not None and b is not None:
            return a + (b if n['op'] == '+' else -b)
    return None


def digits(ctx, m, S, h):
    """what is written for a level is different for each pair of bits"""
    def coord(f, a, depth=0):
        if depth > 6:
            return None
        hit = {f.n(j)['n'] for j in f.walk(a) if f.n(j)['k'] == 'Mem' and f.n(j).get('n') in ('tileX', 'tileY')}
        for j in f.walk(a):
            if f.n(j)['k'] == 'Ref':
                v = flow.init_of(f, f.n(j).get('d'))
                if v is not None:
                    c = coord(f, v, depth + 1)
                    if c:
                        hit.add(c)
        return hit.pop() if len(hit) == 1 else None

    def value(w, f, i, env, ev):
        n = f.n(i)
        v = num(f, i)
        if v is not None:
            return v
        if n['k'] == 'Char':
            return n.get('v') if isinstance(n.get('v'), int) else ord(str(n.get('v'))[0]) if n.get('v') else None
        if n['k'] == 'Bin' and n['op'] in ('+', '-', '|'):
            a, b = w.eval(f, n['c'][0], env, ev), w.eval(f, n['c'][1], env, ev)
            if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
                return a + b if n['op'] == '+' else a - b if n['op'] == '-' else a | b
        if n['k'] == 'Cond':
            a, ap = flow.normal(None, f, n['c'][0], True)
            o = env.get(('out', id(f), a))
            if o is not None:
                return w.eval(f, n['c'][1 if o == ap else 2], env, ev)
        c = coord(f, i)
        if n['k'] == 'Bin' and n['op'] in ('==', '!=', '>') and c:
            if num(f, n['c'][1]) == 0 or num(f, n['c'][0]) == 0:
                return ('cond', c, n['op'] != '==')
            return ('cond', c, n['op'] == '==')
        if n['k'] == 'Bin' and n['op'] == '&' and c:
            return ('cond', c, True)
        return None

    def arith(w, f, i, env, ev):
        n = f.n(i)
        t = flow.strip(f, n['c'][0])
        old = env.get(f.n(t)['d'])
        by = 1 if n['k'] == 'Un' else w.eval(f, n['c'][1], env, ev)
        if not isinstance(old, int) or not isinstance(by, int):
            return None
        return old + by if n['op'] in ('++', '+=') else old - by if n['op'] in ('--', '-=') else None

    def event(f, i, env, ev):
        if not isinstance(i, int):
            return None
        n = f.n(i)
        a = None
        if n['k'] == 'OpCall' and n['op'] in ('+=', '<<') and len(n['c']) == 2:
            a = n['c'][1]
        elif n['k'] == 'MCall' and short(f, i) in ('push_back', 'append') and f.args(i):
            a = f.args(i)[-1]
        if a is None:
            return None
        return ('digit', W.eval(f, a, env, ev))

    W = Walk(m, S, lambda f, i: (), event, value, 400, arith)
    try:
        ways = W.run(h)
    except TooMany:
        return
    table = {}
    for ev, ex, v in ways:
        ds = [e[1] for e in ev if e[0] == 'digit']
        br = {e[1]: e[2] for e in ev if e[0] == 'branch'}
        if len(ds) != 1 or not isinstance(ds[0], int) or set(br) != {'tileX', 'tileY'}:
            continue
        table.setdefault((br['tileX'], br['tileY']), set()).add(ds[0])
    ctx.count('digits of tile codes', len(table))
    if len(table) == 4:
        seen = {}
        for k in sorted(table):
            for d in table[k]:
                if seen.setdefault(d, k) != k:
                    report(ctx, h, None, 'two tiles have the same code: the digit for bits %s is that for bits %s' % (k, seen[d]), 'code:digits')


def extensions(ctx, m, N):
    """each cache has a name of its own"""
    seen = {}
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or '/test/' in (f.file or '') or not (f.file or '').startswith('core/'):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Call' and 'MeshCache' in f.typ(i) and 'unique_ptr' in f.typ(i) and 'make_unique' in (f.cqn(i) or '') and 'Impl' not in f.typ(i):
                ctx.count('cache names')
                a = f.args(i)
                if len(a) >= 2:
                    r = flow.strip(f, a[-1])
                    while f.n(r)['k'] == 'Ctor' and f.n(r).get('c'):
                        r = flow.strip(f, f.n(r)['c'][0])
                    k = f.n(r)
                    if k['k'] != 'Ref' or k.get('dk') != 'param' and not any(p['d'] == k.get('d') for p in f.params):
                        o = N.of(f, a[-1])
                        for z in sorted(o):
                            if z[0] == 'const' and len(o) == 1 and seen.setdefault('=' + z[1], f.id) != f.id:
                                report(ctx, f, i, 'caches of different builders have the same name', 'extension:' + f.name)
                        continue
                    # the name under which the builder is registered
                    j = [q['d'] for q in f.params].index(k['d'])
                    for y, c in sorted(m.callers(f.id)):
                        g = m.fn[y]
                        v = [z[1] for z in N.of(g, g.args(c)[j]) if z[0] == 'const']
                        for s in v:
                            ctx.count('builders')
                            if seen.setdefault(s, f.id) != f.id or False:
                                report(ctx, g, c, 'two builders are cached under the same name %s' % s, 'extension:' + s)
    # names of files of a tile in a store
    consts = {}
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.ginit and (f.file or '').endswith('PersistentElementStore.cpp'):
            s = [str(f.n(i).get('v')) for i in f.all() if f.n(i)['k'] == 'Str']
            for v in s:
                ctx.count('kinds of files')
                if v in consts and 'xtension' in f.qn and 'xtension' in consts[v]:
                    report(ctx, f, None, 'two kinds of files of a tile have the same name', 'kinds')
                consts[v] = f.qn


class Tag:
    pass


APPEND = ('append', 'push_back', 'insert', 'assign')


def tag(ctx, m, S):
    """functions which take part in the text of the tag"""
    T = Tag()
    roots = []
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or '/test/' in (f.file or '') or not (f.file or '').startswith('core/src/mapcss/StyleProvider'):
            continue
        if 'string' in (f.decl.get('ret') or '') and any(f.n(i)['k'] in ('Ctor', 'Temp', 'Call', 'MCall') and re.search(r'\bMD5\b|\bhash\b|SHA', f.typ(i)) for i in f.all()):
            roots.append(f)
    T.roots = roots
    funcs = {}
    todo = list(roots)
    while todo:
        f = todo.pop()
        if f.id in funcs or f.rawcfg is None or not (f.file or '').startswith('core/src/mapcss/'):
            continue
        funcs[f.id] = f
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall', 'OpCall'):
                todo += [m.fn[t] for t in sorted(m.targets(f, i)) if t in m.fn]
    T.funcs = [funcs[x] for x in sorted(funcs)]
    ctx.count('tag functions', len(T.funcs))
    E = Emit(m, S, T.funcs)
    T.E = E
    marks(ctx, m, E)
    fields(ctx, m, S, T, E)
    for f in roots:
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'MCall' and short(f, i) in ('substr', 'resize', 'erase', 'clear', 'pop_back', 'replace') and 'string' in f.typ(n['c'][0]):
                report(ctx, f, i, 'part of the text or of its hash is dropped', 'tag-cut')
    return T


class Emit:
    """where text is added to the tag"""

    def __init__(self, m, S, funcs):
        self.m, self.S = m, S
        self.funcs = {f.id: f for f in funcs}
        self.memo = {}
        self.ended = {}

    def text(self, f, i):
        """nodes added to the tag at this call"""
        n = f.n(i)
        if n['k'] == 'MCall' and short(f, i) in APPEND and 'basic_string' in f.typ(n['c'][0]) + 'basic_string' and 'string' in f.typ(n['c'][0]):
            return [f.args(i)[-1]] if short(f, i) != 'append' or len(f.args(i)) != 2 else list(f.args(i)[:1])
        if n['k'] == 'OpCall' and n['op'] in ('+=', '<<') and 'string' in f.typ(n['c'][0]):
            return [n['c'][1]]
        return None

    def const(self, f, i):
        i = flow.strip(f, i)
        n = f.n(i)
        while n['k'] in ('Ctor', 'Temp') and n.get('c'):
            i = flow.strip(f, n['c'][0])
            n = f.n(i)
        if n['k'] in ('Str', 'Char', 'Int'):
            return str(n.get('v'))
        if n.get('cv') is not None:
            return str(n['cv'])
        if n['k'] == 'Ref' and n.get('dk') in ('global', 'static'):
            return str(n.get('n'))
        return None

    def emits(self, f, i):
        """list of functions which add text, called at this node with the tag"""
        n = f.n(i)
        if n['k'] not in ('Call', 'MCall'):
            return []
        return [self.m.fn[t] for t in sorted(self.m.targets(f, i)) if t in self.funcs and self.adds(self.m.fn[t])]

    def adds(self, f):
        if f.id not in self.memo:
            self.memo[f.id] = False
            self.memo[f.id] = any(self.text(f, i) is not None or self.emits(f, i) for i in f.all())
        return self.memo[f.id]

    def sites(self, f):
        """[(node, point, 'const' text | 'var' | 'call')]"""
        out = []
        for i in f.all():
            t = self.text(f, i)
            p = f.cfg.point(i)
            if p is None:
                continue
            if t is not None:
                c = [self.const(f, a) for a in t]
                out.append((i, p, ('const', c[0]) if all(x is not None for x in c) else ('var', None)))
            else:
                e = self.emits(f, i)
                if e:
                    out.append((i, p, ('call', e)))
        return out


def marks(ctx, m, E):
    """every item and every list is ended by a mark"""
    ends = {'item': set(), 'list': set()}

    def open_at_end(f, stack=()):
        """may the function end with text which is not ended by a mark: set of ('item'|'list', node)"""
        if f.id in E.ended:
            return E.ended[f.id]
        E.ended[f.id] = ()
        sites = E.sites(f)
        consts = {p for i, p, k in sites if k[0] == 'const'}
        others = {p: (i, k) for i, p, k in sites if k[0] != 'const'}
        allp = {p for i, p, k in sites}
        g = f.cfg
        res = []
        for i, p, k in sites:
            if k[0] == 'const':
                continue
            kind = 'item' if k[0] == 'var' else None
            if k[0] == 'call':
                o = set()
                for h in k[1]:
                    o |= {w for w in open_at_end(h, stack + (f.id,))}
                if not o:
                    continue
                kind = 'list' if 'list' in o else 'item'
            r = g.reach(p, avoid=consts)
            nxt = [q for q in others if q in r]
            if nxt:
                report(ctx, f, i, 'an item of the tag is not ended by a mark: neighbouring items give the same text when they are divided in another way', 'unmarked:%s' % f.name)
            if g.exit in r:
                res.append(kind)
            for q in consts:
                pass
        # lists: a cycle which adds text; whatever follows it starts with a mark
        for i, p, k in sites:
            if p not in g.reach(p):
                continue
            loop = {q for q in g.reach(p) if p in g.reach(q)}
            out = {q for a in loop for q, lab in g.succ[a] if q not in loop}
            for q in sorted(out):
                # the outermost loop around p
                r = {q} | g.reach(q, avoid=consts) if q not in consts else {q}
                if q in consts:
                    continue
                nxt = [x for x in others if x in r and x not in loop]
                if nxt:
                    report(ctx, f, i, 'a list of the tag is not ended by a mark: what follows may as well be part of the list', 'unmarked-list:%s' % f.name)
                elif g.exit in r:
                    res.append('list')
        # inner loops: leaving a loop inside a loop
        inner(ctx, f, E, sites, consts, others)
        E.ended[f.id] = tuple(sorted(set(res)))
        return E.ended[f.id]
    for f in sorted(E.funcs.values(), key=lambda f: f.id):
        if E.adds(f):
            ctx.count('functions which add to the tag')
            open_at_end(f)


def loops(g):
    """natural loops: [(header, set of points)]"""
    out = {}
    for p in range(len(g.succ)):
        for q, lab in g.succ[p]:
            if g.dominates(q, p):
                body = {q, p}
                st = [p]
                while st:
                    x = st.pop()
                    if x == q:
                        continue
                    for y in preds(g, x):
                        if y not in body:
                            body.add(y)
                            st.append(y)
                out.setdefault(q, set()).update(body)
    return sorted(out.items())


def preds(g, x):
    if not hasattr(g, '_preds'):
        g._preds = {}
        for p in range(len(g.succ)):
            for q, lab in g.succ[p]:
                g._preds.setdefault(q, []).append(p)
    return g._preds.get(x, [])


def inner(ctx, f, E, sites, consts, others):
    g = f.cfg
    ls = loops(g)
    for h, body in ls:
        mine = [(i, p) for i, p, k in sites if p in body]
        if not mine:
            continue
        for a in sorted(body):
            for q, lab in g.succ[a]:
                if q in body or q in consts:
                    continue
                r = {q} | g.reach(q, avoid=consts)
                nxt = [x for x in others if x in r]
                if q in others:
                    nxt.append(q)
                if nxt:
                    report(ctx, f, mine[0][0], 'a list of the tag is not ended by a mark: what follows may as well be part of the list', 'unmarked-list:%s' % f.name)
                    return


def fields(ctx, m, S, T, E):
    """every field of the rules takes part"""
    roots = [bare(p['t']) for f in T.roots for p in f.params if bare(p['t']) in m.records]
    recs, todo = [], list(roots)
    while todo:
        r = todo.pop()
        if r in recs or r not in m.records:
            continue
        recs.append(r)
        for fd in m.fields(r, False):
            if 'unique_ptr' in fd['t'] and 'Tree' in fd['t']:
                continue
            todo += [x for x in sorted(m.records) if x.startswith('utymap') or '(anonymous' in x if re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(x), fd['t'])]
    # fields read where text is added
    used = set()

    def mark(f, root, depth=0):
        for j in f.walk(root):
            n = f.n(j)
            if n['k'] == 'Mem':
                used.add(n['d'])
            if n['k'] == 'MCall':
                for t in m.targets(f, j):
                    h = m.fn.get(t)
                    if h is not None and h.rawcfg is not None and depth < 3 and not E.adds(h):
                        for y in h.all():
                            if h.n(y)['k'] == 'Return' and h.n(y).get('c'):
                                mark(h, h.n(y)['c'][0], depth + 1)
            if n['k'] == 'Ref':
                v = flow.init_of(f, n.get('d'))
                if v is not None and depth < 6:
                    mark(f, v, depth + 1)
    for f in sorted(E.funcs.values(), key=lambda f: f.id):
        if not E.adds(f):
            continue
        for i, p, k in E.sites(f):
            n = f.n(i)
            for a in f.args(i) if n['k'] in ('Call', 'MCall') else n.get('c', []):
                mark(f, a)
            for a in f.ancestors(i):
                k2 = f.n(a)
                if k2['k'] == 'RFor':
                    mark(f, k2['range'])
                elif k2['k'] in ('For', 'While', 'Switch'):
                    for c in (k2.get('init'), k2.get('cond')):
                        if c is not None and c >= 0:
                            mark(f, c)
                            for j in f.walk(c):
                                if f.n(j)['k'] == 'Decl':
                                    for v in f.n(j)['vars']:
                                        if v.get('i') is not None and v['i'] >= 0:
                                            mark(f, v['i'])
            conditional(ctx, f, i, p, k)
    for r in sorted(recs):
        for fd in m.fields(r, False):
            if re.search(r'unique_ptr', fd['t']) and 'Tree' in fd['t']:
                continue   # made from the text of the value
            ctx.count('fields of rules')
            if fd['id'] not in used:
                ctx.violation('tag-field:%s.%s' % (r.split('::')[-1], fd['n']), (m.records[r].get('file') or '') + ':%s' % fd.get('line', 0), 'the tag of a style does not depend on %s::%s' % (r.split('::')[-1], fd['n']))
    # keys of maps
    for f in sorted(E.funcs.values(), key=lambda f: f.id):
        if not E.adds(f):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'RFor' and 'std::pair<const' in n.get('vt', '') + (f.typ(n['range']) if False else ''):
                ctx.count('keys of maps')
                v = n.get('var')
                if not any(f.n(j)['k'] == 'Mem' and f.n(j).get('n') == 'first' and f.n(flow.strip(f, f.n(j)['c'][0])).get('d') == v for j in f.walk(n['body'])):
                    report(ctx, f, i, 'the tag of a style does not depend on the keys of a map (levels or identifiers)', 'tag-key:' + f.name)
    # kinds of comparison
    for f in sorted(E.funcs.values(), key=lambda f: f.id):
        for p in f.params:
            e = m.enums.get(bare(p['t']))
            if e and E.adds(f):
                kinds(ctx, m, S, f, p, e, E)


def kinds(ctx, m, S, f, p, e, E):
    """each enumerator adds a text of its own"""
    vals = {}
    for i, q, k in E.sites(f):
        if k[0] == 'const':
            vals.setdefault(k[1], []).append(i)
    ctx.count('kinds of comparison', len(vals))
    for v in sorted(vals):
        if len(vals[v]) > 1:
            report(ctx, f, vals[v][1], 'two kinds of comparison add the same text to the tag', 'kinds:' + f.name)
    lits = e.get('vals') if isinstance(e, dict) else e
    n = len(lits) if lits else 0
    if n and any(k[0] == 'const' for i, q, k in E.sites(f)) and not any(k[0] == 'var' for i, q, k in E.sites(f)) and sum(len(v) for v in vals.values()) < n - 1:
        report(ctx, f, None, 'a kind of comparison adds nothing to the tag', 'kinds:' + f.name)


def conditional(ctx, f, i, p, k):
    """text which is only added under a condition"""
    if k[0] == 'const':
        return
    g = f.cfg
    hs = {h for h, b in loops(g)}
    for a in range(len(g.succ)):
        if len(g.succ[a]) < 2:
            continue
        labs = [lab for q, lab in g.succ[a]]
        if any(lab and lab[0] == 'case' for lab in labs):
            continue
        if any(lab and f.n(lab[0])['k'] == 'RFor' for lab in labs) or looping(f, labs):
            continue
        yes = [q for q, lab in g.succ[a] if q == p or p in g.reach(q, avoid={a})]
        no = [q for q, lab in g.succ[a] if q != p and (g.exit == q or g.exit in g.reach(q, avoid={p, a}) or a in g.reach(q, avoid={p}))]
        if yes and no and p in g.reach(a):
            lab = [l for l in labs if l][0]
            if f.n(lab[0])['k'] == 'Throw':
                continue
            report(ctx, f, i, 'what is added to the tag depends on a condition: styles which differ there share their tag', 'tag-condition:' + f.name)
            return


def looping(f, labs):
    for lab in labs:
        if lab:
            for a in f.ancestors(lab[0]):
                if f.n(a)['k'] in ('For', 'While', 'Do', 'RFor') and f.n(a).get('cond') is not None:
                    if f.n(a)['cond'] == lab[0] or lab[0] in set(f.walk(f.n(a)['cond'])):
                        return True
                    break
            for x in f.all():
                if f.n(x)['k'] in ('For', 'While', 'Do', 'RFor') and f.n(x).get('cond') == lab[0]:
                    return True
    return False


def content(ctx, m, S, T):
    """whatever is taken from the stylesheet takes part in the tag; the tag is made when all rules were taken"""
    roots = {f.id for f in T.roots}
    for x in sorted(m.fn):
        f = m.fn[x]
        if f.rawcfg is None or '/test/' in (f.file or ''):
            continue
        for i in f.all():
            if f.n(i)['k'] not in ('Call', 'MCall') or not (set(m.targets(f, i)) & roots) or f.id in roots:
                continue
            ctx.count('tags made')
            tagged = {f.n(j)['d'] for a in f.args(i) for j in f.walk(a) if f.n(j)['k'] == 'Mem'}
            sheets = [p for p in f.params if bare(p['t']).endswith('StyleSheet')]
            after(ctx, m, f, i, tagged)
            for p in sheets:
                for fd in m.fields(bare(p['t']), False):
                    ctx.count('parts of a style')
                    filled = set()
                    for j in f.all():
                        n = f.n(j)
                        if n['k'] == 'RFor' and any(f.n(y)['k'] == 'Mem' and f.n(y)['d'] == fd['id'] for y in f.walk(n['range'])):
                            filled |= written(m, f, n['body'])
                    direct = any(f.n(y)['k'] == 'Mem' and f.n(y)['d'] == fd['id'] for a in f.args(i) for y in f.walk(a))
                    if not direct and not (filled & tagged):
                        report(ctx, f, i, 'the tag of a style does not depend on its %s' % fd['n'], 'style-part:' + fd['n'])


def written(m, f, root, depth=0, seen=None):
    """members mentioned in a piece of code, helpers included"""
    seen = set() if seen is None else seen
    out = set()
    for j in f.walk(root):
        n = f.n(j)
        if n['k'] == 'Mem':
            out.add(n['d'])
        if n['k'] in ('MCall', 'Call'):
            for t in sorted(m.targets(f, j)):
                h = m.fn.get(t)
                if h is not None and h.rawcfg is not None and t not in seen and depth < 4 and h.cls == f.cls:
                    seen.add(t)
                    for y in h.all():
                        if h.n(y)['k'] == 'Mem':
                            out.add(h.n(y)['d'])
    return out


def after(ctx, m, f, i, tagged):
    """rules taken after the tag was made"""
    r = f.cfg.reach(f.cfg.point(i)) if f.cfg.point(i) is not None else set()
    for j in f.all():
        n = f.n(j)
        p = f.cfg.point(j)
        if p not in r or n['k'] not in ('MCall', 'Call', 'OpCall'):
            continue
        own = [m.fn[t] for t in m.targets(f, j) if t in m.fn and m.fn[t].rawcfg is not None and m.fn[t].cls == f.cls and not m.fn[t].decl.get('const')]
        if any(any(h.n(y)['k'] == 'Mem' and h.n(y)['d'] in tagged for y in h.all()) for h in own) or n['k'] == 'MCall' and short(f, j) in ('emplace', 'insert', 'push_back', 'emplace_back') and any(f.n(y)['k'] == 'Mem' and f.n(y)['d'] in tagged for y in f.walk(n['c'][0])):
            report(ctx, f, j, 'rules are added after the tag was made', 'tag-early')
            return
