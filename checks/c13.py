"""Integers decoded from imported binary files are compared with the size of what they index, slice or size before they are used for it."""
import os
import re
import facts
import flow
from bounds import Bounds, INF, const, linear

LEVEL = 'other'
SCOPE = 'core/src/formats/'
SIZEOF = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8,
          'long long': 8, 'unsigned long long': 8}
# arrays of a decoded shape record and the field that holds their length (validated by the shape library when it decodes the record)
SHAPE = {'padfX': 'nVertices', 'padfY': 'nVertices', 'padfZ': 'nVertices', 'padfM': 'nVertices', 'panPartStart': 'nParts', 'panPartType': 'nParts'}
# function -> (pointer argument, length argument); -1 for the length: given by address
LENGTHS = {'memcpy': [(0, 2), (1, 2)], 'memmove': [(0, 2), (1, 2)], 'memset': [(0, 2)], 'strncpy': [(0, 2)], 'std::memcpy': [(0, 2), (1, 2)], 'std::memmove': [(0, 2), (1, 2)],
           'std::memset': [(0, 2)], 'fread': [(0, 2)], 'SwapWord': [(1, 0)]}
METHODS = {'read': (0, 1), 'readsome': (0, 1), 'get': (0, 1), 'getline': (0, 1), 'sgetn': (0, 1), 'write': (0, 1), 'ParseFromArray': (0, 1), 'ParsePartialFromArray': (0, 1), 'MergeFromArray': (0, 1), 'SerializeToArray': (0, 1)}
CTORS = ('ArrayInputStream', 'CodedInputStream', 'basic_string', 'membuf')
SCHEMA = set()
ZPAIR = {'avail_out': 'next_out', 'avail_in': 'next_in'}


def schema():
    """names of the repeated fields of the decoded messages: their _size() is the number of entries that exist"""
    if not SCHEMA:
        for root, _, fs in os.walk(os.path.join(facts.REPO, 'core/src')):
            for x in fs:
                if x.endswith('.proto'):
                    SCHEMA.update(re.findall(r'^\s*repeated\s+[\w.]+\s+(\w+)\s*=', open(os.path.join(root, x)).read(), re.M))
    return SCHEMA


def proto(d):
    """a decoding class of the protobuf schema"""
    return bool(d) and d['qn'].startswith('OSMPBF::')


def indexed(f, i):
    """(object accessor, index argument, kind) of o.field(k) on a repeated field"""
    d = f.callee(i)
    if not proto(d) or f.n(i)['k'] != 'MCall' or not f.args(i):
        return None
    ps = d.get('params', [])
    if len(ps) != 1 or ps[0].replace('const ', '').strip() not in ('int', 'int32', 'google::protobuf::int32') or d.get('ret') == 'void' or d['n'].startswith('set_'):
        return None
    return d['n'][8:] if d['n'].startswith('mutable_') else d['n']


class Taint:
    """integers which come from decoded data, by variable (flow-insensitive, through parameters)"""

    def __init__(self, m, S):
        self.m, self.S = m, S
        self.vars = set()
        self.fs = [f for f in m.fn.values() if f.file.startswith(SCOPE)]
        n = -1
        while n != len(self.vars):
            n = len(self.vars)
            for f in self.fs:
                self.step(f)

    def source(self, f, i):
        n = f.n(i)
        if n['k'] == 'MCall':
            d = f.callee(i)
            if proto(d) and not (d['n'].endswith('_size') and d['n'][:-5] in schema()) and not d['n'].startswith('has_') and re.match(r'^(const )?(unsigned )?(int|long|short)', str(d.get('ret', ''))):
                return True
        return n['k'] == 'Ref' and n.get('d') in self.vars or n['k'] == 'Mem' and str(n.get('n') or n.get('d', '')).rsplit('::', 1)[-1] in ('panPartStart', 'total_out')

    def tainted(self, f, e):
        if e is None or e < 0:
            return False
        for i in f.walk(e):
            if self.source(f, i):
                # the element that is looked up does not matter if only its text is used
                return True
        return False

    def intexpr(self, f, e):
        t = self.m.noref(f.typ(e)).replace('const ', '')
        return bool(re.match(r'^(unsigned |signed )?(int|long|short|char|long long)( int)?$|.*size_t$|.*int\d+_t$', t))

    def step(self, f):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v.get('i') is not None and v['i'] >= 0 and self.intexpr(f, v['i']) and self.tainted(f, v['i']):
                        self.vars.add(v['d'])
            elif n['k'] == 'Bin' and n.get('asg') and f.n(n['c'][0])['k'] == 'Ref' and self.intexpr(f, n['c'][0]) and self.tainted(f, n['c'][1]):
                self.vars.add(f.n(n['c'][0])['d'])
            elif n['k'] in ('Call', 'MCall', 'Ctor'):
                d = f.callee(i) or {}
                if n['k'] == 'MCall' and d.get('n') in ('read', 'readsome', 'sgetn') and not d.get('src'):
                    # variables filled from the stream
                    v = addressed(f, f.args(i)[0]) if f.args(i) else None
                    if v is not None and f.n(v)['k'] == 'Ref':
                        self.vars.add(f.n(v)['d'])
                g = self.m.fn.get(n.get('f'))
                if g is not None and g.file.startswith(SCOPE):
                    for p, a in zip(g.params, f.args(i)):
                        if a is not None and a >= 0 and self.intexpr(f, a) and self.tainted(f, a):
                            self.vars.add(p['d'])


def addressed(f, e):
    """v of an argument &v"""
    e = flow.strip(f, e)
    while f.n(e)['k'] == 'Cast' and f.n(e).get('c'):
        e = flow.strip(f, f.n(e)['c'][0])
    if f.n(e)['k'] == 'Un' and f.n(e)['op'] == '&':
        return flow.strip(f, f.n(e)['c'][0])
    return None


def unsigned(m, f, e):
    """the expression is held in an unsigned variable"""
    e = flow.strip(f, e)
    while f.n(e)['k'] == 'Cast' and f.n(e).get('c'):
        e = flow.strip(f, f.n(e)['c'][0])
    t = m.noref(f.typ(e)).replace('const ', '')
    return f.n(e)['k'] in ('Ref', 'Mem') and ('unsigned' in t or t.endswith('size_t') or bool(re.search(r'uint\d+_t$', t)))


class Capacity:
    def __init__(self, m, S):
        self.m, self.S = m, S
        self.memo = {}

    def field(self, fd):
        """number of entries a collection field has from construction to destruction, 0 if it may change"""
        if fd in self.memo:
            return self.memo[fd]
        self.memo[fd] = 0
        m, S = self.m, self.S
        cls = fd.rsplit('::', 1)[0]
        best = None
        for f in m.fn.values():
            if f.kind == 'ctor' and f.cls == cls:
                if f.decl.get('copy') or f.decl.get('move'):
                    continue
                k = None
                for x in f.inits:
                    if x.get('field') == fd:
                        k = S.ctor_size(f, x['i'])
                if not k:
                    return 0
                best = k if best is None else min(best, k)
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Mem' and n.get('d') == fd:
                    p = f.parent[i]
                    q = f.n(p) if p is not None and p >= 0 else {}
                    while q and q['k'] == 'Cast':
                        p = f.parent[p]
                        q = f.n(p) if p is not None and p >= 0 else {}
                    if q.get('k') == 'MCall' and f.obj(p) is not None and flow.strip(f, f.obj(p)) == i:
                        if f.callee(p)['n'] in ('clear', 'pop_back', 'erase', 'swap', 'assign', 'operator='):
                            return 0
                        if f.callee(p)['n'] == 'resize':
                            s = S.path(f, f.args(p)[0])
                            z = const(s) if s else None
                            if z is None:
                                return 0
                            best = z if best is None else min(best, z)
                    elif q.get('k') == 'OpCall' and q['op'] == '=' and q['c'][0] == i or q.get('k') in ('Call', 'Ctor') and (f.cqn(p) or '').startswith('std::'):
                        return 0
        self.memo[fd] = best or 0
        return self.memo[fd]

    def of(self, f, e, depth=0):
        """paths and constants that are upper bounds of a length starting at pointer e; None if the memory is not known"""
        m, S = self.m, self.S
        if depth > 6:
            return None
        e = flow.strip(f, e)
        n = f.n(e)
        while n['k'] == 'Cast' and n.get('c'):
            if 'ArrayToPointer' in str(n.get('ck', '')):
                pass
            e = flow.strip(f, n['c'][0])
            n = f.n(e)
        t = m.noref(f.typ(e))
        mo = re.match(r'^(?:const )?([\w ]+?)\s*\[(\d+)\]$', t)
        if mo:
            return ['#%d' % (int(mo.group(2)) * SIZEOF.get(mo.group(1).strip(), 1))]
        k = n['k']
        c = n.get('c', [])
        if k == 'MCall' and f.callee(e) and f.callee(e)['n'] in ('data', 'c_str', 'begin') and not f.callee(e).get('src'):
            return self.collection(f, f.obj(e))
        if k == 'Un' and n['op'] == '&':
            x = flow.strip(f, c[0])
            y = f.n(x)
            if y['k'] in ('OpCall', 'Sub') and (y['k'] == 'Sub' or y['op'] == '[]'):
                q = S.path(f, y['c'][1])
                if q == '#0':
                    return self.collection(f, y['c'][0])
                r = self.collection(f, y['c'][0])
                return ['(%s-%s)' % (z, q) for z in r] if r and q else None
            if y['k'] == 'OpCall' and y['op'] == '*' or y['k'] == 'MCall' and f.callee(x)['n'] == 'front':
                o = flow.strip(f, y['c'][0])
                return self.collection(f, f.obj(o) if y['k'] == 'OpCall' and f.n(o)['k'] == 'MCall' else y['c'][0])
            z = SIZEOF.get(m.noref(f.typ(x)).replace('const ', ''))
            return ['#%d' % z] if z else None
        if k == 'Ref' and n.get('d') is not None:
            g = S.owner(f, n['d'])
            v = S.vars(g).get(n['d'])
            if v and v[0] == 'local' and v[2] is not None and v[2] >= 0 and v[3] == 0:
                return self.of(g, v[2], depth + 1)
        return None

    def collection(self, f, o):
        S = self.S
        out = []
        p = S.path(f, o)
        if p:
            out.append(p + '.size()')
        z = f.n(flow.strip(f, o))
        if z['k'] == 'Mem' and z.get('d'):
            k = self.field(z['d'])
            if k:
                out.append('#%d' % k)
        return out or None


def check(ctx):
    m = ctx.m
    ctx.rule('In core/src/formats every index of a repeated decoded field is proved to lie in [0, size of that very field), every length handed to memory-reading or -writing functions in '
             '[0, capacity of the buffer], every array access of a shape record within its vertex or part count, and every decoded integer that sizes or indexes a collection is bounded; '
             'proofs use the branch conditions on every path, at the use or at all callers.')
    holder = {}

    repeated = schema()
    ctx.count('repeated fields of the schema', len(repeated))
    ctx.require('repeated fields of the schema', 5)

    def isnonneg(p):
        mo = re.search(r'\.(\w+)_size\(\)$', p)
        return p.endswith('.size()') or bool(mo and mo.group(1) in repeated) or bool(re.search(r'\.(\w+::)*(nVertices|nParts)$', p))

    def extra(B, f, i, p):
        """the inflated size is at most the room that was given"""
        if not p.endswith('total_out'):
            return -INF, INF
        his = []
        for j in f.all():
            n = f.n(j)
            if n['k'] == 'Bin' and n.get('op') == '=' and f.n(n['c'][0])['k'] == 'Mem' and str(f.n(n['c'][0]).get('d', '')).endswith('avail_out'):
                his.append(B.interval(f, j, n['c'][1])[1])
        return 0, his[0] if len(his) == 1 else INF
    S = Bounds(m, nonneg=isnonneg, extra=extra)
    T = Taint(m, S)
    C = Capacity(m, S)
    files = sorted({f.file for f in T.fs})

    def report(f, i, key, msg):
        ctx.violation('%s:%s' % (short(f), key), f.loc(i), msg)

    def need(f, i, what, arg, uppers, strict, argnode=None):
        """arg in [0, upper)"""
        ok = any(S.prove(f, i, arg, '<' if strict else '<=', u) for u in uppers)
        low = argnode is not None and unsigned(m, f, argnode) or S.prove(f, i, '#0', '<=', arg)
        if ok and low:
            return True
        report(f, i, what, '%s is not known to be %s' % (what, 'inside' if not ok else 'non-negative') + ' here: it comes from the file')
        return False

    done = set()
    for f in sorted(T.fs, key=lambda f: f.id):
        ctx.count('functions')
        for i in f.all():
            n = f.n(i)
            k = n['k']
            c = n.get('c', [])
            # 1. repeated fields
            fld = indexed(f, i) if k == 'MCall' else None
            if fld:
                ctx.count('decoded fields indexed')
                p = S.path(f, i)
                a = f.args(i)[0]
                q = S.path(f, a)
                o = S.objpath(f, i)
                if q is None or o is None:
                    report(f, i, '%s(...)' % fld, 'cannot relate the index to the size of %s' % fld)
                    continue
                need(f, i, 'index of %s()' % fld, q, ['%s.%s_size()' % (o, fld)], True, a)
                continue
            # 2. lengths
            pairs = []
            if k == 'Call':
                pairs = LENGTHS.get(f.cqn(i), [])
                if f.cqn(i) in ('uncompress', 'compress') and len(f.args(i)) > 3:
                    pairs = [(2, 3)]
                    v = addressed(f, f.args(i)[1])
                    cap = C.of(f, f.args(i)[0])
                    q = S.path(f, v) if v is not None else None
                    ctx.count('lengths')
                    if not cap or not q:
                        report(f, i, 'length of ' + f.cqn(i), 'cannot relate the length to the buffer')
                    else:
                        need(f, i, 'length of ' + f.cqn(i), q, cap, False, v)
            elif k == 'MCall':
                d = f.callee(i)
                if d and not d.get('src') and d['n'] in METHODS and len(f.args(i)) == 2 and m.tk(d.get('params', [''])[0]).get('k') == 'ptr':
                    pairs = [METHODS[d['n']]]
            elif k == 'Ctor':
                d = f.callee(i)
                if d and any(x in d.get('clsn', '') for x in CTORS) and len(f.args(i)) >= 2 and 'basic_string' in d.get('clsn', '') and m.tk(d.get('params', [''])[0]).get('k') == 'ptr' and re.search('long|size_t', d['params'][1]):
                    pairs = [(0, 1)]
                elif d and 'InputStream' in d.get('clsn', '') and len(f.args(i)) >= 2:
                    pairs = [(0, 1)]
            for pa, la in pairs:
                args = f.args(i)
                if max(pa, la) >= len(args):
                    continue
                ctx.count('lengths')
                length(ctx, m, S, C, f, i, args[pa], args[la], (f.callee(i) or {}).get('n', 'call'), report, need)
            # 3. room of the inflater
            if k == 'Bin' and n.get('op') == '=' and f.n(c[0])['k'] == 'Mem':
                fd = str(f.n(c[0]).get('d', '')).rsplit('::', 1)[-1]
                if fd in ZPAIR:
                    base = S.path(f, f.n(c[0])['c'][0])
                    ptr = [f.n(j)['c'][1] for j in f.all() if f.n(j)['k'] == 'Bin' and f.n(j).get('op') == '=' and f.n(f.n(j)['c'][0])['k'] == 'Mem' and
                           str(f.n(f.n(j)['c'][0]).get('d', '')).endswith('::' + ZPAIR[fd]) and S.path(f, f.n(f.n(j)['c'][0])['c'][0]) == base]
                    ctx.count('lengths')
                    if len(ptr) != 1:
                        report(f, i, fd, '%s is set without %s being set once' % (fd, ZPAIR[fd]))
                    else:
                        length(ctx, m, S, C, f, i, ptr[0], c[1], fd, report, need)
            # 4. shape records
            if k == 'Sub':
                b = flow.strip(f, c[0])
                while f.n(b)['k'] == 'Cast':
                    b = flow.strip(f, f.n(b)['c'][0])
                y = f.n(b)
                nm = str(y.get('d', '')).rsplit('::', 1)[-1] if y['k'] == 'Mem' else ''
                if nm in SHAPE and ('SHPObject' in str(y['d']) or 'shape' in str(y['d']).lower()):
                    ctx.count('record arrays indexed')
                    fullp = S.path(f, b)
                    q = S.path(f, c[1])
                    if fullp is None or q is None:
                        report(f, i, nm, 'cannot relate the index to the length of %s' % nm)
                        continue
                    lim = fullp[:-len(nm)] + SHAPE[nm]
                    if q == '#0' and point(m, S, f):
                        ctx.count('first vertex of point records')
                        continue
                    need(f, i, 'index of %s' % nm, q, [lim], True, c[1])
                    continue
            # 5. decoded integers which index, offset or size something
            if k in ('Sub', 'OpCall') and (k == 'Sub' or n['op'] == '[]') and len(c) == 2 and T.intexpr(f, c[1]) and T.tainted(f, c[1]) and direct(f, c[1], T):
                tt = m.tmpl(f.typ(c[0]))
                if tt in ('std::map', 'std::unordered_map'):
                    continue
                ctx.count('collections indexed')
                q = S.path(f, c[1])
                cap = C.collection(f, c[0])
                if not q or not cap:
                    report(f, i, 'index', 'a decoded integer indexes a collection of unknown size')
                else:
                    need(f, i, 'index', q, cap, True, c[1])
            elif k in ('OpCall', 'Bin') and n.get('op') in ('+', '+=') and len(c) == 2 and T.intexpr(f, c[1]) and T.tainted(f, c[1]) and direct(f, c[1], T) and \
                    (m.tk(f.typ(c[0])).get('k') == 'ptr' or 'iterator' in f.typ(c[0]).lower()):
                ctx.count('collections indexed')
                z = flow.strip(f, c[0])
                q = S.path(f, c[1])
                cap = C.collection(f, f.obj(z)) if f.n(z)['k'] == 'MCall' and (f.callee(z) or {}).get('n') in ('begin', 'cbegin') else C.of(f, c[0])
                if not q or not cap:
                    report(f, i, 'offset', 'a decoded integer is an offset into a collection of unknown size')
                else:
                    need(f, i, 'offset', q, cap, True, c[1])
            elif k == 'MCall' and f.callee(i) and not f.callee(i).get('src') and f.callee(i)['n'] in ('reserve', 'resize', 'assign') and f.args(i) and T.intexpr(f, f.args(i)[0]) and \
                    T.tainted(f, f.args(i)[0]) and direct(f, f.args(i)[0], T) and not partsize(f, f.args(i)[0]):
                ctx.count('allocations')
                sized(S, m, f, i, f.args(i)[0], report, f.callee(i)['n'])
            elif k == 'New' and n.get('size') is not None and T.tainted(f, n['size']):
                ctx.count('allocations')
                sized(S, m, f, i, n['size'], report, 'new')
    ctx.require('decoded fields indexed', 10)
    ctx.require('lengths', 5)
    ctx.sample(', '.join(files))


def partsize(f, e):
    """difference of part starts, which the shape library has ordered"""
    return not any(f.n(i)['k'] == 'MCall' for i in f.walk(e)) and 'ShapeParser' in f.qn


def sized(S, m, f, i, e, report, what):
    lo, hi = S.interval(f, i, e)
    if hi == INF or lo < 0 and not unsigned(m, f, e):
        q = S.path(f, e)
        if q and linear(q)[0] and S.isnonneg(linear(q)[0]):
            return
        ok = False
        if q:
            D = S.constraints(f, i, S.at(f, i), [q])
            x, c = linear(q)
            ok = any(a == x and S.isnonneg(b) and w < INF for (a, b), w in D.items()) and (unsigned(m, f, e) or lo >= 0)
        if not ok:
            report(f, i, 'argument of ' + what, 'memory is sized by an integer from the file that has no bounds here')


def length(ctx, m, S, C, f, i, ptr, ln, name, report, need):
    cap = C.of(f, ptr)
    q = S.path(f, ln)
    if q is None or cap is None:
        lo, hi = S.interval(f, i, ln)
        if cap and lo >= 0 and hi < INF and any(const(u) is not None and hi <= const(u) for u in cap):
            return
        report(f, i, 'length of ' + name, 'cannot relate the length to the size of the buffer')
        return
    need(f, i, 'length of ' + name, q, cap, False, ln)


def point(m, S, f):
    """the function only runs for point records: called under case labels of point types (the shape library gives these one vertex)"""
    cs = m.callers(f.id)
    ok = bool(cs)
    for cid, ci in cs:
        g = m.fn[cid]
        labs = caselabels(g, ci)
        if any(x[0] == '==' and x[1].endswith('nSHPType') and const(x[2]) in (1, 11, 21) for x in S.at(g, ci)):
            continue
        if not labs or not labs <= {1, 11, 21}:
            ok = False
    return ok


def caselabels(g, i):
    """constants of the switch under which node i runs"""
    gr = g.cfg
    p = gr.point(i)
    if p is None:
        return set()
    out = set()
    back = gr.reach(p, fwd=False) | {p}
    # go backwards through straight-line code to the edges of the switch
    seen, todo = set(), [p]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == gr.entry:
            return set()
        for y, lab in gr.pred[x]:
            if lab and lab[0] == 'case':
                z = g.n(lab[2]) if isinstance(lab[2], int) and lab[2] >= 0 else {}
                # a label in front of another label
                while z.get('k') == 'Case':
                    out.add(int(z['v']) if z.get('v') is not None else None)
                    z = g.n(z['c'][-1]) if z.get('c') else {}
                if z.get('k') != 'Case' and not (isinstance(lab[2], int) and lab[2] >= 0 and g.n(lab[2]).get('k') == 'Case'):
                    out.add(None)
            else:
                todo.append(y)
    return out


def direct(f, e, T):
    """the decoded integer itself takes part in the value (not only as argument of a call that returns something else)"""
    e = flow.strip(f, e)
    n = f.n(e)
    if T.source(f, e):
        return True
    if n['k'] in ('Bin', 'Un', 'Cast', 'Cond', 'Paren'):
        return any(direct(f, x, T) for x in n.get('c', []) if x is not None and x >= 0)
    return False


def short(f):
    return re.sub(r'<.*?>', '', f.qn).split('::', 2)[-1]
