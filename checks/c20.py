"""The managed library and the native library agree on every function, callback and enumeration they share."""
import re
import flow
from c34 import short

LEVEL = 'other'
WIDTH = {'System.Int32': 32, 'System.UInt32': 32, 'System.Int64': 64, 'System.UInt64': 64, 'System.Int16': 16, 'System.UInt16': 16, 'System.Byte': 8, 'System.SByte': 8}
UNM = {'I1': 8, 'U1': 8, 'I2': 16, 'U2': 16, 'I4': 32, 'U4': 32, 'I8': 64, 'U8': 64, 'Boolean': 32}
ELEM = {'System.Double[]': ('float', 64), 'System.Single[]': ('float', 32), 'System.Int32[]': ('int', 32), 'System.UInt32[]': ('int', 32), 'System.Int64[]': ('int', 64), 'System.UInt64[]': ('int', 64), 'System.Byte[]': ('int', 8), 'System.Int16[]': ('int', 16)}
ROLE = {'minimum': 'start', 'maximum': 'end'}


def check(ctx):
    m, cs = ctx.m, ctx.cs
    ctx.rule('every imported native function is exported by the native library with as many parameters of compatible kind and width, compatible result and the C calling convention')
    ctx.rule('every delegate handed to native code matches the function type native code calls it by, and array sizes are taken from the parameter native code passes the size of that very array in')
    ctx.rule('values which name the same thing on both sides (tile coordinates, levels of detail, latitude and longitude, corners) are passed in the same place')
    exports = {}
    for f in m.fn.values():
        if f.rawcfg is None or f.isLambda or f.cls:
            continue
        if (m.decls.get(f.id) or {}).get('extc'):
            exports[f.qn] = f
            ctx.count('native functions exported')
    N = Native(m)
    for n in cs.broken:
        ctx.sample('not compiled: ' + n)
    for key in sorted(cs.methods):
        x = cs.methods[key]
        p = x.d.get('pinvoke')
        if not p:
            continue
        ctx.count('imported functions')
        name = p['entry'] or x.n
        where = site(cs, x)
        tag = '%s:%s' % (x.asm, name)
        f = exports.get(name)
        if f is None:
            if any(g.startswith('UtyMap') for g in (p['lib'],)):
                ctx.violation('missing:' + tag, where, '%s is imported from %s but not exported' % (name, p['lib']))
            continue
        if p['cc'] != 'cdecl':
            ctx.violation('convention:' + tag, where, '%s is called with the %s convention, it is exported with the C convention' % (name, p['cc']))
        if len(f.params) != len(x.params):
            ctx.violation('count:' + tag, where, '%s takes %d parameters (%s), it is called with %d' % (name, len(f.params), f.loc(0) if f.nodes else f.file, len(x.params)))
            continue
        for k, (a, b) in enumerate(zip(x.params, f.params)):
            ctx.count('parameters compared')
            e = compat(ctx, m, cs, x, a['t'], a['m'], b['t'], p['charset'])
            if e:
                ctx.violation('type:%s:%d' % (tag, k), where, 'parameter %s of %s: %s' % (b['n'], name, e))
        e = compat(ctx, m, cs, x, x.d['ret'], x.d['retm'], (m.decls.get(f.id) or {}).get('ret'), p['charset'], True)
        if e:
            ctx.violation('result:' + tag, where, 'result of %s: %s' % (name, e))
        for k, (a, b) in enumerate(zip(x.params, f.params)):
            t = m.tk(b['t'])
            fn = t.get('p') if t.get('k') == 'ptr' and m.tk(t.get('p', '')).get('k') == 'fn' else b['t'] if m.isfn(b['t']) else None
            if fn is not None and isdelegate(cs, x.asm, a['t']):
                delegate(ctx, m, cs, N, x, a['t'], fn, where)
        roles(ctx, m, cs, N, x, f, name)
    enums(ctx, m, cs)
    ctx.require('imported functions', 12)
    ctx.require('parameters compared', 60)
    ctx.require('delegates compared', 4)
    ctx.require('callback invocations compared', 3)
    ctx.require('values followed to both sides', 20)


def site(cs, x):
    """where an imported function is used (it has no body of its own)"""
    for key in sorted(cs.methods):
        y = cs.methods[key]
        if y.asm == x.asm:
            for i in y.calls():
                if y.arg(i)['id'] == x.id:
                    return y.loc(i)
    return x.cls.id


def isdelegate(cs, asm, t):
    y = cs.type(t, asm)
    return y is not None and y.d['base'] == 'System.MulticastDelegate'


def compat(ctx, m, cs, x, t, mi, nt, charset, ret=False):
    """None, or what is wrong with passing managed type t as native type nt"""
    c = m.tk(nt)
    k = c.get('k')
    if k == 'ref':
        return 'a C++ reference cannot be passed'
    if nt == 'bool':
        k, c = 'int', {'k': 'int', 'w': 8}
    if k == 'enum':
        k = 'int'
        c = {'k': 'int', 'w': c.get('w', 32)}
    mn = (mi or {}).get('n')
    if t == 'System.Void':
        return None if nt == 'void' else 'nothing is expected, %s is returned' % nt
    if nt == 'void':
        return '%s is expected, nothing is returned' % t
    if t == 'System.Boolean':
        w = UNM.get(mn, 32)
        if k == 'int' and (w == c.get('w')):
            return None
        return 'a boolean of %d bits is exchanged for %s' % (w, nt)
    y = cs.type(t, x.asm)
    if y is not None and y.d['enum']:
        t = next((f['t'] for f in y.fields if not f['static']), 'System.Int32')
    if t in WIDTH:
        w = UNM.get(mn, WIDTH[t])
        if k == 'int' and c.get('w') == w:
            return None
        return '%s is exchanged for %s' % (t, nt)
    if t in ('System.Double', 'System.Single'):
        w = 64 if t == 'System.Double' else 32
        if k == 'float' and c.get('w') == w:
            return None
        return '%s is exchanged for %s' % (t, nt)
    p = m.tk(c['p']) if k == 'ptr' and 'p' in c else None
    if t == 'System.String':
        if ret:
            return 'the memory of a returned string would be freed by the managed side'
        if k != 'ptr' or not re.match(r'(const )?(unsigned |signed )?char$', c['p'].strip()):
            return 'a string is passed for %s' % nt
        if mn not in (None, 'LPStr', '48') or charset not in ('none', 'ansi') and mn is None:
            return 'the string is passed as wide characters'
        if 'const' not in c['p']:
            return 'a string is passed for characters which may be written'
        return None
    if t == 'System.String[]':
        if k == 'ptr' and m.tk(c['p']).get('k') == 'ptr' and re.match(r'(const )?char', m.tk(c['p']).get('p', '')):
            return None
        return 'strings are passed for %s' % nt
    if t in ELEM:
        if k == 'ptr' and p and (p.get('k'), p.get('w')) == ELEM[t]:
            return None
        return '%s is passed for %s' % (t, nt)
    if t == 'System.IntPtr' or t.endswith('*') or t == 'System.UIntPtr':
        if k == 'ptr' or k == 'int' and c.get('w') == 64:
            if k == 'ptr' and p and p.get('k') == 'rec':
                return layout(ctx, m, cs, x, c['p'])
            return None
        return 'a pointer is passed for %s' % nt
    if t.endswith('&'):
        return None if k == 'ptr' else 'a reference is passed for %s' % nt
    if isdelegate(cs, x.asm, t):
        if k == 'ptr' and m.isfn(nt) or m.tk(c.get('p', '')).get('k') == 'fn' or m.isfn(nt):
            return None
        return 'a delegate is passed for %s' % nt
    return None


def layout(ctx, m, cs, x, rec):
    """a pinned object of the managed type with the same name has the layout of the native record"""
    rec = rec.replace('const ', '').strip()
    y = next((t for (a, i), t in sorted(cs.types.items()) if a in (x.asm, 'UtyMap.Unity') and t.n == rec.split('::')[-1]), None)
    r = m.records.get(rec)
    if y is None or r is None:
        return None
    ctx.count('records compared')
    if y.d['layout'] == 'auto':
        return 'the fields of %s may be laid out in any order' % y.n
    a = [(f['n'], WIDTH.get(f['t']) or {'System.Double': 64, 'System.Single': 32, 'System.Boolean': 8}.get(f['t'])) for f in y.fields if not f['static']]
    b = [(f['n'], 8 if f['t'].split()[-1] == 'bool' else m.tk(f['t'].replace('volatile ', '').replace('std::atomic<', '').replace('>', '')).get('w')) for f in r['fields'] if not f.get('static')]
    if [w for _, w in a] != [w for _, w in b] and all(w for _, w in a) and all(w for _, w in b):
        return 'the fields of %s have widths %s on the managed side and %s on the native side' % (y.n, [w for _, w in a], [w for _, w in b])
    if any(v for v in (m.decls.get(z) or {} for z in r.get('methods', [])) if v.get('virtual')):
        return '%s has virtual functions on the native side' % y.n
    return None


def fnparams(m, fn):
    """return and parameter types of a function type's text"""
    s = fn.strip()
    i = s.index('(')
    ret = s[:i].strip()
    inner = s[i + 1:s.rindex(')')]
    out, depth, cur = [], 0, ''
    for ch in inner:
        if ch in '(<':
            depth += 1
        elif ch in ')>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip() and cur.strip() != 'void':
        out.append(cur.strip())
    return ret, out


def delegate(ctx, m, cs, N, x, t, fn, where):
    y = cs.type(t, x.asm)
    inv = next((z for z in y.methods if z.n == 'Invoke'), None)
    if inv is None:
        return
    ctx.count('delegates compared')
    name = y.n
    tag = '%s:%s' % (x.asm, name)
    at = next((a for a in y.d['attrs'] if a['t'].endswith('UnmanagedFunctionPointerAttribute')), None)
    cc = at['a'][0] if at and at['a'] else None
    if cc not in ('2', 'Cdecl'):
        ctx.violation('convention:' + tag, where, 'native code calls %s with the C convention, the delegate does not' % name)
    charset = {'1': 'none', '2': 'ansi', '3': 'unicode', '4': 'auto'}.get((at or {}).get('p', {}).get('CharSet'), 'none')
    ret, ps = fnparams(m, fn)
    if len(ps) != len(inv.params):
        ctx.violation('count:' + tag, where, 'native code calls %s with %d arguments, it takes %d' % (name, len(ps), len(inv.params)))
        return
    for k, (a, b) in enumerate(zip(inv.params, ps)):
        ctx.count('parameters compared')
        e = compat(ctx, m, cs, x, a['t'], a['m'] if (a['m'] or {}).get('n') != 'Array' else None, b, charset)
        if e:
            ctx.violation('type:%s:%d' % (tag, k), where, 'parameter %s of %s: %s' % (a['n'], name, e))
    e = compat(ctx, m, cs, x, inv.d['ret'], inv.d['retm'], ret, charset, True)
    if e:
        ctx.violation('result:' + tag, where, 'result of %s: %s' % (name, e))
    # sizes of arrays: managed side
    sizes = {}
    for k, a in enumerate(inv.params):
        if a['t'].endswith('[]'):
            mi = a['m'] or {}
            s = mi.get('param', -1)
            if s is None or s < 0 or s >= len(inv.params):
                if mi.get('size', 0) <= 0 or 'param' not in mi:
                    ctx.violation('size:%s:%d' % (tag, k), where, 'nothing says how many elements of %s of %s there are' % (a['n'], name))
                continue
            if inv.params[s]['t'] not in WIDTH:
                ctx.violation('size:%s:%d' % (tag, k), where, 'the number of elements of %s of %s is taken from a parameter which is no number' % (a['n'], name))
                continue
            sizes[k] = (s, where)
    reads(ctx, m, cs, x, y, ps, sizes, tag)
    # native side: what is passed
    hs = handlers(cs, x, y)
    for f, i, args in N.invocations(fn):
        ctx.count('callback invocations compared')
        for k, a in enumerate(args):
            w = word(N.dataof(f, a) or '')
            if w is None:
                continue
            for h in hs:
                off = len(h.params) - len(ps)
                got = leaves(cs, h, k + off)
                if got:
                    ctx.count('arrays followed to both sides')
                for g, at in sorted(got):
                    if g != w:
                        ctx.violation('array:%s:%d' % (tag, k), f.loc(i), 'what native code passes as %s is taken for %s (%s)' % (w, g, at))
        for k, (s, w) in sorted(sizes.items()):
            a, b = N.dataof(f, args[k]), N.sizeof(f, args[s])
            if a is not None and b is None and a in N.sizesin(f, args[s]):
                ctx.violation('size:%s:%d' % (tag, k), f.loc(i), 'the number of elements of %s which is passed is not the size of %s' % (inv.params[k]['n'], a))
            if a is None or b is None:
                continue
            ctx.count('array sizes compared')
            if a != b:
                ctx.violation('size:%s:%d' % (tag, k), f.loc(i), 'the number of elements of %s is taken from parameter %d, which is the size of something else (%s)' % (inv.params[k]['n'], s, w))


ARRAYS = {'vertex': 'vertices', 'vertice': 'vertices', 'triangle': 'triangles', 'color': 'colors', 'uv': 'uvs', 'uvmap': 'uvmap',
          'tag': 'tags', 'style': 'styles'}


def word(n):
    n = re.sub(r'[^a-z]', ' ', n.lower()).split()
    n = re.sub(r'(ptr|s)$', '', n[-1]) if n else ''
    return ARRAYS.get(n) or (ARRAYS.get(n[1:]) if n.startswith('c') else None)


def leaves(cs, h, p, depth=0):
    """what the parameter is called where it is used last"""
    out = set()
    if h.il and depth < 6:
        through = set()
        for rep in (0, 1):
            for i in h.calls():
                for j, pr in enumerate(h.ins[i]):
                    os = h.origins(pr)
                    hit = any(not isinstance(o, tuple) and (h.op(o).startswith('ldarg') and h.argument(o) == p or o in through) for o in os) and len(os) == 1
                    if not hit:
                        continue
                    if h.arg(i)['ret'].endswith('[]'):
                        through.add(i)
                        continue
                    if rep:
                        for z in cs.targets(h, i):
                            off = len(z.params) - len(h.ins[i])
                            if h.op(i) == 'newobj' or j + off >= len(z.params) or j + off < 0:
                                continue
                            out |= leaves(cs, z, j + off, depth + 1)
    if not out and p < len(h.params):
        w = word(h.params[p]['n'])
        if w:
            out.add((w, h.id.split('::')[-1].split('(')[0]))
    return out


def handlers(cs, x, y):
    """methods native code calls through the delegate"""
    out = set()
    for key in sorted(cs.methods):
        z = cs.methods[key]
        if z.asm != x.asm:
            continue
        for i in z.calls():
            if z.op(i) == 'newobj' and z.arg(i)['on'] == y.id:
                for q in z.ins[i][1]:
                    if z.op(q) in ('ldftn', 'ldvirtftn'):
                        h = cs.method(z.arg(q)['id'], z.asm)
                        if h is not None:
                            out.add(h.id)
    return [cs.method(h, x.asm) for h in sorted(out)]


def reads(ctx, m, cs, x, y, ps, sizes, tag):
    """pointers which handlers of the delegate read by themselves"""
    for h in handlers(cs, x, y):
        off = len(h.params) - len(ps)
        for i in h.calls():
            t = h.arg(i)['ret']
            cands = {}
            for j, pr in enumerate(h.ins[i]):
                os = h.origins(pr)
                if len(os) == 1:
                    o = next(iter(os))
                    if not isinstance(o, tuple) and h.op(o).startswith('ldarg'):
                        p = h.argument(o)
                        if p is not None and p >= 0:
                            cands.setdefault(h.params[p]['t'], []).append(p)
            ptr = cands.get('System.IntPtr', [])
            num = [p for w in WIDTH for p in cands.get(w, [])]
            if len(ptr) == 1 and len(num) == 1 and t.endswith('[]'):
                k, s = ptr[0], num[0]
                sizes[k - off] = (s - off, h.loc(i))
                e = compat(ctx, m, cs, x, t, None, ps[k - off], 'none')
                ctx.count('pointers read by handlers')
                if e:
                    ctx.violation('read:%s:%d' % (tag, k), h.loc(i), e)


class Native:
    def __init__(self, m):
        self.m = m
        self._sinks = {}
        self._inv = {}

    def invocations(self, fn):
        """calls through pointers to functions of the type"""
        if fn in self._inv:
            return self._inv[fn]
        out = []
        m = self.m
        want = fn.replace(' ', '')
        for f in sorted(m.fn.values(), key=lambda f: f.id):
            if f.rawcfg is None:
                continue
            for i in sorted(f.all()):
                n = f.n(i)
                if n['k'] == 'Call' and not n.get('f') and n.get('c'):
                    c = n['c'][0]
                    t = f.typ(flow.strip(f, c))
                    k = m.tk(m.noref(t))
                    t = k['p'] if k.get('k') == 'ptr' else m.noref(t)
                    if t.replace(' ', '') == want or m.tk(t).get('k') == 'fn' and self.canon(t) == self.canon(fn):
                        a = f.args(i)
                        if len(a) == len(fnparams(m, fn)[1]):
                            out.append((f, i, a))
        self._inv[fn] = out
        return out

    def canon(self, t):
        return re.sub(r'\s+', '', t.replace('(*)', ''))

    def resolve(self, f, e, depth=0):
        e = flow.strip(f, e)
        n = f.n(e)
        if n['k'] == 'Ref' and depth < 6 and n.get('dk') == 'local':
            j = flow.init_of(f, n.get('d'))
            if j is not None and not (self.m.tk(f.typ(e)).get('tmpl') or '').startswith('std::'):
                return self.resolve(f, j, depth + 1)
        return e

    def name(self, f, o):
        o = flow.strip(f, o)
        n = f.n(o)
        if n['k'] == 'Ref' and n.get('dk') == 'local':
            j = flow.init_of(f, n.get('d'))
            if j is not None and f.n(flow.strip(f, j))['k'] in ('Mem', 'Ref') and self.m.tk(self.decltype(f, n.get('d'))).get('k') == 'ref':
                return self.name(f, j)
        return f.expr(o)

    def decltype(self, f, d):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Decl':
                for v in n['vars']:
                    if v['d'] == d:
                        return v['t']
        return ''

    def dataof(self, f, e):
        """the container whose elements are passed"""
        e = self.resolve(f, e)
        n = f.n(e)
        if n['k'] == 'MCall' and short(f, e) in ('data', 'c_str') and n.get('c'):
            return self.name(f, f.obj(e))
        if n['k'] == 'Un' and n['op'] == '&':
            q = f.n(flow.strip(f, n['c'][0]))
            if q['k'] in ('OpCall', 'Sub') and q.get('c'):
                return self.name(f, q['c'][0])
            if q['k'] == 'MCall' and short(f, flow.strip(f, n['c'][0])) in ('front', 'at'):
                return self.name(f, f.obj(flow.strip(f, n['c'][0])))
        return None

    def sizeof(self, f, e):
        e = self.resolve(f, e)
        n = f.n(e)
        if n['k'] == 'MCall' and short(f, e) in ('size', 'length') and n.get('c'):
            return self.name(f, f.obj(e))
        return None

    def sizesin(self, f, e):
        """containers whose size takes part in the value"""
        out, st = set(), [e]
        while st:
            e = self.resolve(f, st.pop())
            n = f.n(e)
            if n['k'] == 'MCall' and short(f, e) in ('size', 'length') and n.get('c'):
                out.add(self.name(f, f.obj(e)))
            elif n['k'] in ('Bin', 'Un', 'Cond'):
                st += [c for c in n['c'] if c is not None]
        return out

    # ---- where a parameter ends up
    def family(self, f):
        """the function and the lambdas in it"""
        out, st = [], [f]
        while st:
            g = st.pop()
            out.append(g)
            for i in g.all():
                n = g.n(i)
                if n['k'] == 'Lambda' and n.get('f') in self.m.fn:
                    st.append(self.m.fn[n['f']])
        return out

    def sinks(self, fid, d, depth=0):
        """paths of the fields a parameter is kept in: ('tilex',), ('minpoint', 'latitude')"""
        key = (fid, d)
        if key in self._sinks:
            return self._sinks[key]
        self._sinks[key] = set()
        m = self.m
        out = set()
        if depth > 10:
            return out
        f0 = m.fn[fid]
        for it in f0.inits or []:
            if it.get('field') and it.get('i', -1) >= 0:
                r = flow.strip(f0, it['i'])
                if self.isref(f0, r, d):
                    out.add(((m.field(it['field']) or {}).get('n', it['field'].split('::')[-1]).lower().rstrip('_'),))
                elif f0.n(r)['k'] in ('Ctor', 'InitList'):
                    for a in f0.n(r).get('c', []):
                        if a >= 0 and self.isref(f0, flow.strip(f0, a), d) and len(f0.n(r)['c']) == 1:
                            out.add(((m.field(it['field']) or {}).get('n', it['field'].split('::')[-1]).lower().rstrip('_'),))
        for f in self.family(f0):
            for i in f.all():
                n = f.n(i)
                t = flow.assign(f, i)
                if t is not None and n.get('op') == '=' and len(n['c']) == 2 and self.isref(f, flow.strip(f, n['c'][1]), d):
                    q = f.n(flow.strip(f, t))
                    if q['k'] == 'Mem':
                        out.add(((m.field(q['d']) or {}).get('n', q['d'].split('::')[-1]).lower().rstrip('_'),))
                if n['k'] == 'InitList':
                    r = m.records.get(m.noref(f.typ(i)).replace('const ', ''))
                    fs = [x for x in (r or {}).get('fields', []) if not x.get('static')]
                    for j, a in enumerate(n.get('c', [])):
                        if a >= 0 and j < len(fs) and self.isref(f, flow.strip(f, a), d):
                            out.add((fs[j]['n'].lower().rstrip('_'),))
                if n['k'] in ('Call', 'MCall', 'Ctor'):
                    args = f.args(i) if n['k'] != 'Ctor' else n.get('c', [])
                    for j, a in enumerate(args):
                        if a >= 0 and self.isref(f, flow.strip(f, a), d):
                            out |= self.passed(f, i, j, depth)
        self._sinks[key] = out
        return out

    def passed(self, f, i, j, depth):
        """where argument j of the call ends up"""
        m = self.m
        out = set()
        n = f.n(i)
        ts = [n['f']] if n['k'] == 'Ctor' and n.get('f') in m.fn else [x for x in m.targets(f, i) if x in m.fn] if n['k'] != 'Ctor' else []
        for x in ts:
            g = m.fn[x]
            if j < len(g.params):
                for s in self.sinks(x, g.params[j]['d'], depth + 1):
                    out.add(s)
        if n['k'] == 'Ctor' and out:
            # the object made here, passed on
            p = f.parent[i]
            while p >= 0 and f.n(p)['k'] in ('Cast', 'Mat', 'Clean', 'Paren') or p >= 0 and f.n(p)['k'] == 'Ctor' and len(f.n(p).get('c', [])) == 1:
                i, p = p, f.parent[p]
            if p >= 0 and f.n(p)['k'] in ('Ctor', 'Call', 'MCall'):
                q = f.n(p)
                args = f.args(p) if q['k'] != 'Ctor' else q.get('c', [])
                k = next((k for k, a in enumerate(args) if a == i or i in set(f.walk(a)) and flow.strip(f, a) == flow.strip(f, i)), None)
                if k is not None:
                    pre = self.passed(f, p, k, depth + 1)
                    more = {x + y for x in pre for y in out if len(x) < 3}
                    out = more or out
            elif p >= 0 and f.n(p)['k'] == 'Decl':
                # a named object passed on
                v = next((v for v in f.n(p)['vars'] if v.get('i', -1) >= 0 and i in set(f.walk(v['i']))), None)
                more = set()
                if v is not None:
                    for g in self.family(f):
                        for c in g.all():
                            q = g.n(c)
                            if q['k'] in ('Ctor', 'Call', 'MCall'):
                                args = g.args(c) if q['k'] != 'Ctor' else q.get('c', [])
                                for k, a in enumerate(args):
                                    if a >= 0 and self.isref(g, flow.strip(g, a), v['d']) and depth < 8 and not (q['k'] == 'Ctor' and len(args) == 1):
                                        more |= {x + y for x in self.passed(g, c, k, depth + 1) for y in out if len(x) < 3}
                out = out | more
        return out

    def isref(self, f, i, d):
        n = f.n(i)
        if n['k'] == 'Ctor' and n.get('c') and n['c'][0] >= 0 and (len(n['c']) == 1 or 'basic_string' in f.typ(i)):
            return self.isref(f, flow.strip(f, n['c'][0]), d)
        if n['k'] == 'Ref' and n.get('d') == d:
            return True
        if n['k'] == 'Ref' and n.get('dk') == 'local':
            j = flow.init_of(f, n.get('d'))
            return j is not None and f.n(flow.strip(f, j))['k'] == 'Ref' and f.n(flow.strip(f, j)).get('d') == d
        return False


def member(x, i, depth=0):
    """names of the members read to get the value: ['MinPoint', 'Latitude']"""
    out = []
    while depth < 8:
        depth += 1
        if isinstance(i, tuple):
            return out
        op, a = x.op(i), x.arg(i)
        if op in ('ldfld', 'ldflda'):
            n = a['f'].split('::')[-1]
            if '<' in n or '$' in n or a['f'].split('::')[0].split('/')[-1].startswith('<'):
                return out
            out.insert(0, n)
        elif x.iscall(i) and a['n'].startswith('get_') and len(a['ps']) == 0 and a['this']:
            out.insert(0, a['n'][4:])
        else:
            return out
        os = x.origins(x.ins[i][0]) if x.ins[i] else set()
        if len(os) != 1:
            return out
        i = next(iter(os))
    return out


def roles(ctx, m, cs, N, x, f, name):
    for key in sorted(cs.methods):
        y = cs.methods[key]
        if y.asm != x.asm:
            continue
        for i in y.calls():
            if y.arg(i)['id'] != x.id or len(y.ins[i]) != len(f.params):
                continue
            want = []
            for k, pr in enumerate(y.ins[i]):
                os = y.origins(pr)
                path = member(y, next(iter(os))) if len(os) == 1 else []
                want.append(tuple(ROLE.get(p.lower(), p.lower()) for p in path))
            sinks = [{tuple(ROLE.get(z, z) for z in s) for s in N.sinks(f.id, p['d'])} for p in f.params]
            lasts = [{s[-1] for s in ss} for ss in sinks]
            for k, w in enumerate(want):
                if not w or not lasts[k]:
                    continue
                others = set().union(*(lasts[j] for j in range(len(lasts)) if j != k)) if len(lasts) > 1 else set()
                if w[-1] in lasts[k] or w[-1] in others:
                    ctx.count('values followed to both sides')
                if w[-1] not in lasts[k] and w[-1] in others:
                    ctx.violation('role:%s:%s:%d' % (x.asm, name, k), y.loc(i), '%s is passed where %s expects %s' % ('.'.join(w), name, '/'.join(sorted(lasts[k]))))
                # native side: the value is used for two different things
                elif len(lasts[k] & {z[-1] for z in want if z}) > 1:
                    ctx.violation('role:%s:%s:%d' % (x.asm, name, k), y.loc(i), '%s is used as %s by %s' % ('.'.join(w), ' and '.join(sorted(lasts[k] & {z[-1] for z in want if z})), name))
                elif len(w) > 1 and w[-1] in lasts[k]:
                    pre = {s[-2] for s in sinks[k] if len(s) > 1}
                    op = {s[-2] for j in range(len(sinks)) if j != k for s in sinks[j] if len(s) > 1}
                    if pre and w[-2] not in pre and w[-2] in op:
                        ctx.violation('role:%s:%s:%d' % (x.asm, name, k), y.loc(i), '%s is passed where %s expects one of %s' % ('.'.join(w), name, '/'.join(sorted(pre))))
            # lengths of arrays
            for k, pr in enumerate(y.ins[i]):
                os = y.origins(pr)
                if len(os) == 1 and not isinstance(next(iter(os)), tuple) and y.op(next(iter(os))) == 'ldlen':
                    o = next(iter(os))
                    arr = same(y, y.ins[o][0])
                    tgt = [j for j, q in enumerate(y.ins[i]) if j != k and same(y, q) == arr and arr is not None]
                    if len(tgt) == 1:
                        ctx.count('array lengths passed')
                        bound = bounds(m, N, f, f.params[tgt[0]]['d'])
                        mine = {j for j, p in enumerate(f.params) if p['d'] == f.params[k]['d']}
                        names = {j for b in bound for j in b}
                        if names and not (names & mine):
                            ctx.violation('length:%s:%s:%d' % (x.asm, name, k), y.loc(i), 'the elements of parameter %s are counted by parameter %s on the native side, not by %s' % (f.params[tgt[0]]['n'], '/'.join(f.params[j]['n'] for j in sorted(names)), f.params[k]['n']))


def same(y, pr):
    """identity of an array value: the local, field or argument it is read from"""
    if len(pr) != 1:
        return None
    i = next(iter(pr))
    if isinstance(i, tuple):
        return None
    op = y.op(i)
    b = op.split('.')[0]
    if b == 'ldloc':
        return ('l', y.local(i))
    if b == 'ldarg':
        return ('a', y.argument(i))
    if op == 'ldfld':
        return ('f', y.arg(i)['f'], same(y, y.ins[i][0]))
    if op == 'ldsfld':
        return ('s', y.arg(i)['f'])
    if b == 'conv':
        return same(y, y.ins[i][0])
    return None


def bounds(m, N, f, d, depth=0, seen=None):
    """parameters of f which bound the index into pointer parameter d: list of sets"""
    seen = seen if seen is not None else set()
    if (f.id, d) in seen or depth > 6:
        return []
    seen.add((f.id, d))
    out = []
    for g in N.family(f):
        for i in g.all():
            n = g.n(i)
            if n['k'] == 'Sub' and N.isref(g, flow.strip(g, n['c'][0]), d):
                for a in g.ancestors(i):
                    q = g.n(a)
                    if q['k'] in ('For', 'While') and q.get('cond') is not None and q['cond'] >= 0:
                        c = g.n(flow.strip(g, q['cond']))
                        if c['k'] == 'Bin' and c['op'] in ('<', '!=', '<=') and len(c['c']) == 2:
                            s = set()
                            for y in g.walk(c['c'][1]):
                                if g.n(y)['k'] == 'Ref':
                                    for j, p in enumerate(f.params):
                                        if N.isref(g, y, p['d']):
                                            s.add(j)
                            if s:
                                out.append(s)
            if n['k'] in ('Call', 'MCall', 'Ctor'):
                args = g.args(i) if n['k'] != 'Ctor' else n.get('c', [])
                ks = [k for k, a in enumerate(args) if a >= 0 and N.isref(g, flow.strip(g, a), d)]
                ts = ([n['f']] if n.get('f') in m.fn else []) if n['k'] == 'Ctor' else [x for x in m.targets(g, i) if x in m.fn]
                for x in ts:
                    h = m.fn[x]
                    for k in ks:
                        if k < len(h.params):
                            for s in bounds(m, N, h, h.params[k]['d'], depth + 1, seen):
                                t = set()
                                for j in s:
                                    if j < len(args) and args[j] >= 0:
                                        for w, p in enumerate(f.params):
                                            if N.isref(g, flow.strip(g, args[j]), p['d']):
                                                t.add(w)
                                if t:
                                    out.append(t)
    return out


def enums(ctx, m, cs):
    for (a, i), t in sorted(cs.types.items()):
        if not t.d['enum']:
            continue
        for q, e in sorted(m.enums.items()):
            if q.split('::')[-1] != t.n:
                continue
            vals = {}
            for c in e['vals']:
                vals[c['n']] = int(c['v'])
            mine = t.d.get('consts') or {}
            for n, v in sorted(mine.items()):
                ctx.count('enumeration values compared')
                if n not in vals:
                    ctx.violation('enum:%s:%s' % (t.n, n), t.id, '%s.%s has no counterpart in %s' % (t.n, n, q))
                elif vals[n] != v:
                    ctx.violation('enum:%s:%s' % (t.n, n), t.id, '%s.%s is %d, in %s it is %d' % (t.n, n, v, q, vals[n]))
