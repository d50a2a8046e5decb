"""Abstract evaluation of comparison-like functions over orderings of the values they read.

Functions whose outcome depends only on how the values they read compare with each other (and with constants) are decided
completely by one representative of every ordering.  Values are numbers standing for their rank; anything the evaluator does
not know makes the function undecided, never wrong."""
import itertools
import math
import re
import flow

SCALAR = re.compile(r'^(unsigned |signed )?(char|short|int|long|long long|double|float|bool|unsigned)( int| long| char| short)*$|^std::u?int\d+_t$|^std::(__cxx11::)?basic_string|^std::type_index$|^std::type_info$')


class Undecided(Exception):
    pass


class Thrown(Exception):
    pass


class LV:
    """a place: base object and access path"""
    __slots__ = ('b', 'p')

    def __init__(self, b, p=()):
        self.b, self.p = b, p

    def __eq__(self, o):
        return isinstance(o, LV) and (self.b, self.p) == (o.b, o.p)

    def __hash__(self):
        return hash((self.b, self.p))

    def __repr__(self):
        return '%s.%s' % (self.b, '.'.join(map(str, self.p)))


def clean(t):
    return re.sub(r'\s+', ' ', re.sub(r'\bconst\b|\bvolatile\b|&', '', t or '')).strip()


def scalar(m, t):
    t = clean(t)
    return bool(SCALAR.match(t)) or t in m.enums or t.startswith('enum ')


class Interp:
    """given: values of the leaves of input objects, a function (base, path) -> number"""

    def __init__(self, m, given, maxsteps=4000):
        self.m, self.given = m, given
        self.mem = {}
        self.fresh = 0
        self.steps = maxsteps
        self.consts = {}
        self.calls = 0

    # ---- places
    def new(self):
        self.fresh += 1
        return LV(('tmp', self.fresh))

    def read(self, lv):
        k = (lv.b, lv.p)
        if k in self.mem:
            return self.mem[k]
        if isinstance(lv.b, tuple) and lv.b[0] == 'tmp':
            raise Undecided('value never set')
        return self.given(lv.b, lv.p)

    def leaves(self, t, depth=0):
        """access paths of the scalars of a record type"""
        t = clean(t)
        if scalar(self.m, t):
            return [()]
        if t in self.m.records and depth < 4:
            out = []
            for f in self.m.fields(t):
                L = self.leaves(f['t'], depth + 1)
                if L is None:
                    return None
                out += [(f['n'],) + p for p in L]
            return out
        return None

    def copy(self, dst, src, t):
        L = self.leaves(t)
        if L is None:
            raise Undecided('copy of ' + t[:60])
        v = [self.read(LV(src.b, src.p + p)) for p in L]
        for p, x in zip(L, v):
            self.mem[(dst.b, dst.p + p)] = x

    def store(self, dst, v, t):
        if isinstance(v, LV):
            if scalar(self.m, t):
                self.mem[(dst.b, dst.p)] = self.read(v)
            else:
                self.copy(dst, v, t)
        else:
            self.mem[(dst.b, dst.p)] = v

    def num(self, v):
        return self.read(v) if isinstance(v, LV) else v

    def const(self, text):
        return self.given(('const', text), ())

    # ---- functions
    def call(self, f, this, args, depth=0):
        """args: places or values in the order of f.params; the result is a place or a value"""
        if f.rawcfg is None or depth > 8:
            raise Undecided('no body: ' + f.qn)
        self.calls += 1
        env = {}
        self.bind(f, env, args)
        if f.kind == 'ctor':
            for x in f.inits or ():
                if 'i' not in x or x['i'] is None or x['i'] < 0:
                    continue
                if x.get('field'):
                    fd = self.m.field(x['field'])
                    self.store(LV(this.b, this.p + (fd['n'],)), self.ev(f, x['i'], env, {}, this, depth), fd['t'])
                else:
                    v = self.ev(f, x['i'], env, {}, this, depth)
                    if isinstance(v, LV) and v != this:
                        self.copy(this, v, f.cls)
        return self.body(f, env, this, depth)

    def bind(self, f, env, args):
        if len(args) < len(f.params):
            raise Undecided('default arguments of ' + f.qn)
        for p, a in zip(f.params, args):
            t = p['t']
            if isinstance(a, Iter):
                env[p['d']] = a if t.rstrip().endswith('&') else Iter(a.b, a.i, a.t)
            elif t.rstrip().endswith('&') or t.rstrip().endswith('*') or 'iterator' in t:
                env[p['d']] = a
            else:
                d = self.new()
                if isinstance(a, LV) and not scalar(self.m, t) and self.leaves(t) is None:
                    env[p['d']] = a
                else:
                    self.store(d, a, t)
                    env[p['d']] = d

    def body(self, f, env, this, depth):
        g = f.cfg
        p = g.entry
        cache = {}
        ret = None
        while p != g.exit:
            self.steps -= 1
            if self.steps < 0:
                raise Undecided('too long: ' + f.qn)
            pl = g.payload[p]
            if pl and pl[0] == 's':
                i = pl[1]
                n = f.n(i)
                k = n['k']
                if k == 'Return':
                    if n.get('c'):
                        v = self.ev(f, n['c'][0], env, cache, this, depth)
                        if not f.decl.get('ret', '').rstrip().endswith(('&', '*')) and isinstance(v, LV):
                            if scalar(self.m, f.decl['ret']):
                                v = self.read(v)
                            elif self.leaves(f.decl['ret']) is not None:
                                d = self.new()
                                self.copy(d, v, f.decl['ret'])
                                v = d
                        ret = v
                elif k == 'Throw':
                    raise Thrown()
                elif k == 'Decl':
                    for v in n['vars']:
                        if v.get('static'):
                            continue
                        if v.get('i') is not None and v['i'] >= 0:
                            x = self.ev(f, v['i'], env, cache, this, depth)
                            if v['t'].rstrip().endswith(('&', '*')) or isinstance(x, (tuple, Closure)):
                                env[v['d']] = x
                            elif isinstance(x, LV) and not scalar(self.m, v['t']) and self.leaves(v['t']) is None:
                                env[v['d']] = x
                            else:
                                d = self.new()
                                self.store(d, x, v['t'])
                                env[v['d']] = d
                        else:
                            env[v['d']] = self.new()
                else:
                    self.one(f, i, env, cache, this, depth)
            nxt = None
            for q, lab in g.succ[p]:
                if not lab:
                    nxt = q
                    break
                if lab[0] == 'case':
                    nxt = self.case(f, g, p, env, cache, this, depth)
                    break
                if f.n(lab[0])['k'] == 'RFor':
                    raise Undecided('loop over a range')
                v = self.num(self.ev(f, lab[0], env, cache, this, depth))
                if bool(v) == lab[1]:
                    nxt = q
                    break
            if nxt is None:
                raise Undecided('no successor in ' + f.qn)
            p = nxt
        return ret

    def case(self, f, g, p, env, cache, this, depth):
        dflt = None
        for q, lab in g.succ[p]:
            if not lab or lab[0] != 'case':
                continue
            sw, lb = lab[1], lab[2]
            ln = f.n(lb) if lb is not None and lb >= 0 else {'k': 'Default'}
            if ln['k'] == 'Case':
                v = self.num(self.ev(f, f.n(sw)['cond'], env, cache, this, depth))
                if v == ln.get('v'):
                    return q
            else:
                dflt = q
        return dflt

    # ---- expressions
    def one(self, f, i, env, cache, this, depth):
        """evaluate node i anew, children from the cache"""
        try:
            v = self.node(f, i, env, cache, this, depth)
        except Undecided as e:
            v = e
        cache[i] = v

    def ev(self, f, i, env, cache, this, depth):
        if i not in cache:
            self.one(f, i, env, cache, this, depth)
        v = cache[i]
        if isinstance(v, Undecided):
            raise v
        return v

    def node(self, f, i, env, cache, this, depth):
        n = f.n(i)
        k = n['k']
        m = self.m
        E = lambda x: self.ev(f, x, env, cache, this, depth)
        if k in ('Paren', 'Clean', 'Mat', 'DefArg'):
            return E(n['c'][0])
        if k == 'Cast':
            v = E(n['c'][0])
            ck = n.get('ck', '')
            if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
                return bool(self.num(v))
            if ck == 'FloatingToIntegral':
                x = self.num(v)
                return int(x) if isinstance(x, (int, float)) else x
            if ck == 'LValueToRValue' and isinstance(v, LV) and scalar(m, n.get('t', '')):
                return self.read(v)
            return v
        if k == 'Int':
            return int(n.get('v', 0))
        if k == 'Float':
            return float(n.get('v', 0))
        if k == 'Bool':
            return bool(n.get('v'))
        if k == 'Char':
            return n.get('v')
        if k == 'Str':
            return self.const('"%s"' % n.get('v'))
        if k == 'This':
            return this
        if k == 'Ref':
            d = n.get('d')
            if d in env:
                return env[d]
            if 'v' in n and isinstance(n['v'], (int, float)):
                return n['v']
            if n.get('dk') == 'enum' or n.get('dk') == 'enumerator':
                return n.get('v', 0)
            g = m.globals.get(d)
            if g is not None:
                for kk in ('iv', 'v', 'fv'):
                    if isinstance(g.get(kk), (int, float)):
                        return g[kk]
            if n.get('dk') == 'static' and scalar(m, n.get('t', '')):
                if not hasattr(f, '_statics'):
                    f._statics = {v['d']: v.get('i') for j in f.all() if f.n(j)['k'] == 'Decl' for v in f.n(j)['vars']}
                j = f._statics.get(d)
                if j is not None and j >= 0:
                    try:
                        return self.num(E(j))
                    except Undecided:
                        pass
                return self.const(d)
            if n.get('dk') in ('static', 'global') and scalar(m, n.get('t', '')):
                return self.const(d)
            if n.get('dk') == 'local':
                j = flow.init_of(f, d)
                if j is not None:
                    return E(j)
            if f.isLambda and n.get('dk') in ('local', 'param', 'capture') and getattr(self, 'outer', None) and d in self.outer:
                return self.outer[d]
            raise Undecided('variable ' + str(n.get('n')))
        if k == 'Mem':
            if not n.get('c'):
                raise Undecided('member')
            b = E(n['c'][0])
            if isinstance(b, tuple):
                if n['n'] in ('first', 'second'):
                    return b[0 if n['n'] == 'first' else 1]
            if not isinstance(b, LV):
                raise Undecided('member of a value')
            if n.get('dk') == 'func' or m.field(n.get('d')) is None and n['n'] not in ('first', 'second', 'x', 'y', 'z', 'X', 'Y'):
                if n.get('v') is not None:
                    return n['v']
            r = LV(b.b, b.p + (n['n'],))
            if ('ref', r.b, r.p) in self.mem:
                return self.mem[('ref', r.b, r.p)]
            return r
        if k == 'Un':
            op = n['op']
            if op in ('++', '--'):
                lv = E(n['c'][0])
                if isinstance(lv, Iter):
                    old = Iter(lv.b, lv.i, lv.t)
                    lv.i += 1 if op == '++' else -1
                    return old if n.get('post') else lv
                if not isinstance(lv, LV):
                    raise Undecided('increment')
                old = self.read(lv)
                self.mem[(lv.b, lv.p)] = old + (1 if op == '++' else -1)
                return old if n.get('post') else lv
            v = E(n['c'][0])
            if op in ('*', '&'):
                return v
            x = self.num(v)
            if op == '!':
                return not x
            if op == '-':
                return -x
            if op == '+':
                return x
            raise Undecided('operator ' + op)
        if k == 'Cond':
            c = self.num(E(n['c'][0]))
            return E(n['c'][1 if c else 2])
        if k in ('Bin', 'CAsg', 'OpCall'):
            op = n['op']
            if k == 'OpCall' and n.get('f') in m.fn and m.fn[n['f']].rawcfg is not None and not m.fn[n['f']].decl.get('defaulted'):
                g = m.fn[n['f']]
                a = [E(x) for x in n['c']]
                if g.isLambda and isinstance(a[0], Closure):
                    return self.lam(a[0], a[1:], depth)
                if n.get('mem'):
                    return self.call(g, a[0], self.defaults(g, a[1:]), depth + 1)
                return self.call(g, None, a, depth + 1)
            if k == 'OpCall' and op in ('++', '--', '*', '->'):
                b = E(n['c'][0])
                if isinstance(b, Iter):
                    if op in ('*', '->'):
                        return LV(b.b, (b.i,))
                    old = Iter(b.b, b.i, b.t)
                    b.i += 1 if op == '++' else -1
                    return old if len(n['c']) > 1 else b
            if op == '&&' or op == '||':
                a = self.num(E(n['c'][0]))
                if bool(a) == (op == '||'):
                    return bool(a)
                return bool(self.num(E(n['c'][1])))
            if op == ',':
                return E(n['c'][1])
            if k == 'OpCall' and op in ('->', '*') and len(n['c']) == 1:
                b = E(n['c'][0])
                if isinstance(b, LV):
                    t = f.typ(n['c'][0])
                    if 'shared_ptr' in t or 'unique_ptr' in t:
                        return LV(b.b, b.p + ('*',)) if ('ptr', b.b, b.p) not in self.mem else self.mem[('ptr', b.b, b.p)]
                raise Undecided('dereference')
            if op == '=':
                lv = E(n['c'][0])
                v = E(n['c'][1])
                if isinstance(lv, LV):
                    t = f.typ(n['c'][0])
                    if isinstance(v, LV) and not scalar(m, t) and self.leaves(t) is None:
                        raise Undecided('assignment of ' + t[:50])
                    self.store(lv, v, t)
                    return lv
                if isinstance(lv, tuple) and isinstance(v, tuple):
                    vs = [self.num(x) for x in v]
                    for a, b in zip(lv, vs):
                        self.mem[(a.b, a.p)] = b
                    return lv
                raise Undecided('assignment')
            if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
                lv = E(n['c'][0])
                if not isinstance(lv, LV):
                    raise Undecided('assignment')
                self.mem[(lv.b, lv.p)] = self.arith(op[:-1], self.read(lv), self.num(E(n['c'][1])), n.get('t', ''))
                return lv
            a, b = E(n['c'][0]), E(n['c'][1]) if len(n['c']) > 1 else None
            if isinstance(a, Iter) and isinstance(b, Iter):
                if op in ('==', '!='):
                    return (a == b) == (op == '==')
                if op == '<':
                    return a.i < b.i
                raise Undecided('iterators')
            if isinstance(a, LV) and isinstance(b, LV) and op in ('==', '!=') and not scalar(m, f.typ(n['c'][0])):
                if '*' in f.typ(n['c'][0]) or '_ptr<' in f.typ(n['c'][0]):
                    raise Undecided('pointer comparison')
            return self.arith(op, self.val(f, n['c'][0], a), self.val(f, n['c'][1], b), n.get('t', ''))
        if k == 'TypeId':
            if n.get('c'):
                b = E(n['c'][0])
                if isinstance(b, LV):
                    return self.given(b.b, b.p + ('typeid',))
                raise Undecided('typeid')
            return self.const('typeid ' + n.get('at', ''))
        if k in ('Ctor', 'InitList', 'Init'):
            return self.construct(f, i, n, E, depth)
        if k == 'Lambda':
            return Closure(m.fn.get(n.get('f')) or m.fn.get(n.get('fn')), env, this)
        if k in ('Call', 'MCall'):
            return self.invoke(f, i, n, E, this, depth, env)
        if k == 'Default' or k == 'Case':
            return None
        raise Undecided('construct ' + k)

    def defaults(self, g, a):
        return a

    def val(self, f, i, v):
        if isinstance(v, LV):
            t = clean(f.typ(i))
            if scalar(self.m, t):
                return self.read(v)
            L = self.leaves(t)
            raise Undecided('value of ' + t[:50])
        if isinstance(v, tuple):
            return tuple(self.num(x) for x in v)
        return v

    def arith(self, op, a, b, t=''):
        if isinstance(a, tuple) != isinstance(b, tuple) or a is None or b is None:
            raise Undecided('operands')
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if isinstance(a, tuple):
            raise Undecided('operands')
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                raise Undecided('division')
            if isinstance(a, int) and isinstance(b, int) and 'double' not in t and 'float' not in t:
                return int(a / b)
            return a / b
        if op == '&':
            return (a & b) if not isinstance(a, bool) or not isinstance(b, bool) else (a and b)
        if op == '|':
            return (a | b) if not isinstance(a, bool) or not isinstance(b, bool) else (a or b)
        if op == '^':
            return a ^ b
        raise Undecided('operator ' + op)

    def construct(self, f, i, n, E, depth):
        m = self.m
        t = clean(n.get('t', ''))
        a = list(n.get('c', []))
        if re.match(r'std::(tuple|pair)<', t):
            if len(a) == 1:
                return E(a[0])
            return tuple(E(x) for x in a)
        if t.startswith('std::type_index') and len(a) == 1:
            return self.num(E(a[0]))
        if len(a) == 1 and n['k'] == 'Ctor':
            v = E(a[0])
            if clean(f.typ(a[0])) == t:
                if isinstance(v, Iter):
                    return Iter(v.b, v.i, v.t)
                if isinstance(v, LV) and self.leaves(t) is not None:
                    if scalar(m, t):
                        return self.read(v)
                    d = self.new()
                    self.copy(d, v, t)
                    return d
                return v
        g = m.fn.get(n.get('f'))
        if g is not None and g.rawcfg is not None:
            d = self.new()
            self.call(g, d, [E(x) for x in a], depth + 1)
            return d
        if t in m.records and n['k'] in ('InitList', 'Init'):
            d = self.new()
            for fd, x in zip(m.fields(t), a):
                v = E(x)
                if fd['t'].rstrip().endswith('&'):
                    self.mem[('ref', d.b, d.p + (fd['n'],))] = v
                else:
                    self.store(LV(d.b, d.p + (fd['n'],)), v, fd['t'])
            return d
        if n['k'] in ('InitList', 'Init') and len(a) == 1:
            return E(a[0])
        if t in m.records and not a and not m.fields(t):
            return self.new()
        if n['k'] == 'Ctor' and scalar(m, t) and len(a) >= 1:
            return self.num(E(a[0]))
        raise Undecided('construction of ' + t[:60])

    def lam(self, c, args, depth):
        if c.f is None:
            raise Undecided('lambda')
        save = getattr(self, 'outer', None)
        self.outer = c.env
        try:
            return self.call(c.f, c.this, args, depth + 1)
        finally:
            self.outer = save

    def invoke(self, f, i, n, E, this, depth, env):
        m = self.m
        q = re.sub(r'<.*', '', f.cqn(i) or '') if not (f.cqn(i) or '').startswith('std::numeric_limits') else f.cqn(i)
        if q.startswith('std::numeric_limits'):
            nm = q.rsplit('::', 1)[-1]
            t = f.typ(i)
            fl = 'double' in t or 'float' in t
            return {'epsilon': 2.0 ** -52, 'max': 1.0e300 if fl else 2 ** 31 - 1, 'lowest': -1.0e300 if fl else -2 ** 31, 'min': 1e-300 if fl else -2 ** 31, 'infinity': math.inf}[nm]
        args = [x for x in f.args(i)]
        b = q.rsplit('::', 1)[-1]
        if q.startswith('std::') or q in ('fabs', 'abs', 'fmin', 'fmax', 'labs'):
            if n['k'] == 'Call' or True:
                if b in ('min', 'max', 'fmin', 'fmax') and len(args) == 2:
                    x, y = E(args[0]), E(args[1])
                    a1, b1 = self.num(x), self.num(y)
                    if b in ('min', 'fmin'):
                        return y if b1 < a1 else x
                    return y if a1 < b1 else x
                if b in ('min', 'max') and len(args) == 1:
                    raise Undecided('min of a list')
                if b in ('abs', 'fabs', 'labs') and len(args) == 1:
                    return abs(self.num(E(args[0])))
                if b in ('tie', 'make_tuple', 'make_pair', 'forward_as_tuple'):
                    return tuple(E(x) for x in args)
                if b in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const') and len(args) == 1:
                    return E(args[0])
                if b == 'swap' and len(args) == 2:
                    x, y = E(args[0]), E(args[1])
                    u, v = self.read(x), self.read(y)
                    self.mem[(x.b, x.p)], self.mem[(y.b, y.p)] = v, u
                    return None
                if b == 'get' and n['k'] == 'MCall' and n.get('c') and '_ptr<' in f.typ(n['c'][0]):
                    o = E(n['c'][0])
                    return LV(o.b, o.p + ('*',))
                if b == 'before' and n['k'] == 'MCall' and len(args) == 1:
                    return self.num(E(n['c'][0])) < self.num(E(args[0]))
                if b == 'compare' and n['k'] == 'MCall' and len(args) == 1:
                    x, y = self.num(E(n['c'][0])), self.num(E(args[0]))
                    return (x > y) - (x < y)
                if q in ('std::less', 'std::greater') or b == 'operator()':
                    pass
        ts = m.targets(f, i)
        ts = [t if isinstance(t, str) else t[0] for t in ts]
        if len(ts) == 1 and ts[0] in m.fn and m.fn[ts[0]].rawcfg is not None:
            g = m.fn[ts[0]]
            a = [E(x) for x in args]
            o = None
            if n['k'] == 'MCall' and not g.decl.get('static'):
                o = E(n['c'][0])
            return self.call(g, o, a, depth + 1)
        raise Undecided('call of ' + (q or '?'))


class Iter:
    """position in a symbolic sequence of known length"""

    def __init__(self, b, i, t):
        self.b, self.i, self.t = b, i, t

    def __eq__(self, o):
        return isinstance(o, Iter) and (self.b, self.i) == (o.b, o.i)

    def __hash__(self):
        return hash((self.b, self.i))


class Closure:
    def __init__(self, f, env, this):
        self.f, self.env, self.this = f, env, this


# ---- enumeration

def leaves_read(m, run, limit=40):
    """the leaves of the inputs (base, path) and constants a function reads, whatever they are: fixpoint over two values each"""
    known = []
    seen = set()

    def given_for(asg):
        def given(b, p):
            if (b, p) not in seen:
                seen.add((b, p))
                known.append((b, p))
            return asg.get((b, p), 0)
        return given
    done = 0
    while True:
        todo = list(known)
        combos = itertools.product((0, 1, 2), repeat=len(todo)) if len(todo) <= 7 else itertools.product((0, 1), repeat=len(todo))
        if len(todo) > 12:
            raise Undecided('too many values')
        for c in combos:
            run(given_for(dict(zip(todo, c))))
        if len(known) == len(todo):
            return known
        done += 1
        if done > limit:
            raise Undecided('values')
