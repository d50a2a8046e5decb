"""Bounded caches: the index (map of key to list position) and the recency list stay in step, the oldest entry is the one evicted."""
import re
import flow

LEVEL = 'other'
TOUCH = re.compile(r'^(get|promote|touch|use|access)', re.I)
LOOK = re.compile(r'^(peek|exists|contains|has|size|count|empty)', re.I)
END, REST = 'end', '...'
STOP = object()


class Undecided(Exception):
    pass


class Broken(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class St:
    """one shape: list = explicit entries and summaries from newest to oldest, index = entries, slack = capacity minus entries"""
    __slots__ = ('list', 'map', 'slack', 'env', 'gone', 'had', 'evict', 'mut', 'clr', 'made')

    def __init__(s, **k):
        for a in St.__slots__:
            setattr(s, a, k.get(a))

    def key(s):
        return (s.list, tuple(sorted(s.map.items())), s.slack, tuple(sorted(s.env.items(), key=repr)), s.gone, s.had, s.evict, s.mut, s.clr, s.made)

    def copy(s, **k):
        n = St(**{a: getattr(s, a) for a in St.__slots__})
        n.map, n.env = dict(s.map), dict(s.env)
        for a, v in k.items():
            setattr(n, a, v)
        return n


def shapes():
    """every way a consistent cache can look to an operation with key K"""
    for slack in (0, 1, 3):
        for had, lst in (('no', ('F', REST, 'V')), ('last', ('F', REST, 'K')), ('first', ('K', REST, 'V')), ('mid', ('F', REST, 'K', REST, 'V'))):
            if had == 'no' and slack == 3:
                pass
            yield St(list=lst, map={n: n for n in lst if n != REST}, slack=slack, env={}, gone=(), had=had, evict=0, mut=0, clr=0, made=0)


class Cache:
    def __init__(self, m, cls, lfld, mfld, keyt):
        self.m, self.cls, self.lfld, self.mfld, self.keyt = m, cls, lfld, mfld, keyt
        self.points = 0
        self.nodes = 0

    # ---- expressions
    def which(self, f, i):
        i = flow.strip(f, i)
        n = f.n(i)
        if n['k'] == 'Mem' and n.get('d') == self.lfld:
            return 'list'
        if n['k'] == 'Mem' and n.get('d') == self.mfld:
            return 'map'
        if n['k'] == 'Ref':
            j = flow.init_of(f, n.get('d'))
            if j is not None and f.n(flow.strip(f, j))['k'] == 'Mem':
                return self.which(f, j)
        return None

    def iskey(self, t):
        return re.sub(r'\bconst\b|&', '', t).strip() == self.keyt

    def first(self, s):
        return ('n', s.list[0]) if s.list else ('n', END)

    def last(self, s):
        if not s.list:
            raise Undecided('list may be empty')
        return ('n', s.list[-1])

    def use(self, s, v):
        """the entry behind a list position"""
        if v[1] == END:
            raise Broken('end', 'the end of the recency list is dereferenced')
        if v[1] in s.gone:
            raise Broken('stale', 'an entry is read after it was removed from the recency list')
        return v[1]

    def val(self, f, i, s, env=None):
        i = flow.strip(f, i)
        n = f.n(i)
        k = n['k']
        e = s.env
        if ('c', i) in e:
            return e[('c', i)]
        if k == 'Ref' and 'd' in n:
            if ('v', n['d']) in e:
                return e[('v', n['d'])]
            if n.get('dk') == 'param' and self.iskey(n.get('t', '')):
                return ('key', 'K')
            return None
        if k == 'Int':
            return ('int', None, int(n.get('v', 0)))
        if k == 'Bool':
            return ('b', bool(n.get('v')))
        if k == 'Mem':
            if n.get('n') in ('first', 'second') and n.get('c'):
                b = self.val(f, n['c'][0], s)
                if b is None:
                    return None
                if b[0] == 'mdat':
                    return ('key', b[1]) if n['n'] == 'first' else ('slot', b[1])
                if b[0] == 'ndat':
                    return ('key', b[1]) if n['n'] == 'first' else ('data', b[1])
                if b[0] == 'pair':
                    return b[1] if n['n'] == 'first' else b[2]
                return None
            t = n.get('t', '')
            if n.get('d') not in (self.lfld, self.mfld) and f.n(n['c'][0])['k'] == 'This' and re.search(r'\b(unsigned|int|long|size_t)\b', t):
                return ('int', 'max', 0)
            return None
        if k == 'Ctor':
            a = f.args(i)
            if len(a) == 1:
                return self.val(f, a[0], s)
            if len(a) == 2 and 'pair' in n.get('t', ''):
                return ('pair', self.val(f, a[0], s), self.val(f, a[1], s))
            return None
        if k == 'OpCall':
            op = n['op']
            if op in ('->', '*'):
                b = self.rd(s, self.val(f, n['c'][0], s))
                if b is None:
                    return None
                if b[0] == 'it':
                    if b[1] == END:
                        raise Broken('end', 'the end of the index is dereferenced')
                    if b[1] not in s.map:
                        raise Broken('stale', 'an index entry is read after it was removed')
                    return ('mdat', b[1])
                if b[0] == 'n':
                    return ('ndat', self.use(s, b))
                if b[0] in ('mdat', 'ndat', 'rn'):
                    return b
                return None
            if op in ('==', '!='):
                a, b = (self.rd(s, self.val(f, x, s)) for x in n['c'][:2])
                if a is None or b is None:
                    return None
                if a[0] == b[0] and a[0] in ('it', 'n'):
                    if a[1] == REST or b[1] == REST:
                        return None
                    return ('b', (a[1] == b[1]) == (op == '=='))
                if a[0] == b[0] == 'key':
                    ka, kb = ('K' if x[1] in ('K', 'new') else x[1] for x in (a, b))
                    return ('b', (ka == kb) == (op == '=='))
                return None
            if op == '[]' and self.which(f, n['c'][0]) == 'map':
                b = self.val(f, n['c'][1], s)
                return ('slot', self.mapkey(b)) if b and b[0] == 'key' else None
            if op in ('=', '--', '++'):
                return self.val(f, n['c'][0], s)
            return None
        if k == 'Un':
            if n['op'] == '!':
                b = self.val(f, n['c'][0], s)
                return ('b', not b[1]) if b and b[0] == 'b' else None
            if n['op'] in ('*', '&'):
                return self.val(f, n['c'][0], s)
            return None
        if k == 'Cond':
            b = self.val(f, n['c'][0], s)
            if b and b[0] == 'b':
                return self.val(f, n['c'][1 if b[1] else 2], s)
            return None
        if k == 'Bin':
            op = n['op']
            if op in ('&&', '||'):
                a, b = (self.val(f, x, s) for x in n['c'])
                short = op == '||'
                for x in (a, b):
                    if x and x[0] == 'b' and x[1] == short:
                        return ('b', short)
                return ('b', not short) if a and b else None
            a, b = (self.val(f, x, s) for x in n['c'])
            if a is None or b is None:
                return None
            if a[0] == b[0] == 'b' and op in ('==', '!='):
                return ('b', (a[1] == b[1]) == (op == '=='))
            if a[0] == b[0] == 'int':
                if op in ('+', '-'):
                    if b[1] is None:
                        return ('int', a[1], a[2] + b[2] if op == '+' else a[2] - b[2])
                    if a[1] is None and op == '+':
                        return ('int', b[1], a[2] + b[2])
                    if a[1] == b[1] and op == '-':
                        return ('int', None, a[2] - b[2])
                    return None
                if op in ('>', '<', '>=', '<=', '==', '!='):
                    if a[1] != b[1]:
                        # some number of entries against a literal: the shapes have several entries
                        big, lit = (a, b) if a[1] else (b, a)
                        if lit[1] is None and lit[2] <= 1:
                            x, y = (9, 0) if big is a else (0, 9)
                            return ('b', {'>': x > y, '<': x < y, '>=': x >= y, '<=': x <= y, '==': False, '!=': True}[op])
                        return None
                    x, y = a[2], b[2]
                    return ('b', {'>': x > y, '<': x < y, '>=': x >= y, '<=': x <= y, '==': x == y, '!=': x != y}[op])
            return None
        if k == 'MCall':
            w = self.which(f, n['c'][0]) if n.get('c') else None
            nm = self.name(f, i)
            a = f.args(i)
            if w == 'list':
                if nm in ('begin', 'cbegin'):
                    return self.first(s)
                if nm in ('end', 'cend'):
                    return ('n', END)
                if nm in ('rbegin', 'crbegin'):
                    return ('rn', self.last(s)[1])
                if nm == 'back':
                    return ('ndat', self.use(s, self.last(s)))
                if nm == 'front':
                    return ('ndat', self.use(s, self.first(s)))
                if nm == 'size':
                    return ('int', 'max', -s.slack + self.diff(s))
                if nm == 'empty':
                    return ('b', not s.list)
            if w == 'map':
                if nm in ('find', 'lower_bound') and a:
                    b = self.val(f, a[0], s)
                    if nm == 'find' and b and b[0] == 'key':
                        kk = self.mapkey(b)
                        return ('it', kk if kk in s.map else END)
                    return None
                if nm in ('count', 'contains') and a:
                    b = self.val(f, a[0], s)
                    if b and b[0] == 'key':
                        h = self.mapkey(b) in s.map
                        return ('b', h) if nm == 'contains' else ('int', None, int(h))
                    return None
                if nm == 'at' and a:
                    b = self.val(f, a[0], s)
                    if b and b[0] == 'key':
                        return ('slot', self.mapkey(b))
                if nm in ('end', 'cend'):
                    return ('it', END)
                if nm == 'size':
                    return ('int', 'max', -s.slack)
                if nm == 'empty':
                    return ('b', not s.map)
            return None
        if k in ('Call',):
            q = f.cqn(i) or ''
            a = f.args(i)
            if q in ('std::prev',) and len(a) >= 1:
                b = self.val(f, a[0], s)
                if b == ('n', END):
                    return self.last(s)
                return None
            if q in ('std::make_pair',) and len(a) == 2:
                return ('pair', self.val(f, a[0], s), self.val(f, a[1], s))
            if q in ('std::move', 'std::forward') and a:
                return self.val(f, a[0], s)
            return None
        return None

    def diff(self, s):
        """entries of the list beyond those of the index"""
        return len([n for n in s.list if n != REST]) - len(s.map)

    def rd(self, s, v):
        if v is not None and v[0] == 'slot':
            x = s.map.get(v[1])
            return ('n', x) if x is not None else None
        return v

    def mapkey(self, v):
        return 'K' if v[1] in ('new', 'new2') else v[1]

    def name(self, f, i):
        q = f.cqn(i) or ''
        return re.sub(r'<.*', '', q.rsplit('::', 1)[-1])

    # ---- effects
    def rmnode(self, s, x):
        if x == END:
            raise Broken('end', 'the end of the recency list is erased')
        if x == REST:
            if not s.evict and s.list[-1] == REST:
                s.evict += 1
                s.mut = 1
                s.slack += 0
                return
            raise Broken('victim', 'several entries are evicted although one more was inserted')
        if x in s.gone:
            raise Broken('stale', 'an entry is removed from the recency list twice')
        if x not in s.list:
            raise Undecided('entry')
        if x in ('F', 'V') and x != s.list[-1]:
            raise Broken('victim', 'an entry other than the oldest is evicted')
        if x in ('F', 'V'):
            s.evict += 1
        if x == 'new':
            raise Broken('kept', 'the entry just inserted is evicted')
        s.list = tuple(n for n in s.list if n != x)
        s.gone = s.gone + (x,)
        s.mut = 1

    def rmkey(self, s, kk):
        s.mut = 1
        if kk in s.map:
            del s.map[kk]
            s.slack += 1
            s.env = {a: b for a, b in s.env.items()}

    def setkey(self, s, kk, v):
        s.mut = 1
        if kk not in s.map:
            s.slack -= 1
        s.map[kk] = v[1] if v is not None and v[0] == 'n' else None

    def new(self, s, front):
        if 'new' in s.list or 'new' in s.gone:
            raise Undecided('second insertion')
        s.list = ('new',) + s.list if front else s.list + ('new',)
        s.mut = s.made = 1

    def isfront(self, s, v):
        return v == self.first(s)

    def step(self, f, i, s, depth):
        """states after node i"""
        n = f.n(i)
        k = n['k']
        if k == 'Decl':
            s = s.copy()
            for v in n['vars']:
                if v.get('i') is not None and v['i'] >= 0:
                    x = self.val(f, v['i'], s)
                    ref = v.get('t', '').rstrip().endswith('&')
                    if not ref:
                        x = self.rd(s, x)
                    if x is not None:
                        s.env[('v', v['d'])] = x
                    else:
                        s.env.pop(('v', v['d']), None)
            return [s]
        a = flow.assign(f, i)
        if a is not None and (n['op'] == '='):
            t = flow.strip(f, a)
            x = self.val(f, n['c'][1], s)
            y = self.rd(s, x)
            tv = self.val(f, t, s) if f.n(t)['k'] != 'Ref' or s.env.get(('v', f.n(t).get('d')), ('',))[0] in ('slot',) else None
            if tv is not None and tv[0] == 'slot' and (f.n(t)['k'] != 'Ref' or not self.isiter(f, t) or True):
                s = s.copy()
                self.setkey(s, tv[1], y)
                return [s]
            if f.n(t)['k'] == 'Ref' and 'd' in f.n(t):
                s = s.copy()
                if y is None:
                    s.env.pop(('v', f.n(t)['d']), None)
                else:
                    s.env[('v', f.n(t)['d'])] = y
                return [s]
            if self.which(f, t):
                raise Undecided('assignment of the whole list or index')
            return [s]
        if (k == 'OpCall' or k == 'Un') and n['op'] in ('--', '++'):
            t = flow.strip(f, n['c'][0])
            if f.n(t)['k'] == 'Ref' and ('v', f.n(t).get('d')) in s.env:
                s = s.copy()
                v = s.env[('v', f.n(t)['d'])]
                if v == ('n', END) and n['op'] == '--':
                    s.env[('v', f.n(t)['d'])] = self.last(s)
                else:
                    s.env.pop(('v', f.n(t)['d']))
                    if v[0] in ('n', 'it'):
                        raise Undecided('iterator arithmetic')
                return [s]
            if f.n(t)['k'] in ('MCall', 'Ctor') and n['op'] == '--' and self.val(f, t, s) == ('n', END):
                s = s.copy()
                s.env[('c', i)] = self.last(s)
            return [s]
        if k == 'OpCall' and n['op'] == '[]' and self.which(f, n['c'][0]) == 'map':
            b = self.val(f, n['c'][1], s)
            if not b or b[0] != 'key':
                raise Undecided('key')
            if self.mapkey(b) not in s.map:
                s = s.copy()
                self.setkey(s, self.mapkey(b), None)
            return [s]
        if k in ('OpCall', 'Mem'):
            self.val(f, i, s)
            return [s]
        if k == 'MCall':
            w = self.which(f, n['c'][0]) if n.get('c') else None
            if w is None:
                return self.inline(f, i, s, depth)
            return [self.effect(f, i, w, self.name(f, i), s.copy())]
        if k == 'Call':
            for x in f.args(i):
                if self.which(f, x):
                    raise Undecided('container handed to a function')
            return self.inline(f, i, s, depth)
        return [s]

    def isiter(self, f, t):
        return 'iterator' in f.typ(t)

    def effect(self, f, i, w, nm, s):
        A = f.args(i)
        v = [self.rd(s, self.val(f, a, s)) for a in A]
        if w == 'list':
            if nm in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'rbegin', 'crbegin', 'get_allocator', 'max_size', 'back', 'front'):
                if nm in ('back', 'front'):
                    self.val(f, i, s)
                return s
            if nm in ('push_front', 'emplace_front'):
                self.new(s, True)
            elif nm in ('push_back', 'emplace_back'):
                self.new(s, False)
            elif nm in ('insert', 'emplace') and len(A) >= 2:
                if self.isfront(s, v[0]):
                    self.new(s, True)
                elif v[0] == ('n', END):
                    self.new(s, False)
                else:
                    raise Undecided('insertion point')
                s.env[('c', i)] = ('n', 'new')
            elif nm == 'erase' and len(A) == 1:
                if not v[0] or v[0][0] != 'n':
                    raise Undecided('erased entry')
                self.rmnode(s, v[0][1])
            elif nm == 'pop_back':
                self.rmnode(s, self.last(s)[1])
            elif nm == 'pop_front':
                self.rmnode(s, self.first(s)[1])
            elif nm == 'splice' and len(A) == 3 and self.which(f, A[1]) == 'list':
                if not v[0] or not v[2] or v[2][0] != 'n' or v[0][0] != 'n':
                    raise Undecided('moved entry')
                x = self.use(s, v[2])
                s.mut = 1
                if v[0] == self.first(s):
                    if s.list and s.list[0] == x:
                        return s
                    s.list = (x,) + tuple(y for y in s.list if y != x)
                elif v[0] == ('n', END):
                    s.list = tuple(y for y in s.list if y != x) + (x,)
                else:
                    raise Undecided('splice position')
                if REST == x:
                    raise Undecided('summary moved')
            elif nm == 'clear':
                s.list = ()
                s.mut = s.clr = 1
            else:
                raise Undecided('list operation ' + nm)
            return s
        if nm in ('find', 'end', 'begin', 'cend', 'cbegin', 'size', 'empty', 'count', 'contains', 'at', 'lower_bound', 'upper_bound', 'key_comp', 'max_size'):
            if nm == 'at':
                x = self.val(f, i, s)
                if x is not None and x[0] == 'slot' and x[1] not in s.map:
                    raise StopIteration
            return s
        if nm == 'erase' and len(A) == 1:
            x = v[0]
            raw = self.val(f, A[0], s)
            if raw and raw[0] == 'key':
                had = self.mapkey(raw) in s.map
                self.rmkey(s, self.mapkey(raw))
                s.env[('c', i)] = ('int', None, int(had))
            elif raw and raw[0] == 'it':
                if raw[1] == END:
                    raise Broken('end', 'the end of the index is erased')
                if raw[1] not in s.map:
                    raise Broken('stale', 'an index entry is erased twice')
                self.rmkey(s, raw[1])
            else:
                raise Undecided('erased key')
        elif nm in ('emplace', 'insert', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
            a = [self.val(f, x, s) for x in A]
            if len(a) == 1 and a[0] and a[0][0] == 'pair':
                a = list(a[0][1:])
            if nm == 'emplace_hint' or len(a) == 3:
                a = a[1:]
            if len(a) != 2 or not a[0] or a[0][0] != 'key':
                raise Undecided('inserted key')
            kk = self.mapkey(a[0])
            fresh = kk not in s.map
            if fresh or nm == 'insert_or_assign':
                self.setkey(s, kk, self.rd(s, a[1]))
            s.env[('c', i)] = ('pair', ('it', kk), ('b', fresh))
        elif nm == 'clear':
            s.slack += len(s.map)
            s.map = {}
            s.mut = s.clr = 1
        else:
            raise Undecided('index operation ' + nm)
        return s

    def inline(self, f, i, s, depth):
        m = self.m
        ts = [t if isinstance(t, str) else t[0] for t in m.targets(f, i)]
        g = m.fn.get(ts[0]) if len(ts) == 1 else None
        if g is None or g.rawcfg is None or not (g.cls == self.cls or g.isLambda):
            if g is not None and g.cls != self.cls and any('LruCache' in f.typ(a) or self.which(f, a) for a in f.args(i)):
                raise Undecided('cache handed on')
            return [s]
        if depth > 4:
            raise Undecided('recursion')
        a = f.args(i)
        s0 = s.copy()
        saved = {k: v for k, v in s0.env.items()}
        s0.env = {}
        if g.isLambda:
            s0.env = dict(saved)
        for p, x in zip(g.params, a):
            v = self.val(f, x, s)
            if v is not None:
                s0.env[('v', p['d'])] = v
            elif self.iskey(p.get('t', '')):
                raise Undecided('key of a helper')
        out = {}
        for r in self.flow(g, [s0], depth + 1):
            e = dict(saved)
            if 'ret' in r.env:
                e[('c', i)] = r.env['ret']
            q = r.copy(env=e)
            out[q.key()] = q
        return list(out.values())

    # ---- paths
    def flow(self, f, init, depth=0, leave=None):
        g = f.cfg
        seen = {}
        todo = []
        outs = {}

        def put(p, s):
            k = s.key()
            if (p, k) not in seen:
                if len(seen) > 60000:
                    raise Undecided('too many shapes')
                seen[(p, k)] = s
                todo.append((p, s))
        for s in init:
            put(g.entry, s)
        while todo:
            p, s = todo.pop()
            if p == g.exit:
                outs[s.key()] = s
                continue
            pl = g.payload[p]
            nxt = [s]
            node = None
            if pl and pl[0] == 's':
                node = pl[1]
                self.points += 1
                n = f.n(node)
                if n['k'] == 'Throw':
                    if leave is not None:
                        leave(f, node, s)
                    self.thrown.append((f, node, s))
                    continue
                if n['k'] == 'Return':
                    c = [x for x in n.get('c', [])]
                    if c:
                        v = self.val(f, c[0], s)
                        if not f.decl.get('ret', '').rstrip().endswith('&'):
                            v = self.rd(s, v)
                        if v is not None:
                            s = s.copy()
                            s.env['ret'] = v
                    nxt = [s]
                else:
                    try:
                        nxt = self.step(f, node, s, depth)
                    except StopIteration:
                        continue
                    except Broken as e:
                        if not hasattr(e, 'at'):
                            e.at = (f, node)
                        raise
            elif pl and pl[0] == 'i':
                nxt = [s]
            for x in nxt:
                for q, lab in g.succ[p]:
                    if lab and len(lab) == 2 and lab[0] != 'case':
                        c, pol = lab
                        if f.n(c)['k'] == 'RFor':
                            raise Undecided('loop over entries')
                        b = self.val(f, c, x)
                        if b and b[0] == 'int' and b[1] is None:
                            b = ('b', b[2] != 0)
                        if b and b[0] == 'b' and b[1] != pol:
                            continue
                        if b is None or b[0] != 'b':
                            # nothing known about the condition: only refuse when it decides about the containers
                            if any(self.which(f, y) for y in f.walk(c)):
                                raise Undecided('condition')
                    put(q, x)
        return list(outs.values())


def consistent(c, s):
    expl = [n for n in s.list if n != REST]
    if s.clr:
        if not s.map and not [n for n in s.list]:
            return None
        return 'clear', 'after clearing, %s still has entries' % ('the recency list' if s.list else 'the index')
    for k, n in sorted(s.map.items()):
        if n is None:
            return 'index', 'an index entry does not refer to any entry of the recency list'
        if n not in expl:
            return 'index', 'an index entry is left whose entry is gone from the recency list'
    for n in expl:
        if n not in s.map.values():
            return 'list', 'an entry of the recency list is left without its index entry'
    return None


def caches(m):
    out = []
    for rec in sorted(m.records):
        try:
            fs = list(m.fields(rec, inherited=False))
        except TypeError:
            fs = list(m.fields(rec))
        L = [x for x in fs if re.match(r'(const )?std::(__cxx11::)?list<', x['t'])]
        M = [x for x in fs if re.match(r'(const )?std::(unordered_)?map<', x['t']) and re.search(r'_List_iterator<|list<.*>::iterator', x['t'])]
        if len(L) == 1 and len(M) == 1:
            out.append((rec, L[0], M[0]))
    return out


def check(ctx):
    m = ctx.m
    ctx.rule('shape analysis of every operation of a cache made of a recency list and an index of positions in it: from every consistent shape (key absent, newest, oldest, in between; full or not) every way out leaves the same entries in both')
    ctx.rule('what leaves the list besides the entry of the key itself is its oldest entry, only when there is no room, and never the entry just inserted; a touched key is the newest afterwards; the number of entries never exceeds the capacity')
    ctx.rule('a cache is not copied (its index would refer to the list of the original)')
    names = set()
    for rec, lf, mf in caches(m):
        ctx.count('cache types')
        names.add(rec)
        keyt = re.sub(r'\bconst\b', '', m.targs(mf['t'])[0]).strip()
        c = Cache(m, rec, lf['id'], mf['id'], keyt)
        short = re.sub(r'<.*', '', rec).rsplit('::', 1)[-1]
        for fid in sorted(m.fn):
            f = m.fn[fid]
            if f.cls != rec or f.rawcfg is None or f.isLambda:
                continue
            if f.kind in ('ctor', 'dtor') or f.decl.get('copy') or f.decl.get('move'):
                continue
            ctx.count('cache operations')
            if f.decl.get('acc') == 2 or f.decl.get('static'):
                ctx.count('helpers (analysed at their callers)')
                continue
            key = '%s::%s' % (short, f.name)
            c.thrown = []
            outs = []
            bad = None
            for s in shapes():
                try:
                    outs.append((s, c.flow(f, [s])))
                except Undecided as e:
                    ctx.count('operations outside the vocabulary')
                    ctx.sample('%s not decided: %s' % (key, e))
                    outs = None
                    break
                except Broken as e:
                    bad = e
                    break
            if bad:
                g, node = getattr(bad, 'at', (f, None))
                ctx.violation('%s:%s' % (bad.key, key), g.loc(node), '%s in %s' % (bad.msg, key))
                continue
            if outs is None:
                continue
            for g, node, s in c.thrown:
                ctx.count('exceptional exits')
                e = consistent(c, s)
                if e:
                    ctx.violation('%s:%s' % (e[0], key), g.loc(node), '%s when %s throws' % (e[1], key))
            inserting = any(r.made for _, R in outs for r in R)
            for s0, R in outs:
                for r in R:
                    ctx.count('exit shapes')
                    e = consistent(c, r)
                    if e:
                        ctx.violation('%s:%s' % (e[0], key), f.loc(), '%s after %s (key %s, %s)' % (e[1], key, {'no': 'absent'}.get(s0.had, 'present: ' + s0.had), 'full' if not s0.slack else 'room left'))
                        continue
                    if r.clr:
                        continue
                    front = r.list and r.list[0] in ('new', 'K')
                    if inserting:
                        if not front:
                            ctx.violation('kept:' + key, f.loc(), 'the entry inserted by %s is not the newest entry afterwards (key %s)' % (key, 'absent' if s0.had == 'no' else 'present: ' + s0.had))
                        if r.slack < 0:
                            ctx.violation('bound:' + key, f.loc(), '%s can leave more entries than the capacity' % key)
                        if r.evict and r.slack > 0 and s0.had == 'no':
                            ctx.violation('room:' + key, f.loc(), '%s evicts an entry although there is room for the new one (with capacity 1: the new one)' % key)
                        elif r.evict and s0.had != 'no':
                            ctx.violation('room:' + key, f.loc(), '%s evicts another entry when it replaces the value of a key the cache has (%s)' % (key, s0.had))
                    elif r.evict:
                        ctx.violation('room:' + key, f.loc(), '%s evicts an entry without inserting one' % key)
                    if not inserting and TOUCH.match(f.name) and s0.had != 'no' and not (r.list and r.list[0] == 'K'):
                        ctx.violation('touch:' + key, f.loc(), '%s does not make the entry the newest, so that a used entry can be evicted before an unused one' % key)
                    if LOOK.match(f.name) and r.mut:
                        ctx.violation('look:' + key, f.loc(), '%s changes the order or the content of the cache' % key)
            ctx.sample('%s of %s: all shapes consistent' % (f.name, rec[:80]))
        ctx.count('control-flow points with shapes', c.points)
    # copies
    for fid in sorted(m.fn):
        f = m.fn[fid]
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'Ctor' and not n.get('elid') and len(n.get('c', [])) == 1 and n.get('t') and re.sub(r'^const ', '', n['t']) in names:
                src = f.typ(n['c'][0])
                if re.sub(r'^const ', '', src) in names:
                    ctx.violation('copy:%s' % f.qn, f.loc(i), 'a bounded cache is copied: the index of the copy refers to the list of the original')
    ctx.require('cache types', 1)
    ctx.require('cache operations', 6)
