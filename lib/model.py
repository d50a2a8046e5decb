"""The resolved program: functions, call graph (virtual calls and std::function values resolved), control flow graphs."""
import os, re, sys
from collections import defaultdict, deque
import facts
from facts import AnalysisBroken


class Fn:
    def __init__(self, m, o):
        self.m = m
        self.id = o['id']
        self.nodes = o['nodes']
        self.body = o['body']
        self.inits = o.get('inits', [])
        self.params = o['params']
        self.isLambda = o.get('lambda', False)
        self.encl = o.get('encl')
        self.ginit = o.get('ginit')
        self.abspath = o['file']
        self.file = os.path.relpath(o['file'], m.repo)
        self.line = o['line']
        self.endline = o['endline']
        self.rawcfg = o['cfg']
        self.decl = m.decls.get(self.id, {})
        self.tinst = o.get('tinst', False)
        self._cfg = None
        self._parent = None
        self._calls = None
        for i, n in enumerate(self.nodes):
            if n is None:
                self.nodes[i] = {'k': 'None', 'l': 0}

    @property
    def qn(self):
        if self.isLambda:
            e = self.m.fn.get(self.encl)
            return (e.qn if e else (self.encl or '?')) + '::<lambda>'
        if self.ginit:
            return 'initialiser of ' + self.ginit
        return self.decl.get('qn', self.id)

    @property
    def name(self):
        return self.decl.get('n', self.id)

    @property
    def cls(self):
        """record id of the class whose object `this` refers to (for a lambda, of the enclosing method)"""
        if self.isLambda:
            e = self.m.fn.get(self.encl)
            return e.cls if e else None
        return self.decl.get('cls')

    @property
    def kind(self):
        return self.decl.get('kind', 'func')

    def n(self, i):
        return self.nodes[i]

    def kids(self, i):
        return [c for c in self.nodes[i].get('c', ()) if c >= 0]

    @property
    def parent(self):
        if self._parent is None:
            p = [-1] * len(self.nodes)
            for i, n in enumerate(self.nodes):
                for c in n.get('c', ()):
                    if c >= 0 and p[c] < 0 and c != i:
                        p[c] = i
            self._parent = p
        return self._parent

    def ancestors(self, i):
        p = self.parent
        i = p[i]
        while i >= 0:
            yield i
            i = p[i]

    def walk(self, root):
        st = [root]
        seen = set()
        while st:
            i = st.pop()
            if i < 0 or i in seen:
                continue
            seen.add(i)
            yield i
            st.extend(reversed(self.kids(i)))

    def all(self):
        """all node ids reachable from body and initialisers"""
        seen = set()
        for r in [self.body] + [x['i'] for x in self.inits]:
            for i in self.walk(r):
                if i not in seen:
                    seen.add(i)
                    yield i

    def loc(self, i=None):
        return '%s:%d' % (self.file, self.nodes[i]['l'] if i is not None and i >= 0 else self.line)

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg

    def calls(self):
        """node ids of calls, constructions, deletes"""
        if self._calls is None:
            self._calls = [i for i in self.all() if self.nodes[i]['k'] in ('Call', 'MCall', 'OpCall', 'Ctor', 'Delete', 'New')]
        return self._calls

    def typ(self, i):
        return self.nodes[i].get('t', '')

    # ---- expression access
    def args(self, i):
        """argument nodes of a call (object excluded)"""
        n = self.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'MCall':
            return c[1:]
        if n['k'] == 'OpCall':
            return c[1:] if n.get('mem') else c
        if n['k'] == 'Call':
            return c if n.get('f') else c[1:]
        return c

    def obj(self, i):
        n = self.nodes[i]
        c = n.get('c', [])
        if n['k'] == 'MCall' or (n['k'] == 'OpCall' and n.get('mem')):
            return c[0] if c else None
        return None

    def callee(self, i):
        n = self.nodes[i]
        f = n.get('f')
        return self.m.decls.get(f) if f else None

    def cqn(self, i):
        d = self.callee(i)
        return d['qn'] if d else ''

    def expr(self, i, depth=6):
        """printable rendering of an expression"""
        if i is None or i < 0:
            return ''
        if depth == 0:
            return '..'
        n = self.nodes[i]
        k = n['k']
        E = lambda j: self.expr(j, depth - 1)
        c = n.get('c', [])
        if k == 'Ref': return n['n']
        if k == 'Mem': return (E(c[0]) + ('->' if n.get('arrow') else '.') if self.nodes[c[0]]['k'] != 'This' else '') + n['n']
        if k == 'This': return 'this'
        if k == 'Un': return (E(c[0]) + n['op']) if n.get('post') else n['op'] + E(c[0])
        if k == 'Bin': return E(c[0]) + ' ' + n['op'] + ' ' + E(c[1])
        if k in ('Int', 'Float', 'Bool', 'Char'): return str(n['v'])
        if k == 'Str': return '"%s"' % n['v']
        if k == 'Cast': return E(c[0])
        if k == 'Sub': return E(c[0]) + '[' + E(c[1]) + ']'
        if k == 'MCall':
            d = self.callee(i)
            o = E(c[0]) if c else ''
            return (o + ('->' if n.get('arrow') else '.') if o and o != 'this' else '') + (d['n'] if d else '?') + '(' + ', '.join(E(a) for a in c[1:]) + ')'
        if k == 'OpCall':
            op = n['op']
            if op == '[]': return E(c[0]) + '[' + E(c[1]) + ']'
            if op == '->': return E(c[0])
            if op == '()': return E(c[0]) + '(' + ', '.join(E(a) for a in c[1:]) + ')'
            if len(c) == 1: return op + E(c[0])
            return E(c[0]) + ' ' + op + ' ' + E(c[1])
        if k == 'Call':
            d = self.callee(i)
            return (d['n'] if d else E(c[0])) + '(' + ', '.join(E(a) for a in self.args(i)) + ')'
        if k == 'Ctor':
            d = self.callee(i)
            if len(c) == 1 and d and (d.get('copy') or d.get('move')): return E(c[0])
            return (d['n'] if d else '?') + '(' + ', '.join(E(a) for a in c) + ')'
        if k == 'Cond': return E(c[0]) + ' ? ' + E(c[1]) + ' : ' + E(c[2])
        if k == 'Lambda': return '[lambda]'
        if k == 'Throw': return 'throw ' + (E(c[0]) if c else '')
        if k == 'New': return 'new ' + n['nt']
        if k == 'Return': return 'return ' + (E(c[0]) if c else '')
        return k + '(' + ', '.join(E(a) for a in c) + ')'


class CFG:
    """element level control flow graph. Points are ints; payload[p] is None (block start) | ('s',node) | ('i',initidx) | ('d',var,dtor)
    succ[p] = list of (q, label) where label is None or (condnode, polarity)"""

    def __init__(self, fn):
        raw = fn.rawcfg
        if raw is None:
            raise AnalysisBroken('no control flow graph for ' + fn.qn)
        self.fn = fn
        self.payload = []
        self.succ = []
        self.block = []
        self.label = []
        first, last = {}, {}
        blocks = {b['id']: b for b in raw['blocks']}
        for b in raw['blocks']:
            ps = [self._new(None, b['id'])]
            for e in b['e']:
                if isinstance(e, int):
                    ps.append(self._new(('s', e), b['id']))
                elif e[0] == 'i':
                    ps.append(self._new(('i', e[1]), b['id']))
                else:
                    ps.append(self._new(('d', e[1], e[2] if len(e) > 2 else None), b['id']))
            for a, c in zip(ps, ps[1:]):
                self.succ[a].append((c, None))
            first[b['id']], last[b['id']] = ps[0], ps[-1]
        self.first, self.last, self.blocks = first, last, blocks
        for b in raw['blocks']:
            p = last[b['id']]
            s = b['s']
            term = b.get('term', -1)
            cond = b.get('cond', -1)
            tk = b.get('termk', '')
            if b.get('noret'):
                # noreturn call: only edge is to exit; drop it
                continue
            if tk == 'CXXTryStmt' or (tk == '' and False):
                pass
            for i, t in enumerate(s):
                if t is None:
                    continue
                lab = None
                if tk == 'SwitchStmt':
                    lb = blocks[t].get('label', -1)
                    lab = ('case', term, lb)
                elif len(s) == 2 and cond is not None and cond >= 0 and tk in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'ConditionalOperator', 'BinaryOperator', 'CXXForRangeStmt', 'BinaryConditionalOperator'):
                    # a logical operator evaluated as a whole in this block is the condition itself
                    whole = cond in [e for e in b['e'] if isinstance(e, int)]
                    lab = (cond if whole else self._eff(cond, tk), i == 0)
                self.succ[p].append((first[t], lab))
        self.entry = first[raw['entry']]
        self.exit = first[raw['exit']]
        self.pred = [[] for _ in self.payload]
        for p, ss in enumerate(self.succ):
            for q, l in ss:
                self.pred[q].append((p, l))
        self.pt = {}
        for p, x in enumerate(self.payload):
            if x and x[0] == 's':
                self.pt.setdefault(x[1], p)
        # one statement which declares several names is one element per name
        one = {}
        for i, p in list(self.pt.items()):
            if fn.nodes[i]['k'] == 'Decl':
                for v in fn.nodes[i].get('vars', ()):
                    if 'd' in v:
                        one[v['d']] = p
        for i, n in enumerate(fn.nodes):
            if n['k'] == 'Decl' and i not in self.pt:
                vs = [v['d'] for v in n.get('vars', ()) if 'd' in v]
                if vs and vs[-1] in one:
                    self.pt[i] = one[vs[-1]]
        # a throw does not leave through the normal exit
        self.throws = []
        for i, n in enumerate(fn.nodes):
            if n['k'] == 'Throw' and i in self.pt:
                self.throws.append(self.pt[i])
                p = self.pt[i]
                # to the end of its block
                while len(self.succ[p]) == 1 and self.succ[p][0][0] != self.exit and self.block[self.succ[p][0][0]] == self.block[p]:
                    p = self.succ[p][0][0]
                if any(q == self.exit for q, l in self.succ[p]):
                    self.succ[p] = [(q, l) for q, l in self.succ[p] if q != self.exit]
                    self.pred[self.exit] = [x for x in self.pred[self.exit] if x[0] != p]
        # entries of catch handlers
        self.handlers = {}
        for b in raw['blocks']:
            lb = b.get('label', -1)
            if lb is not None and lb >= 0 and fn.nodes[lb]['k'] == 'Catch':
                self.handlers[lb] = first[b['id']]

    def _new(self, x, b):
        self.payload.append(x)
        self.succ.append([])
        self.block.append(b)
        return len(self.payload) - 1

    def _eff(self, cond, tk):
        n = self.fn.nodes[cond]
        if tk != 'BinaryOperator':
            while n['k'] == 'Bin' and n['op'] in ('&&', '||'):
                cond = n['c'][1]
                n = self.fn.nodes[cond]
        return cond

    def cut(self, node):
        """node never completes: what follows it is not reached from it"""
        p = self.pt.get(node)
        if p is None or not self.succ[p]:
            return False
        for q, l in self.succ[p]:
            self.pred[q] = [x for x in self.pred[q] if x[0] != p]
        self.succ[p] = []
        for a in ('_live', '_doms'):
            if hasattr(self, a):
                delattr(self, a)
        return True

    def point(self, node):
        """point at which node's evaluation completes (or of the nearest enclosing evaluated node)"""
        if node in self.pt:
            return self.pt[node]
        for a in self.fn.ancestors(node):
            if a in self.pt:
                return self.pt[a]
        return None

    def reach(self, start, avoid=(), fwd=True, edge_ok=None):
        """points reachable from start (exclusive of start unless on a cycle) without passing through avoid"""
        avoid = set(avoid)
        seen = set()
        st = [start]
        g = self.succ if fwd else self.pred
        while st:
            p = st.pop()
            for q, l in g[p]:
                if q in seen or q in avoid:
                    continue
                if edge_ok and not edge_ok(p, q, l):
                    continue
                seen.add(q)
                st.append(q)
        return seen

    def live(self):
        if not hasattr(self, '_live'):
            self._live = self.reach(self.entry) | {self.entry}
            for h in self.handlers.values():
                self._live |= self.reach(h) | {h}
        return self._live

    def doms(self):
        """immediate-dominator-free: dominator sets per point (as dict point -> frozenset) computed lazily on blocks"""
        if hasattr(self, '_doms'):
            return self._doms
        order = []
        seen = set()
        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                p, it = st[-1]
                for q, _ in it:
                    if q not in seen:
                        seen.add(q)
                        st.append((q, iter(self.succ[q])))
                        break
                else:
                    order.append(p)
                    st.pop()
        dfs(self.entry)
        for h in self.handlers.values():
            if h not in seen:
                dfs(h)
        order.reverse()
        idx = {p: i for i, p in enumerate(order)}
        roots = {self.entry} | set(self.handlers.values())
        D = {p: None for p in order}
        ch = True
        while ch:
            ch = False
            for p in order:
                if p in roots:
                    new = frozenset([p])
                else:
                    ds = [D[q] for q, _ in self.pred[p] if q in D and D[q] is not None]
                    new = frozenset.intersection(*ds) | {p} if ds else frozenset([p])
                if new != D[p]:
                    D[p] = new
                    ch = True
        self._doms = D
        return D

    def dominates(self, a, b):
        D = self.doms()
        return b in D and D[b] is not None and a in D[b]

    def forward(self, init, transfer, join, edge=None, handler_init=None):
        """generic forward dataflow. State at point p is state BEFORE p. transfer(p, payload, state)->state; edge(p,q,label,state)->state|None"""
        IN = {self.entry: init}
        if handler_init is not None:
            for h in self.handlers.values():
                IN[h] = handler_init.get(h, init) if isinstance(handler_init, dict) else handler_init
        work = deque(IN)
        inq = set(work)
        OUT = {}
        cnt = 0
        while work:
            cnt += 1
            if cnt > 400000:
                raise AnalysisBroken('dataflow does not converge in ' + self.fn.qn)
            p = work.popleft()
            inq.discard(p)
            s = transfer(p, self.payload[p], IN[p])
            OUT[p] = s
            for q, l in self.succ[p]:
                t = s if edge is None else edge(p, q, l, s)
                if t is None:
                    continue
                if q in IN:
                    j = join(IN[q], t)
                    if j == IN[q]:
                        continue
                    IN[q] = j
                else:
                    IN[q] = t
                if q not in inq:
                    inq.add(q)
                    work.append(q)
        return IN, OUT


STD_FN = re.compile(r'^(?:const )?std::function<')
ALGO_STORES = ('std::thread', 'std::async', 'std::bind', 'std::function', 'std::make_shared', 'std::make_unique', 'std::forward', 'std::move')


class Model:
    def __init__(self, repo=None, units=None, dirs=('src', 'shared')):
        m = facts.extract(repo, units, dirs)
        self.raw = m
        self.repo = m['repo']
        self.decls = m['decls']
        self.types = m['types']
        self.records = m['records']
        self.enums = m['enums']
        self.globals = m['globals']
        self.tus = m['tus']
        self.fn = {}
        for i, o in m['functions'].items():
            self.fn[i] = Fn(self, o)
        if units is None and (len(self.fn) < 500 or len(self.tus) < 20):
            raise AnalysisBroken('only %d functions in %d units extracted' % (len(self.fn), len(self.tus)))
        self._overriders()
        self._bases()
        self._slots = None
        self._cg = None
        self._noreturn()

    def _noreturn(self):
        """functions that only leave by exception: what follows a call of one is not reached"""
        self.noreturn = set()
        cand = {f.id for f in self.fn.values() if f.rawcfg is not None and any(n['k'] == 'Throw' for n in f.nodes)}
        todo = [self.fn[i] for i in cand]
        while todo:
            new = [f for f in todo if f.id not in self.noreturn and not f.decl.get('virt')
                   and f.cfg.exit not in f.cfg.reach(f.cfg.entry) and not any(f.cfg.exit in f.cfg.reach(h) for h in f.cfg.handlers.values())]
            if not new:
                break
            ids = {f.id for f in new}
            self.noreturn |= ids
            todo = []
            for g in self.fn.values():
                if g.rawcfg is None:
                    continue
                cut = [i for i, n in enumerate(g.nodes) if n['k'] in ('Call', 'MCall') and n.get('f') in ids]
                if any([g.cfg.cut(i) for i in cut]):
                    todo.append(g)

    # ---- classes
    def _bases(self):
        self.derived = defaultdict(set)
        def up(r, seen):
            for b in self.records.get(r, {}).get('bases', []):
                if b not in seen:
                    seen.add(b)
                    up(b, seen)
            return seen
        self.allbases = {}
        for r in self.records:
            self.allbases[r] = up(r, set())
            for b in self.allbases[r]:
                self.derived[b].add(r)

    def _overriders(self):
        self.over = defaultdict(set)
        for i, d in self.decls.items():
            st = list(d.get('over', []))
            seen = set()
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                self.over[b].add(i)
                st.extend(self.decls.get(b, {}).get('over', []))

    def tk(self, t):
        return self.types.get(t) or self.types.get('const ' + t) or {}

    def deref(self, t):
        """strip reference / pointer / cv"""
        x = self.tk(t)
        while x.get('k') in ('ref', 'rref', 'ptr'):
            t = x['p']
            x = self.tk(t)
        return t[6:] if t.startswith('const ') and x.get('k') != 'ptr' else t

    def noref(self, t):
        x = self.tk(t)
        while x.get('k') in ('ref', 'rref'):
            t = x['p']
            x = self.tk(t)
        return t

    def rec(self, t):
        """record id of a (possibly reference/const) class type"""
        x = self.tk(self.noref(t))
        return x.get('r')

    def recp(self, t):
        return self.tk(self.deref(t)).get('r')

    def tmpl(self, t):
        return self.tk(self.deref(t)).get('tmpl', '')

    def targs(self, t):
        return self.tk(self.deref(t)).get('args', [])

    def pointee(self, t):
        """element class of raw or smart pointer type (type string)"""
        x = self.tk(self.noref(t))
        if x.get('k') == 'ptr':
            return self.deref(x['p'])
        if x.get('tmpl') in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'):
            return self.deref(x['args'][0])
        return None

    def fields(self, rec, inherited=True):
        out = list(self.records.get(rec, {}).get('fields', []))
        if inherited:
            for b in self.allbases.get(rec, ()):
                out += self.records.get(b, {}).get('fields', [])
        return out

    def field(self, fid):
        if not hasattr(self, '_fieldidx'):
            self._fieldidx = {}
            for r, o in self.records.items():
                for f in o['fields']:
                    self._fieldidx[f['id']] = dict(f, rec=r)
        return self._fieldidx.get(fid)

    def isfn(self, t):
        x = self.tk(self.noref(t))
        if x.get('tmpl') in ('std::function', 'std::_Bind', 'std::_Mem_fn') or x.get('lambda'):
            return True
        if x.get('k') == 'ptr' and (self.tk(x['p']).get('k') == 'fn' or self.tk(x['p']).get('tmpl') == 'std::function'):
            return True
        return x.get('k') == 'fn'

    # ---- function value flow
    def _slot_of(self, f, i, depth=0):
        """slots an expression denotes (function-valued)"""
        n = f.n(i)
        k = n['k']
        if k == 'Ref':
            if n['dk'] in ('local', 'param'):
                o = f
                # captured variables belong to the enclosing function
                return {('v', self._owner(f, n['d']), n['d'])}
            if n['dk'] in ('global', 'static'):
                return {('g', n['d'])}
            if n['dk'] == 'func':
                return {('fn', n['d'])}
        if k == 'Mem':
            if not self.field(n['d']):
                return self._slot_of(f, n['c'][0])   # pair::first/second and other library aggregates
            return {('f', n['d'])}
        if k == 'Lambda':
            return {('fn', n['f'])}
        if k == 'Un' and n['op'] in ('&', '*'):
            return self._slot_of(f, n['c'][0])
        if k == 'Cast':
            return self._slot_of(f, n['c'][0])
        if k == 'InitList' and len(n.get('c', [])) == 1:
            return self._slot_of(f, n['c'][0])
        if k == 'Ctor':
            c = n.get('c', [])
            if len(c) >= 1 and (self.isfn(n['t']) or self.isfn_container(n['t'])):
                return self._slot_of(f, c[0])
            return set()
        if k == 'Cond':
            return self._slot_of(f, n['c'][1]) | self._slot_of(f, n['c'][2])
        if k in ('Call', 'MCall', 'OpCall'):
            q = f.cqn(i)
            if q in ('std::move', 'std::forward', 'std::ref', 'std::cref'):
                return self._slot_of(f, f.args(i)[0])
            if q in ('std::bind', 'std::mem_fn'):
                return self._slot_of(f, f.args(i)[0])
            out = set()
            if n.get('f') in self.fn:
                out.add(('r', n['f']))
            else:
                # container access: element of a container of functions => slots of the container
                o = f.obj(i)
                if o is not None and o >= 0:
                    out |= self._slot_of(f, o)
            return out
        return set()

    def _owner(self, f, var):
        g = f
        while g is not None:
            if not hasattr(g, '_locals'):
                L = {p['d'] for p in g.params}
                for i in g.all():
                    nn = g.n(i)
                    if nn['k'] == 'Decl':
                        for v in nn['vars']:
                            L.add(v['d'])
                    elif nn['k'] == 'RFor':
                        L.add(nn['var'])
                    elif nn['k'] == 'Catch' and nn.get('var'):
                        L.add(nn['var'])
                g._locals = L
            if var in g._locals:
                return g.id
            g = self.fn.get(g.encl) if g.encl else None
        return f.id

    def _fnflow(self):
        if self._slots is not None:
            return
        edges = defaultdict(set)   # dst slot -> src slots
        def fnty(t):
            return self.isfn(t) or self.isfn_container(t)
        def flow(dst, f, i):
            for s in self._slot_of(f, i):
                edges[dst].add(s)
        for f in self.fn.values():
            for ini in f.inits:
                if ini.get('field'):
                    fl = self.field(ini['field'])
                    if fl and fnty(fl['t']):
                        flow(('f', ini['field']), f, ini['i'])
            if f.ginit:
                self._flow_container(edges, ('g', f.ginit), f, f.body)
            for i in f.all():
                n = f.n(i)
                k = n['k']
                if k == 'Decl':
                    for v in n['vars']:
                        if v.get('i') is not None and fnty(v['t']):
                            d = ('g', v['d']) if v.get('static') else ('v', f.id, v['d'])
                            flow(d, f, v['i'])
                            self._flow_container(edges, d, f, v['i'])
                elif k == 'RFor' and fnty(n['vt']):
                    flow(('v', f.id, n['var']), f, n['range'])
                elif k == 'Bin' and n['op'] == '=' and fnty(f.typ(n['c'][0])):
                    for d in self._slot_of(f, n['c'][0]):
                        flow(d, f, n['c'][1])
                elif k == 'OpCall' and n['op'] == '=' and fnty(f.typ(n['c'][0])):
                    for d in self._slot_of(f, n['c'][0]):
                        flow(d, f, n['c'][1])
                elif k == 'Return' and n.get('c'):
                    if fnty(f.typ(n['c'][0])):
                        flow(('r', f.id), f, n['c'][0])
                if k in ('Call', 'MCall', 'OpCall', 'Ctor'):
                    cid = n.get('f')
                    targets = self.direct_targets(f, i)
                    for tg in targets:
                        g = self.fn.get(tg)
                        if not g:
                            continue
                        a = f.args(i)
                        for p, x in zip(g.params, a):
                            if x >= 0 and fnty(p['t']):
                                flow(('v', g.id, p['d']), f, x)
                    if not targets and k == 'MCall':
                        # container insertion: push_back / emplace / insert of function values
                        o = f.obj(i)
                        if o is not None and self.isfn_container(f.typ(o)):
                            for d in self._slot_of(f, o):
                                for x in f.args(i):
                                    flow(d, f, x)
        # resolve
        self._slots = {}
        self._fedges = edges

    def isfn_container(self, t):
        if not hasattr(self, '_ifc'):
            self._ifc = {}
        if t not in self._ifc:
            self._ifc[t] = False
            self._ifc[t] = self._isfn_container(t)
        return self._ifc[t]

    def _isfn_container(self, t):
        t = self.deref(t)
        x = self.tk(t)
        if x.get('k') == 'rec' and (x.get('tmpl', '').startswith('std::') or x.get('tmpl', '').startswith('__gnu_cxx')) and x.get('tmpl') != 'std::function':
            return any(self.isfn(a) or self.isfn_container(a) for a in x.get('args', []) if a in self.types and a != t)
        return False

    def _flow_container(self, edges, dst, f, root):
        for i in f.walk(root):
            n = f.n(i)
            if n['k'] in ('Lambda',):
                edges[dst].add(('fn', n['f']))
            elif n['k'] == 'Ref' and n['dk'] == 'func' and not self._is_callee(f, i):
                edges[dst].add(('fn', n['d']))

    def _is_callee(self, f, i):
        p = f.parent[i]
        return p >= 0 and f.n(p)['k'] == 'Call' and not f.n(p).get('f') and f.n(p)['c'][0] == i

    def fnvalues(self, slot):
        """function ids that may be stored in slot"""
        self._fnflow()
        if slot in self._slots:
            return self._slots[slot]
        seen, st, out = set(), [slot], set()
        while st:
            s = st.pop()
            if s in seen:
                continue
            seen.add(s)
            if s[0] == 'fn':
                out.add(s[1])
                if (self.decls.get(s[1]) or {}).get('virt'):
                    out |= self.virt_targets(s[1])
            st.extend(self._fedges.get(s, ()))
        self._slots[slot] = out
        return out

    # ---- calls
    def virt_targets(self, fid, recv=None):
        out = {fid} if fid in self.fn else set()
        for o in self.over.get(fid, ()):
            if o in self.fn:
                out.add(o)
        return out

    def direct_targets(self, f, i):
        """functions of this program (with bodies) a call node may invoke through its named callee"""
        n = f.n(i)
        cid = n.get('f')
        if not cid:
            return set()
        d = self.decls.get(cid) or {}
        if d.get('virt') and n['k'] == 'MCall' and not n.get('qualified'):
            ts = self.virt_targets(cid)
            # receiver static type may narrow the candidates
            o = f.obj(i)
            if o is not None and o >= 0:
                r = self.recp(f.typ(o))
                p = self.pointee(f.typ(o))
                if p:
                    r = self.tk(p).get('r') or r
                if r in self.records:
                    ok = {r} | self.derived.get(r, set())
                    sub = set()
                    for t in ts:
                        c = self.decls[t].get('cls')
                        if c in ok or (r in self.records and c in self.allbases.get(r, set())):
                            sub.add(t)
                    return sub
            return ts
        if cid in self.fn:
            return {cid}
        # implicitly generated things construct members
        out = set()
        q = d.get('qn', '')
        if n['k'] in ('Call', 'MCall'):
            if q.endswith(('make_unique', 'make_shared')):
                p = self.pointee(n.get('t', ''))
                out |= self.ctors(p, len(f.args(i)))
            elif d.get('n') in ('emplace_back', 'emplace', 'emplace_front'):
                o = f.obj(i)
                if o is not None:
                    a = self.targs(f.typ(o))
                    if a:
                        tm = self.tmpl(f.typ(o))
                        if tm in ('std::vector', 'std::list', 'std::deque', 'std::set', 'std::unordered_set'):
                            out |= self.ctors(a[0], len(f.args(i)))
        return out

    def ctors(self, t, nargs=None):
        if not t:
            return set()
        r = self.tk(self.deref(t)).get('r')
        out = set()
        for mid in self.records.get(r, {}).get('methods', []):
            d = self.decls.get(mid) or {}
            if d.get('kind') == 'ctor' and mid in self.fn and not d.get('copy') and not d.get('move'):
                if nargs is None or len(d['params']) >= nargs:
                    out.add(mid)
        return out

    def vta(self):
        if not hasattr(self, '_vta'):
            import vta
            self.inlined = set()
            self._vta = vta.Vta(self)
        return self._vta

    def targets(self, f, i):
        """all functions with bodies a node may invoke, including function values and functions handed to library algorithms"""
        key = (f.id, i)
        if not hasattr(self, '_tcache'):
            self._tcache = {}
        if key in self._tcache:
            return self._tcache[key]
        n = f.n(i)
        V = self.vta()
        out = set()
        for t in V.resolve(f, i):
            e = V.dispatched(f, i, t) if t in V.dispatch else None
            if e is None:
                out.add(t)
            else:
                out |= e
                self.inlined.add(t)
        k = n['k']
        # value call
        if k == 'OpCall' and n['op'] == '()':
            for s in self._slot_of(f, n['c'][0]):
                out |= {x for x in self.fnvalues(s) if x in self.fn}
            r = self.rec(f.typ(n['c'][0]))
        elif k == 'Call' and not n.get('f'):
            for s in self._slot_of(f, n['c'][0]):
                out |= {x for x in self.fnvalues(s) if x in self.fn}
        elif k in ('Call', 'MCall', 'Ctor', 'OpCall') and n.get('f') and n['f'] not in self.fn:
            d = self.decls.get(n['f']) or {}
            if not d.get('src') and d.get('qn', '') not in ALGO_STORES and not (k == 'Ctor' and self.isfn(n['t'])) and not (k == 'OpCall' and n['op'] == '=') \
               and not (k == 'MCall' and self._is_container_store(f, i, d)):
                # library call receiving function values: assumed to invoke them here
                for x in f.args(i):
                    if x >= 0 and self.isfn(f.typ(x)):
                        for s in self._slot_of(f, x):
                            out |= {y for y in self.fnvalues(s) if y in self.fn}
        if k == 'MCall' and not n.get('f') and n.get('c') and f.n(n['c'][0])['k'] == 'Bin' and f.n(n['c'][0])['op'] in ('->*', '.*'):
            # through a pointer to a member: every member of this type whose address is taken
            out |= self.memberpointers().get(re.sub(r'^const |&$| const$', '', f.typ(f.n(n['c'][0])['c'][1]).strip()).strip(), set())
        if k == 'Delete' and n.get('f'):
            out |= self.virt_targets(n['f'])
        self._tcache[key] = out
        return out

    def memberpointers(self):
        if not hasattr(self, '_mptr'):
            self._mptr = defaultdict(set)
            for x in sorted(self.fn):
                f = self.fn[x]
                for i in f.all():
                    n = f.n(i)
                    if n['k'] == 'Un' and n['op'] == '&' and '::*)' in f.typ(i) and f.n(n['c'][0])['k'] == 'Ref' and f.n(n['c'][0]).get('dk') == 'func':
                        d = f.n(n['c'][0])['d']
                        self._mptr[f.typ(i).strip()] |= {y for y in set(self.virt_targets(d)) | {d} if y in self.fn}
        return self._mptr

    def _is_container_store(self, f, i, d):
        return d.get('n') in ('push_back', 'emplace_back', 'emplace', 'insert', 'assign', 'swap')

    def callgraph(self):
        """fn id -> list of (node, target fn id)"""
        if self._cg is None:
            self._cg = {}
            self._callers = defaultdict(list)
            for f in self.fn.values():
                L = []
                for i in f.calls():
                    for t in self.targets(f, i):
                        L.append((i, t))
                        self._callers[t].append((f.id, i))
                self._cg[f.id] = L
            # dispatchers resolved at every one of their call sites do nothing by themselves
            for t in self.inlined:
                if not self._callers.get(t):
                    for i, x in self._cg[t]:
                        self._callers[x] = [c for c in self._callers[x] if c[0] != t]
                    self._cg[t] = []
        return self._cg

    def callers(self, fid):
        self.callgraph()
        return self._callers.get(fid, [])

    def reachable(self, roots, via_lambda_creation=False):
        cg = self.callgraph()
        seen = set()
        par = {}
        st = [r for r in roots]
        for r in st:
            seen.add(r)
        while st:
            x = st.pop()
            nxt = [(i, t) for i, t in cg.get(x, [])]
            if via_lambda_creation and x in self.fn:
                f = self.fn[x]
                nxt += [(i, f.n(i)['f']) for i in f.all() if f.n(i)['k'] == 'Lambda']
            for i, t in nxt:
                if t not in seen:
                    seen.add(t)
                    par[t] = (x, i)
                    st.append(t)
        return seen, par

    def find(self, suffix, params=None):
        """functions whose qualified name ends with suffix"""
        out = []
        for f in self.fn.values():
            if f.isLambda or f.ginit:
                continue
            q = f.decl.get('qn', '')
            if q == suffix or q.endswith('::' + suffix):
                out.append(f)
        return out

    def find1(self, suffix):
        r = self.find(suffix)
        if not r:
            raise AnalysisBroken('expected function %s not found' % suffix)
        return r

    def lambdas_of(self, fid):
        return [g for g in self.fn.values() if g.encl == fid]

    def record(self, suffix):
        for r, o in self.records.items():
            if o['qn'] == suffix or o['qn'].endswith('::' + suffix):
                return r
        raise AnalysisBroken('expected class %s not found' % suffix)

    def path_to(self, par, fid):
        out = []
        while fid in par:
            src, i = par[fid]
            out.append('%s (%s) calls %s' % (self.fn[src].qn, self.fn[src].loc(i), self.fn[fid].qn))
            fid = src
        return list(reversed(out))
