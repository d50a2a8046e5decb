"""The language of fields a function writes to or reads from file streams, as a finite automaton over its control flow, helpers followed."""
import re
import flow
from c34 import short, num
from c04 import bare

PLAIN = {'char': 'i', 'signed char': 'i', 'unsigned char': 'i', 'bool': 'i', 'short': 'i', 'unsigned short': 'i', 'int': 'i', 'unsigned int': 'i', 'long': 'i', 'unsigned long': 'i',
         'long long': 'i', 'unsigned long long': 'i', 'float': 'f', 'double': 'f'}
WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
         'unsigned long long': 8, 'float': 4, 'double': 8}


def filestream(t):
    return bool(re.search(r'basic_[io]?f?stream|basic_iostream|std::[io]?f?stream\b', t)) and not re.search(r'stringstream|streambuf_iterator|stream_iterator|istreambuf|shared_ptr|unique_ptr', t)


class Op:
    """one library operation: d 'w'|'r', obj node, what: 'raw'|'fmt'|'line'|'char', item node, size node"""

    def __init__(self, d, what, obj, item, size=None):
        self.d, self.what, self.obj, self.item, self.size = d, what, obj, item, size


class Grammar:
    """follow(f) -> bool: functions whose bodies are entered; unit(f) -> name of the record a function is the reader or writer of, or None"""

    def __init__(self, m, follow, unit):
        self.m, self.follow, self.unit = m, follow, unit
        self.tm, self.om, self.cm, self.um = {}, {}, {}, {}

    # operations

    def op(self, f, i):
        k = (f.id, i)
        if k not in self.om:
            self.om[k] = self._op(f, i)
        return self.om[k]

    def init(self, f, d):
        """initialiser of a local which is not assigned afterwards; writing it does not count"""
        if not hasattr(f, '_ginits'):
            f._ginits = {}
            asg = set()
            wr = set()
            for i in f.all():
                o = self.op(f, i) if f.n(i)['k'] in ('Call', 'MCall', 'OpCall') else None
                if o and o.d == 'w':
                    wr |= set(f.walk(o.item))
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Decl':
                    for v in n['vars']:
                        if v.get('i') is not None and v['i'] >= 0:
                            f._ginits[v['d']] = v['i']
                elif flow.assign(f, i) is not None or n['k'] == 'Un' and (n['op'] in ('++', '--') or n['op'] == '&' and i not in wr):
                    t = flow.strip(f, n['c'][0])
                    if f.n(t)['k'] == 'Ref':
                        asg.add(f.n(t)['d'])
            for x in asg:
                f._ginits.pop(x, None)
        return f._ginits.get(d)

    def own(self, f, i):
        if f.n(i)['k'] == 'OpCall' and f.n(i)['op'] == '()' and 'std::function' in f.typ(f.n(i)['c'][0]):
            return []
        return [self.m.fn[t] for t in sorted(self.m.targets(f, i)) if t in self.m.fn and self.m.fn[t].rawcfg is not None]

    def text(self, f, i):
        """the stream behind a chain of operators is one in memory"""
        i = flow.strip(f, i)
        while f.n(i)['k'] == 'OpCall' and f.n(i)['op'] in ('<<', '>>'):
            i = flow.strip(f, f.n(i)['c'][0])
        return 'stringstream' in f.typ(i) or f.n(i)['k'] == 'Ref' and (self.m.decls.get(f.n(i).get('d')) or {}).get('qn', str(f.n(i).get('d'))).split('::')[-1] in ('cerr', 'cout', 'clog')

    def _op(self, f, i):
        n = f.n(i)
        if n['k'] == 'MCall' and n.get('c') and filestream(f.typ(n['c'][0])) and not self.own(f, i):
            s = short(f, i)
            a = f.args(i)
            if s in ('write', 'read') and len(a) >= 2:
                return Op(s[0], 'raw', n['c'][0], a[0], a[1])
            if s in ('put', 'get') and len(a) == 1:
                return Op('w' if s == 'put' else 'r', 'char', n['c'][0], a[0])
        if n['k'] == 'OpCall' and n['op'] in ('<<', '>>') and len(n['c']) == 2 and filestream(f.typ(n['c'][0])) and not self.own(f, i):
            t = f.typ(n['c'][1])
            if '(' in t or re.search(r'_Set|_Resetios', t) or self.text(f, n['c'][0]):
                return None
            return Op('w' if n['op'] == '<<' else 'r', 'fmt', n['c'][0], n['c'][1])
        if n['k'] == 'Call' and short(f, i) == 'getline' and f.args(i) and filestream(f.typ(f.args(i)[0])):
            a = f.args(i)
            return Op('r', 'line', a[0], a[1], a[2] if len(a) > 2 else None)
        return None

    def calls(self, f):
        if f.id not in self.cm:
            self.cm[f.id] = [i for i in f.all() if f.n(i)['k'] in ('Call', 'MCall', 'OpCall', 'Ctor')]
        return self.cm[f.id]

    def touches(self, f):
        if f.id in self.tm:
            return self.tm[f.id]
        self.tm[f.id] = False
        self.tm[f.id] = any(self.op(f, i) for i in self.calls(f)) or any(self.unit(g) or self.follow(g) and self.touches(g) for i in self.calls(f) for g in self.entered(f, i))
        return self.tm[f.id]

    def entered(self, f, i):
        """functions whose fields are those of the call"""
        n = f.n(i)
        if n['k'] == 'MCall' and short(f, i) == 'accept' and f.args(i):
            # an element shows itself to a visitor: one of the ways of the visitor, by its static type
            c = bare(f.typ(f.args(i)[0]))
            out = [g for g in self.m.fn.values() if g.cls and g.cls == c and g.name.startswith('visit') and g.rawcfg is not None]
            if out:
                return sorted(out, key=lambda g: g.id)
        return self.own(f, i)

    # values

    def ev(self, f, i, env, depth=0):
        """('c', number) | ('n', name) | ('count', name) | ('s', stream) | ('b', bool) | None"""
        if depth > 30:
            return None
        i = flow.strip(f, i)
        n = f.n(i)
        k = n['k']
        if k == 'Bool':
            return ('b', str(n.get('v')).lower() in ('1', 'true'))
        if k == 'Ref' and n.get('d') in env:
            return env[n['d']]
        v = num(f, i)
        if v is not None:
            return ('c', v)
        if k == 'Char':
            return ('c', int(n.get('v', 0)))
        if k == 'Ref':
            d = n.get('d')
            if filestream(f.typ(i)):
                j = self.init(f, d)
                if j is not None and f.n(flow.strip(f, j))['k'] not in ('Ctor', 'Construct'):
                    # a reference: the stream it was bound to
                    v = self.ev(f, j, env, depth + 1)
                    if v and v[0] == 's':
                        return v
                return ('s', 'local', d)
            j = self.range_of(f, d)
            if j is not None:
                return self.ev(f, j, env, depth + 1)
            j = self.init(f, d)
            if j is not None:
                return self.ev(f, j, env, depth + 1)
            return None
        if k == 'Mem':
            nm = n['n'] if 'n' in n else (self.m.field(n['d']) or {}).get('n')
            if filestream(f.typ(i)):
                return ('s', 'field', nm)
            if nm in ('first', 'second'):
                b = self.ev(f, n['c'][0], env, depth + 1) if n.get('c') else None
                return b if b and b[0] == 's' else None
            return ('n', nm)
        if k == 'Cond':
            a, b = self.ev(f, n['c'][1], env, depth + 1), self.ev(f, n['c'][2], env, depth + 1)
            return a if a == b else None
        if k in ('Ctor', 'Construct') and filestream(f.typ(i)):
            return None
        if k in ('OpCall', 'Un', 'Cast', 'Sub', 'Index', 'ArrSub', 'Ctor', 'Construct') and n.get('c') and (k not in ('OpCall', 'Un') or n['op'] in ('*', '[]', '->', '&', '<<', '>>')):
            v = self.ev(f, n['c'][0], env, depth + 1)
            if filestream(f.typ(i)) and v and v[0] == 'n':
                return ('s', 'field', v[1])
            if v is None and filestream(f.typ(i)):
                b = flow.strip(f, n['c'][0])
                if f.n(b)['k'] == 'Ref':
                    return ('s', 'local', f.n(b).get('d'))
            return v
        if k == 'MCall' and n.get('c'):
            s = short(f, i)
            if s in ('size', 'length'):
                b = self.ev(f, n['c'][0], env, depth + 1)
                return ('count', b[1]) if b and b[0] == 'n' else None
            if s in ('begin', 'cbegin', 'data', 'c_str', 'get', 'back', 'front', 'at', 'write', 'read', 'put', 'seekg', 'seekp', 'flush'):
                return self.ev(f, n['c'][0], env, depth + 1)
        if k == 'Call' and short(f, i) in ('move', 'ref', 'forward', 'begin', 'static_pointer_cast') and f.args(i):
            return self.ev(f, f.args(i)[0], env, depth + 1)
        if k == 'DefArg' and n.get('c'):
            return self.ev(f, n['c'][0], env, depth + 1)
        return None

    def range_of(self, f, d):
        if not hasattr(f, '_ranges'):
            f._ranges = {f.n(i)['var']: f.n(i)['range'] for i in f.all() if f.n(i)['k'] == 'RFor'}
        return f._ranges.get(d)

    def use(self, f, d, env):
        """the role of a variable: where its value goes"""
        k = (f.id, d)
        if k not in self.um:
            self.um[k] = self._use(f, d)
        u = self.um[k]
        if u == 'ret':
            return env.get('ret')
        if isinstance(u, tuple) and u[0] == 'at':
            return self.ev(f, u[1], env)
        if isinstance(u, tuple) and u[0] == 'size':
            b = self.ev(f, u[1], env)
            return ('count', b[1]) if b and b[0] == 'n' else None
        return u

    def _use(self, f, d):
        def ref(a):
            a = flow.strip(f, a)
            while f.n(a)['k'] == 'Ctor' and len(f.n(a).get('c', [])) == 1:
                a = flow.strip(f, f.n(a)['c'][0])
            return f.n(a)['k'] == 'Ref' and f.n(a).get('d') == d
        out = []
        for i in f.all():
            n = f.n(i)
            t = flow.assign(f, i)
            if t is not None and len(n['c']) > 1 and ref(n['c'][1]):
                out.append(('at', flow.strip(f, t)))
            if n['k'] == 'MCall' and n.get('c'):
                s = short(f, i)
                if s in ('push_back', 'emplace_back') and len(f.args(i)) == 1 and ref(f.args(i)[0]):
                    out.append(('at', n['c'][0]))
                if s in ('resize', 'reserve') and f.args(i) and ref(f.args(i)[0]):
                    out.append(('size', n['c'][0]))
            if n['k'] == 'OpCall' and n['op'] == '[]' and ref(n['c'][1]):
                out.append(('at', n['c'][0]))
            if n['k'] == 'Return' and n.get('c') and ref(n['c'][0]):
                out.append('ret')
        out = sorted(set(out), key=str)
        return out[0] if len(out) == 1 else None

    # fields

    def bytes(self, f, a, env):
        v = self.ev(f, a, env)
        if v and v[0] == 'c':
            return v[1]
        return None

    def under(self, f, a):
        """the object behind a pointer to bytes"""
        a = flow.strip(f, a)
        while True:
            n = f.n(a)
            if n['k'] == 'Cast' and n.get('c') or n['k'] == 'Un' and n['op'] == '&':
                a = flow.strip(f, n['c'][0])
            else:
                return a

    def field(self, f, i, o, env):
        """[symbols] of the operation, without constants read"""
        if o.what == 'raw':
            a = self.under(f, o.item)
            w = self.bytes(f, o.size, env)
            t = re.sub(r'^const ', '', bare(f.typ(a)))
            if w is None:
                unit = None
                for j in f.walk(o.size):
                    v = num(f, j)
                    if v is not None and (unit is None or v > 1):
                        unit = v
                return [('block', unit)], a
            return [(PLAIN.get(t, 'o'), w)], a
        if o.what == 'char':
            return [('i', 1)], o.item
        if o.what == 'line':
            e = 10 if o.size is None else (self.ev(f, o.size, env) or (None, None))[1]
            return [('text',), ('i', 1, e)], o.item
        t = re.sub(r'^const ', '', f.typ(o.item))
        b = bare(t)
        if b in ('char', 'signed char', 'unsigned char') and '*' not in t and '[' not in t:
            return [('i', 1)], o.item
        if 'char' in t or 'string' in t:
            return [('text',)], o.item
        return [('formatted', b)], o.item

    # automaton

    def build(self, f, env=None, only=None):
        """automaton of the fields of the streams for which only(d, stream) holds"""
        return Auto(self, f, env or {}, only or (lambda d, s: True))


class Auto:
    """state: (frames, point, failed, tested); a frame is (function id, environment, call point)"""

    def __init__(self, G, f, env, only):
        self.G, self.only = G, only
        self.start = (((f.id, self.pack(env), None),), f.cfg.entry, False, False)
        self.memo = {}
        self.info = {}

    @staticmethod
    def pack(env):
        return tuple(sorted(env.items(), key=str))

    def moves(self, s):
        """[(symbol or None, state, name, place)], and whether the state accepts"""
        if s in self.memo:
            return self.memo[s]
        out, acc = self._moves(s)
        self.memo[s] = (out, acc)
        return out, acc

    def _moves(self, s):
        G, m = self.G, self.G.m
        frames, p, failed, tested = s
        fid, penv, _ = frames[-1]
        f = m.fn[fid]
        g = f.cfg
        env = dict(penv)
        if p == g.exit:
            if len(frames) == 1:
                return [], (not failed or tested)
            return [(None, t, None, None) for t in self.after(frames[:-1], frames[-1][2], failed, tested)], False
        x = g.payload[p]
        if not x or x[0] != 's':
            return [(None, t, None, None) for t in self.after(frames, p, failed, tested)], False
        i = x[1]
        n = f.n(i)
        if n['k'] == 'Throw':
            return [], False
        out = []
        if n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
            o = G.op(f, i)
            if o is not None:
                st = G.ev(f, o.obj, env)
                if not self.only(o.d, st):
                    return [(None, t, None, None) for t in self.after(frames, p, failed, tested)], False
                syms, a = G.field(f, i, o, env)
                if failed:
                    return [(None, t, None, None) for t in self.after(frames, p, True, tested)], False
                val = G.ev(f, a, env)
                r = f.n(flow.strip(f, a))
                d = r.get('d') if r['k'] == 'Ref' else None
                name = val
                if name is None and d is not None:
                    name = G.use(f, d, env)
                if o.d == 'r' and (name is None or name[0] == 'c') and d is not None:
                    name = G.use(f, d, env)
                name = name if name and name[0] in ('n', 'count') else None
                if o.d == 'w':
                    if syms[-1][0] == 'i' and len(syms[-1]) == 2:
                        syms = syms[:-1] + [syms[-1] + (val[1] if val and val[0] == 'c' else None,)]
                    alts = [(syms, env)]
                else:
                    alts = []
                    if d is not None and len(syms) == 1 and syms[0][0] == 'i':
                        e2 = {k: v for k, v in env.items() if k != d}
                        cs = self.compared(f, d)
                        for c in cs:
                            alts.append(([syms[0] + (c,)], {**e2, d: ('c', c)}))
                        alts.append(([syms[0] + (('other', tuple(sorted(cs))) if cs else None,)], {**e2, d: ('other', tuple(sorted(cs)))} if cs else e2))
                    else:
                        alts.append(([y if len(y) > 2 or y[0] != 'i' else y + (None,) for y in syms], env))
                for syms, e2 in alts:
                    fr = frames[:-1] + ((fid, self.pack(e2), frames[-1][2]),)
                    nxt = self.after(fr, p, False, False)
                    if syms[0][0] == 'block':
                        out += [(None, t, None, None) for t in nxt]
                    if len(syms) == 1:
                        out += [(syms[0], t, name, (fid, i)) for t in nxt]
                    else:
                        mid = ('mid', fr, p, syms[1])
                        self.memo[mid] = ([(syms[1], t, None, (fid, i)) for t in nxt], False)
                        out.append((syms[0], mid, name, (fid, i)))
                if o.d == 'r':
                    out += [(None, t, None, None) for t in self.after(frames, p, True, False)]
                return out, False
            gs = G.entered(f, i)
            # a record of another kind, or of the same kind inside itself
            us = [G.unit(h) for h in gs if G.unit(h)]
            inner = [h for h in gs if any(h.id == fr[0] for fr in frames)]
            if us or inner and any(G.touches(h) for h in inner):
                u = us[0] if us else (None, None)
                top = m.fn[frames[0][0]]
                if inner or u[1] == (G.unit(top) or (None, None))[1]:
                    sym, dd = ('again',), u[0] or (G.unit(top) or ('w',))[0]
                    st = None
                else:
                    sym, dd = ('record', u[1]), u[0]
                    st = [G.ev(f, a, env) for a in f.args(i)]
                    st = [v for v in st if v and v[0] == 's']
                    st = st[0] if st else None
                    if not self.only(dd, st):
                        return [(None, t, None, None) for t in self.after(frames, p, failed, tested)], False
                if failed:
                    return [(None, t, None, None) for t in self.after(frames, p, True, tested)], False
                return [(sym, t, None, (fid, i)) for t in self.after(frames, p, False, False)], False
            gs = [h for h in gs if G.follow(h) and G.touches(h) and len(frames) < 8]
            if gs:
                for h in gs:
                    henv = {}
                    for q, a in zip(h.params, f.args(i)):
                        v = G.ev(f, a, env)
                        if v is None and filestream(f.typ(a)):
                            b = flow.strip(f, a)
                            v = ('s', 'at', f.id, b)
                        if v is not None:
                            henv[q['d']] = v
                    t = self.target(f, i)
                    if t is not None:
                        v = G.ev(f, t[1], env) if t[0] == 'at' else G.use(f, t[1], env) if t[0] == 'var' else env.get('ret')
                        if v is not None:
                            henv['ret'] = v
                    if 'this' in env:
                        henv['this'] = env['this']
                    out.append((None, (frames + ((h.id, self.pack(henv), p),), h.cfg.entry, failed, tested), None, None))
                return out, False
        e2 = env
        if n['k'] == 'Decl':
            e2 = dict(env)
            for v in n['vars']:
                e2.pop(v['d'], None)
                if v.get('i') is not None and v['i'] >= 0 and G.init(f, v['d']) is None:
                    w = G.ev(f, v['i'], env)
                    if w is not None and w[0] in ('c', 'b', 's'):
                        e2[v['d']] = w
                elif v.get('i') is not None and v['i'] >= 0:
                    w = G.ev(f, v['i'], env)
                    if w is not None:
                        e2[v['d']] = w
        elif flow.assign(f, i) is not None or n['k'] == 'Un' and n['op'] in ('++', '--'):
            t = flow.strip(f, n['c'][0])
            if f.n(t)['k'] == 'Ref' and f.n(t).get('d') in env:
                e2 = dict(env)
                e2.pop(f.n(t)['d'])
                if n['k'] == 'Bin' and n['op'] == '=':
                    w = G.ev(f, n['c'][1], env)
                    if w is not None and w[0] in ('b',):
                        e2[f.n(t)['d']] = w
        fr = frames if e2 is env else frames[:-1] + ((fid, self.pack(e2), frames[-1][2]),)
        return [(None, t, None, None) for t in self.after(fr, p, failed, tested)], False

    def target(self, f, i):
        """where the result of a call goes"""
        if not hasattr(f, '_gparents'):
            f._gparents = {c: j for j in f.all() for c in (f.n(j).get('c') or [])}
        j, last = f._gparents.get(i), i
        while j is not None and f.n(j)['k'] in ('Cast', 'Paren', 'Clean', 'Mat', 'Ctor'):
            j, last = f._gparents.get(j), j
        if j is None or f.n(j)['k'] == 'Decl':
            for q in f.all():
                if f.n(q)['k'] == 'Decl':
                    for v in f.n(q)['vars']:
                        if v.get('i') is not None and v['i'] >= 0 and flow.strip(f, v['i']) == i:
                            return ('var', v['d'])
            return None
        n = f.n(j)
        t = flow.assign(f, j)
        if t is not None and n['c'][-1] == last:
            t = flow.strip(f, t)
            return ('var', f.n(t)['d']) if f.n(t)['k'] == 'Ref' else ('at', t)
        if n['k'] == 'Return':
            return ('ret',)
        if n['k'] == 'MCall' and short(f, j) in ('push_back', 'emplace_back', 'resize'):
            return ('at', n['c'][0])
        return None

    def compared(self, f, d):
        """constants a variable is compared with"""
        k = ('cmp', f.id, d)
        if k not in self.info:
            out = set()
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Bin' and n['op'] in ('==', '!='):
                    for x, y in (n['c'], n['c'][::-1]):
                        x = flow.strip(f, x)
                        v = num(f, y)
                        if f.n(x)['k'] == 'Ref' and f.n(x).get('d') == d and v is not None:
                            out.add(v)
                elif n['k'] == 'Switch':
                    c = [j for j in f.walk(n['c'][0])] if n.get('c') else []
                    if any(f.n(j)['k'] == 'Ref' and f.n(j).get('d') == d for j in c):
                        for j in f.walk(i):
                            if f.n(j)['k'] == 'Case':
                                v = f.n(f.n(j)['c'][0])
                                v = v.get('cv', v.get('v'))
                                if v is not None:
                                    out.add(int(v))
            self.info[k] = frozenset(out)
        return self.info[k]

    def after(self, frames, p, failed, tested):
        """states following a point, branches decided by what is known"""
        G, m = self.G, self.G.m
        fid, penv, _ = frames[-1]
        f = m.fn[fid]
        env = dict(penv)
        g = f.cfg
        cases = [(q, lab) for q, lab in g.succ[p] if lab and lab[0] == 'case']
        out = []
        for q, lab in g.succ[p]:
            t2 = tested
            if lab and lab[0] == 'case':
                c = f.n(lab[1])
                v = self.switched(f, c, env)
                if v is not None:
                    here = self.caseval(f, lab[2])
                    allv = {self.caseval(f, l[2]) for _, l in cases}
                    if v[0] == 'c' and (here != v[1] if v[1] in allv else here is not None):
                        continue
                    if v[0] == 'other' and here is not None and here in v[1]:
                        continue
            elif lab and len(lab) == 2 and isinstance(lab[1], bool) and f.n(lab[0])['k'] != 'RFor':
                a, ap = flow.normal(None, f, lab[0], lab[1])
                v = self.truth(f, a, env, failed)
                if v is not None:
                    if v[0] == 'stream':
                        t2 = tested or failed
                        if v[1] != ap:
                            continue
                    elif v[0] == 'b' and v[1] != ap:
                        continue
            out.append((frames, q, failed, t2))
        return out

    def switched(self, f, c, env):
        for j in (c.get('c') or [])[:1]:
            j = flow.strip(f, j)
            v = self.G.ev(f, j, env)
            return v if v and v[0] in ('c', 'other') else None
        return None

    def caseval(self, f, l):
        if l is None or l < 0 or f.n(l)['k'] != 'Case':
            return None
        v = f.n(f.n(l)['c'][0])
        v = v.get('cv', v.get('v'))
        return int(v) if v is not None else None

    def truth(self, f, a, env, failed):
        n = f.n(a)
        # the state of the stream
        if n['k'] == 'MCall' and n.get('c') and filestream(f.typ(n['c'][0])):
            s = short(f, a)
            if s in ('operator bool', 'good', 'read', 'get') or s.startswith('operator'):
                return ('stream', not failed)
            if s in ('fail', 'bad', 'eof', 'operator!'):
                return ('stream', failed)
        if n['k'] in ('MCall', 'Call', 'OpCall') and (n['k'] != 'OpCall' or n['op'] == '!'):
            s = short(f, a)
            if s == 'getline':
                return ('stream', not failed)
            if n['k'] == 'OpCall' and filestream(f.typ(n['c'][0])):
                return ('stream', failed)
        if n['k'] == 'Call' and short(f, a) in ('operator bool',):
            return ('stream', not failed)
        if n['k'] == 'OpCall' and n['op'] == '>>' and filestream(f.typ(a)):
            return ('stream', not failed)
        if n['k'] == 'Bin' and n['op'] in ('==', '!='):
            for x, y in (n['c'], n['c'][::-1]):
                v, c = self.G.ev(f, x, env), num(f, y)
                if v and c is not None:
                    if v[0] == 'c':
                        return ('b', (v[1] == c) == (n['op'] == '=='))
                    if v[0] == 'other' and c in v[1]:
                        return ('b', n['op'] == '!=')
            return None
        v = self.G.ev(f, a, env)
        if v and v[0] == 'b':
            return v
        return None


# languages

class Star:
    """any number of words of the automata, after a word of the first ones"""

    def __init__(self, autos, head=()):
        self.autos, self.head = list(autos), list(head)

    def initial(self):
        if self.head:
            return {(('h0', k), a.start) for k, a in enumerate(self.head)}
        return self.entries()

    def entries(self):
        return {(('e', k), a.start) for k, a in enumerate(self.autos)} | {('end',)}

    def auto(self, w):
        return (self.head if w[0][0] == 'h' else self.autos)[w[1]]

    def closure(self, S):
        seen, todo = set(S), list(S)
        while todo:
            s = todo.pop()
            if s == ('end',):
                continue
            w, q = s
            mv, acc = self.auto(w).moves(q)
            for sym, t, _, _ in mv:
                if sym is None and (w, t) not in seen:
                    seen.add((w, t))
                    todo.append((w, t))
            if acc and w[0] != 'h0':
                # nothing follows once the stream has failed
                for e in ({('end',)} if q[2] else self.entries()):
                    if e not in seen:
                        seen.add(e)
                        todo.append(e)
            if len(seen) > 60000:
                raise RuntimeError('too many states')
        return frozenset(seen)

    def steps(self, S):
        """[(symbol, state, name, place)]"""
        out = []
        for s in S:
            if s == ('end',):
                continue
            w, q = s
            for sym, t, name, place in self.auto(w).moves(q)[0]:
                if sym is not None:
                    out.append((sym, (('h', w[1]) if w[0] == 'h0' else w, t), name, place))
        return out

    def accepts(self, S):
        return ('end',) in S


class Once(Star):
    def entries(self):
        return {(('e', k), a.start) for k, a in enumerate(self.autos)}

    def closure(self, S):
        seen, todo = set(S), list(S)
        while todo:
            w, q = todo.pop()
            for sym, t, _, _ in self.auto(w).moves(q)[0]:
                if sym is None and (w, t) not in seen:
                    seen.add((w, t))
                    todo.append((w, t))
            if len(seen) > 60000:
                raise RuntimeError('too many states')
        return frozenset(seen)

    def accepts(self, S):
        return any(self.auto(w).moves(q)[1] for w, q in S)


def match(a, b):
    """may the two symbols be the same field"""
    if a[0] != b[0]:
        return False
    if a[0] in 'ifo' and len(a) > 1 and len(b) > 1:
        if a[1] != b[1]:
            return False
        x, y = (a[2] if len(a) > 2 else None), (b[2] if len(b) > 2 else None)
        if x is None or y is None:
            return True
        for u, v in ((x, y), (y, x)):
            if isinstance(u, tuple):
                return isinstance(v, tuple) or v not in u[1]
        return x == y
    return a[1:] == b[1:]


def compare(W, R, mismatch, swapped, limit=3000):
    """W and R are languages; mismatch(kind, word, places), swapped(wname, rname, wplace, rplace)"""
    found = {}

    def simulate(A, B, kind, end):
        st = [(A.closure(A.initial()), B.closure(B.initial()), ())]
        seen = set()
        while st:
            a, b, word = st.pop(0)
            if (a, b) in seen:
                continue
            seen.add((a, b))
            if len(seen) > limit:
                raise RuntimeError('too many pairs of states')
            if end and A.accepts(a) and not B.accepts(b):
                nxt = sorted({pl for sym, t, nm, pl in B.steps(b)}, key=str)
                found.setdefault(kind + '-end', (word, nxt or [word[-1][1]] if word else nxt))
                continue
            groups = {}
            for sym, t, nm, pl in A.steps(a):
                groups.setdefault((sym, nm[0] if nm else None), []).append((t, nm, pl))
            bs = B.steps(b)
            for key in sorted(groups, key=str):
                sym, role = key
                if kind == 'read' and len(sym) > 2 and isinstance(sym[2], tuple):
                    continue
                ts = groups[key]
                # a count is never taken for an entry
                hit = [(t, nm, pl, y) for y, t, nm, pl in bs if match(sym, y) and (role is None or nm is None or nm[0] == role)]
                if not hit:
                    found.setdefault(kind, (word + ((sym, ts[0][2]),), sorted({pl for _, _, pl in ts}, key=str)))
                    continue
                # names
                na, nb = {nm for _, nm, _ in ts}, {nm for _, nm, _, _ in hit}
                if None not in na and None not in nb and not na & nb and kind == 'write' and not any(x[0] != y[0] for x in na for y in nb):
                    swapped(sorted(na)[0], sorted(nb)[0], ts[0][2], hit[0][2])
                st.append((A.closure({t for t, _, _ in ts}), B.closure({h[0] for h in hit}), word + ((sym, ts[0][2]),)))
        return len(seen)

    n = simulate(W, R, 'write', True)
    n += simulate(R, W, 'read', False)
    for kind, (word, places) in sorted(found.items()):
        mismatch(kind, word, places)
    return n
