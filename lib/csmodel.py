"""The managed assemblies of the repository: compiled from its current sources, types, members and IL read from the result.

The library is built as its project file lists it; the demo (which has its own binding of the native library) is built
against it for both script back ends."""
import glob, json, os, re, shutil, subprocess, tempfile
from facts import AnalysisBroken, BUILD, Lock, REPO, VERIF, filehash, sha

UNITY = os.path.join(REPO, 'unity')
LIB = os.path.join(UNITY, 'library/UtyMap.Unity')
PKG = os.path.join(UNITY, 'library/packages')
DEMO = os.path.join(UNITY, 'demo/Assets/Scripts')
API = '/usr/lib/mono/2.0-api'


def gac(name):
    c = sorted(glob.glob('/usr/lib/mono/gac/%s/*/%s.dll' % (name, name)), key=lambda p: [int(x) for x in re.findall(r'/(\d+)\.(\d+)\.', p)[-1]])
    if not c:
        raise AnalysisBroken('no %s.dll' % name)
    return c[-1]


def tool():
    src = os.path.join(VERIF, 'tools/csfacts/csfacts.cs')
    h = filehash(src)[:16]
    d = os.path.join(BUILD, 'csfacts-' + h)
    if not os.path.exists(d):
        with Lock('cstool'):
            if not os.path.exists(d):
                t = tempfile.mkdtemp(dir=BUILD)
                for n in ('Mono.Cecil', 'Mono.CompilerServices.SymbolWriter'):
                    shutil.copy(gac(n), t)
                r = subprocess.run(['mcs', '-out:%s/csfacts.exe' % t, '-r:%s/Mono.Cecil.dll' % t, '-r:%s/Mono.CompilerServices.SymbolWriter.dll' % t, '-r:System.Core', src], capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisBroken('csfacts build failed: ' + (r.stdout + r.stderr)[-2000:])
                os.rename(t, d)
    return d, h


def compiled(text):
    """the sources a project file lists"""
    out = []
    base = os.path.dirname(text)
    s = open(text, encoding='utf-8-sig').read()
    for x in re.findall(r'<Compile\s+Include="([^"]+)"', s):
        p = os.path.join(base, x.replace('\\', '/'))
        if '*' in p:
            out += [q for q in glob.glob(p, recursive=True)]
        elif os.path.exists(p):
            out.append(p)
    return sorted(set(out))


def files(*dirs):
    return sorted(p for d in dirs for r, _, fs in os.walk(d) for p in (os.path.join(r, x) for x in fs) if p.endswith('.cs'))


def mcs(out, srcs, refs, defs):
    cmd = ['mcs', '-target:library', '-out:' + out, '-nostdlib', '-debug', '-optimize+', '-unsafe', '-nowarn:1,2,3', '-warn:0']
    cmd += ['-d:' + d for d in defs] + ['-r:' + r for r in refs] + srcs
    return subprocess.run(cmd, capture_output=True, text=True)


def extract():
    exe, h = tool()
    proj = os.path.join(LIB, 'UtyMap.Unity.csproj')
    lib = compiled(proj)
    demo = files(DEMO + '/Core', DEMO + '/Environment')
    pk = sorted(glob.glob(PKG + '/*.dll'))
    key = sha('\n'.join([h] + [p + filehash(p) for p in lib + demo + pk] + [filehash(os.path.abspath(__file__))]).encode())[:16]
    d = os.path.join(BUILD, 'cs-' + key)
    if not os.path.exists(d):
        with Lock('cs'):
            if not os.path.exists(d):
                t = tempfile.mkdtemp(dir=BUILD)
                base = [API + '/' + x + '.dll' for x in ('mscorlib', 'System', 'System.Core', 'System.Xml')] + [p for p in pk if not re.search('Moq|nunit', p)]
                r = mcs(t + '/UtyMap.Unity.dll', lib, base, ['TRACE', 'DEBUG'])
                if r.returncode != 0:
                    # a file may be missing from the project file
                    r = mcs(t + '/UtyMap.Unity.dll', files(LIB), base, ['TRACE', 'DEBUG'])
                    if r.returncode != 0:
                        raise AnalysisBroken('the managed library does not compile: ' + (r.stdout + r.stderr)[-2000:])
                names = ['UtyMap.Unity']
                for n, defs in (('Demo.Mono', ['TRACE']), ('Demo.Il2Cpp', ['TRACE', 'ENABLE_IL2CPP'])):
                    r = mcs(t + '/' + n + '.dll', demo, base + [t + '/UtyMap.Unity.dll'], defs)
                    if r.returncode == 0:
                        names.append(n)
                    else:
                        open(t + '/' + n + '.err', 'w').write(r.stdout + r.stderr)
                for n in names:
                    r = subprocess.run(['mono', exe + '/csfacts.exe', '%s/%s.dll' % (t, n), '%s/%s.json' % (t, n), t, PKG, API], capture_output=True, text=True)
                    if r.returncode != 0:
                        raise AnalysisBroken('csfacts failed: ' + (r.stdout + r.stderr)[-2000:])
                os.rename(t, d)
                old = sorted((p for p in glob.glob(BUILD + '/cs-*') if p != d), key=os.path.getmtime)
                for p in old[:-4]:
                    shutil.rmtree(p, ignore_errors=True)
    return d


POPS = {'pop': 1, 'dup': 1, 'ret': None, 'ldfld': 1, 'ldflda': 1, 'stfld': 2, 'ldsfld': 0, 'ldsflda': 0, 'stsfld': 1, 'box': 1, 'unbox': 1, 'unbox.any': 1, 'castclass': 1, 'isinst': 1, 'newarr': 1, 'ldlen': 1, 'initobj': 1,
        'throw': 1, 'rethrow': 0, 'switch': 1, 'ldobj': 1, 'stobj': 2, 'cpobj': 2, 'ldtoken': 0, 'ldftn': 0, 'ldvirtftn': 1, 'ldnull': 0, 'ldstr': 0, 'neg': 1, 'not': 1, 'localloc': 1, 'endfilter': 1, 'sizeof': 0,
        'ldelema': 2, 'mkrefany': 1, 'refanyval': 1, 'refanytype': 1, 'ckfinite': 1, 'cpblk': 3, 'initblk': 3}
PUSH0 = {'pop', 'ret', 'stfld', 'stsfld', 'initobj', 'throw', 'rethrow', 'switch', 'stobj', 'cpobj', 'endfilter', 'cpblk', 'initblk', 'nop', 'br', 'br.s', 'leave', 'leave.s', 'endfinally', 'break', 'volatile.', 'constrained.', 'readonly.', 'tail.', 'unaligned.'}


class Method:
    def __init__(self, d, cls, asm):
        self.d = d
        self.id = d['id']
        self.n = d['n']
        self.cls = cls
        self.asm = asm
        self.il = d.get('il') or []
        self.eh = d.get('eh') or []
        self.params = d['params']
        self.static = d['static']
        self.at = {x[0]: i for i, x in enumerate(self.il)}
        self._in = None
        self._succ = None

    def __repr__(self):
        return self.short()

    def short(self):
        c = self.cls.id.split('.')[-1]
        return c.replace('/', '.') + '.' + self.n

    def loc(self, i=0):
        f = self.d.get('file') or self.cls.id
        f = f.split('/unity/', 1)[-1] if '/unity/' in f else f
        l = self.il[i][3] if self.il and i < len(self.il) else 0
        return 'unity/%s:%d' % (f, l)

    def op(self, i):
        return self.il[i][1]

    def arg(self, i):
        return self.il[i][2]

    def iscall(self, i):
        return self.il[i][1] in ('call', 'callvirt', 'newobj')

    def calls(self):
        return [i for i in range(len(self.il)) if self.iscall(i)]

    # ---- control flow; nodes are instruction indices, 'exc' edges lead to handlers
    def idx(self, off):
        return self.at.get(off, len(self.il))

    def region(self, r):
        a = self.idx(r[0])
        return a, (len(self.il) if r[1] < 0 else self.idx(r[1]))

    @property
    def succ(self):
        """list of (normal successors, exceptional successors); EXIT = len(il) after ret, len(il) + 1 after an unhandled exception"""
        if self._succ is not None:
            return self._succ
        n = len(self.il)
        hs = [(h['k'], self.region(h['try']), self.region(h['handler']), h) for h in self.eh]
        out = []
        for i, (off, op, a, line) in enumerate(self.il):
            s = []
            if op in ('br', 'br.s'):
                s = [self.idx(a)]
            elif op in ('leave', 'leave.s'):
                t = self.idx(a)
                fin = [h for h in hs if h[0] == 'Finally' and h[1][0] <= i < h[1][1] and not h[1][0] <= t < h[1][1]]
                s = [fin[0][2][0]] if fin else [t]
            elif op == 'endfinally':
                mine = [h for h in hs if h[2][0] <= i < h[2][1] and h[0] in ('Finally', 'Fault')]
                h = min(mine, key=lambda h: h[2][1] - h[2][0]) if mine else None
                if h is not None:
                    for j in range(h[1][0], h[1][1]):
                        if self.il[j][1] in ('leave', 'leave.s'):
                            t = self.idx(self.il[j][2])
                            if not h[1][0] <= t < h[1][1]:
                                # further finally blocks on the way out
                                fin = [g for g in hs if g[0] == 'Finally' and g is not h and g[1][0] <= h[1][0] and h[1][1] <= g[1][1] and not g[1][0] <= t < g[1][1]]
                                s.append(fin[0][2][0] if fin else t)
                s = sorted(set(s))
            elif op in ('ret',):
                s = [n]
            elif op in ('throw', 'rethrow'):
                s = []
            elif op == 'switch':
                s = [self.idx(x) for x in a] + [i + 1]
            elif isinstance(a, int) and (op.startswith('b') and op not in ('box', 'break')):
                s = [i + 1, self.idx(a)]
            else:
                s = [i + 1]
            e = []
            if self.maythrow(i):
                e = self.handlers(i, hs)
            out.append((s, e))
        self._succ = out
        return out

    def handlers(self, i, hs):
        n = len(self.il)
        e = []
        enclosing = sorted([h for h in hs if h[1][0] <= i < h[1][1]], key=lambda h: (h[1][1] - h[1][0]))
        done = False
        for h in enclosing:
            e.append(h[2][0])
            if h[0] in ('Finally', 'Fault'):
                done = True
                break
            if h[0] == 'Catch' and h[3]['t'] in ('System.Exception', 'System.Object'):
                done = True
                break
        if not done:
            e.append(n + 1)
        return e

    def maythrow(self, i):
        op = self.il[i][1]
        if op == 'endfinally':
            return True
        return op in ('call', 'callvirt', 'newobj', 'throw', 'rethrow', 'newarr', 'castclass', 'unbox.any', 'unbox') or op.startswith('ldelem') or op.startswith('stelem') or op in ('div', 'rem', 'ldfld', 'stfld') and False

    def reach(self, starts, avoid=(), exc=True):
        """indices reachable from the successors of the starts"""
        avoid = set(avoid)
        seen = set()
        st = []
        for s in starts:
            if s < 0:
                st.append(0)
            else:
                st += self.succ[s][0] + (self.succ[s][1] if exc else [])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in avoid or x >= len(self.il):
                continue
            st += self.succ[x][0] + (self.succ[x][1] if exc else [])
        return seen

    # ---- the evaluation stack: for each instruction the sets of instructions which made its operands
    def effect(self, i):
        off, op, a, line = self.il[i]
        if op in ('call', 'callvirt'):
            return len(a['ps']) + a['this'], 0 if a['ret'] == 'System.Void' else 1
        if op == 'newobj':
            return len(a['ps']), 1
        if op == 'ret':
            return (0 if self.d['ret'] == 'System.Void' else 1), 0
        b = op.split('.')[0]
        if op in POPS:
            return POPS[op], 0 if op in PUSH0 else 2 if op == 'dup' else 1
        if op in PUSH0:
            return 0, 0
        if b in ('ldarg', 'ldarga', 'ldloc', 'ldloca', 'ldc'):
            return 0, 1
        if b in ('stloc', 'starg'):
            return 1, 0
        if b == 'ldelem':
            return 2, 1
        if b == 'stelem':
            return 3, 0
        if b == 'ldind':
            return 1, 1
        if b == 'stind':
            return 2, 0
        if b == 'conv':
            return 1, 1
        if b in ('brtrue', 'brfalse'):
            return 1, 0
        if b in ('beq', 'bne', 'bge', 'bgt', 'ble', 'blt'):
            return 2, 0
        if b in ('add', 'sub', 'mul', 'div', 'rem', 'and', 'or', 'xor', 'shl', 'shr', 'ceq', 'cgt', 'clt'):
            return 2, 1
        if op == 'calli':
            return 0, 0
        return 0, 0

    @property
    def ins(self):
        """ins[i] = tuple of frozensets: the producers of each operand"""
        if self._in is not None:
            return self._in
        n = len(self.il)
        entry = {0: []}
        for h in self.eh:
            hs = self.idx(h['handler'][0])
            entry[hs] = [frozenset([('exc', hs)])] if h['k'] in ('Catch', 'Filter') else []
            if 'filter' in h:
                entry[self.idx(h['filter'])] = [frozenset([('exc', hs)])]
        self._in = [()] * n
        st = list(entry)
        rounds = 0
        while st and rounds < 200000:
            rounds += 1
            i = st.pop()
            if i >= n:
                continue
            stack = list(entry[i])
            p, q = self.effect(i)
            if p > len(stack):
                stack = [frozenset()] * (p - len(stack)) + stack
            args = stack[len(stack) - p:] if p else []
            stack = stack[:len(stack) - p] if p else stack
            self._in[i] = tuple(args)
            if self.op(i) == 'dup':
                stack += [args[0], args[0]]
            else:
                stack += [frozenset([i])] * q
            if self.op(i) in ('leave', 'leave.s', 'endfinally', 'throw', 'rethrow'):
                stack = []
            for s in self.succ[i][0]:
                if s >= n:
                    continue
                if s not in entry:
                    entry[s] = list(stack)
                    st.append(s)
                else:
                    old = entry[s]
                    if len(old) == len(stack):
                        new = [a | b for a, b in zip(old, stack)]
                        if new != old:
                            entry[s] = new
                            st.append(s)
        return self._in

    # ---- locals and arguments
    def local(self, i):
        """index of the local loaded or stored (or whose address is taken)"""
        op, a = self.il[i][1], self.il[i][2]
        if op.split('.')[0] in ('ldloc', 'stloc', 'ldloca'):
            return a['v'] if isinstance(a, dict) and 'v' in a else int(op.split('.')[1])
        return None

    def argument(self, i):
        """-1 for this, otherwise the index of the parameter"""
        op, a = self.il[i][1], self.il[i][2]
        if op.split('.')[0] in ('ldarg', 'starg', 'ldarga'):
            if isinstance(a, dict) and 'p' in a:
                return a['p']
            k = int(op.split('.')[1])
            return k if self.static else k - 1
        return None

    def stores(self, v):
        return [i for i in range(len(self.il)) if self.op(i).startswith('stloc') and self.local(i) == v]

    def origins(self, ps, depth=0):
        """producers with copies, conversions and locals looked through"""
        out = set()
        seen = set()
        st = list(ps)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            if isinstance(i, tuple):
                out.add(i)
                continue
            op = self.op(i)
            b = op.split('.')[0]
            if b in ('conv', 'box', 'castclass', 'unbox', 'isinst') or op == 'dup':
                st += list(self.ins[i][0]) if self.ins[i] else []
            elif b in ('ldloc', 'ldloca'):
                ss = self.stores(self.local(i))
                if ss:
                    for s in ss:
                        st += list(self.ins[s][0])
                else:
                    out.add(i)
            else:
                out.add(i)
        return out


class Type:
    def __init__(self, d, asm):
        self.d = d
        self.id = d['id']
        self.n = d['n']
        self.asm = asm
        self.fields = d['fields']
        self.methods = [Method(x, self, asm) for x in d['methods']]


class CsModel:
    def __init__(self):
        d = extract()
        self.dir = d
        self.asms = {}
        for p in sorted(glob.glob(d + '/*.json')):
            n = os.path.basename(p)[:-5]
            self.asms[n] = [Type(x, n) for x in json.load(open(p))['types']]
        self.broken = [os.path.basename(p)[:-4] for p in sorted(glob.glob(d + '/*.err'))]
        self.types = {}
        self.methods = {}
        for n in self.asms:
            for t in self.asms[n]:
                self.types[(n, t.id)] = t
                for x in t.methods:
                    self.methods[(n, x.id)] = x
        self._over = None

    def lib(self):
        return [x for (a, i), x in sorted(self.methods.items()) if a == 'UtyMap.Unity']

    def type(self, name, asm='UtyMap.Unity'):
        return self.types.get((asm, name)) or self.types.get(('UtyMap.Unity', name))

    def method(self, id, asm='UtyMap.Unity'):
        return self.methods.get((asm, id)) or self.methods.get(('UtyMap.Unity', id))

    @property
    def over(self):
        if self._over is None:
            self._over = {}
            for x in self.methods.values():
                for o in x.d['over']:
                    self._over.setdefault(o, []).append(x)
        return self._over

    def targets(self, x, i):
        """methods of the assemblies a call may run"""
        a = x.arg(i)
        out = []
        t = self.method(a['id'], x.asm)
        if t is not None and not t.d['abstract']:
            out.append(t)
        if x.op(i) == 'callvirt':
            todo = [a['id']]
            seen = set()
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                for o in self.over.get(q, []):
                    if o.asm in (x.asm, 'UtyMap.Unity') and o not in out:
                        out.append(o)
                    todo.append(o.id)
        return out

    def delegates(self, x):
        """[(index of ldftn, method)]"""
        out = []
        for i in range(len(x.il)):
            if x.op(i) in ('ldftn', 'ldvirtftn'):
                t = self.method(x.arg(i)['id'], x.asm)
                if t is not None:
                    out.append((i, t))
        return out
