# A data file which is downloaded becomes visible only when it is complete.
import csflow

LEVEL = 'other'
LIB = 'UtyMap.Unity'
DISPOSE = ('Dispose', 'Close')


def check(ctx):
    cs = ctx.cs
    ctx.rule('once the file is opened for writing only prepared bytes are written to it: nothing runs which may fail because of what was received')
    ctx.rule('a file is announced only after the stream writing it has been disposed of, on every way, and it is the very file which was looked for and written')
    ctx.rule('looking for the file and writing it happen under one and the same lock')
    W = Files(ctx, cs)
    for x in sorted(cs.lib(), key=lambda x: x.id):
        if not x.il or not W.inscope(x):
            continue
        ws = [i for i in x.calls() if W.opens(x, i)]
        es = [i for i in x.calls() if W.exists(x, i)]
        via = W.via(x)
        ns = [(i, p) for i in x.calls() for p in [W.announced(x, i)] if p is not None]
        for i in ws:
            writer(ctx, cs, W, x, i, ns)
        for i in es:
            ctx.count('files looked for')
            l = W.lock(x, i)
            if l:
                W.locks.append((l, x.loc(i)))
            else:
                ctx.violation('unlocked:%s' % W.name(x), x.loc(i), 'the file is looked for without the lock its writer holds: a file being written is taken for complete')
        for i, p in ns:
            ctx.count('files announced')
            # the file has been looked for or written on every way
            ev = {j for j in ws + es if W.path(x, x.ins[j][1]) == p} | {j for j, q in via if W.path(x, q) == p}
            if not ev and (ws or es or via):
                ctx.violation('path:%s' % W.name(x), x.loc(i), 'the file which is announced (%s) is not the one looked for or written' % show(p))
            elif ev and csflow.reaches(x, i, avoid=ev):
                ctx.violation('announced:%s' % W.name(x), x.loc(i), 'the file is announced on a way on which it was neither found nor written')
            elif ev:
                # found: only where the answer was yes
                wr = set(ws) | {j for j, _ in via}
                for j in sorted(ev & set(es)):
                    if not csflow.reaches(x, i, avoid=wr, start=j):
                        continue
                    no = csflow.branch(x, j, False)
                    if no is None:
                        continue
                    if csflow.reaches(x, i, avoid=wr, frm=no):
                        ctx.violation('absent:%s' % W.name(x), x.loc(i), 'the file is announced though it was not found and nothing has written it')
    # the writer and those who look for the file agree on the lock
    if W.locks and not set.intersection(*(set(l) for l, _ in W.locks)):
        ctx.violation('locks', W.locks[-1][1], 'files are looked for and written under different locks: %s' % ', '.join(sorted({f.split('::')[-1] for l, _ in W.locks for f in l})))
    ctx.require('files written', 1)
    ctx.require('files looked for', 2)
    ctx.require('files announced', 2)


def show(p):
    return '.'.join(str(z) for z in p) if isinstance(p, tuple) else str(p)


def writer(ctx, cs, W, x, i, ns):
    ctx.count('files written')
    name = W.name(x)
    st = W.streams(x, i)
    ds = {j for j in x.calls() if x.arg(j)['n'] in DISPOSE and x.ins[j] and W.isstream(x, x.ins[j][0], i, st)}
    if not ds:
        ctx.violation('open:%s' % name, x.loc(i), 'the file is never closed after it was written')
        return
    # the branch of `if (stream != null) stream.Dispose()` on which there is none is no way out
    cut = ds | W.nullskips(x, ds)
    l = W.lock(x, i)
    if l:
        W.locks.append((l, x.loc(i)))
    else:
        ctx.violation('unlocked:%s' % name, x.loc(i), 'the file is written without the lock held by those who look for it')
    inside = {s[0] for s in csflow.walk(x, csflow.step(x, (i, ())), cut)}
    for j, p in ns:
        if j in inside and j not in cut:
            ctx.violation('early:%s' % name, x.loc(j), 'the file is announced before everything is written to it')
    for j in sorted(inside):
        if j < len(x.il) and x.iscall(j) and j not in cut:
            W.harmless(x, j, i, st, name, set())
    p = W.path(x, x.ins[i][1])
    if any(q == p for _, q in ns):
        ctx.violation('direct:%s' % name, x.loc(i), 'bytes are written to the file under its final name: when writing is interrupted the part written is taken for complete later')


class Files:
    def __init__(self, ctx, cs):
        self.ctx = ctx
        self.cs = cs
        self.locks = []

    def inscope(self, x):
        return 'Provider' in x.cls.id

    def name(self, x):
        return x.cls.id.split('/')[0].split('.')[-1]

    def opens(self, x, i):
        a = x.arg(i)
        return a['n'] == 'WriteStream' and len(x.ins[i]) == 2

    def exists(self, x, i):
        a = x.arg(i)
        return a['n'] == 'Exists' and 'FileSystem' in a['cls'] and len(x.ins[i]) == 2

    def announced(self, x, i):
        """the path in the pair handed to the observers"""
        a = x.arg(i)
        if not (a['n'] == 'Notify' or a['n'] == 'OnNext') or len(x.ins[i]) != 2:
            return None
        for o in x.origins(x.ins[i][1]):
            if not isinstance(o, tuple) and x.op(o) == 'newobj' and 'Tuple' in x.arg(o)['cls'] and len(x.ins[o]) == 2:
                return self.path(x, x.ins[o][1])
            if not isinstance(o, tuple) and x.iscall(o) and x.arg(o)['n'] == 'Create' and 'Tuple' in x.arg(o)['cls'] and len(x.ins[o]) == 2:
                return self.path(x, x.ins[o][1])
        return None

    def path(self, x, pr, depth=0):
        """identity of a value: what it is computed from"""
        out = []
        if depth > 6:
            return ('deep',)
        for o in sorted(x.origins(pr), key=str):
            if isinstance(o, tuple):
                out.append(o)
                continue
            op, a = x.op(o), x.arg(o)
            if op.startswith('ldarg'):
                out.append(('arg', x.argument(o)))
            elif op in ('ldfld', 'ldsfld'):
                out.append((a['f'].split('::')[-1],) + (self.path(x, x.ins[o][0], depth + 1) if x.ins[o] else ()))
            elif op == 'ldstr':
                out.append(('text', a))
            elif x.iscall(o):
                out.append((a['n'],) + tuple(self.path(x, q, depth + 1) for q in x.ins[o]))
            else:
                out.append((op, str(a)))
        return tuple(out)

    # ---- the stream
    def streams(self, x, i):
        """locals which hold it"""
        out = set()
        for j in range(len(x.il)):
            if x.op(j).startswith('stloc') and x.ins[j] and i in x.ins[j][0]:
                out.add(x.local(j))
        return out

    def isstream(self, x, pr, i, st):
        return i in x.origins(pr) or i in pr or any(not isinstance(o, tuple) and x.op(o).startswith('ldloc') and x.local(o) in st for o in pr)

    def nullskips(self, x, ds):
        """branches over a Dispose taken when there is no stream"""
        out = set()
        for j in range(len(x.il)):
            if x.op(j).split('.')[0] in ('brfalse', 'brtrue') and any(abs(d - j) < 8 and d > j for d in ds):
                t = x.idx(x.arg(j))
                if x.op(j).startswith('brfalse') and any(j < d < t for d in ds):
                    # only the way around
                    if x.op(t) == 'endfinally':
                        out.add(t)
                elif x.op(j).startswith('brtrue') and x.op(j + 1) == 'endfinally':
                    out.add(j + 1)
        return out

    def harmless(self, x, j, i, st, name, seen, at=None):
        """what runs while the file is open"""
        a = x.arg(j)
        cls = a['cls']
        if cls.startswith('System.IO.') or cls in ('System.IDisposable', 'System.Object') or cls.endswith('.ITrace') or cls.startswith('System.Threading.Monitor'):
            # other streams read from while writing
            if a['n'] in ('Read', 'ReadByte', 'ReadToEnd', 'CopyTo', 'ReadBytes', 'ReadLine') and not self.memory(x, j):
                self.ctx.violation('content:%s' % name, (at or x.loc(j)), 'what is written is read from somewhere while the file is open: failing leaves a partial file')
            return
        if a['n'].startswith('get_') and not a['ps'] or a['n'] == '.ctor' and cls.startswith('System.IO'):
            return
        if a['n'] == 'ToString' or cls == 'System.String' and a['n'] in ('Format', 'Concat'):
            return
        ts = [t for t in self.cs.targets(x, j) if t.il and t.asm == LIB]
        if ts:
            for t in ts:
                if t.id in seen:
                    continue
                self.ctx.count('methods run while a file is open')
                for k in t.calls():
                    self.harmless(t, k, i, st, name, seen | {t.id})
                for k in range(len(t.il)):
                    if t.op(k) == 'throw':
                        self.ctx.violation('content:%s' % name, t.loc(k), 'this may fail while the file is open: a partial file is left')
            return
        self.ctx.violation('content:%s' % name, x.loc(j), '%s runs while the file is open: when it fails an incomplete file is left, which is taken for complete later' % (cls.split('.')[-1] + '.' + a['n']))

    def memory(self, x, j):
        return bool(x.ins[j]) and any(not isinstance(o, tuple) and x.op(o) == 'newobj' and 'MemoryStream' in x.arg(o)['cls'] for o in x.origins(x.ins[j][0]))

    def via(self, x, depth=0):
        """calls of functions of its own which look for or write the file named by an argument"""
        out = []
        for i in x.calls():
            if self.opens(x, i) or self.exists(x, i) or x.op(i) == 'newobj':
                continue
            for t in self.cs.targets(x, i):
                if not t.il or not self.inscope(t) or depth > 3:
                    continue
                off = len(x.ins[i]) - len(t.params)
                qs = [t.ins[j][1] for j in t.calls() if self.opens(t, j) or self.exists(t, j)] + [q for _, q in self.via(t, depth + 1)]
                for q in qs:
                    os = t.origins(q)
                    if len(os) == 1:
                        o = next(iter(os))
                        k = None if isinstance(o, tuple) or not t.op(o).startswith('ldarg') else t.argument(o)
                        if k is not None and 0 <= k < len(t.params):
                            out.append((i, x.ins[i][k + off]))
        return out

    # ---- locks
    def lock(self, x, i, depth=0):
        out = self.held(x, i)
        if out or depth > 4:
            return out
        # held by everybody who calls it
        sites = [(y, j) for y in self.cs.lib() if y.il for j in y.calls() if y.arg(j)['id'] == x.id]
        if not sites or any(d.id == x.id for y in self.cs.lib() if y.il for _, d in self.cs.delegates(y)):
            return out
        return set.intersection(*(self.lock(y, j, depth + 1) for y, j in sites))

    def held(self, x, i):
        """fields whose monitor is held at the instruction"""
        out = set()
        for h in x.eh:
            if h['k'] != 'Finally':
                continue
            a, b = x.region(h['try'])
            c, d = x.region(h['handler'])
            if a <= i < b:
                for j in range(c, min(d, len(x.il))):
                    if x.iscall(j) and x.arg(j)['cls'].endswith('Monitor') and x.arg(j)['n'] == 'Exit':
                        f = csflow.field(x, x.ins[j][0])
                        ok = any(x.iscall(k) and x.arg(k)['cls'].endswith('Monitor') and x.arg(k)['n'] == 'Enter' and csflow.field(x, x.ins[k][0]) == f for k in range(0, b))
                        if f and ok:
                            out.add(f)
        return out
