# What managed code acquires for a while (pins, native memory, locks, files) is released on every way out.
import csflow

LEVEL = 'other'
BAD = ('System.Boolean', 'System.Char', 'System.String', 'System.Decimal', 'System.DateTime', 'System.Object')
ALLOC = {'AllocHGlobal': 'FreeHGlobal', 'AllocCoTaskMem': 'FreeCoTaskMem', 'StringToHGlobalAnsi': 'FreeHGlobal', 'StringToHGlobalUni': 'FreeHGlobal', 'StringToHGlobalAuto': 'FreeHGlobal',
         'StringToCoTaskMemAnsi': 'FreeCoTaskMem', 'StringToCoTaskMemUni': 'FreeCoTaskMem', 'StringToBSTR': 'FreeBSTR'}
RW = {'EnterReadLock': ('ExitReadLock', 'IsReadLockHeld'), 'EnterWriteLock': ('ExitWriteLock', 'IsWriteLockHeld'), 'EnterUpgradeableReadLock': ('ExitUpgradeableReadLock', 'IsUpgradeableReadLockHeld')}
FILES = ('FileStream', 'StreamReader', 'StreamWriter', 'BinaryReader', 'BinaryWriter')


def check(ctx):
    cs = ctx.cs
    ctx.rule('every way out of a function, also when something it calls fails, passes the release of what it pinned, allocated, locked or opened, unless it hands it on')
    ctx.rule('a pin is not given to code which may still run when it is released, nothing uses it afterwards, and only objects which can be pinned are')
    A = Acquire(ctx, cs)
    for key in sorted(cs.methods):
        x = cs.methods[key]
        if not x.il:
            continue
        ctx.count('methods looked through')
        for i in x.calls():
            k = A.kind(x, i)
            if k is not None:
                A.look(x, i, *k)
    ctx.require('methods looked through', 400)
    ctx.require('pins', 2)
    ctx.require('locks', 6)
    ctx.require('files', 2)


class Acquire:
    def __init__(self, ctx, cs):
        self.ctx = ctx
        self.cs = cs

    def kind(self, x, i):
        a = x.arg(i)
        n, cls = a['n'], a['cls']
        if cls.endswith('.GCHandle') and n == 'Alloc':
            return ('pins', 'Free')
        if cls.endswith('.Marshal') and n in ALLOC:
            return ('memory', ALLOC[n])
        if cls.endswith('.Monitor') and n in ('Enter',):
            return ('locks', 'Exit')
        if cls.endswith('ReaderWriterLockSlim') and n in RW:
            return ('locks', RW[n][0])
        if cls.endswith(('.Semaphore', '.SemaphoreSlim', '.Mutex')) and n in ('Wait', 'WaitOne'):
            return ('locks', 'Release' if 'Semaphore' in cls else 'ReleaseMutex')
        if cls == 'System.IO.File' and n in ('Open', 'OpenRead', 'OpenWrite', 'OpenText', 'Create', 'CreateText', 'AppendText') or n in ('ReadStream', 'WriteStream') and 'FileSystem' in cls:
            return ('files', ('Dispose', 'Close'))
        if x.op(i) == 'newobj' and cls.startswith('System.IO.') and cls.split('.')[-1] in FILES:
            # around another stream which is owned by somebody else
            ps = list(map(str, a['ps']))
            if ps and ps[0] == 'System.String':
                return ('files', ('Dispose', 'Close'))
        return None

    # ---- where the thing is kept
    def holders(self, x, i, what):
        """locals and fields it is stored to"""
        loc, fld, ret = set(), set(), False
        for j in range(len(x.il)):
            op = x.op(j)
            if not x.ins[j]:
                continue
            if op.startswith('stloc') and i in x.ins[j][0]:
                loc.add(x.local(j))
            elif op in ('stfld', 'stsfld') and any(i in x.origins(q) or i in q for q in x.ins[j][-1:]):
                fld.add((x.arg(j)['f'], j))
            elif op == 'ret' and (i in x.origins(x.ins[j][0]) or i in x.ins[j][0]):
                ret = True
        return loc, fld, ret

    def same(self, x, pr, i, loc, fld):
        if i in pr or i in x.origins(pr):
            return True
        for o in set(pr) | x.origins(pr):
            if isinstance(o, tuple):
                continue
            op = x.op(o)
            if op.startswith('ldloc') and x.local(o) in loc:
                return True
            if op in ('ldfld', 'ldflda', 'ldsfld', 'ldsflda') and x.arg(o)['f'] in {f for f, _ in fld}:
                return True
        return False

    def ident(self, x, pr):
        """identity of an object which is locked"""
        f = csflow.field(x, pr)
        if f:
            return ('f', f)
        os = x.origins(pr)
        out = set()
        for o in os:
            if isinstance(o, tuple):
                out.add(o)
            elif x.op(o).startswith('ldarg'):
                out.add(('a', x.argument(o)))
            else:
                out.add(('i', o))
        return ('o', tuple(sorted(out, key=str)))

    def look(self, x, i, what, rel):
        ctx = self.ctx
        ctx.count(what)
        tag = '%s:%s:%s' % (what, x.short(), x.arg(i)['n'])
        rels = (rel,) if isinstance(rel, str) else rel
        if what == 'locks':
            me = self.ident(x, x.ins[i][0])
            out = {j for j in x.calls() if x.arg(j)['n'] in rels and x.arg(j)['cls'] == x.arg(i)['cls'] and x.ins[j] and self.ident(x, x.ins[j][0]) == me}
            cut = out | self.notheld(x, i, out)
        else:
            loc, fld, ret = self.holders(x, i, what)
            if ret:
                ctx.count('handed to the caller')
                return
            keep = {(f, j) for f, j in fld if not self.closure(f)}
            if keep:
                ctx.count('kept by an object')
                if what == 'pins':
                    self.owner(x, i, sorted(keep)[0][0], rels, tag)
                return
            k = 1 if x.op(i) == 'newobj' else 0
            out = {j for j in x.calls() if x.arg(j)['n'] in rels and x.ins[j] and self.same(x, x.ins[j][0], i, loc, fld)}
            # a wrapper which owns it
            wrap = [j for j in x.calls() if x.op(j) == 'newobj' and j != i and any(self.same(x, q, i, loc, fld) for q in x.ins[j]) and x.arg(j)['cls'].startswith('System.IO.')] if what == 'files' else []
            for j in wrap:
                l2, f2, r2 = self.holders(x, j, what)
                if r2 or any(not self.closure(f) for f, _ in f2):
                    return
                out |= {q for q in x.calls() if x.arg(q)['n'] in rels and x.ins[q] and self.same(x, x.ins[q][0], j, l2, f2)}
            cut = out | self.nulls(x, out)
        if not out and what in ('pins', 'memory', 'files') and self.handed(x, i, loc, fld, rels):
            ctx.count('released by a function it is handed to')
            return
        n = len(x.il)
        fins = [x.region(h['handler']) for h in x.eh if h['k'] in ('Finally', 'Fault')]
        seen, st, bad = set(), list(x.succ[i][0]), None
        while st:
            j = st.pop()
            if j in seen or j in cut:
                continue
            seen.add(j)
            if j >= n:
                bad = j
                break
            # what a finally block does to release things does not fail itself
            infin = any(a <= j < b for a, b in fins)
            st += x.succ[j][0] + (x.succ[j][1] if not infin or x.op(j) in ('endfinally', 'throw', 'rethrow') else [])
        if bad is not None:
            why = 'an exception' if bad > n else 'a normal way'
            ctx.violation(tag, x.loc(i), '%s is not released on %s out of %s' % ({'pins': 'the pin', 'memory': 'native memory', 'locks': 'the lock', 'files': 'the file'}[what], why, x.short()))
            return
        ctx.count('ways out covered', len(seen))
        if what == 'pins':
            self.pin(x, i, loc, fld, out, tag)
        elif what == 'files' or what == 'memory':
            pass

    def closure(self, f):
        return '<' in f.split('::')[0].split('/')[-1] or '<' in f.split('::')[-1] or '$' in f.split('::')[-1]

    def handed(self, x, i, loc, fld, rels):
        """given to a function of the assembly which releases its parameter on every way out"""
        for j in x.calls():
            for k, pr in enumerate(x.ins[j]):
                if self.same(x, pr, i, loc, fld):
                    for t in self.cs.targets(x, j):
                        if t.il:
                            q = k + len(t.params) - len(x.ins[j])
                            rel = {z for z in t.calls() if t.arg(z)['n'] in rels and t.ins[z] and any(not isinstance(o, tuple) and t.op(o).startswith('ldarg') and t.argument(o) == q for o in t.origins(t.ins[z][0]) | set(t.ins[z][0]))}
                            if rel and not any(z >= len(t.il) for z in t.reach([-1], rel)):
                                return True
        return False

    def owner(self, x, i, f, rels, tag):
        """a pin kept in a field is released by a Dispose or a finalizer of the class"""
        ok = any(y.n in ('Dispose', 'Finalize', 'Close') and any(y.arg(j)['n'] in rels and csflow.field(y, y.ins[j][0]) == f for j in y.calls() if y.ins[j]) for y in self.cs.methods.values() if y.il and y.asm == x.asm and y.cls.id == f.split('::')[0])
        if not ok:
            self.ctx.violation(tag, x.loc(i), 'the pin is kept in %s and never released' % f.split('::')[-1])

    def notheld(self, x, i, out):
        """the branch taken when the lock was not obtained"""
        cut = set()
        taken = set()
        if x.arg(i)['n'] == 'Enter' and len(x.ins[i]) > 1:
            for o in x.ins[i][1]:
                if not isinstance(o, tuple) and x.op(o).startswith('ldloca'):
                    taken.add(x.local(o))
        held = [RW[x.arg(i)['n']][1]] if x.arg(i)['n'] in RW else []
        for j in range(len(x.il)):
            b = x.op(j).split('.')[0]
            if b not in ('brfalse', 'brtrue') or not x.ins[j]:
                continue
            for o in x.ins[j][0]:
                if isinstance(o, tuple):
                    continue
                hit = x.op(o).startswith('ldloc') and x.local(o) in taken or x.iscall(o) and x.arg(o)['n'] in ['get_' + h for h in held]
                if hit:
                    no = x.idx(x.arg(j)) if b == 'brfalse' else j + 1
                    if no not in out:
                        cut.add(('e', j, no))
        # cut edges are turned into nodes: only where the node is entered from this branch
        nodes = set()
        for _, j, no in cut:
            if x.op(no) in ('endfinally', 'nop', 'leave', 'leave.s', 'ret', 'br', 'br.s'):
                nodes.add(no)
        return nodes

    def nulls(self, x, out):
        cut = set()
        for j in range(len(x.il)):
            b = x.op(j).split('.')[0]
            if b not in ('brfalse', 'brtrue'):
                continue
            no = x.idx(x.arg(j)) if b == 'brfalse' else j + 1
            yes = j + 1 if b == 'brfalse' else x.idx(x.arg(j))
            if any(yes <= d <= yes + 6 for d in out) and x.op(no) == 'endfinally':
                cut.add(no)
        return cut

    def pin(self, x, i, loc, fld, out, tag):
        ctx = self.ctx
        # only pinned handles have an address
        if len(x.ins[i]) < 2:
            kinds = {0}
        else:
            kinds = {self.const(x, o) for o in x.origins(x.ins[i][1])}
        if kinds - {3, None} and self.addressed(x):
            ctx.violation('kind:' + x.short(), x.loc(i), 'the object is not pinned: it may be moved while native code uses its address')
        for o in x.origins(x.ins[i][0]):
            t = None
            if isinstance(o, tuple):
                continue
            if x.op(o).startswith('ldarg') and x.argument(o) is not None and 0 <= x.argument(o) < len(x.params):
                t = x.params[x.argument(o)]['t']
            elif x.op(o) == 'newobj':
                t = x.arg(o)['cls']
            elif x.op(o) in ('ldfld', 'ldsfld'):
                t = x.arg(o)['t']
            y = self.cs.type(t, x.asm) if t else None
            if y is not None:
                ctx.count('types of pinned objects')
                for f in y.fields:
                    if not f['static'] and (f['t'] in BAD or f['t'].endswith(']') or self.isclass(f['t'], x.asm)):
                        ctx.violation('blittable:%s' % y.n, x.loc(i), 'an object of %s cannot be pinned: %s is a %s' % (y.n, f['n'], f['t']))
        # used after it was released
        for r in sorted(out):
            after = {s for s, _ in csflow.walk(x, csflow.step(x, (r, ())), {i})}
            for j in sorted(after):
                if j < len(x.il) and x.iscall(j) and j != r and j not in out and any(self.same(x, q, i, loc, set()) for q in x.ins[j]):
                    ctx.violation('after:' + tag, x.loc(j), 'the pin is used after it was released')
                    break
        # given to code which runs later
        for j in x.calls():
            if x.op(j) == 'newobj' or j in out:
                continue
            for k, pr in enumerate(x.ins[j]):
                for o, d in csflow.made(self.cs, x, pr):
                    if not self.captures(x, o, d, loc, fld, i):
                        continue
                    ts = [t for t in self.cs.targets(x, j) if t.il]
                    if not ts and not x.arg(j)['cls'].startswith(('System.Action', 'System.Func')):
                        if x.arg(j)['cls'].startswith(('UtyRx', 'System.Threading', 'UniRx')):
                            ctx.violation('later:' + tag, x.loc(j), 'the pin is given to code which may run after it was released (%s)' % x.arg(j)['n'])

    def isclass(self, t, asm):
        y = self.cs.type(t, asm)
        return y is not None and y.d['base'] not in ('System.ValueType', 'System.Enum') and not y.d['enum']

    def const(self, x, o):
        if isinstance(o, tuple):
            return None
        op = x.op(o)
        if op.startswith('ldc.i4'):
            z = op.split('.')[-1]
            return int(z) if z.isdigit() and op != 'ldc.i4' else (x.arg(o) if isinstance(x.arg(o), int) else None)
        return None

    def addressed(self, x):
        return any(y.arg(j)['n'] == 'AddrOfPinnedObject' for y in self.cs.methods.values() if y.il and y.asm == x.asm for j in y.calls())

    def captures(self, x, o, d, loc, fld, i):
        """the closure of the delegate holds the pin"""
        fs = {f for f, _ in fld}
        if fs and any(d.op(z) in ('ldfld', 'ldflda') and d.arg(z)['f'] in fs for z in range(len(d.il))):
            return True
        return False
