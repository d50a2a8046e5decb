# Collections shared between threads are accessed under one lock.
import re

import csflow

LEVEL = 'other'
COLL = re.compile(r'^System\.Collections\.Generic\.(I?List|I?Dictionary|ICollection|IEnumerable|ISet|HashSet|Queue|Stack|LinkedList|SortedDictionary|SortedList|SortedSet)`|^System\.Collections\.(ArrayList|Hashtable|Queue|Stack)$')
WRITES = {'Add', 'Remove', 'Clear', 'set_Item', 'Enqueue', 'Dequeue', 'Push', 'Pop', 'Insert', 'RemoveAt', 'RemoveAll', 'AddRange', 'TryAdd', 'UnionWith', 'Sort', 'AddFirst', 'AddLast', 'RemoveFirst', 'RemoveLast', 'ExceptWith', 'Reverse'}
POOL = ('ObserveOn', 'SubscribeOn')
SETUP = ('.ctor', '.cctor')


def check(ctx):
    cs = ctx.cs
    ctx.rule('a collection which code of the thread pool touches and which is changed after construction is accessed under one common lock everywhere')
    ctx.rule('a collection which is changed under a lock somewhere is never accessed without it')
    T = Threads(ctx, cs)
    ctx.count('functions given to other threads', len(T.roots))
    ctx.count('methods other threads run', len(T.worker))
    fields = T.accesses()
    for f in sorted(fields):
        acc = [z for z in fields[f] if not T.setup(z[0])]
        ctx.count('collections')
        ctx.count('accesses to collections', len(acc))
        ms = [z for z in acc if z[2]]
        if not ms and T.replaced.get(f):
            T.copies(f, acc)
            continue
        if not ms:
            ctx.count('collections never changed after construction')
            continue
        held = {id(z): T.locks(z[0], z[1]) for z in acc}
        name = f.split('.')[-1].replace('/', '.')
        if any(held[id(z)] for z in ms):
            common = None
            for z in ms:
                common = set(l for l, w in held[id(z)] if w) if common is None else common & set(l for l, w in held[id(z)] if w)
            ctx.count('collections changed under a lock')
            if not common:
                z = next((z for z in ms if not {l for l, w in held[id(z)] if w}), ms[0])
                ctx.violation('inconsistent:' + name, z[0].loc(z[1]), '%s is changed here without the lock under which it is changed elsewhere' % name)
                continue
            for z in acc:
                if not common & {l for l, _ in held[id(z)]}:
                    ctx.violation('inconsistent:' + name, z[0].loc(z[1]), '%s is accessed by %s without the lock under which it is changed' % (name, z[0].short()))
                    break
            continue
        if not T.shared(ms[0][0], f):
            ctx.count('collections of objects which are not shared')
            continue
        ws = [z for z in acc if z[0].id in T.worker]
        if ws:
            m, w = ms[0], ws[0]
            ctx.violation('unlocked:' + name, m[0].loc(m[1]), '%s is changed by %s while a thread of the pool may use it (%s, %s)' % (name, m[0].short(), w[0].short(), w[0].loc(w[1])))
        else:
            ctx.count('collections of one thread')
    ctx.require('functions given to other threads', 4)
    ctx.require('methods other threads run', 20)
    ctx.require('collections', 10)
    ctx.require('collections changed under a lock', 2)


def parts(x, pr):
    """instructions a value is made with"""
    out, todo = set(), list(x.origins(pr))
    while todo:
        o = todo.pop()
        if isinstance(o, tuple) or o in out:
            continue
        out.add(o)
        for p in x.ins[o] or []:
            todo += list(p) if x.op(o).startswith('ld') else list(x.origins(p))
    return sorted(out)


class Threads:
    def __init__(self, ctx, cs):
        self.ctx = ctx
        self.cs = cs
        self.roots = []
        self.callers = {}
        self.taken = set()
        for x in cs.methods.values():
            for i in x.calls():
                for t in self.targets(x, i):
                    self.callers.setdefault((t.asm, t.id), []).append((x, i))
            for _, d in cs.delegates(x):
                self.taken.add((d.asm, d.id))
        for key in sorted(cs.methods):
            x = cs.methods[key]
            for i in x.calls():
                a = x.arg(i)
                if a['n'] == 'Subscribe' and x.ins[i] and self.pooled(x, i) or a['n'] in ('Start', 'QueueUserWorkItem', 'StartNew', 'Run', 'Schedule') and a['cls'].startswith(('UtyRx', 'UniRx', 'System.Threading')):
                    self.roots += [d for _, d in csflow.called(cs, x, i)]
                elif a['n'] in POOL:
                    # what comes before SubscribeOn runs there as well
                    for o in csflow.chain(x, x.ins[i][0]) if x.ins[i] and a['n'] == 'SubscribeOn' else []:
                        if x.iscall(o):
                            self.roots += [d for _, d in csflow.called(cs, x, o)]
        self.worker = {}
        st = list(self.roots)
        while st:
            x = st.pop()
            if x.id in self.worker:
                continue
            self.worker[x.id] = x
            for i in x.calls():
                st += self.targets(x, i)
            st += [d for _, d in cs.delegates(x)]

        # what is given to other threads
        self.given = set()
        for x in self.roots:
            for q in x.params:
                self.given.update(re.findall(r'[\w.]+(?:/\w+)*', q['t']))

    def targets(self, x, i):
        out = list(self.cs.targets(x, i))
        if x.asm == 'UtyMap.Unity' and x.op(i) == 'callvirt':
            # implemented by the application
            todo, seen = [x.arg(i)['id']], set()
            while todo:
                q = todo.pop()
                if q in seen:
                    continue
                seen.add(q)
                for o in self.cs.over.get(q, []):
                    if o not in out and not o.d['abstract']:
                        out.append(o)
                    todo.append(o.id)
        return out

    def pooled(self, x, i):
        for o in csflow.chain(x, x.ins[i][0]):
            if not x.iscall(o):
                continue
            a = x.arg(o)
            if a['n'] in POOL and any('ThreadPool' in str(x.arg(q)) or 'TaskPool' in str(x.arg(q)) or 'NewThread' in str(x.arg(q)) or 'IScheduler' in str(x.arg(q)) for pr in x.ins[o][1:] for q in x.origins(pr) if not isinstance(q, tuple)):
                return True
            if 'INetworkService' in a['cls']:
                return True
        return False

    def setup(self, x):
        return x.n in SETUP

    def shared(self, x, f):
        """static, or of an object which components or threads share"""
        cid = f.split('::')[0].split(' ')[-1]
        d = self.cls(cid, x.asm) or x.cls
        if x.asm != 'UtyMap.Unity' and '.Core.Interop' not in cid:
            return False
        if d.id in self.given:
            return True
        if any(g['n'] == f.split('::')[-1] and g.get('static') for g in d.fields):
            return True
        if any(m.d.get('ctor') and any(str(a).endswith('DependencyAttribute') or 'DependencyAttribute' in str(a) for a in m.d['attrs']) for m in self.methods(d)):
            return True
        todo, seen = [(d.id, d.asm)], set()
        while todo:
            i, asm = todo.pop()
            i = i.split('<')[0]
            if i in seen:
                continue
            seen.add(i)
            if re.match(r'(UtyRx|UniRx|System)\.(I?Subject|IObserver|IObservable)\b', i):
                return True
            c = self.cls(i, asm)
            if c is not None:
                todo += [(z, asm) for z in c.d['ifs'] + ([c.d['base']] if c.d['base'] else [])]
        return False

    def cls(self, cid, asm):
        cid = cid.split('<')[0]
        for a in (asm, 'UtyMap.Unity'):
            try:
                c = self.cs.type(cid, a)
            except Exception:
                c = None
            if c is not None:
                return c
        return None

    def methods(self, d):
        return d.methods.values() if isinstance(d.methods, dict) else d.methods

    def copies(self, f, acc):
        """a collection which is replaced by a changed copy: replacements exclude each other"""
        ctx = self.ctx
        name = f.split('.')[-1].replace('/', '.')
        ctx.count('collections replaced, never changed')
        reps = self.replaced[f]
        derived = [z for z in reps if z[2]]
        if not derived or not self.shared(reps[0][0], f):
            return
        common = None
        for x, i, _ in reps:
            h = {l for l, w in self.locks(x, i) if w}
            common = h if common is None else common & h
        if not common:
            x, i, _ = next((z for z in reps if not {l for l, w in self.locks(z[0], z[1]) if w}), reps[0])
            ctx.violation('lost:' + name, x.loc(i), 'two threads may replace %s at the same time: the change of one of them is lost' % name)
            return
        # the copy is made of what is replaced
        for x, i, olds in derived:
            for o in olds:
                if not common & {l for l, _ in self.locks(x, o)}:
                    ctx.violation('lost:' + name, x.loc(o), '%s is read before the lock is taken under which its changed copy replaces it' % name)

    def accesses(self):
        """field -> [(method, instruction, changed)]"""
        out = {}
        self.replaced = {}
        for key in sorted(self.cs.methods):
            x = self.cs.methods[key]
            for i in range(len(x.il)):
                if x.op(i) in ('stfld', 'stsfld') and COLL.match(x.arg(i)['t']) and not self.setup(x):
                    f = x.arg(i)['f']
                    olds = [o for o in parts(x, x.ins[i][-1]) if x.op(o) in ('ldfld', 'ldsfld') and x.arg(o)['f'] == f]
                    self.replaced.setdefault(f, []).append((x, i, olds))
            for i in range(len(x.il)):
                if x.op(i) not in ('ldfld', 'ldsfld') or not COLL.match(x.arg(i)['t']):
                    continue
                f = x.arg(i)['f']
                if '<' in f.split('::')[0].split('/')[-1] or '$cache' in f:
                    continue
                for j in range(len(x.il)):
                    if not x.ins[j] or not x.iscall(j) or x.arg(j)['cls'].endswith('.Monitor'):
                        continue
                    for k, pr in enumerate(x.ins[j]):
                        if i in pr or i in x.origins(pr):
                            w = k == 0 and x.arg(j)['n'] in WRITES and x.op(j) != 'newobj'
                            out.setdefault(f, []).append((x, j, w))
                        if x.arg(j)['n'] == 'GetEnumerator' or re.search(r'Enumerable|Enumerator|KeyCollection|ValueCollection|ILookup|IGrouping', str(x.arg(j).get('ret'))):
                            if x.ins[j] and (i in x.ins[j][0] or i in x.origins(x.ins[j][0])):
                                out[f] += [(x, q, False) for q in range(len(x.il)) if x.op(q) == 'ret' and x.ins[q] and j in x.origins(x.ins[q][0])]
                # returned: used by the caller, outside any lock held here
                for j in range(len(x.il)):
                    if x.op(j) == 'ret' and x.ins[j] and i in x.origins(x.ins[j][0]):
                        out.setdefault(f, []).append((x, j, False))
        return out

    def locks(self, x, i, depth=0):
        """{(lock, whether for writing)} held at an instruction"""
        out = self.held(x, i)
        # a function only called with the lock held
        if depth < 4 and (x.asm, x.id) not in self.taken:
            sites = self.callers.get((x.asm, x.id), [])
            if sites and not x.d.get('public') and not x.d.get('virtual'):
                sets = [self.locks(y, j, depth + 1) for y, j in sites if not self.setup(y)]
                if sets:
                    out = out | set.intersection(*sets)
        return out

    def held(self, x, i):
        out = set()
        for j in x.calls():
            a = x.arg(j)
            kind = None
            if a['cls'].endswith('.Monitor') and a['n'] == 'Enter':
                kind, rel = True, 'Exit'
            elif a['cls'].endswith('ReaderWriterLockSlim') and a['n'].startswith('Enter'):
                kind, rel = a['n'] == 'EnterWriteLock', a['n'].replace('Enter', 'Exit')
            if kind is None:
                continue
            me = self.ident(x, x.ins[j][0])
            if me is None:
                continue
            rels = {q for q in x.calls() if x.arg(q)['n'] == rel and x.arg(q)['cls'] == a['cls'] and self.ident(x, x.ins[q][0]) == me}
            # held: every way here passes the acquisition and no release follows it before
            got = {s for s, _ in csflow.walk(x, csflow.step(x, (j, ())), rels)} - rels
            free = {s for s, _ in csflow.walk(x, [(0, ())], {j})} - {j}
            after = set()
            for r in rels:
                after |= {s for s, _ in csflow.walk(x, [z for p in csflow.pendings(x, r) for z in csflow.step(x, (r, p))], {j})} - {j}
            if i in got and i not in free and i not in after:
                out.add((me, kind))
        return out

    def ident(self, x, pr):
        f = csflow.field(x, pr)
        if f:
            return f
        os = x.origins(pr)
        if len(os) == 1:
            o = next(iter(os))
            if not isinstance(o, tuple) and x.op(o).startswith('ldarg') and x.argument(o) == -1:
                return 'this:' + x.cls.id
        return None
