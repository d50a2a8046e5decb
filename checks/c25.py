# Every tile handed to the managed data store is reported to the observers of tiles.
import re

import csflow

LEVEL = 'other'
LIB = 'UtyMap.Unity'
TILE = 'UtyMap.Unity.Tile'


def check(ctx):
    cs = ctx.cs
    ctx.rule('every normal way through a data provider which is handed a tile passes the tile on exactly once: to its observers, to another provider, to the buffer of requests, or to a download whose completion does')
    ctx.rule('every provider which is handed tiles has a subscriber which passes on what it reports')
    ctx.rule('every normal way through what the store does with a provided tile leads to a notification of its observers of tiles')
    R = Report(ctx, cs)
    providers, stores = [], []
    for t in cs.asms.get(LIB, []):
        if t.d.get('iface'):
            continue
        if R.isprovider(t):
            providers.append(t)
        elif any(p for p in t.fields if p['t'].endswith('.IMapDataProvider')) and any(z.n.split('.')[-1] == 'OnNext' and [p['t'] for p in z.params] == [TILE] for z in t.methods):
            stores.append(t)
    for t in providers:
        for x in t.methods:
            if x.n.split('.')[-1] == 'OnNext' and [p['t'] for p in x.params] == [TILE] and x.il:
                ctx.count('providers of tiles')
                whole(ctx, R, x, 'provider')
        wiring(ctx, cs, R, t)
    for t in stores:
        for x in t.methods:
            if x.n.split('.')[-1] == 'OnNext' and [p['t'] for p in x.params] == [TILE] and x.il:
                ctx.count('stores')
                whole(ctx, R, x, 'provider')
        found = 0
        for x in R.members(t):
            for i in x.calls():
                if x.arg(i)['n'] == 'Subscribe' and x.ins[i] and any(R.ofprovider(x, o) for o in csflow.chain(x, x.ins[i][0])):
                    for j, d in csflow.called(cs, x, i):
                        if any('Tuple' in p['t'] and TILE in p['t'] for p in d.params):
                            found += 1
                            ctx.count('subscriptions to provided tiles')
                            whole(ctx, R, d, 'store')
        if not found:
            ctx.violation('unwired:' + t.n, t.methods[0].loc(), '%s hands tiles to a provider, nothing takes what it provides' % t.n)
    downloads(ctx, cs, R)
    ctx.require('providers of tiles', 4)
    ctx.require('subscriptions to provided tiles', 1)
    ctx.require('ways which report a tile', 8)


def whole(ctx, R, x, kind):
    ev = R.events(x, kind)
    ctx.count('ways which report a tile', len(ev))
    if not csflow.must(x, ev):
        # where it is lost: the last return or branch which is not covered
        ctx.violation('unreported:%s' % x.short(), x.loc(0), '%s: a tile is neither reported nor passed on on a way out of %s' % (x.short(), lost(x, ev)))
    p = csflow.twice(x, ev)
    if p is not None:
        ctx.violation('twice:%s' % x.short(), x.loc(p[1]), '%s reports the tile twice: lines %s and %s' % (x.short(), x.il[p[0]][3], x.il[p[1]][3]))
    for i in sorted(ev):
        for d in R.inner.get((x.id, i, kind), ()):
            q = csflow.twice(d, R.events(d, kind))
            if q is not None:
                ctx.violation('twice:%s' % d.short(), d.loc(q[1]), '%s reports the tile twice: lines %s and %s' % (d.short(), d.il[q[0]][3], d.il[q[1]][3]))


def lost(x, ev):
    n = len(x.il)
    seen, st = set(), [0]
    lines = set()
    while st:
        i = st.pop()
        if i in seen or i in ev or i >= n:
            continue
        seen.add(i)
        if x.op(i) != 'ret' and x.il[i][3]:
            lines.add(x.il[i][3])
        st += x.succ[i][0]
    return 'lines %s' % ', '.join(map(str, sorted(lines))) if lines else 'its body'


class Report:
    def __init__(self, ctx, cs):
        self.ctx = ctx
        self.cs = cs
        self.memo = {}
        self.inner = {}

    def isprovider(self, t):
        seen = 0
        while t is not None and seen < 10:
            if any(i.endswith('.IMapDataProvider') for i in t.d.get('ifs', [])):
                return True
            t = self.cs.type(t.d['base'], LIB) if t.d.get('base') else None
            seen += 1
        return False

    def members(self, t):
        """methods of the class and of the closures in it"""
        out = list(t.methods)
        for u in self.cs.asms.get(LIB, []):
            if u.id.startswith(t.id + '/<'):
                out += u.methods
        return [x for x in out if x.il]

    def ofprovider(self, x, o):
        op, a = x.op(o), x.arg(o)
        if op in ('ldfld', 'ldsfld'):
            return a['t'].endswith('.IMapDataProvider')
        if op.startswith('ldarg'):
            p = x.argument(o)
            return p is not None and p >= 0 and x.params[p]['t'].endswith('.IMapDataProvider')
        return False

    def observed(self, t, kind):
        """the type is an observer (or a collection of them) of what has to be reported"""
        if kind == 'store':
            return bool(re.search(r'IObserver`1<UtyMap\.Unity\.Tile>', t))
        return bool(re.search(r'IObserver`1<(UtyMap\.Unity\.Tile|UtyRx\.Tuple`2<UtyMap\.Unity\.Tile,.*)>', t)) or t.endswith('.IMapDataProvider') or 'ISubject`' in t and TILE in t

    def events(self, x, kind, depth=0):
        """calls after which the tile is reported or somebody else's to report"""
        k = (x.id, kind)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = set()
        ev = set()
        if not x.il or depth > 12:
            return ev
        for i in x.calls():
            a = x.arg(i)
            on = a.get('on') or a['cls']
            if a['n'] == 'OnNext' and x.ins[i] and 'Subject`' in self.ftype(x, x.ins[i][0]):
                # a buffer of its own: somebody has to take what is put into it
                if self.request(x, i, kind, depth):
                    ev.add(i)
                continue
            if a['n'] == 'OnNext' and self.observed(on, kind):
                e = self.loopof(x, i)
                ev.add(e)
                continue
            if a['n'] == 'OnNext':
                # another provider by its own type
                if kind == 'provider' and any(self.isprovider(t.cls) for t in self.cs.targets(x, i)):
                    ev.add(i)
                continue
            if a['n'] == 'ForEach' and self.observed(on if '<' in on else str(a), kind) or a['n'] == 'ForEach' and x.ins[i] and self.observed(self.ftype(x, x.ins[i][0]), kind):
                if any(self.events(d, kind, depth + 1) and csflow.must(d, self.events(d, kind, depth + 1)) for _, d in csflow.called(self.cs, x, i)):
                    ev.add(i)
                continue
            if a['n'] in ('Subscribe', 'Do', 'Finally', 'DoOnCompleted', 'DoOnTerminate', 'Select', 'SelectMany', 'ContinueWith', 'Schedule', 'Invoke', 'Start', 'QueueUserWorkItem', 'ForEach'):
                if a['n'] == 'Subscribe' and x.ins[i] and any(self.ofprovider(x, o) for o in csflow.chain(x, x.ins[i][0])):
                    continue
                for _, d in csflow.called(self.cs, x, i):
                    e = self.events(d, kind, depth + 1)
                    if e and csflow.must(d, e):
                        ev.add(i)
                        self.inner.setdefault((x.id, i, kind), []).append(d)
                continue
            if x.op(i) == 'newobj':
                continue
            ts = [t for t in self.cs.targets(x, i) if t.il and t.asm == LIB]
            if ts and all(self.must(t, kind, depth + 1) for t in ts):
                ev.add(i)
                self.inner.setdefault((x.id, i, kind), []).extend(ts)
        self.memo[k] = ev
        return ev

    def must(self, t, kind, depth):
        e = self.events(t, kind, depth)
        return bool(e) and csflow.must(t, e)

    def ftype(self, x, pr):
        for o in x.origins(pr):
            if not isinstance(o, tuple):
                a = x.arg(o)
                if x.op(o) in ('ldfld', 'ldsfld'):
                    return a['t']
                if x.iscall(o):
                    return str(a.get('ret')) + str(a.get('on')) + str(a.get('ga'))
                if x.op(o).startswith('ldarg') and (x.argument(o) or 0) >= 0 and x.argument(o) is not None and x.argument(o) < len(x.params):
                    return x.params[x.argument(o)]['t']
        return ''

    def loopof(self, x, i):
        """an observer told in a loop over all observers: the start of the loop stands for it"""
        best = None
        for o in csflow.chain(x, x.ins[i][0]) if x.ins[i] else []:
            a = x.arg(o)
            if x.iscall(o) and a['n'] == 'get_Current':
                for q in x.calls():
                    b = x.arg(q)
                    if b['n'] == 'GetEnumerator' and q < i and (best is None or q > best):
                        best = q
            elif x.op(o).startswith('ldelem') or x.iscall(o) and a['n'] == 'get_Item':
                f = x.ins[o][0] if x.ins[o] else ()
                for q in range(len(x.il)):
                    if (x.op(q) == 'ldlen' or x.iscall(q) and x.arg(q)['n'] == 'get_Count') and x.ins[q] and self.same(x, x.ins[q][0], f):
                        # the size is looked at before the first element is
                        if not self.within(x, q, i) or True:
                            best = q
        return i if best is None else best

    def within(self, x, q, i):
        return i in x.reach([q], exc=False)

    def same(self, x, a, b):
        return bool(x.origins(a) & x.origins(b)) or csflow.field(x, a) is not None and csflow.field(x, a) == csflow.field(x, b)

    def request(self, x, i, kind, depth):
        """a tile given to a buffer of requests whose subscriber makes the requests"""
        if kind != 'provider' or not x.ins[i]:
            return False
        f = csflow.field(x, x.ins[i][0])
        if f is None:
            return False
        for y in self.members(x.cls):
            for j in y.calls():
                if y.arg(j)['n'] == 'Subscribe' and y.ins[j] and any(y.op(o) in ('ldfld', 'ldsfld') and y.arg(o)['f'] == f for o in csflow.chain(y, y.ins[j][0])):
                    for _, d in csflow.called(self.cs, y, j):
                        if self.may(d, kind):
                            self.ctx.count('buffers of requests')
                            return True
        return False

    def may(self, d, kind, depth=0):
        if self.events(d, kind, depth + 1):
            return True
        return depth < 4 and any(self.may(t, kind, depth + 1) for i in d.calls() if d.op(i) != 'newobj' for t in self.cs.targets(d, i) if t.il and t.asm == LIB)


def wiring(ctx, cs, R, t):
    """providers held by a provider: what they report is passed on, once"""
    used, subs = {}, {}
    for x in R.members(t):
        for i in x.calls():
            if not x.ins[i]:
                continue
            if x.arg(i)['n'] == 'OnNext':
                f = csflow.field(x, x.ins[i][0])
                if f and any(R.ofprovider(x, o) for o in x.origins(x.ins[i][0]) if not isinstance(o, tuple)):
                    used.setdefault(f, (x, i))
            elif x.arg(i)['n'] == 'Subscribe':
                for o in csflow.chain(x, x.ins[i][0]):
                    if x.op(o) in ('ldfld', 'ldsfld') and R.ofprovider(x, o):
                        ds = [d for _, d in csflow.called(cs, x, i)]
                        ok = any(R.must(d, 'provider', 0) for d in ds) or not ds
                        subs.setdefault(x.arg(o)['f'], []).append((x, i, ok))
    for f, (x, i) in sorted(used.items()):
        ctx.count('providers handed tiles by providers')
        good = [s for s in subs.get(f, []) if s[2]]
        if not good:
            ctx.violation('unwired:%s' % f.split('.')[-1], x.loc(i), 'tiles are handed to %s, what it reports goes nowhere' % f.split('::')[-1])
        by = {}
        for y, j, ok in good:
            by.setdefault(y.id, []).append((y, j))
        for z in by.values():
            if len(z) > 1:
                ctx.violation('twice:%s' % f.split('.')[-1], z[1][0].loc(z[1][1]), 'what %s reports is passed on twice' % f.split('::')[-1])


def downloads(ctx, cs, R):
    """a download may fail: without somebody who takes the error the tile is never heard of again"""
    for t in cs.asms.get(LIB, []):
        if not any(R.isprovider(u) and (t.id == u.id or t.id.startswith(u.id + '/')) for u in cs.asms.get(LIB, [])):
            continue
        for x in t.methods:
            for i in x.calls():
                if x.arg(i)['n'] != 'Subscribe' or not x.ins[i]:
                    continue
                if not any(x.iscall(o) and 'INetworkService' in x.arg(o)['cls'] for o in csflow.chain(x, x.ins[i][0])):
                    continue
                ctx.count('downloads')
                ds = csflow.called(cs, x, i)
                if not any(p['t'] == 'System.Exception' for _, d in ds for p in d.params) and not any('Exception' in str(p) for p in x.arg(i)['ps']):
                    ctx.violation('download-failed:%s' % x.cls.n, x.loc(i), 'nobody is told when the download of a tile fails')
