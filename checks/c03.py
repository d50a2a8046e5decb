"""Third-party code with process-wide state is entered by one thread at a time."""
from locks import Locks
import cir

LEVEL = 'other'
# globals that every write sets to the same machine-dependent value
IDEMPOTENT = {'bBigEndian': 'byte order of the machine, recomputed to the same value by every call'}


def check(ctx):
    m = ctx.m
    ctx.rule('R1: every call from request-reachable code of a bundled third-party function that (transitively, by its LLVM IR) reads or writes a mutable global '
             'is made while one common mutex of static storage duration is held; a mutex that is a member of some object does not serialise two objects')
    lib = cir.Lib(m.repo)
    ctx.count('third-party functions analysed', lib.functions)
    ctx.require('third-party functions analysed', 100)
    state = {fn: {g for g in gs if g[1] not in IDEMPOTENT} for fn, gs in lib.state.items()}
    state = {fn: gs for fn, gs in state.items() if gs}
    ctx.count('third-party functions with process-wide state', len(state))
    ctx.require('third-party functions with process-wide state', 1)
    roots = [f.id for f in m.fn.values() if f.decl.get('extc') and f.file.startswith('core/shared/')]
    reach, par = m.reachable(roots)
    L = Locks(m)
    sites = []
    for fid in sorted(reach):
        f = m.fn[fid]
        for i in f.calls():
            d = f.callee(i)
            if not d or d.get('src') or '/core/lib/' not in d.get('file', ''):
                continue
            ctx.count('calls of third-party functions')
            if d['qn'] in state:
                h = L.held(f, i)
                if h is None:
                    continue
                sites.append((f, i, h))
    ctx.count('calls that need serialisation', len(sites))
    ctx.require('calls of third-party functions', 5)
    ctx.require('calls that need serialisation', 1)
    # modules whose state overlaps must share the mutex
    groups = {}
    for f, i, h in sites:
        for mod, g in state[f.callee(i)['qn']]:
            groups.setdefault(mod, {})[(f.id, i)] = (f, i, frozenset(l for l in h if static_mutex(m, l)))
    for mod, ss in sorted(groups.items()):
        common = frozenset.intersection(*[h for _, _, h in ss.values()])
        if common:
            ctx.sample('%s: %d calls under %s' % (mod, len(ss), sorted(common)[0]))
            continue
        votes = {}
        for _, _, h in ss.values():
            for l in h:
                votes[l] = votes.get(l, 0) + 1
        best = max(votes, key=lambda l: (votes[l], l)) if votes else None
        for f, i, h in ss.values():
            if best and best in h:
                continue
            ctx.violation('unserialised:%s:%s' % (f.qn, f.cqn(i)), f.loc(i), '%s keeps state in globals of %s (%s ...) but is called without %s' % (
                f.cqn(i), mod, ', '.join(sorted(g for _, g in state[f.cqn(i)])[:3]), best or 'a mutex of static storage duration'), m.path_to(par, f.id))
    ctx.assumptions += ['%s: %s' % kv for kv in IDEMPOTENT.items()]


def static_mutex(m, l):
    return l in m.globals and not m.globals[l].get('tls')
