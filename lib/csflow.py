# shared questions about the managed side: which delegates a value holds, where values come from, which calls must run
import re


def made(cs, x, pr, depth=0):
    """[(index, method)] of the delegates a stack slot may hold"""
    out = []
    if depth > 6:
        return out
    for o in sorted(x.origins(pr), key=str):
        if isinstance(o, tuple):
            continue
        op = x.op(o)
        if op == 'newobj':
            for q in sorted(set().union(*x.ins[o]) if x.ins[o] else ()):
                if not isinstance(q, tuple) and x.op(q) in ('ldftn', 'ldvirtftn'):
                    t = cs.method(x.arg(q)['id'], x.asm)
                    if t is not None:
                        out.append((o, t))
        elif op == 'ldsfld':
            f = x.arg(o)['f']
            for j in range(len(x.il)):
                if x.op(j) == 'stsfld' and x.arg(j)['f'] == f:
                    out += made(cs, x, x.ins[j][0], depth + 1)
    return out


def called(cs, x, i):
    """[(parameter index, method)] of the delegates handed to a call"""
    out = []
    for j, pr in enumerate(x.ins[i]):
        for _, t in made(cs, x, pr):
            out.append((j, t))
    return out


def chain(x, pr, depth=0):
    """instructions a fluent value is built from: receivers of the calls it goes through"""
    out = []
    if depth > 12:
        return out
    for o in sorted(x.origins(pr), key=str):
        if isinstance(o, tuple):
            continue
        out.append(o)
        if x.iscall(o) and x.ins[o] and x.op(o) != 'newobj':
            out += chain(x, x.ins[o][0], depth + 1)
    return out


def field(x, pr):
    """the one field the value is read from"""
    os = x.origins(pr)
    if len(os) == 1:
        o = next(iter(os))
        if not isinstance(o, tuple) and x.op(o) in ('ldfld', 'ldsfld', 'ldflda', 'ldsflda'):
            return x.arg(o)['f']
    return None


def finals(x, i):
    """handlers of the finally blocks a leave goes through"""
    t = x.idx(x.arg(i))
    out = []
    for h in x.eh:
        a, b = x.region(h['try'])
        if h['k'] == 'Finally' and a <= i < b and not a <= t < b:
            out.append((b - a, x.region(h['handler'])[0]))
    return [p for _, p in sorted(out)], t


def step(x, s):
    """successors on normal ways; a state is an instruction and the leaves whose finally blocks are being run"""
    i, pend = s
    op = x.op(i)
    if op in ('leave', 'leave.s'):
        hs, t = finals(x, i)
        return [(hs[0], pend + ((i, 0),))] if hs else [(t, pend)]
    if op == 'endfinally' and pend:
        l, k = pend[-1]
        hs, t = finals(x, l)
        return [(hs[k + 1], pend[:-1] + ((l, k + 1),))] if k + 1 < len(hs) else [(t, pend[:-1])]
    return [(j, pend) for j in x.succ[i][0]]


def must(x, events, start=-1):
    """every way from the start to the normal end passes an event"""
    return not any(s[0] == len(x.il) for s in walk(x, [(0, ())] if start < 0 else step(x, (start, ())), events))


def walk(x, st, avoid=()):
    seen, st = set(), list(st)
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        if s[0] in avoid or s[0] >= len(x.il):
            continue
        st += step(x, s)
    return seen


def twice(x, events):
    """two different events one after the other on a normal way; None or the pair"""
    states = walk(x, [(0, ())])
    for s in sorted(states):
        if s[0] in events:
            for q, _ in sorted(walk(x, step(x, s))):
                if q in events and q != s[0]:
                    return s[0], q
    return None


def reaches(x, i, avoid=(), start=None, frm=None):
    """a normal way leads to the instruction (from the begin, after `start`, or from the instructions `frm`)"""
    if frm is not None:
        st = [(j, p) for j in frm for p in pendings(x, j)]
    elif start is not None:
        st = [z for p in pendings(x, start) for z in step(x, (start, p))]
    else:
        st = [(0, ())]
    return any(s[0] == i for s in walk(x, st, set(avoid) - {i}))


def pendings(x, j):
    return sorted({p for k, p in walk(x, [(0, ())]) if k == j}) or [()]


def branch(x, i, yes):
    """where it goes on when the boolean result of a call is as said: None when that is not seen"""
    for j in range(i + 1, min(i + 4, len(x.il))):
        op = x.op(j).split('.')[0]
        if op in ('brfalse', 'brtrue') and x.ins[j] and i in x.ins[j][0]:
            jump = (op == 'brtrue') == yes
            return [x.idx(x.arg(j))] if jump else [j + 1]
    return None
