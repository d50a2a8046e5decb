"""A string has one identifier, now and after a restart, and no two strings share one."""
import re
import flow
from guards import Guards
from locks import Locks
from paths import Walk, TooMany
from ranks import clean

LEVEL = 'other'


def report(ctx, f, i, msg, key):
    ctx.violation(key, f.loc(i) if isinstance(i, int) else f.loc(), msg)


def short(f, i):
    q = re.sub(r'operator[<>=!+-]+', 'operator', f.cqn(i) or '')
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return q.rsplit('::', 1)[-1]
        q = r


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('on every path on which a string gets a new identifier, its text, its index entry, its place in the lookup map and in the list of offsets are added exactly once, in files before memory, and the identifier published, returned and counted is the number of strings stored before')
    ctx.rule('on every path on which an existing identifier is returned, the text stored under it was found equal to the text asked for')
    ctx.rule('nothing is published before the files were written successfully; a failed write publishes nothing')
    ctx.rule('lookup and publication happen under one lock which is not released in between')
    ctx.rule('stored strings are never removed, files are opened for appending and never truncated, an offset is the length of the file before the text is written')
    ctx.rule('the index is read back in the order and sizes in which it is written, one identifier per entry, counted from zero; the hash is a function of the text alone')
    for rec in sorted(m.records):
        t = table(m, rec)
        if t:
            ctx.count('string tables')
            decide(ctx, m, S, rec, t)
    ctx.require('string tables', 1)
    ctx.require('ways through the table', 4)


def table(m, rec):
    """roles of the members of a class which stores strings in files"""
    if '/test/' in (m.records[rec].get('file') or ''):
        return None
    fs = m.fields(rec, False)
    streams = [x for x in fs if 'fstream' in clean(x['t'])]
    maps = [x for x in fs if re.match(r'(std::)?(unordered_)?(multi)?map<', clean(x['t'])) or 'HashIdMap' in clean(x['t'])]
    vecs = [x for x in fs if re.match(r'(std::)?vector<(unsigned int|std::uint32_t|unsigned long)', clean(x['t']))]
    if len(streams) != 2 or len(maps) != 1 or len(vecs) != 1:
        return None
    meths = [m.fn[x] for x in sorted(m.fn) if m.fn[x].cls == rec and m.fn[x].rawcfg is not None]
    if not any(f.params and isstring(f.params[0]['t']) and clean(f.decl.get('ret', '') or '') in ('unsigned int', 'std::uint32_t') for f in meths):
        return None
    t = {'map': maps[0]['n'], 'offsets': vecs[0]['n'], 'streams': [x['n'] for x in streams], 'methods': meths}
    # the stream of texts is the one written with << or with the text of a string
    text = set()
    for f in meths:
        for i in f.all():
            n = f.n(i)
            s = stream(f, i, t)
            if s and written(f, i) == 'text':
                text.add(s)
    if len(text) != 1:
        return None
    t['data'] = text.pop()
    t['index'] = [x for x in t['streams'] if x != t['data']][0]
    cnt = {}
    for f in meths:
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Un',) and n['op'] in ('++',) or n['k'] == 'Bin' and n['op'] == '+=':
                o = flow.strip(f, n['c'][0])
                if f.n(o)['k'] == 'Mem' and owner(f, o):
                    cnt[f.n(o)['n']] = 1
    t['count'] = sorted(cnt)[0] if len(cnt) == 1 else None
    return t


def owner(f, i):
    """is this a member of the object itself"""
    c = f.n(i).get('c')
    return bool(c) and f.n(flow.strip(f, c[0]))['k'] == 'This'


def member(f, i):
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Mem' and owner(f, i):
        return n['n']
    if n['k'] == 'Ref' and n.get('d'):
        j = flow.init_of(f, n['d'])
        if j is not None and j >= 0 and '&' in (f.vartype(n['d']) if hasattr(f, 'vartype') else '&'):
            jn = f.n(flow.strip(f, j))
            if jn['k'] == 'Mem':
                return member(f, j)
    return None


def stream(f, i, t):
    """stream member an operation of node i is applied to"""
    n = f.n(i)
    if n['k'] == 'MCall' and n.get('c') or n['k'] == 'OpCall' and n['op'] in ('<<', '!'):
        o = flow.strip(f, n['c'][0])
        while f.n(o)['k'] == 'OpCall' and f.n(o)['op'] == '<<':
            o = flow.strip(f, f.n(o)['c'][0])
        s = member(f, o)
        return s if s in t['streams'] else None
    return None


def isstring(t):
    t = (t or '').replace('const ', '').rstrip('& ')
    return t.startswith('std::basic_string<char') or t == 'std::string' or clean(t) == 'std::string'


def written(f, i):
    """'text', 'mark' or 'number': what an operation writes"""
    n = f.n(i)
    if n['k'] == 'OpCall' and n['op'] == '<<' and len(n['c']) == 2:
        a = flow.strip(f, n['c'][1])
        if f.n(a)['k'] in ('Char', 'Str'):
            return 'mark'
        return 'text' if textof(f, a) else None
    if n['k'] == 'MCall' and short(f, i) in ('write', 'put'):
        a = f.args(i)
        if short(f, i) == 'put':
            return 'mark'
        if textof(f, flow.strip(f, a[0])):
            return 'text'
        return 'number' if addressed(f, a[0]) is not None else None
    return None


def textof(f, a):
    n = f.n(a)
    if isstring(f.typ(a)):
        return 'whole'
    if n['k'] == 'MCall' and short(f, a) in ('c_str', 'data') and isstring(f.typ(n['c'][0])):
        return 'chars'
    return None


def addressed(f, i):
    """variable whose bytes are written or read"""
    for x in f.walk(i):
        if f.n(x)['k'] == 'Un' and f.n(x)['op'] == '&':
            r = flow.strip(f, f.n(x)['c'][0])
            if f.n(r)['k'] == 'Ref':
                return f.n(r).get('d')
            if f.n(r)['k'] == 'Mem':
                return f.n(r).get('d') or f.n(r).get('n')
    return None


def toend(f, i):
    a = f.args(i)
    return len(a) == 2 and any(f.n(x)['k'] == 'Ref' and f.n(x).get('n') in ('end', '_S_end') for x in f.walk(a[1]))


def decide(ctx, m, S, rec, t):
    meths = t['methods']

    def inline(f, i):
        gs = [m.fn[x] for x in m.targets(f, i)]
        return [g for g in gs if g.cls == rec and g.rawcfg is not None] if len(gs) == 1 else ()

    def event(f, i, env, ev):
        if not isinstance(i, int):
            if i[0] == 'd' and 'lock' in str(i[2]) and re.search(r'lock_guard|unique_lock|scoped_lock', str(i[2])):
                return ('unlock', f, None)
            return None
        n = f.n(i)
        if n['k'] in ('MCall', 'OpCall'):
            s = stream(f, i, t)
            nm = short(f, i) if n['k'] == 'MCall' else n['op']
            if s:
                if nm in ('seekg', 'seekp'):
                    return ('seekend' if toend(f, i) else 'seek', f, i, s)
                if nm in ('tellg', 'tellp'):
                    return ('tell', f, i, s)
                if nm in ('flush', 'close'):
                    return ('flush', f, i, s)
                if nm in ('read',):
                    return ('read', f, i, s, addressed(f, f.args(i)[0]))
                w = written(f, i)
                if w:
                    return ('write', f, i, s, w, addressed(f, f.args(i)[0]) if w == 'number' else None)
            if nm in ('unlock',):
                return ('unlock', f, i)
            if n['k'] == 'MCall' and nm in ('push_back', 'emplace_back', 'insert', 'emplace'):
                o = flow.strip(f, n['c'][0])
                if member(f, o) == t['offsets']:
                    return ('offset', f, i, W.eval(f, f.args(i)[0], env, ev))
                if inmap(f, o, t):
                    a = f.args(i)
                    return ('map', f, i, W.eval(f, a[-1], env, ev))
            if n['k'] == 'MCall' and nm in ('find', 'count', 'equal_range') and member(f, n['c'][0]) == t['map']:
                return ('lookup', f, i)
            if n['k'] == 'OpCall' and nm == '=' and inmap(f, n['c'][0], t):
                return ('map', f, i, W.eval(f, n['c'][1], env, ev))
        if t['count'] and (n['k'] == 'Un' and n['op'] in ('++', '--') or n['k'] == 'Bin' and n['op'] in ('+=', '=', '-=')):
            if member(f, n['c'][0]) == t['count']:
                if n['op'] == '++' or n['op'] == '+=' and num(f, n['c'][1]) == 1:
                    return ('count', f, i)
                if n['op'] == '=':
                    v = W.eval(f, n['c'][1], env, ev)
                    if v == ('c', counted(ev) + 1):
                        return ('count', f, i)
                    return ('setcount', f, i, v)
                return ('badcount', f, i)
        if n['k'] in ('Bin', 'OpCall') and n['op'] == '=' and f.n(flow.strip(f, n['c'][0]))['k'] == 'Ref':
            return ('set', f, i)
        return None

    def counted(ev):
        return sum(1 for e in ev if e[0] == 'count')

    def stored(ev):
        return sum(1 for e in ev if e[0] == 'offset')

    def value(w, f, i, env, ev):
        n = f.n(i)
        if n['k'] == 'Un' and n['op'] == '++' and t['count'] and member(f, n['c'][0]) == t['count']:
            # its own event precedes
            k = counted(ev)
            return ('c', k - 1 if n.get('post') else k)
        if n['k'] == 'Mem' and t['count'] and member(f, i) == t['count']:
            return ('c', counted(ev))
        if n['k'] == 'MCall' and short(f, i) == 'size' and member(f, n['c'][0]) == t['offsets']:
            return ('c', stored(ev))
        if n['k'] == 'Bin' and n['op'] in ('+', '-'):
            a = w.eval(f, n['c'][0], env, ev)
            b = num(f, n['c'][1])
            if isinstance(a, tuple) and a and a[0] in ('c', 'k') and b is not None:
                return (a[0], a[1] + (b if n['op'] == '+' else -b))
        if n['k'] == 'Int':
            return ('k', int(n['v']))
        if n['k'] in ('OpCall', 'Bin') and n['op'] in ('==', '!=') and len(n['c']) == 2 and all(isstring(f.typ(c)) for c in n['c']):
            return ('cond', ('same', f, i), n['op'] == '==')
        if n['k'] == 'MCall' and short(f, i) == 'compare':
            return None
        if n['k'] in ('Bin',) and n['op'] in ('&&', '||'):
            # evaluated as a whole
            for c in n['c'][::-1]:
                v = w.eval(f, c, env, ev)
                if isinstance(v, tuple) and v and v[0] == 'cond' and n['op'] == '&&':
                    return v
        if n['k'] == 'Bin' and n['op'] in ('==', '!='):
            for x, y in (n['c'], n['c'][::-1]):
                if num(f, y) == 0 and f.n(flow.strip(f, x))['k'] == 'MCall' and short(f, flow.strip(f, x)) == 'compare':
                    return ('cond', ('same', f, i), n['op'] == '==')
        return None

    W = Walk(m, S, inline, event, value)
    called = set()
    for f in meths:
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'MCall'):
                for g in inline(f, i):
                    called.add(g.qn)
    L = Locks(m)
    for f in meths:
        if f.qn in called or f.isLambda:
            continue
        if f.kind == 'dtor':
            continue
        try:
            W.steps = 0
            ways = W.run(f)
        except TooMany:
            ctx.count('methods with too many ways')
            continue
        if f.kind == 'ctor':
            construction(ctx, m, f, ways, t)
            continue
        gives = f.params and isstring(f.params[0]['t']) and clean(f.decl.get('ret', '') or '') in ('unsigned int', 'std::uint32_t')
        for ev, ex, ret in ways:
            ctx.count('ways through the table')
            new = [e for e in ev if e[0] in ('map', 'offset', 'count') or e[0] == 'write']
            locked(ctx, m, L, f, ev, new)
            if ex == 'throw':
                pub = [e for e in ev if e[0] in ('map', 'offset', 'count')]
                if pub:
                    report(ctx, pub[0][1], pub[0][2], 'an identifier is published before an operation which may fail', 'published-early')
                continue
            if gives or new:
                oneway(ctx, m, f, ev, ret, new, t, gives)
    reading(ctx, m, rec, t)
    forever(ctx, m, rec, t)
    hashing(ctx, m, rec, t)


def inmap(f, i, t):
    """an entry of the lookup map"""
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'OpCall' and n['op'] == '[]':
        return member(f, n['c'][0]) == t['map']
    if n['k'] == 'MCall' and short(f, i) == 'at':
        return member(f, n['c'][0]) == t['map']
    if n['k'] == 'Mem' and n['n'] == 'second' and n.get('c'):
        return any(f.n(x)['k'] == 'Ref' and 'iterator' in f.typ(x) for x in f.walk(n['c'][0]))
    if n['k'] == 'Ref' and n.get('d'):
        j = flow.init_of(f, n['d'])
        return j is not None and j >= 0 and inmap(f, j, t)
    return member(f, i) == t['map']


def num(f, i):
    i = flow.strip(f, i)
    n = f.n(i)
    if n.get('cv') is not None and re.fullmatch(r'-?\d+', str(n['cv'])):
        return int(n['cv'])
    return int(n['v']) if n['k'] == 'Int' else None


def oneway(ctx, m, f, ev, ret, new, t, gives):
    if not new:
        if not gives:
            return
        # an existing identifier
        same = [e for e in ev if e[0] == 'branch' and e[1][0] == 'same']
        if isinstance(ret, tuple) and ret and ret[0] == 'c':
            report(ctx, f, None, 'the next free identifier is returned without storing the string', 'unstored')
        elif not any(e[2] for e in same) and not algorithmic(m, f):
            report(ctx, f, None, 'an identifier is returned although the text stored under it was not found equal to the text asked for', 'uncompared')
        return
    same = [e for e in ev if e[0] == 'branch' and e[1][0] == 'same']
    for what, label in (('map', 'entered into the lookup map'), ('offset', 'added to the list of offsets')):
        k = [e for e in ev if e[0] == what]
        if len(k) != 1:
            g, i = (k[1][1], k[1][2]) if k else (f, None)
            report(ctx, g, i, 'a new string is %s %s' % (label, 'more than once' if k else 'on no account: it gets another identifier next time' if what == 'map' else 'on no account'), 'missing-' + what if not k else 'twice-' + what)
    if t['count']:
        k = [e for e in ev if e[0] == 'count']
        if len(k) != 1:
            report(ctx, f, k[1][2] if len(k) > 1 and k[1][1] is f else None, 'storing a new string advances the number of strings %s' % ('more than once' if k else 'not at all'), 'count')
    for e in ev:
        if e[0] in ('badcount', 'setcount'):
            report(ctx, e[1], e[2], 'the number of strings is set to something else than the number of strings stored', 'count-set')
        if e[0] == 'map' and e[3] is not None and e[3] != ('c', 0):
            report(ctx, e[1], e[2], 'the identifier entered into the lookup map is not the number of strings stored before', 'map-value')
    if gives and isinstance(ret, tuple) and ret and ret[0] in ('c', 'k') and ret != ('c', 0):
        report(ctx, f, None, 'the identifier returned for a new string is not the number of strings stored before', 'returned-value')
    # files before memory
    ws = [k for k, e in enumerate(ev) if e[0] == 'write']
    ps = [k for k, e in enumerate(ev) if e[0] in ('map', 'offset', 'count')]
    for s in (t['data'], t['index']):
        mine = [k for k in ws if ev[k][3] == s]
        if not mine:
            report(ctx, f, None, 'a new string is given an identifier without being written to %s' % s, 'unwritten:' + s)
            continue
        fl = [k for k, e in enumerate(ev) if e[0] == 'flush' and e[3] == s and k > mine[-1]]
        if not fl:
            report(ctx, ev[mine[-1]][1], ev[mine[-1]][2], '%s is not flushed before the identifier is given out' % s, 'unflushed:' + s)
        elif not tested(ev[fl[-1]][1], ev[fl[-1]][2], t):
            report(ctx, ev[fl[-1]][1], ev[fl[-1]][2], 'the identifier is given out even if %s could not be written' % s, 'unchecked:' + s)
    # offset: length of the file before writing
    dw = [k for k in ws if ev[k][3] == t['data']]
    tl = [k for k, e in enumerate(ev) if e[0] == 'tell' and e[3] == t['data']]
    if dw and tl:
        before = [k for k in tl if k < dw[0]]
        if not before:
            report(ctx, ev[tl[0]][1], ev[tl[0]][2], 'the offset of a string is taken after its text was written', 'offset-late')
        else:
            sk = [k for k, e in enumerate(ev) if e[0] in ('seek', 'seekend') and e[3] == t['data'] and k < before[-1]]
            if not sk or ev[sk[-1]][0] != 'seekend':
                report(ctx, ev[before[-1]][1], ev[before[-1]][2], 'the offset of a string is not taken at the end of the file', 'offset-place')
    if dw:
        marks = [k for k in dw if ev[k][4] == 'mark']
        texts = [k for k in dw if ev[k][4] == 'text']
        if len(texts) != 1:
            report(ctx, f, None, 'the text of a new string is written %d times' % len(texts), 'text-writes')
        elif not marks or marks[0] < texts[0]:
            report(ctx, ev[texts[0]][1], ev[texts[0]][2], 'the text of a new string is written without the mark at which reading stops', 'text-mark')
    # not while an equal string is known
    for k, e in enumerate(ev):
        if e[0] == 'branch' and e[1][0] == 'same' and e[2] and not any(x[0] == 'set' for x in ev[k:]):
            report(ctx, e[1][1], e[1][2], 'a string found to be stored already is stored again', 'stored-again')
            break


def algorithmic(m, f):
    """the comparison is left to a library algorithm"""
    return any(f.n(i)['k'] == 'Lambda' for i in f.all())


def tested(f, i, t):
    """the outcome of a flush, or the state of the stream afterwards, decides a branch"""
    p = f.parent
    j = p[i]
    while j >= 0 and f.n(j)['k'] in ('Cast', 'Un', 'OpCall', 'MCall', 'Bin', 'Paren'):
        n = f.n(j)
        if n['k'] in ('Un', 'OpCall') and n['op'] == '!' or n['k'] == 'MCall' and short(f, j) in ('operator bool', 'fail', 'good', 'bad', 'operator!'):
            return True
        j = p[j]
    s = stream(f, i, t)
    a = f.cfg.point(i)
    if a is None:
        return False
    after = f.cfg.reach(a)
    for k in f.all():
        n = f.n(k)
        if f.cfg.point(k) in after and (n['k'] == 'MCall' and short(f, k) in ('operator bool', 'fail', 'good', 'bad') or n['k'] == 'OpCall' and n['op'] == '!' or n['k'] == 'MCall' and 'operator' in short(f, k)):
            if stream(f, k, t) == s:
                return True
    return False


def locked(ctx, m, L, f, ev, new):
    acts = [e for e in ev if e[0] in ('lookup', 'map', 'offset', 'count', 'write', 'seek', 'seekend', 'read', 'tell')]
    for e in acts:
        ctx.count('accesses')
        if not L.held(e[1], e[2]):
            report(ctx, e[1], e[2], 'the table is used without its lock', 'unlocked:%s' % e[0])
            return
    look = [k for k, e in enumerate(ev) if e[0] == 'lookup']
    last = [k for k, e in enumerate(ev) if e[0] in ('map', 'offset', 'count')]
    if look and last:
        for k in range(look[0], last[-1]):
            if ev[k][0] == 'unlock':
                report(ctx, ev[k][1], ev[k][2], 'the lock is released between the lookup of a string and the publication of its identifier: another thread may store the same string', 'lock-gap')
                return
    elif last and not look:
        report(ctx, f, None, 'a string is stored without having been looked up', 'no-lookup')


def construction(ctx, m, f, ways, t):
    seq = set()
    for ev, ex, ret in ways:
        if ex != 'return':
            continue
        reads = [e for e in ev if e[0] == 'read']
        maps = [e for e in ev if e[0] == 'map']
        offs = [e for e in ev if e[0] == 'offset']
        if not reads and not maps and not offs:
            continue
        ctx.count('ways through the table')
        if len(maps) != 1 or len(offs) != 1:
            report(ctx, f, (maps + offs or reads)[0][2], 'an index entry read back is not entered exactly once into the lookup map and the list of offsets', 'restore-once')
            continue
        v = maps[0][3]
        if v is not None and v not in (('k', 0), ('c', 0)):
            report(ctx, f, maps[0][2], 'the identifier of the first index entry is not zero', 'restore-zero')
        seq.add(tuple(role(f, e[4], t) for e in reads))
    wr = set()
    for g in t['methods']:
        ws = [i for i in g.all() if g.n(i)['k'] == 'MCall' and stream(g, i, t) == t['index'] and written(g, i) == 'number']
        if ws:
            ws.sort(key=lambda i: order(g, i))
            wr.add(tuple(role(g, addressed(g, g.args(i)[0]), t) for i in ws))
            total = [width(g, i) for i in ws]
            if all(x is not None for x in total):
                divisor(ctx, f, sum(total))
    if len(seq) == 1 and len(wr) == 1:
        a, b = seq.pop(), wr.pop()
        ctx.count('index layouts')
        if None not in a and None not in b and a != b:
            report(ctx, f, None, 'the index is written as (%s) but read back as (%s)' % (', '.join(b), ', '.join(a)), 'layout')


def order(g, i):
    return (g.n(i).get('l', 0), i)


def width(f, i):
    a = f.args(i)
    return num(f, a[1]) if len(a) == 2 else None


def divisor(ctx, f, total):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Bin' and n['op'] == '/' or n['k'] == 'OpCall' and n['op'] == '/':
            if any(f.n(x)['k'] == 'MCall' and short(f, x) in ('tellg', 'tellp') for x in f.walk(n['c'][0])):
                v = num(f, n['c'][1])
                if v is not None:
                    ctx.count('entry sizes')
                    if v != total:
                        report(ctx, f, i, 'the number of strings is computed for entries of %d bytes, but %d bytes are written for each' % (v, total), 'entry-size')


def role(f, d, t):
    """what a variable of an index entry is used for"""
    got = set()
    if d is None:
        return None
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'OpCall' and n['op'] == '[]' and member(f, n['c'][0]) == t['map'] and any(f.n(x).get('d') == d for x in f.walk(n['c'][1])):
            got.add('hash')
        elif n['k'] == 'MCall' and short(f, i) in ('push_back', 'emplace_back') and member(f, n['c'][0]) == t['offsets'] and any(f.n(x).get('d') == d for x in f.walk(f.args(i)[0])):
            got.add('offset')
    return got.pop() if len(got) == 1 else None


def reading(ctx, m, rec, t):
    """the text of an identifier is read at the offset of this identifier, and kept under this identifier"""
    for f in t['methods']:
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'MCall' and stream(f, i, t) == t['data'] and short(f, i) in ('seekg', 'seekp') and not toend(f, i):
                ctx.count('reads of texts')
                a = f.args(i)[0]
                src = value_of(f, a)
                if src is None:
                    continue
                if f.n(src)['k'] == 'OpCall' and f.n(src)['op'] == '[]' or f.n(src)['k'] == 'MCall' and short(f, src) == 'at':
                    ix = flow.strip(f, f.n(src)['c'][1] if f.n(src)['k'] == 'OpCall' else f.args(src)[0])
                    if f.n(ix)['k'] == 'Ref':
                        continue
                    if f.n(ix)['k'] == 'Bin':
                        report(ctx, f, i, 'the text is read at the offset of another identifier', 'read-offset')
            if n['k'] == 'MCall' and short(f, i) == 'put' and len(f.args(i)) == 2 and n.get('c') and member(f, n['c'][0]) and member(f, n['c'][0]) not in t['streams']:
                ctx.count('texts kept')
                k = flow.strip(f, f.args(i)[0])
                if f.n(k)['k'] != 'Ref':
                    report(ctx, f, i, 'a text is kept under something else than its identifier', 'cache-key')
    everyone(ctx, m, t)
    # terminated by the mark at which reading stops
    marks, stops, cut = set(), set(), None
    for f in t['methods']:
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'OpCall' and n['op'] == '<<' and stream(f, i, t) == t['data'] and written(f, i) == 'mark':
                a = f.n(flow.strip(f, n['c'][1]))
                if a['k'] == 'Char':
                    marks.add(int(a['v']))
            if n['k'] == 'OpCall' and n['op'] == '<<' and stream(f, i, t) == t['data'] and written(f, i) == 'text' and textof(f, flow.strip(f, n['c'][1])) == 'chars':
                cut = (f, i)
            if n['k'] == 'Call' and short(f, i) == 'getline' and f.args(i) and member(f, f.args(i)[0]) == t['data']:
                a = f.args(i)
                stops.add(int(f.n(flow.strip(f, a[2]))['v']) if len(a) > 2 and f.n(flow.strip(f, a[2]))['k'] == 'Char' else 10)
                whole = (f, i)
    if marks and stops:
        ctx.count('marks')
        if marks != stops:
            report(ctx, whole[0], whole[1], 'texts end with the mark %s but are read up to %s' % (sorted(marks), sorted(stops)), 'mark')
        else:
            # a text which contains the mark
            if not any(refuses(f, t) for f in t['methods']):
                g, j = cut or whole
                report(ctx, g, j, 'a text which contains the mark at which reading stops is stored in part: it is not found again and gets a new identifier each time', 'embedded-mark')


def everyone(ctx, m, t):
    """the text of every identifier the table has is read: conditions on the way to the read which compare the identifier with the
    number of strings hold for every identifier below it; the loop which restores the table runs over every entry"""
    reads = {}
    for f in t['methods']:
        if f.rawcfg is not None:
            reads[f.id] = [i for i in f.all() if f.n(i)['k'] == 'Call' and short(f, i) == 'getline' and f.args(i) and member(f, f.args(i)[0]) == t['data']]
    direct = {f for f in reads if reads[f]}
    for f in t['methods']:
        if f.rawcfg is not None and f.id not in direct:
            reads[f.id] = [i for i in f.all() if f.n(i)['k'] == 'MCall' and f.n(i).get('f') in direct]
    for f in t['methods']:
        pts = [f.cfg.point(i) for i in reads.get(f.id, ())]
        pts = [p for p in pts if p is not None]
        if not pts:
            continue
        ids = {v['d'] for v in f.params if re.match(r'^(const )?(unsigned int|std::uint32_t|uint32_t|unsigned long|int)\b[ &]*$', v['t'])}
        ctx.count('ways to read texts')
        for size in (1, 2, 3, 1025, 100000):
            bad = None
            for k in sorted({0, 1, size // 2, size - 1}):
                if k >= size:
                    continue
                if not reaches(f, pts, ids, k, size, t):
                    bad = k
                    break
            if bad is not None:
                report(ctx, f, reads[f.id][0], 'the text of an identifier is never read (%d of %d strings)' % (bad, size), 'unread')
                break
    for f in t['methods']:
        if f.rawcfg is None:
            continue
        for i in f.all():
            if f.n(i)['k'] not in ('For', 'While'):
                continue
            if not any(f.n(x)['k'] == 'MCall' and short(f, x) == 'read' and stream(f, x, t) == t['index'] for x in f.walk(i)):
                continue
            c = f.n(i).get('cond', -1)
            if c is None or c < 0:
                continue
            n = f.n(flow.strip(f, c))
            if n['k'] != 'Bin' or n['op'] not in ('<', '<=', '!=', '>'):
                continue
            ctx.count('loops which restore the table')
            for o in n['c']:
                v = value_of(f, o)
                if v is not None and (num(f, v) or f.n(v)['k'] == 'Call' and short(f, v) in ('min', 'clamp') or f.n(v)['k'] == 'Bin' and f.n(v)['op'] == '-' and num(f, f.n(v)['c'][1]) and n['op'] in ('<', '!=', '>')):
                    report(ctx, f, i, 'not every entry of the index is restored', 'restore-all')


def reaches(f, pts, ids, k, size, t):
    st, seen = [f.cfg.entry], set()
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        if p in pts:
            return True
        for q, lab in f.cfg.succ[p]:
            if lab and lab[0] != 'case' and len(lab) == 2:
                v = folded(f, lab[0], ids, k, size, t)
                if v is not None and bool(v) != bool(lab[1]):
                    continue
            st.append(q)
    return False


def folded(f, i, ids, k, size, t, depth=0):
    """value of an expression over the identifier and the number of strings"""
    if i is None or i < 0 or depth > 12:
        return None
    i = flow.strip(f, i)
    n = f.n(i)
    v = num(f, i)
    if v is not None:
        return v
    if n['k'] == 'Ref' and n.get('d') in ids:
        return k
    if n['k'] == 'Ref':
        j = flow.init_of(f, n.get('d'))
        return None if j is None or j < 0 else folded(f, j, ids, k, size, t, depth + 1)
    if n['k'] == 'MCall' and short(f, i) == 'size' and member(f, n['c'][0]) == t['offsets']:
        return size
    if n['k'] == 'Mem' and t.get('count') and member(f, i) == t['count']:
        return size
    if n['k'] == 'Un' and n['op'] == '!':
        v = folded(f, n['c'][0], ids, k, size, t, depth + 1)
        return None if v is None else not v
    if n['k'] in ('Cast', 'Paren') and n.get('c'):
        return folded(f, n['c'][0], ids, k, size, t, depth + 1)
    if n['k'] == 'Bin' and not n.get('asg') and len(n['c']) == 2:
        a, b = (folded(f, x, ids, k, size, t, depth + 1) for x in n['c'])
        o = n['op']
        if o == '&&':
            return False if a is False or b is False else (bool(a) and bool(b) if a is not None and b is not None else None)
        if o == '||':
            return True if a is True or b is True else (bool(a) or bool(b) if a is not None and b is not None else None)
        if a is None or b is None:
            return None
        F = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b, '+': lambda: a + b, '-': lambda: (a - b) % (1 << 64), '%': lambda: a % b if b else None}
        return F[o]() if o in F else None
    return None


def refuses(f, t):
    return any(f.n(i)['k'] == 'MCall' and short(f, i) in ('find', 'find_first_of') and f.n(i).get('c') and isstring(f.typ(f.n(i)['c'][0])) for i in f.all())


def value_of(f, i):
    i = flow.strip(f, i)
    seen = 0
    while f.n(i)['k'] in ('Ref', 'Ctor') and seen < 8:
        seen += 1
        if f.n(i)['k'] == 'Ctor':
            if not f.n(i).get('c'):
                return None
            i = flow.strip(f, f.n(i)['c'][0])
            continue
        j = flow.init_of(f, f.n(i).get('d'))
        if j is None or j < 0:
            return None
        i = flow.strip(f, j)
    return i


def forever(ctx, m, rec, t):
    """nothing is taken away again"""
    for f in t['methods']:
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'MCall' and short(f, i) in ('erase', 'clear', 'pop_back', 'resize', 'swap', 'assign', 'extract') and n.get('c') and member(f, n['c'][0]) in (t['map'], t['offsets']):
                report(ctx, f, i, 'stored strings are forgotten', 'forgotten')
            if n['k'] == 'OpCall' and n['op'] == '=' and member(f, n['c'][0]) in (t['map'], t['offsets']):
                report(ctx, f, i, 'stored strings are replaced', 'forgotten')
        if f.kind == 'ctor':
            modes = {}
            for fi in f.inits if isinstance(f.inits, list) else []:
                x = fi.get('i', -1)
                nm = str(fi.get('field', '')).rsplit('::', 1)[-1]
                if nm in t['streams'] and x is not None and x >= 0:
                    modes[nm] = {f.n(y).get('n') for y in f.walk(x) if f.n(y)['k'] == 'Ref' and 'Openmode' in f.typ(y)} | {f.n(y).get('n') for y in f.walk(x) if f.n(y)['k'] == 'Ref' and f.n(y).get('n') in ('trunc', 'app', 'ate', 'in', 'out', 'binary')}
            for nm, ms in sorted(modes.items()):
                ctx.count('files opened')
                if 'trunc' in ms or 'out' in ms and 'in' not in ms and 'app' not in ms:
                    report(ctx, f, None, '%s is emptied when it is opened' % nm, 'truncated:' + nm)
                if 'binary' not in ms:
                    report(ctx, f, None, '%s is not opened in binary mode' % nm, 'text-mode:' + nm)


def hashing(ctx, m, rec, t):
    """the hash depends on the text alone, seeded alike in every run"""
    for f in t['methods']:
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'Call' or 'Hash' not in (f.cqn(i) or ''):
                continue
            ctx.count('hashes')
            args = f.args(i)
            text = [a for a in args if any(f.n(x)['k'] == 'Ref' and isstring(f.typ(x)) for x in f.walk(a))]
            ds = {f.n(x)['d'] for a in text for x in f.walk(a) if f.n(x)['k'] == 'Ref' and isstring(f.typ(x))}
            if len(ds) > 1:
                report(ctx, f, i, 'the hash mixes the text of one string with the length of another', 'hash-text')
            for a in text:
                if any(f.n(x)['k'] == 'Bin' or f.n(x)['k'] == 'MCall' and short(f, x) in ('substr',) or f.n(x)['k'] == 'Call' and short(f, x) in ('min', 'max') or f.n(x)['k'] == 'Cond' for x in f.walk(a)):
                    report(ctx, f, i, 'the hash covers a part of the text only', 'hash-part')
    for f in t['methods']:
        if f.kind != 'ctor':
            continue
        seeds = [k for k, p in enumerate(f.params) if not isstring(p['t']) and clean(p['t']).replace('const ', '') in ('unsigned int', 'std::uint32_t', 'int')]
        for fid in sorted(m.fn):
            g = m.fn[fid]
            if g.rawcfg is None or '/test/' in (g.file or ''):
                continue
            for i in g.all():
                q = re.sub(r'<.*', '', g.cqn(i) or '') if g.n(i)['k'] == 'Call' else ''
                made = q.endswith(('make_unique', 'make_shared')) and re.search(r'\b%s\b' % re.escape(rec.rsplit('::', 1)[-1]), clean(g.typ(i)))
                if not made and not (g.n(i)['k'] == 'New' and clean(g.typ(i)).rstrip('* ') == rec):
                    continue
                args = g.args(i) if made else g.n(i).get('c', [])
                for k in seeds:
                    if k < len(args):
                        ctx.count('seeds')
                        if not fixedvalue(m, g, args[k]):
                            report(ctx, g, i, 'the seed of the hash is not the same in every run', 'seed')


def fixedvalue(m, g, a):
    a = flow.strip(g, a)
    n = g.n(a)
    if n['k'] == 'Int' or n.get('cv') is not None:
        return True
    if n['k'] == 'Ref' and n.get('d') in m.globals:
        return bool(m.globals[n['d']].get('const'))
    return not any(g.n(x)['k'] in ('Call', 'MCall', 'New') for x in g.walk(a)) and n['k'] != 'Ref'
