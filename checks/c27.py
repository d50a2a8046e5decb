"""Whatever the style, evaluation, drawing and colour grammars accept is interpreted, each alternative in its own way."""
import re
import flow
from guards import Guards
from ranks import clean
from effects import Effects
from c28 import streq, const

LEVEL = 'other'

RELATION = {'=': '==', '!=': '!=', '<': '<', '>': '>', '': 'true'}
SWAP = {'<': '>', '>': '<', '==': '==', '!=': '!='}
COMMANDS = {'F': 'moveForward', 'G': 'jumpForward', '+': 'turnLeft', '-': 'turnRight', '|': 'turnAround', '^': 'pitchUp', '&': 'pitchDown', '\\': 'rollLeft', '/': 'rollRight',
            '$': 'increment', '!': 'decrement', '>': 'scaleUp', '<': 'scaleDown', '@': 'switchStyle', '[': 'save', ']': 'restore'}
OPPOSITE = [('turnLeft', 'turnRight'), ('pitchUp', 'pitchDown'), ('rollLeft', 'rollRight'), ('increment', 'decrement'), ('scaleUp', 'scaleDown')]
COMPASS = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']


def check(ctx):
    m = ctx.m
    S = Guards(m)
    ctx.rule('every comparison the condition grammar accepts selects one comparison, the one it is written as, between the value of the tag and the value of the condition, in this order')
    ctx.rule('every selector name the grammar accepts is handled by code of its own and not refused')
    ctx.rule('every drawing symbol is bound to the command of that symbol; every command has an effect on the turtle, opposite ones opposite effects; what is derived from the state is brought up to date when the state is restored')
    ctx.rule('no rule is lost because another one of the same key was stored before')
    ctx.rule('every arithmetic operator the evaluation grammar accepts is computed, or refused with an error, by each evaluator')
    ctx.rule('names in tables are unique and select different, non-empty operations; compass words stand for their angles; hexadecimal digits for their values')
    ctx.rule('a switch over a kind defined by the library treats every value of it')
    ctx.rule('each file format is read by the parser of that format')
    conditions(ctx, m, S)
    names(ctx, m, S)
    kept(ctx, m)
    evaluation(ctx, m, S)
    commands(ctx, m, S)
    tables(ctx, m, S)
    switches(ctx, m, S)
    formats(ctx, m, S)
    digits(ctx, m, S)
    ctx.require('accepted alternatives', 20)


def report(ctx, f, i, msg, key):
    ctx.violation(key, f.loc(i) if i is not None else f.loc(), msg)


# ---- what the grammars accept
def grammar(m, name):
    """constructors of a grammar"""
    return [m.fn[x] for x in sorted(m.fn) if m.fn[x].kind == 'ctor' and re.search(r'(^|::)%s(<|$)' % name, m.fn[x].cls or '')]


def spelled(m, name, tag):
    """literals the grammar matches as values: arguments of the string and character parsers"""
    out = {}
    for f in grammar(m, name):
        for i in f.all():
            n = f.n(i)
            if n['k'] == 'OpCall' and n['op'] == '()' and len(n['c']) > 1 and 'tag::' + tag in f.typ(n['c'][0]):
                a = f.n(flow.strip(f, n['c'][1]))
                if a['k'] == 'Str':
                    out.setdefault(a['v'], (f, i))
                elif a['k'] == 'Char':
                    out.setdefault(chr(int(a['v'])), (f, i))
    return out


def charset(s):
    """characters matched by char_("..."): ranges are written with a dash between two characters"""
    out = []
    k = 0
    while k < len(s):
        if k + 2 < len(s) and s[k + 1] == '-':
            out += [chr(c) for c in range(ord(s[k]), ord(s[k + 2]) + 1)]
            k += 3
        else:
            out.append(s[k])
            k += 1
    return out


# ---- deciding a function for one value
def subject(f, i):
    return f.expr(flow.strip(f, i))


def literal_atoms(m, S, f):
    """{text of the expression: {literal}} of the string comparisons of f"""
    out = {}
    for i in f.all():
        if f.n(i)['k'] in ('OpCall', 'Bin'):
            q = streq(f, i)
            if q:
                out.setdefault(subject(f, q[0]), set()).add(q[1])
    return out


def under(m, S, f, sub=None, lit=None, fixed=None):
    """CFG points of f reachable if the expression spelled sub has the value lit / fixed(node) -> constant"""
    def ok(p, q, lab):
        if not lab:
            return True
        if lab[0] == 'case':
            if fixed is None:
                return True
            term, l = lab[1], lab[2]
            v = fixed(f.n(term).get('cond', -1))
            if v is None:
                return True
            labels = [int(f.n(x)['v']) for x in f.walk(term) if f.n(x)['k'] == 'Case' and f.n(x).get('v') is not None]
            ln = f.n(l) if l is not None and l >= 0 else None
            return int(ln['v']) == v if ln is not None and ln['k'] == 'Case' else v not in labels
        if len(lab) != 2:
            return True
        a, ap = flow.normal(S, f, lab[0], lab[1])
        n = f.n(a)
        if sub is not None:
            e = streq(f, a)
            if e and subject(f, e[0]) == sub:
                return ((e[1] == lit) == e[2]) == ap
            if n['k'] == 'MCall' and (f.cqn(a) or '').endswith('::empty') and subject(f, n['c'][0]) == sub:
                return (lit == '') == ap
            if n['k'] in ('Call', 'MCall') and (f.cqn(a) or '').endswith('endsWith'):
                args = f.args(a)
                if len(args) == 2 and subject(f, args[0]) == sub:
                    s = flow.strip(f, args[1])
                    while f.n(s)['k'] == 'Ctor' and f.n(s).get('c'):
                        s = flow.strip(f, f.n(s)['c'][0])
                    if f.n(s)['k'] == 'Str':
                        return (f.n(s)['v'] == lit) == ap
        if fixed is not None and n['k'] == 'Bin' and n['op'] in ('==', '!='):
            for x, y in (n['c'], n['c'][::-1]):
                v, c = fixed(x), const(m, f, y)
                if v is not None and c is not None:
                    return ((v == c) == (n['op'] == '==')) == ap
        return True
    return f.cfg.reach(f.cfg.entry, edge_ok=ok) | {f.cfg.entry}


def at(f, i, pts):
    p = f.cfg.point(i)
    return p is not None and p in pts


def handed(m, S, f, sub, a, depth=0):
    """may f be called with the value a of its parameter spelled sub? (true unless every caller has told a apart)"""
    for k, p in enumerate(f.params):
        if p.get('n') == sub:
            break
    else:
        return True
    cs = m.callers(f.id)
    if not cs or depth > 3:
        return True
    for cid, ci in cs:
        c = m.fn[cid]
        args = c.args(ci)
        if c.n(ci).get('f') != f.id or k >= len(args) or args[k] is None or args[k] < 0 or c.rawcfg is None:
            return True
        x = subject(c, args[k])
        if at(c, ci, under(m, S, c, x, a)) and handed(m, S, c, x, a, depth + 1):
            return True
    return False


def throws_in(f, pts):
    return [i for i in f.all() if f.n(i)['k'] == 'Throw' and at(f, i, pts)]


def enums(m):
    """{enumeration of the library: {enumerator: value}}"""
    if not hasattr(m, '_c27enums'):
        m._c27enums = {n: {x['n']: int(x['v']) for x in e.get('vals', [])} for n, e in m.enums.items() if re.search(r'/core/(src|shared)/', str(e.get('file', '')))}
    return m._c27enums


def interpreters(m, S, alphabet, file):
    """(function, subject, literals compared) of the code that tells at least two of the alphabet apart"""
    out = []
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or file not in (f.file or ''):
            continue
        for s, ls in sorted(literal_atoms(m, S, f).items()):
            if len(ls & set(alphabet)) >= 2:
                out.append((f, s, ls))
    return out


def outcome(f, pts, other):
    """nodes evaluated at pts which are not evaluated for any other value: constants assigned or returned, things referred to"""
    vals = []
    for i in f.all():
        if not at(f, i, pts) or at(f, i, other):
            continue
        n = f.n(i)
        if n['k'] in ('Ref', 'Mem', 'Int', 'Char', 'Str', 'Call', 'MCall', 'Bool', 'Un', 'OpCall', 'Bin'):
            vals.append((n['k'], str(n.get('n') or n.get('v') or n.get('op') or f.cqn(i) if n['k'] not in ('Call', 'MCall') else f.cqn(i))))
    return tuple(vals)


def chain(ctx, m, S, alphabet, file, what, where):
    """each alternative is told apart: returns [(function, subject, {alternative: points})]"""
    got = []
    for f, s, ls in interpreters(m, S, alphabet, file):
        none = under(m, S, f, s, '\0no such value')
        res = {}
        thr = {a: set(throws_in(f, under(m, S, f, s, a))) for a in alphabet}
        unrelated = set.intersection(*thr.values()) if thr else set()
        for a in sorted(alphabet):
            pts = under(m, S, f, s, a)
            res[a] = pts
            ctx.count('accepted alternatives')
            if not handed(m, S, f, s, a):
                # told apart before
                continue
            rejected = (thr[a] - unrelated)
            if rejected and any(not (thr[b] - unrelated) for b in alphabet if b != a):
                gf, gi = where.get(a, (f, None))
                report(ctx, f, min(rejected), 'the %s "%s" is accepted by the grammar (%s) but refused here' % (what, a, gf.loc(gi)), key='%s-refused:%s' % (what.replace(' ', '-'), a))
            elif not (pts - none) and not rejected and a not in ('',):
                gf, gi = where.get(a, (f, None))
                report(ctx, f, None, 'the %s "%s" is accepted by the grammar (%s) but does nothing in %s' % (what, a, gf.loc(gi), f.qn), key='%s-ignored:%s' % (what.replace(' ', '-'), a))
        got.append((f, s, res, none))
    return got


# ---- comparisons in conditions
def conditions(ctx, m, S):
    ops = spelled(m, 'ConditionGrammar', 'string')
    if not ops:
        return
    alphabet = set(ops) | {''}
    for f, s, res, none in chain(ctx, m, S, alphabet, 'src/mapcss', 'comparison', ops):
        enum = {}
        for a, pts in res.items():
            vals = set()
            for i in f.all():
                n = f.n(i)
                src = None
                if n['k'] in ('Bin', 'OpCall') and n['op'] == '=':
                    src = n['c'][1]
                elif n['k'] == 'Return' and n.get('c'):
                    src = n['c'][0]
                if src is None or not at(f, i, pts):
                    continue
                for z in leaves(f, src):
                    zn = f.n(z)
                    if zn['k'] == 'Ref' and zn.get('cv') is not None and isenum(m, f.typ(z)):
                        if len(leaves(f, src)) == 1 or chosen(m, S, f, src, z, s, a):
                            vals.add((clean(f.typ(z)), int(zn['cv']), zn['n']))
            enum[a] = vals
        kinds = {t for v in enum.values() for t, _, _ in v}
        if len(kinds) != 1:
            continue
        T = kinds.pop()
        for a in sorted(alphabet):
            if len(enum[a]) > 1:
                report(ctx, f, None, 'the comparison "%s" may become any of %s' % (a, ', '.join(sorted(x[2] for x in enum[a]))), key='comparison-ambiguous:' + a)
        seen = {}
        for a in sorted(alphabet):
            for v in enum[a]:
                if v in seen and len(enum[a]) == 1:
                    report(ctx, f, None, 'the comparisons "%s" and "%s" are both taken for %s' % (seen[v], a, v[2]), key='comparison-shared:' + a)
                seen.setdefault(v, a)
        for g in matchers(m, T):
            for a in sorted(alphabet):
                if len(enum[a]) != 1:
                    continue
                v = next(iter(enum[a]))
                ctx.count('comparisons decided')
                rel = relations(m, S, g, T, v[1])
                want = RELATION.get(a)
                if want is None:
                    continue
                for r, i in rel:
                    if r is not None and r != want:
                        report(ctx, g, i, 'a condition written with "%s" is decided by %s instead of %s' % (a or 'no operator', name_of(r), name_of(want)), key='comparison-meaning:' + a)


def name_of(r):
    return {'true': 'accepting every value', 'false': 'accepting no value'}.get(r, '"%s"' % r)


def leaves(f, i):
    i = flow.strip(f, i)
    if f.n(i)['k'] == 'Cond':
        c = f.n(i)['c']
        return leaves(f, c[1]) + leaves(f, c[2])
    return [i]


def chosen(m, S, f, src, z, s, a):
    """is the arm z of the conditional src evaluated when the subject is a"""
    return at(f, z, under(m, S, f, s, a))


def isenum(m, t):
    return clean(t).replace('const ', '').rstrip('& ') in enums(m)


def matchers(m, T):
    """functions which decide a condition by its comparison"""
    out = []
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or clean(f.decl.get('ret', '') or '') != 'bool':
            continue
        if any(isenumexpr(f, i, T) for i in conds(f)):
            out.append(f)
    return out


def conds(f):
    for i in f.all():
        n = f.n(i)
        if n['k'] == 'Switch':
            yield n.get('cond', -1)
        elif n['k'] == 'Bin' and n['op'] in ('==', '!='):
            for c in n['c']:
                yield c


def isenumexpr(f, i, T):
    if i is None or i < 0:
        return False
    i = flow.strip(f, i)
    return clean(f.typ(i)).replace('const ', '').rstrip('& ') == T and f.n(i)['k'] in ('Ref', 'Mem') and f.n(i).get('cv') is None


def fixer(f, T, v):
    def fixed(x):
        if x is None or x < 0:
            return None
        x = flow.strip(f, x)
        return v if isenumexpr(f, x, T) else None
    return fixed


def istag(f, i):
    """1: taken from the tag, 2: from the condition"""
    got = set()
    for x in f.walk(i):
        n = f.n(x)
        if n['k'] == 'Ref':
            t = clean(f.typ(x))
            if re.search(r'\bTag\b', t):
                got.add(1)
            elif 'Condition' in t:
                got.add(2)
    return got.pop() if len(got) == 1 else 0


def relations(m, S, f, T, v):
    """relations which decide the result if the comparison is v"""
    pts = under(m, S, f, fixed=fixer(f, T, v))
    out = []
    for i in f.all():
        if f.n(i)['k'] != 'Return' or not f.n(i).get('c') or not at(f, i, pts):
            continue
        for z in leaves(f, f.n(i)['c'][0]):
            out.append((relation(m, S, f, z), i))
    return out


FUNCTORS = {'less': '<', 'greater': '>', 'equal_to': '==', 'not_equal_to': '!='}


def relation(m, S, f, i):
    i = flow.strip(f, i)
    n = f.n(i)
    if n['k'] == 'Bool':
        return 'true' if str(n['v']).lower() in ('1', 'true') else 'false'
    if n['k'] == 'Un' and n['op'] == '!':
        r = relation(m, S, f, n['c'][0])
        return {'==': '!=', '!=': '==', 'true': 'false', 'false': 'true'}.get(r)
    if n['k'] in ('Bin', 'OpCall') and n['op'] in ('==', '!=', '<', '>') and len(n['c']) == 2:
        a, b = istag(f, n['c'][0]), istag(f, n['c'][1])
        if {a, b} == {1, 2}:
            return n['op'] if a == 1 else SWAP[n['op']]
        return None
    if n['k'] in ('Call', 'MCall'):
        rel = None
        for a in f.args(i):
            mo = re.match(r'(?:std::)?(\w+)<', clean(f.typ(a)).replace('const ', ''))
            if mo and mo.group(1) in FUNCTORS:
                rel = FUNCTORS[mo.group(1)]
        side = [istag(f, a) for a in f.args(i)]
        order = [x for x in side if x]
        if rel is None or sorted(order) != [1, 2]:
            return None
        turn = order == [2, 1]
        for g in m.targets(f, i):
            o = applied(m, m.fn[g] if not hasattr(g, 'all') else g)
            if o is None:
                return None
            if o:
                turn = not turn
        return SWAP[rel] if turn else rel
    return None


def applied(m, g):
    """does g apply the functor it is given to its later parameter first (None: not told)"""
    ps = [p['d'] for p in g.params]
    for i in g.all():
        n = g.n(i)
        if n['k'] == 'OpCall' and n['op'] == '()' and len(n['c']) == 3 and g.n(flow.strip(g, n['c'][0])).get('d') in ps:
            a, b = [origin(g, c, ps) for c in n['c'][1:]]
            if a is not None and b is not None and a != b:
                return a > b
    return None


def origin(g, i, ps, depth=0):
    got = set()
    for x in g.walk(i):
        n = g.n(x)
        if n['k'] == 'Ref' and n.get('d') in ps:
            got.add(ps.index(n['d']))
        elif n['k'] == 'Ref' and n.get('d') and depth < 6:
            j = flow.init_of(g, n['d'])
            if j is not None and j >= 0:
                o = origin(g, j, ps, depth + 1)
                if o is not None:
                    got.add(o)
    return got.pop() if len(got) == 1 else None


# ---- names of selectors
def names(ctx, m, S):
    ns = spelled(m, 'SelectorGrammar', 'string')
    if not ns:
        return
    for f, s, res, none in chain(ctx, m, S, set(ns), 'src/mapcss', 'selector name', ns):
        pass


def kept(ctx, m):
    """the declarations of a rule are added to those of earlier rules, not dropped because of them"""
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or 'src/mapcss' not in (f.file or ''):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'MCall' or (f.cqn(i) or '').rsplit('::', 1)[-1] not in ('emplace', 'insert', 'try_emplace'):
                continue
            t = clean(f.typ(n['c'][0])).replace('const ', '')
            if re.match(r'(std::)?(unordered_)?map<', t) and re.search(r'vector<(std::)?shared_ptr<(const )?[\w:]*StyleDeclaration', clean(f.typ(n['c'][0]))):
                ctx.count('rules stored')
                p = f.parent.get(i) if isinstance(f.parent, dict) else f.parent[i]
                if p is None or f.n(p)['k'] in ('Block', 'RFor', 'For', 'While', 'If'):
                    report(ctx, f, i, 'the declarations of a rule are dropped if there already is a rule for the same element', key='rule-dropped')


# ---- arithmetic of evaluated values
def evaluation(ctx, m, S):
    lits = spelled(m, 'EvalGrammar', 'char_')
    ops = {}
    for s, w in lits.items():
        for c in charset(s):
            ops[c] = w
    ops = {c: w for c, w in ops.items() if not c.isalnum() and c not in "'\""}
    if not ops:
        return
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or 'StyleEvaluator' not in (f.cls or ''):
            continue
        subj = set()
        for x in conds(f):
            if x >= 0 and f.n(flow.strip(f, x))['k'] == 'Mem' and clean(f.typ(flow.strip(f, x))).replace('const ', '') == 'char':
                if 'Operation' in clean(f.typ(flow.strip(f, f.n(flow.strip(f, x))['c'][0]))):
                    subj.add(subject(f, x))
        if len(subj) != 1:
            continue
        sub = subj.pop()

        def at_char(c):
            return under(m, S, f, fixed=lambda x: ord(c) if x is not None and x >= 0 and subject(f, x) == sub else None)
        none = at_char('\x01')
        ctx.count('evaluators')
        text = 'basic_string' in ' '.join(clean(p['t']) for p in f.params) or 'basic_string' in clean(f.decl.get('ret', '') or '')
        for c in sorted(ops):
            ctx.count('accepted alternatives')
            pts = at_char(c)
            eff = []
            for i in f.all():
                n = f.n(i)
                if not at(f, i, pts):
                    continue
                if n['k'] == 'Throw':
                    eff.append(('throw', i))
                elif n['k'] in ('Bin', 'OpCall') and n['op'] in ('+=', '-=', '*=', '/='):
                    eff.append((n['op'][0], i))
                elif n['k'] == 'MCall' and (f.cqn(i) or '').endswith('::append'):
                    eff.append(('+', i))
                elif n['k'] in ('Bin',) and n['op'] in ('+', '-', '*', '/') and len(n['c']) == 2:
                    eff.append((n['op'], i))
            if not eff:
                report(ctx, f, None, 'the operator "%s" is accepted by the grammar (%s) but leaves the value as it is' % (c, ops[c][0].loc(ops[c][1])), key='operator-ignored:' + c)
                continue
            kinds = {k for k, _ in eff}
            if kinds == {'throw'}:
                if not text:
                    report(ctx, f, eff[0][1], 'the operator "%s" is accepted by the grammar (%s) but refused for numbers' % (c, ops[c][0].loc(ops[c][1])), key='operator-refused:' + c)
                continue
            for k, i in eff:
                if k not in ('throw', c):
                    report(ctx, f, i, 'the operator "%s" is computed as "%s"' % (c, k), key='operator-meaning:' + c)
                    break


# ---- drawing commands
def bodies(m, f, seen=()):
    """f and the functions of its class it calls"""
    out = [f]
    if len(seen) < 4:
        for i in f.all():
            if f.n(i)['k'] in ('Call', 'MCall'):
                for g in m.targets(f, i):
                    g = m.fn[g]
                    if g.rawcfg is not None and g.cls and g not in out and g not in seen and g.qn not in [x.qn for x in out]:
                        out += [x for x in bodies(m, g, tuple(seen) + (f,)) if x.qn not in [y.qn for y in out]]
    return out


def symbolrules(m):
    """{symbol: (rule class, function, node)} of the symbol table"""
    out = {}
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.kind != 'ctor' or 'lsys' not in (f.file or ''):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('OpCall', 'MCall') and len(n.get('c', [])) >= 3:
                a = f.n(flow.strip(f, n['c'][1]))
                if a['k'] != 'Str':
                    continue
                cls = ruleclass(m, f, n['c'][2])
                if cls:
                    out.setdefault(a['v'], []).append((cls, f, i))
    return out


def ruleclass(m, f, i):
    for x in f.walk(i):
        for t in (clean(f.typ(x)),):
            mo = re.search(r'(?:shared_ptr|unique_ptr)<(?:const )?([\w:()\s]+?)>', t)
            if mo and not mo.group(1).endswith('::Rule'):
                return mo.group(1).strip()
    return None


def method(m, cls, name):
    """the definition of a method in cls or the nearest base"""
    todo = [cls]
    while todo:
        c = todo.pop(0)
        got = [m.fn[x] for x in sorted(m.fn) if m.fn[x].cls == c and m.fn[x].name == name and m.fn[x].rawcfg is not None]
        if got:
            return got[0]
        r = m.records.get(c) or {}
        for b in r.get('bases', []):
            todo.append(b)
    return None


def empty(f):
    return not any(f.n(i)['k'] not in ('Block', 'Null', 'Empty') for i in f.all())


def commands(ctx, m, S):
    table = symbolrules(m)
    if not table:
        return
    turtle = None
    bound = {}
    for s in sorted(table):
        ctx.count('accepted alternatives')
        if len({c for c, _, _ in table[s]}) > 1:
            c, f, i = table[s][1]
            report(ctx, f, i, 'the symbol "%s" is bound twice' % s, key='symbol-twice:' + s)
        cls, f, i = table[s][0]
        ap = method(m, cls, 'apply')
        if ap is None:
            continue
        called = []
        for x in ap.all():
            if ap.n(x)['k'] == 'MCall':
                called.append((ap.cqn(x) or '').split('::')[-1])
                turtle = turtle or (ap.cqn(x) or '').rsplit('::', 1)[0]
        if not called:
            report(ctx, ap, None, 'the symbol "%s" is accepted but its rule does nothing' % s, key='symbol-ignored:' + s)
            continue
        bound.setdefault(tuple(called), []).append(s)
        want = COMMANDS.get(s)
        if want and m.find1(turtle.rsplit('::', 1)[-1] + '::' + want) is not None and called != [want]:
            report(ctx, f, i, 'the symbol "%s" performs %s instead of %s' % (s, ', '.join(called), want), key='symbol-meaning:' + s)
    for c, ss in sorted(bound.items()):
        if len(ss) > 1:
            cls, f, i = table[ss[1]][0]
            report(ctx, f, i, 'the symbols "%s" perform the same command %s' % ('", "'.join(ss), c[0]), key='symbol-shared:' + c[0])
    if turtle:
        turtles(ctx, m, S, turtle, sorted({c for cs in bound for c in cs}))


def turtles(ctx, m, S, turtle, cmds):
    E = Effects(m)
    for cls in sorted(m.records):
        r = m.records[cls]
        if cls == turtle or turtle not in m.allbases.get(cls, ()) or '/test/' in (r.get('file') or ''):
            continue
        made = any(m.fn[x].rawcfg is not None and any(m.fn[x].n(i)['k'] in ('Ctor', 'TempObj', 'New') and clean(m.fn[x].typ(i)).rstrip('* ') == cls for i in m.fn[x].all()) and m.fn[x].cls != cls and cls not in m.allbases.get(m.fn[x].cls or '', ())
                   for x in sorted(m.fn) if '/test/' not in (m.fn[x].file or ''))
        if not made:
            continue
        ctx.count('turtles')
        impl = {}
        for c in cmds + ['say']:
            f = method(m, cls, c)
            if f is None:
                continue
            impl[c] = f
            if f.cls == turtle or empty(f):
                report(ctx, f, None, 'the command %s of the drawing rules has no effect on %s' % (c, cls.split('::')[-1]), key='command-ignored:' + c)
        text = {}
        for c, f in impl.items():
            text[c] = (tuple(sorted(touched(m, E, f))), shape(f))
        for a, b in OPPOSITE:
            if a in text and b in text and not empty(impl[a]) and not empty(impl[b]):
                ctx.count('opposite commands')
                if text[a][0] != text[b][0]:
                    report(ctx, impl[b], None, '%s and %s do not change the same things: %s, %s' % (a, b, ', '.join(text[a][0]), ', '.join(text[b][0])), key='opposite-state:' + a)
                elif text[a][1] == text[b][1]:
                    report(ctx, impl[b], None, '%s does the same as %s' % (b, a), key='opposite-same:' + a)
        derived(ctx, m, E, cls, turtle, impl)


def shape(f):
    """the operations of a function"""
    return tuple((f.n(i)['k'], f.n(i).get('op') or f.n(i).get('n') or f.n(i).get('v') or (f.cqn(i) if f.n(i)['k'] in ('Call', 'MCall') else '')) for i in f.all())


def touched(m, E, f):
    """members of the state a command changes (of the object itself, in f or the methods of the object it calls)"""
    out = set()
    for g in bodies(m, f):
        if not g.cls:
            continue
        for i in g.all():
            n = g.n(i)
            t = None
            if n['k'] in ('Bin', 'OpCall') and n['op'] in ('=', '+=', '-=', '*=', '/='):
                t = n['c'][0]
            elif n['k'] in ('Un', 'OpCall') and n['op'] in ('++', '--'):
                t = n['c'][0]
            elif n['k'] == 'MCall' and (g.cqn(i) or '').split('::')[-1] in ('push', 'pop', 'push_back', 'pop_back', 'emplace', 'emplace_back', 'top') and n.get('c'):
                t = n['c'][0]
            if t is None:
                continue
            t = flow.strip(g, t)
            if g.n(t)['k'] == 'Mem' and roots_this(g, t):
                out.add(g.n(t)['n'])
    return out


def roots_this(g, i):
    while True:
        i = flow.strip(g, i)
        n = g.n(i)
        if n['k'] == 'This':
            return True
        if n['k'] == 'Mem' and n.get('c'):
            i = n['c'][0]
            continue
        return False


def derived(ctx, m, E, cls, turtle, impl):
    """objects made from a part of the state are made anew wherever this part changes"""
    state = None
    # methods of the class which set members from state
    for fid in sorted(m.fn):
        g = m.fn[fid]
        if g.cls != cls or g.rawcfg is None or g.kind != 'method' or g.params:
            continue
        makes = set()
        reads = set()
        for i in g.all():
            n = g.n(i)
            if n['k'] in ('Bin', 'OpCall') and n['op'] == '=':
                t = flow.strip(g, n['c'][0])
                if g.n(t)['k'] == 'Mem' and roots_this(g, t) and g.n(flow.strip(g, (g.n(t).get('c') or [t])[0]))['k'] == 'This':
                    makes.add(g.n(t)['n'])
                    for x in g.walk(n['c'][1]):
                        if g.n(x)['k'] == 'Mem' and roots_this(g, x) and g.n(x).get('c') and g.n(flow.strip(g, g.n(x)['c'][0]))['k'] == 'Mem':
                            reads.add((g.n(flow.strip(g, g.n(x)['c'][0]))['n'], g.n(x)['n']))
        if not makes or not reads:
            continue
        users = [c for c, f in impl.items() if g.qn in [x.qn for x in bodies(m, f)]]
        if not users:
            continue
        for part in sorted(reads):
            ctx.count('derived parts')
            for c, f in sorted(impl.items()):
                if c in users or empty(f):
                    continue
                t = touched(m, E, f)
                if part[1] in t or part[0] in t and f.name == c:
                    report(ctx, f, None, 'the command %s changes %s, from which %s made %s, but these are not made anew' % (c, part[1], g.name, ', '.join(sorted(makes))), key='derived:%s:%s' % (c, part[1]))


# ---- tables of names
def tables(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if '/test/' in (f.file or '') or '/core/' not in (f.file or '') and not (f.file or '').startswith('core'):
            continue
        for i in f.all():
            if f.n(i)['k'] != 'InitList':
                continue
            t = clean(f.typ(i))
            rows = []
            for c in f.n(i).get('c', []):
                cn = f.n(flow.strip(f, c))
                if cn['k'] not in ('Ctor', 'InitList') or len(cn.get('c', [])) < 2:
                    rows = []
                    break
                k = flow.strip(f, cn['c'][0])
                while f.n(k)['k'] == 'Ctor' and f.n(k).get('c'):
                    k = flow.strip(f, f.n(k)['c'][0])
                if f.n(k)['k'] != 'Str':
                    rows = []
                    break
                rows.append((f.n(k)['v'], cn['c'][1], k))
            if len(rows) < 2:
                continue
            ctx.count('tables of names')
            seen = {}
            for k, v, kn in rows:
                ctx.count('accepted alternatives')
                if k in seen:
                    report(ctx, f, kn, 'the name "%s" occurs twice in the table: the second entry has no effect' % k, key='name-twice:%s' % k)
                seen.setdefault(k, v)
            operations(ctx, m, f, rows)
            compass(ctx, m, f, rows)


def target(m, f, v):
    """the operation a table entry stands for: created class or function"""
    v = flow.strip(f, v)
    n = f.n(v)
    if n['k'] == 'Lambda':
        g = m.fn.get(n.get('f'))
        if g is None:
            return None
        made = []
        for x in g.all():
            q = g.cqn(x) if g.n(x)['k'] == 'Call' else ''
            if q and re.sub(r'<.*', '', q).endswith(('make_unique', 'make_shared')) or g.n(x)['k'] == 'New':
                mo = re.search(r'<(?:const )?([^<>,]+(?:<[^<>]*>)?)', clean(g.typ(x))) if g.n(x)['k'] != 'New' else None
                made.append(mo.group(1).strip() if mo else clean(g.typ(x)).rstrip('* '))
        return ('class', made[0]) if len(made) == 1 else None
    for x in f.walk(v):
        xn = f.n(x)
        if xn['k'] == 'Ref' and xn.get('d') in m.fn:
            return ('fn', xn['d'])
    return None


def operations(ctx, m, f, rows):
    seen = {}
    for k, v, kn in rows:
        t = target(m, f, v)
        if t is None:
            continue
        ctx.count('named operations')
        if t in seen:
            report(ctx, f, kn, 'the names "%s" and "%s" select the same operation %s' % (seen[t], k, t[1].split('::')[-1]), key='name-shared:%s' % k)
        seen.setdefault(t, k)
        if t[0] == 'fn':
            g = m.fn[t[1]]
            if g.rawcfg is not None and empty(g):
                report(ctx, g, None, 'the operation named "%s" does nothing' % k, key='name-empty:%s' % k)
        elif k != 'none':
            for fid in sorted(m.fn):
                g = m.fn[fid]
                if g.cls == t[1] and g.name == 'build' and g.rawcfg is not None and empty(g):
                    report(ctx, g, None, 'the builder named "%s" builds nothing' % k, key='name-empty:%s' % k)


def number(f, i):
    i = flow.strip(f, i)
    n = f.n(i)
    if n.get('cv') is not None:
        try:
            return float(n['cv'])
        except ValueError:
            pass
    if n['k'] in ('Int', 'Float', 'Double', 'Real', 'Num'):
        try:
            return float(n['v'])
        except (KeyError, ValueError):
            return None
    if n['k'] in ('Cast', 'Ctor') and n.get('c'):
        return number(f, n['c'][0])
    return None


def compass(ctx, m, f, rows):
    if not {k for k, _, _ in rows} <= set(COMPASS) or len(rows) < 4:
        return
    for k, v, kn in rows:
        x = number(f, v)
        if x is not None:
            ctx.count('compass words')
            if abs(x - 22.5 * COMPASS.index(k)) >= 1:
                report(ctx, f, kn, 'the direction "%s" is taken for %g degrees' % (k, x), key='compass:' + k)


# ---- switches over kinds of the library
def switches(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or '/test/' in (f.file or ''):
            continue
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'Switch' or n.get('cond', -1) < 0:
                continue
            t = clean(f.typ(flow.strip(f, n['cond']))).replace('const ', '').rstrip('& ')
            en = enums(m).get(t)
            if not en:
                continue
            ctx.count('switches')
            labels = {int(f.n(x)['v']) for x in f.walk(i) if f.n(x)['k'] == 'Case' and f.n(x).get('v') is not None}
            if any(f.n(x)['k'] == 'Default' for x in f.walk(i)):
                continue
            for name, v in sorted(en.items()):
                if v not in labels:
                    report(ctx, f, i, 'the switch over %s treats no %s' % (t.split('::')[-1], name), key='switch:%s:%s' % (t.split('::')[-1], name))


# ---- file formats
def formats(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or '/test/' in (f.file or '') or not isenum(m, f.decl.get('ret', '') or ''):
            continue
        exts = {}
        for i in f.all():
            n = f.n(i)
            if n['k'] in ('Call', 'MCall') and (f.cqn(i) or '').endswith('endsWith'):
                a = f.args(i)
                s = flow.strip(f, a[1])
                while f.n(s)['k'] == 'Ctor' and f.n(s).get('c'):
                    s = flow.strip(f, f.n(s)['c'][0])
                if f.n(s)['k'] == 'Str':
                    exts[f.n(s)['v']] = subject(f, a[0])
        if len(exts) < 2 or len(set(exts.values())) != 1:
            continue
        T = clean(f.decl['ret']).replace('const ', '')
        sub = next(iter(exts.values()))
        for e in sorted(exts):
            pts = under(m, S, f, sub, e)
            vals = set()
            for i in f.all():
                if f.n(i)['k'] == 'Return' and f.n(i).get('c') and at(f, i, pts):
                    for z in leaves(f, f.n(i)['c'][0]):
                        if f.n(z).get('cv') is not None:
                            vals.add(int(f.n(z)['cv']))
            ctx.count('accepted alternatives')
            if len(vals) != 1:
                continue
            v = vals.pop()
            parsers(ctx, m, S, T, e, v, f)


def parsers(ctx, m, S, T, ext, v, f0):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or not any(f.n(i)['k'] == 'Switch' and T in clean(f.typ(flow.strip(f, f.n(i)['cond']))) for i in f.all() if f.n(i).get('cond', -1) is not None and f.n(i)['k'] == 'Switch' and f.n(i).get('cond', -1) >= 0):
            continue

        def fixed(x):
            return v if x is not None and x >= 0 and clean(f.typ(flow.strip(f, x))).replace('const ', '') == T and f.n(flow.strip(f, x)).get('cv') is None else None
        pts = under(m, S, f, fixed=fixed)
        used = set()
        for i in f.all():
            if f.n(i)['k'] in ('Ctor', 'MCall') and at(f, i, pts):
                t = clean(f.typ(i) if f.n(i)['k'] == 'Ctor' else f.typ(f.n(i)['c'][0]) if f.n(i).get('c') else '')
                mo = re.search(r'(\w+)Parser(<|$)', t)
                if mo:
                    used.add(mo.group(1))
        ctx.count('formats read')
        for u in sorted(used):
            if ext.lower() not in u.lower():
                report(ctx, f, None, 'a file ending in "%s" is read by the parser %sParser' % (ext, u), key='format:' + ext)


# ---- hexadecimal digits
def digits(ctx, m, S):
    for fid in sorted(m.fn):
        f = m.fn[fid]
        if f.rawcfg is None or '/test/' in (f.file or '') or len(f.params) != 1 or clean(f.params[0]['t']).replace('const ', '') != 'char':
            continue
        sw = [i for i in f.all() if f.n(i)['k'] == 'Switch']
        labels = {int(f.n(x)['v']) for i in sw for x in f.walk(i) if f.n(x)['k'] == 'Case' and f.n(x).get('v') is not None}
        if not {ord('0'), ord('9'), ord('a')} <= labels:
            continue
        d = f.params[0]['d']
        for c in '0123456789abcdefABCDEF':
            ctx.count('accepted alternatives')
            pts = under(m, S, f, fixed=lambda x: ord(c) if x is not None and x >= 0 and f.n(flow.strip(f, x)).get('d') == d else None)
            thr = throws_in(f, pts)
            rets = [i for i in f.all() if f.n(i)['k'] == 'Return' and f.n(i).get('c') and at(f, i, pts)]
            vals = [const(m, f, f.n(i)['c'][0]) for i in rets]
            if thr and not rets:
                report(ctx, f, thr[0], 'the hexadecimal digit "%s" is refused' % c, key='digit:' + c)
            elif len(vals) == 1 and vals[0] is not None and vals[0] != int(c, 16):
                report(ctx, f, rets[0], 'the hexadecimal digit "%s" is taken for %d' % (c, vals[0]), key='digit:' + c)
