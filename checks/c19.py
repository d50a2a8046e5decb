"""Lifetimes of what is kept in objects that outlive a request, and of what returned function objects refer to."""
import re
import flow
from escape import Escape, exported

LEVEL = 'other'


def check(ctx):
    m = ctx.m
    E = Escape(m)
    ctx.rule('what is stored in members and elements of containers that refer to something (pointers, references, function objects) of classes whose objects live as long as the library, and in globals, comes from objects which live as long: never from parameters of exported functions other than connect, locals, parameters or objects made for one request; a pointer that is only compared is not used')
    ctx.rule('a function object which is returned, alone or inside of an object, refers to no local and no value parameter of the function which made it')
    ctx.rule('a thread started by a function which refers to its locals is waited for')
    ctx.count('classes whose objects outlive requests', len(E.long))
    S = E.stores()
    for key in sorted(S, key=str):
        if key[0] == 'f':
            fl = m.field(key[1])
            if not fl or fl['rec'] not in E.long:
                continue
            name = '%s::%s' % (fl['rec'].split('::')[-1], fl['n'])
            only = identity(m, key[1])
        elif key[0] == 'g':
            name, only = 'global ' + str(m.globals.get(key[1], {}).get('n', key[1])), False
        else:
            continue
        ctx.count('places that refer to something and live on')
        done = set()
        for f, v, at, ref in S[key]:
            ctx.count('stores into them')
            bad = (E.obj if ref else E.value)(f, v)
            for loc, text in bad:
                if only:
                    ctx.count('pointers kept as identity')
                    continue
                k = '%s:%s' % (name, f.name)
                if k not in done:
                    done.add(k)
                    ctx.violation('kept:' + k, f.loc(at), '%s, which outlives the request, keeps what may refer to %s (%s)' % (name, text, loc))
    # what is returned
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        if f.rawcfg is None:
            continue
        rt = (m.decls.get(f.id) or {}).get('ret', '')
        for i in sorted(f.all()):
            n = f.n(i)
            if n['k'] != 'Return' or not n.get('c'):
                continue
            v = n['c'][0]
            t = rt or f.typ(v)
            x = m.tk(t)
            if x.get('k') in ('ref', 'ptr') and not m.isfn(t):
                if x.get('k') == 'ref' and not m.isfn(t):
                    continue
            if not function(m, E, t):
                continue
            ctx.count('returns of function objects')
            for loc, text in E.value(f, v, ('ret', f.id))[:1]:
                ctx.violation('returned:' + f.qn.split('utymap::')[-1], f.loc(i), 'the function object returned refers to %s (%s), which is gone when it is called' % (text, loc))
    threads(ctx, m, E)
    ctx.require('classes whose objects outlive requests', 20)
    ctx.require('stores into them', 10)
    ctx.require('returns of function objects', 1)


def function(m, E, t, depth=0):
    """values of the type contain function objects"""
    if m.isfn(t):
        return True
    x = m.tk(m.noref(t))
    if depth > 5:
        return False
    for a in x.get('args', []) or []:
        if isinstance(a, str) and function(m, E, a, depth + 1):
            return True
    if x.get('r') in m.records:
        return any(function(m, E, fl['t'], depth + 1) for fl in m.fields(x['r']) if m.tk(fl['t']).get('k') not in ('ref', 'ptr') or m.isfn(fl['t']))
    return False


def identity(m, fid):
    """a pointer which is never followed nor handed on"""
    fl = m.field(fid)
    if m.tk(fl['t']).get('k') != 'ptr' or m.isfn(fl['t']):
        return False
    for f in m.fn.values():
        for i in f.all():
            n = f.n(i)
            if n['k'] != 'Mem' or n['d'] != fid:
                continue
            ok = False
            for a in f.ancestors(i):
                q = f.n(a)
                if q['k'] in ('Cast', 'Paren', 'Clean', 'Mat'):
                    continue
                if q['k'] == 'Bin' and q['op'] in ('==', '!='):
                    ok = True
                elif flow.assign(f, a) is not None and flow.strip(f, q['c'][0]) == i:
                    ok = True
                break
            if not ok:
                return False
    return True


def threads(ctx, m, E):
    for f in sorted(m.fn.values(), key=lambda f: f.id):
        for i in f.all():
            n = f.n(i)
            th = n['k'] == 'Ctor' and re.search(r'(^|[ :])thread$', f.typ(i)) and n.get('c')
            asy = n['k'] == 'Call' and f.cqn(i) == 'std::async'
            if not th and not asy:
                continue
            ctx.count('threads started')
            a = [x for x in (n['c'] if th else f.args(i)) if x >= 0]
            bad = [b for x in a for b in E.value(f, x)]
            if not bad:
                continue
            waits = any(f.n(j)['k'] == 'MCall' and (f.callee(j) or {}).get('n') in ('join', 'get', 'wait') for j in f.all())
            if not waits:
                ctx.violation('thread:' + f.name, f.loc(i), 'a thread refers to %s, which may be gone while it runs' % bad[0][1])
