# Numbers in text exchanged with files, servers and configuration do not depend on the user's culture.
import csflow

LEVEL = 'other'
NUM = {'System.Double', 'System.Single', 'System.Decimal', 'System.Nullable`1<System.Double>', 'System.Nullable`1<System.Single>'}
SHORT = {t.split('.')[-1] for t in NUM}


def check(ctx):
    cs = ctx.cs
    ctx.rule('fractional numbers are turned into text, and read from text, with an explicit culture, except in text made for people only: traces, messages of exceptions, descriptions of objects which are not put into other text')
    S = Text(ctx, cs)
    S.descriptions()
    for key in sorted(cs.methods):
        x = cs.methods[key]
        if not x.il:
            continue
        ctx.count('methods looked through')
        for i in x.calls():
            kind = S.sensitive(x, i)
            if kind is None:
                continue
            if kind == 'invariant':
                ctx.count('numbers formatted or parsed with a culture')
                continue
            ctx.count('numbers formatted or parsed without a culture')
            if kind == 'parse':
                ctx.violation('parse:%s' % x.short(), x.loc(i), 'the number is read the way the user\'s culture writes numbers: %s' % S.call(x, i))
            elif S.forpeople(x, i):
                ctx.count('texts made for people only')
            elif x.n == 'ToString':
                pass    # looked at where it is used
            else:
                ctx.violation('format:%s' % x.short(), x.loc(i), 'the number is written the way the user\'s culture writes numbers: %s' % S.call(x, i))
    ctx.require('methods looked through', 400)
    ctx.require('numbers formatted or parsed with a culture', 1)


class Text:
    def __init__(self, ctx, cs):
        self.ctx = ctx
        self.cs = cs
        self.tostr = set()      # types whose description contains numbers

    def call(self, x, i):
        a = x.arg(i)
        return '%s.%s' % (a['cls'].split('.')[-1], a['n'])

    def descriptions(self):
        for rep in range(3):
            for key in sorted(self.cs.methods):
                x = self.cs.methods[key]
                if x.n == 'ToString' and not x.params and x.il and any(self.sensitive(x, i) in ('format',) for i in x.calls()):
                    self.tostr.add(x.cls.id)

    def formatted(self, t):
        return t in NUM or t in self.tostr or t.split('<')[0] in self.tostr and any(z in NUM for z in t.split('<', 1)[-1].rstrip('>').split(','))

    def provider(self, x, i):
        return any('IFormatProvider' in p or 'CultureInfo' in p or 'NumberFormatInfo' in p for p in map(str, x.arg(i)['ps']))

    def culture(self, x, i):
        """the culture which is passed is the user's"""
        for j, p in enumerate(x.arg(i)['ps']):
            if 'IFormatProvider' in str(p) or 'CultureInfo' in str(p):
                k = j + (1 if x.arg(i)['this'] and x.op(i) != 'newobj' else 0)
                if k < len(x.ins[i]):
                    for o in x.origins(x.ins[i][k]):
                        if isinstance(o, tuple):
                            continue
                        if x.iscall(o) and x.arg(o)['n'] in ('get_CurrentCulture', 'get_CurrentUICulture', 'get_InstalledUICulture', 'get_CurrentInfo'):
                            return 'user'
                        if x.op(o) == 'ldnull':
                            return 'user'
        return 'set'

    def boxed(self, x, pr, depth=0):
        """types of the numbers among the boxed values"""
        out = set()
        for o in x.origins(pr):
            if isinstance(o, tuple):
                continue
            op, a = x.op(o), x.arg(o)
            if op == 'box':
                t = a if isinstance(a, str) else (a or {}).get('t', str(a))
                if self.formatted(t):
                    out.add(t)
            elif op == 'newarr' and depth < 3:
                for j in range(o, len(x.il)):
                    if x.op(j).startswith('stelem') and x.ins[j] and o in x.origins(x.ins[j][0]):
                        out |= self.boxed(x, x.ins[j][2], depth + 1)
            elif op in ('ldfld', 'ldsfld') and self.formatted(a['t']):
                out.add(a['t'])
            elif x.iscall(o) and self.formatted(self.result(x, o)):
                out.add(self.result(x, o))
            elif op.startswith('ldarg') and x.argument(o) is not None and 0 <= x.argument(o) < len(x.params) and self.formatted(x.params[x.argument(o)]['t']):
                out.add(x.params[x.argument(o)]['t'])
        return out

    def anything(self, x, pr):
        """an object which may be a number: it is kept in a collection of objects numbers are put into"""
        for o in x.origins(pr):
            if isinstance(o, tuple):
                continue
            a = x.arg(o)
            t = ''
            if x.iscall(o) and x.op(o) != 'newobj' and a['n'] in ('get_Item', 'get_Value', 'get_Current'):
                f = next((q for q in csflow.chain(x, x.ins[o][0]) if x.op(q) in ('ldfld', 'ldsfld')), None)
                t = x.arg(f)['t'] if f is not None else str(a.get('on') or '')
            elif x.op(o) in ('ldfld', 'ldsfld'):
                t = '<' + a['t'] + '>'
            if t.endswith('System.Object>') and self.holdsnumbers(x.cls, x.asm):
                return True
        return False

    def holdsnumbers(self, t, asm):
        """values of any type are boxed by the class to be kept"""
        for y in t.methods:
            for j in range(len(y.il)):
                b = y.arg(j)['t'] if y.op(j) == 'box' and isinstance(y.arg(j), dict) else None
                if b is not None and (b in NUM or '.' not in b):
                    return True
        return False

    def result(self, x, o):
        """the type a call gives"""
        a = x.arg(o)
        t = str(a['ret'] if x.op(o) != 'newobj' else a['cls'])
        if t.startswith('!'):
            ga = a.get('ga') or [] if t.startswith('!!') else self.generic(a.get('on') or '')
            k = t.lstrip('!')
            if k.isdigit() and int(k) < len(ga):
                return str(ga[int(k)])
        return t

    def generic(self, t):
        if '<' not in t:
            return []
        out, depth, cur = [], 0, ''
        for ch in t[t.index('<') + 1:t.rindex('>')]:
            depth += (ch == '<') - (ch == '>')
            if ch == ',' and depth == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        return out + [cur]

    def sensitive(self, x, i):
        a = x.arg(i)
        n, cls = a['n'], a['cls']
        on = a.get('on') or cls
        if cls in NUM and n in ('Parse', 'TryParse'):
            if self.provider(x, i):
                return 'parse' if self.culture(x, i) == 'user' else 'invariant'
            return 'parse'
        if cls == 'System.Convert' and n in ('ToDouble', 'ToSingle', 'ToDecimal') and any(str(p) == 'System.String' for p in a['ps']):
            if self.provider(x, i):
                return 'parse' if self.culture(x, i) == 'user' else 'invariant'
            return 'parse'
        got = None
        if n == 'ToString' and a['this'] and (cls in NUM or self.constrained(x, i) in NUM):
            got = True
        elif n == 'ToString' and (self.formatted(cls) or self.formatted(on) or self.formatted(self.constrained(x, i) or '')):
            got = True
        elif cls == 'System.Convert' and n == 'ToString' and any(str(p) in NUM for p in a['ps']):
            got = True
        elif cls == 'System.String' and n in ('Format', 'Concat', 'Join') or n == 'AppendFormat' or n in ('Write', 'WriteLine', 'Append', 'Insert') and (cls.startswith('System.IO.') or 'StringBuilder' in cls):
            if cls.endswith('BinaryWriter'):
                return None
            if any(str(p) in NUM for p in a['ps']) or any(self.boxed(x, q) for q in x.ins[i]):
                got = True
        elif cls == 'System.Object' and n == 'ToString' and x.ins[i] and (self.boxed(x, x.ins[i][0]) or self.anything(x, x.ins[i][0])):
            got = True
        elif cls == 'System.Convert' and n == 'ToString' and x.ins[i] and str(a['ps'][0]) == 'System.Object' and (self.boxed(x, x.ins[i][0]) or self.anything(x, x.ins[i][0])):
            got = True
        if not got:
            return None
        if self.provider(x, i):
            # a description made by a type of its own does not know of the culture
            if any(t not in NUM for q in x.ins[i] for t in self.boxed(x, q)):
                return 'format'
            return 'format' if self.culture(x, i) == 'user' else 'invariant'
        return 'format'

    def constrained(self, x, i):
        if i and x.op(i - 1) == 'constrained.':
            a = x.arg(i - 1)
            return a if isinstance(a, str) else (a or {}).get('t')
        return None

    def users(self, x, i):
        """calls the value is handed to, through locals and arrays"""
        out, seen, st = set(), set(), [i]
        while st:
            o = st.pop()
            if o in seen:
                continue
            seen.add(o)
            for j in range(len(x.il)):
                for k, pr in enumerate(x.ins[j] or ()):
                    if o not in pr and not (o in x.origins(pr)):
                        continue
                    op = x.op(j)
                    if op in ('dup', 'box', 'castclass', 'isinst') or op.startswith('stloc'):
                        st.append(j)
                    elif op.startswith('stelem') and k == 2:
                        st += [q for q in x.origins(x.ins[j][0]) if not isinstance(q, tuple)]
                    elif x.iscall(j):
                        c = x.arg(j)
                        if c['cls'] == 'System.String' or c['cls'].endswith('StringBuilder'):
                            st.append(j)
                            if c['cls'].endswith('StringBuilder') and k > 0:
                                st += [q for q in x.origins(x.ins[j][0]) if not isinstance(q, tuple)]
                        else:
                            out.add(j)
                    elif op in ('pop', 'brfalse', 'brtrue', 'newarr', 'ldelem.ref') or op.startswith('ldloc'):
                        pass
                    elif op == 'ret' or op in ('stfld', 'stsfld', 'throw'):
                        out.add(j)
        return out

    def forpeople(self, x, i):
        us = self.users(x, i)
        if not us:
            return False
        for j in us:
            a = x.arg(j)
            if x.iscall(j) and (a['cls'].endswith('Trace') or 'Exception' in a['cls'] or a['cls'].startswith('UnityEngine') or a['cls'].endswith('Debug') or a['cls'] == 'System.Console'):
                continue
            if x.op(j) == 'throw':
                continue
            return False
        return True
