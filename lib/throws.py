"""Which exceptions may leave each function (interprocedural fixpoint, catch clauses resolved by type)."""
import re
from collections import defaultdict

# standard library operations that report failure by throwing (allocation failure excluded)
STD_THROW = {
    'std::stoi': 'std::invalid_argument', 'std::stol': 'std::invalid_argument', 'std::stoul': 'std::invalid_argument', 'std::stoll': 'std::invalid_argument',
    'std::stoull': 'std::invalid_argument', 'std::stof': 'std::invalid_argument', 'std::stod': 'std::invalid_argument', 'std::stold': 'std::invalid_argument',
    'std::rethrow_exception': 'std::exception', 'std::use_facet': 'std::bad_cast',
}
STD_METHOD_THROW = {('at', None): 'std::out_of_range', ('substr', 'std::basic_string'): 'std::out_of_range', ('get', 'std::future'): 'std::exception',
                    ('imbue', 'std::basic_regex'): 'std::exception', ('assign', 'std::basic_regex'): 'std::regex_error', ('replace', 'std::basic_string'): 'std::out_of_range',
                    ('exceptions', None): 'std::ios_base::failure'}
STD_CTOR_THROW = {'std::basic_regex': 'std::regex_error', 'std::thread': 'std::system_error'}


def is_std_exc(t):
    return t.startswith('std::') and re.search(r'(exception|error|_argument|out_of_range|bad_\w+|failure|length_error)$', t.split('<')[0]) is not None


class Throws:
    def __init__(self, m):
        self.m = m
        self.out = defaultdict(dict)     # fn -> {type: (node, via fn or None)}
        self._exc_bases = {}
        self.solve()

    def bases(self, t):
        """all types (incl. itself) an exception of type t can be caught as"""
        m = self.m
        t = m.deref(t)
        r = {t}
        rec = m.tk(t).get('r') or t
        if rec in m.records:
            for b in m.allbases.get(rec, ()):
                r.add(b)
            # direct library bases appear in the record's base list
            st = [rec]
            while st:
                x = st.pop()
                for b in m.records.get(x, {}).get('bases', []):
                    if b not in r:
                        r.add(b)
                        st.append(b)
        r2 = set(r)
        for x in r:
            if is_std_exc(x) or x.startswith('boost::') or x.startswith('ClipperLib::'):
                r2.add('std::exception')
        return r2

    def caught(self, f, catch, t):
        ct = f.n(catch)['ct']
        if ct == '...':
            return True
        b = self.bases(t)
        c = self.m.deref(ct)
        if c in b:
            return True
        if t == 'std::exception' and c == 'std::exception':
            return True
        return False

    def ext_throws(self, f, i):
        """exceptions a library call may raise"""
        n = f.n(i)
        d = f.callee(i)
        if not d or d.get('src'):
            return ()
        q, name = d.get('qn', ''), d.get('n', '')
        if d.get('noex'):
            return ()
        if q in STD_THROW:
            return (STD_THROW[q],)
        cls = d.get('clsn', '') or ''
        if cls.startswith('std::'):
            base = re.sub(r'::__cxx11', '', cls)
            base = base.split('<')[0]
            for (nm, c), t in STD_METHOD_THROW.items():
                if nm == name and (c is None or base == c):
                    if name == 'replace' and 'iterator' in ''.join(d.get('params', [])):
                        continue
                    return (t,)
            if d.get('kind') == 'ctor':
                for c, t in STD_CTOR_THROW.items():
                    if base == c and not d.get('copy') and not d.get('move') and not d.get('dflt'):
                        return (t,)
            return ()
        if q.startswith('boost::'):
            if d.get('kind') in ('ctor', 'conv', 'dtor') and 'filesystem' not in q:
                return ()
            if re.match(r'boost::(lexical_cast|spirit::qi::phrase_parse|spirit::qi::parse|filesystem::|get$|apply_visitor$|spirit::)', q):
                return ('boost::exception_detail::error_info_injector',)
            return ()
        if q.startswith('ClipperLib::') and d.get('kind') == 'method':
            return ('ClipperLib::clipperException',)
        return ()

    def escaping(self, f, i, t):
        """does exception t raised at node i leave f? returns catch node that stops it or None"""
        child = i
        for a in f.ancestors(i):
            n = f.n(a)
            if n['k'] == 'Try' and n['c'][0] == child:
                for c in n['c'][1:]:
                    if self.caught(f, c, t):
                        return c
            child = a
        return None

    def solve(self):
        m = self.m
        m.callgraph()
        self.local = {}
        for f in m.fn.values():
            L = []
            for i in f.all():
                n = f.n(i)
                if n['k'] == 'Throw':
                    if n.get('re'):
                        # rethrow: whatever the handler catches
                        for a in f.ancestors(i):
                            if f.n(a)['k'] == 'Catch':
                                L.append((i, f.n(a)['ct'] if f.n(a)['ct'] != '...' else 'unknown'))
                                break
                        continue
                    L.append((i, m.deref(n.get('tt', 'unknown'))))
                elif n['k'] in ('Call', 'MCall', 'OpCall', 'Ctor'):
                    for t in self.ext_throws(f, i):
                        L.append((i, t))
            self.local[f.id] = L
            for i, t in L:
                if self.escaping(f, i, t) is None and t not in self.out[f.id]:
                    self.out[f.id][t] = (i, None)
        work = list(m.fn)
        pend = set(work)
        while work:
            g = work.pop()
            pend.discard(g)
            for (fid, i) in m.callers(g):
                f = m.fn[fid]
                ch = False
                for t in list(self.out.get(g, ())):
                    if t not in self.out[fid] and self.escaping(f, i, t) is None:
                        self.out[fid][t] = (i, g)
                        ch = True
                if ch and fid not in pend:
                    pend.add(fid)
                    work.append(fid)

    def trace(self, fid, t):
        out = []
        seen = set()
        while fid and fid not in seen:
            seen.add(fid)
            i, g = self.out[fid][t]
            f = self.m.fn[fid]
            if g is None:
                out.append('%s raises %s at %s: %s' % (f.qn, t, f.loc(i), f.expr(i)[:100]))
                break
            out.append('%s at %s calls %s' % (f.qn, f.loc(i), self.m.fn[g].qn))
            fid = g
        return out

    def node_throws(self, f, i):
        """set of exception types evaluation of node i itself (not its children) may raise"""
        n = f.n(i)
        s = set(t for j, t in self.local[f.id] if j == i)
        for tg in self.m.targets(f, i):
            s |= set(self.out.get(tg, ()))
        return s
