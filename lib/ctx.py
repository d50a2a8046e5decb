"""Driver shared by every check: counts what was analysed, triages against the known-findings file, writes evidence."""
import json, os, re, sys, time, traceback
import facts
from facts import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.counts = {}
        self.rules = []
        self.samples = []
        self.viol = []
        self.assumptions = []
        self._m = None
        self._cs = None

    @property
    def m(self):
        if self._m is None:
            import model
            self._m = model.Model()
        return self._m

    @property
    def cs(self):
        if self._cs is None:
            import csmodel
            self._cs = csmodel.CsModel()
        return self._cs

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 40 and s not in self.samples:
            self.samples.append(s)

    def require(self, name, minimum):
        if self.counts.get(name, 0) < minimum:
            raise AnalysisBroken('%s: only %d instances of "%s" found, at least %d expected' % (self.pid, self.counts.get(name, 0), name, minimum))

    def violation(self, key, where, msg, detail=()):
        """key: stable identity of the failing construct (no line numbers); where: file:line"""
        for v in self.viol:
            if v['key'] == key:
                v['also'].append(where)
                return
        self.viol.append({'key': key, 'where': where, 'msg': msg, 'detail': list(detail), 'also': []})


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf8'):
            mo = re.match(r'^finding: property=(\S+) key=<<(.*?)>> (.*)$', line.rstrip('\n'))
            if mo and mo.group(1) == pid:
                out[mo.group(2)] = mo.group(3)
    return out


def run(pid, fn, level, tier, selftest=None):
    t = time.time()
    ctx = Ctx(pid, tier)
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    try:
        fn(ctx)
        if not ctx.counts:
            raise AnalysisBroken(pid + ': nothing analysed')
    except AnalysisBroken as e:
        if not [v for v in ctx.viol if v['key'] not in known(pid)]:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 3
    kn = known(pid)
    new = [v for v in ctx.viol if v['key'] not in kn]
    old = [v for v in ctx.viol if v['key'] in kn]
    cov = {'explanation': 'Static analysis of the resolved program (every C++ translation unit of core/src and core/shared and/or every method of the C# library), deciding the rules listed for every construct counted here; nothing is executed.',
           'rules': ctx.rules, 'counts': ctx.counts, 'samples': ctx.samples}
    if ctx._m:
        cov['units_analysed'] = len(ctx._m.tus)
        cov['functions_in_program'] = len(ctx._m.fn)
    if ctx._cs:
        cov['managed_methods'] = len(ctx._cs.methods)
    cov['known_findings'] = [v['key'] for v in old]
    cov['violations_found'] = [{k: v[k] for k in ('key', 'where', 'msg', 'detail', 'also')} for v in new]
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ctx.assumptions,
           'wall_s': round(time.time() - t, 2), 'violations': len(new)}
    tmp = ev + '.tmp%d' % os.getpid()
    json.dump(doc, open(tmp, 'w'), indent=1)
    os.rename(tmp, ev)
    for k, v in ctx.counts.items():
        print('analysed %s: %d' % (k, v))
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s] at %s' % (pid, kn[v['key']], v['key'], v['where']))
    if not new:
        print('OK property=%s (%.1fs)' % (pid, time.time() - t))
        return 0
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, pid + '.txt')
    with open(rp, 'w') as f:
        f.write('property %s: %d violation(s)\nre-run: cd /verif && ./check %s %s\n\n' % (pid, len(new), pid, tier))
        for v in new:
            f.write('%s\n  rule instance: %s\n  %s\n' % (v['where'], v['key'], v['msg']))
            for x in v['detail']:
                f.write('    %s\n' % x)
            if v['also']:
                f.write('  also at: %s\n' % ', '.join(v['also'][:20]))
            f.write('\n')
    for k, v in enumerate(new[:20]):
        print('%s: %s [%s]' % (v['where'], v['msg'], v['key']))
        if k < 3:
            for x in v['detail'][-6:]:
                print('    ' + x)
    if len(new) > 20:
        print('... %d more in %s' % (len(new) - 20, rp))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1
