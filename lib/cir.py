"""Third-party code compiled into the library: which of its functions touch mutable global state (from LLVM IR, nothing is run)."""
import os, pickle, re, subprocess, tempfile
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor
import facts
from facts import AnalysisBroken, BUILD

CFLAGS = ['-w', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-include', 'stddef.h']


def module(path, core):
    ext = '.c' if path.endswith('.c') else '.cpp'
    h = facts.sha((facts.filehash(path) + ' '.join(CFLAGS) + ''.join(facts.filehash(os.path.join(r, f)) for r, _, fs in os.walk(os.path.dirname(path)) for f in sorted(fs) if f.endswith(('.h', '.hpp')))).encode())[:20]
    out = os.path.join(BUILD, 'cache', 'ir-%s.pickle' % h)
    if os.path.exists(out):
        try:
            return pickle.load(open(out, 'rb'))
        except Exception:
            pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    ir = tempfile.mktemp(dir=BUILD, suffix='.ll')
    flags = CFLAGS
    r = subprocess.run(['clang++' if ext == '.cpp' else 'clang'] + flags + (['-std=gnu++11'] if ext == '.cpp' else []) + ['-I' + core + '/lib', path, '-o', ir], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot compile %s: %s' % (path, r.stderr[-800:]))
    text = open(ir).read()
    os.unlink(ir)
    m = parse(text)
    names = sorted(m['calls'])
    if ext == '.cpp' and names:
        d = subprocess.run(['c++filt'] + [], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        m['dem'] = {a: re.sub(r'\(.*$', '', b) for a, b in zip(names, d)}
    else:
        m['dem'] = {a: a for a in names}
    tmp = tempfile.mktemp(dir=BUILD)
    pickle.dump(m, open(tmp, 'wb'))
    os.rename(tmp, out)
    return m


def parse(text):
    glob = set()
    for mo in re.finditer(r'^@([\w.$"]+) = (.*)$', text, re.M):
        rest = mo.group(2)
        if re.search(r'\bglobal\b', rest) and not re.search(r'\bconstant\b', rest.split('global')[0]) and not rest.startswith('external') and 'thread_local' not in rest:
            glob.add(mo.group(1))
    writes, reads, calls = defaultdict(set), defaultdict(set), {}
    cur = None
    ptr = {}
    for line in text.split('\n'):
        mo = re.match(r'^define .*?@"?([\w.$]+)"?\(', line)
        if mo:
            cur = mo.group(1)
            calls[cur] = set()
            ptr = {}
            continue
        if line.startswith('}'):
            cur = None
            continue
        if cur is None:
            continue
        # pointers into globals
        mo = re.match(r'^\s*(%[\w.]+) = getelementptr [^@%]*?ptr @([\w.$]+)', line)
        if mo and mo.group(2) in glob:
            ptr[mo.group(1)] = mo.group(2)
        mo = re.match(r'^\s*(%[\w.]+) = getelementptr [^@%]*?ptr (%[\w.]+)', line)
        if mo and mo.group(2) in ptr:
            ptr[mo.group(1)] = ptr[mo.group(2)]
        mo = re.match(r'^\s*store .*, ptr (?:@([\w.$]+)|(%[\w.]+)|getelementptr \(?.*?@([\w.$]+))', line)
        if mo:
            g = mo.group(1) or mo.group(3) or ptr.get(mo.group(2))
            if g in glob:
                writes[cur].add(g)
        else:
            for g in re.findall(r'@([\w.$]+)', line):
                if g in glob:
                    reads[cur].add(g)
            for g in re.findall(r'ptr (%[\w.]+)', line):
                if g in ptr:
                    reads[cur].add(ptr[g])
        for c in re.findall(r'(?:call|invoke)\b[^@]*@"?([\w.$]+)"?\(', line):
            calls[cur].add(c)
    return {'globals': glob, 'writes': dict(writes), 'reads': dict(reads), 'calls': calls}


class Lib:
    def __init__(self, repo):
        core = os.path.join(repo, 'core')
        files = [f for f in facts.repo_cxx_files(core) if f.startswith(core + '/lib/') and f.endswith(('.c', '.cpp'))]
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda f: module(f, core), files))
        self.files = files
        self.functions = 0
        self.state = {}           # demangled function -> set of mutable globals it reaches
        for f, m in zip(files, mods):
            self.functions += len(m['calls'])
            written = set().union(*m['writes'].values()) if m['writes'] else set()
            touch = {fn: {g for g in m['writes'].get(fn, set()) | m['reads'].get(fn, set()) if g in written} for fn in m['calls']}
            ch = True
            while ch:
                ch = False
                for fn, cs in m['calls'].items():
                    for c in cs:
                        if c in touch and not touch[c] <= touch[fn]:
                            touch[fn] |= touch[c]
                            ch = True
            for fn, gs in touch.items():
                if gs:
                    self.state.setdefault(m['dem'][fn], set()).update((os.path.basename(f), g) for g in gs)
