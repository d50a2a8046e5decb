"""Builds the extractor, runs it over every C++ translation unit of the repository and merges the facts.

Facts are keyed by file contents: a translation unit is re-extracted whenever any repository file it includes, the set of
repository files, the flags or the extractor change."""
import fcntl, glob, hashlib, json, os, pickle, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('UTY_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisBroken(Exception):
    pass


def sha(b):
    return hashlib.sha1(b).hexdigest()


def filehash(p):
    try:
        with open(p, 'rb') as f:
            return sha(f.read())
    except OSError:
        return 'missing'


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_tool():
    src = os.path.join(VERIF, 'tools/cxxfacts')
    h = sha((filehash(src + '/cxxfacts.cpp') + filehash(src + '/build.sh')).encode())[:16]
    out = os.path.join(BUILD, 'cxxfacts-' + h)
    if not os.path.exists(out):
        with Lock('tool'):
            if not os.path.exists(out):
                r = subprocess.run(['bash', src + '/build.sh', out], capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisBroken('extractor build failed: ' + r.stderr[-2000:])
    return out, h


def repo_cxx_files(core):
    out = []
    for d in ('src', 'shared', 'lib'):
        for root, dirs, files in os.walk(os.path.join(core, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.hpp', '.h', '.proto', '.c', '.inl', '.tpp', '.ipp', '.cc', '.hh')):
                    out.append(os.path.join(root, f))
    return out


def build_pb(core):
    protos = [core + '/src/formats/osm/pbf/fileformat.proto', core + '/src/formats/osm/pbf/osmformat.proto']
    h = sha(''.join(filehash(p) for p in protos).encode())[:16]
    d = os.path.join(BUILD, 'pb-' + h)
    if not os.path.exists(d):
        with Lock('pb'):
            if not os.path.exists(d):
                t = tempfile.mkdtemp(dir=BUILD)
                r = subprocess.run(['protoc', '-I' + os.path.dirname(protos[0]), '--cpp_out=' + t] + protos, capture_output=True, text=True)
                if r.returncode != 0:
                    raise AnalysisBroken('protoc failed: ' + r.stderr)
                os.rename(t, d)
    return d


def flags(core, pb):
    # the flags and defines of the real build (see /opt/vp/build.sh and core/CMakeLists.txt), -std stated explicitly
    return ['-std=gnu++11', '-w', '-DNDEBUG', '-include', 'string', '-include', 'sstream', '-DPBF_SUPPORTED_ENABLED', '-DHAS_BOOST',
            '-DBOOST_SYSTEM_NO_LIB', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-I' + core + '/src', '-I' + core + '/lib', '-I' + core + '/shared', '-I' + pb]


def extract(repo=None, units=None, dirs=('src', 'shared')):
    """returns list of per-TU json objects (merged by model); units: only these translation units; dirs: functions of these are extracted"""
    repo = repo or REPO
    core = os.path.join(repo, 'core')
    tool, th = build_tool()
    pb = build_pb(core)
    files = repo_cxx_files(core)
    if not files:
        raise AnalysisBroken('no C++ sources under ' + core)
    hashes = {f: filehash(f) for f in files}
    listing = sha('\n'.join(os.path.relpath(f, repo) for f in files).encode())
    tus = [f for f in files if f.endswith('.cpp') and (f.startswith(core + '/src/') or f.startswith(core + '/shared/'))]
    if units is not None:
        tus = [t for t in tus if units(os.path.relpath(t, core))]
    fl = flags(core, pb)
    base = sha((th + listing + ' '.join(fl) + repo + (':'.join(dirs) if dirs != ('src', 'shared') else '')).encode())[:16]
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    treekey = sha((base + (''.join(tus) if units is not None else '') + ''.join(hashes[f] for f in files)).encode())[:20]
    merged = os.path.join(cache, 'merged-' + treekey + '.pickle')
    fresh = os.environ.get('UTY_FRESH')
    if os.path.exists(merged) and not fresh:
        try:
            with open(merged, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    roots = ':'.join(core + '/' + d + '/' for d in dirs)

    def one(tu):
        meta = os.path.join(cache, 'tu-' + sha((base + tu).encode())[:16])
        if not fresh and os.path.exists(meta + '.pickle') and os.path.exists(meta + '.deps'):
            try:
                deps = json.load(open(meta + '.deps'))
                if all(hashes.get(d) == h for d, h in deps.items()):
                    with open(meta + '.pickle', 'rb') as f:
                        return pickle.load(f)
            except Exception:
                pass
        out = tempfile.mktemp(dir=BUILD, suffix='.json')
        r = subprocess.run([tool, out, roots, tu, '--'] + fl, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise AnalysisBroken('cannot analyse %s: %s' % (tu, r.stderr[-1500:]))
        o = json.load(open(out))
        os.unlink(out)
        if o['errors']:
            raise AnalysisBroken('does not compile: %s: %s' % (tu, r.stderr[-1500:]))
        deps = {d: hashes[d] for d in o['deps'] if d in hashes}
        o['deps'] = sorted(deps)
        tmp = tempfile.mktemp(dir=cache)
        with open(tmp, 'wb') as f:
            pickle.dump(o, f, protocol=4)
        os.rename(tmp, meta + '.pickle')
        tmp = tempfile.mktemp(dir=cache)
        json.dump(deps, open(tmp, 'w'))
        os.rename(tmp, meta + '.deps')
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, sorted(tus, key=lambda t: -os.path.getsize(t))))
    m = {'decls': {}, 'types': {}, 'records': {}, 'enums': {}, 'globals': {}, 'functions': {}, 'tus': sorted(os.path.relpath(t, repo) for t in tus), 'repo': repo, 'files': len(files)}
    for o in sorted(objs, key=lambda o: o['main']):
        for k in ('types', 'records', 'enums', 'globals'):
            for i, v in o[k].items():
                m[k].setdefault(i, v)
        for i, v in o['decls'].items():
            old = m['decls'].get(i)
            if old is None or (v['src'] and not old['src']):
                m['decls'][i] = v
        for f in o['functions']:
            m['functions'].setdefault(f['id'], f)
    for old in glob.glob(cache + '/merged-*.pickle'):
        try:
            if time.time() - os.path.getmtime(old) > 600:
                os.unlink(old)
        except OSError:
            pass
    tmp = tempfile.mktemp(dir=cache)
    with open(tmp, 'wb') as f:
        pickle.dump(m, f, protocol=4)
    os.rename(tmp, merged)
    return m


if __name__ == '__main__':
    t = time.time()
    m = extract()
    print('tus', len(m['tus']), 'functions', len(m['functions']), 'records', len(m['records']), 'types', len(m['types']), 'decls', len(m['decls']), 'time %.1f' % (time.time() - t))
