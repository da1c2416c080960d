"""Exports the resolved program of /repo's current working tree (clang 18 front end) and loads it."""
import glob, hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
JAVA = '/usr/lib/jvm/java-17-openjdk-amd64/include'
JNI = 'android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp'


class AnalysisBroken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def overlay():
    """simdjson 3.6.4 (installed) lacks escaped_key(), which later releases have; declare it, so that code using it
    (raw, still escaped keys) parses and is judged instead of failing to parse."""
    src = '/usr/include/simdjson.h'
    data = open(src, encoding='utf-8', errors='surrogateescape').read()
    d = os.path.join(BUILD, 'overlay')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'simdjson.h')
    a = 'simdjson_inline simdjson_warn_unused simdjson_result<std::string_view> unescaped_key(bool allow_replacement) noexcept;'
    b = 'simdjson_inline simdjson_result<std::string_view> unescaped_key(bool allow_replacement = false) noexcept;'
    if ' escaped_key(' not in data:
        data = data.replace(a, a + ' std::string_view escaped_key() const noexcept;')
        data = data.replace(b, b + ' simdjson_result<std::string_view> escaped_key() noexcept;')
    data = '#pragma GCC system_header\n#line 1 "simdjson.h"\n' + data
    if not os.path.exists(out) or open(out, encoding='utf-8', errors='surrogateescape').read() != data:
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write(data)
        os.replace(tmp, out)
    return d


def sources(repo):
    return sorted(glob.glob(os.path.join(repo, 'src', '*.cpp')))


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def export(repo=None, want_jni=True):
    repo = repo or REPO
    r = sh(['bash', os.path.join(VERIF, 'tools', 'build_exporter.sh')])
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the exporter: ' + r.stderr[-2000:])
    units = sources(repo)
    if not units:
        raise AnalysisBroken('no sources under %s/src' % repo)
    jni = os.path.join(repo, JNI)
    if want_jni and os.path.exists(jni):
        units.append(jni)
    deps = sorted(glob.glob(os.path.join(repo, 'include', '**', '*.h'), recursive=True)) + \
        sorted(glob.glob(os.path.join(repo, 'src', '*.h'))) + [os.path.join(VERIF, 'exporter', 'exporter.cpp'),
                                                               os.path.abspath(__file__)]
    key = tree_hash(deps)
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    rdir = sh(['clang++-18', '-print-resource-dir']).stdout.strip()
    ov = overlay()

    used = set()

    def one(u):
        h = hashlib.sha256((key + u).encode())
        with open(u, 'rb') as fh:
            h.update(fh.read())
        out = os.path.join(cdir, h.hexdigest()[:24] + '.' + os.path.basename(u) + '.json')
        used.add(os.path.basename(out))
        if os.path.exists(out):
            return u, out, ''
        tmp = out + '.%d' % os.getpid()
        flags = ['-std=c++17', '-resource-dir', rdir, '-I' + ov, '-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src'),
                 '-w', '-ferror-limit=5']
        if u == jni:
            flags += ['-I' + JAVA, '-I' + JAVA + '/linux']
        r = sh([os.path.join(BUILD, 'exporter'), '--root', os.path.join(repo, 'src'), '--root', os.path.join(repo, 'include'),
                '--root', os.path.join(repo, 'android'), '--out', tmp, u, '--'] + flags)
        if r.returncode != 0 or not os.path.exists(tmp):
            return u, None, r.stderr[-3000:]
        os.replace(tmp, out)
        return u, out, ''
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, units))
    for u, out, err in res:
        if out is None:
            raise AnalysisBroken('cannot parse %s: %s' % (u, err))
    # keep the cache small
    try:
        olds = [(os.stat(f).st_mtime, f) for f in glob.glob(os.path.join(cdir, '*.json'))]
    except OSError:
        olds = []
    for _, f in sorted(olds)[:-800]:
        if os.path.basename(f) not in used:
            try:
                os.unlink(f)
            except OSError:
                pass
    return [(u, out) for u, out, _ in res]


class Unit:
    pass


class Program:
    """functions by USR; every function/type/global node of one unit refers to that unit's type table (fn['u'])."""

    def __init__(self, repo=None, want_jni=True):
        self.repo = repo or REPO
        self.units = []
        self.functions = {}
        self.classes = {}
        self.globals = {}
        self.enums = {}
        self.unsupported = {}
        for path, out in export(self.repo, want_jni):
            d = json.load(open(out))
            u = Unit()
            u.path = os.path.relpath(path, self.repo)
            u.types = d['types']
            u.n = len(self.units)
            self.units.append(u)
            for f in d['functions']:
                f['unit'] = u
                f['file'] = os.path.relpath(os.path.normpath(f['file']), self.repo)
                key = f['usr']
                if f.get('internal'):
                    key = key + '@' + u.path
                    f['usr_key'] = key
                if key not in self.functions:
                    self.functions[key] = f
            for c in d['classes']:
                c['unit'] = u
                c['file'] = os.path.relpath(os.path.normpath(c['file']), self.repo)
                self.classes.setdefault(c['usr'], c)
            for g in d['globals']:
                g['unit'] = u
                g['file'] = os.path.relpath(os.path.normpath(g['file']), self.repo)
                k = g['usr'] + ('@' + u.path if not g.get('slocal') else '')
                self.globals.setdefault(k, g)
            for e in d['enums']:
                self.enums.setdefault(e['n'], e)
            for k, v in d['unsupported'].items():
                self.unsupported[k] = self.unsupported.get(k, 0) + v
        self.by_qn = {}
        for k, f in self.functions.items():
            self.by_qn.setdefault(f['qn'], []).append(f)
        self.class_by_qn = {c['qn']: c for c in self.classes.values()}
        # derived classes
        self.derived = {}
        for c in self.classes.values():
            for b in c['bases']:
                self.derived.setdefault(b, []).append(c['usr'])
        # overriders
        self.overriders = {}
        for k, f in self.functions.items():
            for o in f.get('over', []):
                self.overriders.setdefault(o, []).append(f)

    def fn(self, qn, nparams=None, required=True):
        c = [f for f in self.by_qn.get(qn, []) if f.get('body') is not None or f.get('ctor')]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if not c:
            if required:
                raise AnalysisBroken('anchor %s not found in the sources' % qn)
            return None
        return c[0]

    def cls(self, qn, required=True):
        c = self.class_by_qn.get(qn)
        if c is None and required:
            raise AnalysisBroken('anchor class %s not found in the sources' % qn)
        return c

    def lookup(self, usr, unit):
        """function definition for a callee"""
        f = self.functions.get(usr)
        if f is not None:
            return f
        return self.functions.get(usr + '@' + unit.path)

    def type(self, unit, t):
        return unit.types[t] if t is not None and t >= 0 else None

    def subclasses(self, usr):
        out = []
        for d in self.derived.get(usr, []):
            out.append(d)
            out += self.subclasses(d)
        return out


def walk(n, f):
    """pre-order over every dict node"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            f(x)
            for k, v in x.items():
                if k != 'unit' and isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            ks = [v for k, v in x.items() if k != 'unit' and isinstance(v, (dict, list))]
            st.extend(reversed(ks))
        elif isinstance(x, list):
            st.extend(reversed(x))


def parents(n):
    """id(node) -> enclosing node"""
    out = {}
    st = [(n, None)]
    while st:
        x, up = st.pop()
        if isinstance(x, dict):
            out[id(x)] = up
            for k, v in x.items():
                if k != 'unit' and isinstance(v, (dict, list)):
                    st.append((v, x))
        elif isinstance(x, list):
            for y in x:
                st.append((y, up))
    return out


if __name__ == '__main__':
    p = Program()
    for k, f in sorted(p.functions.items(), key=lambda x: (x[1]['file'], x[1]['l'])):
        print(f['file'], f['l'], f['qn'], '%s' % (f.get('usr_key', '')))
    print(p.unsupported)
    for g in p.globals.values():
        print('GLOBAL', g['file'], g['l'], g['qn'], g['const'], g.get('slocal'))
