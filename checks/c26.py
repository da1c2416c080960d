"""C26: the Android bridge neither leaks nor lets a C++ exception escape."""
import re
from cg import Graph, jni_functions, library_functions
from core import where
from flow import Client, Flow, exc_bases
from load import nodes

META = {'technique': 'path-sensitive typestate of pinned Java buffers, including exceptional paths', 'level': 'proof', 'min': 4,
        'note': 'Every call into the library may raise; memory exhaustion inside the bridge itself is not considered. A buffer handed to an object '
                'that releases it in its destructor is listed as undecided.',
        'explanation': 'typestate (free, pinned, released) followed on all paths of every exported bridge function'}

PIN = re.compile(r'^Get(StringUTFChars|StringChars|StringCritical|PrimitiveArrayCritical|\w+ArrayElements)$')
REL = re.compile(r'^Release(StringUTFChars|StringChars|StringCritical|PrimitiveArrayCritical|\w+ArrayElements)$')
STDTHROW = {'at': 'std::out_of_range', 'stoi': 'std::invalid_argument', 'stol': 'std::invalid_argument', 'stoll': 'std::invalid_argument',
            'stoul': 'std::invalid_argument', 'stod': 'std::invalid_argument', 'substr': 'std::out_of_range', 'value': 'std::bad_optional_access'}


def raises(n):
    if n.get('k') == 'Throw':
        return True
    if n.get('k') in ('Call', 'MCall', 'Ctor') and not n.get('noexcept'):
        fn = n.get('fn') or n.get('cls') or ''
        if fn.startswith(('std::', 'simdjson::')) and n.get('n') in STDTHROW or fn.startswith('simdjson::') or 'basic_regex' in fn:
            return True
    return False


class J(Client):
    handles = ('PIN',)

    def __init__(self, ctx, thrown, quiet, raising):
        self.raising = raising
        self.bad = {}
        self.sites = {}
        self.rel = {}
        self.unk = {}
        self.thrown = thrown
        self.lib = 0
        self.quiet = quiet

    def at(self, fr, e):
        return '%s:%s in %s' % (fr.fn.get('file', fr.unit.path), e.get('l'), fr.chain()[0])

    def want_inline(self, fl, fr, e, f):
        return f['file'].startswith('android')

    def maythrow(self, fl, fr, e, f):
        if e.get('noexcept'):
            return None
        if f is not None:
            if f['file'].startswith('android') and f.get('body') is not None:
                return None
            if f.get('defaulted') or f.get('dtor') or f.get('ctor') and f.get('body') is None and not f.get('inits'):
                return None
            if f.get('usr_key', f['usr']) not in self.raising:
                return None
            self.lib += 1
            return self.thrown
        if (e.get('fn') or '').startswith('std::') and e.get('n') in STDTHROW:
            return STDTHROW[e['n']]
        if e.get('repo'):
            cls = e.get('cls') or ''
            if e.get('k') == 'Ctor' and e.get('default'):
                return None
            if e.get('n') == 'operator=':
                return None
            self.lib += 1
            return self.thrown
        return None

    def call(self, fl, fr, st, e, name, obj, args):
        if e['k'] == 'Copy':
            return None
        n = e.get('n') or ''
        cls = e.get('cls') or ''
        env = cls.startswith('JNIEnv') or cls.startswith('_JNIEnv')
        vals = [fl.read(fr, st, e, a[1]) if a and a[0] == 'L' else a for a in args]
        if env and PIN.match(n):
            k = ('H', e['l'], n)
            self.sites[k] = self.at(fr, e)
            if st.get(k) == 'held':
                self.bad[('the buffer pinned by %s is released' % n, self.sites[k])] = 'it is pinned again in a loop before it is released'
            if fr.fn.get('cls') and any(x.get('dtor') and x.get('cls') == fr.fn['cls'] for x in fl.p.functions.values()):
                self.unk[self.sites[k]] = 'pinned by an object of type %s' % fr.fn['cls']
                return [(st.put(k, 'managed'), ('PIN', k, PIN.match(n).group(1), vals[0] if vals else None))]
            return [(st.put(k, 'held'), ('PIN', k, PIN.match(n).group(1), vals[0] if vals else None))]
        if env and REL.match(n):
            kind = REL.match(n).group(1)
            src = vals[0] if vals else None
            v = vals[1] if len(vals) > 1 else None
            w = self.at(fr, e)
            self.rel[w] = n
            if not (v and v[0] == 'PIN'):
                if v is not None and v[0] == 'N':
                    return [(st, None)]
                self.unk[w] = n
                for k in [k for k in st.d if isinstance(k, tuple) and k[0] == 'H' and st.d[k] == 'held' and PIN.match(k[2]).group(1) == kind]:
                    st = st.put(k, None)
                return [(st, None)]
            if kind != v[2]:
                self.bad[('%s releases what the matching call pinned' % n, w)] = 'the buffer was pinned by %s' % v[1][2]
            if src is not None and v[3] is not None and src != v[3]:
                self.bad[('%s releases what the matching call pinned' % n, w)] = 'it names another Java object than the one the buffer was pinned from'
            if 'Array' in kind:
                m = vals[2] if len(vals) > 2 else None
                if m and m[0] == 'K':
                    if m[1] == 1:
                        self.bad[('%s frees the buffer' % n, w)] = 'JNI_COMMIT keeps it pinned'
                        return [(st, None)]
                    if m[1] != 2:
                        self.bad[('%s does not copy back' % n, w)] = 'mode %d writes the buffer back into the Java array' % m[1]
            cur = st.get(v[1])
            if cur == 'rel':
                self.bad[('%s releases a buffer once' % n, w)] = 'on some path the buffer was already released'
            return [(st.put(v[1], 'rel'), None)]
        # handed to something that keeps it
        for a in vals:
            if a and a[0] == 'PIN' and st.get(a[1]) == 'rel':
                self.bad[('a released buffer is not used', self.at(fr, e))] = 'handed to %s after it was released' % n
        pins = [a for a in vals if a and a[0] == 'PIN']
        if e['k'] == 'Ctor' and pins:
            if 'basic_string_view' in cls:
                return [(st, pins[0])]
            c = fl.p.class_by_qn.get(cls)
            own = cls.startswith(('std::unique_ptr', 'std::shared_ptr')) or \
                c is not None and any(f.get('dtor') and f.get('cls') == cls for f in fl.p.functions.values())
            if own:
                for a in pins:
                    self.unk[self.sites.get(a[1], '?')] = 'kept by an object of type %s' % cls
                    st = st.put(a[1], 'managed')
                return [(st, None)]
        if e.get('repo') and e['k'] == 'Call' and any(x.get('dtor') and x.get('cls') == (fl.p.type(fr.unit, e.get('t')) or {}).get('cls') for x in fl.p.functions.values()) and pins:
            for a in pins:
                self.unk[self.sites.get(a[1], '?')] = 'kept by an object'
                st = st.put(a[1], 'managed')
        return None

    def value(self, fl, fr, st, e, v):
        if v and v[0] == 'PIN' and st.get(v[1]) == 'rel' and isinstance(e, dict) and e.get('k') != 'Call' and id(e) not in self.quiet:
            if e.get('k') in ('Cast', 'Sub', 'Un', 'Bin'):
                pass
        return v

    def binop(self, fl, s, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x and x[0] == 'PIN' and y and y[0] in ('N', 'K'):
                if y[0] == 'K' and y[1] != 0:
                    return None
                if op == '!=':
                    return ('B', x, True)
                if op == '==':
                    return ('B', x, False)
            if op in ('+', '-') and x and x[0] == 'PIN':
                if s.get(x[1]) == 'rel':
                    self.bad[('a released buffer is not used', self.sites.get(x[1], '?'))] = 'a position in the buffer is computed after it was released'
                return None
        return None

    def truth(self, fl, st, v):
        if v and v[0] == 'PIN':
            if st.get(v[1]) == 'held':
                return [(True, st), (False, st.put(v[1], None))]
        return [(True, st), (False, st)]

    def on_stmt(self, fl, fr, st, s):
        return st


class JF(Flow):
    """also: element reads of a released buffer"""

    def e_Sub(self, e, st, fr):
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
            if a and a[0] == 'L':
                w = s.get(a[1])
                if w and w[0] == 'PIN':
                    a = w
            if a and a[0] == 'PIN':
                if s.get(a[1]) == 'rel':
                    self.c.bad[('a released buffer is not used', self.c.at(fr, e))] = 'an element is read after the buffer was released'
                out.append((s, None))
                continue
            loc = a[1] + ('[]',) if a and a[0] == 'L' else self.pointee(a)
            out.append((s, ('L', loc) if loc is not None else None))
        return out

    def e_Un(self, e, st, fr):
        if e['op'] == '*':
            out = []
            for s, v in self.ev(e['a'], st, fr):
                if v and v[0] == 'L':
                    v = self.read(fr, s, e, v[1])
                if v and v[0] == 'PIN' and s.get(v[1]) == 'rel':
                    self.c.bad[('a released buffer is not used', self.c.at(fr, e))] = 'an element is read after the buffer was released'
                loc = self.pointee(v)
                out.append((s, ('L', loc) if loc is not None else None))
            return out
        return Flow.e_Un(self, e, st, fr)


def run(ctx):
    p = ctx.prog
    ctx.rule('each pinned buffer goes free -> pinned -> released exactly once on every path to every exit, normal or exceptional')
    ctx.rule('arrays are released with JNI_ABORT, through the Java object they were pinned from')
    ctx.rule('every exception a library call can raise is caught before the exported function ends')
    thrown = {'?'}
    for f in library_functions(p):
        for n in nodes([f.get('body')]):
            if n.get('k') == 'Throw' and n.get('a'):
                t = p.type(f['unit'], n['a'].get('t')) or {}
                c = t.get('cls') or t.get('s')
                bases = exc_bases(c) + Flow(p, Client()).repo_bases(c)
                if 'std::exception' not in bases:
                    thrown.add(c)
    g = Graph(p)
    direct = {f.get('usr_key', f['usr']) for f in p.functions.values() if any(raises(n) for n in nodes([f.get('body'), f.get('inits')]))}
    raising = {k for k in g.e if g.reach([k]) & direct}
    ctx.did('library functions that may raise', '%d of %d' % (len(raising), len(g.e)))
    fs = [f for f in jni_functions(p) if f.get('body') is not None]
    roots = [f for f in fs if f['qn'].startswith(('Java_', 'JNI_On')) and not f.get('cls')]
    for f in roots:
        quiet = set()
        c = J(ctx, thrown, quiet, raising)
        fl = JF(p, c)
        o = fl.run(f)
        ctx.did('bridge functions', f['qn'])
        held = {}
        for st, v in o.ret:
            for k, x in st.d.items():
                if isinstance(k, tuple) and k[0] == 'H' and x == 'held':
                    held[k] = 'a path returns without releasing it'
        for st, x in o.throw:
            for k, y in st.d.items():
                if isinstance(k, tuple) and k[0] == 'H' and y == 'held':
                    held.setdefault(k, 'it stays pinned when an exception leaves the function')
        for k, w in sorted(c.sites.items()):
            ctx.did('pinned buffers', '%s %s' % (k[2], w))
            if k in held:
                ctx.refuted('the buffer pinned by %s is released' % k[2], w, held[k])
            elif w in c.unk:
                ctx.unknown('the buffer pinned by %s is released' % k[2], w, c.unk[w])
            else:
                ctx.proved('the buffer pinned by %s is released' % k[2], w, 'exactly once on all %d exits' % (len(o.ret) + len(o.throw)))
        for (k, w), why in sorted(c.bad.items()):
            ctx.refuted(k, w, why)
        esc = sorted({x for _, x in o.throw})
        if esc:
            ctx.refuted('no C++ exception leaves %s' % f['qn'], where(f), 'an exception of class %s leaves the function on some path' %
                        ', '.join('std::exception or derived' if x == '?' else x for x in esc))
        else:
            ctx.proved('no C++ exception leaves %s' % f['qn'], where(f), '%d library calls that may raise' % c.lib)
        for w, n in c.unk.items():
            if n.startswith('Release'):
                ctx.unknown('%s releases what was pinned' % n, w, 'the released pointer is not followed')
        if fl.cut:
            ctx.unknown('paths of %s explored' % f['qn'], where(f), 'state limit')
        if f.get('const'):
            pass
