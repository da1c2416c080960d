"""Finite models of value-graph terms.

When the normal form of a summary differs from the normal form a property requires, the two terms are compared over small
typed interpretations of their symbols (library results and virtual calls are uninterpreted functions, fixed per
interpretation). A difference is reported as a violation only if some interpretation that satisfies the facts separates the
terms; otherwise the obligation stays undecided. No code of the repository runs: terms are evaluated, not the program."""
import random
import re
import sys
import unicodedata
import zlib
from terms import *
import terms as tm

sys.setrecursionlimit(20000)


class EvalFail(Exception):
    pass


class Rv:
    """record value"""
    __slots__ = ('cls', 'f', '_h')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = tuple(sorted(f.items())) if isinstance(f, dict) else f
        self._h = None

    def get(self, n):
        for k, v in self.f:
            if k == n:
                return v
        raise EvalFail('field ' + n)

    def __eq__(self, o):
        return isinstance(o, Rv) and self.f == o.f

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.f)
        return self._h

    def __repr__(self):
        return '{' + ', '.join('%s: %s' % (k, showv(v)) for k, v in self.f) + '}'


class Mv:
    """map value (ordered as inserted)"""
    __slots__ = ('d', '_h')

    def __init__(self, items):
        self.d = dict(items)
        self._h = None

    def __eq__(self, o):
        return isinstance(o, Mv) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return 'map{' + ', '.join('%s: %s' % (showv(k), showv(v)) for k, v in self.d.items()) + '}'


class Ov:
    """opaque value"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ov) and self.n == o.n

    def __hash__(self):
        return hash(('Ov', self.n))

    def __repr__(self):
        return '<%s>' % self.n


class _U:
    def __repr__(self):
        return 'undef'


U = _U()
BOX = 'box'
SOME = 'some'


def stable(x):
    return zlib.crc32(repr(x).encode())


def showv(v):
    if isinstance(v, tuple) and v and all(isinstance(x, int) and not isinstance(x, bool) for x in v) and len(v) > 0:
        try:
            return '"%s"' % bytes(x & 255 for x in v).decode('utf8') if all(-128 <= x < 256 for x in v) and any(x > 31 or x < 0 for x in v) else repr(list(v))
        except UnicodeDecodeError:
            return repr(list(v))
    if isinstance(v, tuple) and len(v) == 2 and v[0] == SOME:
        return 'some(%s)' % showv(v[1])
    if isinstance(v, tuple) and v == ('none',):
        return 'none'
    if isinstance(v, tuple) and len(v) == 2 and v[0] == BOX:
        return '&' + showv(v[1])
    if isinstance(v, tuple):
        return '[' + ', '.join(showv(x) for x in v) + ']'
    return repr(v)


ASCII = 'ab .,'
SNIP8 = ['a', 'b', 'c', ' ', '  ', '.', '\u00e9', '\u4e16', '\U0001f600', '##', 'A', '#']


class Model:
    def __init__(self, prog, symtd, seed, pools, gens=None, apps=None, maxlen=4):
        self.p = prog
        self.symtd = symtd
        self.r = random.Random(seed)
        self.seed = seed
        self.ints, self.strs = pools[:2]
        self.nullp = (0.3, 0.0, 0.3, 0.6)[seed % 4]
        self.lens = [x for x in self.ints if self.maxlen_ok(x)]
        bigs = pools[2] if len(pools) > 2 else ()
        self.bigs = bigs
        self.big = bigs[(seed // 8) % len(bigs)] if bigs and seed % 8 in (3, 7) else None
        self.env = {}
        self.gens = gens or {}
        self.apps = apps or {}
        self.memo = {}
        self.maxlen = maxlen
        self.steps = 0
        self.most = 300000
        self.fixed = {}
        self.ascii = self.r.random() < 0.5
        self.oid = 0
        self.calls = set()     # functions of the project left uninterpreted
        self.lib = set()       # library functions left uninterpreted
        self.vary = (frozenset(), 0)

    @staticmethod
    def maxlen_ok(x):
        return 1 <= x <= 12

    # ---------------------------------------------------------------- generation
    def string(self, r, u=None):
        k = r.random()
        if self.big is not None and k > 0.8:
            s = tuple(ord(c) for c in (r.choice('ab'),) * (self.big + r.randint(-1, 3)))
        elif self.seed % 5 == 2 and k < 0.9:
            s = tuple(ord(c) for c in ''.join(r.choice('aab') for _ in range(r.randint(0, 5))))
        elif self.strs and self.seed % 5 == 4 and k < 0.4:
            s = ()
            for _ in range(r.randint(1, 3)):
                s += r.choice(self.strs)
        elif self.strs and k < 0.45:
            s = r.choice(self.strs)
            if k < 0.1:
                s = s + tuple(ord(c) for c in r.choice(ASCII))
            elif k < 0.15:
                s = tuple(ord(c) for c in r.choice(ASCII)) + s
        else:
            t = ''.join(r.choice(SNIP8[:7] if self.ascii else SNIP8) for _ in range(r.randint(0, self.maxlen)))
            if self.ascii:
                t = ''.join(c for c in t if ord(c) < 128)
            s = tuple(b - 256 if b > 127 else b for b in t.encode('utf8'))
        return s

    def gen(self, td, r, depth=0):
        k = td[0]
        if k == 'bool':
            return r.random() < 0.5
        if k in ('int', 'enum'):
            if k == 'int' and self.big is not None and r.random() < .15:
                return self.big + r.randint(0, 60)
            x = r.random()
            if x < 0.3 and self.ints:
                return r.choice(self.ints)
            if k == 'int' and x < 0.4 and not td[2]:
                return r.choice([-1, -2, 7, 100])
            if k == 'int' and x < 0.55:
                return (r.choice(self.ints) + r.choice([-1, 1])) if self.ints and (x < 0.47 or td[2]) and min(self.ints) > 0 else r.randint(0, 15)
            return r.randint(0, 6)
        if k == 'str':
            s = self.string(r)
            w = td[1][1] if td[1][0] == 'int' else 8
            if w >= 32:
                return u32(fromutf8(s))
            if w == 16:
                return fromutf8(s)
            return s
        if k == 'ustr':
            return fromutf8(self.string(r))
        if k == 'seq':
            n = r.randint(0, self.maxlen if depth < 2 else 1)
            if depth > 3:
                n = 0
            elif depth < 2 and self.lens and r.random() < 0.15:
                n = r.choice(self.lens) + r.randint(0, 2)
            if self.big is not None and depth < 2 and r.random() < 0.5:
                few = [self.gen(td[1], r, max(depth, 2)) for _ in range(5)]
                return tuple(r.choice(few) for _ in range(self.big * r.choice((1, 1, 2, 3)) + r.randint(0, 3)))
            return tuple(self.gen(td[1], r, depth + 1) for _ in range(n))
        if k == 'opt':
            return ('none',) if r.random() < 0.4 else (SOME, self.gen(td[1], r, depth + 1))
        if k == 'pair':
            return Rv('std::pair', {'first': self.gen(td[1], r, depth + 1), 'second': self.gen(td[2], r, depth + 1)})
        if k in ('map', 'set'):
            n = r.randint(0, self.maxlen)
            if self.big is not None and depth < 2 and r.random() < 0.5 and td[1][0] in ('int', 'str'):
                few = [self.gen(td[2], r, max(depth, 2)) if k == 'map' else U for _ in range(5)]
                return Mv([(i if td[1][0] == 'int' else tuple(ord(c) for c in 'k%d' % i), r.choice(few)) for i in range(self.big + r.randint(0, 3))])
            if k == 'map' and td[1][0] == 'int' and depth < 3 and self.seed % 4 == 1:      # a table over all bytes
                few = [self.gen(td[2], r, max(depth, 2)) for _ in range(5)]
                return Mv([(i, r.choice(few)) for i in range(256)])
            return Mv([(self.gen(td[1], r, depth + 1), self.gen(td[2], r, depth + 1) if k == 'map' else U) for _ in range(n)])
        if k in ('uptr', 'ptr'):
            if r.random() < self.nullp:
                return None
            return (BOX, self.gen(td[1], r, depth + 1))
        if k == 'rec':
            c = self.p.class_by_qn.get(td[1])
            if c is not None:
                g = self.gens.get(td[1])
                if g is not None:
                    return g(self, r, depth)
                return self.default_rec(td[1], r, depth)
        if k == 'float' and r.random() < 0.5:
            return Ov('flt0.0')
        return Ov('o%d' % r.randint(0, 5))

    def default_rec(self, cls, r, depth=0):
        c = self.p.class_by_qn[cls]
        f = {}
        for cc in self.bases(c) + [c]:
            for x in cc['fields']:
                f[x['n']] = self.gen(_eng(self.p).td(cc['unit'], x['t']), r, depth + 1)
        f['$id'] = r.randint(0, 9) if c.get('abstract') or self.p.subclasses(c['usr']) else 0
        return Rv(cls, f)

    def bases(self, c):
        out = []
        for b in c['bases']:
            bc = self.p.classes.get(b)
            if bc is not None:
                out += self.bases(bc) + [bc]
        return out

    def symval(self, t):
        v = self.env.get(t)
        if v is None and t not in self.env:
            g = self.gens.get(t) or self.gens.get(t.a[0])
            r = random.Random((self.seed * 1000003 + (self.vary[1] * 77003 if t.a[0].startswith('?') else 0)) ^ stable(t.a[0]))
            if g is not None:
                v = g(self, r, 0)
            else:
                td = self.symtd.get(t)
                if td is None:
                    k = t.a[1]
                    td = ('int', 32, False) if k in ('int', 'J') else ('bool',) if k == 'bool' else ('str', ('int', 8, False)) if k == 'str' else \
                        ('seq', ('int', 32, False)) if k == 'vec' else ('other',)
                v = self.gen(td, r)
            for path, x in self.fixed.get(t, ()):
                v = self.override(v, path, x)
            self.env[t] = v
        return v

    def override(self, v, path, x):
        if not path:
            return x
        if isinstance(v, Rv) and path[0] in dict(v.f):
            d = dict(v.f)
            d[path[0]] = self.override(d[path[0]], path[1:], x)
            return Rv(v.cls, d)
        return v

    def hashed(self, name, args, ty):
        """uninterpreted function"""
        key = (name, args)
        try:
            v = self.memo.get(key)
        except TypeError:
            raise EvalFail('unhashable')
        if v is None and key not in self.memo:
            r = random.Random((self.seed * 7919 + (self.vary[1] * 77003 if name in self.vary[0] else 0)) ^ zlib.crc32(repr(key).encode()))
            td = ty if isinstance(ty, tuple) else {'bool': ('bool',), 'int': ('int', 32, False), 'str': ('str', ('int', 8, False)), 'ustr': ('ustr',)}.get(ty, ('other',))
            if td[0] in ('other', 'void', 'json', 'fun', 'it', 'pq', 'tuple', 'float'):
                v = Ov('%s:%d' % (name[:20], r.randint(0, 1 << 30)))
            else:
                v = self.gen(td, r)
            self.memo[key] = v
        return v

    # ---------------------------------------------------------------- evaluation
    def ev(self, t, bv=()):
        return self._ev(t, dict(bv))

    def _ev(self, t, bv):
        self.steps += 1
        if self.steps > self.most:
            raise EvalFail('steps')
        op = t.op
        if op == 'Int':
            return t.a[0]
        if op == 'Bool':
            return t.a[0]
        if op == 'BV':
            return bv[t.a[0]]
        if op == 'Sym':
            return self.symval(t)
        fb = freebv(t)
        key = (t,) + tuple(bv.get(k) for k in fb)
        try:
            if key in self.memo:
                return self.memo[key]
        except TypeError:
            key = None
        m = getattr(self, 'v_' + op, None)
        if m is None:
            raise EvalFail('op ' + op)
        v = m(t, bv)
        if key is not None:
            self.memo[key] = v
        return v

    def num(self, t, bv):
        v = self._ev(t, bv)
        if v is U:
            raise EvalFail('undef')
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise EvalFail('not a number')
        return v

    def truth(self, t, bv):
        v = self._ev(t, bv)
        if v is U:
            raise EvalFail('undef')
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if v is None:
            return False
        if isinstance(v, tuple) and len(v) == 2 and v[0] == BOX:
            return True
        raise EvalFail('not a boolean')

    def seq(self, t, bv):
        v = self._ev(t, bv)
        if isinstance(v, tuple) and not (len(v) >= 1 and v[0] in (BOX, SOME, 'none')):
            return v
        raise EvalFail('not a sequence')

    def v_Null(self, t, bv):
        return None

    def v_Undef(self, t, bv):
        return U

    def v_Unit(self, t, bv):
        return U

    def v_Inf(self, t, bv):
        return 1 << 40

    def v_Lin(self, t, bv):
        r = t.a[0]
        for x, k in t.a[1]:
            r += k * self.num(x, bv)
        return r

    def v_Mul(self, t, bv):
        r = 1
        for x in t.a[0]:
            r *= self.num(x, bv)
        return r

    def v_Div(self, t, bv):
        x, y = self.num(t.a[0], bv), self.num(t.a[1], bv)
        if y == 0:
            raise EvalFail('div0')
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q

    def v_Mod(self, t, bv):
        x, y = self.num(t.a[0], bv), self.num(t.a[1], bv)
        if y == 0:
            raise EvalFail('div0')
        r = abs(x) % abs(y)
        return r if x >= 0 else -r

    def v_Min(self, t, bv):
        return min(self.num(x, bv) for x in t.a[0])

    def v_Max(self, t, bv):
        return max(self.num(x, bv) for x in t.a[0])

    def v_Le0(self, t, bv):
        return self.num(t.a[0], bv) <= 0

    def v_Eq0(self, t, bv):
        x = self._ev(t.a[0], bv)
        if isinstance(x, (bool, int)):
            return x == 0
        raise EvalFail('eq0')

    def v_Eq(self, t, bv):
        x, y = self._ev(t.a[0], bv), self._ev(t.a[1], bv)
        if x is U or y is U:
            raise EvalFail('undef')
        return x == y

    def v_Not(self, t, bv):
        return not self.truth(t.a[0], bv)

    def v_And(self, t, bv):
        fail = None
        for x in t.a[0]:
            try:
                if not self.truth(x, bv):
                    return False
            except EvalFail as e:
                fail = e
        if fail:
            raise fail
        return True

    def v_Or(self, t, bv):
        fail = None
        for x in t.a[0]:
            try:
                if self.truth(x, bv):
                    return True
            except EvalFail as e:
                fail = e
        if fail:
            raise fail
        return False

    def v_Ite(self, t, bv):
        return self._ev(t.a[1] if self.truth(t.a[0], bv) else t.a[2], bv)

    v_IteS = v_Ite

    def v_IsNull(self, t, bv):
        return self._ev(t.a[0], bv) is None

    def v_Opt(self, t, bv):
        return (SOME, self._ev(t.a[1], bv)) if self.truth(t.a[0], bv) else ('none',)

    def v_HasV(self, t, bv):
        v = self._ev(t.a[0], bv)
        if isinstance(v, tuple) and v and v[0] in (SOME, 'none'):
            return v[0] == SOME
        raise EvalFail('optional')

    def v_Val(self, t, bv):
        v = self._ev(t.a[0], bv)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == SOME:
            return v[1]
        raise EvalFail('empty optional')

    def v_Rec(self, t, bv):
        return Rv(t.a[0], {n: self._ev(v, bv) for n, v in t.a[1]})

    def v_With(self, t, bv):
        b = self._ev(t.a[0], bv)
        if not isinstance(b, Rv):
            return self.hashed('with', (b,) + tuple((n, self._ev(v, bv)) for n, v in t.a[1]), 'other')
        f = dict(b.f)
        for n, v in t.a[1]:
            f[n] = self._ev(v, bv)
        return Rv(b.cls, f)

    def v_Fld(self, t, bv):
        b = self._ev(t.a[0], bv)
        if isinstance(b, Rv):
            return b.get(t.a[1])
        if b is U:
            raise EvalFail('undef')
        if isinstance(b, Ov):
            return Ov('%s.%s' % (b.n, t.a[1]))
        raise EvalFail('field of non-record')

    def v_Seq(self, t, bv):
        r = ()
        for s in t.a[0]:
            r += self.seq(s, bv)
        return r

    def v_Elems(self, t, bv):
        return tuple(self._ev(x, bv) for x in t.a[0])

    def v_Fill(self, t, bv):
        n = self.num(t.a[0], bv)
        if n > 5000:
            raise EvalFail('too long')
        return (self._ev(t.a[1], bv),) * max(0, n)

    def v_Slice(self, t, bv):
        v = self.seq(t.a[0], bv)
        lo, hi = self.num(t.a[1], bv), self.num(t.a[2], bv)
        if not (0 <= lo <= hi <= len(v)):
            if lo >= 0 and hi > len(v) and lo <= len(v):
                return v[lo:] + ('?oob',)
            raise EvalFail('slice range')
        return v[lo:hi]

    def v_Comp(self, t, bv):
        n = self.num(t.a[0], bv)
        if n > 5000:
            raise EvalFail('too long')
        r = ()
        bv = dict(bv)
        for j in range(n):
            bv[t.a[1]] = j
            r += self.seq(t.a[2], bv)
        return r

    def v_Sum(self, t, bv):
        n = self.num(t.a[0], bv)
        r = 0
        bv = dict(bv)
        for j in range(n):
            bv[t.a[1]] = j
            r += self.num(t.a[2], bv)
        return r

    def v_FirstIdx(self, t, bv):
        n = self.num(t.a[0], bv)
        bv = dict(bv)
        j = 0
        while j < n:
            if j > 3000:
                raise EvalFail('unbounded search')
            bv[t.a[1]] = j
            if self.truth(t.a[2], bv):
                return j
            j += 1
        return n

    def v_Exists(self, t, bv):
        n = self.num(t.a[0], bv)
        bv = dict(bv)
        for j in range(n):
            bv[t.a[1]] = j
            if self.truth(t.a[2], bv):
                return True
        return False

    def v_Fold(self, t, bv):
        n = self.num(t.a[0], bv)
        if n > 3000:
            raise EvalFail('too long')
        acc = self._ev(t.a[1], bv)
        k = t.a[2]
        bv = dict(bv)
        for j in range(n):
            bv[k] = j
            bv[k + 1] = acc
            acc = self._ev(t.a[3], bv)
        return acc

    def v_MapAcc(self, t, bv):
        init, n, k, c, kk, vv = t.a
        m = self.map(init, bv)
        d = dict(m.d)
        bv = dict(bv)
        for j in range(self.num(n, bv)):
            bv[k] = j
            if self.truth(c, bv):
                d[self._ev(kk, bv)] = self._ev(vv, bv)
        return Mv(d)

    def map(self, t, bv):
        v = self._ev(t, bv)
        if isinstance(v, Mv):
            return v
        raise EvalFail('not a map')

    def v_Len(self, t, bv):
        return len(self.seq(t.a[0], bv))

    def v_At(self, t, bv):
        v = self._ev(t.a[0], bv)
        if isinstance(v, tuple):
            i = self.num(t.a[1], bv)
            if 0 <= i < len(v):
                return v[i]
            if i == len(v) and all(isinstance(x, int) for x in v):
                return 0
        raise EvalFail('index')

    def v_SeqUpd(self, t, bv):
        v = list(self.seq(t.a[0], bv))
        i = self.num(t.a[1], bv)
        if not 0 <= i < len(v):
            raise EvalFail('index')
        v[i] = self._ev(t.a[2], bv)
        return tuple(v)

    def v_Map(self, t, bv):
        return Mv([(self._ev(k, bv), self._ev(v, bv)) for k, v in t.a[0]])

    def v_Has(self, t, bv):
        return self._ev(t.a[1], bv) in self.map(t.a[0], bv).d

    def v_Get(self, t, bv):
        m = self.map(t.a[0], bv)
        k = self._ev(t.a[1], bv)
        if k not in m.d:
            raise EvalFail('missing key')
        return m.d[k]

    def v_Put(self, t, bv):
        m = dict(self.map(t.a[0], bv).d)
        m[self._ev(t.a[1], bv)] = self._ev(t.a[2], bv)
        return Mv(m)

    def v_PutIf(self, t, bv):
        m = self.map(t.a[0], bv)
        if not self.truth(t.a[1], bv):
            return m
        d = dict(m.d)
        d[self._ev(t.a[2], bv)] = self._ev(t.a[3], bv)
        return Mv(d)

    def v_MapSize(self, t, bv):
        return len(self.map(t.a[0], bv).d)

    def v_MKey(self, t, bv):
        m = self.map(t.a[0], bv)
        i = self.num(t.a[1], bv)
        ks = list(m.d)
        if not 0 <= i < len(ks):
            raise EvalFail('index')
        return ks[i]

    def v_MVal(self, t, bv):
        return self.map(t.a[0], bv).d[self.v_MKey(t, bv)]

    def v_Box(self, t, bv):
        return (BOX, self._ev(t.a[0], bv))

    def v_Deref(self, t, bv):
        v = self._ev(t.a[0], bv)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == BOX:
            return v[1]
        raise EvalFail('null')

    def v_Cmp(self, t, bv):
        a, b = self.seq(t.a[0], bv), self.seq(t.a[1], bv)
        a, b = [x & 255 for x in a], [x & 255 for x in b]
        return (a > b) - (a < b)

    def v_Cast(self, t, bv):
        x = self.num(t.a[1], bv)
        w = int(t.a[0][1:])
        x &= (1 << w) - 1
        if t.a[0][0] == 's' and x >= 1 << (w - 1):
            x -= 1 << w
        return x

    def v_Flt(self, t, bv):
        return Ov('flt%s' % t.a[0])

    def v_Lam(self, t, bv):
        return Ov('lam%d' % t.id)

    def v_opaque(self, t, bv):
        return Ov('%s%d' % (t.op, t.id))

    v_LV = v_It = v_Clo = v_PGet = v_MIt = v_MEnd = v_Fn = v_CStr = v_BackIns = v_opaque

    def v_Default(self, t, bv):
        return Ov(t.a[0])

    # strings
    def v_FromUTF8(self, t, bv):
        return fromutf8(self.seq(t.a[0], bv))

    def v_ToUTF8(self, t, bv):
        return toutf8(self.seq(t.a[0], bv))

    def v_FromUTF32(self, t, bv):
        r = ()
        for c in self.seq(t.a[0], bv):
            r += u16(c)
        return r

    def v_ToU32(self, t, bv):
        return u32(self.seq(t.a[0], bv))

    # json
    def jop(self, t, bv, ty):
        return self.hashed(t.op, tuple(self._ev(x, bv) for x in t.a if isinstance(x, T)), ty)

    def v_JGet(self, t, bv):
        return self.jop(t, bv, 'other')

    v_JAt = v_JField = v_JVal = v_JDbl = v_JGet

    def v_JStr(self, t, bv):
        return self.jop(t, bv, 'str')

    v_JKey = v_JRawKey = v_JStr

    def v_JBool(self, t, bv):
        return self.jop(t, bv, 'bool')

    def v_JLen(self, t, bv):
        p = self.memo.get(('JLen!', tuple(self._ev(x, bv) for x in t.a if isinstance(x, T))))
        if p is not None:
            return p
        v = self.jop(t, bv, 'int')
        if self.big is not None and v % 2:
            return self.big * (1 + v % 3) + v % 4
        if self.lens and self.seed % 3 == 1:
            return self.lens[abs(v) % len(self.lens)] + v % 3
        return abs(v) % 4

    def v_App(self, t, bv):
        name, args, ty = t.a
        f = self.apps.get(name)
        if f is not None:
            return f(self, [self._ev(x, bv) for x in args])
        if name in ('find', 'rfind', 'find_first_not_of', 'find_first_of', 'find_last_of', 'find_last_not_of'):
            s, p = self.seq(args[0], bv), self.seq(args[1], bv)
            frm = self.num(args[2], bv)
            return sfind(name, s, p, frm)
        if name == 'starts':
            s, p = self.seq(args[0], bv), self.seq(args[1], bv)
            return s[:len(p)] == p
        if name == 'to_string':
            return tuple(ord(c) for c in str(self.num(args[0], bv)))
        if name.startswith('bit'):
            a, b = self.num(args[0], bv), self.num(args[1], bv)
            o = name[3:]
            if o == '&':
                return a & b
            if o == '|':
                return a | b
            if o == '^':
                return a ^ b
            if o == '>>' and 0 <= b < 64:
                return a >> b
            if o == '<<' and 0 <= b < 64:
                return a << b
            raise EvalFail('shift')
        if name == 'JType':
            return abs(self.hashed('JType', tuple(self._ev(x, bv) for x in args), 'int')) % 6 + 1
        if name == 'lexlt':
            a, b = self._ev(args[0], bv), self._ev(args[1], bv)
            if isinstance(a, int) and isinstance(b, int):
                return a < b
            if isinstance(a, tuple) and isinstance(b, tuple):
                try:
                    return a < b
                except TypeError:
                    raise EvalFail('lexlt')
        if name in ('cp_pos', 'char32At', 'moveIndex32'):
            u = self.seq(args[0], bv)
            k = self.num(args[1], bv)
            if name == 'char32At':
                if not 0 <= k < len(u):
                    return 0xffff
                if 0xdc00 <= u[k] < 0xe000 and k > 0 and 0xd800 <= u[k - 1] < 0xdc00:
                    k -= 1
                return u32(u[k:k + 2])[0]
            if name == 'cp_pos':
                pos, n = 0, k
            else:
                pos, n = k, self.num(args[2], bv)
            if n < 0 or pos < 0:
                raise EvalFail('move')
            for _ in range(n):
                if pos < len(u):
                    pos += 2 if 0xd800 <= u[pos] < 0xdc00 and pos + 1 < len(u) and 0xdc00 <= u[pos + 1] < 0xe000 else 1
            return pos
        lib = name[4:].replace('std::', '') if name.startswith('ext:') else name
        if lib in PREDS and len(args) == 1:
            return PREDS[lib](self.num(args[0], bv))
        if name == 'stoi':
            s = self.seq(args[0], bv)
            base = self.num(args[2], bv) if len(args) > 2 else 10
            w = ''.join(chr(c & 255) for c in s).lstrip(' \t\n\v\f\r')
            mm = re.match(r'[+-]?(0[xX](?=[0-9a-fA-F]))?' if base == 16 else r'[+-]?', w)
            sign, w = w[:1] == '-', w[mm.end():]
            digs = ''
            for ch in w:
                if not ch.isascii() or not ch.isalnum() or int(ch, 36) >= base:
                    break
                digs += ch
            if not digs:
                raise EvalFail('stoi')
            v = int(digs, base) * (-1 if sign else 1)
            if not -2 ** 31 <= v < 2 ** 31:
                raise EvalFail('stoi')
            return v
        if name == 'quickCheck' and len(args) == 3:
            form = {2: 'NFD', 3: 'NFKD', 4: 'NFC', 5: 'NFKC'}.get(self.num(args[1], bv))
            if form:
                return int(unicodedata.is_normalized(form, ''.join(chr(c) for c in u32(self.seq(args[0], bv)))))
        if name == 'icunorm':
            mode, opts = self.num(args[0], bv), self.num(args[1], bv)
            form = {2: 'NFD', 3: 'NFKD', 4: 'NFC', 5: 'NFKC'}.get(mode)
            if form and opts == 0:
                w = ''.join(chr(c) for c in u32(self.seq(args[2], bv)))
                out = ()
                for ch in unicodedata.normalize(form, w):
                    out += u16(ord(ch))
                return out
        if name == 'validate_utf8':
            try:
                bytes(c & 255 for c in self.seq(args[0], bv)).decode('utf-8')
                return True
            except UnicodeDecodeError:
                return False
        if name.startswith('extremal_idx:'):
            s = self._ev(args[0], bv)
            lam = args[1]
            if not isinstance(s, tuple) or not s:
                raise EvalFail('empty')
            best = 0
            for i in range(1, len(s)):
                b2 = dict(bv)
                # max_element: *best < *i; min_element: *i < *best
                x, y = (s[best], s[i]) if 'max' in name else (s[i], s[best])
                b2[lam.a[0]], b2[lam.a[0] + 1] = x, y
                if self.truth(lam.a[1], b2):
                    best = i
            return best
        if name == 'extremal_key':
            m = self.map(args[0], bv)
            lam = args[1]
            best = None
            for k, v in m.d.items():
                x = Rv('std::pair', {'first': k, 'second': v})
                b2 = dict(bv)
                if best is None:
                    best = x
                    continue
                b2[lam.a[0]] = best
                b2[lam.a[0] + 1] = x
                if self.truth(lam.a[1], b2):
                    best = x
            if best is None:
                raise EvalFail('empty')
            return best.get('first')
        if not name.startswith(('virt:', 'call:', 'callfn', 'J', 'json')):
            self.lib.add(name)
        elif name.startswith(('virt:', 'call:', 'callfn')):
            self.calls.add(name)
        return self.hashed(name, tuple(self._ev(x, bv) for x in args), ty)


def _cat(*cats):
    def f(c):
        return 0 <= c < 0x110000 and unicodedata.category(chr(c)).startswith(cats)
    return f


CATS = 'Cn Lu Ll Lt Lm Lo Mn Me Mc Nd Nl No Zs Zl Zp Cc Cf Co Cs Pd Ps Pe Pc Po Sm Sc Sk So Pi Pf'.split()
_Z, _P, _L = _cat('Z'), _cat('P'), _cat('L')
_asc = lambda f: (lambda c: 0 <= c < 128 and f(chr(c)))
PREDS = {
    'u_isspace': lambda c: _Z(c) or 9 <= c <= 13 or 28 <= c <= 31 or c == 0x85,
    'u_isWhitespace': lambda c: (_Z(c) and c not in (0xa0, 0x2007, 0x202f)) or 9 <= c <= 13 or 28 <= c <= 31,
    'u_isUWhiteSpace': lambda c: 9 <= c <= 13 or c in (0x20, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) or 0x2000 <= c <= 0x200a,
    'u_isblank': lambda c: c == 9 or _cat('Zs')(c),
    'u_ispunct': _P,
    'u_iscntrl': lambda c: _cat('Cc', 'Cf', 'Zl', 'Zp')(c),
    'u_isISOControl': _cat('Cc'),
    'u_isalpha': _L,
    'u_isdigit': _cat('Nd'),
    'u_isalnum': _cat('L', 'Nd'),
    'u_islower': _cat('Ll'),
    'u_isupper': _cat('Lu'),
    'u_charType': lambda c: CATS.index(unicodedata.category(chr(c))) if 0 <= c < 0x110000 else 0,
    'isspace': _asc(lambda ch: ch in ' \t\n\v\f\r'),
    'isdigit': _asc(str.isdigit),
    'isalpha': _asc(str.isalpha),
    'isalnum': _asc(str.isalnum),
    'isxdigit': _asc(lambda ch: ch in '0123456789abcdefABCDEF'),
    'isupper': _asc(str.isupper),
    'islower': _asc(str.islower),
    'ispunct': _asc(lambda ch: '!' <= ch <= '~' and not ch.isalnum()),
    'tolower': lambda c: c + 32 if 65 <= c <= 90 else c,
    'toupper': lambda c: c - 32 if 97 <= c <= 122 else c,
}


_engc = {}


def _eng(p):
    from vg import Engine
    e = _engc.get(id(p))
    if e is None:
        e = _engc[id(p)] = Engine(p)
    return e


def sfind(name, s, p, frm):
    n = len(s)
    if name == 'find':
        if frm < 0:
            return -1
        for i in range(frm, n - len(p) + 1):
            if s[i:i + len(p)] == p:
                return i
        return -1
    if name == 'rfind':
        st = n - len(p)
        if frm >= 0:
            st = min(st, frm)
        for i in range(st, -1, -1):
            if s[i:i + len(p)] == p:
                return i
        return -1
    if name in ('find_first_of', 'find_first_not_of'):
        if frm < 0:
            return -1
        for i in range(frm, n):
            if (s[i] in p) == (name == 'find_first_of'):
                return i
        return -1
    st = n - 1
    if frm >= 0:
        st = min(st, frm)
    for i in range(st, -1, -1):
        if (s[i] in p) == (name == 'find_last_of'):
            return i
    return -1


def fromutf8(s):
    t = bytes(x & 255 for x in s).decode('utf8', 'replace')
    r = ()
    for c in t:
        r += u16(ord(c))
    return r


def u16(c):
    c &= 0x1fffff
    if c >= 0x10000:
        c -= 0x10000
        return (0xd800 + (c >> 10), 0xdc00 + (c & 0x3ff))
    return (c,)


def u32(u):
    out = []
    i = 0
    while i < len(u):
        c = u[i]
        if 0xd800 <= c < 0xdc00 and i + 1 < len(u) and 0xdc00 <= u[i + 1] < 0xe000:
            out.append(0x10000 + ((c - 0xd800) << 10) + (u[i + 1] - 0xdc00))
            i += 2
        else:
            out.append(c)
            i += 1
    return tuple(out)


def toutf8(u):
    out = []
    for c in u32(u):
        if not isinstance(c, int):
            raise EvalFail('text')
        if 0xd800 <= c < 0xe000 or c > 0x10ffff or c < 0:
            c = 0xfffd
        for b in chr(c).encode('utf8'):
            out.append(b - 256 if b > 127 else b)
    return tuple(out)


_fb = {}


def freebv(t):
    r = _fb.get(t)
    if r is not None:
        return r
    if t.op == 'BV':
        s = {t.a[0]}
    else:
        s = set()
        if t.op in tm.BINDERS:
            # closed children contribute their own bound indices; those below the binder's are bound deeper
            kpos = {'Comp': 1, 'Sum': 1, 'FirstIdx': 1, 'Exists': 1, 'Fold': 2, 'MapAcc': 2, 'NCount': 1, 'Lam': 0}[t.op]
            k = t.a[kpos]
            width = 2 if t.op in ('Fold', 'Lam') else 1
            for i, x in enumerate(t.a):
                if isinstance(x, T):
                    f = set(freebv(x))
                    if i > kpos:
                        f -= set(range(k, k + width))
                    s |= f
        else:
            for x in tm.subterms_direct(t):
                s |= set(freebv(x))
    r = _fb[t] = tuple(sorted(s))
    return r


def harvest(*ts):
    ints, strs, bigs = set(), set(), set()
    seen = set()
    for t in ts:
        for x in tm.all_subterms(t, seen):
            if x.op == 'Int' and -3 <= x.a[0] < 70000:
                ints.add(x.a[0])
            elif x.op == 'Lin' and abs(x.a[0]) < 70000:
                ints.add(-x.a[0])
            elif x.op == 'Elems' and all(y.op == 'Int' and -128 <= y.a[0] < 256 for y in x.a[0]) and len(x.a[0]) < 40:
                strs.add(tuple(y.a[0] for y in x.a[0]))
            if x.op == 'Lin' and 12 < abs(x.a[0]) <= 2100 and any(y.op in ('Len', 'MapSize', 'JLen', 'FirstIdx', 'Fld') for y, _ in x.a[1]):
                bigs.add(abs(x.a[0]))
            elif x.op in ('Min', 'Max') and any(y.op in ('Len', 'MapSize', 'JLen', 'FirstIdx') for y in x.a[0]):
                bigs |= {y.a[0] for y in x.a[0] if y.op == 'Int' and 12 < y.a[0] <= 2100}
    return sorted(ints), sorted(strs), sorted(bigs)


def unknowns(*ts):
    out = set()
    for t in ts:
        for s in tm.syms(t):
            if s.a[0].startswith('?'):
                out.add(s.a[0])
    return out


def wild_eq(a, b):
    """equality of values; undefined parts match anything"""
    if a is U or b is U:
        return True
    if isinstance(a, Rv) and isinstance(b, Rv):
        ka = dict(a.f)
        kb = dict(b.f)
        for k in ka:
            if k in kb and not wild_eq(ka[k], kb[k]):
                return False
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(wild_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Mv) and isinstance(b, Mv):
        return set(a.d) == set(b.d) and all(wild_eq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, bool) or isinstance(b, bool):
        return int(a) == int(b) if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) else False
    return a == b


def fixings(facts):
    """facts of the form  path = constant  or  [not] path, used to aim the interpretations"""
    out = {}

    def path(x):
        p = []
        while x.op == 'Fld':
            p.insert(0, x.a[1])
            x = x.a[0]
        return (x, tuple(p)) if x.op == 'Sym' else None
    for f in tm._flatten(facts):
        v = None
        if f.op == 'Eq0':
            c, d = tm.lin_parts(f.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if abs(k) == 1:
                    v = -c * k
                    p = path(x)
        elif f.op in ('Fld', 'Sym'):
            v, p = True, path(f)
        elif f.op == 'Not' and f.a[0].op in ('Fld', 'Sym'):
            v, p = False, path(f.a[0])
        if v is not None and p is not None:
            out.setdefault(p[0], []).append((p[1], v))
    return out


def pinnings(facts):
    """facts of the form  uninterpreted term = constant, used to aim the interpretations"""
    out = []

    def pin(x, v):
        if (x.op in JOPS or x.op == 'App') and not freebv(x):
            out.append((x, v))
    for f in tm._flatten(facts):
        if f.op == 'Eq0':
            c, d = tm.lin_parts(f.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if abs(k) == 1:
                    pin(x, -c * k - (1 if x.op == 'App' and x.a[0] == 'JType' else 0))
        elif f.op == 'Eq':
            for x, y in (f.a, f.a[::-1]):
                if y.op == 'Seq' and not tm.syms(y) and not any(z.op == 'App' for z in tm.all_subterms(y)):
                    pin(x, y)
        elif f.op == 'Not' and f.a[0].op in JOPS + ('App',):
            pin(f.a[0], False)
        elif f.op in JOPS + ('App',):
            pin(f, True)
    return out


JOPS = ('JStr', 'JKey', 'JBool', 'JLen')


def separate(prog, symtd, a, b, facts=(), n=200, gens=None, apps=None, seed=1, maxlen=4, time_s=20, hints=()):
    """-> (model, va, vb) separating a from b under facts, or None; second result: number of interpretations that satisfied the
    facts and evaluated"""
    import time
    pools = harvest(a, b, *facts)
    if hints:
        pools = (pools[0], sorted(set(pools[1]) | set(hints)), pools[2])
    fixed = fixings(facts)
    pins = pinnings(facts)
    ok = 0
    t0 = time.time()
    i = -1
    while ok < n and i < 40 * n:
        i += 1
        if time.time() - t0 > time_s or (i > 4 * n and time.time() - t0 > time_s / 3):
            break
        m = Model(prog, symtd, seed * 100003 + i, pools, gens, apps, maxlen=1 + (i % maxlen))
        m.fixed = fixed
        try:
            for x, v in pins:
                m.memo[(x.a[0] if x.op == 'App' else 'JLen!' if x.op == 'JLen' else x.op, tuple(m._ev(y, {}) for y in (x.a[1] if x.op == 'App' else x.a) if isinstance(y, T)))] = m._ev(v, {}) if isinstance(v, T) else v
            if not all(m.truth(f, {}) for f in facts):
                continue
            va = m.ev(a)
            vb = m.ev(b)
        except EvalFail:
            continue
        except (RecursionError, TypeError, KeyError, OverflowError) as e:
            continue
        ok += 1
        if not wild_eq(va, vb):
            return (m, va, vb), ok
    return None, ok


def independent(m, t, v, calls, n=10):
    """whether t keeps the value v it has in m when the uninterpreted calls named, and the parts not followed, take other values"""
    for k in range(1, n + 1):
        m2 = Model(m.p, m.symtd, m.seed, (m.ints, m.strs, m.bigs), m.gens, m.apps, m.maxlen)
        m2.fixed = m.fixed
        m2.vary = (frozenset(calls), k)
        try:
            if m2.ev(t) != v:
                return False
        except Exception:
            return False
    return True


def witness(prog, symtd, cond, facts=(), n=300, gens=None, apps=None, seed=1, maxlen=4, time_s=20, hints=()):
    """interpretation satisfying the facts in which cond is false"""
    return separate(prog, symtd, cond, TRUE, facts, n, gens, apps, seed, maxlen, time_s, hints)
