"""Hash-consed value-graph terms with a normal form.

Numbers are linear combinations over opaque atoms; conditions are canonical (<= 0 / == 0 of a linear form, conjunctions,
disjunctions); sequences (vectors, strings, UnicodeStrings) are concatenations of segments; records are field maps.
Terms are interned, so equality of normal forms is identity."""
import itertools

_tab = {}
_uid = itertools.count(1)


class T:
    __slots__ = ('op', 'a', 'id', '_syms', '_maxbv', '_h')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


CODECS = {'FromUTF8', 'ToUTF8', 'FromUTF32', 'ToU32'}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        if op in CODECS and a[0].op == 'Seq' and not a[0].a[0]:
            return a[0]     # nothing in any encoding is nothing
        t = T()
        t.op = op
        t.a = a
        t.id = next(_uid)
        t._syms = None
        t._maxbv = None
        _tab[k] = t
    return t


def subterms_direct(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _tup(x):
                yield y


def _tup(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _tup(y):
                yield z


def all_subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(subterms_direct(x))


def contains(t, p):
    for x in all_subterms(t):
        if p(x):
            return True
    return False


def contains_term(t, s):
    return contains(t, lambda x: x is s)


def syms(t):
    """free opaque symbols (Sym terms) of t"""
    if t._syms is None:
        if t.op == 'Sym':
            t._syms = frozenset((t,))
        else:
            s = frozenset()
            for x in subterms_direct(t):
                s = s | syms(x)
            t._syms = s
    return t._syms


def maxbv(t):
    if t._maxbv is None:
        m = t.a[0] if t.op == 'BV' else 0
        for x in subterms_direct(t):
            m = max(m, maxbv(x))
        t._maxbv = m
    return t._maxbv


_fresh = itertools.count(1)


def fresh(name, kind=''):
    return mk('Sym', '%s#%d' % (name, next(_fresh)), kind)


def sym(name, kind=''):
    return mk('Sym', name, kind)


TRUE = mk('Bool', True)
FALSE = mk('Bool', False)
NULL = mk('Null')
UNDEF = mk('Undef')
UNIT = mk('Unit')


def I(v):
    return mk('Int', int(v))


def B(v):
    return TRUE if v else FALSE


# ---------------------------------------------------------------- linear forms
# a numeric term is Int, an atom (any non-Int, non-Lin term) or Lin(const, ((atom, coef), ...)) with >= 1 atom and not
# (const 0, single coef 1)
def lin_parts(t):
    if t.op == 'Int':
        return t.a[0], {}
    if t.op == 'Lin':
        return t.a[0], dict(t.a[1])
    if t.op == 'Bool':
        return (1 if t.a[0] else 0), {}
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('Lin', c, items)


def add(x, y, ky=1):
    if x.op == 'Undef' or y.op == 'Undef':
        return UNDEF
    cx, dx = lin_parts(x)
    cy, dy = lin_parts(y)
    d = dict(dx)
    for a, k in dy.items():
        d[a] = d.get(a, 0) + k * ky
    return mk_lin(cx + ky * cy, d)


def sub(x, y):
    return add(x, y, -1)


def neg(x):
    return add(I(0), x, -1)


def scale(x, k):
    c, d = lin_parts(x)
    return mk_lin(c * k, {a: v * k for a, v in d.items()})


def mul(x, y):
    if x.op == 'Int':
        return scale(y, x.a[0])
    if y.op == 'Int':
        return scale(x, y.a[0])
    # distribute over linear forms so that products are sums of monomials
    cx, dx = lin_parts(x)
    cy, dy = lin_parts(y)
    r = I(cx * cy)
    for a, k in dx.items():
        r = add(r, scale(a, k * cy))
    for b, m in dy.items():
        r = add(r, scale(b, m * cx))
    for a, k in dx.items():
        for b, m in dy.items():
            fa = list(a.a[0]) if a.op == 'Mul' else [a]
            fb = list(b.a[0]) if b.op == 'Mul' else [b]
            r = add(r, scale(mk('Mul', tuple(sorted(fa + fb, key=lambda z: z.id))), k * m))
    return r


def div(x, y):
    if x.op == 'Int' and y.op == 'Int' and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return I(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
    if y.op == 'Int' and y.a[0] == 1:
        return x
    return mk('Div', x, y)


def mod(x, y):
    if x.op == 'Int' and y.op == 'Int' and y.a[0] != 0:
        r = abs(x.a[0]) % abs(y.a[0])
        return I(r if x.a[0] >= 0 else -r)
    return mk('Mod', x, y)


def tmin(x, y):
    if x is y:
        return x
    d = sub(x, y)
    if d.op == 'Int':
        return x if d.a[0] <= 0 else y
    return mk('Min', tuple(sorted((x, y), key=lambda z: z.id)))


def tmax(x, y):
    if x is y:
        return x
    d = sub(x, y)
    if d.op == 'Int':
        return y if d.a[0] <= 0 else x
    return mk('Max', tuple(sorted((x, y), key=lambda z: z.id)))


NONNEG = {'Inf', 'JLen', 'Len', 'FirstIdx', 'NCount', 'JLen', 'MapSize', 'SumNN', 'J'}


def is_nonneg_atom(a):
    if a.op in NONNEG:
        return True
    if a.op == 'Sym' and a.a[1] == 'J':
        return True
    if a.op == 'BV' and len(a.a) > 1 and a.a[1] == 'J':
        return True
    if a.op == 'App' and a.a[0] == 'cp_pos':
        return True
    if a.op in ('Min',):
        return all(is_nonneg_atom(x) or (x.op == 'Int' and x.a[0] >= 0) or lin_lower(x) is not None and lin_lower(x) >= 0 for x in a.a[0])
    if a.op in ('Max',):
        return any(is_nonneg_atom(x) or (x.op == 'Int' and x.a[0] >= 0) for x in a.a[0])
    return False


def lin_lower(t):
    """constant lower bound of t using non-negativity of lengths only, or None"""
    c, d = lin_parts(t)
    for a, k in d.items():
        if not (k > 0 and is_nonneg_atom(a)):
            return None
    return c


def le0(x):
    """x <= 0"""
    c, d = lin_parts(x)
    if not d:
        return B(c <= 0)
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == 'Ite' and _constleaf(a):
            return _lift(a, lambda leaf: le0(add(I(c), scale(leaf, k))))
        if is_nonneg_atom(a):
            if k > 0 and c > 0:
                return FALSE
            if k < 0 and c <= 0:
                return TRUE
            if k > 0 and c == 0:
                return eq0(a)
            if k > 0 and c < 0:
                return mk('Le0', mk_lin(-(((-c)) // k) if True else c, {a: 1}))
            if k < 0:
                # -|k| a + c <= 0  <=>  a >= ceil(c/|k|)
                b = -((-c) // (-k))
                if b <= 1:
                    return Not(eq0(a)) if b == 1 else TRUE
                return mk('Le0', mk_lin(b, {a: -1}))
    if len(d) == 2:
        r = _cp_le0(c, d)
        if r is not None:
            return r
    for a, k in d.items():
        if a.op in ('Min', 'Max'):
            r = mk_lin(c, {z: q for z, q in d.items() if z is not a})
            both = [le0(add(r, scale(z, k))) for z in a.a[0]]
            return And(*both) if (a.op == 'Max') == (k > 0) else Or(*both)
    lo = lin_lower(x)
    if lo is not None and lo > 0:
        return FALSE
    hi = lin_lower(scale(x, -1))
    if hi is not None and -hi <= 0:
        return TRUE
    if len(d) > 1:
        g = 0
        for k in d.values():
            g = _gcd(g, abs(k))
        if g > 1:
            c2 = -((-c) // g)
            return mk('Le0', mk_lin(c2, {a: k // g for a, k in d.items()}))
    elif len(d) == 1:
        (a, k), = d.items()
        if abs(k) > 1:
            c2 = -((-c) // abs(k))
            return mk('Le0', mk_lin(c2, {a: k // abs(k)}))
    return mk('Le0', mk_lin(c, d))


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _constleaf(t, depth=0):
    if t.op in ('Int', 'Bool', 'Str', 'Null', 'Undef'):
        return True
    if t.op == 'Seq' and all(s.op == 'Elems' and all(x.op == 'Int' for x in s.a[0]) for s in t.a[0]):
        return True
    return t.op == 'Ite' and depth < 40 and _constleaf(t.a[1], depth + 1) and _constleaf(t.a[2], depth + 1)


def _lift(t, f):
    if t.op == 'Ite':
        return Ite(t.a[0], _lift(t.a[1], f), _lift(t.a[2], f))
    return f(t)


def le(x, y):
    return le0(sub(x, y))


def lt(x, y):
    return le0(add(sub(x, y), I(1)))


def eq0(x):
    c, d = lin_parts(x)
    if not d:
        return B(c == 0)
    items = sorted(d.items(), key=lambda z: z[0].id)
    if items[0][1] < 0:
        c = -c
        d = {a: -k for a, k in d.items()}
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == 'Ite' and _constleaf(a):
            return _lift(a, lambda leaf: eq0(add(I(c), scale(leaf, k))) if leaf.op == 'Int' else mk('Eq0', mk_lin(c, d)))
        if k != 1:
            if c % k:
                return FALSE
            c //= k
            d = {a: 1}
        if is_nonneg_atom(a) and c > 0:
            return FALSE
    for a, k in d.items():
        if a.op in ('Min', 'Max'):
            r = mk_lin(c, {z: q for z, q in d.items() if z is not a})
            u, v = a.a[0]
            w = le(u, v) if a.op == 'Min' else le(v, u)
            w2 = le(v, u) if a.op == 'Min' else le(u, v)
            return Or(And(w, eq0(add(r, scale(u, k)))), And(w2, eq0(add(r, scale(v, k)))))
    lo = lin_lower(mk_lin(c, d))
    if lo is not None and lo > 0:
        return FALSE
    if c == 0 and len(d) == 2:
        for a in d:
            # a first index never exceeds its bound
            if a.op == 'FirstIdx' and d.get(a.a[0]) == -d[a]:
                return le0(mk_lin(0, {a.a[0]: 1, a: -1}))
    return mk('Eq0', mk_lin(c, d))


def is_num(t):
    return t.op in ('Int', 'Lin', 'Mul', 'Div', 'Mod', 'Min', 'Max', 'Len', 'FirstIdx', 'NCount', 'Sum', 'Cast', 'Find') or \
        (t.op == 'BV' and t.a[1] == 'J') or (t.op == 'Sym' and t.a[1] in ('int', 'J')) or (t.op == 'App' and t.a[-1] == 'int')


def app(name, args, ty='other'):
    return mk('App', name, tuple(args), ty)


def to_u32(u):
    if u.op == 'Seq' and not u.a[0]:
        return u
    if u.op == 'FromUTF32':
        return u.a[0]
    return mk('ToU32', u)


def cp_pos(u, k):
    """UTF-16 index of the k-th code point of u (its length past the end)"""
    if k is I(0):
        return k
    if k is length(to_u32(u)):
        return length(u)
    return mk('App', 'cp_pos', (u, k), 'int')


def move_index(u, i, d):
    if i is I(0) and d is I(1):
        return cp_pos(u, I(1))
    if i.op == 'App' and i.a[0] == 'cp_pos' and i.a[1][0] is u and d is I(1):
        return cp_pos(u, add(i.a[1][1], I(1)))
    return mk('App', 'moveIndex32', (u, i, d), 'int')


def char32_at(u, i):
    if i is I(0):
        return at(to_u32(u), i)
    if i.op == 'App' and i.a[0] == 'cp_pos' and i.a[1][0] is u:
        return at(to_u32(u), i.a[1][1])
    return mk('App', 'char32At', (u, i), 'int')


REAPP = {'cp_pos': cp_pos, 'moveIndex32': move_index, 'char32At': char32_at}


def _cp_le0(c, d):
    """position of the k-th code point against the end of the string: the same as k against the number of code points"""
    ps = [a for a in d if a.op == 'App' and a.a[0] == 'cp_pos']
    if len(ps) != 1:
        return None
    p = ps[0]
    u, k = p.a[1]
    q = d[p]
    if abs(q) != 1:
        return None
    n = length(u)
    if n.op in ('Int', 'Lin') or d.get(n) != -q:
        return None
    m = length(to_u32(u))
    if q == 1 and c == 1:          # pos < end
        return le0(add(sub(k, m), I(1)))
    if q == -1 and c == 0:         # pos >= end
        return le0(sub(m, k))
    return None


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'Undef' or y.op == 'Undef':
        return mk('Eq', *sorted((x, y), key=lambda z: z.id))
    if x.op == 'Bool' or y.op == 'Bool':
        if y.op == 'Bool':
            x, y = y, x
        if y.op in ('Int',):
            return B((1 if x.a[0] else 0) == y.a[0])
        return y if x.a[0] else Not(y)
    if x.op == 'Int' or y.op == 'Int' or is_num(x) or is_num(y):
        return eq0(sub(x, y))
    if x.op == 'Rec' and y.op == 'Rec' and [f for f, _ in x.a[1]] == [f for f, _ in y.a[1]]:
        r = TRUE
        for (f, a), (_, b) in zip(x.a[1], y.a[1]):
            r = And(r, eq(a, b))
        return r
    if x.op == 'Ite' and _constleaf(x) and _constleaf(y):
        return _lift(x, lambda leaf: eq(leaf, y))
    if y.op == 'Ite' and _constleaf(x) and _constleaf(y):
        return _lift(y, lambda leaf: eq(x, leaf))
    if x.op == 'Null' or y.op == 'Null':
        if x.op == 'Null':
            x, y = y, x
        if x.op in ('Box', 'Ref'):
            return FALSE
        if x.op == 'Ite':
            return Ite(x.a[0], eq(x.a[1], y), eq(x.a[2], y))
        if x.op == 'Fold' and x.a[3].op in ('Box', 'Ref') and x.a[0].op != 'Inf':
            return And(le(x.a[0], I(0)), eq(x.a[1], y))
        return mk('IsNull', x)
    if x.op == 'Seq' and y.op == 'Seq' and _constleaf(x) and _constleaf(y):
        return B(x is y)
    if x.op == 'Seq' and not x.a[0]:
        return eq0(length(y))
    if y.op == 'Seq' and not y.a[0]:
        return eq0(length(x))
    return mk('Eq', *sorted((x, y), key=lambda z: z.id))


# ---------------------------------------------------------------- booleans
def Not(x):
    if x.op == 'Bool':
        return B(not x.a[0])
    if x.op == 'Not':
        return x.a[0]
    if x.op == 'Le0':
        return le0(sub(I(1), x.a[0]))
    if x.op == 'And':
        return Or(*[Not(y) for y in x.a[0]])
    if x.op == 'Or':
        return And(*[Not(y) for y in x.a[0]])
    if x.op == 'Ite':
        return Ite(x.a[0], Not(x.a[1]), Not(x.a[2]))
    return mk('Not', x)


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a[0] if x.op == op else (x,)
        for y in ys:
            if y not in seen:
                seen.add(y)
                out.append(y)
    return out


def And(*xs):
    out = _flat('And', xs)
    out = [x for x in out if x is not TRUE]
    s = set(out)
    if FALSE in s:
        return FALSE
    known = {}
    for x in out:
        if Not(x) in s:
            return FALSE
        e = eq_const(x)
        if e is not None and known.setdefault(e[0], e[1]) is not e[1]:
            return FALSE
    # absorption: a & (a | b) = a ; a & (!a | b) = a & b
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == 'Or':
                if any(d in s for d in x.a[0]):
                    out.pop(i)
                    s = set(out)
                    changed = True
                    break
                rest = [d for d in x.a[0] if Not(d) not in s]
                if len(rest) != len(x.a[0]):
                    out.pop(i)
                    n = Or(*rest)
                    return And(*(out + [n]))
    out = _lin_and(out)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('And', tuple(sorted(out, key=lambda z: z.id)))


def _lin_pairs(out):
    les = [x for x in out if x.op in ('Le0', 'Eq0')]
    return les if 1 < len(les) < 14 else []


def _lin_and(out):
    """drop linear conjuncts implied by another; None if two exclude each other"""
    drop = set()
    les = _lin_pairs(out)
    for i, x in enumerate(les):
        for y in les[i + 1:]:
            if x in drop or y in drop:
                continue
            p, q = x.a[0], y.a[0]
            d, e = sub(p, q), add(p, q)
            if d.op == 'Int':      # p = q + d
                v = d.a[0]
                if x.op == 'Le0' and y.op == 'Le0':
                    drop.add(y if v >= 0 else x)
                elif x.op == 'Eq0' and y.op == 'Eq0':
                    return None
                elif x.op == 'Eq0':      # p = 0: q = -v
                    if v < 0:
                        return None
                    drop.add(y)
                else:                    # q = 0: p = v
                    if v > 0:
                        return None
                    drop.add(x)
            elif e.op == 'Int':    # p = e - q
                v = e.a[0]
                if x.op == 'Le0' and y.op == 'Le0':
                    if v > 0:
                        return None
                elif x.op == 'Eq0' and y.op == 'Eq0':
                    return None
                elif x.op == 'Eq0':      # q = v
                    if v > 0:
                        return None
                    drop.add(y)
                else:                    # p = v
                    if v > 0:
                        return None
                    drop.add(x)
    return [x for x in out if x not in drop] if drop else out


def _lin_or(out):
    """drop linear disjuncts implying another, join adjacent ones; None if two cover everything"""
    les = _lin_pairs(out)
    for i, x in enumerate(les):
        for y in les[i + 1:]:
            p, q = x.a[0], y.a[0]
            d, e = sub(p, q), add(p, q)
            new = 0
            if d.op == 'Int':
                v = d.a[0]
                if x.op == 'Le0' and y.op == 'Le0':
                    new = x if v <= 0 else y
                elif x.op == 'Eq0' and y.op == 'Le0':     # p = 0: q = -v
                    new = y if v >= 0 else (le0(sub(q, I(1))) if v == -1 else 0)
                elif x.op == 'Le0' and y.op == 'Eq0':     # q = 0: p = v
                    new = x if v <= 0 else (le0(sub(p, I(1))) if v == 1 else 0)
            elif e.op == 'Int':
                v = e.a[0]
                if x.op == 'Le0' and y.op == 'Le0':
                    if v <= 1:
                        return None
                elif x.op == 'Eq0' and y.op == 'Le0':     # q = v
                    new = y if v <= 0 else (le0(sub(q, I(1))) if v == 1 else 0)
                elif x.op == 'Le0' and y.op == 'Eq0':     # p = v
                    new = x if v <= 0 else (le0(sub(p, I(1))) if v == 1 else 0)
            if new != 0:
                return [z for z in out if z is not x and z is not y] + [new]
    return out


def Or(*xs):
    out = _flat('Or', xs)
    out = [x for x in out if x is not FALSE]
    s = set(out)
    if TRUE in s:
        return TRUE
    for x in out:
        if x.op != 'And' and Not(x) in s:
            return TRUE
    changed = True
    while changed:
        changed = False
        for i, x in enumerate(out):
            if x.op == 'And':
                if any(d in s for d in x.a[0]):
                    out.pop(i)
                    s = set(out)
                    changed = True
                    break
                rest = [d for d in x.a[0] if Not(d) not in s]
                if len(rest) != len(x.a[0]):
                    out.pop(i)
                    n = And(*rest)
                    return Or(*(out + [n]))
    o2 = _lin_or(out)
    if o2 is None:
        return TRUE
    if o2 is not out:
        return Or(*o2)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # (a & b) | (a & !b) = a
    ands = [x for x in out if x.op == 'And']
    for i, x in enumerate(ands):
        for y in ands[i + 1:]:
            sx, sy = set(x.a[0]), set(y.a[0])
            dx, dy = sx - sy, sy - sx
            if len(dx) == 1 and len(dy) == 1 and Not(next(iter(dx))) is next(iter(dy)):
                rest = [z for z in out if z is not x and z is not y]
                return Or(*(rest + [And(*(sx & sy))]))
    return mk('Or', tuple(sorted(out, key=lambda z: z.id)))


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == 'Undef':
        return b
    if b.op == 'Undef':
        return a
    if c.op == 'Not':
        return Ite(c.a[0], b, a)
    if a.op == 'SeqUpd' and a.a[0] is b:
        return seq_upd(b, a.a[1], Ite(c, a.a[2], at(b, a.a[1])))
    if b.op == 'SeqUpd' and b.a[0] is a:
        return seq_upd(a, b.a[1], Ite(c, at(a, b.a[1]), b.a[2]))
    if c.op == 'Le0':
        n = Not(c)
        if n.op == 'Le0' and n.id < c.id:
            return Ite(n, b, a)
    if a.op == 'Ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'Ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is c and is_bool(b):
        return Or(c, b)
    if b is c and is_bool(a):
        return And(c, a)
    if a.op == 'Bool' or b.op == 'Bool' or (is_bool(a) and is_bool(b)):
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is FALSE:
            return And(c, a)
        if b is TRUE:
            return Or(Not(c), a)
    if b.op == 'Ite' and b.a[1] is a:
        return Ite(Or(c, b.a[0]), a, b.a[2])
    if b.op == 'Ite' and b.a[2] is a:
        return Ite(Or(c, Not(b.a[0])), a, b.a[1])
    if a.op == 'Ite' and a.a[2] is b:
        return Ite(And(c, a.a[0]), a.a[1], b)
    if a.op == 'Ite' and a.a[1] is b:
        return Ite(And(c, Not(a.a[0])), a.a[2], b)
    if a.op == 'Opt' or b.op == 'Opt':
        return mk_opt(Ite(c, has_value(a), has_value(b)), Ite(c, opt_value(a), opt_value(b)))
    if a.op in ('Rec', 'With') or b.op in ('Rec', 'With'):
        r = _ite_rec(c, a, b)
        if r is not None:
            return r
    if is_seq(a) and is_seq(b):
        return ite_seq(c, a, b)
    if a.op == 'Put' and a.a[0] is b:
        return m_putif(b, c, a.a[1], a.a[2])
    if b.op == 'Put' and b.a[0] is a:
        return m_putif(a, Not(c), b.a[1], b.a[2])
    if a.op == 'Put' and b.op == 'Put' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        return mk('Put', a.a[0], a.a[1], Ite(c, a.a[2], b.a[2]))
    if c.op == 'Le0' and (a.op in ('Lin', 'Len', 'FirstIdx', 'Min', 'Max') or b.op in ('Lin', 'Len', 'FirstIdx', 'Min', 'Max') or (is_num(a) and is_num(b))) and \
            not (a.op == 'Int' and b.op == 'Int') and not (_constleaf(a) and _constleaf(b)):
        d = sub(a, b)
        e = c.a[0]
        for w in (d, add(d, I(1))):
            if w is e:
                return tmin(a, b)
        for w in (neg(d), add(neg(d), I(1))):
            if w is e:
                return tmax(a, b)
    # numbers: x+1 vs x -> x + Ite(c,1,0): keep as is, linear parts factored out
    if a.op in ('Lin', 'Int') or b.op in ('Lin', 'Int'):
        ca, da = lin_parts(a)
        cb, db = lin_parts(b)
        common = {x: k for x, k in da.items() if db.get(x) == k}
        if common:
            ra = mk_lin(ca, {x: k for x, k in da.items() if x not in common})
            rb = mk_lin(cb, {x: k for x, k in db.items() if x not in common})
            return add(mk_lin(0, common), Ite(c, ra, rb))
    return mk('Ite', c, a, b)


def is_bool(t):
    return t.op in ('Bool', 'Not', 'And', 'Or', 'Le0', 'Eq0', 'Eq', 'Has', 'HasV', 'IsNull', 'Exists') or \
        (t.op in ('Sym', 'App', 'Fld', 'JBool') and len(t.a) > 1 and t.a[-1] == 'bool') or t.op == 'JBool' or \
        (t.op == 'Ite' and is_bool(t.a[1]) and is_bool(t.a[2]))


# ---------------------------------------------------------------- optionals
NONE = mk('Opt', FALSE, UNDEF)


def some(x):
    return mk('Opt', TRUE, x)


def mk_opt(h, v):
    if h is FALSE:
        return NONE
    if h.op == 'HasV' and v.op == 'Val' and h.a[0] is v.a[0]:
        return h.a[0]
    return mk('Opt', h, v)


def has_value(o):
    if o.op == 'Opt':
        return o.a[0]
    if o.op == 'Ite':
        return Ite(o.a[0], has_value(o.a[1]), has_value(o.a[2]))
    if o.op == 'Undef':
        return UNDEF
    return mk('HasV', o)


def opt_value(o):
    if o.op == 'Opt':
        return o.a[1]
    if o.op == 'Ite':
        return Ite(o.a[0], opt_value(o.a[1]), opt_value(o.a[2]))
    if o.op == 'Undef':
        return UNDEF
    return mk('Val', o)


# ---------------------------------------------------------------- records
def rec(cls, fields):
    return mk('Rec', cls, tuple(fields))


def pair(a, b):
    return mk('Rec', 'std::pair', (('first', a), ('second', b)))


def fld(t, f):
    if t.op == 'Rec':
        for n, v in t.a[1]:
            if n == f:
                return v
        return mk('Fld', t, f)
    if t.op == 'With':
        for n, v in t.a[1]:
            if n == f:
                return v
        return fld(t.a[0], f)
    if t.op == 'Ite':
        return Ite(t.a[0], fld(t.a[1], f), fld(t.a[2], f))
    if t.op == 'Undef':
        return UNDEF
    return mk('Fld', t, f)


def with_(t, f, v):
    if fld(t, f) is v:
        return t
    if t.op == 'Rec':
        fs = [(n, (v if n == f else x)) for n, x in t.a[1]]
        if all(n != f for n, _ in fs):
            fs.append((f, v))
        r = _eta(t.a[0], fs)
        return r if r is not None else mk('Rec', t.a[0], tuple(fs))
    if t.op == 'With':
        base, fs = t.a[0], dict(t.a[1])
    else:
        base, fs = t, {}
    if mk('Fld', base, f) is v and base.op not in ('Rec',):
        fs.pop(f, None)
    else:
        fs[f] = v
    if not fs:
        return base
    return mk('With', base, tuple(sorted(fs.items())))


def _eta(cls, fs):
    """Rec whose every field is the same opaque base's field is that base (only for pairs/known full records)"""
    b = None
    for n, v in fs:
        if v.op != 'Fld' or v.a[1] != n:
            return None
        if b is None:
            b = v.a[0]
        elif b is not v.a[0]:
            return None
    return b


def _ite_rec(c, a, b):
    if a.op == 'Rec' and b.op == 'Rec':
        if a.a[0] != b.a[0] or [n for n, _ in a.a[1]] != [n for n, _ in b.a[1]]:
            return None
        return mk('Rec', a.a[0], tuple((n, Ite(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])))
    if a.op == 'Rec' or b.op == 'Rec':
        r, o = (a, b) if a.op == 'Rec' else (b, a)
        if o.op in ('Null', 'Box', 'Undef'):
            return None
        fs = []
        for n, x in r.a[1]:
            y = fld(o, n)
            fs.append((n, Ite(c, x, y) if r is a else Ite(c, y, x)))
        return mk('Rec', r.a[0], tuple(fs))
    ba = a.a[0] if a.op == 'With' else a
    bb = b.a[0] if b.op == 'With' else b
    names = sorted({n for x in (a, b) if x.op == 'With' for n, _ in x.a[1]})
    if ba is bb:
        base = ba
    else:
        return None
    t = base
    for n in names:
        t = with_(t, n, Ite(c, fld(a, n), fld(b, n)))
    return t


# ---------------------------------------------------------------- sequences
EMPTY = mk('Seq', ())
SEQOPS = {'Seq', 'FromUTF8', 'ToUTF8', 'JStr', 'Slice', 'Fill', 'Comp', 'Elems', 'IteS', 'SeqUpd'}
SEQKINDS = {'vec', 'str'}


def is_seq(t):
    if t.op in SEQOPS:
        return True
    if t.op == 'Sym':
        return t.a[1] in SEQKINDS
    if t.op == 'Ite':
        return is_seq(t.a[1]) and is_seq(t.a[2])
    return t.op in ('Fld', 'At', 'App', 'Val', 'Get', 'LoopVal', 'Deref', 'Fold', 'BV', 'JArr', 'JFields', 'Narrow', 'JKey', 'MKey', 'MVal')


def segs(t):
    if t.op == 'Seq':
        return t.a[0]
    return (t,)


def mk_seq(ss):
    out = []
    for s in ss:
        if s.op == 'Seq':
            for x in s.a[0]:
                _push(out, x)
        else:
            _push(out, s)
    if len(out) == 1 and out[0].op not in ('Elems',):
        s = out[0]
        return s
    return mk('Seq', tuple(out))


def _push(out, s):
    if s.op == 'Elems':
        if not s.a[0]:
            return
        if out and out[-1].op == 'Elems':
            out[-1] = mk('Elems', out[-1].a[0] + s.a[0])
            return
    elif s.op == 'Fill':
        if s.a[0].op == 'Int':
            n = s.a[0].a[0]
            if n <= 0:
                return
            if n <= 64:
                return _push(out, mk('Elems', (s.a[1],) * n))
        if out and out[-1].op == 'Fill' and out[-1].a[1] is s.a[1]:
            out[-1] = mk('Fill', add(out[-1].a[0], s.a[0]), s.a[1])
            return
    elif s.op == 'Slice':
        v, lo, hi = s.a
        if lo is hi:
            return
        if out and out[-1].op == 'Slice' and out[-1].a[0] is v and out[-1].a[2] is lo:
            n = mk_slice(v, out[-1].a[1], hi)
            out.pop()
            for x in segs(n):
                _push(out, x)
            return
    elif s.op == 'Comp':
        if s.a[0].op == 'Int' and s.a[0].a[0] <= 0:
            return
        if s.a[2] is EMPTY:
            return
    out.append(s)


def elems(*xs):
    return mk_seq([mk('Elems', tuple(xs))])


def lit(s):
    """literal from code units"""
    return elems(*[I(c) for c in s]) if len(s) else EMPTY


def lits(s):
    return lit([ord(c) for c in s])


def fill(n, x):
    if n.op == 'Ite' and any(y.op == 'Int' and y.a[0] <= 0 for y in n.a[1:]):
        return ite_seq(n.a[0], fill(n.a[1], x), fill(n.a[2], x))
    return mk_seq([mk('Fill', n, x)])


def cat(*xs):
    return mk_seq(xs)


def mk_slice(v, lo, hi):
    if lo.op == 'Int' and lo.a[0] == 0 and hi is length(v):
        return v
    if lo is hi:
        return EMPTY
    if CTX is not None and v.op not in ('Elems',) and _known_le(length(v), hi) and _known_le(lo, I(0)) and _known_le(I(0), lo) and _known_le(hi, length(v)):
        return v
    if v.op == 'Slice':
        return mk_slice(v.a[0], add(v.a[1], lo), add(v.a[1], hi))
    if v.op == 'Fill':
        return fill(sub(hi, lo), v.a[1])
    if v.op == 'Seq':
        # drop leading / trailing segments when the bounds are decidable
        ss = list(v.a[0])
        pos = I(0)
        out = []
        ok = True
        for s in ss:
            L = length(s)
            nxt = add(pos, L)
            if _known_le(nxt, lo) or _known_le(hi, pos):
                pos = nxt
                continue
            a = lo if _known_le(pos, lo) else (pos if _known_le(lo, pos) else None)
            b = hi if _known_le(hi, nxt) else (nxt if _known_le(nxt, hi) else None)
            if a is None or b is None:
                ok = False
                break
            if s.op == 'Elems':
                x, y = sub(a, pos), sub(b, pos)
                if x.op != 'Int' or y.op != 'Int':
                    ok = False
                    break
                out.append(mk('Elems', s.a[0][x.a[0]:y.a[0]]))
            else:
                out.append(mk_slice(s, sub(a, pos), sub(b, pos)))
            pos = nxt
        if ok:
            return mk_seq(out)
    if v is EMPTY:
        return EMPTY
    if v.op == 'Comp' and lo.op == 'Int' and False:
        pass
    return mk('Slice', v, lo, hi)


CTX = None  # facts in force while refine() rebuilds a term


def _known_le(x, y, k=0):
    d = sub(y, x)
    lo = lin_lower(d)
    if lo is not None and lo >= k:
        return True
    return CTX is not None and d.op != 'Int' and _ctx(add(sub(x, y), I(k)))


def _ctx(g):
    """do the facts in force entail g <= 0?"""
    global CTX
    fs, CTX = CTX, None
    try:
        return entails(fs, le0(g)) is True
    finally:
        CTX = fs


def _known_lt(x, y):
    return _known_le(x, y, 1)


def length(t):
    if t.op == 'Seq':
        r = I(0)
        for s in t.a[0]:
            r = add(r, length(s))
        return r
    if t.op == 'Elems':
        return I(len(t.a[0]))
    if t.op == 'Fill':
        return t.a[0]
    if t.op == 'Slice':
        return sub(t.a[2], t.a[1])
    if t.op in ('IteS', 'Ite'):
        return Ite(t.a[0], length(t.a[1]), length(t.a[2]))
    if t.op == 'SeqUpd':
        return length(t.a[0])
    if t.op == 'Comp':
        n, k, body = t.a
        L = length(body)
        if maxbv_has(L, k):
            v = fresh('j', 'J')
            return msum(n, v, open_bv(L, k, v))
        if L.op == 'Int':
            return scale(clip(n), L.a[0])
        return mul(clip(n), L)
    if t.op == 'Undef':
        return UNDEF
    if t.op == 'Fold':
        n, init, k, body = t.a
        L = length(body)
        if L.op == 'Len' and L.a[0].op == 'BV' and L.a[0].a[0] == k + 1:
            return length(init)
    return mk('Len', t)


def clip(n):
    """iteration counts are never negative"""
    lo = lin_lower(n)
    if lo is not None and lo >= 0:
        return n
    return n


def maxbv_has(t, k):
    return contains(t, lambda x: x.op == 'BV' and x.a[0] == k)


def ite_seq(c, a, b):
    sa, sb = list(segs(a)), list(segs(b))
    pre = []
    while sa and sb:
        if sa[0] is sb[0]:
            pre.append(sa.pop(0))
            sb.pop(0)
        elif sa[0].op == 'Elems' and sb[0].op == 'Elems':
            x, y = sa[0].a[0], sb[0].a[0]
            n = 0
            while n < min(len(x), len(y)) and x[n] is y[n]:
                n += 1
            if n == 0:
                break
            pre.append(mk('Elems', x[:n]))
            sa[0] = mk('Elems', x[n:])
            sb[0] = mk('Elems', y[n:])
            if not sa[0].a[0]:
                sa.pop(0)
            if not sb[0].a[0]:
                sb.pop(0)
        else:
            break
    post = []
    while sa and sb:
        if sa[-1] is sb[-1]:
            post.insert(0, sa.pop())
            sb.pop()
        elif sa[-1].op == 'Elems' and sb[-1].op == 'Elems':
            x, y = sa[-1].a[0], sb[-1].a[0]
            n = 0
            while n < min(len(x), len(y)) and x[-1 - n] is y[-1 - n]:
                n += 1
            if n == 0:
                break
            post.insert(0, mk('Elems', x[len(x) - n:]))
            sa[-1] = mk('Elems', x[:len(x) - n])
            sb[-1] = mk('Elems', y[:len(y) - n])
            if not sa[-1].a[0]:
                sa.pop()
            if not sb[-1].a[0]:
                sb.pop()
        else:
            break
    xa, xb = mk_seq(sa), mk_seq(sb)
    if len(sa) == 1 and len(sb) == 1 and sa[0].op == 'Elems' and sb[0].op == 'Elems' and \
            len(sa[0].a[0]) == len(sb[0].a[0]) == 1:
        mid = mk('Elems', tuple(Ite(c, x, y) for x, y in zip(sa[0].a[0], sb[0].a[0])))
    elif xa.op == 'SeqUpd' and xa.a[0] is xb:
        mid = seq_upd(xb, xa.a[1], Ite(c, xa.a[2], at(xb, xa.a[1])))
    elif xb.op == 'SeqUpd' and xb.a[0] is xa:
        mid = seq_upd(xa, xb.a[1], Ite(c, at(xa, xb.a[1]), xb.a[2]))
    elif xa.op == 'SeqUpd' and xb.op == 'SeqUpd' and xa.a[0] is xb.a[0] and xa.a[1] is xb.a[1]:
        mid = seq_upd(xa.a[0], xa.a[1], Ite(c, xa.a[2], xb.a[2]))
    elif xa is xb:
        mid = xa
    elif pre or post:
        mid = mk('IteS', c, xa, xb)
    else:
        mid = _mk_ites(c, xa, xb)
    return mk_seq(pre + [mid] + post)


def _mk_ites(c, xa, xb):
    if xb.op == 'IteS' and xb.a[1] is xa:
        return _mk_ites(Or(c, xb.a[0]), xa, xb.a[2])
    if xb.op == 'IteS' and xb.a[2] is xa:
        return _mk_ites(Or(c, Not(xb.a[0])), xa, xb.a[1])
    if xa.op == 'IteS' and xa.a[2] is xb:
        return _mk_ites(And(c, xa.a[0]), xa.a[1], xb)
    if xa.op == 'IteS' and xa.a[1] is xb:
        return _mk_ites(And(c, Not(xa.a[0])), xa.a[2], xb)
    if c.op == 'Not':
        c, xa, xb = c.a[0], xb, xa
    if c.op == 'Le0':
        n = Not(c)
        if n.op == 'Le0' and n.id < c.id:
            c, xa, xb = n, xb, xa
    return mk('IteS', c, xa, xb)


def at(v, i):
    if v.op == 'Slice':
        return at(v.a[0], add(v.a[1], i))
    if v.op == 'Fill':
        return v.a[1]
    if v.op == 'SeqUpd':
        d = eq0(sub(v.a[1], i))
        if d is TRUE:
            return v.a[2]
        if d is FALSE:
            return at(v.a[0], i)
        if CTX is not None:
            if d in CTX or (_known_le(v.a[1], i) and _known_le(i, v.a[1])):
                return v.a[2]
            if Not(d) in CTX or _known_lt(v.a[1], i) or _known_lt(i, v.a[1]):
                return at(v.a[0], i)
        return Ite(d, v.a[2], at(v.a[0], i)) if v.a[1].op == 'Int' and i.op == 'Int' else mk('At', v, i)
    if v.op == 'Comp':
        n, k, body = v.a
        if body.op == 'Seq' and len(body.a[0]) == 1 and body.a[0][0].op == 'Elems' and len(body.a[0][0].a[0]) == 1:
            return open_bv(body.a[0][0].a[0][0], k, i)
    if v.op == 'Seq':
        pos = I(0)
        last = v.a[0][-1] if v.a[0] else None
        for s in v.a[0]:
            L = length(s)
            nxt = add(pos, L)
            # an element access is taken to be in range (range violations are reported at the access itself)
            if _known_le(pos, i) and (_known_lt(i, nxt) or s is last):
                if s.op == 'Elems':
                    if len(s.a[0]) == 1:
                        return s.a[0][0]
                    o = sub(i, pos)
                    if o.op == 'Int':
                        return s.a[0][o.a[0]] if 0 <= o.a[0] < len(s.a[0]) else UNDEF
                    break
                return at(s, sub(i, pos))
            if not _known_le(nxt, i):
                break
            pos = nxt
    if v.op in ('Ite', 'IteS'):
        return Ite(v.a[0], at(v.a[1], i), at(v.a[2], i))
    if v.op == 'Undef':
        return UNDEF
    return mk('At', v, i)


def seq_upd(v, i, x):
    if v.op == 'SeqUpd' and v.a[1] is i:
        v = v.a[0]
    if at(v, i) is x:
        return v
    if v.op == 'Seq' and i.op == 'Int':
        pos = 0
        out = list(v.a[0])
        for n, s in enumerate(out):
            L = length(s)
            if L.op != 'Int':
                break
            if s.op == 'Elems' and pos <= i.a[0] < pos + L.a[0]:
                e = list(s.a[0])
                e[i.a[0] - pos] = x
                out[n] = mk('Elems', tuple(e))
                return mk_seq(out)
            pos += L.a[0]
    if v.op == 'Seq' and i.op != 'Int':
        pos = I(0)
        for n, s in enumerate(v.a[0]):
            # the update is taken to be in range
            if pos is i and (s.op in ('Slice', 'Elems') or s is v.a[0][-1]):
                return cat(mk_seq(v.a[0][:n]), elems(x), mk_slice(s, I(1), length(s)), mk_seq(v.a[0][n + 1:]))
            pos = add(pos, length(s))
    return mk('SeqUpd', v, i, x)


# ---------------------------------------------------------------- binders
# Comp(n, k, body): k is the bound variable's index (BV(k,'J')), 0 <= BV < n, in order, concatenation of body.
# Sum(n, k, body), Fold(n, init, k, body) (acc = BV(k+1), index = BV(k)), FirstIdx(n, k, pred), MapAcc(init, n, k, cond, key, val)
INF = mk('Inf')


def BVt(k):
    return mk('BV', k, 'J')


BINDERS = {'Comp': 1, 'Sum': 1, 'Fold': 2, 'FirstIdx': 1, 'MapAcc': 3, 'NCount': 1, 'Exists': 1, 'Lam': 1}


def close(ts, vs):
    """replace the symbols vs in each of ts by bound variables; returns (k, closed ts)"""
    k = 1 + max([maxbv(t) for t in ts] + [0])
    m = {v: mk('BV', k + i, 'J' if v.a[1] == 'J' else '') for i, v in enumerate(vs)}
    return k, [subst(t, m) for t in ts]


def open_bv(t, k, x, extra=()):
    m = {mk('BV', k, 'J'): x}
    for i, y in enumerate(extra):
        m[mk('BV', k + 1 + i, '')] = y
    return subst(t, m)


def _found_before(c, v):
    """c = 'some index below v satisfies P': (index variable number, P) or None"""
    if c.op != 'Le0':
        return None
    k, d = lin_parts(c.a[0])
    if k != 1 or len(d) != 2 or d.get(v) != -1:
        return None
    x = next(a for a in d if a is not v)
    if d[x] == 1 and x.op == 'FirstIdx' and x.a[0] is v and v not in syms(x.a[2]):
        return x.a[1], x.a[2]
    return None


def _comp_stop(n, v, body):
    """a loop that appends only until some index satisfied P stops there"""
    for c, stop, go in ((body.a[0], body.a[1], body.a[2]), (Not(body.a[0]), body.a[2], body.a[1])):
        if stop is not EMPTY:
            continue
        ds = c.a[0] if c.op == 'Or' else (c,)
        for d in ds:
            r = _found_before(d, v)
            if r is not None:
                rest = Or(*[x for x in ds if x is not d])
                b = ite_seq(rest, EMPTY, go) if rest is not FALSE else go
                return comp(tmin(n, add(mk('FirstIdx', n, r[0], r[1]), I(1))), v, b)
    return None


PIECED = ('Seq', 'Comp', 'IteS')


def _over_pieces(n, v, body):
    """does v only walk over the elements of a sequence that is built from pieces?  (the sequence, x, body in terms of x)"""
    S = None
    seen = set()
    st = [body]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'At' and t.a[1] is v and t.a[0].op in PIECED:
            S = t.a[0]
            break
        st.extend(subterms_direct(t))
    if S is None or v in syms(S) or length(S) is not n:
        return None
    x = fresh('x', '')
    b = _put_elem(body, S, v, x)
    if v in syms(b):
        return None
    return S, x, b


def _put_elem(t, S, v, x):
    memo = {}

    def f(y):
        r = memo.get(y)
        if r is None:
            r = memo[y] = x if y.op == 'At' and y.a[1] is v and y.a[0] is S else rebuild(y, f)
        return r
    return f(t)


def seq_map(S, x, body):
    """concatenation of body for the elements x of S"""
    if S.op == 'Seq':
        return cat(*[seq_map(s, x, body) for s in S.a[0]])
    if S.op == 'Elems':
        return cat(*[subst(body, {x: e}) for e in S.a[0]])
    if S.op == 'IteS':
        return ite_seq(S.a[0], seq_map(S.a[1], x, body), seq_map(S.a[2], x, body))
    j = fresh('j', 'J')
    if S.op == 'Comp':
        return comp(S.a[0], j, seq_map(open_bv(S.a[2], S.a[1], j), x, body))
    return comp(length(S), j, subst(body, {x: at(S, j)}))


def seq_fold(S, init, x, acc, body):
    """acc := init; acc := body for the elements x of S in order"""
    if S.op == 'Seq':
        for s in S.a[0]:
            init = seq_fold(s, init, x, acc, body)
        return init
    if S.op == 'Elems':
        for e in S.a[0]:
            init = subst(body, {x: e, acc: init})
        return init
    if S.op == 'IteS':
        return Ite(S.a[0], seq_fold(S.a[1], init, x, acc, body), seq_fold(S.a[2], init, x, acc, body))
    j, b = fresh('j', 'J'), fresh('acc', '')
    if S.op == 'Comp':
        return fold(S.a[0], init, j, b, seq_fold(open_bv(S.a[2], S.a[1], j), b, x, acc, body))
    return fold(length(S), init, j, b, subst(body, {x: at(S, j), acc: b}))


def comp(n, v, body):
    """concatenation of body for v = 0..n-1"""
    if body is EMPTY:
        return EMPTY
    if n.op == 'Int' and n.a[0] <= 0:
        return EMPTY
    if body.op == 'IteS':
        r = _comp_stop(n, v, body)
        if r is not None:
            return r
    r = _over_pieces(n, v, body)
    if r is not None:
        return seq_map(r[0], r[1], r[2])
    ss = segs(body)
    if v not in syms(body):
        if len(ss) == 1 and ss[0].op == 'Elems' and len(ss[0].a[0]) == 1:
            return fill(n, ss[0].a[0][0])
        if len(ss) == 1 and ss[0].op == 'Fill' and False:
            pass
    # identity: [At(w, v)] for v in 0..n  ==  Slice(w, 0, n);  with shift: At(w, v+c)
    if len(ss) == 1 and ss[0].op == 'Elems' and len(ss[0].a[0]) == 1:
        e = ss[0].a[0][0]
        if e.op == 'At' and v not in syms(e.a[0]):
            o = sub(e.a[1], v)
            if v not in syms(o):
                return mk_slice(e.a[0], o, add(o, n))
    k, (b,) = close([body], [v])
    return mk_seq([mk('Comp', n, k, b)])


def msum(n, v, body):
    if body.op == 'Int' and body.a[0] == 0:
        return I(0)
    if v not in syms(body):
        return mul(n, body)
    k, (b,) = close([body], [v])
    return mk('Sum', n, k, b)


def first_idx(n, v, pred):
    """least v in [0,n) with pred(v), else n"""
    if pred is FALSE:
        return n
    k, (b,) = close([pred], [v])
    return mk('FirstIdx', n, k, b)


def exists(n, v, pred):
    return lt(first_idx(n, v, pred), n)


def fold(n, init, v, acc, body):
    """acc := init; for v in 0..n-1: acc := body"""
    if body is acc or (n.op == 'Int' and n.a[0] <= 0):
        return init
    if is_bool(init):
        r = _bool_fold(n, init, v, acc, body)
        if r is not None:
            return r
    if body.op == 'Seq':
        ss = list(segs(body))
        if ss[0] is acc and all(acc not in syms(x) for x in ss[1:]):
            return cat(init, comp(n, v, mk_seq(ss[1:])))
    r = _over_pieces(n, v, body)
    if r is not None:
        return seq_fold(r[0], init, r[1], acc, r[2])
    k, (b,) = close([body], [v, acc])
    return mk('Fold', n, init, k, b)


def _bool_fold(n, init, v, acc, body):
    """a flag that, once set (cleared), stays so"""
    if acc in syms(n):
        return None
    t, f = subst(body, {acc: TRUE}), subst(body, {acc: FALSE})
    if t is TRUE and is_bool(f):
        return Or(init, exists(n, v, f))
    if f is FALSE and is_bool(t):
        return And(init, Not(exists(n, v, Not(t))))
    if t is f and is_bool(t) and False:
        return None
    return None


def map_acc(init, n, v, cond, key, val):
    k, (c, kk, vv) = close([cond, key, val], [v])
    return mk('MapAcc', init, n, k, c, kk, vv)


# ---------------------------------------------------------------- maps
EMPTYMAP = mk('Map', ())


def m_has(m, k):
    if m.op == 'Map':
        r = FALSE
        for kk, _ in m.a[0]:
            r = Or(r, eq(kk, k))
        return r
    if m.op == 'Put':
        return Or(eq(m.a[1], k), m_has(m.a[0], k))
    if m.op == 'PutIf':
        return Or(And(m.a[1], eq(m.a[2], k)), m_has(m.a[0], k))
    if m.op == 'Ite':
        return Ite(m.a[0], m_has(m.a[1], k), m_has(m.a[2], k))
    return mk('Has', m, k)


def m_get(m, k):
    if m.op == 'Map':
        r = UNDEF
        for kk, v in reversed(m.a[0]):
            r = Ite(eq(kk, k), v, r)
        return r
    if m.op == 'Put':
        c = eq(m.a[1], k)
        if c is TRUE:
            return m.a[2]
        return Ite(c, m.a[2], m_get(m.a[0], k))
    if m.op == 'PutIf':
        return Ite(And(m.a[1], eq(m.a[2], k)), m.a[3], m_get(m.a[0], k))
    if m.op == 'Ite':
        return Ite(m.a[0], m_get(m.a[1], k), m_get(m.a[2], k))
    return mk('Get', m, k)


def m_put(m, k, v):
    if m.op == 'Map' and _constleaf(k):
        ent = [(a, b) for a, b in m.a[0]]
        for i, (a, b) in enumerate(ent):
            if a is k:
                ent[i] = (a, v)
                return mk('Map', tuple(ent))
        if all(_constleaf(a) for a, _ in ent):
            return mk('Map', tuple(ent + [(k, v)]))
    if m.op == 'Put' and m.a[1] is k:
        m = m.a[0]
    return mk('Put', m, k, v)


def m_putif(m, c, k, v):
    if v.op == 'Unit':
        # a set: what is in it already need not be left out
        h = Not(m_has(m, k))
        if c is h:
            return m_put(m, k, v)
        if c.op == 'And' and h in c.a[0]:
            c = And(*[x for x in c.a[0] if x is not h])
    if c.op == 'Bool':
        return m_put(m, k, v) if c.a[0] else m
    return mk('PutIf', m, c, k, v)


def m_size(m):
    if m.op == 'Map':
        return I(len(m.a[0]))
    return mk('MapSize', m)


# ---------------------------------------------------------------- rebuilding / substitution
def rebuild(t, f):
    """apply f to the direct subterms and renormalise"""
    op, a = t.op, t.a
    if op in ('Sym', 'Int', 'Bool', 'Null', 'Undef', 'BV', 'Unit'):
        return t
    if op == 'Lin':
        r = I(a[0])
        for x, k in a[1]:
            r = add(r, scale(f(x), k))
        return r
    if op == 'Mul':
        r = I(1)
        for x in a[0]:
            r = mul(r, f(x))
        return r
    if op == 'Div':
        return div(f(a[0]), f(a[1]))
    if op == 'Mod':
        return mod(f(a[0]), f(a[1]))
    if op == 'Min':
        return tmin(f(a[0][0]), f(a[0][1]))
    if op == 'Max':
        return tmax(f(a[0][0]), f(a[0][1]))
    if op == 'Cast':
        v = f(a[1])
        if v.op == 'Int':
            w = int(a[0][1:])
            x = v.a[0] & ((1 << w) - 1)
            return I(x - (1 << w) if a[0][0] == 's' and x >= 1 << (w - 1) else x)
        return mk('Cast', a[0], v)
    if op == 'App' and a[0] in REAPP:
        return REAPP[a[0]](*[f(x) for x in a[1]])
    if op == 'Le0':
        return le0(f(a[0]))
    if op == 'Eq0':
        return eq0(f(a[0]))
    if op == 'Eq':
        return eq(f(a[0]), f(a[1]))
    if op == 'Not':
        return Not(f(a[0]))
    if op == 'And':
        return And(*[f(x) for x in a[0]])
    if op == 'Or':
        return Or(*[f(x) for x in a[0]])
    if op == 'Ite':
        return Ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'IsNull':
        return eq(f(a[0]), NULL)
    if op == 'Opt':
        return mk_opt(f(a[0]), f(a[1]))
    if op == 'HasV':
        return has_value(f(a[0]))
    if op == 'Val':
        return opt_value(f(a[0]))
    if op == 'Fld':
        return fld(f(a[0]), a[1])
    if op == 'Rec':
        fs = [(n, f(v)) for n, v in a[1]]
        r = _eta(a[0], fs) if a[0] in ('std::pair',) else None
        return r if r is not None else mk('Rec', a[0], tuple(fs))
    if op == 'With':
        r = f(a[0])
        for n, v in a[1]:
            r = with_(r, n, f(v))
        return r
    if op == 'Seq':
        return mk_seq([f(x) if x.op != 'Elems' else mk('Elems', tuple(f(y) for y in x.a[0])) for x in a[0]])
    if op == 'Elems':
        return mk_seq([mk('Elems', tuple(f(y) for y in a[0]))])
    if op == 'Fill':
        return fill(f(a[0]), f(a[1]))
    if op == 'Slice':
        return mk_slice(f(a[0]), f(a[1]), f(a[2]))
    if op == 'IteS':
        c = f(a[0])
        if c.op == 'Bool':
            return f(a[1]) if c.a[0] else f(a[2])
        return ite_seq(c, f(a[1]), f(a[2]))
    if op == 'SeqUpd':
        return seq_upd(f(a[0]), f(a[1]), f(a[2]))
    if op == 'At':
        return at(f(a[0]), f(a[1]))
    if op == 'Len':
        return length(f(a[0]))
    if op == 'Has':
        return m_has(f(a[0]), f(a[1]))
    if op == 'Get':
        return m_get(f(a[0]), f(a[1]))
    if op == 'Put':
        return m_put(f(a[0]), f(a[1]), f(a[2]))
    if op == 'PutIf':
        c = f(a[1])
        if c.op == 'Bool':
            return m_put(f(a[0]), f(a[2]), f(a[3])) if c.a[0] else f(a[0])
        return m_putif(f(a[0]), c, f(a[2]), f(a[3]))
    if op == 'MapSize':
        return m_size(f(a[0]))
    if op == 'Deref':
        x = f(a[0])
        return unbox(x)
    if op in BINDERS:
        return _rebuild_binder(t, f)
    new = tuple(_map_arg(x, f) for x in a)
    return mk(op, *new)


def unbox(x):
    if x.op == 'Box':
        return x.a[0]
    if x.op == 'Ite':
        return Ite(x.a[0], unbox(x.a[1]), unbox(x.a[2]))
    if x.op in ('Undef', 'Null'):
        return UNDEF
    return mk('Deref', x)


def _map_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_arg(y, f) for y in x)
    return x


def _rebuild_binder(t, f):
    op, a = t.op, t.a
    j = fresh('j', 'J')
    if op == 'Comp':
        n, k, b = a
        return comp(f(n), j, f(open_bv(b, k, j)))
    if op == 'Sum':
        n, k, b = a
        return msum(f(n), j, f(open_bv(b, k, j)))
    if op == 'FirstIdx':
        n, k, b = a
        return first_idx(f(n), j, f(open_bv(b, k, j)))
    if op == 'Fold':
        n, init, k, b = a
        acc = fresh('acc', '')
        return fold(f(n), f(init), j, acc, f(open_bv(b, k, j, (acc,))))
    if op == 'MapAcc':
        init, n, k, c, kk, vv = a
        return map_acc(f(init), f(n), j, f(open_bv(c, k, j)), f(open_bv(kk, k, j)), f(open_bv(vv, k, j)))
    if op == 'Exists':
        n, k, b = a
        p = f(open_bv(b, k, j))
        if p.op == 'Bool' and not p.a[0]:
            return FALSE
        kk, (c,) = close([p], [j])
        return mk('Exists', f(n), kk, c)
    if op == 'Lam':
        k, b = a
        x, y = fresh('x', ''), fresh('y', '')
        kk, (c,) = close([f(subst(b, {mk('BV', k, ''): x, mk('BV', k + 1, ''): y}))], [x, y])
        return mk('Lam', kk, c)
    raise KeyError(op)


def subst(t, m, memo=None):
    """m: leaf term -> term"""
    if not m:
        return t
    memo = {} if memo is None else memo
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not _touches(t, m):
        r = t
    elif t.op in BINDERS and not all(k.op == 'BV' for k in m):
        r = _rebuild_binder(t, lambda x: _subst(x, m, memo))
    elif t.op in BINDERS:
        # substituting bound variables of an enclosing binder: inner indices are smaller, rebuild keeps them canonical
        r = _rebuild_binder(t, lambda x: _subst(x, m, memo))
    else:
        r = rebuild(t, lambda x: _subst(x, m, memo))
    memo[t] = r
    return r


def _touches(t, m):
    s = syms(t)
    for k in m:
        if k.op == 'Sym':
            if k in s:
                return True
        elif k.op == 'BV':
            if maxbv(t) >= k.a[0] and maxbv_has2(t, k):
                return True
        else:
            if contains_term(t, k):
                return True
    return False


_bvcache = {}


def maxbv_has2(t, k):
    key = (t, k)
    r = _bvcache.get(key)
    if r is None:
        r = contains(t, lambda x: x is k)
        _bvcache[key] = r
    return r


# ---------------------------------------------------------------- entailment of linear facts
def entails(facts, c, depth=0):
    """True / False / None: do the facts decide the condition c?"""
    if c.op == 'Bool':
        return c.a[0]
    fs = _flatten(facts)
    if c in fs:
        return True
    n = Not(c)
    if n in fs:
        return False
    e = eq_const(c if c.op != 'Not' else c.a[0])
    if e is not None:
        for f in fs:
            g = eq_const(f)
            if g is not None and g[0] is e[0] and g[1] is not e[1]:
                return c.op == 'Not'
    if c.op == 'And':
        rs = [entails(fs, x, depth) for x in c.a[0]]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if c.op == 'Or':
        rs = [entails(fs, x, depth) for x in c.a[0]]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        # case analysis: assume all but one false
        if depth < 2:
            ds = list(c.a[0])
            for i, x in enumerate(ds):
                if entails(list(fs) + [Not(y) for k, y in enumerate(ds) if k != i], x, depth + 1) is True:
                    return True
        return None
    if c.op == 'Le0':
        if _fm(fs, c.a[0]):
            return True
        if _fm(fs, sub(I(1), c.a[0])):
            return False
        return _cases(fs, c, depth)
    if c.op == 'Eq0':
        a, b = _fm(fs, c.a[0]), _fm(fs, neg(c.a[0]))
        if a and b:
            return True
        if _fm(fs, add(c.a[0], I(1))) or _fm(fs, add(neg(c.a[0]), I(1))):
            return False
        return _cases(fs, c, depth)
    if c.op == 'Not' and c.a[0].op == 'Eq0':
        r = entails(fs, c.a[0], depth)
        return None if r is None else (not r)
    if c.op == 'Not':
        r = entails(fs, c.a[0], depth) if c.a[0].op in ('Ite',) else None
        return None if r is None else (not r)
    return _cases(fs, c, depth)


def _cases(fs, c, depth):
    """split on one disjunctive fact that shares symbols with c"""
    if depth >= 2:
        return None
    cs = syms(c)
    n = 0
    for f in fs:
        if f.op == 'Or' and (syms(f) & cs):
            n += 1
            if n > 4:
                break
            rs = set()
            for d in f.a[0]:
                sub_ = [x for x in fs if x is not f] + [d]
                if inconsistent(sub_):
                    continue
                rs.add(entails(sub_, c, depth + 1))
            if rs == {True}:
                return True
            if rs == {False}:
                return False
    return None


def _flatten(facts):
    out = []
    seen = set()
    st = list(facts)
    while st:
        f = st.pop()
        if f in seen or f is TRUE:
            continue
        seen.add(f)
        if f.op == 'And':
            st.extend(f.a[0])
        else:
            out.append(f)
    # unit propagation on disjunctions
    changed = True
    s = set(out)
    known = {}
    for f in out:
        e = eq_const(f)
        if e is not None:
            known.setdefault(e[0], e[1])
    while changed:
        changed = False
        for f in list(out):
            if f.op == 'Or':
                rest = [d for d in f.a[0] if Not(d) not in s]
                if known:
                    rest = [d for d in rest if not _other_const(d, known)]
                if len(rest) == 1 and rest[0] not in s:
                    s.add(rest[0])
                    out.append(rest[0])
                    e = eq_const(rest[0])
                    if e is not None:
                        known.setdefault(e[0], e[1])
                    changed = True
    for x, k in known.items():
        d = eq0(sub(length(x), length(k)))
        if d.op != 'Bool':
            s.add(d)
    return s


def eq_const(f):
    """f = 'x equals this constant text': (x, constant)"""
    if f.op == 'Eq':
        a, b = f.a
        if a.op == 'Seq' and _constleaf(a):
            return b, a
        if b.op == 'Seq' and _constleaf(b):
            return a, b
    return None


def _other_const(f, known):
    e = eq_const(f)
    return e is not None and known.get(e[0], e[1]) is not e[1]


def inconsistent(facts):
    fs = _flatten(facts)
    if FALSE in fs:
        return True
    known = {}
    for f in fs:
        if Not(f) in fs:
            return True
        e = eq_const(f)
        if e is not None and known.setdefault(e[0], e[1]) is not e[1]:
            return True
    les = [f for f in fs if f.op in ('Le0', 'Eq0')]
    if les:
        if _fm(fs, I(1)):
            return True
        for f in fs:
            if f.op == 'Not' and f.a[0].op == 'Eq0':
                x = f.a[0].a[0]
                if _fm(fs, x) and _fm(fs, neg(x)):
                    return True
    return False


def fsn(fs):
    return _Fsn(fs)


class _Fsn:
    def __init__(self, fs):
        self.fs = fs

    def __contains__(self, x):
        return x is TRUE or x in self.fs


def _fm(fs, goal, limit=400):
    """do the linear facts entail goal <= 0? (Fourier-Motzkin refutation of facts and goal >= 1, over the rationals with
    integer tightening of the negated goal)"""
    ineqs = [sub(I(1), goal)]  # goal >= 1  <=>  1 - goal <= 0
    rel = set(lin_parts(goal)[1])
    pool = []
    for f in fs:
        if f.op == 'Le0':
            pool.append(f.a[0])
        elif f.op == 'Eq0':
            pool.append(f.a[0])
            pool.append(neg(f.a[0]))
        elif f.op == 'Not' and f.a[0].op == 'Eq0':
            # x != 0 with x >= 0 known gives x >= 1
            x = f.a[0].a[0]
            if x.op == 'Mod' and le0(neg(x.a[0])) in fsn(fs):
                pool.append(sub(I(1), x))
                continue
            lo = lin_lower(x)
            if lo is not None and lo >= 0:
                pool.append(sub(I(1), x))
            else:
                lo = lin_lower(neg(x))
                if lo is not None and lo >= 0:
                    pool.append(add(x, I(1)))
    # relevance closure; bounds of min / max / non-negative atoms
    changed = True
    used = set()
    extra = []
    seen_atoms = set()
    while changed:
        changed = False
        for a in list(rel):
            if a in seen_atoms:
                continue
            seen_atoms.add(a)
            if is_nonneg_atom(a):
                extra.append(neg(a))
            if a.op == 'Min':
                for x in a.a[0]:
                    extra.append(sub(a, x))
                    rel |= set(lin_parts(x)[1])
                changed = True
            if a.op == 'Max':
                for x in a.a[0]:
                    extra.append(sub(x, a))
                    rel |= set(lin_parts(x)[1])
                changed = True
            if a.op == 'FirstIdx':
                extra.append(sub(a, a.a[0]))
                rel |= set(lin_parts(a.a[0])[1])
                changed = True
            if a.op == 'Mod':
                # sign of the dividend, magnitude below the divisor
                if a.a[1].op == 'Int' and a.a[1].a[0] > 0:
                    extra.append(sub(a, I(a.a[1].a[0] - 1)))
                elif le0(sub(I(1), a.a[1])) in fsn(fs):
                    extra.append(add(sub(a, a.a[1]), I(1)))
                if le0(neg(a.a[0])) in fsn(fs):
                    extra.append(neg(a))
            if a.op == 'Ite':
                # bounded by leaves when they are linear and ordered constants
                ls = ite_leaves(a)
                if all(x.op == 'Int' for x in ls):
                    extra.append(sub(a, I(max(x.a[0] for x in ls))))
                    extra.append(sub(I(min(x.a[0] for x in ls)), a))
        for i, p in enumerate(pool):
            if i in used:
                continue
            at_ = set(lin_parts(p)[1])
            if at_ & rel or not at_:
                used.add(i)
                if not at_ <= rel:
                    rel |= at_
                changed = True
    fi = sorted((a for a in rel if a.op == 'FirstIdx'), key=lambda z: z.id)
    if 1 < len(fi) <= 4:
        extra += _fi_order(fs, fi)
    ineqs += [pool[i] for i in sorted(used)] + extra
    # discrete min/max: case split is left to callers
    cons = set()
    for t in ineqs:
        c, d = lin_parts(t)
        cons.add((c, tuple(sorted(d.items(), key=lambda z: z[0].id))))
    for _ in range(40):
        for c, d in cons:
            if not d and c > 0:
                return True
        atoms = {}
        for c, d in cons:
            for a, k in d:
                p = atoms.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not atoms:
            return False
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1], x.id))
        pos = [(c, dict(d)) for c, d in cons if dict(d).get(a, 0) > 0]
        negs = [(c, dict(d)) for c, d in cons if dict(d).get(a, 0) < 0]
        rest = {(c, d) for c, d in cons if dict(d).get(a, 0) == 0}
        for c1, d1 in pos:
            for c2, d2 in negs:
                k1, k2 = d1[a], -d2[a]
                c = c1 * k2 + c2 * k1
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * k1
                d = {x: k for x, k in d.items() if k != 0}
                if not d:
                    if c > 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = _gcd(g, abs(k))
                if g > 1:
                    c = -((-c) // g)
                    d = {x: k // g for x, k in d.items()}
                rest.add((c, tuple(sorted(d.items(), key=lambda z: z[0].id))))
        cons = rest
        if len(cons) > limit:
            return False
    return False


_fi_depth = [0]


def _fi_order(fs, fi):
    """linear relations between first indices: FirstIdx(P) <= FirstIdx(Q) if Q implies P; FirstIdx(P) + 1 <= FirstIdx(Q) if Q
    fails at 0 and, wherever P fails, at the next index"""
    if _fi_depth[0]:
        return []
    _fi_depth[0] += 1
    try:
        out = []
        base = [f for f in fs if f.op in ('Le0', 'Eq0', 'Not') and not contains(f, lambda z: z.op == 'FirstIdx')]
        for x in fi:
            for y in fi:
                if x is y or y.a[0].op != 'Inf' or x.a[0].op != 'Inf':
                    continue
                if _idx_le(base, add(x, I(1)), y):
                    out.append(add(sub(x, y), I(1)))
                    continue
                j = fresh('j', 'J')
                q = open_bv(y.a[2], y.a[1], j)
                if entails(list(base) + [q], open_bv(x.a[2], x.a[1], j)) is True:
                    out.append(sub(x, y))
        return out
    finally:
        _fi_depth[0] -= 1


def ite_leaves(t):
    if t.op in ('Ite', 'IteS'):
        return ite_leaves(t.a[1]) + ite_leaves(t.a[2])
    return [t]


def refine(t, facts, memo=None):
    """simplify t under facts"""
    global CTX
    old, CTX = CTX, None
    try:
        fs = _flatten(facts)
        CTX = fs or None
        return _refine(t, fs, {} if memo is None else memo)
    finally:
        CTX = old


def _refine(t, fs, memo):
    flags = {}
    for x in fs:
        if x.op in ('Fld', 'App', 'At', 'Val', 'Get', 'JBool'):
            flags[x] = TRUE
        elif x.op == 'Not' and x.a[0].op in ('Fld', 'App', 'At', 'Val', 'Get', 'JBool'):
            flags[x.a[0]] = FALSE

    def f(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in flags:
            r = flags[x]
        elif x.op in ('Ite', 'IteS'):
            c = f(x.a[0])
            e = entails(fs, c)
            if e is True:
                r = f(x.a[1])
            elif e is False:
                r = f(x.a[2])
            else:
                a = refine(x.a[1], list(fs) + [c]) if depth_ok(x) else f(x.a[1])
                b = refine(x.a[2], list(fs) + [Not(c)]) if depth_ok(x) else f(x.a[2])
                r = Ite(c, a, b) if x.op == 'Ite' else (a if c is TRUE else b if c is FALSE else ite_seq(c, a, b))
        elif is_bool(x) and x.op != 'Bool':
            e = entails(fs, x)
            r = B(e) if e is not None else rebuild(x, f)
        elif x.op in ('Min', 'Max'):
            a, b = f(x.a[0][0]), f(x.a[0][1])
            e = entails(fs, le(a, b))
            if e is True:
                r = a if x.op == 'Min' else b
            elif entails(fs, le(b, a)) is True:
                r = b if x.op == 'Min' else a
            elif _idx_le(fs, a, b):
                r = _unbound(a if x.op == 'Min' else b)
            elif _idx_le(fs, b, a):
                r = _unbound(b if x.op == 'Min' else a)
            else:
                r = tmin(a, b) if x.op == 'Min' else tmax(a, b)
        elif x.op in ('Comp', 'Sum', 'FirstIdx', 'Fold') and fs and len(fs) < 40:
            r = _refine_binder(x, f, fs)
        else:
            r = rebuild(x, f)
        memo[x] = r
        return r

    def depth_ok(x):
        return len(fs) < 40
    return f(t)


def _idx_le(fs, a, b):
    """a = FirstIdx(N, P) + 1 <= b = FirstIdx(Inf, Q), N being Inf or b: Q fails at 0 and, wherever P fails, at the next index"""
    if b.op != 'FirstIdx' or b.a[0].op != 'Inf':
        return False
    k, d = lin_parts(a)
    if k > 1 or len(d) != 1:
        return False
    (x, m), = d.items()
    if m != 1 or x.op != 'FirstIdx' or (x.a[0].op != 'Inf' and x.a[0] is not b):
        return False
    q0 = open_bv(b.a[2], b.a[1], I(0))
    if entails(list(fs), q0) is not False:
        return False
    j = fresh('j', 'J')
    q1 = open_bv(b.a[2], b.a[1], add(j, I(1)))
    p = open_bv(x.a[2], x.a[1], j)
    return entails(list(fs) + [Not(p)], q1) is False


def _unbound(a):
    k, d = lin_parts(a)
    (x, m), = d.items()
    return add(mk('FirstIdx', INF, x.a[1], x.a[2]), I(k))


def _for_all(f):
    """f = 'no index below n satisfies P', i.e. n <= first index: (n, k, P) or None"""
    if f.op != 'Le0':
        return None
    k, d = lin_parts(f.a[0])
    if k == 0 and len(d) == 2:
        for x, c in d.items():
            if c == -1 and x.op == 'FirstIdx' and d.get(x.a[0]) == 1:
                return x.a
    return None


def index_facts(fs, n, j):
    """what holds of an index j running below n: j < n, and no index below a first index satisfies its condition"""
    out = [lt(j, n)] if n.op != 'Inf' else []
    fi = set()
    for f in list(fs) + out:
        if f.op in ('Le0', 'Eq0'):
            for a in lin_parts(f.a[0])[1]:
                if a.op == 'FirstIdx':
                    fi.add(a)
    if n.op == 'FirstIdx':
        fi.add(n)
    for f in fs:
        r = _for_all(f)
        if r is not None and (r[0] is n or entails(list(fs) + out, lt(j, r[0])) is True):
            out.append(Not(open_bv(r[2], r[1], j)))
    for a in sorted(fi, key=lambda z: z.id):
        if a is n or entails(list(fs) + out, lt(j, a)) is True:
            out.append(Not(open_bv(a.a[2], a.a[1], j)))
            # and bounds of its bounds
            if a.a[0].op == 'FirstIdx':
                out.append(Not(open_bv(a.a[0].a[2], a.a[0].a[1], j)))
    return out


def _refine_binder(t, f, fs):
    global CTX
    op, a = t.op, t.a
    j = fresh('j', 'J')
    n = f(a[0])

    if n.op != 'Inf' and op in ('Comp', 'Sum', 'Fold') and entails(fs, le(n, I(0))) is True:
        return EMPTY if op == 'Comp' else I(0) if op == 'Sum' else f(a[1])

    def g(x):
        return refine(x, list(fs) + index_facts(fs, n, j))
    if op == 'Comp':
        return comp(n, j, g(open_bv(a[2], a[1], j)))
    if op == 'Sum':
        return msum(n, j, g(open_bv(a[2], a[1], j)))
    if op == 'FirstIdx':
        r = first_idx(n, j, g(open_bv(a[2], a[1], j)))
        if r.op == 'FirstIdx' and n.op == 'FirstIdx' and _idx_le(fs, add(r, I(1)), n):
            r = mk('FirstIdx', INF, r.a[1], r.a[2])
        return r
    acc = fresh('acc', '')
    return fold(n, f(a[1]), j, acc, g(open_bv(a[3], a[2], j, (acc,))))


def show(t, d=0):
    if d > 30:
        return '...'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op == 'Sym':
        return a[0]
    if op in ('Int', 'Bool'):
        return str(a[0])
    if op == 'BV':
        return 'j%d' % a[0]
    if op == 'Lin':
        r = []
        for x, k in a[1]:
            r.append(('%s' % s(x)) if k == 1 else '-%s' % s(x) if k == -1 else '%d*%s' % (k, s(x)))
        if a[0]:
            r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if op == 'Le0':
        return '(%s <= 0)' % s(a[0])
    if op == 'Eq0':
        return '(%s == 0)' % s(a[0])
    if op == 'Not':
        return '!' + s(a[0])
    if op in ('And', 'Or'):
        return '(' + (' & ' if op == 'And' else ' | ').join(s(x) for x in a[0]) + ')'
    if op == 'Fld':
        return s(a[0]) + '.' + a[1]
    if op == 'Elems':
        if a[0] and all(x.op == 'Int' and 32 <= x.a[0] < 127 for x in a[0]):
            return '"' + ''.join(chr(x.a[0]) for x in a[0]) + '"'
        return '[' + ', '.join(s(x) for x in a[0]) + ']'
    if op == 'Seq':
        return ' ++ '.join(s(x) for x in a[0]) if a[0] else '""'
    if op == 'Rec':
        return a[0].split('::')[-1] + '{' + ', '.join('%s: %s' % (n, s(v)) for n, v in a[1]) + '}'
    if op == 'With':
        return s(a[0]) + '{' + ', '.join('%s := %s' % (n, s(v)) for n, v in a[1]) + '}'
    if op == 'At':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'Comp':
        return 'for j%d<%s: (%s)' % (a[1], s(a[0]), s(a[2]))
    return op + '(' + ', '.join(s(x) if isinstance(x, T) else ('(' + ','.join(s(y) if isinstance(y, T) else str(y) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in a) + ')'
