"""Path-sensitive flow analysis over the resolved syntax tree.

States are finite maps (access path -> abstract value, plus whatever a client tracks); repo functions and lambdas are inlined
with their parameters bound to the caller's access paths, loops run to a fixpoint. Clients supply the typestate."""
from load import walk

MAXSTATES = 400
MAXDEPTH = 12

STD_EXC = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
    'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::underflow_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception', 'std::bad_cast': 'std::exception',
    'std::bad_optional_access': 'std::exception', 'std::bad_function_call': 'std::exception', 'simdjson::simdjson_error': 'std::exception',
    'std::system_error': 'std::runtime_error', 'std::regex_error': 'std::runtime_error', 'std::bad_variant_access': 'std::exception',
}


def exc_bases(n):
    out = [n]
    while n in STD_EXC:
        n = STD_EXC[n]
        out.append(n)
    return out


class St:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def get(self, k, dv=None):
        return self.d.get(k, dv)

    def put(self, k, v):
        if self.d.get(k, None) == v and (k in self.d or v is None):
            return self
        d = dict(self.d)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return St(d)

    def update(self, f):
        """f(k, v) -> new v (None drops)"""
        d = {}
        ch = False
        for k, v in self.d.items():
            w = f(k, v)
            if w is not v:
                ch = True
            if w is not None:
                d[k] = w
        return St(d) if ch else self

    def __eq__(self, o):
        return self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __repr__(self):
        return repr(self.d)


class Frame:
    n = 0

    def __init__(self, fn, unit, parent=None, site=None, this=None):
        self.fn = fn
        self.unit = unit
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0
        self.key = (parent.key if parent else ()) + (site,) if parent else ()
        self.this = this

    def chain(self):
        f = self
        out = []
        while f is not None:
            out.append(f.fn.get('qn', 'lambda'))
            f = f.parent
        return out[::-1]


class Out:
    """outcomes of a statement"""
    __slots__ = ('next', 'ret', 'brk', 'cont', 'throw')

    def __init__(self):
        self.next, self.ret, self.brk, self.cont, self.throw = set(), set(), set(), set(), set()

    def merge_exits(self, o):
        self.ret |= o.ret
        self.throw |= o.throw


class Client:
    """default client: tracks nothing"""
    handles = ()

    def call(self, fl, fr, st, e, name, obj, args):
        return None

    def want_inline(self, fl, fr, e, f):
        return True

    def maythrow(self, fl, fr, e, f):
        return None

    def on_return(self, fl, fr, st, v, s):
        pass

    def on_stmt(self, fl, fr, st, s):
        return st

    def value(self, fl, fr, st, e, v):
        """a value is read (lvalue to rvalue)"""
        return v

    def truth(self, fl, st, v):
        """-> list of (truth, st) refinements of condition value v"""
        return [(True, st), (False, st)]

    def on_range(self, fl, fr, st, s, rv):
        return st

    def on_iter(self, fl, fr, st, s, rv):
        return st

    def on_decl(self, fl, fr, st, v, val):
        return st

    def on_assign(self, fl, fr, st, e, loc, val):
        return st


class Flow:
    def __init__(self, prog, client):
        self.p = prog
        self.c = client
        self.unk = 0
        self.inlined = set()
        self.calls = 0
        self.throws = []      # stack of sets collecting exceptional states
        self.stack = []
        self.cut = False

    # ------------------------------------------------------------------ entry
    def run(self, fn, st=None, this=('this',)):
        fr = Frame(fn, fn['unit'], None, None, this)
        st = st or St({})
        for p in fn['params']:
            st = self.bind_entry(fr, st, p)
        return self.body(fn, fr, {st})

    def bind_entry(self, fr, st, p):
        return st.put(('v', fr.key, p['id']), ('R', ('param', p['n']))) if p.get('ref') else st

    def body(self, fn, fr, states):
        self.stack.append(fn['usr'])
        self.throws.append(set())
        out = Out()
        out.next = states
        for i in fn.get('inits', []) or []:
            nx = set()
            for st in out.next:
                if i.get('e') is None:
                    nx.add(st)
                    continue
                for s2, v in self.ev(i['e'], st, fr):
                    if i.get('f') and fr.this is not None:
                        s2 = self.store(fr, s2, i['e'], fr.this + (i['f'],), v)
                    nx.add(s2)
            out.next = nx
        o = self.exec(fn.get('body'), out.next, fr)
        o.ret |= {(s, None) for s in o.next}
        o.next = set()
        o.throw |= self.throws.pop()
        self.stack.pop()
        return o

    def cap(self, states):
        if len(states) > MAXSTATES:
            self.cut = True
            return set(sorted(states, key=repr)[:MAXSTATES])
        return states

    # ------------------------------------------------------------------ statements
    def exec(self, s, states, fr):
        out = Out()
        if s is None:
            out.next = set(states)
            return out
        states = self.cap(states)
        k = s['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            self.unk += 1
            out.next = set(states)
            return out
        ns = set()
        for st in states:
            ns.add(self.c.on_stmt(self, fr, st, s))
        m(s, ns, fr, out)
        return out

    def x_Block(self, s, states, fr, out):
        cur = states
        for x in s['s']:
            if not cur:
                break
            o = self.exec(x, cur, fr)
            out.ret |= o.ret
            out.throw |= o.throw
            out.brk |= o.brk
            out.cont |= o.cont
            cur = o.next
        out.next = cur

    def x_Decl(self, s, states, fr, out):
        cur = states
        for v in s['v']:
            cur = self.decl(v, cur, fr)
        out.next = cur

    def decl(self, v, states, fr):
        nx = set()
        key = ('v', fr.key, v['id'])
        for st in states:
            if v.get('init') is None:
                nx.add(self.c.on_decl(self, fr, self.kill(st.put(key, None), key), v, None))
                continue
            for s2, val in self.ev(v['init'], st, fr):
                if v.get('bindings'):
                    s2 = self.bindings(fr, s2, v, val)
                elif v.get('ref'):
                    s2 = self.kill(s2, key)
                    if val and val[0] == 'L':
                        s2 = s2.put(key, ('R', val[1]))
                    else:
                        s2 = s2.put(key, val)
                else:
                    s2 = self.kill(s2, key)
                    s2 = self.store(fr, s2, v['init'], key, val, decl=True)
                nx.add(self.c.on_decl(self, fr, s2, v, val))
        return nx

    def bindings(self, fr, st, v, val):
        for b in v['bindings']:
            key = ('v', fr.key, b['id'])
            st = self.kill(st, key)
            if val and val[0] == 'L' and v.get('ref'):
                st = st.put(key, ('R', val[1] + (b.get('f', '#'),)))
        return st

    def kill(self, st, key):
        """forget what is known below an access path (a fresh object lives there now)"""
        n = len(key)
        ks = [k for k in st.d if isinstance(k, tuple) and k[:n] == key]
        for k in ks:
            st = st.put(k, None)
        return st

    def store(self, fr, st, e, loc, val, decl=False):
        if val is not None and val[0] == 'L':
            val = self.read(fr, st, e, val[1])
        if loc is None:
            return st
        st = st.put(loc, val)
        return self.c.on_assign(self, fr, st, e, loc, val) if not decl else st

    def read(self, fr, st, e, loc):
        v = st.get(loc)
        if v is not None and v[0] == 'R':
            v = None
        return self.c.value(self, fr, st, e, v if v is not None else ('O', loc))

    def x_If(self, s, states, fr, out):
        cur = states
        if s.get('init'):
            o = self.exec(s['init'], cur, fr)
            self.exits(out, o)
            cur = o.next
        if s.get('var'):
            cur = self.decl(s['var'], cur, fr)
        t, f = self.cond(s['c'], cur, fr)
        o1 = self.exec(s['th'], t, fr) if t else Out()
        self.allof(out, o1)
        if s.get('el') and f:
            self.allof(out, self.exec(s['el'], f, fr))
        else:
            out.next |= f

    def exits(self, out, o):
        out.ret |= o.ret
        out.throw |= o.throw
        out.brk |= o.brk
        out.cont |= o.cont

    def allof(self, out, o):
        self.exits(out, o)
        out.next |= o.next

    def loop(self, s, states, fr, out, cond, inc, body, first=True, pre=None):
        seen = set()
        work = set(states)
        exits = set()
        n = 0
        while work:
            n += 1
            if n > 60:
                self.cut = True
                break
            if first:
                t, f = self.cond(cond, work, fr) if cond is not None else (work, set())
            else:
                t, f = work, set()
            exits |= f
            t = self.cap(t) - seen if not pre else self.cap(t) - seen
            seen |= t
            if pre:
                t = pre(t)
            o = self.exec(body, t, fr)
            out.ret |= o.ret
            out.throw |= o.throw
            exits |= o.brk
            nx = o.next | o.cont
            if inc is not None:
                n2 = set()
                for st in nx:
                    for s2, _ in self.ev(inc, st, fr):
                        n2.add(s2)
                nx = n2
            if not first:
                t, f = self.cond(cond, nx, fr)
                exits |= f
                nx = t - seen
            work = nx - (seen if first and cond is None else set())
            if len(seen) > MAXSTATES * 3:
                self.cut = True
                break
            if first and cond is not None:
                # states already tested
                work = {w for w in work if ('w', w) not in seen}
                seen |= {('w', w) for w in work}
        out.next |= exits

    def x_While(self, s, states, fr, out):
        if s.get('var'):
            # while (T x = e): declare, test
            seen = set()
            work = set(states)
            while work:
                seen |= work
                d = self.decl(s['var'], work, fr)
                t, f = self.cond(s['c'], d, fr)
                out.next |= f
                o = self.exec(s['body'], t, fr)
                out.ret |= o.ret
                out.throw |= o.throw
                out.next |= o.brk
                work = (o.next | o.cont) - seen
            return
        self.loop(s, states, fr, out, s['c'], None, s['body'])

    def x_Do(self, s, states, fr, out):
        self.loop(s, states, fr, out, s['c'], None, s['body'], first=False)

    def x_For(self, s, states, fr, out):
        cur = states
        if s.get('init'):
            o = self.exec(s['init'], cur, fr)
            self.exits(out, o)
            cur = o.next
        self.loop(s, cur, fr, out, s.get('c'), s.get('inc'), s['body'])

    def x_RangeFor(self, s, states, fr, out):
        cur = states
        if s.get('init'):
            o = self.exec(s['init'], cur, fr)
            self.exits(out, o)
            cur = o.next
        rng = ('rng', fr.key, s['v']['id'])
        start = set()
        for st in cur:
            for s2, v in self.ev(s['range'], st, fr):
                s2 = s2.put(rng, ('R', v[1]) if v and v[0] == 'L' else v)
                start.add(self.c.on_range(self, fr, s2, s, v))
        seen = set()
        work = start
        while work:
            work = self.cap(work)
            seen |= work
            out.next |= {st.put(rng, None) for st in work}
            b = set()
            for st in work:
                rv = st.get(rng)
                st = self.c.on_iter(self, fr, st, s, rv)
                v = s['v']
                key = ('v', fr.key, v['id'])
                st = self.kill(st, key)
                if rv and rv[0] == 'R':
                    el = rv[1] + ('[]',)
                    if v.get('bindings'):
                        st = self.bindings(fr, st, v, ('L', el))
                    elif v.get('ref'):
                        st = st.put(key, ('R', el))
                elif v.get('bindings'):
                    st = self.bindings(fr, st, v, None)
                b.add(self.c.on_decl(self, fr, st, v, None))
            o = self.exec(s['body'], b, fr)
            out.ret |= o.ret
            out.throw |= o.throw
            out.next |= {st.put(rng, None) for st in o.brk}
            work = (o.next | o.cont) - seen

    def x_Switch(self, s, states, fr, out):
        cur = states
        if s.get('init'):
            o = self.exec(s['init'], cur, fr)
            self.exits(out, o)
            cur = o.next
        if s.get('var'):
            cur = self.decl(s['var'], cur, fr)
        nx = set()
        for st in cur:
            for s2, _ in self.ev(s['c'], st, fr):
                nx.add(s2)
        # every label is reachable from the head; falling through is sequential
        flat = []

        def flatten(b):
            if b is None:
                return
            if b['k'] == 'Block':
                for x in b['s']:
                    flatten(x)
            elif b['k'] in ('Case', 'Default'):
                flat.append(('label', b['k']))
                flatten(b['s'])
            else:
                flat.append(('s', b))
        flatten(s['body'])
        curs = set()
        hasdef = any(x == ('label', 'Default') for x in flat)
        for kind, x in flat:
            if kind == 'label':
                curs = curs | nx
            elif curs:
                o = self.exec(x, curs, fr)
                out.ret |= o.ret
                out.throw |= o.throw
                out.cont |= o.cont
                out.next |= o.brk
                curs = o.next
        out.next |= curs
        if not hasdef:
            out.next |= nx

    def x_Return(self, s, states, fr, out):
        for st in states:
            if s.get('a') is None:
                self.c.on_return(self, fr, st, None, s)
                out.ret.add((st, None))
                continue
            for s2, v in self.ev(s['a'], st, fr):
                rt = self.p.type(fr.unit, fr.fn.get('rt'))
                if v and v[0] == 'L' and not (rt and rt.get('ref')):
                    v = self.read(fr, s2, s['a'], v[1])
                self.c.on_return(self, fr, s2, v, s)
                out.ret.add((s2, v))

    def x_Break(self, s, states, fr, out):
        out.brk |= states

    def x_Continue(self, s, states, fr, out):
        out.cont |= states

    def x_Nop(self, s, states, fr, out):
        out.next |= states

    def x_Expr(self, s, states, fr, out):
        for st in states:
            for s2, _ in self.ev(s['a'], st, fr):
                out.next.add(s2)

    def x_Try(self, s, states, fr, out):
        self.throws.append(set())
        o = self.exec(s['body'], states, fr)
        th = o.throw | self.throws.pop()
        o.throw = set()
        self.allof(out, o)
        rest = th
        for h in s['h']:
            caught = set()
            left = set()
            ht = self.p.type(fr.unit, h['t'])['cls'] if h.get('t') is not None and self.p.type(fr.unit, h['t']).get('cls') else None
            for st, x in rest:
                if h.get('t') is None:
                    caught.add((st, x))
                    continue
                if x == '?':
                    # an exception of an unknown class derived from std::exception
                    caught.add((st, x))
                    if ht != 'std::exception':
                        left.add((st, x))
                elif ht in exc_bases(x) or ht in self.repo_bases(x):
                    caught.add((st, x))
                else:
                    left.add((st, x))
            rest = left
            if caught:
                self.rethrow = getattr(self, 'rethrow', [])
                for st, x in caught:
                    self.rethrow.append(x)
                    oh = self.exec(h['body'], {st}, fr)
                    self.rethrow.pop()
                    self.allof(out, oh)
        out.throw |= rest

    def repo_bases(self, x):
        out = []
        c = self.p.class_by_qn.get(x)
        todo = [c] if c else []
        while todo:
            c = todo.pop()
            for n in c.get('basenames', []) or []:
                out += exc_bases(n)
            for b in c['bases']:
                bc = self.p.classes.get(b)
                if bc:
                    out.append(bc['qn'])
                    todo.append(bc)
        return out

    def x_UnsupS(self, s, states, fr, out):
        self.unk += 1
        out.next |= states

    def x_Case(self, s, states, fr, out):
        self.allof(out, self.exec(s['s'], states, fr))

    x_Default = x_Case

    # ------------------------------------------------------------------ conditions
    def cond(self, e, states, fr):
        t, f = set(), set()
        for st in states:
            a, b = self.cond1(e, st, fr)
            t |= a
            f |= b
        return t, f

    def cond1(self, e, st, fr):
        if e['k'] == 'Un' and e['op'] == '!':
            a, b = self.cond1(e['a'], st, fr)
            return b, a
        if e['k'] == 'Bin' and e['op'] == '&&':
            a, b = self.cond1(e['a'], st, fr)
            t, f = self.cond(e['b'], a, fr)
            return t, b | f
        if e['k'] == 'Bin' and e['op'] == '||':
            a, b = self.cond1(e['a'], st, fr)
            t, f = self.cond(e['b'], b, fr)
            return a | t, f
        if e['k'] == 'Bool':
            return ({st}, set()) if e['v'] else (set(), {st})
        if e['k'] == 'Cast' and e.get('ck') in ('IntegralToBoolean', 'IntegralCast', 'PointerToBoolean'):
            return self.cond1(e['a'], st, fr)
        t, f = set(), set()
        for s2, v in self.ev(e, st, fr):
            if v and v[0] == 'L':
                v = self.read(fr, s2, e, v[1])
            if v and v[0] == 'K':
                (t if v[1] else f).add(s2)
                continue
            if v and v[0] == 'B':
                # ('B', condition value, polarity)
                for tr, s3 in self.c.truth(self, s2, v[1]):
                    (t if tr == v[2] else f).add(s3)
                continue
            for tr, s3 in self.c.truth(self, s2, v):
                (t if tr else f).add(s3)
        return t, f

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if e is None:
            return [(st, None)]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.unk += 1
            return [(st, None)]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """evaluate in order -> [(st, [values])]"""
        cur = [(st, [])]
        for x in es:
            nx = []
            seen = set()
            for s, vs in cur:
                for s2, v in self.ev(x, s, fr):
                    k = (s2, tuple(vs) + (v,))
                    try:
                        if k in seen:
                            continue
                        seen.add(k)
                    except TypeError:
                        pass
                    nx.append((s2, vs + [v]))
            cur = nx[:MAXSTATES]
        return cur

    def kids(self, es, st, fr):
        return [(s, None) for s, _ in self.evs(es, st, fr)]

    def e_Int(self, e, st, fr):
        return [(st, ('K', e['v']) if isinstance(e['v'], int) else None)]

    def e_Bool(self, e, st, fr):
        return [(st, ('K', int(e['v'])))]

    def e_Enum(self, e, st, fr):
        return [(st, ('K', e['v']))]

    def e_Null(self, e, st, fr):
        return [(st, ('N',))]

    def e_Str(self, e, st, fr):
        return [(st, None)]

    e_Flt = e_ValueInit = e_Str

    def e_Fn(self, e, st, fr):
        f = self.p.lookup(e['usr'], fr.unit)
        return [(st, ('FN', f['usr'], fr.unit.n) if f is not None and f.get('body') else None)]

    def e_MemFn(self, e, st, fr):
        return self.kids([e['b']], st, fr)

    def e_This(self, e, st, fr):
        return [(st, ('P', fr.this) if fr.this is not None else None)]

    def e_Var(self, e, st, fr):
        f = fr
        while f is not None:
            key = ('v', f.key, e['id'])
            v = st.get(key)
            if v is not None and v[0] == 'R':
                return [(st, ('L', v[1]))]
            if v is not None or not f.fn.get('$lam') or e['id'] in f.fn['$locals']:
                break
            f = f.fn['$outer']
        key = ('v', f.key if f is not None else fr.key, e['id'])
        v = st.get(key)
        if v is not None and v[0] in ('X',):
            return [(st, self.c.value(self, fr, st, e, v))]
        return [(st, ('L', key))]

    def e_GVar(self, e, st, fr):
        if e.get('cv') is not None:
            return [(st, ('K', e['cv']))]
        return [(st, ('L', ('g', e['usr'])))]

    def e_Mem(self, e, st, fr):
        out = []
        for s, v in self.ev(e['b'], st, fr):
            if e.get('arrow'):
                if v and v[0] == 'L':
                    v = self.read(fr, s, e, v[1])
                loc = self.pointee(v)
                out.append((s, ('L', loc + (e['f'],)) if loc is not None else None))
            elif v and v[0] == 'L':
                out.append((s, ('L', v[1] + (e['f'],))))
            else:
                out.append((s, None))
        return out

    def pointee(self, v):
        if v is None:
            return None
        if v[0] == 'P':
            return v[1]
        if v[0] == 'I':
            return v[1] + ('[]',)
        if v[0] == 'O':
            return v[1] + ('*',)
        return None

    def e_Un(self, e, st, fr):
        out = []
        op = e['op']
        for s, v in self.ev(e['a'], st, fr):
            if op == '&':
                out.append((s, ('P', v[1]) if v and v[0] == 'L' else None))
            elif op == '*':
                if v and v[0] == 'L':
                    v = self.read(fr, s, e, v[1])
                loc = self.pointee(v)
                out.append((s, ('L', loc) if loc is not None else None))
            elif op == '!':
                if v and v[0] == 'L':
                    v = self.read(fr, s, e, v[1])
                if v and v[0] == 'K':
                    v = ('K', int(not v[1]))
                elif v and v[0] == 'B':
                    v = ('B', v[1], not v[2])
                elif v is not None:
                    v = ('B', v, False)
                out.append((s, v))
            elif op in ('++', '--'):
                if v and v[0] == 'L':
                    w = self.read(fr, s, e, v[1])
                    s = s.put(v[1], w if w and w[0] == 'I' else None)
                    out.append((s, v))
                else:
                    out.append((s, v))
            elif op == '-':
                out.append((s, ('K', -v[1]) if v and v[0] == 'K' else None))
            else:
                out.append((s, None))
        return out

    def e_Cast(self, e, st, fr):
        out = []
        for s, v in self.ev(e['a'], st, fr):
            if v and v[0] == 'L' and e.get('ck') not in ('BitCast', 'LValueBitCast', 'Const'):
                v = self.read(fr, s, e, v[1])
            out.append((s, v))
        return out

    def e_Bin(self, e, st, fr):
        if e['op'] in ('&&', '||'):
            t, f = self.cond1(e, st, fr)
            return [(s, ('K', 1)) for s in t] + [(s, ('K', 0)) for s in f]
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
            if a and a[0] == 'L':
                a = self.read(fr, s, e['a'], a[1])
            if b and b[0] == 'L':
                b = self.read(fr, s, e['b'], b[1])
            out.append((s, self.c_bin(e, s, a, b)))
        return out

    def c_bin(self, e, s, a, b):
        op = e['op']
        if op == ',':
            return b
        if a and b and a[0] == b[0] == 'K':
            try:
                r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '<=': a[1] <= b[1], '>': a[1] > b[1], '>=': a[1] >= b[1]}.get(op)
            except TypeError:
                r = None
            if r is not None:
                return ('K', int(r))
            return None
        h = getattr(self.c, 'binop', None)
        return h(self, s, op, a, b) if h else None

    def e_Assign(self, e, st, fr):
        out = []
        for s, (b, a) in self.evs([e['b'], e['a']], st, fr):
            if a and a[0] == 'L':
                s = self.store(fr, s, e, a[1], b)
            out.append((s, a))
        return out

    def e_CAssign(self, e, st, fr):
        out = []
        for s, (b, a) in self.evs([e['b'], e['a']], st, fr):
            if a and a[0] == 'L':
                w = self.read(fr, s, e, a[1])
                s = s.put(a[1], w if w and w[0] == 'I' else None)
            out.append((s, a))
        return out

    def e_Cond(self, e, st, fr):
        t, f = self.cond1(e['c'], st, fr)
        out = []
        for s in t:
            out += self.ev(e['a'], s, fr)
        for s in f:
            out += self.ev(e['b'], s, fr)
        return out

    def e_Sub(self, e, st, fr):
        out = []
        for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
            loc = a[1] + ('[]',) if a and a[0] == 'L' else self.pointee(a)
            out.append((s, ('L', loc) if loc is not None else None))
        return out

    def e_InitList(self, e, st, fr):
        return self.kids(e['e'], st, fr)

    def e_StdInit(self, e, st, fr):
        return self.kids([e['a']], st, fr)

    def e_Unsup(self, e, st, fr):
        return self.kids(e.get('kids', []), st, fr)

    def e_Lambda(self, e, st, fr):
        return [(st, ('F', e['id'], fr.key))] if self.reg_lambda(e, fr) else [(st, None)]

    def reg_lambda(self, e, fr):
        self.lams = getattr(self, 'lams', {})
        self.lams[(e['id'], fr.key)] = (e, fr)
        return True

    def e_New(self, e, st, fr):
        if e.get('init') is not None:
            return [(s, ('NEW', e['l'])) for s, _ in self.ev(e['init'], st, fr)]
        return [(st, ('NEW', e['l']))]

    def e_Delete(self, e, st, fr):
        return self.kids([e['a']], st, fr)

    def e_Throw(self, e, st, fr):
        if e.get('a') is None:
            r = getattr(self, 'rethrow', [])
            self.throws[-1].add((st, r[-1] if r else '?'))
            return []
        t = self.p.type(fr.unit, e['a'].get('t'))
        cls = (t or {}).get('cls') or ((t or {}).get('s') or 'int')
        for s, _ in self.ev(e['a'], st, fr):
            self.throws[-1].add((s, cls))
        return []

    def e_Copy(self, e, st, fr):
        out = []
        for s, v in self.ev(e['a'], st, fr):
            w = v
            if v and v[0] == 'L':
                w = self.read(fr, s, e, v[1])
            h = self.c.call(self, fr, s, e, 'copy' if not e.get('move') else 'move', v, [])
            if h is not None:
                out += h
            else:
                out.append((s, w if w and w[0] not in ('O',) else w))
        return out

    # ------------------------------------------------------------------ calls
    def e_ICall(self, e, st, fr):
        out = []
        for s, vs in self.evs([e['f']] + e.get('args', []), st, fr):
            f = vs[0]
            if f and f[0] == 'L':
                f = self.read(fr, s, e, f[1])
            out += self.apply(f, vs[1:], e, s, fr)
        return out

    def apply(self, f, args, e, st, fr):
        """call a function value"""
        if f and f[0] == 'F' and (f[1], f[2]) in self.lams and len(self.stack) < MAXDEPTH:
            le, lf = self.lams[(f[1], f[2])]
            b = le.get('body') or (le.get('specs') or [None])[0]
            if b is None:
                return [(st, None)]
            if '$locals' not in b:
                loc = set()

                def coll(x):
                    if 'id' in x and ('n' in x or 'init' in x) and x.get('k') not in ('Var', 'GVar') and 'usr' not in x:
                        loc.add(x['id'])
                walk(b.get('body'), coll)
                for p in b['params']:
                    loc.add(p['id'])
                b['$locals'] = loc
                b['$lam'] = True
            b['$outer'] = lf
            b.setdefault('qn', 'lambda')
            nf = Frame(b, lf.unit, lf, ('lam', le['l'], e.get('l')), lf.this)
            nf.fn = b
            return self.inline(b, nf, args, [None] * len(args), e, st, fr)
        if f and f[0] == 'FN':
            g = self.p.functions.get(f[1]) or self.p.lookup(f[1], self.p.units[f[2]])
            if g is not None and len(self.stack) < MAXDEPTH and g['usr'] not in self.stack:
                nf = Frame(g, g['unit'], fr, ('call', g['usr'], e.get('l')), None)
                return self.inline(g, nf, args, [None] * len(args), e, st, fr)
        return [(st, None)]

    def e_Call(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['args'], st, fr):
            out += self.call(e, s, fr, None, vs)
        return out

    def e_MCall(self, e, st, fr):
        out = []
        for s, vs in self.evs([e['o']] + e['args'], st, fr):
            o = vs[0]
            if e.get('arrow'):
                if o and o[0] == 'L':
                    o = self.read(fr, s, e, o[1])
                loc = self.pointee(o)
                o = ('L', loc) if loc is not None else (o if o and o[0] in self.c.handles else None)
            out += self.call(e, s, fr, o, vs[1:])
        return out

    def e_Ctor(self, e, st, fr):
        out = []
        for s, vs in self.evs(e['args'], st, fr):
            out += self.call(e, s, fr, None, vs)
        return out

    def call(self, e, st, fr, obj, args):
        self.calls += 1
        name = e.get('fn') or e.get('n')
        h = self.c.call(self, fr, st, e, name, obj, args)
        if h is not None:
            return h
        f = None
        if e.get('repo') or e.get('usr'):
            f = self.p.lookup(e['usr'], fr.unit)
        if e.get('lambda') or (e.get('cls') == '<lambda>'):
            o = obj
            if o and o[0] == 'L':
                o = self.read(fr, st, e, o[1])
            return self.apply(o, args, e, st, fr)
        if (e.get('cls') or '').startswith('std::function') and e['n'] == 'operator()':
            o = obj
            if o and o[0] == 'L':
                o = self.read(fr, st, e, o[1])
            return self.apply(o, args, e, st, fr)
        if (e.get('cls') or '').startswith('std::function') and e['k'] == 'Ctor' and args:
            return [(st, args[0] if not (args[0] and args[0][0] == 'L') else self.read(fr, st, e, args[0][1]))]
        mt = self.c.maythrow(self, fr, e, f)
        if f is not None and (f.get('body') is not None or f.get('ctor')) and not e.get('virt') and f['usr'] not in self.stack and \
                len(self.stack) < MAXDEPTH and self.c.want_inline(self, fr, e, f):
            self.inlined.add(f['qn'])
            this = None
            if obj and obj[0] == 'L':
                this = obj[1]
            elif f.get('ctor'):
                this = ('tmp', fr.key, e['l'], e.get('t'))
            nf = Frame(f, f['unit'], fr, (f['usr'], e.get('l'), id(e)), this)
            return self.inline(f, nf, args, e.get('args', []), e, st, fr)
        for x in ([mt] if isinstance(mt, str) else mt or ()):
            self.throws[-1].add((st, x))
        # function values passed to library code run any number of times
        fs = []
        for a in args:
            if a and a[0] == 'L':
                a = self.read(fr, st, e, a[1])
            if a and a[0] in ('F', 'FN'):
                fs.append(a)
        if fs:
            work, seen = {st}, set()
            while work and len(seen) < 50:
                seen |= work
                nx = set()
                for s in work:
                    for a in fs:
                        for s2, _ in self.apply(a, [], e, s, fr):
                            nx.add(s2)
                work = nx - seen
            return [(s, None) for s in seen]
        return [(st, None)]

    def inline(self, f, nf, args, argn, e, st, fr):
        keys = []
        for i, p in enumerate(f['params']):
            key = ('v', nf.key, p['id'])
            keys.append(key)
            a = args[i] if i < len(args) else None
            st = self.kill(st, key)
            if p.get('ref'):
                if a and a[0] == 'L':
                    st = st.put(key, ('R', a[1]))
                elif a is not None:
                    st = st.put(key, a)
                else:
                    st = st.put(key, ('R', ('tmp', nf.key, p['id'])))
            else:
                if a and a[0] == 'L':
                    a = self.read(fr, st, (argn[i] if i < len(argn) and argn[i] else e), a[1])
                st = st.put(key, a)
        o = self.body(f, nf, {st})

        n = len(nf.key)

        def clean(k, v):
            if isinstance(k, tuple) and len(k) > 1 and k[0] in ('v', 'rng') and isinstance(k[1], tuple) and k[1][:n] == nf.key:
                return None
            return v
        for s, x in o.throw:
            self.throws[-1].add((s.update(clean), x))
        res = []
        seen = set()
        for s, v in o.ret:
            s2 = s.update(clean)
            h = getattr(self.c, 'leave', None)
            if h:
                v = h(self, fr, nf, s2, v, e)
            if f.get('ctor'):
                v = v if v is not None else None
            k = (s2, v)
            if k not in seen:
                seen.add(k)
                res.append(k)
        return res
