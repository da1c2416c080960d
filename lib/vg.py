"""Value-graph abstract interpreter over the exported program.

Every function is summarised, without running it, by hash-consed terms for its result, the objects it may change, its
throw/return guards and the accesses it makes. Branches are joined by gated selections, loops are summarised by solving the
recurrences of the variables they change, calls to repository functions are inlined (recursive and virtual calls stay
uninterpreted)."""
import sys
from collections import namedtuple
from load import AnalysisBroken, Program
from terms import *
import terms as tm

sys.setrecursionlimit(20000)
L = namedtuple('L', 'root path')
INF = tm.INF


class Unsup(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem=None, facts=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts

    def copy(self):
        return St(dict(self.mem), self.facts)


class Out:
    __slots__ = ('st', 'exits')

    def __init__(self, st, exits=None):
        self.st = st
        self.exits = exits or []


Exit = namedtuple('Exit', 'kind st val loc')
Event = namedtuple('Event', 'kind oblig facts loc what fixed', defaults=(False,))
Loc = namedtuple('Loc', 'file line fn')
LoopInfo = namedtuple('LoopInfo', 'loc n J mus init next sol cond facts E fn end')


class Frame:
    __slots__ = ('env', 'this', 'unit', 'fn', 'id')

    def __init__(self, env, this, unit, fn, id):
        self.env = env
        self.this = this
        self.unit = unit
        self.fn = fn
        self.id = id


def lvterm(l):
    return mk('LV', l.root, l.path)


def strip_ns(cls):
    return cls


SEQCLS = {'std::vector', 'std::basic_string', 'std::basic_string_view', 'std::array', 'std::initializer_list', 'std::deque', 'std::list'}
MAPCLS = {'std::unordered_map', 'std::map'}
SETCLS = {'std::unordered_set', 'std::set'}


BIG = 1 << 64


def unwrap(v):
    """a value that went round zero, as the negative number it stands for"""
    if v.op == 'Int' and BIG >> 1 <= v.a[0] < BIG:
        return I(v.a[0] - BIG)
    if v.op == 'Ite' and not is_bool(v.a[1]):
        x, y = v.a[1], v.a[2]
        d = sub(y, x)
        if d.op == 'Int' and d.a[0] == BIG:
            return x
        a, b = unwrap(x), unwrap(y)
        return v if a is x and b is y else Ite(v.a[0], a, b)
    if v.op == 'Lin':
        c, d = tm.lin_parts(v)
        r = unwrap(I(c))
        for x, k in d.items():
            r = add(r, scale(unwrap(x), k))
        return r
    return v


class Engine:
    def __init__(self, prog, opaque=(), max_depth=60, pure=()):
        self.pure = set(pure)      # opaque functions known not to change their object
        self.p = prog
        self.opaque = set(opaque)
        self.events = []
        self.thr = []
        self.stack = []
        self.nframes = 0
        self.wlog = None
        self.symtd = {}
        self.lams = {}
        self.loops = []
        self.unknown = []
        self.inlined = set()
        self.max_depth = max_depth
        self.ntemp = 0
        self.cur = None
        self.steps = 0
        self.sites = 0
        self.vhook = None
        self.frames = {}           # fields of *this a function can change, where known
        self.exact = False         # unsigned 64-bit arithmetic wraps round

    # ------------------------------------------------------------ types
    def td(self, unit, t):
        ty = self.p.type(unit, t)
        if ty is None:
            return ('other',)
        key = '_td'
        if key in ty:
            return ty[key]
        ty[key] = ('other',)
        k = ty.get('k')
        r = ('other',)
        if k == 'bool':
            r = ('bool',)
        elif k == 'enum':
            r = ('enum', ty.get('cls', ''))
        elif k == 'int':
            r = ('int', ty['w'], bool(ty['u']))
        elif k == 'float':
            r = ('float',)
        elif k == 'void':
            r = ('void',)
        elif k == 'ptr':
            r = ('ptr', self.td(unit, ty['to']))
        elif k == 'array':
            r = ('seq', self.td(unit, ty['to']))
        elif k == 'nullptr':
            r = ('ptr', ('void',))
        elif k == 'rec':
            c = ty['cls']
            a = ty.get('args', [])
            if c in ('std::basic_string', 'std::basic_string_view'):
                r = ('str', self.td(unit, a[0]))
            elif c in SEQCLS:
                r = ('seq', self.td(unit, a[0]))
            elif c.endswith('UnicodeString'):
                r = ('ustr',)
            elif c == 'std::optional':
                r = ('opt', self.td(unit, a[0]))
            elif c == 'std::pair':
                r = ('pair', self.td(unit, a[0]), self.td(unit, a[1]))
            elif c == 'std::tuple':
                inner = ty['s'][ty['s'].index('<') + 1:-1] if '<' in ty['s'] else ''
                r = ('tuple', inner)
            elif c in MAPCLS:
                r = ('map', self.td(unit, a[0]), self.td(unit, a[1]))
            elif c in SETCLS:
                r = ('set', self.td(unit, a[0]))
            elif c in ('std::unique_ptr', 'std::shared_ptr'):
                r = ('uptr', self.td(unit, a[0]))
            elif c == 'std::function':
                r = ('fun',)
            elif c == 'std::priority_queue':
                r = ('pq', self.td(unit, a[0]))
            elif c.startswith('simdjson'):
                r = ('json', c.split('::')[-1])
            elif c.endswith('__normal_iterator') or 'Node_' in c or 'iterator' in c:
                r = ('it',)
            elif c == '<lambda>':
                r = ('fun',)
            else:
                r = ('rec', c)
        ty[key] = r
        return r

    def kind(self, td):
        k = td[0]
        if k == 'bool':
            return 'bool'
        if k in ('int', 'enum'):
            return 'int'
        if k in ('seq',):
            return 'vec'
        if k in ('str', 'ustr'):
            return 'str'
        return ''

    def newsym(self, name, td, unique=True):
        s = (fresh if unique else sym)(name, self.kind(td))
        self.symtd[s] = td
        return s

    def ret(self, td):
        return 'bool' if td[0] == 'bool' else 'int' if td[0] in ('int', 'enum') else td

    def unk(self, why, td=('other',)):
        s = fresh('?' + why, self.kind(td))
        self.symtd[s] = td
        self.unknown.append((why, self.loc()))
        return s

    def default(self, td, value_init=False):
        k = td[0]
        if k in ('str', 'seq', 'ustr'):
            return EMPTY
        if k in ('map', 'set'):
            return EMPTYMAP
        if k == 'opt':
            return NONE
        if k in ('uptr', 'ptr', 'fun'):
            return NULL if (k != 'ptr' or value_init) else UNDEF
        if k == 'pair':
            return pair(self.default(td[1], True), self.default(td[2], True))
        if k in ('int', 'enum'):
            return I(0) if value_init else UNDEF
        if k == 'bool':
            return FALSE if value_init else UNDEF
        if k == 'float':
            return mk('Flt', 0.0) if value_init else UNDEF
        if k == 'rec':
            c = self.p.class_by_qn.get(td[1])
            if c is not None:
                fs = []
                for cc in self.bases(c) + [c]:
                    for f in cc['fields']:
                        fs.append((f['n'], self.default(self.td(cc['unit'], f['t']), value_init)))
                return rec(td[1], fs)
        if k == 'pq':
            return app('pq.empty', (), 'other')
        return UNDEF if k in ('json', 'other') else mk('Default', str(td))

    def bases(self, c):
        out = []
        for b in c['bases']:
            bc = self.p.classes.get(b)
            if bc is not None:
                out += self.bases(bc) + [bc]
        return out

    # ------------------------------------------------------------ memory
    def loc(self):
        return self.cur

    def at_loc(self, fr, n):
        if n.get('l'):
            self.cur = Loc(fr.fn['file'] if fr.fn else '?', n['l'], fr.fn['qn'] if fr.fn else '?')

    def read(self, st, l):
        if isinstance(l.root, T) and l.root.op == 'CondL':
            c, a, b = l.root.a
            v = Ite(c, self.read(st, L(a.a[0], a.a[1])), self.read(st, L(b.a[0], b.a[1])))
            for s in l.path:
                v = self.step(v, s)
            return v
        v = st.mem.get(l.root)
        if v is None:
            v = l.root if isinstance(l.root, T) else sym(str(l.root))
        for s in l.path:
            v = self.step(v, s)
        return v

    @staticmethod
    def step(v, s):
        k = s[0]
        if k == 'f':
            return fld(v, s[1])
        if k == 'i':
            return at(v, s[1])
        if k == 'k':
            return m_get(v, s[1])
        if k == 'kv':
            return pair(s[1], m_get(v, s[1]))
        if k == 'o':
            return opt_value(v)
        if k == '*':
            return unbox(v)
        raise Unsup('step ' + k)

    def write(self, st, l, v):
        if isinstance(l.root, T) and l.root.op == 'CondL':
            # one of two places, chosen when the reference was bound
            c = l.root.a[0]
            new = [(o, self.upd(self.read(st, o), l.path, v)) for o in (L(*x.a[:2]) for x in l.root.a[1:])]
            for (o, n), g in zip(new, (c, Not(c))):
                self.write(st, o, Ite(g, n, self.read(st, o)))
            return
        if self.wlog is not None:
            self.wlog.append(l)
        cur = st.mem.get(l.root)
        if cur is None:
            cur = l.root if isinstance(l.root, T) else sym(str(l.root))
        st.mem[l.root] = self.upd(cur, l.path, v)

    def upd(self, cur, path, v):
        if not path:
            return v
        s, rest = path[0], path[1:]
        nv = self.upd(self.step(cur, s), rest, v)
        k = s[0]
        if k == 'f':
            return with_(cur, s[1], nv)
        if k == 'i':
            return seq_upd(cur, s[1], nv)
        if k == 'k':
            return m_put(cur, s[1], nv)
        if k == 'kv':
            return m_put(cur, s[1], fld(nv, 'second'))
        if k == 'o':
            return some(nv)
        if k == '*':
            return mk('Box', nv)
        raise Unsup('upd')

    def temp(self, st, v, tag='t'):
        self.ntemp += 1
        r = '%s%d' % (tag, self.ntemp)
        st.mem[r] = v
        return L(r, ())

    def ext(self, l, *steps):
        return L(l.root, l.path + steps)

    def event(self, st, kind, oblig, what=None, fixed=False):
        self.sites += 1
        if oblig is TRUE:
            return
        self.events.append(Event(kind, oblig, st.facts, self.loc(), what, fixed))

    def assume(self, st, c):
        if c is not TRUE and c not in st.facts:
            st.facts = st.facts + (c,)

    def decide(self, st, c):
        if c.op == 'Bool':
            return c.a[0]
        if c in st.facts:
            return True
        n = Not(c)
        if n in st.facts:
            return False
        if len(st.facts) > 60:
            return None
        return entails(st.facts, c)

    # ------------------------------------------------------------ joins
    def merge(self, c, a, b, base):
        """join of two states; a holds when c"""
        if a is None:
            return b
        if b is None:
            return a
        n = len(base)
        ra, rb = a.facts[n:], b.facts[n:]
        mem = {}
        for r in list(a.mem.keys()) + [x for x in b.mem if x not in a.mem]:
            if r not in b.mem:
                mem[r] = a.mem[r]
            elif r not in a.mem:
                mem[r] = b.mem[r]
            else:
                x, y = a.mem[r], b.mem[r]
                mem[r] = x if x is y else Ite(c, x, y)
        common = [f for f in ra if f in rb]
        return St(mem, base + tuple(common))

    def join_exits(self, exits, base):
        """merge exits (each with its own guard) -> (state, value, cond that some of them happened)"""
        n = len(base)
        guards = [And(*e.st.facts[n:]) for e in exits]
        st, val = exits[-1].st, exits[-1].val
        g = guards[-1]
        for e, ge in list(zip(exits, guards))[-2::-1]:
            st = self.merge(ge, e.st, st, base)
            val = self.jval(ge, e.val, val, e.st, st)
            g = Or(ge, g)
        return st, val, g

    def jval(self, c, a, b, sa, sb):
        if a is b or a == b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, L):
            a = lvterm(a)
        if isinstance(b, L):
            b = lvterm(b)
        return Ite(c, a, b)

    # ------------------------------------------------------------ statements
    def exec(self, fr, st, s):
        """-> Out; st is consumed"""
        if s is None:
            return Out(st)
        k = s['k']
        self.steps += 1
        if self.steps > 400000:
            raise Unsup('too many steps')
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsup('statement ' + k + ' ' + str(s.get('c')))
        thr0 = self.thr
        self.thr = []
        self.at_loc(fr, s)
        out = m(fr, st, s)
        if self.thr:
            out.exits = self.thr + out.exits
        self.thr = thr0
        return out

    def s_Nop(self, fr, st, s):
        return Out(st)

    def s_Block(self, fr, st, s):
        exits = []
        for x in s['s']:
            if st is None:
                break
            o = self.exec(fr, st, x)
            exits += o.exits
            st = o.st
        return Out(st, exits)

    def s_Expr(self, fr, st, s):
        a = s['a']
        if a is not None and a['k'] == 'Throw':
            return self.do_throw(fr, st, a)
        self.ev(fr, st, a)
        if st.facts and st.facts[-1] is FALSE:
            return Out(None)
        return Out(st)

    def do_throw(self, fr, st, a):
        v = None
        if a.get('a') is not None:
            try:
                v = self.rv(fr, st, a['a'])
            except Unsup:
                v = None
        return Out(None, [Exit('throw', st, v, self.loc())])

    def s_Return(self, fr, st, s):
        v = UNIT
        if s.get('a') is not None:
            if fr.fn is not None and fr.fn.get('_retref'):
                v = self.lv(fr, st, s['a'])
            else:
                v = self.rv(fr, st, s['a'])
        return Out(None, [Exit('return', st, v, self.loc())])

    def s_Break(self, fr, st, s):
        return Out(None, [Exit('break', st, None, self.loc())])

    def s_Continue(self, fr, st, s):
        return Out(None, [Exit('continue', st, None, self.loc())])

    def s_Decl(self, fr, st, s):
        for v in s['v']:
            self.declare(fr, st, v)
        return Out(st)

    def declare(self, fr, st, v):
        self.at_loc(fr, v)
        td = self.td(fr.unit, v['t'])
        if v.get('ref'):
            x = self.ev(fr, st, v['init'])
            l = x if isinstance(x, L) else self.temp(st, x)
            fr.env[v['id']] = l
            self.bindings(fr, st, v, l)
            return
        root = 'f%d:%s:%d' % (fr.id, v['n'], v['id'])
        fr.env[v['id']] = L(root, ())
        if v.get('static') and not v.get('const'):
            st.mem[root] = self.unk('static ' + v['n'], td)
            return
        if v.get('init') is None:
            val = self.default(td)
        else:
            val = self.rv(fr, st, v['init'])
            val = self.coerce(val, td)
        if self.wlog is not None and root in st.mem:
            self.wlog.append(L(root, ()))
        st.mem[root] = val
        self.bindings(fr, st, v, L(root, ()))

    def bindings(self, fr, st, v, l):
        if not v.get('bindings'):
            return
        td = self.td(fr.unit, v['t'])
        for i, b in enumerate(v['bindings']):
            if b.get('tuple') or 'f' not in b:
                nm = ('first', 'second')[i] if (td[0] == 'pair' and i < 2) else str(i)
            else:
                nm = b['f']
            fr.env[b['id']] = self.ext(l, ('f', nm))

    def coerce(self, v, td):
        return v

    def s_If(self, fr, st, s):
        base0 = st.facts
        if s.get('init'):
            o = self.exec(fr, st, s['init'])
            st = o.st
        if s.get('var'):
            self.declare(fr, st, s['var'])
        c = self.rv(fr, st, s['c'])
        c = truth(c)
        d = self.decide(st, c)
        if d is True:
            return self.exec(fr, st, s['th'])
        if d is False:
            return self.exec(fr, st, s['el']) if s.get('el') else Out(st)
        base = st.facts
        a = st.copy()
        a.facts = base + conj(c)
        b = st
        b.facts = base + conj(Not(c))
        oa = self.exec(fr, a, s['th'])
        ob = self.exec(fr, b, s['el']) if s.get('el') else Out(b)
        return self.join2(c, oa, ob, base)

    def join2(self, c, oa, ob, base):
        exits = oa.exits + ob.exits
        if oa.st is None or ob.st is None:
            return Out(oa.st or ob.st, exits)
        st = self.merge(c, oa.st, ob.st, base)
        if exits:
            n = len(base)
            f = Or(And(*oa.st.facts[n:]), And(*ob.st.facts[n:]))
            for x in conj(f):
                if x not in st.facts:
                    st.facts = st.facts + (x,)
        return Out(st, exits)

    def s_Switch(self, fr, st, s):
        if s.get('init'):
            st = self.exec(fr, st, s['init']).st
        if s.get('var'):
            self.declare(fr, st, s['var'])
        c = self.rv(fr, st, s['c'])
        body = s['body']['s'] if s['body']['k'] == 'Block' else [s['body']]
        flat = []
        labels = []
        for x in body:
            vals = []
            while x is not None and x['k'] in ('Case', 'Default'):
                vals.append((x.get('v'), x.get('hi')) if x['k'] == 'Case' else None)
                x = x['s']
            if vals:
                labels.append((len(flat), vals))
            flat.append(x)
        base = st.facts
        guards = []
        for pos, vals in labels:
            g = FALSE
            for v in vals:
                if v is not None:
                    g = Or(g, eq0(sub(c, I(v[0]))) if v[1] is None else And(le(I(v[0]), c), le(c, I(v[1]))))
            guards.append((pos, g, any(v is None for v in vals)))
        nomatch = And(*[Not(g) for _, g, _ in guards])
        outs = []
        hasdef = False
        for pos, g, d in guards:
            if d:
                g = Or(g, nomatch)
                hasdef = True
            dec = self.decide(st, g)
            if dec is False:
                continue
            a = st.copy()
            a.facts = base + conj(g)
            exits = []
            cur = a
            for x in flat[pos:]:
                if cur is None:
                    break
                o = self.exec(fr, cur, x)
                exits += o.exits
                cur = o.st
            brk = [e for e in exits if e.kind == 'break']
            exits = [e for e in exits if e.kind != 'break']
            if cur is not None:
                brk.append(Exit('break', cur, None, None))
            nst = self.join_exits(brk, base)[0] if brk else None
            outs.append((g, Out(nst, exits)))
            if dec is True:
                break
        if not hasdef:
            b = st.copy()
            b.facts = base + conj(nomatch)
            if self.decide(st, nomatch) is not False:
                outs.append((nomatch, Out(b)))
        if not outs:
            return Out(st)
        r = outs[-1][1]
        for g, o in outs[-2::-1]:
            r = self.join2(g, o, r, base)
        return r

    def s_Try(self, fr, st, s):
        base = st.facts
        entry = st.copy()
        w0 = self.wlog
        self.wlog = []
        o = self.exec(fr, st, s['body'])
        mods = self.wlog
        self.wlog = w0
        if w0 is not None:
            w0 += mods
        exc = fresh('exc@%d' % s['l'], 'bool')
        self.symtd[exc] = ('bool',)
        h = entry
        roots = {l.root for l in mods}
        for r in roots:
            if r in h.mem:
                h.mem[r] = self.unk('partial')
        h.facts = base + (exc,)
        exits = [e for e in o.exits if e.kind != 'throw']
        hs = None
        for hd in s['h']:
            hst = h.copy()
            if hd.get('var'):
                root = 'f%d:%s:%d' % (fr.id, hd['var']['n'], hd['var']['id'])
                fr.env[hd['var']['id']] = L(root, ())
                hst.mem[root] = self.unk('exception')
            ho = self.exec(fr, hst, hd['body'])
            exits += ho.exits
            hs = ho.st if hs is None else (hs if ho.st is None else self.merge(fresh('h', 'bool'), hs, ho.st, base))
        if o.st is None:
            return Out(hs, exits)
        if hs is None:
            return Out(o.st, exits)
        return Out(self.merge(exc, hs, o.st, base), exits)

    def s_UnsupS(self, fr, st, s):
        raise Unsup('statement ' + str(s.get('c')))

    # loops
    def s_While(self, fr, st, s):
        def cond(q):
            if s.get('var'):
                self.declare(fr, q, s['var'])
            return truth(self.rv(fr, q, s['c']))
        return self.loop(fr, st, s, cond, lambda q, J: self.exec(fr, q, s['body']), None, None)

    def s_For(self, fr, st, s):
        ex = []
        if s.get('init'):
            o = self.exec(fr, st, s['init'])
            st = o.st
            ex = o.exits
        cond = (lambda q: truth(self.rv(fr, q, s['c']))) if s.get('c') is not None else (lambda q: TRUE)
        inc = (lambda q: self.ev(fr, q, s['inc'])) if s.get('inc') is not None else None
        o = self.loop(fr, st, s, cond, lambda q, J: self.exec(fr, q, s['body']), inc, None)
        o.exits = ex + o.exits
        return o

    def s_Do(self, fr, st, s):
        base = st.facts
        o = self.exec(fr, st, s['body'])
        brk = [e for e in o.exits if e.kind == 'break']
        con = [e for e in o.exits if e.kind == 'continue']
        oth = [e for e in o.exits if e.kind not in ('break', 'continue')]
        if con:
            if o.st is not None:
                con.append(Exit('continue', o.st, None, None))
            o.st = self.join_exits(con, base)[0]
        if o.st is None:
            return Out(self.join_exits(brk, base)[0] if brk else None, oth)
        o2 = self.loop(fr, o.st, s, lambda q: truth(self.rv(fr, q, s['c'])), lambda q, J: self.exec(fr, q, s['body']), None, None)
        oth += o2.exits
        if brk:
            if o2.st is not None:
                brk.append(Exit('break', o2.st, None, None))
            return Out(self.join_exits(brk, base)[0], oth)
        return Out(o2.st, oth)

    def s_RangeFor(self, fr, st, s):
        if s.get('init'):
            st = self.exec(fr, st, s['init']).st
        rng = self.ev(fr, st, s['range'])
        rtd = self.td(fr.unit, s['rt'])
        v = s['v']

        def bind(q, l, val=None):
            if v.get('ref'):
                if l is None:
                    l = self.temp(q, val)
                fr.env[v['id']] = l
                self.bindings(fr, q, v, l)
            else:
                root = 'f%d:%s:%d' % (fr.id, v['n'], v['id'])
                fr.env[v['id']] = L(root, ())
                q.mem[root] = self.read(q, l) if l is not None else val
                self.bindings(fr, q, v, L(root, ()))
        if rtd[0] == 'json':
            j = self.rvof(st, rng)
            isobj = 'field' in (self.p.type(fr.unit, v['t'])['s']) or rtd[1] == 'object'

            def body(q, J):
                bind(q, None, mk('JField', j, J) if isobj else mk('JAt', j, J))
                return self.exec(fr, q, s['body'])
            return self.loop(fr, st, s, None, body, None, mk('JLen', j))
        if rtd[0] in ('map', 'set'):
            m = self.rvof(st, rng)

            def body(q, J):
                if rtd[0] == 'map':
                    mapl = rng if isinstance(rng, L) else None
                    key = mk('MKey', m, J)
                    val = mk('MVal', m, J)
                    pl = self.temp(q, pair(key, val), 'kv')
                    bind(q, pl)
                    if v.get('ref') and mapl is not None and not self.p.type(fr.unit, v['t']).get('const'):
                        fr.env[v['id']] = pl
                else:
                    bind(q, None, mk('MKey', m, J))
                return self.exec(fr, q, s['body'])
            return self.loop(fr, st, s, None, body, None, m_size(m))
        l = rng if isinstance(rng, L) else self.temp(st, rng, 'rng')
        n = length(self.read(st, l))

        def body(q, J):
            bind(q, self.ext(l, ('i', J)))
            return self.exec(fr, q, s['body'])
        return self.loop(fr, st, s, None, body, None, n)

    def loop(self, fr, st, s, condf, bodyf, incf, n):
        loc = self.loc()
        r = self.try_unroll(st, condf, bodyf, incf, n)
        if r is not None:
            return r
        base = st.facts
        mods = []          # list of L (truncated)
        ev0 = len(self.events)
        lp0 = len(self.loops)
        thr_outer = self.thr
        w_outer = self.wlog
        J = fresh('j', 'J')
        mu_of = {}
        plain = set()      # iterators that change their container
        for rnd in range(12):
            del self.events[ev0:]
            del self.loops[lp0:]
            self.thr = []
            q = st.copy()
            mus = []
            for l in mods:
                mu = mu_of.get(l)
                if mu is None:
                    v = self.read(st, l)
                    mu = fresh('mu', 'int' if v.op in ('It', 'RIt') and l not in plain else musort(v))
                    mu_of[l] = mu
                mus.append(mu)
                v = self.read(st, l)
                q.mem[l.root] = self.upd(q.mem[l.root], l.path, mk(v.op, v.a[0], mu) if v.op in ('It', 'RIt') and l not in plain else mu)
            self.wlog = []
            if n is not None:
                self.assume(q, lt(J, n))
            f0 = q.facts
            c = condf(q) if condf else TRUE
            evc = len(self.events)      # what the condition does is done once more than the body
            condthr = self.thr
            self.thr = []
            dead = False
            if c is not TRUE:
                for x in conj(c):
                    self.assume(q, x)
            fbody = q.facts
            cstate = q.copy()
            o = bodyf(q, J)
            o.exits = condthr + self.thr + o.exits
            self.thr = []
            conts = [e for e in o.exits if e.kind == 'continue']
            brks = [e for e in o.exits if e.kind != 'continue']
            endst = o.st
            if conts:
                if endst is not None:
                    conts.append(Exit('continue', endst, None, None))
                endst = self.join_exits(conts, fbody)[0]
            if endst is not None and incf:
                incf(endst)
                brks = brks + self.thr
                self.thr = []
            new = self.newmods(st, mods)
            moved = []
            if endst is not None:
                for l in mods:
                    v = self.read(st, l)
                    if v.op in ('It', 'RIt') and l not in plain:
                        w = self.read(endst, l)
                        if w.op != v.op or w.a[0] is not v.a[0]:
                            moved.append(l)
            if new == mods and not moved:
                break
            for l in moved:
                plain.add(l)
                del mu_of[l]
            mods = new
        else:
            self.wlog = w_outer
            self.thr = thr_outer
            raise Unsup('loop fixpoint')
        wl = self.wlog
        self.wlog = w_outer
        if self.wlog is not None:
            self.wlog += [l for l in wl if l.root in st.mem]
        self.thr = thr_outer
        def idx(v, l):
            return v.a[1] if v.op in ('It', 'RIt') and l not in plain else v
        init = {m: idx(self.read(st, l), l) for m, l in zip(mus, mods)}
        nxt = {m: (idx(self.read(endst, l), l) if endst is not None else m) for m, l in zip(mus, mods)}
        sol, kinds = solve(init, nxt, J, mus, mods)
        memo = {}
        # conditions in closed form
        nb = len(fbody)
        cJ = subst(c, sol, memo)
        # break guards
        bg = []
        for e in brks:
            g = And(*[x for x in e.st.facts[len(f0):]])
            g = subst(g, sol, memo)
            bg.append(drop_true(g, cJ))
        bounds = n
        pred = FALSE
        notc = Not(cJ)
        if condf:
            pred = notc
        for g in bg:
            pred = Or(pred, g)
        E = first_exit(bounds, J, pred, base)
        E = refine_len(E, base)
        atE = dict(sol)
        sJE = {m: subst(t, {J: E}) for m, t in sol.items()}

        def close_state(q, facts_extra, JJ):
            mm = {J: JJ}
            fullmap = dict(sol)
            mem = {}
            memo1 = {}
            memo2 = {}
            for r, v in q.mem.items():
                if r in st.mem and v is st.mem[r]:
                    mem[r] = v
                    continue
                v2 = subst(v, fullmap, memo1)
                mem[r] = subst(v2, mm, memo2)
            return St(mem, facts_extra)

        def subfacts(fs, JJ):
            out = []
            m1 = {}
            m2 = {}
            for f in fs:
                g = subst(subst(f, sol, m1), {J: JJ}, m2)
                for x in conj(g):
                    if x is not TRUE:
                        out.append(x)
            return tuple(out)
        # events inside
        evs = self.events[ev0:]
        del self.events[ev0:]
        inb = incl = ()
        if E.op not in ('Inf',):
            inb = conj(lt(J, E))
            incl = conj(le(J, E)) if condf is not None and n is None or bg else inb
            if bg:
                inb = incl      # the iteration that leaves the loop happens too
        eb = bound_facts(E)
        for ei, e in enumerate(evs):
            m1 = {}
            fs = []
            for f in e.facts:
                g = subst(f, sol, m1)
                if g is not TRUE and g not in fs:
                    fs.append(g)
            for x in tuple(inb if ei >= evc - ev0 else incl) + eb:
                if x is not TRUE and x not in fs:
                    fs.append(x)
            ob = subst(e.oblig, sol, m1)
            if ob is TRUE:
                continue
            self.events.append(Event(e.kind, ob, tuple(fs), e.loc, e.what, e.fixed))
        self.loops.append(LoopInfo(loc, n, J, list(zip(mods, mus)), init, nxt, sol, c, fbody, E, fr.fn['qn'] if fr.fn else '', endst.facts if endst is not None else None))
        exits = []
        # normal exit
        ft = base + tuple(x for x in eb)
        rets = [(e, g) for e, g in zip(brks, bg) if e.kind in ('return', 'throw')]
        brk = [(e, g) for e, g in zip(brks, bg) if e.kind == 'break']
        normal_possible = condf is None or cJ is not TRUE
        if condf is None:
            normcond = eq0(sub(E, n)) if E is not n else TRUE
        elif cJ is TRUE:
            normcond = FALSE
        else:
            normcond = subst(notc, {J: E})
        # when the condition contributes a finite bound and the breaks the search, "normal" is E == bound
        nb_ = getattr_bound(E)
        if nb_ is not None and normal_possible and not (bounds is None and mixed(notc, J, bg)):
            normcond = eq0(sub(E, nb_))
        stN = None
        if normal_possible and normcond is not FALSE:
            if not brk and nb_ is not None and (condf is None or first_exit(bounds, J, notc, base) is nb_):
                EN = nb_
            else:
                EN = E
            qn = cstate if condf else st
            mem = {}
            src = cstate.mem
            tmpst = St(dict(src), ())
            stN = close_state(tmpst, ft, EN)
            for r in list(stN.mem):
                if r not in st.mem:
                    stN.mem[r] = stN.mem[r]
            if brks:
                for x in conj(normcond):
                    self.assume(stN, x)
            elif condf and len(bg) == 0:
                f = subst(notc, {J: E})
                if f is not TRUE and E.op != 'Inf':
                    for x in conj(f):
                        self.assume(stN, x)
        alts = []
        for e, g in brk:
            gE = subst(g, {J: E})
            s2 = close_state(e.st, base + eb, E)
            sf = subfacts(e.st.facts[len(base):], E)
            for x in sf:
                self.assume(s2, x)
            alts.append((e, gE, s2))
        for e, g in rets:
            s2 = close_state(e.st, base + eb, E)
            gE = subst(g, {J: E})
            if nb_ is not None:
                self.assume(s2, lt(E, nb_))
                if len(rets) + len(brk) > 1:
                    for x in conj(gE):
                        self.assume(s2, x)
            else:
                for x in conj(gE):
                    self.assume(s2, x)
            v = e.val
            if isinstance(v, T):
                v = subst(subst(v, sol), {J: E})
            elif isinstance(v, L):
                t = subst(subst(lvterm(v), sol), {J: E})
                v = L(t.a[0], t.a[1])
            exits.append(Exit(e.kind, s2, v, e.loc))
        cur = stN
        if alts:
            if cur is None:
                e, gE, s2 = alts[-1]
                cur = s2
                alts = alts[:-1]
            brokec = None
            for e, gE, s2 in alts[::-1]:
                if nb_ is not None and len(alts) == 1 and stN is not None and not rets:
                    cc = lt(E, nb_)
                else:
                    cc = gE
                cur = self.merge(cc, s2, cur, base)
            for x in eb:
                self.assume(cur, x)
        if cur is not None and exits and stN is None and not alts and not brk:
            cur = None
        if cur is not None:
            self.cur = loc
        return Out(cur, exits)

    def newmods(self, st, mods):
        ms = list(mods)
        for l in self.wlog:
            if l.root not in st.mem:
                if isinstance(l.root, T):
                    st.mem[l.root] = l.root
                else:
                    continue
            p = []
            for s in l.path:
                if s[0] not in ('f',):
                    break
                p.append(s)
            ms.append(L(l.root, tuple(p)))
        out = []
        for l in ms:
            if any(o.root == l.root and l.path[:len(o.path)] == o.path for o in out):
                continue
            out = [o for o in out if not (o.root == l.root and o.path[:len(l.path)] == l.path)]
            out.append(l)
        # keep the order stable
        if set(out) == set(mods):
            return mods
        return out

    def try_unroll(self, st, condf, bodyf, incf, n):
        if n is not None and n.op != 'Int':
            return None
        if n is None and condf is None:
            return None
        if n is not None and n.a[0] > 600:
            return None
        ev0 = len(self.events)
        saved_thr = self.thr
        self.thr = []
        q = st.copy()
        i = 0
        lim = 20 if self.exact else 700
        try:
            wl0 = None if self.wlog is None else len(self.wlog)
            if n is None:
                probe = st.copy()
                sites = self.sites
                c = condf(probe)
                del self.events[ev0:]
                self.sites = sites
                if self.thr or c.op != 'Bool':
                    if wl0 is not None:
                        del self.wlog[wl0:]
                    return None
            while True:
                if n is not None:
                    if i >= n.a[0]:
                        return Out(q)
                else:
                    c = condf(q)
                    if c.op != 'Bool' or self.thr:
                        break
                    if not c.a[0]:
                        return Out(q)
                if i >= lim:
                    break
                f0 = q.facts
                o = bodyf(q, I(i))
                bad = False
                nst = o.st
                ex = o.exits
                if ex or self.thr:
                    if self.thr:
                        break
                    # constant continue / break only
                    if nst is None and len(ex) == 1 and ex[0].st.facts == f0 and ex[0].kind in ('continue', 'break'):
                        if ex[0].kind == 'break':
                            return Out(ex[0].st)
                        nst = ex[0].st
                    elif nst is not None and all(e.kind == 'continue' for e in ex):
                        nst = self.join_exits(ex + [Exit('continue', nst, None, None)], f0)[0]
                    else:
                        break
                if nst is None:
                    break
                q = nst
                if incf:
                    incf(q)
                i += 1
            del self.events[ev0:]
            if wl0 is not None:
                del self.wlog[wl0:]
            return None
        finally:
            self.thr = saved_thr

    # ------------------------------------------------------------ expressions
    def rvof(self, st, x):
        return self.read(st, x) if isinstance(x, L) else x

    def rv(self, fr, st, e):
        return self.rvof(st, self.ev(fr, st, e))

    def lv(self, fr, st, e):
        x = self.ev(fr, st, e)
        return x if isinstance(x, L) else self.temp(st, x)

    def ev(self, fr, st, e):
        if e is None:
            return UNIT
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsup('expression ' + k + ' ' + str(e.get('c')))
        if e.get('l') and fr.fn is not None:
            self.cur = Loc(fr.fn['file'], e['l'], fr.fn['qn'])
        return m(fr, st, e)

    def e_Int(self, fr, st, e):
        v = e['v']
        return I(int(v))

    def e_Bool(self, fr, st, e):
        return B(e['v'])

    def e_Flt(self, fr, st, e):
        return mk('Flt', float(e['v']))

    def e_Enum(self, fr, st, e):
        return I(e['v'])

    def e_Null(self, fr, st, e):
        return NULL

    def e_Str(self, fr, st, e):
        v = e['v']
        if e.get('w', 1) == 1:
            v = [x - 256 if x > 127 else x for x in v]
        return lit(v)

    def e_This(self, fr, st, e):
        return lvterm(fr.this)

    def e_Var(self, fr, st, e):
        l = fr.env.get(e['id'])
        if l is None:
            raise Unsup('unbound variable ' + e['n'])
        return l

    def e_GVar(self, fr, st, e):
        if 'cv' in e:
            v = int(e['cv'])
            return I(v - (1 << 64) if v >= (1 << 63) else v)
        if e.get('slocal') and e['id'] in fr.env:
            return fr.env[e['id']]
        g = self.p.globals.get(e['usr']) or self.p.globals.get(e['usr'] + '@' + fr.unit.path)
        root = 'g:' + e['usr']
        if root not in st.mem:
            if g is not None and g['const'] and g.get('init') is not None and not g.get('slocal'):
                gf = Frame({}, None, g['unit'], {'file': g['file'], 'qn': g['qn']}, 0)
                st.mem[root] = self.rv(gf, st, g['init'])
            else:
                td = self.td(fr.unit, e['t'])
                s = sym('global ' + e['n'], self.kind(td))
                self.symtd[s] = td
                st.mem[root] = s
        return L(root, ())

    def e_Fn(self, fr, st, e):
        return mk('Fn', e['usr'], e['fn'], fr.unit.n)

    def e_Mem(self, fr, st, e):
        b = self.ev(fr, st, e['b'])
        if e['arrow']:
            l = self.deref(fr, st, self.rvof(st, b))
            return self.ext(l, ('f', e['f']))
        if isinstance(b, L):
            return self.ext(b, ('f', e['f']))
        return fld(b, e['f'])

    def deref(self, fr, st, p, ev=True):
        """pointer value -> L"""
        if p.op == 'LV':
            return L(p.a[0], p.a[1])
        if p.op == 'PGet':
            if ev:
                self.event(st, 'null', Not(eq(self.rvof(st, L(p.a[0].a[0], p.a[0].a[1])), NULL)), 'deref')
            l = L(p.a[0].a[0], p.a[0].a[1])
            return self.ext(l, ('*',))
        if p.op == 'RIt':
            p = mk('It', p.a[0], sub(p.a[1], I(1)))
        if p.op == 'It':
            l = L(p.a[0].a[0], p.a[0].a[1])
            if ev:
                ln = length(self.read(st, l))
                self.event(st, 'iter', And(le(I(0), p.a[1]), lt(p.a[1], ln)), 'iterator', p.a[1].op == 'Int' or sub(ln, p.a[1]).op == 'Int')
            return self.ext(l, ('i', p.a[1]))
        if p.op == 'MIt':
            if ev:
                self.event(st, 'iter', p.a[2], 'map iterator')
            return self.ext(L(p.a[0].a[0], p.a[0].a[1]), ('kv', p.a[1]))
        if p.op == 'MEnd':
            if ev:
                self.event(st, 'iter', FALSE, 'end iterator')
            return self.temp(st, UNDEF)
        if p.op == 'Ite':
            c = p.a[0]
            d = self.decide(st, c)
            if d is True:
                return self.deref(fr, st, p.a[1], ev)
            if d is False:
                return self.deref(fr, st, p.a[2], ev)
            if ev:
                self.event(st, 'null', Not(eq(p, NULL)), 'deref')
            if p.a[1] is NULL:
                return self.deref(fr, st, p.a[2], False)
            if p.a[2] is NULL:
                return self.deref(fr, st, p.a[1], False)
            return self.either(c, self.deref(fr, st, p.a[1], False), self.deref(fr, st, p.a[2], False))
        if p is NULL or p.op == 'Undef':
            if ev:
                self.event(st, 'null', FALSE, 'deref')
            return self.temp(st, UNDEF)
        if ev:
            self.event(st, 'null', Not(eq(p, NULL)), 'deref')
        root = mk('Deref', p)
        if root not in st.mem:
            st.mem[root] = root
        return L(root, ())

    @staticmethod
    def either(c, x, y):
        return x if x == y else L(mk('CondL', c, lvterm(x), lvterm(y)), ())

    def e_MemFn(self, fr, st, e):
        raise Unsup('member function pointer')

    def e_Sub(self, fr, st, e):
        a = self.ev(fr, st, e['a'])
        i = self.rv(fr, st, e['b'])
        v = self.rvof(st, a)
        if v.op == 'CStr':
            return at(v.a[0], i)
        if v.op == 'It':
            return self.ext(L(v.a[0].a[0], v.a[0].a[1]), ('i', add(v.a[1], i)))
        if isinstance(a, L):
            return self.ext(a, ('i', i))
        return at(v, i)

    def e_Cond(self, fr, st, e):
        c = truth(self.rv(fr, st, e['c']))
        d = self.decide(st, c)
        if d is True:
            return self.ev(fr, st, e['a'])
        if d is False:
            return self.ev(fr, st, e['b'])
        base = st.facts
        a = st.copy()
        a.facts = base + conj(c)
        b = st.copy()
        b.facts = base + conj(Not(c))
        before = dict(st.mem)
        x = self.ev(fr, a, e['a']) if not (e['a']['k'] == 'Throw') else None
        y = self.ev(fr, b, e['b']) if not (e['b']['k'] == 'Throw') else None
        if isinstance(x, L) and isinstance(y, L) and a.mem == before == b.mem and all(o.root in before for o in (x, y)):
            st.facts = base
            return self.either(c, x, y)
        x = x if x is None else self.rvof(a, x)
        y = y if y is None else self.rvof(b, y)
        if x is None:
            self.thr.append(Exit('throw', a, None, self.loc()))
            st.mem, st.facts = b.mem, b.facts
            return y
        if y is None:
            self.thr.append(Exit('throw', b, None, self.loc()))
            st.mem, st.facts = a.mem, a.facts
            return x
        m = self.merge(c, a, b, base)
        st.mem, st.facts = m.mem, m.facts
        return Ite(c, x, y)

    def e_Un(self, fr, st, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(fr, st, e['a'])
            old = self.read(st, l)
            d = I(1 if op == '++' else -1)
            if old.op == 'It':
                new = mk('It', old.a[0], add(old.a[1], d))
            elif old.op == 'RIt':
                new = mk('RIt', old.a[0], sub(old.a[1], d))
            else:
                new = self.wrap(st, add(unwrap(old), d), self.td(fr.unit, e['t'])) if self.exact else add(old, d)
            self.write(st, l, new)
            return old if e.get('post') else l
        if op == '*':
            return self.deref(fr, st, self.rv(fr, st, e['a']))
        if op == '&':
            x = self.ev(fr, st, e['a'])
            if isinstance(x, L):
                if x.path and x.path[-1][0] == 'i':
                    return mk('It', lvterm(L(x.root, x.path[:-1])), x.path[-1][1])
                return lvterm(x)
            if isinstance(x, T) and x.op == 'Fn':
                return x
            return lvterm(self.temp(st, x))
        v = self.rv(fr, st, e['a'])
        if op == '!':
            return Not(truth(v))
        if op == '-':
            if self.td(fr.unit, e['t'])[0] == 'float':
                return app('fneg', (v,))
            return neg(v)
        if op == '+':
            return v
        if op == '~':
            return sub(neg(v), I(1))
        raise Unsup('unary ' + op)

    def wrap(self, st, v, td):
        """v, computed without bounds, as a value of the type td"""
        if td[0] != 'int' or not td[2] or td[1] != 64:
            return v
        if v.op == 'Int':
            return I(v.a[0] % BIG)
        c = le(I(0), v)
        d = self.decide(st, c)
        if d is True:
            return v
        return add(v, I(BIG)) if d is False else Ite(c, v, add(v, I(BIG)))

    def e_Bin(self, fr, st, e):
        op = e['op']
        if op in ('&&', '||'):
            a = truth(self.rv(fr, st, e['a']))
            d = self.decide(st, a)
            if op == '&&':
                if d is False:
                    return FALSE
                if d is True:
                    return truth(self.rv(fr, st, e['b']))
                base = st.facts
                s2 = st.copy()
                s2.facts = base + conj(a)
                b = truth(self.rv(fr, s2, e['b']))
                m = self.merge(a, s2, st, base)
                st.mem, st.facts = m.mem, m.facts
                return And(a, b)
            if d is True:
                return TRUE
            if d is False:
                return truth(self.rv(fr, st, e['b']))
            base = st.facts
            s2 = st.copy()
            s2.facts = base + conj(Not(a))
            b = truth(self.rv(fr, s2, e['b']))
            m = self.merge(Not(a), s2, st, base)
            st.mem, st.facts = m.mem, m.facts
            return Or(a, b)
        if op == ',':
            self.ev(fr, st, e['a'])
            return self.ev(fr, st, e['b'])
        a = self.rv(fr, st, e['a'])
        b = self.rv(fr, st, e['b'])
        return self.binop(fr, st, op, a, b, self.td(fr.unit, e['at']), self.td(fr.unit, e['t']))

    def binop(self, fr, st, op, a, b, at_, rt):
        if at_[0] == 'float' or rt[0] == 'float' or a.op == 'Flt' or b.op == 'Flt':
            if op in ('==', '!='):
                r = eq(a, b)
                return r if op == '==' else Not(r)
            return app('f' + op, (a, b), 'bool' if rt[0] == 'bool' else 'other')
        if op in ('==', '!='):
            r = self.equal(a, b, at_)
            return r if op == '==' else Not(r)
        if a.op == 'RIt' and b.op == 'RIt' and op in ('<', '>', '<=', '>=', '-'):
            a, b = b.a[1], a.a[1]
        if a.op == 'It' and b.op in ('It',) and op in ('<', '>', '<=', '>=', '-'):
            a, b = a.a[1], b.a[1]
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op == '+':
            if a.op in ('CStr', 'It') or at_[0] in ('ptr',) or a.op == 'LV':
                return self.ptr_add(a, b)
            if self.exact and rt[0] == 'int':
                return self.wrap(st, add(unwrap(a), unwrap(b)), rt)
            return add(a, b)
        if op == '-':
            if a.op == 'It':
                return mk('It', a.a[0], sub(a.a[1], b))
            if self.exact and rt[0] == 'int':
                return self.wrap(st, sub(unwrap(a), unwrap(b)), rt)
            return sub(a, b)
        if op == '*':
            if self.exact and rt[0] == 'int':
                return self.wrap(st, mul(unwrap(a), unwrap(b)), rt)
            return mul(a, b)
        if op == '/':
            self.event(st, 'div0', Not(eq0(b)), 'division')
            return div(a, b)
        if op == '%':
            self.event(st, 'div0', Not(eq0(b)), 'modulo')
            return mod(a, b)
        if a.op == 'Int' and b.op == 'Int':
            x, y = a.a[0], b.a[0]
            if op == '<<':
                return I(x << y)
            if op == '>>':
                return I(x >> y)
            if op == '&':
                return I(x & y)
            if op == '|':
                return I(x | y)
            if op == '^':
                return I(x ^ y)
        if op in ('&', '|') and (at_[0] == 'bool' or is_bool(a) and is_bool(b)):
            return And(truth(a), truth(b)) if op == '&' else Or(truth(a), truth(b))
        if op == '<<' and b.op == 'Int':
            return scale(a, 1 << b.a[0])
        return app('bit' + op, (a, b), 'int')

    def ptr_add(self, a, b):
        if a.op == 'It':
            return mk('It', a.a[0], add(a.a[1], b))
        if a.op == 'CStr':
            return mk('CStr', mk_slice(a.a[0], b, length(a.a[0])))
        if a.op == 'LV' and a.a[1] and a.a[1][-1][0] == 'i':
            return mk('It', mk('LV', a.a[0], a.a[1][:-1]), add(a.a[1][-1][1], b))
        return app('ptr+', (a, b))

    def equal(self, a, b, td=('other',)):
        for x, y in ((a, b), (b, a)):
            if x.op == 'Cmp' and y.op == 'Int' and y.a[0] == 0:
                return str_eq(x.a[0], x.a[1])
            if x.op == 'App' and x.a[0] == 'find' and y.op == 'Int' and y.a[0] == 0 and x.a[1][2].op == 'Int' and x.a[1][2].a[0] == 0:
                return starts_with(x.a[1][0], x.a[1][1])
            if x.op == 'App' and x.a[0] == 'rfind' and y.op == 'Int' and y.a[0] == 0 and x.a[1][2].op == 'Int' and x.a[1][2].a[0] == 0:
                return starts_with(x.a[1][0], x.a[1][1])
            if x.op == 'MIt' and y.op == 'MEnd':
                return Not(x.a[2])
            if x.op == 'MIt' and y.op == 'MIt':
                return And(Or(Not(x.a[2]), eq(x.a[1], y.a[1])), eq(x.a[2], y.a[2]))
            if x.op == 'PGet' and y is NULL:
                return mk('PIsNull', x) if False else eq(self.pget_val(x), NULL)
            if x is NULL and y.op == 'LV':
                return FALSE
        if a.op == b.op and a.op in ('It', 'RIt') and a.a[0] is b.a[0]:
            return eq0(sub(a.a[1], b.a[1]))
        if a.op == 'MEnd' and b.op == 'MEnd':
            return TRUE
        if a.op == 'LV' and b.op == 'LV':
            return B(a is b) if (a is b) else eq(a, b)
        if td[0] in ('int', 'enum') and not (a.op == 'Bool' or b.op == 'Bool'):
            return eq0(sub(a, b))
        if td[0] == 'opt' and (a.op == 'Opt' or b.op == 'Opt'):
            if a.op != 'Opt':
                a, b = b, a
            if b.op == 'Opt':
                return Or(And(Not(a.a[0]), Not(b.a[0])), And(a.a[0], b.a[0], eq(a.a[1], b.a[1])))
        if td[0] in ('str', 'seq', 'ustr'):
            return str_eq(a, b)
        return eq(a, b)

    def pget_val(self, x):
        return x.a[1]

    def e_Assign(self, fr, st, e):
        v = self.rv(fr, st, e['b'])
        l = self.lv(fr, st, e['a'])
        self.write(st, l, v)
        return l

    def e_CAssign(self, fr, st, e):
        l = self.lv(fr, st, e['a'])
        b = self.rv(fr, st, e['b'])
        a = self.read(st, l)
        td = self.td(fr.unit, e['a'].get('t'))
        ct = self.td(fr.unit, e['ct'])
        v = self.binop(fr, st, e['op'], a, b, ct, ct)
        if td[0] == 'bool':
            v = truth(v)
        else:
            v = self.cast_int(v, ct, td)
        self.write(st, l, v)
        return l

    def cast_int(self, v, s, t):
        """integer conversion from type s to type t; identity when every value of s is a value of t, or both have at least 32
        bits (lengths and ids stay far below 2^31)"""
        if t[0] == 'enum' or s[0] == 'enum':
            return v
        if t[0] != 'int':
            return v
        if s[0] == 'bool':
            return bool2int(v)
        if s[0] != 'int':
            return v
        sw, su, tw, tu = s[1], s[2], t[1], t[2]
        if self.exact and not (tu and tw == 64):
            v = unwrap(v)
        if tw >= 32 and sw >= 32:
            return v
        if (su == tu and tw >= sw) or (su and not tu and tw > sw):
            return v
        if tu and not su and tw >= sw and tw >= 32 and lin_lower(v) is not None and lin_lower(v) >= 0:
            return v
        if v.op == 'Int':
            x = v.a[0] & ((1 << tw) - 1)
            if not tu and x >= 1 << (tw - 1):
                x -= 1 << tw
            return I(x)
        if v.op == 'Ite' and tm._constleaf(v):
            return Ite(v.a[0], self.cast_int(v.a[1], s, t), self.cast_int(v.a[2], s, t))
        nm = ('u' if tu else 's') + str(tw)
        if v.op == 'Cast' and int(v.a[0][1:]) >= tw:
            v = v.a[1]
        if v.op == 'Cast' and v.a[0] == nm:
            return v
        return mk('Cast', nm, v)

    def e_Cast(self, fr, st, e):
        ck = e['ck']
        if ck == 'Const':
            return self.ev(fr, st, e['a'])
        x = self.ev(fr, st, e['a'])
        if ck in ('LValueBitCast', 'BaseToDerived', 'Dynamic'):
            return x
        v = self.rvof(st, x)
        s = self.td(fr.unit, e['st'])
        t = self.td(fr.unit, e['t'])
        if ck == 'IntegralCast':
            return self.cast_int(v, s, t)
        if ck in ('IntegralToBoolean',):
            return truth(v)
        if ck == 'PointerToBoolean':
            return Not(self.equal(v, NULL))
        if ck == 'BooleanToSignedIntegral':
            return bool2int(v)
        if ck == 'BitCast':
            return v
        if ck in ('IntegralToFloating',):
            if v.op == 'Int':
                return mk('Flt', float(v.a[0]))
            return app('tofloat', (v,))
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            return app('toint', (v,), 'int')
        if ck == 'FloatingToBoolean':
            return Not(eq(v, mk('Flt', 0.0)))
        return v

    def e_Copy(self, fr, st, e):
        x = self.ev(fr, st, e['a'])
        return self.rvof(st, x)

    def e_ValueInit(self, fr, st, e):
        return self.default(self.td(fr.unit, e['t']), True)

    def e_StdInit(self, fr, st, e):
        return self.rv(fr, st, e['a'])

    def e_InitList(self, fr, st, e):
        td = self.td(fr.unit, e['t'])
        vals = [self.rv(fr, st, x) for x in e['e']]
        if td[0] == 'rec':
            return rec(td[1], list(zip(e.get('fields', [str(i) for i in range(len(vals))]), vals)))
        if td[0] == 'pair' and len(vals) == 2:
            return pair(*vals)
        if td[0] in ('seq',):
            return elems(*vals)
        if len(vals) == 1 and td[0] not in ('other',):
            return vals[0]
        if not vals:
            return self.default(td, True)
        return elems(*vals)

    def e_New(self, fr, st, e):
        v = self.rv(fr, st, e['init']) if e.get('init') is not None else self.default(self.td(fr.unit, e['at']))
        return lvterm(self.temp(st, v, 'new'))

    def e_Delete(self, fr, st, e):
        self.rv(fr, st, e['a'])
        return UNIT

    def e_Throw(self, fr, st, e):
        self.thr.append(Exit('throw', st.copy(), None, self.loc()))
        self.assume(st, FALSE)
        return UNDEF

    def e_Lambda(self, fr, st, e):
        key = '%s@%d' % (e['id'], fr.unit.n)
        self.lams[key] = (e, fr.unit, fr.fn)
        caps = []
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                if c.get('copy') and fr.this is not None:
                    this = self.temp(st, self.read(st, fr.this), 'cap')
                continue
            if c.get('init') is not None:
                l = self.temp(st, self.rv(fr, st, c['init']), 'cap')
            else:
                l = fr.env.get(c['id'])
                if l is None:
                    raise Unsup('capture of unbound ' + c['n'])
                if not c['ref']:
                    l = self.temp(st, self.read(st, l), 'cap')
            caps.append((c['id'], lvterm(l)))
        return mk('Clo', key, tuple(caps), lvterm(this) if this is not None else NULL)

    def apply(self, fr, st, f, args):
        """call a callable value; args: list of L or T"""
        if f.op == 'Clo':
            e, unit, encl = self.lams[f.a[0]]
            body = e.get('body')
            if body is None:
                sp = e.get('specs') or []
                if len(sp) >= 1:
                    body = sp[0]
                else:
                    raise Unsup('generic lambda')
            env = {}
            for i, l in f.a[1]:
                env[i] = L(l.a[0], l.a[1])
            this = None if f.a[2] is NULL else L(f.a[2].a[0], f.a[2].a[1])
            fn = dict(body)
            fn['unit'] = unit
            fn['file'] = encl['file'] if encl else fn.get('file', '')
            fn['qn'] = (encl['qn'] if encl else '') + '::<lambda>'
            return self.run_fn(fn, env, this, args, st)
        if f.op == 'Fn':
            unit = self.p.units[f.a[2]]
            fn = self.p.lookup(f.a[0], unit)
            if fn is None or fn.get('body') is None:
                return app('fn:' + f.a[1], tuple(self.rvof(st, a) for a in args), 'other')
            return self.call_repo(fr, st, fn, None, args)
        if f.op == 'LV':
            return self.apply(fr, st, self.read(st, L(f.a[0], f.a[1])), args)
        if f.op == 'Ite':
            return Ite(f.a[0], self.rvof(st, self.apply(fr, st.copy(), f.a[1], args)), self.rvof(st, self.apply(fr, st.copy(), f.a[2], args)))
        return app('callfn', (f,) + tuple(self.rvof(st, a) for a in args), 'other')

    def e_ICall(self, fr, st, e):
        f = self.rv(fr, st, e['f'])
        args = [self.ev(fr, st, a) for a in e['args']]
        return self.apply(fr, st, f, args)

    def e_Unsup(self, fr, st, e):
        raise Unsup('expression ' + str(e.get('c')))

    # ------------------------------------------------------------ calls
    def run_fn(self, fn, env, this, args, st):
        unit = fn['unit']
        if len(self.stack) > self.max_depth:
            raise Unsup('call depth')
        self.nframes += 1
        fr = Frame(dict(env), this, unit, fn, self.nframes)
        rt = self.p.type(unit, fn['rt'])
        fn['_retref'] = bool(rt and rt.get('ref'))
        for p, a in zip(fn['params'], args):
            if p.get('ref'):
                l = a if isinstance(a, L) else self.temp(st, a, 'arg')
                fr.env[p['id']] = l
            else:
                root = 'f%d:%s:%d' % (fr.id, p['n'], p['id'])
                v = self.rvof(st, a)
                if self.wlog is not None:
                    pass
                st.mem[root] = v
                fr.env[p['id']] = L(root, ())
        if len(args) < len(fn['params']):
            raise Unsup('missing arguments')
        base = st.facts
        save = self.cur
        self.stack.append(fn.get('usr_key') or fn.get('usr'))
        thr0 = self.thr
        self.thr = []
        try:
            o = self.exec(fr, st.copy(), fn['body'])
        finally:
            self.stack.pop()
            thr = self.thr
            self.thr = thr0
        exits = thr + o.exits
        rets = [e for e in exits if e.kind == 'return']
        throws = [e for e in exits if e.kind == 'throw']
        if o.st is not None:
            rets.append(Exit('return', o.st, UNIT, None))
        self.thr += throws
        if not rets:
            self.assume(st, FALSE)
            self.cur = save
            return UNDEF
        s2, val, g = self.join_exits(rets, base)
        keep = isinstance(val, L) or (isinstance(val, T) and contains(val, lambda x: x.op in ('LV', 'It', 'RIt', 'Clo', 'MIt')))
        pre = 'f%d:' % fr.id
        mem = s2.mem
        if not keep:
            mem = {r: v for r, v in mem.items() if not (isinstance(r, str) and r.startswith(pre))}
        st.mem = mem
        facts = base
        if throws:
            for x in conj(g):
                if x not in facts:
                    facts = facts + (x,)
        elif len(rets) == 1:
            facts = s2.facts
        st.facts = facts
        self.cur = save
        return val

    def has_mut_ref(self, fn):
        return any(p.get('ref') == 2 for p in fn['params'])

    def call_repo(self, fr, st, fn, this, args):
        key = fn.get('usr_key') or fn['usr']
        qn = fn['qn']
        if fn.get('body') is None and not fn.get('ctor'):
            return self.opaque_call(st, fn, this, args, 'ext:')
        if key in self.stack or qn in self.opaque or fn['n'] in self.opaque or '=' + qn in self.opaque:
            return self.opaque_call(st, fn, this, args, 'call:')
        self.inlined.add(key)
        return self.run_fn(fn, {}, this, args, st)

    def opaque_call(self, st, fn, this, args, pre):
        td = self.td(fn['unit'], fn['rt'])
        vals = [self.rvof(st, a) for a in args]
        if this is not None:
            vals = [self.read(st, this)] + vals
        vals = [self.ptrval(st, v) for v in vals]
        r = app(pre + fn['qn'], tuple(vals), self.ret(td))
        k = 0
        if this is not None and not fn.get('const') and not fn.get('static') and fn['n'] not in self.pure:
            fields = self.frames.get(fn['qn'])
            if fields is None:
                self.write(st, this, app(pre + fn['qn'] + '!this', tuple(vals), 'other'))
            else:
                for x in sorted(fields):
                    self.write(st, self.ext(this, ('f', x)), app(pre + fn['qn'] + '!this.' + x, tuple(vals), 'other'))
        for p, a in zip(fn['params'], args):
            if p.get('ref') == 2 and isinstance(a, L):
                ptd = self.td(fn['unit'], p['t'])
                self.write(st, a, app(pre + fn['qn'] + '!' + str(k), tuple(vals), self.ret(ptd)))
            k += 1
        return r

    def ptrval(self, st, v):
        """pointers in uninterpreted calls: by pointee value"""
        if v.op == 'PGet':
            return v.a[1]
        if v.op == 'LV':
            try:
                return mk('Box', self.read(st, L(v.a[0], v.a[1])))
            except Exception:
                return v
        if v.op == 'Ite':
            return Ite(v.a[0], self.ptrval(st, v.a[1]), self.ptrval(st, v.a[2]))
        return v

    def e_Call(self, fr, st, e):
        fn = e['fn']
        if e.get('repo'):
            f = self.p.lookup(e['usr'], fr.unit)
            if f is None and e.get('pat'):
                f = self.p.lookup(e['usr'], fr.unit)
            args = [self.ev(fr, st, a) for a in e['args']]
            self.at_loc(fr, e)
            if f is None:
                td = self.td(fr.unit, e['rt'])
                return app('ext:' + fn, tuple(self.rvof(st, a) for a in args), self.ret(td))
            return self.call_repo(fr, st, f, None, args)
        m = self.stdcall(fr, st, e)
        return m

    def e_MCall(self, fr, st, e):
        if e.get('lambda'):
            o = self.rv(fr, st, e['o'])
            args = [self.ev(fr, st, a) for a in e['args']]
            return self.apply(fr, st, o, args)
        if e.get('repo'):
            return self.repo_method(fr, st, e)
        return self.stdmethod(fr, st, e)

    def repo_method(self, fr, st, e):
        o = self.ev(fr, st, e['o'])
        if e['arrow'] or self.td(fr.unit, e['ot'])[0] == 'ptr':
            this = self.deref(fr, st, self.rvof(st, o))
        else:
            this = o if isinstance(o, L) else self.temp(st, o)
        args = [self.ev(fr, st, a) for a in e['args']]
        self.at_loc(fr, e)
        if e['n'] == 'operator=' and len(args) == 1:
            f = self.p.lookup(e['usr'], fr.unit)
            if f is None or f.get('defaulted') or f.get('body') is None:
                self.write(st, this, self.rvof(st, args[0]))
                return this
        f = self.p.lookup(e['usr'], fr.unit)
        if e.get('virt'):
            f2 = self.devirt(fr, st, e, this, f)
            if f2 is None:
                return self.virt_call(fr, st, e, this, args)
            f = f2
        if f is None:
            if e['n'].startswith('operator') and 'basic_string' in e['n']:
                pass
            vals = tuple(self.rvof(st, a) for a in args)
            return app('ext:' + e['fn'], (self.read(st, this),) + vals, self.ret(self.td(fr.unit, e['rt'])))
        if f.get('static'):
            return self.call_repo(fr, st, f, None, args)
        return self.call_repo(fr, st, f, this, args)

    def devirt(self, fr, st, e, this, f):
        v = self.read(st, this)
        cls = None
        if v.op == 'Rec':
            cls = self.p.class_by_qn.get(v.a[0])
        if cls is None and fr.this is not None and this.root == fr.this.root and this.path == fr.this.path and fr.fn and fr.fn.get('clsusr'):
            c = self.p.classes.get(fr.fn['clsusr'])
            if c is not None and not self.p.subclasses(c['usr']):
                cls = c
        if cls is None:
            ot = self.p.type(fr.unit, e['ot'])
            while ot is not None and ot.get('k') == 'ptr':
                ot = self.p.type(fr.unit, ot['to'])
            ot = ot or {}
            c = self.p.classes.get(ot.get('usr', ''))
            if c is not None and not self.p.subclasses(c['usr']):
                cls = c
        if cls is None:
            return None
        # find the overrider in cls or its bases
        for c in [cls] + self.bases(cls)[::-1]:
            for m in c['methods']:
                if m['usr'] == e['usr'] or e['usr'] in m['over'] or (m['n'] == e['n'] and m['virt']):
                    f2 = self.p.functions.get(m['usr'])
                    if f2 is not None and f2.get('body') is not None:
                        return f2
        return None

    def virt_call(self, fr, st, e, this, args):
        td = self.td(fr.unit, e['rt'])
        obj = self.read(st, this)
        vals = tuple(self.ptrval(st, self.rvof(st, a)) for a in args)
        name = 'virt:' + e['cls'] + '::' + e['n']
        if self.vhook:
            self.vhook(st, name, obj, vals, self.loc())
        r = app(name, (obj,) + vals, self.ret(td))
        if not e.get('mconst'):
            self.write(st, this, app(name + '!this', (obj,) + vals, 'other'))
        for i, (mo, a) in enumerate(zip(e['modes'], args)):
            if mo == 'm' and isinstance(a, L):
                self.write(st, a, app(name + '!' + str(i), (obj,) + vals, 'other'))
        return r

    def e_Ctor(self, fr, st, e):
        if e.get('repo'):
            f = self.p.lookup(e['usr'], fr.unit)
            td = self.td(fr.unit, e['t'])
            if f is None or (f.get('body') is None and not f.get('inits')):
                if e.get('default') or not e['args']:
                    return self.construct_default(td)
                if e['n'] and len(e['args']) == 1:
                    return self.rv(fr, st, e['args'][0])
                raise Unsup('constructor ' + e['fn'])
            args = [self.ev(fr, st, a) for a in e['args']]
            self.at_loc(fr, e)
            return self.construct(fr, st, f, args)
        return self.stdctor(fr, st, e)

    def construct_default(self, td):
        c = self.p.class_by_qn.get(td[1]) if td[0] == 'rec' else None
        if c is None:
            return self.default(td)
        fs = []
        for cc in self.bases(c) + [c]:
            for f in cc['fields']:
                ftd = self.td(cc['unit'], f['t'])
                v = None
                if f.get('init') is not None:
                    gf = Frame({}, None, cc['unit'], {'file': cc['file'], 'qn': cc['qn']}, 0)
                    v = self.rv(gf, St(), f['init'])
                fs.append((f['n'], v if v is not None else self.default(ftd)))
        return rec(td[1], fs)

    def construct(self, fr, st, f, args):
        cls = self.p.classes.get(f['clsusr'])
        if cls is None:
            raise Unsup('class of ' + f['qn'])
        obj = self.temp(st, UNDEF, 'obj')
        st.mem[obj.root] = self.blank(cls)
        self.run_ctor(fr, st, f, obj, args, cls)
        v = st.mem.pop(obj.root)
        return v

    def blank(self, cls):
        fs = []
        for cc in self.bases(cls) + [cls]:
            for x in cc['fields']:
                fs.append((x['n'], UNDEF))
        return mk('Rec', cls['qn'], tuple(fs))

    def run_ctor(self, fr, st, f, obj, args, cls):
        if len(self.stack) > self.max_depth:
            raise Unsup('call depth')
        self.inlined.add(f.get('usr'))
        self.nframes += 1
        nf = Frame({}, obj, f['unit'], f, self.nframes)
        f['_retref'] = False
        for p, a in zip(f['params'], args):
            if p.get('ref'):
                nf.env[p['id']] = a if isinstance(a, L) else self.temp(st, a, 'arg')
            else:
                root = 'f%d:%s:%d' % (nf.id, p['n'], p['id'])
                st.mem[root] = self.rvof(st, a)
                nf.env[p['id']] = L(root, ())
        if len(args) < len(f['params']):
            raise Unsup('missing constructor arguments')
        save = self.cur
        done = set()
        for i in f.get('inits', []):
            if i.get('deleg'):
                v = self.rv(nf, st, i['e'])
                st.mem[obj.root] = v
                done = None
                break
            if 'f' in i:
                v = self.rv(nf, st, i['e']) if i.get('e') is not None else UNDEF
                st.mem[obj.root] = with_(st.mem[obj.root], i['f'], v)
                done.add(i['f'])
            else:
                v = self.rv(nf, st, i['e'])
                if v.op == 'Rec':
                    for n, x in v.a[1]:
                        st.mem[obj.root] = with_(st.mem[obj.root], n, x)
                        done.add(n)
        if done is not None:
            for cc in self.bases(cls) + [cls]:
                for x in cc['fields']:
                    if x['n'] in done:
                        continue
                    td = self.td(cc['unit'], x['t'])
                    if x.get('init') is not None:
                        v = self.rv(nf, st, x['init'])
                    else:
                        v = self.default(td)
                    st.mem[obj.root] = with_(st.mem[obj.root], x['n'], v)
        # keep the class tag even when eta-contraction would drop it
        if f.get('body') is not None:
            base = st.facts
            self.stack.append(f.get('usr'))
            thr0 = self.thr
            self.thr = []
            try:
                o = self.exec(nf, st.copy(), f['body'])
            finally:
                self.stack.pop()
                thr = self.thr
                self.thr = thr0
            exits = thr + o.exits
            rets = [x for x in exits if x.kind == 'return']
            throws = [x for x in exits if x.kind == 'throw']
            if o.st is not None:
                rets.append(Exit('return', o.st, UNIT, None))
            self.thr += throws
            if not rets:
                self.assume(st, FALSE)
            else:
                s2, _, g = self.join_exits(rets, base)
                st.mem = s2.mem
                st.facts = base + (conj(g) if throws else ())
        self.cur = save

    # std models are in stdmodel.py
    from stdmodel import stdcall, stdmethod, stdctor, seq_method, map_method, set_method, opt_method, uptr_method, it_method, \
        json_method, ustr_method, icu_method, pq_method, generic_method, synth_loop, callback

    # ------------------------------------------------------------ entry points
    def summarize(self, fn, this=None, args=None, facts=(), st=None):
        """analyse fn on symbolic arguments -> Summary"""
        st = st or St()
        st.facts = st.facts + tuple(facts)
        unit = fn['unit']
        params = {}
        thisl = None
        if fn.get('cls') and not fn.get('static') and not fn.get('ctor'):
            thisl = L('this', ())
            st.mem['this'] = this if this is not None else sym('this', '')
            if this is None or sym('this', '') not in self.symtd:
                self.symtd[sym('this', '')] = ('rec', fn['cls'])
        vals = []
        for p in fn['params']:
            td = self.td(unit, p['t'])
            v = (args or {}).get(p['n'])
            if v is None and args is not None and isinstance(args, dict):
                v = args.get(len(vals))
            if v is None:
                v = self.newsym(p['n'], td, False)
            params[p['n']] = v
            if p.get('ref'):
                root = 'p:' + p['n']
                st.mem[root] = v
                vals.append(L(root, ()))
            else:
                vals.append(v)
        base = st.facts
        self.cur = Loc(fn['file'], fn['l'], fn['qn'])
        if fn.get('ctor'):
            v = self.construct(Frame({}, None, unit, fn, 0), st, fn, vals)
            return Summary(self, fn, st, v, self.thr, base, params)
        r = self.run_fn(fn, {}, thisl, vals, st)
        if isinstance(r, L):
            r = self.read(st, r)
        return Summary(self, fn, st, r, list(self.thr), base, params)


class Summary:
    def __init__(self, eng, fn, st, ret, throws, base, params):
        self.eng = eng
        self.fn = fn
        self.st = st
        self.ret = ret
        self.throws = throws
        self.base = base
        self.params = params
        self.events = eng.events
        self.loops = eng.loops
        self.this = st.mem.get('this')

    def param_out(self, name):
        return self.st.mem.get('p:' + name)

    def throw_guard(self):
        n = len(self.base)
        return Or(*[And(*e.st.facts[n:]) for e in self.throws])


# ---------------------------------------------------------------- helpers
def truth(v):
    if v.op == 'Int':
        return B(v.a[0] != 0)
    if v.op in ('Lin', 'Mul', 'Mod', 'Div', 'Len', 'Min', 'Max', 'Cast', 'Sum') or (v.op == 'Sym' and v.a[1] in ('int', 'J')) or (v.op == 'App' and v.a[-1] == 'int'):
        return Not(eq0(v))
    if v.op in ('LV', 'Box'):
        return TRUE
    if v.op == 'Null':
        return FALSE
    if v.op == 'Ite' and not is_bool(v):
        return Ite(v.a[0], truth(v.a[1]), truth(v.a[2]))
    return v


def bool2int(v):
    if v.op == 'Bool':
        return I(1 if v.a[0] else 0)
    return Ite(v, I(1), I(0))


def conj(c):
    if c is TRUE:
        return ()
    if c.op == 'And':
        return tuple(c.a[0])
    return (c,)


def str_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'Slice' and x.a[1] is I(0) and x.a[2] is length(y):
            return starts_with(x.a[0], y)
    return eq(a, b)


def starts_with(s, p):
    if p is EMPTY:
        return TRUE
    return app('starts', (s, p), 'bool')


def musort(v):
    if v.op == 'Int' or is_num(v):
        return 'int'
    if v.op == 'Bool' or is_bool(v):
        return 'bool'
    if v.op in tm.SEQOPS:
        return 'vec'
    if v.op == 'Sym':
        return v.a[1] if v.a[1] in ('int', 'vec', 'str', 'bool') else ''
    if v.op == 'Undef':
        return ''
    return ''


def drop_true(g, c):
    return g


def _ints(t):
    return t.op == 'Int'


def count_lin(lin, J):
    """least J >= 0 with lin(J) > 0, where lin is linear in J (the loop runs while lin <= 0), or None"""
    c, d = lin_parts(lin)
    a = d.pop(J, 0)
    rest = mk_lin(c, d)
    if J in syms(rest):
        return None
    if a <= 0:
        # holds for ever or never
        return None
    if a == 1:
        return sub(I(1), rest)          # J + rest <= 0  holds for J <= -rest: n = 1 - rest
    # a*J + rest <= 0  <=>  J <= floor(-rest/a): n = floor(-rest/a) + 1 = floor((a - rest) / a)
    return div(sub(I(a), rest), I(a))


def first_exit(n, J, pred, base):
    """least J in [0, n) with pred(J), else n (n None: unbounded)"""
    if pred is FALSE:
        return n if n is not None else INF
    if pred is TRUE:
        return I(0)
    parts = list(pred.a[0]) if pred.op == 'Or' else [pred]
    bound = n
    rest = []
    for p in parts:
        b = None
        if p.op == 'Le0':
            # exits when p.a[0] <= 0, runs while 1 - p.a[0] <= 0
            b = count_lin(sub(I(1), p.a[0]), J)
        elif p.op == 'Eq0':
            c, d = lin_parts(p.a[0])
            a = d.pop(J, 0)
            r = mk_lin(c, d)
            if a in (1, -1) and J not in syms(r):
                cand = neg(r) if a == 1 else r
                b = cand
                e = entails(base, le(I(0), cand))
                if e is not True and lin_lower(cand) is None:
                    b = None
        if b is not None:
            lo = lin_lower(b)
            if not (lo is not None and lo >= 0):
                e = entails(base, le(I(0), b))
                if e is not True:
                    if entails(base, le(b, I(0))) is True:
                        b = I(0)
                    else:
                        b = tmax(I(0), b)
            bound = b if bound is None else tmin(bound, b)
        elif J not in syms(p):
            # the condition does not change: exits at once or never on this account
            rest.append(p)
        else:
            rest.append(p)
    if not rest:
        return bound if bound is not None else INF
    return first_idx(bound if bound is not None else INF, J, Or(*rest))


def getattr_bound(E):
    if E.op == 'FirstIdx':
        return E.a[0] if E.a[0].op != 'Inf' else None
    if E.op == 'Inf':
        return None
    return E


def mixed(notc, J, bg):
    """does the loop condition itself contribute to the search part of the exit index?"""
    parts = list(notc.a[0]) if notc.op == 'Or' else [notc]
    for p in parts:
        if p.op in ('Le0',) and count_lin(sub(I(1), p.a[0]), J) is not None:
            continue
        if bg:
            return True
    return False


def bound_facts(E):
    """facts about an exit index"""
    if E.op == 'FirstIdx' and E.a[0].op != 'Inf':
        return conj(le(E, E.a[0]))
    return ()


def refine_len(E, base):
    return E


def solve(init, nxt, J, mus, mods):
    """closed forms (in J) of the variables a loop changes"""
    sol = {}
    kinds = {}
    un = list(mus)
    nxt = dict(nxt)
    init = dict(init)
    fixed = []
    for m in list(un):
        r = fixed_element(m, nxt, J, mus)
        if r is not None:
            idx, hole, body = r
            for x in mus:
                nxt[x] = replace_at(replace_len(nxt[x], m, init[m]), m, idx, hole) if x is not m else body
            del nxt[m]
            un[un.index(m)] = hole
            init[hole] = at(init[m], idx)
            nxt[hole] = replace_len(body, m, init[m])
            fixed.append((m, idx, hole))
            mus = [hole if x is m else x for x in mus]
    progress = True
    while un and progress:
        progress = False
        # invariants first
        for m in list(un):
            N = subst(nxt[m], sol) if sol else nxt[m]
            if N is m:
                sol[m] = init[m]
                kinds[m] = 'inv'
                un.remove(m)
                progress = True
        for m in list(un):
            N = subst(nxt[m], sol) if sol else nxt[m]
            deps = [x for x in un if x in syms(N)]
            if deps and deps != [m]:
                continue
            s = solve1(m, init[m], N, J)
            if s is not None:
                sol[m], kinds[m] = s
                un.remove(m)
                progress = True
                break
        # element-wise updates may be read by the others at the same position
        if not progress:
            for m in list(un):
                N = subst(nxt[m], sol) if sol else nxt[m]
                deps = [x for x in un if x in syms(N)]
                if deps and deps != [m]:
                    continue
                # single self-recurrence
                sol[m] = fold(J, init[m], fresh_like(J), m, N) if False else mkfold(J, init[m], J, m, N)
                kinds[m] = 'fold'
                un.remove(m)
                progress = True
                break
    if un:
        # mutually dependent group: one fold over a record
        names = ['x%d' % i for i in range(len(un))]
        acc = fresh('acc', '')
        m2 = {m: fld(acc, nm) for m, nm in zip(un, names)}
        body = rec('group', [(nm, subst(subst(nxt[m], sol) if sol else nxt[m], m2)) for m, nm in zip(un, names)])
        ini = rec('group', [(nm, init[m]) for m, nm in zip(un, names)])
        g = mkfold(J, ini, J, acc, body)
        for m, nm in zip(un, names):
            sol[m] = fld(g, nm)
            kinds[m] = 'group'
    for m, idx, hole in fixed:
        sol[m] = tm.seq_upd(init[m], idx, sol.pop(hole))
        kinds[m] = 'element'
    return sol, kinds


def fixed_element(m, nxt, J, mus):
    """the loop changes only the element of m at an index that stays the same, and reads m only there (or its length)"""
    N = nxt[m]
    if N.op != 'SeqUpd' or N.a[0] is not m:
        return None
    idx = N.a[1]
    if J in syms(idx) or any(x in syms(idx) for x in mus):
        return None
    hole = fresh('el', '')
    for x in mus:
        t = N.a[2] if x is m else nxt[x]
        t = replace_at(replace_len(t, m, Undefd), m, idx, hole)
        if m in syms(t):
            return None
        if x is m:
            body = replace_at(N.a[2], m, idx, hole)
    return idx, hole, body


Undefd = tm.UNDEF


def fresh_like(J):
    return fresh('j', 'J')


def mkfold(n, init, J, acc, body):
    v = fresh('j', 'J')
    return fold(n, init, v, acc, subst(body, {J: v}))


def _app(J, S):
    """concatenation of S(0..J-1)"""
    v = fresh('j', 'J')
    return comp(J, v, subst(S, {J: v}))


def solve1(m, init, N, J):
    if m not in syms(N):
        # last value
        prev = subst(N, {J: sub(J, I(1))})
        if J not in syms(N):
            if init is N:
                return init, 'const'
            return Ite(eq0(J), init, N), 'last'
        if prev.op != 'Undef' and subst(prev, {J: I(0)}) is init:
            return prev, 'last'
        return Ite(eq0(J), init, prev), 'last'
    # numbers
    c, d = lin_parts(N)
    if d.get(m) == 1:
        dd = dict(d)
        del dd[m]
        delta = mk_lin(c, dd)
        if m not in syms(delta):
            if J not in syms(delta):
                return add(init, mul(delta, J)), 'ind'
            v = fresh('j', 'J')
            return add(init, msum(J, v, subst(delta, {J: v}))), 'sum'
    # sequences: append / prepend
    ss = list(segs(N))
    if ss and ss[0] is m and all(m not in syms(s) for s in ss[1:]):
        return cat(init, _app(J, mk_seq(ss[1:]))), 'append'
    if ss and ss[-1] is m and all(m not in syms(s) for s in ss[:-1]):
        S = mk_seq(ss[:-1])
        if J not in syms(S):
            return cat(_app(J, S), init), 'prepend'
        v = fresh('j', 'J')
        return cat(comp(J, v, subst(S, {J: sub(sub(J, I(1)), v)})), init), 'prepend'
    # code point by code point
    if N.op == 'App' and N.a[0] == 'moveIndex32' and N.a[1][1] is m and N.a[1][2] is I(1) and m not in syms(N.a[1][0]) and \
            J not in syms(N.a[1][0]) and init is I(0):
        return tm.cp_pos(N.a[1][0], J), 'codepoint'
    # boolean accumulation
    if N.op == 'Or' and m in N.a[0]:
        g = Or(*[x for x in N.a[0] if x is not m])
        if m not in syms(g):
            v = fresh('j', 'J')
            return Or(init, exists(J, v, subst(g, {J: v}))), 'or'
    if N.op == 'And' and m in N.a[0]:
        g = And(*[x for x in N.a[0] if x is not m])
        if m not in syms(g):
            v = fresh('j', 'J')
            return And(init, Not(exists(J, v, subst(Not(g), {J: v})))), 'and'
    # element update at J + c
    if N.op == 'SeqUpd' and N.a[0] is m:
        idx, x = N.a[1], N.a[2]
        off = sub(idx, J)
        if J not in syms(off) and m not in syms(off):
            hole = fresh('hole', '')
            xx = replace_at(x, m, idx, hole)
            ln = fresh('ln', '')
            xx = replace_len(xx, m, init)
            if m not in syms(xx):
                v = fresh('j', 'J')
                e = subst(xx, {J: v})
                e = subst(e, {hole: at(init, add(v, off))})
                mapped = comp(J, v, elems(e))
                return cat(mk_slice(init, I(0), off), mapped, mk_slice(init, add(off, J), length(init))), 'map'
    # maps
    if N.op == 'Put' and N.a[0] is m and m not in syms(N.a[1]) and m not in syms(N.a[2]):
        v = fresh('j', 'J')
        s = {J: v}
        return map_acc(init, J, v, TRUE, subst(N.a[1], s), subst(N.a[2], s)), 'mapacc'
    if N.op == 'PutIf' and N.a[0] is m and all(m not in syms(x) for x in N.a[1:]):
        v = fresh('j', 'J')
        s = {J: v}
        return map_acc(init, J, v, subst(N.a[1], s), subst(N.a[2], s), subst(N.a[3], s)), 'mapacc'
    return None


def replace_at(x, m, idx, hole):
    memo = {}

    def f(t):
        r = memo.get(t)
        if r is not None:
            return r
        if m not in syms(t):
            r = t
        elif t.op == 'At' and t.a[0] is m and t.a[1] is idx:
            r = hole
        else:
            r = rebuild(t, f)
        memo[t] = r
        return r
    return f(x)


def replace_len(x, m, init):
    memo = {}

    def f(t):
        r = memo.get(t)
        if r is not None:
            return r
        if m not in syms(t):
            r = t
        elif t.op == 'Len' and t.a[0] is m:
            r = length(init)
        else:
            r = rebuild(t, f)
        memo[t] = r
        return r
    return f(x)
