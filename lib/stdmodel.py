"""Models of the library functions the repository uses, as functions on value-graph terms.

Anything not modelled becomes a fresh '?...' symbol (and havocs what it may write), so that a comparison which depends on it
is left undecided instead of being decided by guesswork."""
import re
from terms import *
import terms as tm

NPOS = I(-1)
STR_PASSIVE = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::string_view'}
EXC = ('std::runtime_error', 'std::invalid_argument', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::domain_error',
       'std::length_error')
JNULL = 6


class Unsup(Exception):
    pass


def _vg():
    import vg
    return vg


def seqv(self, v):
    """pointer / literal / sequence value -> sequence value"""
    if v.op == 'CStr':
        return v.a[0]
    if v.op == 'It':
        l = _vg().L(v.a[0].a[0], v.a[0].a[1])
        return v if False else mk_slice(self.read(self._st, l), v.a[1], length(self.read(self._st, l)))
    if v.op == 'LV':
        return self.read(self._st, _vg().L(v.a[0], v.a[1]))
    return v


def charcat(self, fr, v, td):
    """operand of a string concatenation"""
    if td[0] in ('int', 'enum', 'bool'):
        return elems(v)
    return seqv(self, v)


def ischar(self, fr, node):
    return self.td(fr.unit, node.get('t'))[0] in ('int', 'enum')


def lower_bounded(self, st, pos, n, ln):
    """min(pos + n, ln)"""
    if is_npos(n):
        return ln
    hi = add(pos, n)
    if self.decide(st, le(hi, ln)) is True:
        return hi
    if self.decide(st, le(ln, hi)) is True:
        return ln
    return tmin(hi, ln)


def fixed_pos(i, n):
    """a constant position, or one counted from the end"""
    import vg
    i = vg.unwrap(i)
    return i.op == 'Int' or sub(n, i).op == 'Int'


def is_npos(n):
    return n.op == 'Int' and (n.a[0] == -1 or n.a[0] >= (1 << 31) - 1)


def cell(v):
    return mk('LV', v[0], v[1])


def L_of(lv):
    return _vg().L(lv.a[0], lv.a[1])


# ------------------------------------------------------------------ loops for algorithms
def synth_loop(self, fr, st, n, body):
    vg = _vg()

    def b(q, J):
        body(q, J)
        return vg.Out(q)
    o = self.loop(fr, st, {'k': 'synth', 'l': 0}, None, b, None, n)
    if o.st is None:
        st.facts = st.facts + (FALSE,)
        return
    st.mem, st.facts = o.st.mem, o.st.facts
    self.thr += [e for e in o.exits if e.kind == 'throw']


def callback(self, fr, st, f, args):
    r = self.apply(fr, st, f, args)
    return self.rvof(st, r)


def rng(self, st, b, e):
    """(L of the container, first index, count) of an iterator range"""
    if b.op == 'It' and e.op == 'It' and b.a[0] is e.a[0]:
        return L_of(b.a[0]), b.a[1], sub(e.a[1], b.a[1])
    if b.op == 'RIt' and e.op == 'RIt' and b.a[0] is e.a[0]:
        # a copy of the elements, backwards: for algorithms that only read them
        s = self.read(st, L_of(b.a[0]))
        n = sub(b.a[1], e.a[1])
        J = fresh('j', 'J')
        return self.temp(st, tm.comp(n, J, elems(at(s, sub(sub(b.a[1], I(1)), J))))), I(0), n
    return None


# ------------------------------------------------------------------ free functions
def stdcall(self, fr, st, e):
    vg = _vg()
    fn = e['fn']
    self._st = st
    n = e['n']
    A = e['args']

    def ev(i):
        return self.ev(fr, st, A[i])

    def rv(i):
        v = self.rv(fr, st, A[i])
        self._st = st
        return v
    td = self.td(fr.unit, e.get('rt', e.get('t')))
    if fn in STR_PASSIVE:
        return ev(0)
    if fn in ('std::addressof', 'std::__addressof'):
        x = ev(0)
        return vg.lvterm(x if isinstance(x, vg.L) else self.temp(st, x))
    if fn == 'std::make_unique' or fn == 'std::make_shared':
        if len(A) == 0:
            return mk('Box', self.default(td[1] if td[0] == 'uptr' else ('other',), True))
        v = rv(0)
        return mk('Box', v)
    if fn == 'std::make_pair' and len(A) == 2:
        return pair(rv(0), rv(1))
    if fn == 'std::make_tuple':
        return rec('std::tuple', [(str(i), rv(i)) for i in range(len(A))])
    if fn == 'std::get':
        m = re.search(r'get<#V[a-z]*(\d+)', e['usr'])
        if m is None:
            return self.unk('get', td)
        x = ev(0)
        nm = m.group(1)
        atd = self.td(fr.unit, A[0].get('t'))
        if atd[0] == 'pair':
            nm = ('first', 'second')[int(nm)]
        if isinstance(x, vg.L):
            return self.ext(x, ('f', nm))
        return fld(x, nm)
    if n in ('operator==', 'operator!=') and len(A) == 2:
        a, b = rv(0), rv(1)
        a, b = stdval(self, st, a), stdval(self, st, b)
        t = self.td(fr.unit, A[0].get('t'))
        t2 = self.td(fr.unit, A[1].get('t'))
        if t2[0] == 'opt' and t[0] != 'opt':
            a, b, t, t2 = b, a, t2, t
        if t[0] == 'opt' and t2[0] != 'opt':
            if str(self.p.type(fr.unit, A[1].get('t')).get('s', '')).endswith('nullopt_t') or str(self.p.type(fr.unit, A[0].get('t')).get('s', '')).endswith('nullopt_t'):
                r = Not(has_value(a))
            else:
                r = And(has_value(a), self.equal(opt_value(a), b, t2))
            return r if n == 'operator==' else Not(r)
        r = self.equal(a, b, t)
        return r if n == 'operator==' else Not(r)
    if n in ('operator<', 'operator>', 'operator<=', 'operator>=') and len(A) == 2:
        a, b = stdval(self, st, rv(0)), stdval(self, st, rv(1))
        if n == 'operator>':
            return lex_lt(b, a)
        if n == 'operator<':
            return lex_lt(a, b)
        if n == 'operator<=':
            return Not(lex_lt(b, a))
        return Not(lex_lt(a, b))
    if n == 'operator+' and len(A) == 2 and fn.startswith('std::'):
        a, b = rv(0), rv(1)
        t0, t1 = self.td(fr.unit, A[0].get('t')), self.td(fr.unit, A[1].get('t'))
        return cat(charcat(self, fr, a, t0), charcat(self, fr, b, t1))
    if n == 'make_reverse_iterator' and len(A) == 1:
        a = rv(0)
        return mk('RIt', a.a[0], a.a[1]) if a.op == 'It' else self.unk(fn, td)
    if n == 'operator-' and len(A) == 2:
        a, b = rv(0), rv(1)
        if a.op == 'It' and b.op == 'It':
            return sub(a.a[1], b.a[1])
        if a.op == 'RIt' and b.op == 'RIt':
            return sub(b.a[1], a.a[1])
        return self.unk(fn, td)
    if n == 'operator+' and len(A) == 2:
        a, b = rv(0), rv(1)
        if a.op == 'It':
            return mk('It', a.a[0], add(a.a[1], b))
        if b.op == 'It':
            return mk('It', b.a[0], add(b.a[1], a))
        return self.unk(fn, td)
    if fn == 'std::max' or fn == 'std::min':
        if len(A) == 2:
            a, b = rv(0), rv(1)
            if is_num(a) or is_num(b) or td[0] == 'int':
                return (tmax if n == 'max' else tmin)(a, b)
        if len(A) == 1:
            v = rv(0)
            if v.op == 'Seq' and len(v.a[0]) == 1 and v.a[0][0].op == 'Elems':
                xs = v.a[0][0].a[0]
                r = xs[0]
                for x in xs[1:]:
                    r = (tmax if n == 'max' else tmin)(r, x)
                return r
        return self.unk(fn, td)
    if fn == 'std::clamp' and len(A) == 3:
        return tmin(tmax(rv(0), rv(1)), rv(2))
    if fn in ('std::abs', 'abs'):
        x = rv(0)
        return Ite(le(I(0), x), x, neg(x))
    if fn == 'std::swap' and len(A) == 2:
        a, b = self.lv(fr, st, A[0]), self.lv(fr, st, A[1])
        x, y = self.read(st, a), self.read(st, b)
        self.write(st, a, y)
        self.write(st, b, x)
        return UNIT
    if fn == 'std::exchange' and len(A) == 2:
        a = self.lv(fr, st, A[0])
        old = self.read(st, a)
        self.write(st, a, rv(1))
        return old
    if fn == 'std::to_string':
        return app('to_string', (rv(0),), 'str')
    if fn in ('std::stoi', 'std::stol', 'std::stoul', 'std::stoll'):
        vals = tuple(x for x in (rv(i) for i in range(len(A))))
        return app('stoi', vals, 'int')
    if fn == 'std::back_inserter':
        x = self.lv(fr, st, A[0])
        return mk('BackIns', vg.lvterm(x))
    if n in ('rbegin', 'rend', 'crbegin', 'crend') and fn.startswith('std::') and len(A) == 1:
        x = self.lv(fr, st, A[0])
        return mk('RIt', vg.lvterm(x), length(self.read(st, x)) if 'begin' in n else I(0))
    if n in ('begin', 'end', 'cbegin', 'cend') and fn.startswith('std::') and len(A) == 1:
        x = self.lv(fr, st, A[0])
        v = self.read(st, x)
        return mk('It', vg.lvterm(x), I(0) if 'begin' in n else length(v))
    if fn in ('std::size', 'std::ssize') and len(A) == 1:
        return length(rv(0))
    if fn in ('std::next', 'std::prev') and len(A) >= 1:
        it = rv(0)
        d = rv(1) if len(A) > 1 else I(1)
        if it.op == 'It':
            return mk('It', it.a[0], add(it.a[1], d if n == 'next' else neg(d)))
        if it.op == 'RIt':
            return mk('RIt', it.a[0], add(it.a[1], neg(d) if n == 'next' else d))
        return self.unk(fn, td)
    if fn == 'std::distance' and len(A) == 2:
        a, b = rv(0), rv(1)
        if a.op == 'It' and b.op == 'It':
            return sub(b.a[1], a.a[1])
        return self.unk(fn, td)
    if fn == 'std::advance':
        l = self.lv(fr, st, A[0])
        it = self.read(st, l)
        d = rv(1)
        self.write(st, l, mk('It', it.a[0], add(it.a[1], d)) if it.op == 'It' else self.unk(fn))
        return UNIT
    if fn in ALGOS:
        r = algo(self, fr, st, e, n, td)
        if r is not None:
            return r
    if fn in ('strlen', 'wcslen', 'std::strlen', 'std::wcslen') and len(A) == 1:
        x = cstr_to_seq(self, fr, rv(0), None)
        if is_seq(x) or x.op in ('Fld', 'Sym', 'At'):
            k = fresh('k', 'J')
            return tm.first_idx(length(x), k, eq0(at(x, k)))
    if fn == 'U_FAILURE' or fn == 'U_SUCCESS':
        r = app('U_FAILURE', (rv(0),), 'bool')
        return r if n == 'U_FAILURE' else Not(r)
    if fn.startswith('icu_') or fn.startswith('u_'):
        return self.icu_method(fr, st, e, None)
    if fn.startswith('simdjson'):
        if n == 'validate_utf8':
            return app('validate_utf8', (seqv(self, rv(0)),), 'bool')
        return app(fn, tuple(seqv(self, rv(i)) for i in range(len(A))), self.ret(td))
    if fn == 'std::operator>>':
        s = self.lv(fr, st, A[0])
        x = self.lv(fr, st, A[1])
        v = self.read(st, s)
        self.write(st, x, app('stream.get', (v,), 'str'))
        self.write(st, s, app('stream.next', (v,), 'other'))
        return s
    if fn == 'std::operator<<':
        s = self.lv(fr, st, A[0])
        v = self.read(st, s)
        x = seqv(self, rv(1))
        self.write(st, s, app('stream.put', (v, x), 'other'))
        return s
    if fn in ('std::setw', 'std::setfill', 'std::hex'):
        return app(fn, tuple(rv(i) for i in range(len(A))), 'other')
    if fn == 'std::regex_search':
        vals = []
        for i, a in enumerate(A):
            v = ev(i)
            vals.append(v)
        args = tuple(seqv(self, self.rvof(st, v)) for v in vals)
        mo = e.get('modes', '')
        for i, v in enumerate(vals):
            if isinstance(v, vg.L) and i < len(mo) and mo[i] == 'm':
                self.write(st, v, app('regex_match', args, 'other'))
        return app('regex_search', args, 'bool')
    if fn in ('std::isspace', 'isspace', 'std::tolower', 'tolower', 'std::toupper', 'std::ispunct', 'iswspace', 'std::iswspace'):
        return app(fn.split('::')[-1], (rv(0),), 'int')
    return havoc_call(self, fr, st, e, fn, td)


def havoc_call(self, fr, st, e, fn, td):
    vg = _vg()
    vals = [self.ev(fr, st, a) for a in e['args']]
    mo = e.get('modes', '')
    for i, v in enumerate(vals):
        if isinstance(v, vg.L) and i < len(mo) and mo[i] in 'mx':
            self.write(st, v, self.unk(fn + ' arg'))
        x = self.rvof(st, v)
        for s in all_subterms(x):
            if s.op in ('It', 'PGet', 'BackIns') or s.op == 'LV':
                lv = s.a[0] if s.op != 'LV' else s
                if lv.op == 'LV' and fn not in CONST_FNS:
                    self.write(st, L_of(lv), self.unk(fn + ' arg'))
    return self.unk(fn, td)


CONST_FNS = {'std::operator=='}


def stdval(self, st, v):
    """comparison operands: pointers from get() by their pointee nullness; strings from C strings"""
    if v.op == 'CStr':
        return v.a[0]
    return v


def lex_lt(a, b):
    if a.op == 'Rec' and b.op == 'Rec' and len(a.a[1]) == len(b.a[1]):
        r = FALSE
        for (f, x), (_, y) in list(zip(a.a[1], b.a[1]))[::-1]:
            r = Or(lex_lt(x, y), And(eq(x, y), r))
        return r
    if a.op == 'It' and b.op == 'It':
        return lt(a.a[1], b.a[1])
    if is_num(a) or is_num(b):
        return lt(a, b)
    return app('lexlt', (a, b), 'bool')


ALGOS = {'std::' + x for x in ('transform', 'accumulate', 'find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count',
                               'count_if', 'for_each', 'copy', 'copy_if', 'max_element', 'min_element', 'remove_if', 'remove', 'fill',
                               'iota', 'replace', 'fill_n', 'reverse', 'copy_n', 'move', 'equal')}


def algo(self, fr, st, e, n, td):
    vg = _vg()
    A = e['args']
    vals = [self.ev(fr, st, a) for a in A]
    vs = [self.rvof(st, v) for v in vals]
    self._st = st
    if len(vs) >= 2 and vs[0].op in ('MItB',):
        # whole-map algorithms
        m = self.read(st, L_of(vs[0].a[0]))
        if n in ('max_element', 'min_element') and len(vs) == 3:
            a, b = fresh('a'), fresh('b')
            q = st.copy()
            c = callback(self, fr, q, vs[2], [a, b])
            k, (cc,) = tm.close([c], [a, b])
            key = app('extremal_key', (m, mk('Lam', k, cc)), 'other')
            return mk('MIt', vs[0].a[0], key, Not(eq0(m_size(m))))
        if n in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if'):
            a = fresh('j', 'J')
            q = st.copy()
            c = vg.truth(callback(self, fr, q, vs[2], [pair(mk('MKey', m, a), mk('MVal', m, a))]))
            E = first_idx(m_size(m), a, c if n != 'all_of' else Not(c))
            if n == 'find_if':
                return mk('MIt', vs[0].a[0], mk('MKey', m, E), lt(E, m_size(m)))
            if n == 'any_of':
                return lt(E, m_size(m))
            if n in ('none_of', 'all_of'):
                return Not(lt(E, m_size(m)))
        if n == 'for_each':
            def body(q, J):
                callback(self, fr, q, vs[2], [pair(mk('MKey', m, J), mk('MVal', m, J))])
            self.synth_loop(fr, st, m_size(m), body)
            return vs[2]
        return None
    if n == 'fill_n':
        return None
    if vs and vs[0].op == 'RIt' and n not in ('transform', 'copy', 'copy_if', 'accumulate', 'any_of', 'all_of', 'none_of', 'count', 'count_if'):
        return None
    r = rng(self, st, vs[0], vs[1]) if len(vs) >= 2 else None
    if r is None:
        return None
    l, off, cnt = r

    def elem(J):
        return self.ext(l, ('i', add(off, J)))
    seq = self.read(st, l)
    if n == 'transform' and len(vs) == 4:
        out = vs[2]
        if out.op == 'BackIns':
            ol = L_of(out.a[0])

            def body(q, J):
                v = callback(self, fr, q, vs[3], [elem(J)])
                self.write(q, ol, cat(self.read(q, ol), elems(v)))
            self.synth_loop(fr, st, cnt, body)
            return out
        if out.op == 'It':
            ol, oo = L_of(out.a[0]), out.a[1]

            def body(q, J):
                v = callback(self, fr, q, vs[3], [elem(J)])
                self.write(q, self.ext(ol, ('i', add(oo, J))), v)
            self.synth_loop(fr, st, cnt, body)
            return mk('It', out.a[0], add(oo, cnt))
        return None
    if n in ('copy', 'copy_if', 'move') and len(vs) >= 3:
        out = vs[2]
        if out.op == 'BackIns' and n != 'copy_if':
            ol = L_of(out.a[0])
            self.write(st, ol, cat(self.read(st, ol), mk_slice(seq, off, add(off, cnt))))
            return out
        if out.op == 'BackIns':
            ol = L_of(out.a[0])

            def body(q, J):
                c = vg.truth(callback(self, fr, q, vs[3], [elem(J)]))
                cur = self.read(q, ol)
                self.write(q, ol, Ite(c, cat(cur, elems(self.read(q, elem(J)))), cur))
            self.synth_loop(fr, st, cnt, body)
            return out
        return None
    if n == 'accumulate':
        atd = self.td(fr.unit, A[2].get('t'))
        acc = self.temp(st, vs[2], 'acc')

        def body(q, J):
            cur = self.read(q, acc)
            if len(vs) == 4:
                v = callback(self, fr, q, vs[3], [cur, elem(J)])
            else:
                x = self.read(q, elem(J))
                v = cat(cur, x) if atd[0] == 'str' else add(cur, x)
            self.write(q, acc, v)
        self.synth_loop(fr, st, cnt, body)
        return self.read(st, acc)
    if n == 'for_each':
        def body(q, J):
            callback(self, fr, q, vs[2], [elem(J)])
        self.synth_loop(fr, st, cnt, body)
        return vs[2]
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of'):
        J = fresh('j', 'J')
        q = st.copy()
        self.assume(q, lt(J, cnt))
        self.assume(q, le(I(0), J))
        if n == 'find':
            c = self.equal(self.read(q, elem(J)), seqv(self, vs[2]), self.td(fr.unit, A[2].get('t')))
        else:
            ev0 = len(self.events)
            c = vg.truth(callback(self, fr, q, vs[2], [elem(J)]))
        if n in ('find_if_not', 'all_of'):
            c = Not(c)
        E = first_idx(cnt, J, c)
        if n in ('find', 'find_if', 'find_if_not'):
            return mk('It', vg.lvterm(l), add(off, E))
        if n == 'any_of':
            return lt(E, cnt)
        return Not(lt(E, cnt))
    if n in ('count_if', 'count'):
        J = fresh('j', 'J')
        q = st.copy()
        self.assume(q, lt(J, cnt))
        if n == 'count':
            c = self.equal(self.read(q, elem(J)), seqv(self, vs[2]), self.td(fr.unit, A[2].get('t')))
        else:
            c = vg.truth(callback(self, fr, q, vs[2], [elem(J)]))
        return tm.msum(cnt, J, Ite(c, I(1), I(0)))
    if n in ('remove_if', 'remove'):
        J = fresh('j', 'J')
        q = st.copy()
        self.assume(q, lt(J, cnt))
        x = self.read(q, elem(J))
        if n == 'remove':
            c = self.equal(x, seqv(self, vs[2]), self.td(fr.unit, A[2].get('t')))
        else:
            c = vg.truth(callback(self, fr, q, vs[2], [elem(J)]))
        kept = comp(cnt, J, Ite(c, EMPTY, elems(x)))
        pre = mk_slice(seq, I(0), off)
        rest = self.unk('removed tail', ('seq', ('other',)))
        self.write(st, l, cat(pre, kept, mk_slice(rest, I(0), sub(add(cnt, I(0)), length(kept))), mk_slice(seq, add(off, cnt), length(seq))))
        return mk('It', vg.lvterm(l), add(off, length(kept)))
    if n == 'fill':
        self.write(st, l, cat(mk_slice(seq, I(0), off), fill(cnt, vs[2]), mk_slice(seq, add(off, cnt), length(seq))))
        return UNIT
    if n in ('max_element', 'min_element'):
        a, b = fresh('a'), fresh('b')
        q = st.copy()
        c = callback(self, fr, q, vs[2], [a, b]) if len(vs) == 3 else lex_lt(a, b)
        k, (cc,) = tm.close([c], [a, b])
        idx = app('extremal_idx:' + n, (mk_slice(seq, off, add(off, cnt)), mk('Lam', k, cc)), 'int')
        return mk('It', vg.lvterm(l), Ite(eq0(cnt), off, add(off, idx)))
    if n == 'replace':
        J = fresh('j', 'J')
        x = at(seq, add(off, J))
        m = comp(cnt, J, elems(Ite(eq(x, vs[2]), vs[3], x)))
        self.write(st, l, cat(mk_slice(seq, I(0), off), m, mk_slice(seq, add(off, cnt), length(seq))))
        return UNIT
    if n == 'reverse':
        J = fresh('j', 'J')
        m = comp(cnt, J, elems(at(seq, add(off, sub(sub(cnt, I(1)), J)))))
        self.write(st, l, cat(mk_slice(seq, I(0), off), m, mk_slice(seq, add(off, cnt), length(seq))))
        return UNIT
    if n == 'iota':
        J = fresh('j', 'J')
        m = comp(cnt, J, elems(add(vs[2], J)))
        self.write(st, l, cat(mk_slice(seq, I(0), off), m, mk_slice(seq, add(off, cnt), length(seq))))
        return UNIT
    return None


# ------------------------------------------------------------------ methods
def stdmethod(self, fr, st, e):
    cls = e['cls'] or ''
    n = e['n']
    td = self.td(fr.unit, e.get('ot'))
    self._st = st
    if n == 'operator=' and len(e['args']) == 1 and not cls.startswith('simdjson'):
        v = self.rv(fr, st, e['args'][0])
        l = self.lv(fr, st, e['o'])
        self._st = st
        atd = self.td(fr.unit, e['args'][0].get('t'))
        if td[0] == 'str':
            v = charcat(self, fr, v, atd)
        elif td[0] == 'opt' and atd[0] != 'opt':
            v = NONE if is_nullopt(self, fr, e['args'][0]) else some(v)
        elif td[0] == 'uptr' and v.op == 'Null':
            v = NULL
        self.write(st, l, v)
        return l
    o = self.ev(fr, st, e['o'])
    if e.get('arrow'):
        o = self.deref(fr, st, self.rvof(st, o))
    self._st = st
    if cls.startswith('simdjson'):
        return self.json_method(fr, st, e, o)
    if cls.startswith('icu_') or cls.startswith('JNIEnv'):
        return self.icu_method(fr, st, e, o)
    if '__normal_iterator' in cls or '_Node_' in cls or 'reverse_iterator' in cls:
        return self.it_method(fr, st, e, o)
    if cls in ('std::basic_string', 'std::basic_string_view', 'std::vector', 'std::array', 'std::initializer_list', 'std::deque'):
        return self.seq_method(fr, st, e, o)
    if cls in ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set'):
        return self.map_method(fr, st, e, o)
    if cls == 'std::optional':
        return self.opt_method(fr, st, e, o)
    if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        return self.uptr_method(fr, st, e, o)
    if cls == 'std::priority_queue':
        return self.pq_method(fr, st, e, o)
    return self.generic_method(fr, st, e, o)


def is_nullopt(self, fr, node):
    t = self.p.type(fr.unit, node.get('t'))
    return t is not None and 'nullopt_t' in str(t.get('s', t.get('cls', '')))


def args_of(self, fr, st, e):
    out = []
    for a in e['args']:
        if a.get('k') == 'Ctor' and (a.get('cls') or '') == 'std::allocator':
            continue
        out.append(a)
    return out


def seq_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    A = args_of(self, fr, st, e)
    l = o if isinstance(o, vg.L) else None
    td = self.td(fr.unit, e.get('ot'))
    rtd = self.td(fr.unit, e.get('rt', e.get('t')))
    isstr = td[0] == 'str'

    def rv(i):
        v = self.rv(fr, st, A[i])
        self._st = st
        return v

    def lval():
        nonlocal l
        if l is None:
            l = self.temp(st, o)
        return l

    def cur():
        return seqv(self, self.read(st, l) if l is not None else o)

    if n in ('size', 'length'):
        return length(cur())
    if n == 'empty':
        return eq0(length(cur()))
    if n in ('c_str', 'data'):
        if n == 'data' or True:
            if l is not None and td[0] == 'seq' or (n == 'data' and l is not None and not e.get('mconst')):
                return mk('It', vg.lvterm(l), I(0))
        return mk('CStr', cur())
    if n in ('rend', 'crend'):
        return mk('RIt', vg.lvterm(lval()), I(0))
    if n in ('rbegin', 'crbegin'):
        return mk('RIt', vg.lvterm(lval()), length(cur()))
    if n in ('begin', 'cbegin'):
        return mk('It', vg.lvterm(lval()), I(0))
    if n in ('end', 'cend'):
        return mk('It', vg.lvterm(lval()), length(cur()))
    if n == 'operator[]' or n == 'at':
        i = rv(0)
        ln = length(cur())
        ok = And(le(I(0), i), (le if isstr and n == 'operator[]' else lt)(i, ln))
        if n == 'at':
            self.event(st, 'at', And(le(I(0), i), lt(i, ln)), 'at', fixed_pos(i, ln))
        else:
            self.event(st, 'index', ok, 'operator[]', fixed_pos(i, ln))
        if l is not None:
            return self.ext(l, ('i', i))
        return at(cur(), i)
    if n == 'front':
        self.event(st, 'front', lt(I(0), length(cur())), n)
        return self.ext(l, ('i', I(0))) if l is not None else at(cur(), I(0))
    if n == 'back':
        ln = length(cur())
        self.event(st, 'back', lt(I(0), ln), n)
        i = sub(ln, I(1))
        return self.ext(l, ('i', i)) if l is not None else at(cur(), i)
    if n in ('push_back', 'emplace_back'):
        if len(A) == 1:
            v = rv(0)
            v = cstr_to_seq(self, fr, v, td)
        elif td[0] == 'seq' and len(A) == 2 and td[1][0] == 'pair':
            v = pair(rv(0), rv(1))
        elif not A:
            v = self.default(td[1], True)
        else:
            v = make_elem(self, fr, st, td[1], [rv(i) for i in range(len(A))])
        l = lval()
        self.write(st, l, cat(cur(), elems(v)))
        if n == 'emplace_back':
            return self.ext(l, ('i', sub(length(cur()), I(1))))
        return UNIT
    if n == 'pop_back':
        ln = length(cur())
        self.event(st, 'back', lt(I(0), ln), n)
        self.write(st, lval(), mk_slice(cur(), I(0), sub(ln, I(1))))
        return UNIT
    if n == 'clear':
        self.write(st, lval(), EMPTY)
        return UNIT
    if n in ('reserve', 'shrink_to_fit'):
        for i in range(len(A)):
            rv(i)
        return UNIT
    if n == 'capacity':
        return self.unk('capacity', ('int', 64, True))
    if n == 'swap':
        b = self.lv(fr, st, A[0])
        x, y = cur(), self.read(st, b)
        self.write(st, lval(), y)
        self.write(st, b, x)
        return UNIT
    if n == 'resize':
        k = rv(0)
        x = rv(1) if len(A) > 1 else (I(0) if isstr else self.default(td[1] if len(td) > 1 else ('other',), True))
        c = cur()
        ln = length(c)
        shrunk = mk_slice(c, I(0), k)
        grown = cat(c, fill(sub(k, ln), x))
        le_ = self.decide(st, le(k, ln))
        ge_ = self.decide(st, le(ln, k))
        if c is EMPTY:
            v = fill(k, x)
        elif le_ is True:
            v = shrunk
        elif ge_ is True:
            v = grown
        else:
            v = Ite(le(k, ln), shrunk, grown)
        self.event(st, 'resize', le(I(0), k), 'resize')
        self.write(st, lval(), v)
        return UNIT
    if n in ('operator+=', 'append') and isstr:
        if len(A) == 1:
            v = rv(0)
            if n == 'operator+=' or True:
                v = charcat(self, fr, v, self.td(fr.unit, A[0].get('t')))
        elif len(A) == 2 and not ischar(self, fr, A[0]):
            a, b = rv(0), rv(1)
            r = rng(self, st, a, b)
            if r is not None:
                v = mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
            elif is_num(b):
                v = mk_slice(seqv(self, a), I(0), b)
            else:
                v = self.unk('append', td)
        elif len(A) == 2:
            v = fill(rv(0), rv(1))
        elif len(A) == 3:
            s, p, k = seqv(self, rv(0)), rv(1), rv(2)
            v = mk_slice(s, p, lower_bounded(self, st, p, k, length(s)))
        else:
            v = self.unk('append', td)
        lval()
        self.write(st, l, cat(cur(), v))
        return l
    if n == 'assign':
        if len(A) == 1:
            v = seqv(self, rv(0))
        elif len(A) == 2:
            a, b = rv(0), rv(1)
            r = rng(self, st, a, b)
            if r is not None:
                v = mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
            elif ischar(self, fr, A[0]):
                v = fill(a, b)
            else:
                v = mk_slice(seqv(self, a), I(0), b)
        else:
            v = self.unk('assign', td)
        self.write(st, lval(), v)
        return l
    if n == 'substr':
        p = rv(0) if A else I(0)
        k = rv(1) if len(A) > 1 else NPOS
        c = cur()
        ln = length(c)
        self.event(st, 'range', le(p, ln), 'substr')
        return mk_slice(c, p, lower_bounded(self, st, p, k, ln))
    if n == 'compare':
        c = cur()
        if len(A) == 1:
            return mk('Cmp', c, seqv(self, rv(0)))
        p, k = rv(0), rv(1)
        s = seqv(self, rv(2)) if len(A) > 2 else EMPTY
        if len(A) == 5:
            q, m = rv(3), rv(4)
            s = mk_slice(s, q, lower_bounded(self, st, q, m, length(s)))
        elif len(A) == 4:
            s = mk_slice(s, I(0), rv(3))
        self.event(st, 'range', le(p, length(c)), 'compare')
        if p.op == 'Int' and p.a[0] == 0 and k is length(s):
            # compare(0, p.size(), p): prefix test whatever the length
            return mk('Cmp', mk('Slice', c, p, k) if not (c.op in ('Slice', 'Seq', 'Fill')) else mk_slice(c, p, k), s)
        return mk('Cmp', mk_slice(c, p, lower_bounded(self, st, p, k, length(c))), s)
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and isstr:
        c = cur()
        x = rv(0)
        x = charcat(self, fr, x, self.td(fr.unit, A[0].get('t')))
        frm = rv(1) if len(A) > 1 else (I(0) if n in ('find', 'find_first_of', 'find_first_not_of') else NPOS)
        if is_npos(frm):
            frm = NPOS
        if len(A) > 2:
            return self.unk(n, rtd)
        return app(n, (c, x, frm), 'int')
    if n == 'starts_with':
        x = charcat(self, fr, rv(0), self.td(fr.unit, A[0].get('t')))
        return _vg().starts_with(cur(), x)
    if n == 'erase':
        return seq_erase(self, fr, st, e, A, lval(), cur, isstr, rv)
    if n == 'insert':
        return seq_insert(self, fr, st, e, A, lval(), cur, isstr, rv, td)
    if n == 'replace' and isstr:
        vals = [rv(i) for i in range(len(A))]
        rv = vals.__getitem__
        c = cur()
        if len(A) == 3:
            p, k, x = rv(0), rv(1), rv(2)
            if p.op == 'It':
                self.write(st, l if l is not None else lval(), self.unk('replace', td))
                return l
            x = seqv(self, x)
            hi = lower_bounded(self, st, p, k, length(c))
            self.event(st, 'range', le(p, length(c)), 'replace')
            self.write(st, lval(), cat(mk_slice(c, I(0), p), x, mk_slice(c, hi, length(c))))
            return l
        if len(A) == 4:
            p, k = rv(0), rv(1)
            hi = lower_bounded(self, st, p, k, length(c))
            m, ch = rv(2), rv(3)
            v = fill(m, ch) if ischar(self, fr, A[2]) else mk_slice(seqv(self, m), I(0), ch)
            self.write(st, lval(), cat(mk_slice(c, I(0), p), v, mk_slice(c, hi, length(c))))
            return l
    if n.startswith('operator ') or n == 'operator basic_string_view':
        return cur()
    return self.generic_method(fr, st, e, o)


def make_elem(self, fr, st, td, vals):
    if td[0] == 'rec':
        f = self.p.by_qn.get(td[1] + '::' + td[1].split('::')[-1], [])
        f = [x for x in f if len(x['params']) == len(vals)]
        if f:
            return self.construct(fr, st, f[0], vals)
    if td[0] == 'pair' and len(vals) == 2:
        return pair(*vals)
    if td[0] == 'tuple':
        return rec('std::tuple', [(str(i), v) for i, v in enumerate(vals)])
    if td[0] in ('str', 'seq') and len(vals) == 1:
        return seqv(self, vals[0])
    if td[0] in ('str', 'seq') and len(vals) == 2 and is_num(vals[0]):
        return fill(vals[0], vals[1])
    return self.unk('emplaced element', td)


def cstr_to_seq(self, fr, v, td):
    if v.op == 'CStr':
        return v.a[0]
    return v


def seq_erase(self, fr, st, e, A, l, cur, isstr, rv0):
    vg = _vg()
    vals = [rv0(i) for i in range(len(A))]      # the arguments first: evaluating them may change the container
    rv = vals.__getitem__
    c = cur()
    ln = length(c)
    if not A:
        self.write(st, l, EMPTY)
        return l
    a = rv(0)
    if a.op == 'It':
        if len(A) == 1:
            self.event(st, 'iter', And(le(I(0), a.a[1]), lt(a.a[1], ln)), 'erase')
            self.write(st, l, cat(mk_slice(c, I(0), a.a[1]), mk_slice(c, add(a.a[1], I(1)), ln)))
            return mk('It', vg.lvterm(l), a.a[1])
        b = rv(1)
        if b.op == 'It':
            self.event(st, 'iter', And(le(I(0), a.a[1]), le(a.a[1], b.a[1]), le(b.a[1], ln)), 'erase')
            self.write(st, l, cat(mk_slice(c, I(0), a.a[1]), mk_slice(c, b.a[1], ln)))
            return mk('It', vg.lvterm(l), a.a[1])
    elif isstr and is_num(a):
        k = rv(1) if len(A) > 1 else NPOS
        self.event(st, 'range', le(a, ln), 'erase')
        hi = lower_bounded(self, st, a, k, ln)
        self.write(st, l, cat(mk_slice(c, I(0), a), mk_slice(c, hi, ln)))
        return l
    self.write(st, l, self.unk('erase', ('seq', ('other',))))
    return self.unk('erase')


def seq_insert(self, fr, st, e, A, l, cur, isstr, rv0, td):
    vg = _vg()
    vals = [rv0(i) for i in range(len(A))]
    rv = vals.__getitem__
    c = cur()
    ln = length(c)
    p = rv(0)
    pos = p.a[1] if p.op == 'It' else p if is_num(p) else None
    v = None
    if len(A) == 2:
        x = rv(1)
        if p.op == 'It':
            atd = self.td(fr.unit, A[1].get('t'))
            if atd[0] == 'seq' and td[0] == 'seq' and td[1][0] != 'seq' and (self.p.type(fr.unit, A[1].get('t')).get('cls') == 'std::initializer_list'):
                v = x
            elif isstr and is_seq(x) and not ischar(self, fr, A[1]):
                v = x
            else:
                v = elems(x)
        else:
            v = seqv(self, x)
    elif len(A) == 3:
        a, b = rv(1), rv(2)
        r = rng(self, st, a, b)
        if r is not None:
            v = mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
        elif is_num(a) or a.op == 'Ite':
            v = fill(a, b)
        else:
            v = mk_slice(seqv(self, a), I(0), b)
    if v is None or pos is None:
        self.write(st, l, self.unk('insert', td))
        return self.unk('insert')
    if not isstr or p.op == 'It':
        self.event(st, 'iter', And(le(I(0), pos), le(pos, ln)), 'insert')
    else:
        self.event(st, 'range', le(pos, ln), 'insert')
    self.write(st, l, cat(mk_slice(c, I(0), pos), v, mk_slice(c, pos, ln)))
    if p.op == 'It':
        return mk('It', vg.lvterm(l), pos)
    return l


def map_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    A = e['args']
    l = o if isinstance(o, vg.L) else self.temp(st, o)
    td = self.td(fr.unit, e.get('ot'))
    isset = td[0] == 'set'

    def rv(i):
        v = self.rv(fr, st, A[i])
        self._st = st
        if v.op == 'CStr':
            v = v.a[0]
        return v
    m = self.read(st, l)
    if n == 'size':
        return m_size(m)
    if n == 'empty':
        return eq0(m_size(m))
    if n == 'clear':
        self.write(st, l, EMPTYMAP)
        return UNIT
    if n in ('count', 'contains'):
        k = rv(0)
        h = m_has(m, k)
        return h if n == 'contains' else Ite(h, I(1), I(0))
    if n == 'find':
        k = rv(0)
        return mk('MIt', vg.lvterm(l), k, m_has(m, k))
    if n in ('end', 'cend'):
        return mk('MEnd', vg.lvterm(l))
    if n in ('begin', 'cbegin'):
        return mk('MItB', vg.lvterm(l))
    if n == 'at':
        k = rv(0)
        h = m_has(m, k)
        d = self.decide(st, h)
        if d is not True:
            # throws std::out_of_range when the key is missing
            q = st.copy()
            self.assume(q, Not(h))
            self.thr.append(vg.Exit('throw', q, None, self.loc()))
            self.assume(st, h)
        return self.ext(l, ('k', k))
    if n == 'operator[]':
        k = rv(0)
        h = m_has(m, k)
        d = self.decide(st, h)
        if d is not True:
            self.write(st, l, m_put(m, k, Ite(h, m_get(m, k), self.default(td[2], True))))
        return self.ext(l, ('k', k))
    if n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if isset:
            k = rv(0)
            h = m_has(m, k)
            self.write(st, l, m_put(m, k, UNIT))
            return pair(mk('MIt', vg.lvterm(l), k, TRUE), Not(h))
        if len(A) == 1:
            x = rv(0)
            k, v = fld(x, 'first'), fld(x, 'second')
        elif len(A) == 2:
            k, v = rv(0), rv(1)
            if v.op == 'It' or k.op == 'It':
                self.write(st, l, self.unk('insert', td))
                return UNIT
        else:
            self.write(st, l, self.unk('insert', td))
            return self.unk('insert')
        h = m_has(m, k)
        if n == 'insert_or_assign':
            self.write(st, l, m_put(m, k, v))
        else:
            self.write(st, l, Ite(h, m, m_put(m, k, v)))
        return pair(mk('MIt', vg.lvterm(l), k, TRUE), Not(h))
    if n == 'reserve' or n == 'rehash':
        rv(0)
        return UNIT
    return self.generic_method(fr, st, e, l)


def set_method(self, fr, st, e, o):
    return map_method(self, fr, st, e, o)


def opt_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    v = self.rvof(st, o)
    rtd = self.td(fr.unit, e.get('rt', e.get('t')))
    if n == 'has_value' or n == 'operator bool':
        return has_value(v)
    if n in ('value', 'operator*', 'operator->'):
        if n != 'value':
            self.event(st, 'opt', has_value(v), 'optional ' + n)
        else:
            h = has_value(v)
            self.event(st, 'opt', h, 'optional value')
            if self.decide(st, h) is not True:
                q = st.copy()
                self.assume(q, Not(h))
                self.thr.append(vg.Exit('throw', q, None, self.loc()))
                self.assume(st, h)
        if n == 'operator->':
            l = o if isinstance(o, vg.L) else self.temp(st, v)
            return vg.lvterm(self.ext(l, ('o',)))
        if isinstance(o, vg.L):
            return self.ext(o, ('o',))
        return opt_value(v)
    if n == 'value_or':
        d = self.rv(fr, st, e['args'][0])
        self._st = st
        d = cstr_to_seq(self, fr, d, rtd)
        return Ite(has_value(v), opt_value(v), d)
    if n == 'reset':
        self.write(st, o, NONE)
        return UNIT
    if n == 'emplace':
        td = self.td(fr.unit, e.get('ot'))
        vals = [self.rv(fr, st, a) for a in e['args']]
        x = vals[0] if len(vals) == 1 else make_elem(self, fr, st, td[1], vals)
        self.write(st, o, some(x))
        return self.ext(o, ('o',))
    return self.generic_method(fr, st, e, o)


def uptr_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    l = o if isinstance(o, vg.L) else self.temp(st, o)
    v = self.read(st, l)
    if n in ('get', 'operator->'):
        if n == 'operator->':
            self.event(st, 'null', Not(eq(v, NULL)), 'unique_ptr')
            return vg.lvterm(self.ext(l, ('*',)))
        return mk('PGet', vg.lvterm(l), v)
    if n == 'operator*':
        self.event(st, 'null', Not(eq(v, NULL)), 'unique_ptr')
        return self.ext(l, ('*',))
    if n == 'operator bool':
        return Not(eq(v, NULL))
    if n == 'reset':
        if e['args'] and not e['args'][0].get('defarg'):
            p = self.rv(fr, st, e['args'][0])
            self.write(st, l, mk('Box', self.read(st, L_of(p))) if p.op == 'LV' else p)
        else:
            self.write(st, l, NULL)
        return UNIT
    if n == 'release':
        self.write(st, l, NULL)
        t = self.temp(st, unbox(v), 'rel')
        return Ite(eq(v, NULL), NULL, vg.lvterm(t))
    return self.generic_method(fr, st, e, l)


def it_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    it = self.rvof(st, o)
    if n in ('operator*', 'operator->'):
        l = self.deref(fr, st, it)
        return l if n == 'operator*' else vg.lvterm(l)
    if it.op == 'RIt':
        if n == 'base':
            return mk('It', it.a[0], it.a[1])
        if n in ('operator+', 'operator-') and len(e['args']) == 1:
            d = self.rv(fr, st, e['args'][0])
            return mk('RIt', it.a[0], sub(it.a[1], d) if n == 'operator+' else add(it.a[1], d))
        if n in ('operator++', 'operator--'):
            self.write(st, o, mk('RIt', it.a[0], add(it.a[1], I(-1 if n == 'operator++' else 1))))
            return it if e['args'] else o
    if n == 'base':
        return it
    if n in ('operator+', 'operator-') and len(e['args']) == 1:
        d = self.rv(fr, st, e['args'][0])
        if it.op == 'It':
            return mk('It', it.a[0], add(it.a[1], d) if n == 'operator+' else sub(it.a[1], d))
    if n in ('operator++', 'operator--') and it.op == 'It':
        new = mk('It', it.a[0], add(it.a[1], I(1 if n == 'operator++' else -1)))
        self.write(st, o, new)
        return it if e['args'] else o
    if n in ('operator+=', 'operator-=') and it.op == 'It':
        d = self.rv(fr, st, e['args'][0])
        self.write(st, o, mk('It', it.a[0], add(it.a[1], d if n == 'operator+=' else neg(d))))
        return o
    if n == 'operator[]' and it.op == 'It':
        d = self.rv(fr, st, e['args'][0])
        return self.deref(fr, st, mk('It', it.a[0], add(it.a[1], d)))
    return self.generic_method(fr, st, e, o)


def pq_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    l = o if isinstance(o, vg.L) else self.temp(st, o)
    q = self.read(st, l)
    td = self.td(fr.unit, e.get('ot'))
    if n == 'empty':
        return app('pq.empty?', (q,), 'bool')
    if n == 'size':
        return app('pq.size', (q,), 'int')
    if n == 'top':
        return app('pq.top', (q,), td[1])
    if n == 'pop':
        self.write(st, l, app('pq.pop', (q,), 'other'))
        return UNIT
    if n in ('push', 'emplace'):
        vals = [self.rv(fr, st, a) for a in e['args']]
        x = vals[0] if n == 'push' or (len(vals) == 1) else make_elem(self, fr, st, td[1], vals)
        self.write(st, l, app('pq.push', (q, x), 'other'))
        return UNIT
    return self.generic_method(fr, st, e, l)


OPAQUE_CLS = ('std::match_results', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ios', 'std::basic_ostream',
              'std::uniform_real_distribution', 'std::hash', 'std::exception')


def generic_method(self, fr, st, e, o):
    vg = _vg()
    cls, n = e['cls'] or '', e['n']
    if cls == 'std::function' and n == 'operator()':
        args = [self.ev(fr, st, a) for a in e['args']]
        return self.apply(fr, st, self.rvof(st, o), args)
    if cls == 'std::function' and n == 'operator bool':
        return Not(eq(self.rvof(st, o), NULL))
    rtd = self.td(fr.unit, e.get('rt', e.get('t')))
    if cls == 'std::pair' and n == 'swap':
        pass
    if cls.startswith('std::basic_') and 'stream' in cls and n == 'str' and not e['args']:
        return app('stream.str', (self.rvof(st, o),), 'str')
    if cls == 'std::wstring_convert':
        x = seqv(self, self.rv(fr, st, e['args'][0]))
        if n == 'to_bytes':
            return to_utf8(mk('FromUTF32', x))
        if n == 'from_bytes':
            return to_u32(from_utf8(x))
    vals = [self.ev(fr, st, a) for a in e['args']]
    avals = tuple(self.rvof(st, v) for v in vals)
    name = cls + '::' + n
    if cls in OPAQUE_CLS:
        ov = self.rvof(st, o)
        r = app(name, (ov,) + avals, self.ret(rtd))
        if not e.get('mconst') and isinstance(o, vg.L) and n not in ('operator bool',):
            self.write(st, o, app(name + '!this', (ov,) + avals, 'other'))
        for i, v in enumerate(vals):
            if isinstance(v, vg.L) and i < len(e.get('modes', '')) and e['modes'][i] == 'm':
                self.write(st, v, app(name + '!%d' % i, (ov,) + avals, 'other'))
        return r
    if not e.get('mconst') and isinstance(o, vg.L):
        self.write(st, o, self.unk(name + ' object', self.td(fr.unit, e.get('ot'))))
    for i, v in enumerate(vals):
        if isinstance(v, vg.L) and i < len(e.get('modes', '')) and e['modes'][i] in 'mx':
            self.write(st, v, self.unk(name + ' arg'))
    return self.unk(name, rtd)


# ------------------------------------------------------------------ JSON
def json_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    A = e['args']
    v = self.rvof(st, o)

    def rv(i):
        x = self.rv(fr, st, A[i])
        self._st = st
        return seqv(self, x)
    if n == 'operator=':
        x = self.rv(fr, st, A[0])
        if isinstance(o, vg.L):
            self.write(st, o, x)
        return o
    if n in ('operator[]', 'find_field', 'find_field_unordered', 'at_key'):
        return mk('JGet', v, rv(0))
    if n == 'at':
        return mk('JAt', v, rv(0))
    if n in ('value', 'take_value', 'operator*', 'value_unsafe', 'root'):
        if isinstance(o, vg.L) and n != 'operator*':
            return v
        if v.op == 'JField':
            return v
        return v
    if n.startswith('operator '):
        if n.startswith('operator bool'):
            return to_jbool(v)
        if 'basic_string_view' in n or n == 'operator padded_string_view':
            return v if n == 'operator padded_string_view' or v.op in ('JStr', 'JKey', 'JRawKey') else mk('JStr', v)
        if 'long' in n or 'int' in n:
            return v if v.op == 'App' else app('JInt', (v,), 'int')
        if 'double' in n:
            return v if v.op == 'JDbl' else mk('JDbl', v)
        return v
    if n == 'type':
        return app('JType', (v,), 'int')
    if n == 'is_null':
        return eq0(sub(app('JType', (v,), 'int'), I(JNULL)))
    if n in ('get_string', 'get_raw_json_string', 'raw_json_token', 'raw_json', 'get_wobbly_string'):
        if n != 'get_string':
            return mk('JStr', app('raw', (v,), 'other'))
        return mk('JStr', v)
    if n in ('get_int64', 'get_uint64', 'get_int32'):
        return app('JInt', (v,), 'int')
    if n == 'get_double':
        return mk('JDbl', v)
    if n == 'get_bool':
        return mk('JBool', v, 'bool')
    if n in ('get_object', 'get_array', 'get_value', 'get', 'get_number'):
        return v
    if n == 'unescaped_key':
        return mk('JKey', v)
    if n in ('key', 'escaped_key', 'key_raw_json_token'):
        return mk('JRawKey', v)
    if n in ('count_elements', 'count_fields', 'size'):
        return mk('JLen', v)
    if n == 'iterate':
        return app('json', (rv(0),), 'other')
    if n == 'error':
        return app('json.error', (v,), 'int')
    for a in A:
        self.ev(fr, st, a)
    return self.unk('simdjson ' + n, self.td(fr.unit, e.get('rt', e.get('t'))))


def to_jbool(v):
    return v if v.op in ('JBool', 'Eq0', 'Le0', 'Not', 'Bool') else mk('JBool', v, 'bool')


# ------------------------------------------------------------------ ICU
def from_utf8(s):
    if s.op == 'ToUTF8':
        return s.a[0]
    if s is EMPTY:
        return EMPTY
    return mk('FromUTF8', s)


def to_utf8(u):
    if u is EMPTY:
        return EMPTY
    return mk('ToUTF8', u)


def from_u32(s):
    if s is EMPTY:
        return EMPTY
    if s.op == 'ToU32':
        return s.a[0]
    return mk('FromUTF32', s)


to_u32 = tm.to_u32
NORM_FORMS = {'Normalizer2::getNFCInstance': 4, 'Normalizer2::getNFDInstance': 2, 'Normalizer2::getNFKCInstance': 5, 'Normalizer2::getNFKDInstance': 3}


def ustr_method(self, fr, st, e, o):
    return icu_method(self, fr, st, e, o)


def icu_method(self, fr, st, e, o):
    vg = _vg()
    n = e['n']
    fn = e['fn']
    A = e['args']
    rtd = self.td(fr.unit, e.get('rt', e.get('t')))

    def rv(i):
        x = self.rv(fr, st, A[i])
        self._st = st
        return x

    def charp(i, ln=None):
        x = rv(i)
        if x.op == 'It':
            v = self.read(st, L_of(x.a[0]))
            lo = x.a[1]
        elif x.op == 'CStr':
            v, lo = x.a[0], I(0)
        elif x.op == 'LV':
            v, lo = self.read(st, L_of(x)), I(0)
            a = A[i]
            while a.get('k') in ('Cast', 'Paren') and isinstance(a.get('a') or a.get('e'), dict):
                a = a.get('a') or a.get('e')
            if a.get('k') == 'Un' and a.get('op') == '&' and self.td(fr.unit, a['a'].get('t'))[0] == 'int' and \
                    a['a'].get('k') in ('Var', 'Mem', 'Field'):
                v = elems(v)           # the address of one character
        else:
            v, lo = x, I(0)
        if ln is None:
            return mk_slice(v, lo, length(v))
        return mk_slice(v, lo, add(lo, ln))
    if o is None:
        if n == 'fromUTF8':
            return from_utf8(seqv(self, rv(0)))
        if n == 'fromUTF32':
            return from_u32(charp(0, rv(1)))
        if fn.endswith('Normalizer::normalize'):
            src, mode, opts = rv(0), rv(1), rv(2)
            res, status = self.lv(fr, st, A[3]), self.lv(fr, st, A[4])
            s0 = self.read(st, status)
            self.write(st, res, app('icunorm', (mode, opts, src), 'ustr'))
            self.write(st, status, app('icunorm.status', (mode, opts, src, s0), 'int'))
            return UNIT
        if fn.endswith('RegexPattern::compile') or 'Normalizer2' in fn:
            vals = [self.ev(fr, st, a) for a in A]
            av = tuple(self.rvof(st, v) for v in vals)
            for i, v in enumerate(vals):
                if isinstance(v, vg.L) and e['modes'][i] == 'm':
                    self.write(st, v, app(fn + '!%d' % i, av, 'int'))
            return app(fn, av, self.ret(rtd))
        vals = tuple(seqv(self, rv(i)) for i in range(len(A)))
        nm = re.sub(r'_\d+$', '', fn.split('::')[-1])
        r = app(nm, vals, self.ret(rtd))
        t = self.p.type(fr.unit, e.get('rt', e.get('t')))
        if nm.startswith('u_is'):
            # UBool results are 0 or 1
            return Ite(app(nm, vals, 'bool'), I(1), I(0))
        return r
    isu = (e['cls'] or '').endswith('UnicodeString')
    if not isu:
        vals = [self.ev(fr, st, a) for a in A]
        av = tuple(self.rvof(st, v) for v in vals)
        name = fn
        ov = self.rvof(st, o)
        forms = [NORM_FORMS[k] for x in tm.all_subterms(ov) if x.op == 'App' and isinstance(x.a[0], str) for k in NORM_FORMS if x.a[0].endswith(k)]
        if n == 'normalize' and (e['cls'] or '').endswith('Normalizer2') and len(set(forms)) == 1 and len(A) in (2, 3):
            src = av[0]
            status = self.lv(fr, st, A[-1])
            s0 = self.read(st, status)
            self.write(st, status, app('icunorm.status', (I(forms[0]), I(0), src, s0), 'int'))
            out = app('icunorm', (I(forms[0]), I(0), src), 'ustr')
            if len(A) == 2:
                return out
            l = self.lv(fr, st, A[1])
            self.write(st, l, out)
            return l
        r = app(name, (ov,) + av, self.ret(rtd))
        for i, v in enumerate(vals):
            if isinstance(v, vg.L) and i < len(e['modes']) and e['modes'][i] == 'm':
                self.write(st, v, app(name + '!%d' % i, (ov,) + av, 'int'))
        if not e.get('mconst') and isinstance(o, vg.L):
            self.write(st, o, app(name + '!this', (ov,) + av, 'other'))
        return r
    u = self.rvof(st, o)
    if n in ('length', 'isEmpty'):
        return length(u) if n == 'length' else eq0(length(u))
    if n == 'countChar32':
        if A:
            a, b = rv(0), rv(1)
        else:
            a, b = I(0), length(u)
        if b is length(u) or is_npos(b):
            return length(to_u32(mk_slice(u, a, length(u))))
        return length(to_u32(mk_slice(u, a, add(a, b))))
    if n == 'toUTF32':
        p = rv(0)
        cap = rv(1)
        status = self.lv(fr, st, A[2]) if len(A) > 2 else None
        w = to_u32(u)
        if p.op in ('It', 'LV'):
            l = L_of(p.a[0]) if p.op == 'It' else L_of(p)
            v = self.read(st, l)
            lo = p.a[1] if p.op == 'It' else I(0)
            if lo is I(0) and (length(v) is length(w) or self.decide(st, eq0(sub(length(v), length(w)))) is True) and \
                    (cap is length(w) or self.decide(st, le(length(w), cap)) is True):
                self.write(st, l, w)
            else:
                # as many code points as the text has, the capacity names and the buffer holds; the rest of the buffer stays
                k = tmin(tmin(length(w), cap), sub(length(v), lo))
                self.write(st, l, cat(mk_slice(v, I(0), lo), mk_slice(w, I(0), k), mk_slice(v, add(lo, k), length(v))))
        if status is not None:
            s0 = self.read(st, status)
            self.write(st, status, app('toUTF32.status', (u, cap, s0), 'int'))
        return length(w)
    if n == 'append':
        x = rv(0)
        td0 = self.td(fr.unit, A[0].get('t'))
        if len(A) == 1:
            if td0[0] == 'int':
                t = self.p.type(fr.unit, A[0].get('t'))
                x = elems(x) if td0[1] == 16 else mk('FromUTF32', elems(x))
            l = o
            self.write(st, l, cat(u, x))
            return l
        self.write(st, o, self.unk('append', ('ustr',)))
        return o
    if n in ('tempSubString', 'tempSubStringBetween', 'extractBetween'):
        a = rv(0) if A else I(0)
        b = rv(1) if len(A) > 1 else NPOS
        if n == 'tempSubStringBetween':
            return mk_slice(u, a, length(u) if is_npos(b) else b)
        return mk_slice(u, a, lower_bounded(self, st, a, b, length(u)))
    if n == 'toUTF8String':
        l = self.lv(fr, st, A[0])
        self.write(st, l, cat(self.read(st, l), to_utf8(u)))
        return l
    if n in ('operator[]', 'charAt'):
        return at(u, rv(0))
    if n == 'char32At':
        return tm.char32_at(u, rv(0))
    if n == 'moveIndex32':
        return tm.move_index(u, rv(0), rv(1))
    if n in ('operator==', 'operator!='):
        r = eq(u, rv(0))
        return r if n == 'operator==' else Not(r)
    if n in ('operator+=',):
        x = rv(0)
        td0 = self.td(fr.unit, A[0].get('t'))
        if td0[0] == 'int':
            x = elems(x) if td0[1] == 16 else mk('FromUTF32', elems(x))
        self.write(st, o, cat(u, x))
        return o
    if n in ('getTerminatedBuffer', 'getBuffer') and not A:
        return mk('CStr', u)
    vals = tuple(self.rvof(st, self.ev(fr, st, a)) for a in A)
    if not e.get('mconst') and isinstance(o, vg.L):
        self.write(st, o, self.unk(fn + ' object', ('ustr',)))
    return self.unk(fn, rtd)


# ------------------------------------------------------------------ constructors
def stdctor(self, fr, st, e):
    vg = _vg()
    cls = e['cls'] or ''
    td = self.td(fr.unit, e.get('t'))
    A = [a for a in e['args'] if not (a.get('k') == 'Ctor' and (a.get('cls') or '') in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less'))]
    self._st = st

    def rv(i):
        v = self.rv(fr, st, A[i])
        self._st = st
        return v
    if cls in ('std::basic_string', 'std::basic_string_view', 'icu_74::StringPiece'):
        if not A:
            return EMPTY
        if len(A) == 1:
            return seqv(self, rv(0))
        if len(A) == 2:
            a, b = rv(0), rv(1)
            r = rng(self, st, a, b)
            if r is not None:
                return mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
            if ischar(self, fr, A[0]):
                return fill(a, b)
            if ischar(self, fr, A[1]):
                atd = self.td(fr.unit, A[0].get('t'))
                if atd[0] == 'str':
                    return mk_slice(a, b, length(a))
                return mk_slice(seqv(self, a), I(0), b)
        if len(A) == 3:
            s, p, k = seqv(self, rv(0)), rv(1), rv(2)
            return mk_slice(s, p, lower_bounded(self, st, p, k, length(s)))
        return self.unk('string constructor', td)
    if cls.endswith('UnicodeString'):
        if not A:
            return EMPTY
        v = rv(0)
        atd = self.td(fr.unit, A[0].get('t'))
        if len(A) == 1:
            if atd[0] == 'int':
                return elems(v) if atd[1] == 16 else mk('FromUTF32', elems(v))
            if atd[0] == 'ustr':
                return v
            return from_utf8(seqv(self, v)) if False else self.unk('UnicodeString constructor', td)
        return self.unk('UnicodeString constructor', td)
    if cls in ('std::vector', 'std::array', 'std::initializer_list', 'std::deque'):
        if not A:
            return EMPTY
        v = rv(0)
        if len(A) == 1:
            if ischar(self, fr, A[0]) and not e.get('list') and not e.get('stdlist'):
                self.event(st, 'resize', le(I(0), v), 'vector size')
                return fill(v, self.default(td[1], True))
            return v
        b = rv(1)
        r = rng(self, st, v, b)
        if r is not None:
            return mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
        if ischar(self, fr, A[0]):
            self.event(st, 'resize', le(I(0), v), 'vector size')
            return fill(v, cstr_to_seq(self, fr, b, td))
        return self.unk('vector constructor', td)
    if cls in ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set'):
        if not A:
            return EMPTYMAP
        v = rv(0)
        if v.op == 'Int':
            return EMPTYMAP
        if v.op in ('Map', 'Put', 'PutIf', 'MapAcc') or self.td(fr.unit, A[0].get('t'))[0] in ('map', 'set'):
            return v
        if v is EMPTY:
            return EMPTYMAP
        if v.op == 'Seq' and all(s.op == 'Elems' for s in v.a[0]):
            m = EMPTYMAP
            for s in v.a[0]:
                for x in s.a[0]:
                    if td[0] == 'set':
                        m = m_put(m, x, UNIT)
                    else:
                        k = fld(x, 'first')
                        h = m_has(m, k)
                        m = m_put(m, k, fld(x, 'second')) if h is FALSE else Ite(h, m, m_put(m, k, fld(x, 'second')))
            return m
        if v.op == 'It' and len(A) >= 2 and td[0] == 'set':
            r = rng(self, st, v, rv(1))
            if r is not None:
                seq = mk_slice(self.read(st, r[0]), r[1], add(r[1], r[2]))
                J = fresh('j', 'J')
                return map_acc(EMPTYMAP, length(seq), J, TRUE, at(seq, J), UNIT)
        return self.unk('map constructor', td)
    if cls == 'std::pair':
        if not A:
            return self.default(td, True)
        if len(A) == 2:
            return pair(fixarg(self, rv(0)), fixarg(self, rv(1)))
        return rv(0)
    if cls == 'std::tuple':
        if len(A) == 1:
            return rv(0)
        return rec('std::tuple', [(str(i), fixarg(self, rv(i))) for i in range(len(A))])
    if cls == 'std::optional':
        if not A:
            return NONE
        if is_nullopt(self, fr, A[0]):
            return NONE
        v = rv(0)
        if self.td(fr.unit, A[0].get('t'))[0] == 'opt':
            return v
        return some(fixarg(self, v))
    if cls in ('std::unique_ptr', 'std::shared_ptr'):
        if not A:
            return NULL
        v = rv(0)
        if v.op == 'LV':
            return mk('Box', self.read(st, L_of(v)))
        return v
    if cls == 'std::function':
        return rv(0) if A else NULL
    if '__normal_iterator' in cls or '_Node_' in cls:
        return rv(0) if A else UNDEF
    if cls == 'std::priority_queue':
        return app('pq.empty', (), 'other')
    if cls in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less'):
        return UNIT
    if cls in EXC:
        return app('exc:' + cls, (), 'other')
    if cls.startswith('simdjson'):
        if not A:
            return UNDEF
        return seqv(self, rv(0)) if cls.endswith('padded_string') or len(A) == 1 else self.unk(cls, td)
    if cls in ('std::basic_regex', 'std::match_results', 'std::basic_istringstream', 'std::basic_ostringstream', 'std::uniform_real_distribution',
               'std::linear_congruential_engine', 'std::wstring_convert'):
        return app('new:' + cls, tuple(seqv(self, rv(i)) for i in range(len(A)) if not A[i].get('defarg')), 'other')
    for i in range(len(A)):
        rv(i)
    return self.unk('constructor ' + cls, td)


def fixarg(self, v):
    return v.a[0] if v.op == 'CStr' else v
