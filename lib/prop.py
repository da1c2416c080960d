"""Shared by the value-graph checks: find the functions, build their value graphs, compare with the specified terms.

An equation 'code term = specified term' under facts is PROVED when both have the same normal form, if needed after a case
split over the conditions occurring in them. If they differ, it is REFUTED only if a finite interpretation of the symbols,
satisfying the facts, gives the two terms different values and neither depends on a part the engine could not follow;
otherwise it is UNKNOWN."""
import os
import time

import ev
import terms as tm
import vg
import core
from core import where
from terms import (And, FALSE, I, Not, Or, TRUE, add, app, at, B, cat, elems, entails, eq, eq0, fill, fld, has_value, inconsistent,
                   Ite, le, length, lt, mk_slice, opt_value, pair, refine, some, sub, subst, sym, unbox)

ARRAYS = ('ids', 'type_ids', 'tokens', 'words', 'offsets', 'special_tokens_mask', 'attention_mask')
DEBUG = os.environ.get('VERIF_DEBUG')
SLOW = {'bytes_char'}


LIMIT = 150     # seconds for one function or obligation


class Stop(Exception):
    pass


class Job:
    def __init__(self, ctx, opaque=SLOW, budget=240, pure=(), exact=False):
        self.exact = exact
        self.frames = {}
        self.pure = set(pure)
        self.ctx = ctx
        self.p = ctx.prog
        self.opaque = set(opaque)
        self.symtd = {}
        self.known = set()
        self.sums = {}
        self.t0 = time.time()
        self.budget = budget
        self.tries = 400 if ctx.tier == 'thorough' else 160

    # -------------------------------------------------------------- finding code
    def fns(self, qn):
        return [f for f in self.p.functions.values() if f['qn'] == qn and f.get('body') is not None]

    def fn(self, qn, need=True):
        """function by qualified name; a method may live in a base class"""
        r = self.fns(qn)
        if not r and '::' in qn:
            cls, n = qn.rsplit('::', 1)
            c = self.p.class_by_qn.get(cls)
            if c is not None:
                for b in vg.Engine(self.p).bases(c)[::-1]:
                    r = self.fns(b['qn'] + '::' + n)
                    if r:
                        break
        if not r:
            if need:
                self.ctx.unknown('%s is analysed' % qn, '', 'no function of this name with a body')
            return None
        return r[0]

    def summ(self, qn, this=None, args=None, facts=(), opaque=None, need=True):
        f = self.fn(qn, need) if isinstance(qn, str) else qn
        if f is None:
            return None
        e = vg.Engine(self.p, opaque=self.opaque if opaque is None else set(opaque), pure=self.pure)
        e.symtd = self.symtd
        e.exact = self.exact
        e.frames = self.frames
        try:
            with core.limit(LIMIT):
                s = e.summarize(f, this=this, args=args, facts=facts)
        except RecursionError:
            raise
        except core.TimeUp:
            self.ctx.unknown('%s is followed' % f['qn'], where(f), 'not followed within %d s' % LIMIT)
            return None
        except Exception as ex:
            self.ctx.unknown('%s is followed' % f['qn'], where(f), 'value graph: %r' % ex)
            return None
        s.where = where(f)
        self.ctx.did('value graphs', f['qn'])
        for k in e.inlined:
            g = self.p.functions.get(k)
            self.ctx.did('functions followed', g['qn'] if g else str(k))
        return s

    def const(self, qn, *texts):
        """value of a repo function applied to constant texts, as a term"""
        f = self.fn(qn)
        if f is None:
            return None
        s = self.summ(f, args={p['n']: tm.lits(t) for p, t in zip(f['params'], texts)})
        return s.ret if s else None

    # -------------------------------------------------------------- unfolding recursion
    def unfold(self, t, depth=1, only=None):
        """replace calls of repo functions left opaque because of recursion by their summaries, `depth` times"""
        if depth <= 0:
            return t
        memo = {}

        def f(x):
            r = memo.get(x)
            if r is None:
                r = tm.rebuild(x, f)
                if r.op == 'App' and isinstance(r.a[0], str) and (r.a[0].startswith('call:') or self.final(r.a[0])):
                    qn = r.a[0][5:]
                    n = qn.split('::')[-1]
                    if '!' not in qn and n not in self.opaque and qn not in self.opaque and (only is None or n in only):
                        y = self.instance(qn, r.a[1])
                        if y is not None:
                            r = y
                memo[x] = r
            return r
        r = f(t)
        return self.unfold(r, depth - 1, only) if depth > 1 else r

    def instance(self, qn, args):
        f = self.fn(qn, need=False)
        if f is None:
            return None
        if qn not in self.sums:
            self.sums[qn] = None
            e = vg.Engine(self.p, opaque=self.opaque)
            e.symtd = self.symtd
            try:
                self.sums[qn] = e.summarize(f)
            except Exception:
                return None
        s = self.sums[qn]
        if s is None or s.ret is None:
            return None
        ps = [s.params[p['n']] for p in f['params']]
        if f.get('cls') and not f.get('static'):
            ps = [sym('this', '')] + ps
        if len(ps) != len(args):
            return None
        return subst(s.ret, dict(zip(ps, args)))

    def final(self, name):
        """virtual call on a class nothing derives from"""
        if not name.startswith('virt:') or '!' in name:
            return False
        c = self.p.class_by_qn.get(name[5:].rsplit('::', 1)[0])
        return c is not None and not self.p.subclasses(c['usr']) and bool(self.fns(name[5:]))

    def skipped(self, got, want):
        """functions with known bodies that the value graph of the code leaves uninterpreted and the specification does not mention"""
        w = {x.a[0] for x in tm.all_subterms(want) if x.op == 'App'} | self.known
        out = set()
        for x in tm.all_subterms(got):
            if x.op == 'App' and isinstance(x.a[0], str) and x.a[0] not in w and x.a[0].split(':')[0] in ('call', 'virt'):
                qn = x.a[0][5:].split('!')[0]
                if x.a[0].startswith('call:') or self.final(x.a[0].split('!')[0]):
                    out.add(x.a[0])
        return out

    # -------------------------------------------------------------- obligations
    def same(self, what, wh, *a, **k):
        try:
            with core.limit(LIMIT):
                return self.same_(what, wh, *a, **k)
        except core.TimeUp:
            return self.ctx.unknown(what, wh, 'not decided within %d s' % LIMIT)

    def holds(self, what, wh, *a, **k):
        try:
            with core.limit(LIMIT):
                return self.holds_(what, wh, *a, **k)
        except core.TimeUp:
            return self.ctx.unknown(what, wh, 'not decided within %d s' % LIMIT)

    def same_(self, what, wh, got, want, facts=(), gens=None, apps=None, n=None, unfold=0, msg='', hints=()):
        ctx = self.ctx
        if got is None:
            return ctx.unknown(what, wh, 'no value')
        if unfold:
            got = self.unfold(got, unfold)
            want = self.unfold(want, unfold)
        fx = fixed_ints(facts)
        got, want = subst(got, fx), subst(want, fx)
        if prove_eq(got, want, facts):
            return ctx.proved(what, wh, 'same normal form' + (': ' + tm.show(want)[:160]))
        got, want = refine(got, facts), refine(want, facts)
        m, ok = ev.separate(self.p, self.symtd, got, want, facts, n=n or self.tries, gens=gens, apps=apps, seed=ctx.seed, time_s=15, hints=hints)
        u = ev.unknowns(got, want) | ev.unknowns(*facts)
        if m is None:
            return ctx.unknown(what, wh, 'normal forms differ, but %d interpretations agree: %s' % (ok, diff(got, want)[:300]))
        sk = self.skipped(got, want) | (m[0].lib - {x.a[0] for x in tm.all_subterms(want) if x.op == 'App'})
        if (u or sk) and (ev.unknowns(want) or ev.unknowns(*facts) or not ev.independent(m[0], got, m[1], sk)):
            u |= {x.split(':', 1)[-1] for x in sk}
            return ctx.unknown(what, wh, 'depends on parts not followed: ' + ', '.join(sorted(u)[:5]))
        return ctx.refuted(what, wh, (msg or 'differs') + '; with %s the code gives %s, specified %s' % (describe(m[0], got, want), sv(m[1]), sv(m[2])))

    def holds_(self, what, wh, cond, facts=(), gens=None, apps=None, n=None, msg='', hints=(), tried=False):
        ctx = self.ctx
        cond = cond if tried else refine(cond, facts)
        if cond is TRUE or not tried and ( entails(list(facts), cond) is True or prove(cond, facts)):
            return ctx.proved(what, wh, 'follows from the path conditions' if facts else '')
        u = ev.unknowns(cond) | ev.unknowns(*facts)
        m, ok = ev.witness(self.p, self.symtd, cond, facts, n=n or self.tries, gens=gens, apps=apps, seed=ctx.seed, time_s=15, hints=hints)
        if m is None:
            return ctx.unknown(what, wh, 'not derived, but %d interpretations satisfy it: %s' % (ok, tm.show(cond)[:300]))
        u |= m[0].lib
        if u and (ev.unknowns(*facts) or m[0].lib or not ev.independent(m[0], cond, m[1], ())):
            return ctx.unknown(what, wh, 'depends on parts not followed: ' + ', '.join(sorted(u)[:5]))
        return ctx.refuted(what, wh, (msg or 'does not hold') + ' for %s' % describe(m[0], cond, *facts))


def fixed_ints(facts):
    """closed terms the facts give an integer value"""
    out = {}
    for f in tm._flatten(facts):
        if f.op == 'Eq0':
            c, d = tm.lin_parts(f.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if k in (1, -1) and not ev.freebv(x) and x.op != 'Sym':
                    out[x] = I(-c * k)
    return out


def only_at(t, facts):
    """value of a fold all of whose steps but one leave the accumulator alone"""
    n = t.a[0]
    if n.op == 'Inf':
        return None
    for f in tm._flatten(facts):
        for s in tm.syms(f):
            if s.a[1] in ('int', 'J') and entails(list(facts), And(le(I(0), s), lt(s, n))) is True:
                i, acc = tm.fresh('i', 'J'), tm.fresh('acc', '')
                body = tm.open_bv(t.a[3], t.a[2], i, (acc,))
                fs = list(facts) + [lt(i, n), Not(eq0(sub(i, s)))]
                fs += tm.index_facts(fs, n, i)
                if refine(body, fs) is acc:
                    return refine(tm.open_bv(t.a[3], t.a[2], s, (t.a[1],)), facts)
    return None


def unrolled(t, limit=4):
    """t with its loops over a constant number of elements written out"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Fold' and r.a[0].op == 'Int' and 0 <= r.a[0].a[0] <= limit:
                v = r.a[1]
                for i in range(r.a[0].a[0]):
                    v = tm.open_bv(r.a[3], r.a[2], I(i), (v,))
                r = v
            if r.op == 'Sum' and r.a[0].op == 'Int' and 0 <= r.a[0].a[0] <= limit:
                v = I(0)
                for i in range(r.a[0].a[0]):
                    v = tm.add(v, tm.open_bv(r.a[2], r.a[1], I(i)))
                r = v
            if r.op == 'Comp' and r.a[0].op == 'Int' and 0 <= r.a[0].a[0] <= limit:
                r = tm.mk_seq([g for i in range(r.a[0].a[0]) for g in tm.segs(tm.open_bv(r.a[2], r.a[1], I(i)))])
            memo[x] = r
        return r
    return f(t)


def forall(n, body):
    """the fact 'body(i) for every index i below n'"""
    i = tm.fresh('q', 'J')
    return Not(tm.exists(n, i, Not(body(i))))


def each(n, body):
    """the sequence body(0) ++ body(1) ++ ... ++ body(n-1)"""
    i = tm.fresh('q', 'J')
    return tm.comp(n, i, body(i))


def first(n, body):
    """the least index below n with body, otherwise n"""
    i = tm.fresh('q', 'J')
    return tm.first_idx(n, i, body(i))


def loop(n, init, step):
    """acc := init; for k < n: acc := step(k, acc)"""
    k, a = tm.fresh('k', 'J'), tm.fresh('acc', '')
    return tm.fold(n, init, k, a, step(k, a))


def whil(n, init, step, cond):
    """acc := init; at most n times, while cond(acc): acc := step(k, acc)"""
    e = first(n, lambda k: Not(cond(loop(k, init, step))))
    return loop(e, init, step)


def grouped(info):
    """the loop as one fold over a record of everything it changes; None if it can end early"""
    if info.n is None or info.cond is not TRUE or info.E is not info.n:
        return None
    acc, k = tm.fresh('acc', ''), tm.fresh('k', 'J')
    ms = [m for _, m in info.mus]
    mm = {m: fld(acc, 'x%d' % i) for i, m in enumerate(ms)}
    body = tm.rec('group', [('x%d' % i, subst(subst(info.next[m], mm), {info.J: k})) for i, m in enumerate(ms)])
    ini = tm.rec('group', [('x%d' % i, info.init[m]) for i, m in enumerate(ms)])
    return tm.fold(info.n, ini, k, acc, body), ms


def splices(info, text, piece):
    """a loop that rewrites a text in place, element by element: text[k] becomes piece(k), a position stays at the end of what is done.
    By induction: with T done, (T ++ text[k..], |T|) becomes (T ++ piece(k) ++ text[k+1..], |T| + |piece(k)|).
    Returns the loop's variables that hold the text, or None"""
    r = grouped(info)
    if r is None or r[0].op != 'Fold':
        return None
    f, ms = r
    n, init, b, body = f.a
    if n is not length(text) or init.op != 'Rec':
        return None
    k, acc, t = tm.fresh('k', 'J'), tm.fresh('acc', ''), tm.fresh('T', 'str')
    body = tm.open_bv(body, b, k, (acc,))
    facts = [lt(k, n)]
    hyp, want = [], []
    for nm, v in init.a[1]:
        if v is text:
            hyp.append((nm, tm.cat(t, elems(at(text, k)), tm.mk_slice(text, add(k, I(1)), n))))
            want.append(tm.cat(t, piece(k), tm.mk_slice(text, add(k, I(1)), n)))
        elif v is I(0):
            hyp.append((nm, length(t)))
            want.append(add(length(t), length(piece(k))))
        else:
            return None
    nxt = subst(body, {acc: tm.rec('group', hyp)})
    for (nm, _), w in zip(hyp, want):
        if not prove_eq(fld(nxt, nm), w, facts):
            if DEBUG:
                print('splices:', nm, tm.show(fld(nxt, nm))[:600], '\n   want', tm.show(w)[:400])
            return None
    return [m for m, (nm, v) in zip(ms, init.a[1]) if v is text]


def chars(*words):
    """texts as the tuples of signed bytes the interpretations use"""
    return [tuple(b - 256 if b > 127 else b for b in w.encode()) for w in words]


def replace_all(m, args):
    """concrete replacement of every occurrence, from the left"""
    s, f, t = args
    if not f:
        raise ev.EvalFail('replace nothing')
    out, i = (), 0
    while i < len(s):
        if s[i:i + len(f)] == f:
            out += t
            i += len(f)
        else:
            out += s[i:i + 1]
            i += 1
    return out


def sv(v):
    s = ev.showv(v)
    return s if len(s) < 160 else s[:160] + '...'


def describe(m, *ts):
    """the interpretation, restricted to the symbols occurring"""
    out = []
    for t in ts:
        for s in tm.syms(t):
            v = m.env.get(s)
            if s in m.env:
                x = '%s = %s' % (s.a[0], sv(v))
                if x not in out:
                    out.append(x)
    return '; '.join(sorted(out)[:8]) or 'any input'


def diff(a, b, d=0):
    """first place where two terms differ"""
    if a is b:
        return ''
    if a.op == b.op and d < 12 and len(a.a) == len(b.a):
        for x, y in zip(a.a, b.a):
            if isinstance(x, tm.T) and isinstance(y, tm.T) and x is not y:
                return diff(x, y, d + 1)
            if isinstance(x, tuple) and isinstance(y, tuple) and x != y and len(x) == len(y):
                for p, q in zip(x, y):
                    if isinstance(p, tm.T) and isinstance(q, tm.T) and p is not q:
                        return diff(p, q, d + 1)
    return '%s  vs  %s' % (tm.show(a)[:150], tm.show(b)[:150])


def conds(t, out, seen):
    """splittable (closed) conditions in t"""
    if t in seen or len(out) > 12:
        return
    seen.add(t)
    if t.op in ('Ite', 'IteS') and not ev.freebv(t.a[0]):
        c = t.a[0]
        while c.op == 'Not':
            c = c.a[0]
        if c.op in ('And', 'Or'):
            for x in c.a[0]:
                y = x.a[0] if x.op == 'Not' else x
                if y not in out and not ev.freebv(y):
                    out.append(y)
        elif c not in out:
            out.append(c)
    if t.op in ('Min', 'Max') and not ev.freebv(t):
        c = le(t.a[0][0], t.a[0][1])
        if c not in out:
            out.append(c)
    for x in tm.subterms_direct(t):
        conds(x, out, seen)


def prove_eq(a, b, facts, depth=0, limit=None):
    if limit is None:
        limit = [400]
    limit[0] -= 1
    if a is b:
        return True
    if limit[0] < 0:
        return False
    a, b = refine(a, facts), refine(b, facts)
    if a is b:
        return True
    if tm.is_bool(a) or tm.is_bool(b):
        if entails(list(facts) + [a], b) is True and entails(list(facts) + [b], a) is True:
            return True
    elif eq(a, b) is TRUE or entails(list(facts), eq(a, b)) is True:
        return True
    elif a.op == b.op == 'Fld' and a in numbers(facts) and b in numbers(facts) and entails(list(facts), eq0(tm.sub(a, b))) is True:
        return True
    if depth >= 9:
        return False
    cs = []
    conds(a, cs, set())
    conds(b, cs, set())
    if all(entails(list(facts), c) is not None for c in cs):
        for x in facts[-8:]:
            conds(x, cs, set())
    for c in cs:
        if entails(list(facts), c) is not None:
            continue
        for f in (c, Not(c)):
            fs = [refine(x, [f]) for x in facts] + [f]
            if FALSE in fs or inconsistent(fs):
                continue
            if not prove_eq(a, b, fs, depth + 1, limit):
                return False
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == 'Fold' and y.op != 'Fold':
            v = only_at(x, facts)
            if v is not None:
                return prove_eq(v, y, facts, depth + 1, limit)
    if congruent(a, b, facts, depth, limit):
        return True
    if DEBUG:
        print('   leaf:', diff(a, b), '\n     under', [tm.show(f) for f in facts])
    return False


def numbers(facts):
    """terms the facts compare as numbers"""
    out = set()
    for f in facts:
        f = f.a[0] if f.op == 'Not' else f
        if f.op in ('Le0', 'Eq0'):
            out |= set(tm.lin_parts(f.a[0])[1])
    return out


def congruent(a, b, facts, depth, limit):
    """equal because built alike from equal parts"""
    if a.op != b.op or len(a.a) != len(b.a):
        return False
    pe = lambda x, y, fs=facts: prove_eq(x, y, fs, depth + 1, limit)
    if a.op in ('Comp', 'Sum', 'FirstIdx'):
        n, m = a.a[0], b.a[0]
        if n is not m and (n.op == 'Inf' or m.op == 'Inf' or not pe(n, m)):
            return False
        i = tm.fresh('i', 'J')
        return pe(tm.open_bv(a.a[2], a.a[1], i), tm.open_bv(b.a[2], b.a[1], i), list(facts) + tm.index_facts(facts, n, i))
    if a.op == 'Fold':
        n, m = a.a[0], b.a[0]
        if n is not m and (n.op == 'Inf' or m.op == 'Inf' or not pe(n, m)):
            return False
        if not pe(a.a[1], b.a[1]):
            return False
        i, acc = tm.fresh('i', 'J'), tm.fresh('acc', '')
        return pe(tm.open_bv(a.a[3], a.a[2], i, (acc,)), tm.open_bv(b.a[3], b.a[2], i, (acc,)), list(facts) + tm.index_facts(facts, n, i))
    if a.op in tm.BINDERS or a.op in ('Sym', 'Int', 'Bool', 'BV', 'Lin', 'And', 'Or', 'Le0', 'Eq0'):
        return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, tm.T):
            if not isinstance(y, tm.T) or not (x is y or pe(x, y)):
                return False
        elif isinstance(x, tuple):
            if not isinstance(y, tuple) or len(x) != len(y):
                return False
            for p, q in zip(x, y):
                if isinstance(p, tm.T) and isinstance(q, tm.T):
                    if p is not q and not pe(p, q):
                        return False
                elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) == 2 and p[0] == q[0] and \
                        isinstance(p[1], tm.T) and isinstance(q[1], tm.T):
                    if p[1] is not q[1] and not pe(p[1], q[1]):
                        return False
                elif p != q:
                    return False
        elif x != y:
            return False
    return True


def prove(c, facts, depth=0, limit=None):
    if limit is None:
        limit = [300]
    limit[0] -= 1
    if limit[0] < 0:
        return False
    c = refine(c, facts)
    if c is TRUE or entails(list(facts), c) is True:
        return True
    if c.op == 'And':
        return all(prove(x, facts, depth, limit) for x in c.a[0])
    if depth >= 7 or c is FALSE:
        return inconsistent(facts)
    cs = []
    conds(c, cs, set())
    for f in facts:
        conds(f, cs, set())
    for k in cs:
        if entails(list(facts), k) is not None:
            continue
        for f in (k, Not(k)):
            fs = list(facts) + [f]
            if inconsistent(fs):
                continue
            if not prove(c, fs, depth + 1, limit):
                return False
        return True
    return False


def equal_lengths(enc):
    """facts: the seven arrays of an encoding have one length"""
    n = length(fld(enc, 'ids'))
    return [eq(length(fld(enc, f)), n) for f in ARRAYS[1:]]


def rec_fields(p, cls):
    c = p.class_by_qn.get(cls)
    return [] if c is None else [f['n'] for f in c['fields']]


def eta(t):
    """t with every record that only repeats the fields of one other record replaced by that record"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Rec' and len(r.a[1]) > 1:
                e = tm._eta(r.a[0], r.a[1])
                if e is not None and e.op in ('App', 'Sym', 'Fld'):
                    r = e
            memo[x] = r
        return r
    return f(t)


def gen_encoding(depth=0):
    """interpretations of an encoding whose arrays agree in length, for use as a generator"""
    def g(m, r, d=0):
        n = r.randint(0, m.maxlen + 1) if d or r.random() < 0.8 else r.randint(5, 14)
        f = {'ids': tuple(r.randint(0, 9) for _ in range(n)), 'type_ids': tuple(r.randint(0, 3) for _ in range(n)),
             'tokens': tuple(m.string(r) for _ in range(n)),
             'words': tuple(('none',) if r.random() < 0.3 else (ev.SOME, r.randint(0, 5)) for _ in range(n)),
             'offsets': tuple(ev.Rv('std::pair', {'first': (a := r.randint(0, 6)), 'second': a + r.randint(0, 4)}) for _ in range(n)),
             'special_tokens_mask': tuple(r.randint(0, 1) for _ in range(n)), 'attention_mask': tuple(r.randint(0, 1) for _ in range(n)),
             'overflowing': tuple(g(m, r, 2) for _ in range(r.randint(0, 2))) if d < 2 else ()}
        f['$id'] = 0
        return ev.Rv('Encoding', f)
    return g
