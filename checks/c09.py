"""C09: encoding and decoding leave the tokenizer as it was."""
import re
from prop import *
import terms as tm
import cg
from load import nodes
import c10

META = {'technique': 'interprocedural effect analysis on value graphs (final state of the object as a term), plus a write analysis of globals and statics',
        'level': 'proof', 'min': 20,
        'note': 'The random numbers a model with dropout draws are not part of the tokenizer. Errors raised half-way are covered by the same '
                'rule: a store that only happens before an error is still a store.',
        'explanation': 'every function encode and decode can reach, through every override, leaves the object it runs on equal to what it was; '
                       'the one exception is a store of a value under the very text it is computed from, and then finding the value stored '
                       'gives what computing it gives'}
ENTRY = ('Tokenizer::encode', 'Tokenizer::decode')


def run(ctx):
    ctx.rule('the object a function runs on ends up equal to what it was: final state term = initial state')
    ctx.rule('a kept value: stored under key k, a function of k and of fields nothing reachable changes')
    ctx.rule('finding a kept value: same result as when it is not there')
    ctx.rule('no global or static variable changes')
    p = ctx.prog
    g = cg.Graph(p)
    ent = [f for f in p.functions.values() if f['qn'] in ENTRY]
    if not ent:
        return ctx.unknown('entry points', '', 'encode and decode not found')
    reach = g.reach([f.get('usr_key') or f['usr'] for f in ent])
    funs = [f for f in p.functions.values() if (f.get('usr_key') or f['usr']) in reach and f.get('body') is not None]
    c10.statics(ctx, p, funs)
    ekeys = {f['qn'] for f in ent}
    virt = {f['qn'] for f in funs if f.get('virt') and not f.get('ctor')}
    meth = [f for f in funs if f.get('cls') and not f.get('static') and not f.get('ctor')]
    # a const member function is judged by itself; the others are followed in their callers
    roots = [f for f in meth if f.get('const') or f['qn'] in virt or f['qn'] in ekeys]
    opaque = {'=' + f['qn'] for f in meth if f.get('const')} | {'bytes_char'}
    opaque |= pure_free(p, g, funs)
    memo = {}
    for f in sorted(roots, key=lambda f: f['qn']):
        state(ctx, g, p, f, opaque - {'=' + f['qn']}, memo)
    changed = {x for v in memo.values() for x in v}
    for f in sorted(roots, key=lambda f: f['qn']):
        for cls, field in sorted(changed):
            if f.get('cls') == cls or cls in bases(p, f.get('cls')):
                found(ctx, p, f, opaque - {'=' + f['qn']}, field)


def bases(p, cls):
    c = p.class_by_qn.get(cls)
    out = set()
    for b in (c or {}).get('bases', []):
        bc = p.classes.get(b)
        if bc:
            out |= {bc['qn']} | bases(p, bc['qn'])
    return out


def pure_free(p, g, funs):
    """free functions that take everything by value or const reference and call no member function that changes an object they
    were not given by value"""
    out = set()
    for f in funs:
        if f.get('cls') or any(x.get('ref') == 2 for x in f['params']):
            continue
        ts = [p.type(f['unit'], x['t']) for x in f['params']]
        if any((t or {}).get('k') in ('ptr', 'uptr', 'other', 'fun') or 'ptr' in repr(t) or 'std::function' in repr(t) for t in ts):
            continue
        out.add('=' + f['qn'])
    return out


def state(ctx, g, p, f, opaque, memo):
    j = Job(ctx, opaque=opaque)
    s = j.summ(f)
    what = '%s leaves its object as it was' % f['qn']
    if s is None:
        return
    if s.this is None:
        return ctx.unknown(what, where(f), 'no final state')
    this = sym('this', '')
    outs = [(what, s.this, this)]
    # objects reached through pointers handed in (const at most by name)
    for q in f['params']:
        if q.get('ref') == 1 and s.param_out(q['n']) is not None:
            outs.append(('%s leaves its argument %s as it was' % (f['qn'], q['n']), s.param_out(q['n']), s.params[q['n']]))
    for what, got, want in outs:
        if got is want or prove_eq(got, want, []):
            ctx.proved(what, s.where, 'final state = initial state')
            continue
        if want is not this or got.op not in ('With', 'Ite'):
            judge(ctx, j, what, s.where, got, want)
            continue
        for n in sorted(fields(got)):
            a, b = fld(got, n), fld(this, n)
            if a is b or prove_eq(a, b, []):
                continue
            r = keeps(ctx, g, j, s, f, n, a, b)
            if r is True:
                memo.setdefault(f['qn'], []).append((f['cls'], n))
                ctx.proved(what + ' but for kept results', s.where, '%s: stored under the text computed from; the value depends on nothing that changes' % n)
            elif r is None:
                judge(ctx, j, what + ' (%s)' % n, s.where, a, b)
            else:
                ctx.refuted(what + ' (%s)' % n, s.where, r)


MUTATORS = re.compile(r'::(erase|clear|insert|emplace|emplace_back|push_back|push|pop|pop_back|assign|swap|extract|merge|reset|try_emplace|insert_or_assign) object')


def fields(t):
    if t.op == 'With':
        return {n for n, _ in t.a[1]} | fields(t.a[0])
    if t.op == 'Ite':
        return fields(t.a[1]) | fields(t.a[2])
    return set()


def judge(ctx, j, what, wh, got, want):
    u = ev.unknowns(got)
    m, ok = ev.separate(ctx.prog, j.symtd, got, want, (), n=200, seed=ctx.seed, time_s=15)
    mut = [x for x in u if MUTATORS.search(x)]
    if mut:
        return ctx.refuted(what, wh, 'is changed by %s' % ', '.join(sorted(x.split('#')[0].strip('?') for x in mut)))
    if m is None and not u and not tm.contains(got, lambda x: x.op == 'Undef'):
        # some path stores something that is not what was there
        return ctx.refuted(what, wh, 'changes on some path: %s' % diff(got, want)[:200])
    if m is None:
        return ctx.unknown(what, wh, 'final state not shown equal, but %d interpretations agree: %s' % (ok, diff(got, want)[:300]))
    if u and not ev.independent(m[0], got, m[1], ()):
        return ctx.unknown(what, wh, 'depends on parts not followed: ' + ', '.join(sorted(u)[:5]))
    ctx.refuted(what, wh, 'changes: %s' % (diff(got, want)[:200]))


def puts(t, base):
    """the (key, value) pairs stored when going from base to t, or None if something else happens"""
    if t is base or (t.op == 'Map' and not t.a[0]):
        return []
    if t.op in ('Ite', 'IteS'):
        a, b = puts(t.a[1], base), puts(t.a[2], base)
        return None if a is None or b is None else a + b
    if t.op == 'Put':
        r = puts(t.a[0], base)
        return None if r is None else r + [(t.a[1], t.a[2])]
    if t.op == 'PutIf':
        r = puts(t.a[0], base)
        return None if r is None else r + [(t.a[2], t.a[3])]
    return None


def function_of(ctx, g, v, key, mutable):
    """what, beside the key and the object's unchanged fields, the value depends on"""
    this = sym('this', '')
    v = subst(v, {key: tm.fresh('k', '')})
    bad = {tm.show(x) for x in tm.syms(v) if x is not this and not tm.show(x).startswith('k')}
    if tm.contains(v, lambda x: x is fld(this, mutable)):
        bad.add('what is kept (%s)' % mutable)
    # helpers that are handed the whole object: by what they read
    for x in tm.all_subterms(v):
        if x.op == 'App' and isinstance(x.a[0], str) and this in x.a[1]:
            qn = x.a[0].split(':', 1)[-1].split('!')[0]
            fs = [f for f in ctx.prog.functions.values() if f['qn'] == qn]
            if not fs:
                bad.add(qn)
            for k in g.reach([f.get('usr_key') or f['usr'] for f in fs]):
                f = ctx.prog.functions.get(k)
                for y in nodes([f.get('body')]) if f else ():
                    if y.get('k') == 'Mem' and y.get('f', y.get('n')) == mutable:
                        bad.add('what is kept (%s, read in %s)' % (mutable, f['qn']))
                    if y.get('fn') in NONDET or y.get('cls') in NONDET:
                        bad.add('%s (in %s)' % (y.get('fn') or y.get('cls'), f['qn']))
    return bad


NONDET = {'std::random_device', 'rand', 'random', 'time', 'clock', 'getenv', 'std::chrono::system_clock::now', 'std::chrono::steady_clock::now'}


def keeps(ctx, g, j, s, f, n, got, base):
    """True: a store of results under the text they are computed from; a text: what is wrong; None: no store of that kind"""
    ps = puts(got, base)
    if ps is None:
        # the store happens in a loop
        for info in s.loops:
            for root, m in info.mus:
                if info.init[m] is base and info.sol.get(m) is not None:
                    ps = puts(info.next[m], m)
                    if ps is not None:
                        base = m
                        break
            if ps is not None:
                break
    if not ps:
        return None
    for k, v in ps:
        if ev.unknowns(k) or ev.unknowns(v):
            return None
        v, k = [subst(x, {base: fld(sym('this', ''), n)}) for x in (v, k)]
        bad = function_of(ctx, g, v, k, n)
        if bad:
            return 'what is kept in %s under %s depends on %s' % (n, tm.show(k)[:80], ', '.join(sorted(bad))[:200])
    return True


def found(ctx, p, f, opaque, n):
    """a kept value is found / not found: same result"""
    j = Job(ctx, opaque=opaque)
    s = j.summ(f)
    if s is None or s.ret is None:
        return
    base = fld(sym('this', ''), n)
    jobs = []
    if tm.contains(s.ret, lambda x: x is base):
        jobs.append((s.ret, base, fld(s.this, n) if s.this is not None else base))
    for info in s.loops:
        for root, m in info.mus:
            if info.init[m] is base:
                for r2, m2 in info.mus:
                    if m2 is not m and tm.contains(info.next[m2], lambda x: x is m):
                        jobs.append((info.next[m2], m, info.next[m]))
    for t, b, after in jobs:
        ps = puts(after, b)
        what = '%s gives the same whether the result was kept or not' % f['qn']
        keys = {x.a[1] for x in tm.all_subterms(t) if x.op in ('Has', 'Get') and x.a[0] is b}
        if not ps:
            ctx.unknown(what, s.where, 'reads %s without the store being visible' % n)
            continue
        for k in keys:
            kk, v = next(((kk, v) for kk, v in ps if kk is k), ps[0])
            if kk is not k:
                v = subst(v, {kk: k})      # what was kept under that key, whoever kept it
            hit = refine(subst(t, {tm.mk('Get', b, k): v, tm.m_get(b, k): v}), [tm.m_has(b, k)])
            miss = refine(t, [Not(tm.m_has(b, k))])
            free = [x for x in (hit, miss) if tm.contains(x, lambda y: y is b)]
            if free:
                ctx.unknown(what, s.where, 'the result still depends on what was kept')
                continue
            j.known |= {x.a[0] for x in tm.all_subterms(hit) if x.op == 'App'}
            j.same(what, s.where, hit, miss, n=200)
