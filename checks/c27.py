"""C27: every loop moves on, so no input makes the library hang."""
from prop import *
import terms as tm
import vg
import core
import ev
import time
import events
from c10 import mutated
from load import nodes, parents

META = {'technique': 'ranking-function synthesis on the value graph of each loop: a linear measure bounded by the loop conditions that decreases on every path round the loop',
        'level': 'proof', 'min': 10,
        'note': 'The matcher of the regular-expression library and iteration over a container moving on by themselves is taken from the library contracts; '
                'in the queue loop of the merges it is assumed that symbols linked as neighbours are alive.',
        'explanation': 'for each loop of the library the values of the variables it changes are computed as terms for one iteration; a measure taken from the loop '
                       'condition, the conditions on the path or the length of a searched text must be bounded below and decrease by at least one on every path round the loop'}


def run(ctx):
    ctx.rule('a range loop visits each element of a container whose length its body leaves alone')
    ctx.rule('any other loop: some measure is bounded below while looping and decreases by one or more on every path round the loop')
    sc = events.Scan(ctx, ())
    sc.frames = frames(ctx.prog, sc.fs)
    for f in sc.fs:
        always(ctx, f)
    seen = {}
    for f in sc.fs:
        j, s = summary(sc, f)
        if s is None:
            continue
        ctx.did('functions', f['qn'])
        for l in s.loops:
            if l.loc.fn != f['qn'] and any(l.loc.fn == g['qn'] for g in sc.fs):
                continue
            ctx.did('loops', '%s:%s (%s)' % (l.loc.file, l.loc.line, f['qn']))
            k = (l.loc.file, l.loc.line, l.loc.fn)
            v = settle(sc, f, j, s, l, 0, (f,))
            if k not in seen or rank(v) > rank(seen[k]):
                seen[k] = v
    for (file, line, fn), (what, why) in sorted(seen.items(), key=lambda x: (x[0][0], x[0][1], str(x[0][2]))):
        name = 'the loop at %s:%s in %s ends' % (file, line, fn)
        {'proved': ctx.proved, 'refuted': ctx.refuted, 'unknown': ctx.unknown}[what](name, '%s:%s' % (file, line), why)


def always(ctx, f):
    """a counter compared with a bound its type cannot pass"""
    for n in nodes(f['body']):
        if n.get('k') not in ('For', 'While', 'Do'):
            continue
        c = n.get('c') if n.get('c') is not None else n.get('cond')
        if not isinstance(c, dict) or any(x.get('k') in ('Break', 'Return', 'Throw', 'Goto') for x in nodes(n.get('body'))):
            continue
        while c.get('k') in ('Cast', 'Copy', 'Paren'):
            c = c['a']
        if c.get('k') != 'Bin' or c.get('op') not in ('<', '<=', '>', '>=', '!='):
            continue
        for a, b, op in ((c['a'], c['b'], c['op']), (c['b'], c['a'], {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[c['op']])):
            while a.get('k') in ('Cast', 'Copy', 'Paren'):
                a = a['a']
            while b.get('k') in ('Cast', 'Copy', 'Paren'):
                b = b['a']
            if a.get('k') != 'Var' or b.get('k') != 'Int':
                continue
            td = vg.Engine(ctx.prog).td(f['unit'], a['t']) if a.get('t') is not None else ('?',)
            while td[0] in ('ref', 'rref'):
                td = td[1]
            if td[0] != 'int':
                continue
            lo, hi = (0, (1 << td[1]) - 1) if td[2] else (-(1 << td[1] - 1), (1 << td[1] - 1) - 1)
            k = int(b['v'])
            what = 'the bound %s %s can be passed by the counter at %s:%s' % (op, k, f['file'], n.get('l', f['l']))
            if op == '<' and k > hi or op == '<=' and k >= hi or op == '>' and k < lo or op == '>=' and k <= lo or op == '!=' and not lo <= k <= hi:
                ctx.refuted(what, core.where(f, n), 'every value of its type satisfies it, and nothing else leaves the loop')
            else:
                ctx.proved(what, core.where(f, n), 'its type reaches from %d to %d' % (lo, hi))


def rank(v):
    return {'proved': 0, 'unknown': 1, 'refuted': 2}[v[0]]


def summary(sc, f, inside=()):
    k = (f['usr'], tuple(g['usr'] for g in inside))
    if not hasattr(sc, 'sums'):
        sc.sums = {}
    if k not in sc.sums:
        j = Job(sc.ctx, opaque=sc.opaque(f, inside))
        j.frames = sc.frames
        s = j.summ(f)
        sc.sums[k] = j, s
    return sc.sums[k]


def settle(sc, f, j, s, l, d, inside):
    try:
        with core.limit(40):
            why = ends(l)
    except core.TimeUp:
        why = None
    if why:
        return 'proved', why
    cs = sc.callers(f)
    if cs and d < 3 and not outside(sc.p, f):
        if time.time() - sc.t0 > 400:
            return 'unknown', 'out of time'
        vs = []
        for h in cs:
            j2, s2 = summary(sc, h, inside)
            for l2 in (s2.loops if s2 else ()):
                if l2.loc == l.loc:
                    vs.append(settle(sc, h, j2, s2, l2, d + 1, inside + (h,)))
        if not vs:
            return 'unknown', 'no measure found, and the callers do not show it'
        return max(vs, key=rank)
    try:
        with core.limit(60):
            w = hangs(sc, j, s, l)
    except core.TimeUp:
        w = None
    if w:
        return 'refuted', 'called from %s: %s' % (f['qn'], w)
    return 'unknown', 'no measure found that decreases: ' + ', '.join('%s -> %s' % (tm.show(mu)[:20], tm.show(l.next[mu])[:80] if events.small(l.next[mu]) else '...') for _, mu in l.mus)[:300]


def outside(p, f):
    """can be called by users of the library"""
    c = p.class_by_qn.get(f.get('cls') or '')
    return bool(f.get('over') or f.get('virt') or f.get('access') == 0 and c and c.get('file', 'include/').startswith('include/'))


def frames(p, fs):
    """for each method, the fields of its object it can change (absent: not known)"""
    own, calls = {}, {}
    for f in fs:
        if not f.get('cls') or f.get('const') or f.get('static'):
            continue
        body = [f.get('body'), f.get('inits')]
        par = parents(body)
        w, c = set(), set()
        for n in nodes(body):
            if n.get('k') != 'This':
                continue
            u = par.get(id(n))
            while u is not None and u.get('k') == 'Cast':
                n, u = u, par.get(id(u))
            if u is not None and u.get('k') == 'Mem' and u.get('b') is n:
                if mutated(p, f, par, u):
                    w.add(u['f'])
            elif u is not None and u.get('k') == 'MCall' and u.get('o') is n and u.get('repo') and not u.get('virt'):
                if not u.get('mconst'):
                    c.add(u['fn'] if isinstance(u.get('fn'), str) else u.get('usr'))
            else:
                w = None
                break
        if w is not None:
            own[f['qn']], calls[f['qn']] = w, c
    return {q: w for q, w in own.items() if not calls[q]}


# ------------------------------------------------------------------ proof
def conj_all(f):
    return f.a[0] if f.op == 'And' else (f,)


def mentions(t, syms):
    return any(x in syms for x in tm.all_subterms(t))


def ends(l):
    if l.n is not None:
        bad = [m for loc, m in l.mus if l.n.op == 'Len' and mentions(l.n, {m})]
        bad += [m for loc, m in l.mus if l.n.op == 'Len' and l.n.a[0] is l.init[m] and not prove(eq(length(l.next[m]), length(m)), list(l.end or ()))]
        return None if bad else 'one iteration per element of a container the loop does not resize'
    if l.end is None:
        return 'no path leads round the loop'
    mus = [m for _, m in l.mus]
    ms = set(mus)
    nxt = l.next
    memo = {}
    facts = list(l.end)
    for v in list(dict.fromkeys(tm.neg(x.a[0]) for x in conj_all(l.cond) if x.op == 'Le0' and mentions(x, ms))):
        d = tm.sub(tm.subst(v, nxt, memo), v)
        if d.op == 'Int' and d.a[0] < 0:
            return 'decreases by %d and is bounded below: %s' % (-d.a[0], tm.show(v)[:120] if events.small(v) else 'distance to the bound')
    facts += searched(l, ms)
    facts += [x for x in conj_all(tm.subst(l.cond, nxt, memo)) if x.op != 'Or']     # it matters only if another iteration follows
    facts += finds(facts + [l.cond] + list(nxt.values()))
    for x in matcher(l):
        return x
    cands = []
    for x in list(conj_all(l.cond)) + facts:
        if x.op == 'Le0' and mentions(x, ms):
            v = tm.neg(x.a[0])
            if v not in cands:
                cands.append((v, True))
        if x.op == 'Not' and x.a[0].op == 'Eq0' and mentions(x, ms):
            for v in (x.a[0].a[0], tm.sub(I(0), x.a[0].a[0])):
                cands.append((v, 'ne'))
    for a in lengths(l, ms):
        for i in mus:
            if i.a[1] == 'int':
                cands.append((tm.sub(a, i), False))
    for v, known in cands:
        v2 = tm.subst(v, nxt, memo)
        if known == 'ne':
            # counts down to the value it must miss, one at a time
            i0 = tm.subst(v, l.init)
            if prove(tm.eq0(tm.sub(tm.sub(v, v2), I(1))), facts) and prove(le(I(0), i0), facts_before(l)):
                return 'moves by one towards the value it stops at: %s' % tm.show(v)[:100]
            continue
        if not prove(le(tm.add(v2, I(1)), v), facts):
            continue
        if known or prove(le(I(0), v), facts):
            return 'decreases and is bounded below: %s' % tm.show(v)[:120]
    return queue(l, facts)


def facts_before(l):
    ms = {m for _, m in l.mus}
    return [x for x in l.facts if not mentions(x, ms)]


def searched(l, ms):
    """a position found in a text that changes along with it is a position in that text"""
    out = []
    for _, i in l.mus:
        a, b = l.init[i], l.next[i]
        if not (a.op == b.op == 'App' and a.a[0] == b.a[0] == 'find' and a.a[1][1] is b.a[1][1] and not mentions(a.a[1][1], ms)):
            continue
        texts = [m for _, m in l.mus if l.init[m] is a.a[1][0] and l.next[m] is b.a[1][0]]
        if a.a[1][0] is b.a[1][0] and not mentions(a.a[1][0], ms):
            texts.append(a.a[1][0])
        for t in texts[:1]:
            hit = eq0(tm.add(i, I(1)))
            out += [Or(hit, le(I(0), i)), Or(hit, le(tm.add(i, length(a.a[1][1])), length(t)))]
    return out


def lengths(l, ms):
    out = [length(m) for _, m in l.mus if m.a[1] not in ('int', 'bool', '')][:4]
    for x in [l.cond] + list(l.next.values()):
        for y in tm.all_subterms(x):
            if y.op == 'App' and y.a[0] == 'find':
                n = length(y.a[1][0])
                if n not in out:
                    out.append(n)
            if len(out) > 6:
                return out
    return out


def finds(ts):
    """what a search tells when it succeeds"""
    out = []
    seen = set()
    facts = ts
    for t in ts:
        for y in tm.all_subterms(t):
            if y.op == 'App' and y.a[0] == 'find' and y not in seen and not ev.freebv(y):
                seen.add(y)
                s, p, i = y.a[1]
                out += [le(I(-1), y)]
                hit = Not(eq0(tm.add(y, I(1))))
                for z in (le(i, y), le(tm.add(y, length(p)), length(s))):
                    out.append(Or(Not(hit), z))
            if y.op == 'App' and y.a[0] == 'moveIndex32' and y not in seen and not ev.freebv(y) and y.a[1][2].op == 'Int' and y.a[1][2].a[0] >= 1:
                seen.add(y)
                s, i, d = y.a[1]
                out += [Or(le(length(s), i), le(tm.add(i, I(1)), y)), le(y, length(s))]
    return [x for x in out if x is not TRUE]


def matcher(l):
    """a loop on the next match of a regular expression"""
    for x in tm.all_subterms(l.cond):
        if x.op == 'App' and x.a[0].endswith('RegexMatcher::find') and len(x.a[1]) == 2:
            for _, m in l.mus:
                nx = l.next[m]
                if mentions(x.a[1][0], {m}) and any(y.op == 'App' and y.a[0].endswith('RegexMatcher::find!this') and mentions(y, {m}) for y in tm.all_subterms(nx)) \
                        and not any(y.op == 'App' and 'reset' in y.a[0] for y in tm.all_subterms(nx)):
                    yield 'each search of the matcher starts where the last match ended'


def queue(l, facts):
    """a queue that is worked off: each round takes one entry out; entries come in only when a symbol is used up or when what was set aside is put back"""
    q = [x.a[1][0] for x in conj_all(l.cond) for x in [x.a[0] if x.op == 'Not' else x] if x.op == 'App' and x.a[0] == 'pq.empty?' and x.a[1][0].op == 'Sym']
    q += [y.a[1][0] for x in conj_all(l.cond) for y in tm.all_subterms(x) if y.op == 'App' and y.a[0] == 'pq.size' and y.a[1][0].op == 'Sym']
    if not q:
        return None
    q = q[0]
    side = [m for _, m in l.mus if m is not q and l.init[m] is tm.EMPTY]
    live = [m for _, m in l.mus if m is not q and m not in side and holds_len(l.next[m])]
    n0 = tm.fresh('n', 'int')
    vals = tuple([l.next[q]] + [l.next[m] for m in side] + [l.next[m] for m in live])
    count = [0]

    def leaf(vs, fs):
        count[0] += 1
        for m, v in zip(live, vs[1 + len(side):]):
            if v is not m and not used_up(m, v, fs):
                return False
            if v is not m:
                return True
        try:
            d = tm.sub(size(vs[0], q, n0), n0)
            e = I(0)
            for m, v in zip(side, vs[1:]):
                e = tm.add(e, tm.sub(length(v), length(m)))
        except ValueError:
            return False
        t = tm.add(d, e)
        return prove(lt(t, I(0)), fs) or prove(And(le(t, I(0)), lt(d, I(0))), fs)
    if split(vals, list(facts), leaf, [600], lambda vs, fs: linked(live, vs, fs)):
        return 'on each of %d paths a symbol is used up, or fewer entries are queued and set aside together, or as many and fewer queued' % count[0]
    return None


def holds_len(t):
    return any(x.op == 'SeqUpd' for x in tm.all_subterms(t))


def used_up(m, v, facts):
    """the list v differs from m in that the length of an element is now zero"""
    x = v
    while x.op == 'SeqUpd':
        e = tm.at(v, x.a[1])
        try:
            if prove(eq0(fld(e, 'len')), facts):
                return True
        except Exception:
            pass
        x = x.a[0]
    return False


def size(t, q, n0):
    if t is q:
        return n0
    if t.op == 'App' and t.a[0] == 'pq.pop':
        return tm.sub(size(t.a[1][0], q, n0), I(1))
    if t.op == 'App' and t.a[0] == 'pq.push':
        return tm.add(size(t.a[1][0], q, n0), I(1))
    if t.op == 'App' and t.a[0] == 'pq.empty':
        return I(0)
    if t.op == 'Fold' and t.a[3].op == 'App' and t.a[3].a[0] == 'pq.push' and t.a[3].a[1][0].op == 'BV':
        return tm.add(size(t.a[1], q, n0), t.a[0])
    raise ValueError(t.op)


def linked(live, vals, facts):
    """symbols are linked in the order of the word: the next one lies behind, the one before in front"""
    out = []
    for m in live:
        for x in {x for v in vals for x in tm.all_subterms(v) if x.op == 'Fld' and x.a[0].op == 'At' and x.a[0].a[0] is m}:
            i = x.a[0].a[1]
            if x.a[1] == 'next' and entails(facts, eq0(tm.add(x, I(1)))) is False:
                out.append(lt(i, x))
            if x.a[1] == 'prev':
                out += [lt(x, i), le(I(-1), x)]
    return [x for x in out if x not in facts]


def split(vals, facts, leaf, limit, more=None):
    limit[0] -= 1
    if limit[0] < 0:
        return False
    if more:
        facts = facts + more(vals, facts)
    vals = tuple(refine(v, facts) for v in vals)
    c = None
    for v in vals:
        x = v
        while x.op in ('App', 'SeqUpd', 'Fold') and x.a:
            x = x.a[1] if x.op == 'Fold' else x.a[0] if x.op == 'SeqUpd' else x.a[1][0] if x.a[1] else None
            if x is None:
                break
        if x is not None and x.op in ('Ite', 'IteS'):
            c = x.a[0]
            break
    if c is None:
        cs = []
        for v in vals:
            conds(v, cs, set())
        c = next((x for x in cs if entails(facts, x) is None), None)
    if c is None:
        return leaf(vals, facts)
    while c.op == 'Not':
        c = c.a[0]
    if c.op in ('And', 'Or'):
        c = c.a[0][0]
        while c.op == 'Not':
            c = c.a[0]
    k = entails(facts, c)
    for f, v in ((c, True), (Not(c), False)):
        if k is not None and k is not v:
            continue
        fs = facts + [f]
        if tm.inconsistent(fs):
            continue
        if not split(vals, fs, leaf, limit, more):
            return False
    return True


def chance(t, apps):
    """random number generators are left out: an interpretation that asks them for a number is not used"""
    def no(m, a):
        raise ev.EvalFail('random')
    for x in tm.all_subterms(t):
        if x.op == 'App' and 'std::' in x.a[0] and ('_engine' in x.a[0] or '_distribution' in x.a[0]):
            apps[x.a[0]] = (lambda m, a: ev.Ov('rng')) if x.a[0].startswith('new:') else no


def queue_gens(j):
    """words of a few symbols and merges between them"""
    PAIR = ('pair', ('int', 32, False), ('int', 32, False))
    gens = {}

    def merges(m, r, d=0):
        """up to eight merges, each with a rank and a symbol of its own"""
        ids = list(range(r.randint(1, 3)))
        out = []
        for rank in r.sample(range(12), r.randint(0, 8)):
            k = ev.Rv('std::pair', {'first': r.choice(ids), 'second': r.choice(ids)})
            if all(k != x[0] for x in out):
                ids.append(10 + len(out))
                out.append((k, ev.Rv('std::pair', {'first': rank, 'second': ids[-1]})))
        return ev.Mv(out)

    def word(m, r, d=0):
        n = r.randint(0, 7)
        k = r.randint(1, 3)
        return ev.Rv('Word', {'symbols': tuple(ev.Rv('Symbol', {'c': r.randint(0, k - 1), 'prev': i - 1, 'next': i + 1 if i + 1 < n else -1, 'len': 1, '$id': 0})
                                               for i in range(n)), '$id': 0})
    for t, td in j.symtd.items():
        while td[0] in ('ref', 'rref'):
            td = td[1]
        if td[0] == 'map' and td[1][0] == 'pair' and td[1] == td[2]:
            gens[t] = merges
        if td == ('rec', 'Word'):
            gens[t] = word
    return gens


def queue_apps(j):
    """a priority queue by its meaning: the top is an entry no other is greater than"""
    ops = {}

    def less(m, a, b):
        c = a.cls
        if c not in ops:
            f = j.fn(c + '::operator<', False)
            ops[c] = None
            if f is not None and len(f['params']) == 1:
                s = j.summ(f)
                if s is not None:
                    ops[c] = s
        s = ops[c]
        if s is None:
            raise ev.EvalFail('order')
        m2 = ev.Model(j.p, j.symtd, m.seed, (m.ints, m.strs, m.bigs), None, m.apps, m.maxlen)
        m2.env[s.this] = a
        m2.env[list(s.params.values())[0]] = b
        return m2.truth(s.ret, {})

    def top(m, a):
        best = None
        for x in a[0]:
            if best is None or less(m, best, x):
                best = x
        if best is None:
            raise ev.EvalFail('top of an empty queue')
        return best

    def pop(m, a):
        x = top(m, a)
        i = a[0].index(x)
        return a[0][:i] + a[0][i + 1:]
    return {'pq.empty': lambda m, a: (), 'pq.push': lambda m, a: a[0] + (a[1],), 'pq.top': top, 'pq.pop': pop,
            'pq.empty?': lambda m, a: not a[0], 'pq.size': lambda m, a: len(a[0])}


# ------------------------------------------------------------------ hang
def numbers(v):
    return [v] if isinstance(v, int) and not isinstance(v, bool) else []


def hangs(sc, j, s, l):
    """an interpretation in which the loop comes back to a state it was in"""
    ms = [m for _, m in l.mus]
    # variables that decide whether it goes on
    sup = {m for m in ms if mentions(l.cond, {m}) or any(mentions(x, {m}) for x in l.end[len(facts_before(l)):])}
    while True:
        more = {m for m in ms if m not in sup and any(mentions(l.next[k], {m}) for k in sup)}
        if not more:
            break
        sup |= more
    sol = {}
    pre = []
    used = set()
    for t in [l.cond] + [l.init[m] for m in sup] + [l.next[m] for m in sup] + list(l.end):
        used |= tm.syms(t)
    for o in s.loops[::-1]:
        if o is l:
            continue
        if any(m in used for _, m in o.mus) or o.J in used:
            sol.update(o.sol)
            pre += [le(I(0), o.J)] + list(o.facts)
            if o.n is not None:
                pre.append(lt(o.J, o.n))
            for t in list(o.sol.values()) + list(o.facts):
                used |= tm.syms(t)
    def cl(t):
        for _ in range(4):
            u = tm.subst(t, sol)
            if u is t:
                break
            t = u
        return t
    cond = cl(And(l.cond, *l.end))
    init = {m: cl(l.init[m]) for m in sup}
    nxt = {m: cl(l.next[m]) for m in sup}
    pre = [cl(x) for x in pre if not mentions(x, set(ms))] + [cl(x) for x in facts_before(l)]
    if ev.unknowns(cond, *init.values(), *nxt.values(), *pre) or any(x.op == 'App' and 'Regex' in x.a[0] for t in [cond] + list(nxt.values()) for x in tm.all_subterms(t)):
        return None
    pools = ev.harvest(cond, *init.values(), *nxt.values(), *pre)
    runs = [tuple(ord(c) for c in x) * (n + 1) for n in pools[0] if 3 < n < 40 for x in (' ', 'a')]
    pools = (pools[0], list(pools[1]) + runs, pools[2])
    apps = queue_apps(j)
    gens = queue_gens(j)
    for t in [cond] + list(init.values()) + list(nxt.values()):
        chance(t, apps)
    t0 = time.time()
    for i in range(20000):
        if i > 3000 and not pools[2] and not runs or time.time() - t0 > 20:
            break
        m = ev.Model(j.p, j.symtd, j.ctx.seed * 100003 + i, pools, gens, apps, maxlen=1 + i % 4)
        m.fixed = ev.fixings(pre)
        m.most = 30000
        try:
            if not all(m.truth(x, {}) for x in pre):
                continue
            st = {k: m.ev(v) for k, v in init.items()}
            past = set()
            grown = 0
            for step in range(3000):
                if step >= 200 and (grown < step - 5 or max([abs(x) for v in m.env.values() for x in numbers(v)] or [0]) > step + 10):
                    break
                key = tuple(repr(st[k]) for k in sup if k in st)
                if key in past:
                    if m.calls or any(not str(x).split('::')[-1].startswith('u_is') for x in m.lib):
                        break
                    return 'after %d iterations nothing that decides whether to go on changes any more, for %s' % (step, describe(m, *[x for x in [cond, *nxt.values()]]))
                past.add(key)
                m.env.update(st)
                m.memo.clear()
                if not m.truth(cond, {}):
                    break
                old, st = st, {k: m.ev(v) for k, v in nxt.items()}
                grown += any(isinstance(st[k], tuple) and len(st[k]) > len(old[k]) for k in sup if k in st and isinstance(old.get(k), tuple))
                for k in st:
                    m.env.pop(k, None)
            else:
                if not m.lib and not m.calls:
                    return 'after 3000 iterations it still grows what it works on, for %s' % describe(m, *[x for x in [cond, *nxt.values()]])[:200]
        except (ev.EvalFail, RecursionError, TypeError, KeyError, OverflowError):
            continue
    return None
