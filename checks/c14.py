"""C14: BPE applies the best-ranked merge first, the leftmost among equals, and leaves none out."""
from prop import *
import terms as tm
import vg
import core
import ev
import events
import c27

META = {'technique': 'value-graph analysis of the merge queue: order relation, start, and one round of work on every path', 'level': 'proof', 'min': 6,
        'note': 'The order relation, the first contents of the queue, each path round the loop, the clean-up and the construction of the merge table are proved; that these steps '
                'together give the greedy merge order is an induction written down in DESIGN.md. Symbols of a word are linked in order (proved for Word::add). '
                'Two merges giving the same symbol, and dropout above zero, are outside.',
        'explanation': 'the function is also interpreted, as a term, on small words and merge lists; a difference from the greedy merge order is an alarm'}


def run(ctx):
    ctx.rule('order of the queue: lower rank first, then lower position')
    ctx.rule('start: one entry for each neighbouring pair that can be merged, with its rank and result')
    ctx.rule('each round: a stale entry changes nothing; a live one merges exactly its symbol and the next, and queues what became possible on both sides')
    ctx.rule('at the end exactly the symbols that were not used up remain, in order')
    ctx.rule('merge table: the pair of line i has rank i and the symbol the vocabulary gives to the two texts joined')
    j = Job(ctx, opaque=(), exact=True)
    j.tries = 600
    order(ctx, j)
    links(ctx, j)
    for fn in j.fns('Word::merge_all'):
        whole(ctx, fn)
        rounds(ctx, fn)
    table(ctx)


# ------------------------------------------------------------------ order relation
def order(ctx, j):
    for fn in j.fns('Merge::operator<'):
        s = j.summ(fn)
        if s is None or s.ret is None:
            continue
        a, b = tm.sym('this', ''), list(s.params.values())[0]
        ra, rb, pa, pb = fld(a, 'rank'), fld(b, 'rank'), fld(a, 'pos'), fld(b, 'pos')
        for what, facts, want in (('a better rank comes first', [lt(rb, ra)], True), ('a worse rank comes later', [lt(ra, rb)], False),
                                  ('among equal ranks the leftmost comes first', [eq0(tm.sub(ra, rb)), lt(pb, pa)], True),
                                  ('among equal ranks one further right comes later', [eq0(tm.sub(ra, rb)), lt(pa, pb)], False)):
            c = s.ret if want else Not(s.ret)
            j.holds('order of merges: %s' % what, s.where, refine(c, facts), facts)


# ------------------------------------------------------------------ links
def links(ctx, j):
    for fn in j.fns('Word::add'):
        s = j.summ(fn)
        if s is None:
            continue
        this = tm.sym('this', '')
        old = fld(this, 'symbols')
        out = fld(s.st.mem.get('this'), 'symbols')
        n = length(old)
        ps = list(s.params.values())
        new = tm.rec('Symbol', [('c', ps[0]), ('prev', Ite(eq0(n), I(-1), tm.sub(n, I(1)))), ('next', I(-1)), ('len', ps[1])])
        j.same('a word grows by one symbol', s.where, length(out), tm.add(n, I(1)))
        for f in ('c', 'prev', 'next', 'len'):
            j.same('the new symbol of a word: %s' % f, s.where, fld(tm.at(out, n), f), fld(new, f))
        j.same('the symbol before it links to it', s.where, fld(tm.at(out, tm.sub(n, I(1))), 'next'), n, facts=[lt(I(0), n)])
        k = tm.fresh('j', 'J')
        last = tm.sub(n, I(1))
        for f in ('c', 'prev', 'len', 'next'):
            j.same('the symbols before the last keep their %s' % f, s.where, refine(fld(tm.at(out, k), f), [lt(k, last)]), fld(tm.at(old, k), f), facts=[le(I(0), k), lt(k, last)])
            if f != 'next':
                j.same('the last symbol keeps its %s' % f, s.where, fld(tm.at(out, last), f), fld(tm.at(old, last), f), facts=[lt(I(0), n)])


# ------------------------------------------------------------------ the whole function, on small words
def bpe(m, a):
    word, merges = a
    syms = [(x.get('c'), x.get('len')) for x in word]
    table = {(k.get('first'), k.get('second')): (v.get('first'), v.get('second')) for k, v in merges.d.items()} if isinstance(merges.d, dict) else {}
    while True:
        best = None
        for i in range(len(syms) - 1):
            x = table.get((syms[i][0], syms[i + 1][0]))
            if x is not None and (best is None or x[0] < best[0]):
                best = x + (i,)
        if best is None:
            break
        i = best[2]
        syms[i:i + 2] = [(best[1], syms[i][1] + syms[i + 1][1])]
    return tuple(ev.Rv('std::pair', {'first': c, 'second': n}) for c, n in syms)


def whole(ctx, fn):
    j = Job(ctx, opaque=(), exact=True)
    s = j.summ(fn)
    if s is None:
        return
    this = tm.sym('this', '')
    out = fld(s.st.mem['this'], 'symbols')
    merges = [x for x in s.params.values() if j.symtd.get(x, ('',))[0] == 'map']
    if not merges:
        return ctx.unknown('result of the merges', s.where, 'no merge table among the parameters')
    got = each(length(out), lambda i: elems(tm.pair(fld(tm.at(out, i), 'c'), fld(tm.at(out, i), 'len'))))
    want = app('bpe', (fld(this, 'symbols'), merges[0]), 'other')
    apps = c27.queue_apps(j)
    c27.chance(out, apps)
    apps['bpe'] = bpe
    gens = c27.queue_gens(j)
    gens[this] = gens.get(this) or [g for t, g in gens.items() if j.symtd[t] == ('rec', 'Word')][0] if any(j.symtd[t] == ('rec', 'Word') for t in gens) else None
    if gens[this] is None:
        del gens[this]
    for x in s.params.values():
        if j.symtd.get(x, ('',))[0] == 'float':
            gens[x] = lambda m, r, d=0: ev.Ov('flt0.0')
    what = 'the merges of a small word are those of the greedy order'
    try:
        with core.limit(150):
            m, ok = ev.separate(j.p, j.symtd, got, want, (), n=20000, gens=gens, apps=apps, seed=ctx.seed, time_s=45)
    except core.TimeUp:
        return ctx.unknown(what, s.where, 'out of time')
    if m is not None and not m[0].lib:
        return ctx.refuted(what, s.where, 'for %s: symbols %s instead of %s' % (describe(m[0], got), ev.showv(m[1])[:200], ev.showv(m[2])[:200]))
    ctx.note('interpreted %d small words without a difference from the greedy order' % ok)


# ------------------------------------------------------------------ one round
def rounds(ctx, fn):
    j = Job(ctx, opaque=(), exact=True)
    s = j.summ(fn)
    if s is None:
        return
    ls = [l for l in s.loops if l.end is not None and any(x.op == 'App' and x.a[0] in ('pq.empty?', 'pq.size') for x in tm.all_subterms(l.cond))]
    if len(ls) != 1:
        return ctx.unknown('the rounds of merging', s.where, '%d loops on a queue' % len(ls))
    l = ls[0]
    merges = [x for x in s.params.values() if j.symtd.get(x, ('',))[0] == 'map'][0]
    q = [x.a[1][0] for x in tm.all_subterms(l.cond) if x.op == 'App' and x.a[0] in ('pq.empty?', 'pq.size')][0]
    live = [m for _, m in l.mus if m is not q and c27.holds_len(l.next[m])]
    side = [m for _, m in l.mus if m is not q and l.init[m] is tm.EMPTY]
    if len(live) != 1 or q.op != 'Sym':
        return ctx.unknown('the rounds of merging', s.where, 'symbols not found')
    m = live[0]
    start(ctx, j, s, l, q, m, merges)
    drop = [x for x in s.params.values() if j.symtd.get(x, ('',))[0] == 'float']
    no = [tm.eq(x, tm.mk('Flt', v)) for x in drop for v in (0.0, '0.0')]
    zero = [x for t in [l.next[m], l.next[q]] for x in tm.all_subterms(t) if x.op == 'Eq' and any(y in drop for y in x.a) and any(y.op == 'Flt' for y in x.a)][:1]
    top = app('pq.top', (q,), ('rec', 'Merge'))
    tops = [x for x in tm.all_subterms(l.next[q]) if x.op == 'App' and x.a[0] == 'pq.top' and x.a[1][0] is q]
    if tops:
        top = tops[0]
    p = fld(top, 'pos')
    nid = fld(top, 'new_id')
    P = tm.at(m, p)
    n = fld(P, 'next')
    N = tm.at(m, n)
    pair = tm.pair(fld(P, 'c'), fld(N, 'c'))
    n2 = fld(N, 'next')
    size = length(m)
    facts = list(l.end) + zero + [le(I(0), p), lt(p, size), le(I(-1), n), lt(n, size)]
    stats = {'stale': 0, 'merged': 0}
    bad = []

    def alive(i):
        """an entry for the pair at i is well formed: rank and result of that pair"""

    def more(vals, fs):
        out = c27.linked(live, vals, fs)
        for x in {x for v in vals for x in tm.all_subterms(v) if x.op == 'Fld' and x.a[1] in ('next', 'prev') and x.a[0].op == 'At' and x.a[0].a[0] is m}:
            out += [le(I(-1), x), lt(x, size)]
        return [x for x in out if x not in fs]

    def leaf(vs, fs):
        for x in fs:
            if any(y.op == 'SeqUpd' for y in tm.all_subterms(x)):
                if refine(x, [y for y in fs if y is not x]) is FALSE:
                    return True         # no such path
        fs = [refine(x, [y for y in fs if y is not x]) if any(y.op == 'SeqUpd' for y in tm.all_subterms(x)) else x for x in fs]
        if tm.inconsistent(fs):
            return True
        q2, m2 = vs[:2]
        pushes = []
        x = q2
        while x.op == 'App' and x.a[0] == 'pq.push':
            pushes.append(x.a[1][1])
            x = x.a[1][0]
        while x.op == 'Fold' and x.a[0].op in ('Len', 'Max') or x.op == 'Fold':      # what was set aside
            x = x.a[1]
        if not (x.op == 'App' and x.a[0] == 'pq.pop' and x.a[1][0] is q):
            bad.append('queue: %s' % tm.show(x)[:80])
            return False
        if m2 is m:
            stats['stale'] += 1
            why = Or(eq0(fld(P, 'len')), eq0(tm.add(n, I(1))), le(size, n), lt(n, I(0)), Not(tm.m_has(merges, pair)),
                     Not(eq0(tm.sub(fld(tm.m_get(merges, pair), 'second'), nid))))
            if not prove(why, fs):
                bad.append('an entry is passed over though its pair can be merged')
                return False
            if pushes:
                bad.append('entries queued without a merge')
                return False
            return True
        stats['merged'] += 1
        need = [Not(eq0(fld(P, 'len'))), Not(eq0(tm.add(n, I(1)))), tm.m_has(merges, pair), eq0(tm.sub(fld(tm.m_get(merges, pair), 'second'), nid))]
        for c in need:
            if not prove(c, fs):
                bad.append('merged without checking %s' % tm.show(c)[:120])
                return False
        P2, N2 = tm.at(m2, p), tm.at(m2, n)
        fs = fs + [x for x in more([n2], fs)]
        for got, want in ((fld(P2, 'c'), nid), (fld(P2, 'len'), tm.add(fld(P, 'len'), fld(N, 'len'))), (fld(P2, 'next'), n2),
                          (fld(P2, 'prev'), fld(P, 'prev')), (fld(N2, 'len'), I(0))):
            if not prove_eq(got, want, fs):
                bad.append('%s is not %s' % (tm.show(got)[:100], tm.show(want)[:80]))
                return False
        ok2 = le(I(0), n2)
        inr = prove(ok2, fs)
        if not inr and not prove(Not(ok2), fs):
            bad.append('next but one not decided')
            return False
        if inr and not prove_eq(fld(tm.at(m2, n2), 'prev'), p, fs):
            bad.append('the symbol behind does not link back')
            return False
        x = m2
        while x.op == 'SeqUpd':
            if not any(prove_eq(x.a[1], i, fs) for i in (p, n, n2)):
                bad.append('another symbol changed')
                return False
            x = x.a[0]
        if x is not m:
            bad.append('symbols: %s' % tm.show(x)[:60])
            return False
        pr = fld(P, 'prev')
        want = []
        for c, at_, key in ((le(I(0), pr), pr, tm.pair(fld(tm.at(m, pr), 'c'), nid)), (ok2, p, tm.pair(nid, fld(tm.at(m, n2), 'c')))):
            has = And(c, tm.m_has(merges, key))
            if prove(has, fs):
                v = tm.m_get(merges, key)
                want.append((at_, fld(v, 'first'), fld(v, 'second')))
            elif not prove(Not(has), fs):
                bad.append('not decided whether %s can be merged' % tm.show(key)[:80])
                if os.environ.get('DBG'):
                    print(tm.show(refine(has, fs))[:1500])
                    for x in fs:
                        print('    F', tm.show(x)[:1000])
                return False
        for w in want:
            if not any(all(prove_eq(fld(e, f), v, fs) for f, v in zip(('pos', 'rank', 'new_id'), w)) for e in pushes):
                bad.append('a merge that became possible is not queued: %s' % tm.show(w[0])[:60])
                return False
        for e in pushes:
            if not any(all(prove_eq(fld(e, f), v, fs) for f, v in zip(('pos', 'rank', 'new_id'), w)) for w in want):
                bad.append('queued: %s' % tm.show(e)[:100])
                return False
        return True

    what = 'each round of merging does what the greedy order asks'
    try:
        with core.limit(200):
            ok = c27.split((l.next[q], l.next[m]), facts, leaf, [800], more)
    except core.TimeUp:
        ok, bad = False, ['out of time']
    for k, v in stats.items():
        ctx.did('paths of a round', '%s: %d' % (k, v))
    if ok:
        ctx.proved(what, s.where, '%d paths that pass an entry over, %d that merge' % (stats['stale'], stats['merged']))
    else:
        ctx.unknown(what, s.where, '; '.join(bad)[:300] or 'too many paths')
    finish(ctx, j, s, l, m)


def start(ctx, j, s, l, q, m, merges):
    """the queue before the first round"""
    w = l.init[m]
    what = 'the queue starts with every pair that can be merged'
    t = l.init[q]
    i = tm.fresh('i', 'J')
    ok = False
    why = tm.show(t)[:150] if events.small(t) else t.op
    if t.op == 'Fold' and t.a[1].op == 'App' and t.a[1].a[0] == 'pq.empty':
        n, _, k, body = t.a
        acc = tm.fresh('acc', '')
        b = tm.open_bv(body, k, i, (acc,))
        key = tm.pair(fld(tm.at(w, i), 'c'), fld(tm.at(w, tm.add(i, I(1))), 'c'))
        v = tm.m_get(merges, key)
        fs = [le(I(0), i), lt(i, n)]
        h = tm.m_has(merges, key)
        y, z = refine(b, fs + [h]), refine(b, fs + [Not(h)])
        if z is acc and y.op == 'App' and y.a[0] == 'pq.push' and y.a[1][0] is acc and \
                all(prove_eq(fld(y.a[1][1], f), x, fs + [h]) for f, x in (('pos', i), ('rank', fld(v, 'first')), ('new_id', fld(v, 'second')))) and \
                prove_eq(n, tm.tmax(I(0), tm.sub(length(w), I(1))), []):
            ok = True
    (ctx.proved if ok else ctx.unknown)(what, s.where, 'one entry per pair, with its position, rank and result' if ok else why)


def finish(ctx, j, s, l, m):
    out = fld(s.st.mem['this'], 'symbols')
    what = 'the symbols used up, and no others, are dropped at the end'
    fin = [tm.subst(l.sol[m], {l.J: l.E})] if m in l.sol else []
    for S in fin:
        want = each(length(S), lambda i: tm.ite_seq(eq0(fld(tm.at(S, i), 'len')), tm.EMPTY, elems(tm.at(S, i))))
        if prove_eq(out, want, []):
            return ctx.proved(what, s.where, 'the result holds exactly the symbols whose length is not zero')
    ctx.unknown(what, s.where, tm.show(out)[:120] if events.small(out) else 'not recognised')


# ------------------------------------------------------------------ merge table
def words(t):
    return tuple(tuple(ord(c) for c in w) for w in t.split())


def table(ctx):
    j = Job(ctx, opaque=(), exact=True)
    for fn in j.fns('BPE::BPE'):
        if not any(vg.Engine(ctx.prog).td(fn['unit'], q['t'])[-1:] == (('str', ('int', 8, False)),) or
                   'seq' in repr(vg.Engine(ctx.prog).td(fn['unit'], q['t'])) for q in fn['params']):
            continue
        s = j.summ(fn)
        if s is None or s.ret is None:
            continue
        ps = list(s.params.values())
        lists = [x for x in ps if j.symtd.get(x, ('',))[0] == 'seq' or j.symtd.get(x, ('',))[0] == 'ref' and j.symtd[x][1][0] == 'seq']
        if not lists:
            continue
        lst = lists[0]
        vocab = fld(s.ret, 'vocab')
        prefix = fld(s.ret, 'continuing_subword_prefix')
        got = fld(s.ret, 'merges')
        what = 'the merge table has the rank and the result of each line of the merge list'

        def ref(m, a):
            out = {}
            for i, line in enumerate(a[0]):
                w = bytes(x & 255 for x in line).split()
                w = [tuple(x - 256 if x > 127 else x for x in y) for y in w]
                if len(w) < 2:
                    continue
                d = dict(a[1].d.items())
                new = w[0] + (w[1][len(a[2]):] if a[2] else w[1])
                if w[0] in d and w[1] in d and new in d:
                    out.setdefault((d[w[0]], d[w[1]]), (i, d[new]))
            return ev.Mv([(ev.Rv('std::pair', {'first': k[0], 'second': k[1]}), ev.Rv('std::pair', {'first': v[0], 'second': v[1]})) for k, v in out.items()])

        def split_(m, a):
            w = bytes(x & 255 for x in a[0]).split()
            return (tuple(tuple(x - 256 if x > 127 else x for x in y) for y in w), False)
        def ordered(m, a):
            rs = sorted(v.get('first') for _, v in a[0].d.items())
            return tuple(sorted((k.get('first'), k.get('second'), rs.index(v.get('first')), v.get('second')) for k, v in a[0].d.items()))
        apps = {'ref': ref, 'ordered': ordered, 'new:std::basic_istringstream': split_, 'std::basic_ios::imbue!this': lambda m, a: a[0],
                'stream.get': lambda m, a: a[0][0][0] if a[0][0] else (),
                'stream.next': lambda m, a: (a[0][0][1:], a[0][1]) if a[0][0] else ((), True),
                'std::basic_ios::operator bool': lambda m, a: not a[0][1], 'std::basic_ios::operator!': lambda m, a: a[0][1],
                'std::basic_ios::fail': lambda m, a: a[0][1], 'std::basic_ios::good': lambda m, a: not a[0][1]}
        WS = [tuple(ord(c) for c in w) for w in ('a', 'b', 'ab', 'ba', 'aa', '##a', '##b', '##ab', 'aab', 'aba', 'abab', '##ba', 'bb')]

        def gvocab(m, r, d=0):
            ids = list(range(20))
            r.shuffle(ids)
            return ev.Mv([(w, ids[i]) for i, w in enumerate(WS) if r.random() < 0.85])

        def glist(m, r, d=0):
            k = 2 if m.seed % 2 else 0
            out = []
            for _ in range(r.randint(0, 4)):
                a, b = r.choice(WS[:5]), r.choice([w for w in WS if (w[:1] == (35,)) == bool(k)])
                out.append(a + (32,) + b)
            return tuple(out)
        gens = {lst: glist, vocab: gvocab, prefix: lambda m, r, d=0: (35, 35) if m.seed % 2 else ()}
        st = [x for x in tm.all_subterms(got) if x.op == 'App' and x.a[0] == 'stream.get' and not any(y.op == 'App' and y.a[0] == 'stream.next' for y in tm.all_subterms(x))]
        want = app('ref', (lst, vocab, prefix), 'other')
        if got.op in ('Fold', 'MapAcc') and table_shape(j, got, lst, vocab, prefix):
            ctx.proved(what, s.where, 'line by line')
            continue
        try:
            with core.limit(60):
                m, ok = ev.separate(j.p, j.symtd, app('ordered', (got,), 'other'), app('ordered', (want,), 'other'), (), n=400, gens=gens, apps=apps, seed=ctx.seed, time_s=40)
        except core.TimeUp:
            m, ok = None, 0
        if m is not None and not m[0].lib:
            ctx.refuted(what, s.where, 'for %s: %s instead of %s' % (describe(m[0], lst, prefix), ev.showv(m[1])[:200], ev.showv(m[2])[:200]))
        else:
            ctx.unknown(what, s.where, 'not derived; %d small merge lists agree' % ok)


def table_shape(j, got, lst, vocab, prefix):
    if got.op != 'Fold' or got.a[1] is not tm.mk('Map', ()):
        return False
    n, _, k, body = got.a
    if n is not length(lst):
        return False
    i, acc = tm.fresh('i', 'J'), tm.fresh('acc', '')
    b = tm.open_bv(body, k, i, (acc,))
    line = tm.at(lst, i)
    gets = [x for x in tm.all_subterms(b) if x.op == 'App' and x.a[0] == 'stream.get']
    first = [x for x in gets if not any(y.op == 'App' and y.a[0] == 'stream.next' for y in tm.all_subterms(x))]
    if not first or not all(x is first[0] for x in first):
        return False
    st = first[0].a[1][0]
    base = [x for x in tm.all_subterms(st) if x.op == 'App' and x.a[0].startswith('new:std::basic_istringstream')]
    if not base or base[0].a[1] != (line,):
        return False
    nx = [x for x in tm.all_subterms(b) if x.op == 'App' and x.a[0] == 'stream.next' and x.a[1][0] is st]
    if not nx:
        return False
    w1 = first[0]
    second = [x for x in gets if x.a[1][0] is nx[0]]
    if not second:
        return False
    w2 = second[0]
    ends = [x for x in tm.all_subterms(b) if x.op == 'App' and x.a[0] == 'stream.next' and x.a[1][0] is nx[0]]
    oks = [x for x in tm.all_subterms(b) if x.op == 'App' and x.a[0] == 'std::basic_ios::operator bool' and ends and x.a[1][0] is ends[0]]
    if not oks:
        return False
    rest = tm.ite_seq(eq0(length(prefix)), w2, tm.mk_slice(w2, length(prefix), length(w2)))
    new = tm.cat(w1, rest)
    cond = And(oks[0], tm.m_has(vocab, w1), tm.m_has(vocab, w2), tm.m_has(vocab, new))
    key = tm.pair(tm.m_get(vocab, w1), tm.m_get(vocab, w2))
    val = tm.pair(i, tm.m_get(vocab, new))
    want = Ite(cond, tm.m_putif(acc, TRUE, key, val), acc)
    fs = [le(I(0), i), lt(i, n)]
    for free in (Not(tm.m_has(acc, key)),):
        if prove_eq(b, Ite(And(cond, free), tm.m_put(acc, key, val), acc), fs) or prove_eq(b, tm.m_putif(acc, And(cond, free), key, val), fs):
            return True
    if os.environ.get('DBG'):
        print(tm.show(b)[:3000]); print(tm.show(want)[:3000])
    return False
