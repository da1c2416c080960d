"""C20: added tokens get stable, unique ids in both directions."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of add_tokens with the id assignment, and of the tables it derives', 'level': 'proof', 'min': 7,
        'note': 'Vocabulary ids are unique (C13). What the recogniser does with its table is N04.',
        'explanation': 'the tables after a call, as the value graph computes them for every history of tables before it and every list of tokens, '
                       'have the normal form of the specified assignment; where they differ in form, what a lookup in them gives is compared'}
STATE = ('added_tokens', 'added_tokens_map', 'added_tokens_map_r', 'special_tokens', 'special_tokens_set', 'split_non_normalized_trie',
         'split_normalized_trie')


def u8(s):
    return tuple(ord(c) for c in s)


POOL = ['', 'a', 'b', 'ab', 'c', '[X]', ' ']


def gen_token(m, r, d=0):
    return ev.Rv('AddedToken', {'id': r.randint(0, 9), 'content': u8(r.choice(POOL)), 'single_word': r.random() < .3, 'lstrip': r.random() < .3,
                                'rstrip': r.random() < .3, 'normalized': r.random() < .5, 'special': r.random() < .5, '$id': 0})


def gen_av(m, r, d=0):
    """a state some history of calls leads to: distinct ids, both directions and the special set in step"""
    seen, sp, ad = {}, [], []
    i = r.randint(0, 6)
    for _ in range(r.randint(0, 4)):
        t = gen_token(m, r)
        c = t.get('content')
        if not c:
            continue
        if c not in seen:
            seen[c] = (i, t)
            i += r.randint(1, 2)
        (sp if t.get('special') else ad).append(t)
    if m.big and r.random() < .6:
        for k in range(m.big + 1):
            t = gen_token(m, r)
            t = ev.Rv('AddedToken', {**dict(t.f), 'content': u8('k%d' % k)})
            seen[t.get('content')] = (i, t)
            i += 1
            (sp if t.get('special') else ad).append(t)
    sset = {t.get('content') for t in sp}
    return ev.Rv('AddedVocabulary', {'added_tokens': tuple(ad), 'encode_special_tokens': False,
                                     'added_tokens_map': ev.Mv([(c, n) for c, (n, t) in seen.items()]),
                                     'added_tokens_map_r': ev.Mv([(n, t) for c, (n, t) in seen.items()]),
                                     'special_tokens': tuple(sp), 'special_tokens_set': ev.Mv([(c, ev.U) for c in sset]),
                                     'split_non_normalized_trie': ev.Rv('std::pair', {'first': (), 'second': ()}),
                                     'split_normalized_trie': ev.Rv('std::pair', {'first': (), 'second': ()}), '$id': 0})


def gen_model(m, r, d=0):
    ws = [w for w in POOL[1:] + ['zz', 'q'] if r.random() < .4]
    ids = r.sample(range(0, 12), len(ws))
    return ev.Rv('Model', {'vocab': ev.Mv([(u8(w), i) for w, i in zip(ws, ids)]), 'vocab_r': ev.Mv([(i, u8(w)) for w, i in zip(ws, ids)]), '$id': r.randint(1, 3)})


GENS = {'AddedVocabulary': gen_av, 'AddedToken': gen_token, 'Model': gen_model}


def isnull(t):
    return tm.mk('IsNull', t)


def run(ctx):
    ctx.rule('id(c) = added before: its id; in the model: the model id; else max(vocabulary size, 1 + largest added id). Empty text: ignored')
    ctx.rule('text-to-id, id-to-text, special set and the tables of the recogniser all follow from that assignment')
    j = Job(ctx)
    names = rec_fields(ctx.prog, 'AddedVocabulary')
    s = j.summ('AddedVocabulary::add_tokens')
    if s is None or s.ret is None:
        return
    if any(n not in names for n in STATE) or len(s.params) != 3:
        return ctx.unknown('members', s.where, 'members of AddedVocabulary not found')
    this = sym('this', '')
    ts, model = list(s.params.values())[:2]
    n = length(ts)
    mm = tm.mk('Deref', model)
    vocab = fld(mm, 'vocab')
    size = Ite(isnull(model), I(0), tm.m_size(vocab))
    known = lambda c: And(Not(isnull(model)), tm.m_has(vocab, c))
    a, b = tm.fresh('a'), tm.fresh('b')
    k_, (cc,) = tm.close([lt(fld(a, 'second'), fld(b, 'second'))], [a, b])

    def largest(m):
        return tm.m_get(m, app('extremal_key', (m, tm.mk('Lam', k_, cc)), 'other'))

    def content(k):
        return fld(at(ts, k), 'content')

    def new_id(m, c):
        fresh_ = Ite(And(Not(eq0(tm.m_size(m))), le(size, largest(m))), add(largest(m), I(1)), size)
        return Ite(tm.m_has(m, c), tm.m_get(m, c), Ite(known(c), tm.m_get(vocab, c), fresh_))

    def step(k, m):
        c = content(k)
        return tm.m_putif(m, Not(eq0(length(c))), c, new_id(m, c))
    kept = lambda k: Not(eq0(length(content(k))))
    M = lambda k: loop(k, fld(this, 'added_tokens_map'), step)
    Mn = M(n)
    k = tm.fresh('k', 'J')
    R = tm.map_acc(fld(this, 'added_tokens_map_r'), n, k, kept(k), new_id(M(k), content(k)), at(ts, k))
    k = tm.fresh('k', 'J')
    special = lambda k: And(fld(at(ts, k), 'special'), kept(k))
    S = tm.map_acc(fld(this, 'special_tokens_set'), n, k, special(k), content(k), tm.mk('Unit'))
    x, w = sym('x', 'int'), sym('t', 'str')

    # what is observable
    j.same('the call counts the tokens with a text', s.where, s.ret, sub(n, tm.msum(n, k, Ite(kept(k), I(0), I(1)))), gens=GENS)
    got = s.this

    i = sym('i', 'J')
    mine = [lt(i, n), kept(i)]

    def table(what, name, want, key, own, val=lambda t: t, facts=()):
        g = fld(got, name)
        if prove_eq(g, want, []):
            return ctx.proved(what, s.where, 'same table')
        j.same(what + ' (what it contains)', s.where, tm.m_has(g, key), tm.m_has(want, key), facts, gens=GENS, n=600, hints=[u8(p) for p in POOL])
        if val is not None:
            j.same(what + ' (for a token of the call)', s.where, val(tm.m_get(g, own)), val(tm.m_get(want, own)), list(facts) + mine + [tm.m_has(want, own)], gens=GENS,
                   n=600, hints=[u8(p) for p in POOL])
            j.same(what + ' (what it gives)', s.where, val(tm.m_get(g, key)), val(tm.m_get(want, key)), list(facts) + [tm.m_has(want, key)], gens=GENS, n=600,
                   hints=[u8(p) for p in POOL])
    table('every text gets its specified id', 'added_tokens_map', Mn, w, content(i))
    table('every id leads back to its text', 'added_tokens_map_r', R, x, tm.m_get(Mn, content(i)), lambda t: fld(t, 'content'))
    table('special are exactly the texts added as special', 'special_tokens_set', S, w, w, None)
    # the tables of the recogniser
    gn, gm = fld(got, 'split_normalized_trie'), fld(got, 'split_non_normalized_trie')
    lists = [fld(got, 'special_tokens'), fld(got, 'added_tokens')]
    keep = lambda t, norm: And(tm.m_has(fld(got, 'added_tokens_map'), fld(t, 'content')), fld(t, 'normalized') if norm else Not(fld(t, 'normalized')))
    ok = True
    for t, norm in ((gn, True), (gm, False)):
        first_ = tm.cat(*[each(length(l), lambda k, l=l: tm.ite_seq(keep(at(l, k), norm), elems(fld(at(l, k), 'content')), tm.EMPTY)) for l in lists])
        second = tm.cat(*[each(length(l), lambda k, l=l: tm.ite_seq(keep(at(l, k), norm), elems(tm.m_get(fld(got, 'added_tokens_map'), fld(at(l, k), 'content'))),
                                                                   tm.EMPTY)) for l in lists])
        ok = ok and prove_eq(fld(t, 'first'), first_, []) and prove_eq(fld(t, 'second'), second, [])
    k = tm.fresh('k', 'J')
    l1 = tm.cat(fld(this, 'added_tokens'), each(n, lambda k: tm.ite_seq(Or(Not(kept(k)), tm.m_has(S, content(k))), tm.EMPTY, elems(at(ts, k)))))
    ok = ok and prove_eq(lists[1], l1, [])
    l2 = loop(n, tm.rec('g', [('s', fld(this, 'special_tokens_set')), ('l', fld(this, 'special_tokens'))]), lambda k, g: tm.rec('g', [
        ('s', tm.m_putif(fld(g, 's'), special(k), content(k), tm.mk('Unit'))),
        ('l', tm.cat(fld(g, 'l'), tm.ite_seq(And(special(k), Not(tm.m_has(fld(g, 's'), content(k)))), elems(at(ts, k)), tm.EMPTY)))]))
    k = tm.fresh('k', 'J')
    sk = lambda k: tm.map_acc(fld(this, 'special_tokens_set'), k, k2, special(k2), content(k2), tm.mk('Unit'))
    k2 = tm.fresh('k', 'J')
    l2 = tm.cat(fld(this, 'special_tokens'), each(n, lambda k: tm.ite_seq(And(special(k), Not(tm.m_has(sk(k), content(k)))), elems(at(ts, k)), tm.EMPTY)))
    ok = ok and prove_eq(lists[0], l2, [])
    if ok:
        ctx.proved('every added token is recognised under its id', s.where, 'the tables hold every token of both lists with its id; every token goes to one of the lists')
    else:
        facts = mine
        c = content(i)

        def inside(t):
            f = fld(t, 'first')
            return tm.exists(length(f), k2, eq(at(f, k2), c))

        def right(t):
            f, q = fld(t, 'first'), fld(t, 'second')
            return forall(length(f), lambda k: Or(Not(eq(at(f, k), c)), eq(at(q, k), tm.m_get(fld(got, 'added_tokens_map'), c))))
        j.holds('every added token is in a table of the recogniser', s.where, Or(inside(gn), inside(gm)), facts, gens=GENS, n=800, hints=[u8(p) for p in POOL])
        j.holds('the recogniser gives an added token its id', s.where, And(right(gn), right(gm)), facts, gens=GENS, n=800, hints=[u8(p) for p in POOL])
        # and those added before stay recognised
        t0 = fld(this, 'added_tokens_map')
        for l in ('special_tokens', 'added_tokens'):
            l = fld(this, l)
            c = fld(at(l, i), 'content')
            facts = [lt(i, length(l)), tm.m_has(t0, c)]
            j.holds('tokens added before stay in a table of the recogniser', s.where, Or(inside(gn), inside(gm)), facts, gens=GENS, n=800, hints=[u8(p) for p in POOL])
            j.holds('tokens added before keep their id in the recogniser', s.where, And(right(gn), right(gm)), facts, gens=GENS, n=800, hints=[u8(p) for p in POOL])
    # the other ways in
    delegates(ctx, j)


def delegates(ctx, j):
    """the other entry points do what add_tokens does, on the tokenizer's own model and normalizer"""
    q = 'AddedVocabulary::add_tokens'
    this = sym('this', '')
    base = j.fn(q)
    jo = Job(ctx, opaque={'bytes_char', q})
    for f in ('AddedVocabulary::add_special_tokens', 'Tokenizer::add_tokens', 'Tokenizer::add_special_tokens'):
        own = f.startswith('Tokenizer::')
        for fn in j.fns(f):
            s = jo.summ(fn)
            if s is None or s.ret is None or s.this is None or len(s.params) != (1 if own else 3):
                continue
            ctx.did('entry points', f)
            ps = list(s.params.values())
            obj = tm.mk('Deref', fld(this, 'added_vocabulary')) if own else this
            args = (obj, ps[0], fld(this, 'model'), fld(this, 'normalizer')) if own else (obj,) + tuple(ps)
            after = tm.mk('Deref', fld(s.this, 'added_vocabulary')) if own else s.this
            after = tm.rebuild(after, lambda t: t)
            if prove_eq(s.ret, app('call:' + q, args, 'int'), []) and prove_eq(after, app('call:' + q + '!this', args, 'other'), []):
                ctx.proved(f + ' adds and counts as add_tokens does', s.where, 'hands its tokens, model and normalizer on')
                continue
            # written out, or another function in between
            s = j.summ(fn)
            want = j.summ(base, this=obj, args=dict(zip([p['n'] for p in base['params']], args[1:])))
            if s is None or want is None:
                continue
            j.same(f + ' counts as add_tokens does', s.where, s.ret, want.ret, gens=GENS)
            for n in STATE[1:]:
                got = fld(tm.mk('Deref', fld(s.this, 'added_vocabulary')) if own else s.this, n)
                j.same(f + ' adds as add_tokens does: ' + n, s.where, got, fld(want.this, n), gens=GENS)
