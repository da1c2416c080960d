"""C07: encoding runs every configured stage exactly once, in pipeline order."""
import itertools

import core
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence with the composition of the configured stages', 'level': 'proof', 'min': 32,
        'note': 'The stages are uninterpreted functions, so the equality holds whatever they do; how many added tokens are found where is '
                'left open (N04). The tokenizer has an added-vocabulary object (constructed by every constructor, C08).',
        'explanation': 'for each of the 32 subsets of optional stages the value graph of Tokenizer::encode is compared with the composition of '
                       'exactly those stages; added-token extraction is compared with: split on raw matches, normalise each other piece once, '
                       'split the result on normalised matches'}

STAGES = ('pre_tokenizer', 'model', 'truncation', 'post_processor', 'padding')
OPAQUE = {'bytes_char', 'extract_and_normalize', 'truncate_encoding', 'pad_encoding'}


def isnull(t):
    return tm.mk('IsNull', t)


def run(ctx):
    ctx.rule('encode = pad? . post-process? . truncate? . collect . tokenize? . pre-tokenize? . extract-and-normalise, each configured stage once')
    ctx.rule('extract-and-normalise: raw added tokens first; every other piece normalised once, then split on normalised added tokens')
    encode(ctx)
    extract(ctx)


def stage_type(j, qn):
    f = j.fn(qn, need=False)
    return vg.Engine(j.p).ret(vg.Engine(j.p).td(f['unit'], f['rt'])) if f else None


def encode(ctx):
    for need in ('AddedVocabulary::extract_and_normalize', 'Truncation::truncate_encoding', 'Padding::pad_encoding'):
        if not [f for f in ctx.prog.functions.values() if f['qn'] == need]:
            return ctx.unknown('stages of encode', '', need + ' not found')
    j = Job(ctx, opaque=OPAQUE)
    s = j.summ('Tokenizer::encode')
    if s is None:
        return
    this = sym('this', '')
    F = lambda n: fld(this, n)
    names = rec_fields(ctx.prog, 'Tokenizer')
    if any(x not in names for x in STAGES + ('normalizer', 'added_vocabulary')) or len(s.params) != 2:
        return ctx.unknown('stages of encode', s.where, 'members of Tokenizer not found')
    seq, flag = list(s.params.values())
    av = F('added_vocabulary')
    base = [Not(isnull(av))]
    X = next((x for x in tm.all_subterms(s.ret) if x.op == 'App' and x.a[0] == 'call:AddedVocabulary::extract_and_normalize'), None)
    if X is None:
        if ev.unknowns(s.ret):
            return ctx.unknown('encode extracts added tokens', s.where, 'parts not followed')
        return ctx.refuted('encode extracts added tokens', s.where, 'extract_and_normalize is not called')
    want = app('call:AddedVocabulary::extract_and_normalize', (tm.mk('Deref', av), F('normalizer'), seq), X.a[2])
    R0 = refine(s.ret, base + [isnull(F(x)) for x in STAGES])
    calls = {x for x in tm.all_subterms(R0) if x.op == 'App' and str(x.a[0]).startswith(('call:', 'virt:'))}
    extra = [x.a[0] for x in calls if x is not want and 'bytes_char' not in x.a[0]]
    what = 'without optional stages encode only extracts and collects'
    if not extra:
        ctx.proved(what, s.where, 'the only stage called is extract_and_normalize, on the text and the configured normalizer')
    elif any('extract_and_normalize' in x for x in extra) and want not in calls and len(extra) == 1:
        x = next(c for c in calls if c is not want and c.a[0] in extra)
        j.same('encode hands text and normalizer to extraction', s.where, x, want, base)
    else:
        ctx.unknown(what, s.where, 'also calls ' + ', '.join(extra)[:200])

    td = {}
    for f, qn in (('pre_tokenizer', 'virt:PreTokenizer::pre_tokenize'), ('model', 'virt:Model::tokenize'), ('post_processor', 'virt:PostProcessor::process'),
                  ('truncation', 'call:Truncation::truncate_encoding'), ('padding', 'call:Padding::pad_encoding')):
        td[f] = next(((x.a[0], x.a[2]) for x in tm.all_subterms(s.ret) if x.op == 'App' and x.a[0] == qn), None)
    for k in STAGES:
        if td[k] is None:
            what = 'encode runs the %s' % k
            if ev.unknowns(s.ret) or j.skipped(s.ret, X):
                ctx.unknown(what, s.where, 'parts not followed')
            else:
                ctx.refuted(what, s.where, 'the stage is never called')
    if None in td.values():
        return

    def st(f, *a):
        n, t = td[f]
        return app(n, (tm.mk('Deref', F(f)),) + a, t)

    def spec(on):
        p = want
        if 'pre_tokenizer' in on:
            p = st('pre_tokenizer', p)
        if 'model' in on:
            p = st('model', p)
        e = subst(R0, {want: p})
        if 'truncation' in on:
            e = st('truncation', e)
        if 'post_processor' in on:
            e = st('post_processor', e, flag)
        if 'padding' in on:
            e = st('padding', e)
        return e
    inl = None
    for r in range(6):
        for on in itertools.combinations(STAGES, r):
            fs = base + [isnull(F(x)) if x not in on else Not(isnull(F(x))) for x in STAGES]
            what = 'encode with ' + (', '.join(on) or 'no optional stage')
            w = eta(spec(on))
            g = eta(refine(s.ret, fs))
            ctx.did('stage combinations', what)
            if prove_eq(g, w, fs):
                ctx.proved(what, s.where, 'same normal form as the composition')
                continue
            gens = {'Encoding': gen_encoding(), X: gen_pre(), 'virt:PreTokenizer::pre_tokenize': None}
            apps = {a: hashed_pre(a) for a in ('virt:PreTokenizer::pre_tokenize', 'virt:Model::tokenize', 'call:AddedVocabulary::extract_and_normalize')}
            j.same(what, s.where, g, w, fs, apps=apps)


def hashed_pre(name):
    """uninterpreted function to pre-tokenized strings whose offsets stay inside their normalized text"""
    def f(m, args):
        k = ('pre', name, repr(args))
        if k not in m.memo:
            import random
            import zlib
            m.memo[k] = gen_pre()(m, random.Random(zlib.crc32(repr(k).encode()) ^ m.seed), 0)
        return m.memo[k]
    return f


def gen_pre():
    def g(m, r, d=0):
        n = r.randint(1, 5)
        P = lambda a, b: ev.Rv('std::pair', {'first': a, 'second': b})
        norm = ev.Rv('NormalizedString', {'normalized': tuple(97 + r.randint(0, 3) for _ in range(n)),
                                          'offsets': tuple(P(i, i + 1) for i in range(n)), 'offset_ranges': tuple(P(i, 1) for i in range(n)), '$id': 0})
        splits = []
        for _ in range(r.randint(0, 3)):
            a = r.randint(0, n - 1)
            toks = tuple(ev.Rv('Token', {'id': r.randint(0, 9), 'value': m.string(r), 'offsets': P(r.randint(0, 2), r.randint(2, 4)), '$id': 0})
                         for _ in range(r.randint(0, 2)))
            splits.append(ev.Rv('Split', {'normalized': m.string(r), 'offsets': P(a, r.randint(a, n)), 'tokens': toks, '$id': 0}))
        return ev.Rv('PreTokenizedString', {'normalized': norm, 'splits': tuple(splits), '$id': 0})
    return g


def no_offsets(t):
    """t with the offsets of its Split and Token records left out"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Rec' and r.a[0] in ('Split', 'Token'):
                r = tm.rec(r.a[0], [(n, v if n != 'offsets' else tm.UNDEF) for n, v in r.a[1]])
            memo[x] = r
        return r
    return f(t)


def extract(ctx):
    fm = [f for f in ctx.prog.functions.values() if f['qn'] == 'AddedVocabulary::find_matches']
    j = Job(ctx, opaque={'bytes_char', 'find_matches', 'transform_range'}, pure={'find_matches'})
    if len(fm) != 1:
        return ctx.unknown('added-token extraction', '', 'find_matches not found')
    s = j.summ('AddedVocabulary::extract_and_normalize')
    if s is None:
        return
    this = sym('this', '')
    norm, seq = list(s.params.values())
    td = next((x.a[2] for x in tm.all_subterms(s.ret) if x.op == 'App' and x.a[0] == 'call:AddedVocabulary::find_matches'), None)
    if td is None:
        return ctx.unknown('added-token extraction', s.where, 'find_matches is not called')

    def matches(text, which):
        return app('call:AddedVocabulary::find_matches', (this, text, fld(this, which)), td)
    utf8 = lambda w: tm.mk('ToUTF8', tm.mk('FromUTF32', w))
    c2s = lambda w: j.summ('convert_to_string', args={'sequence': w}).ret if False else w
    split = lambda text, toks: tm.rec('Split', [('normalized', text), ('offsets', tm.UNDEF), ('tokens', toks)])
    token = lambda i, text: tm.rec('Token', [('id', i), ('value', text), ('offsets', tm.UNDEF)])
    f = j.fn('convert_to_string', need=False)
    g = j.fn('convert_from_string', need=False)
    ns = j.fn('NormalizedString::NormalizedString', need=False)
    if f is None or g is None:
        return ctx.unknown('added-token extraction', s.where, 'conversions not found')
    e = vg.Engine(ctx.prog)
    wsym, bsym = sym('w!', 'str'), sym('b!', 'str')
    to8 = j.summ(f, args={f['params'][0]['n']: wsym}).ret
    from8 = j.summ(g, args={g['params'][0]['n']: bsym}).ret
    ctor = [x for x in ctx.prog.functions.values() if x['qn'] == 'NormalizedString::NormalizedString' and len(x['params']) == 1 and not x.get('copy')
            and x.get('body') is not None]
    if len(ctor) != 1:
        return ctx.unknown('added-token extraction', s.where, 'constructor of NormalizedString not found')
    nst = j.summ(ctor[0], args={ctor[0]['params'][0]['n']: wsym}).ret
    T8 = lambda w: subst(to8, {wsym: w})
    F8 = lambda b: subst(from8, {bsym: b})
    NS = lambda w: subst(nst, {wsym: w})
    M1 = matches(T8(seq), 'split_non_normalized_trie')

    def piece(w, m):
        a = fld(fld(m, 'second'), 'first')
        b = fld(fld(m, 'second'), 'second')
        return T8(mk_slice(w, a, tm.tmin(length(w), b)))
    ntd = next((x.a[2] for x in tm.all_subterms(s.ret) if x.op == 'App' and x.a[0] == 'virt:Normalizer::normalize'), None)
    if ntd is None:
        if ev.unknowns(s.ret):
            return ctx.unknown('added-token extraction', s.where, 'parts not followed')
        return ctx.refuted('pieces that are no added tokens are normalised', s.where, 'the normalizer is never called')
    got = no_offsets(fld(s.ret, 'splits'))
    rng = lambda w, M: forall(length(M), lambda i: And(le(I(0), fld(fld(at(M, i), 'second'), 'first')),
                              le(fld(fld(at(M, i), 'second'), 'first'), fld(fld(at(M, i), 'second'), 'second'))))
    for what, nf in (('with a normalizer', Not(isnull(norm))), ('without a normalizer', isnull(norm))):
        def inner(text):
            w = F8(text)
            N = app('virt:Normalizer::normalize', (tm.mk('Deref', norm), NS(w)), ntd) if nf.op == 'Not' else NS(w)
            nw = fld(N, 'normalized')
            M2 = matches(T8(nw), 'split_normalized_trie')

            def one(i):
                m = at(M2, i)
                t = piece(nw, m)
                return tm.ite_seq(has_value(fld(m, 'first')), elems(split(t, elems(token(opt_value(fld(m, 'first')), t)))), elems(split(t, tm.EMPTY)))
            return each(length(M2), one)

        def outer(i):
            m = at(M1, i)
            t = piece(seq, m)
            return tm.ite_seq(has_value(fld(m, 'first')), elems(split(t, elems(token(opt_value(fld(m, 'first')), t)))), inner(t))
        some1 = [nf, lt(I(0), length(M1))]
        full = each(length(M1), outer)
        # if nothing at all comes out, the raw pieces are kept (an empty text)
        fs = some1 + [lt(I(0), length(full))]
        j.same('pieces and tokens of the extraction, %s' % what, s.where, refine(got, fs), refine(full, fs), fs, apps={'call:AddedVocabulary::find_matches': fm_gen}, gens={seq: long_text}, n=400)
        none = [nf, eq0(length(M1)), lt(I(0), length(inner(T8(seq))))]
        j.same('pieces of a text without raw matches, %s' % what, s.where, refine(unrolled(refine(got, none[:2])), none), refine(inner(T8(seq)), none), none,
               apps={'call:AddedVocabulary::find_matches': fm_gen}, gens={seq: long_text}, n=400)


def long_text(m, r, d=0):
    return tuple(r.choice((97, 98, 32, 91, 93, 233)) for _ in range(r.choice((0, 1, 3, 6, 14, 30))))


def fm_gen(m, args):
    """interpretation of find_matches: consecutive ranges of the text, some of them with an id"""
    import random
    import zlib
    k = ('fm', repr(args[1]), repr(args[2]))
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        n = len(args[1])
        cuts = sorted({0, n} | {r.randint(0, n) for _ in range(r.choice((0, 1, 2, 2, 12)))})
        P = lambda a, b: ev.Rv('std::pair', {'first': a, 'second': b})
        m.memo[k] = tuple(P((ev.SOME, r.randint(0, 9)) if r.random() < 0.4 else ('none',), P(a, b)) for a, b in zip(cuts, cuts[1:]))
    return m.memo[k]
