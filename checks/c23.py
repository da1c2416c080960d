"""C23: BERT normalisation applies exactly the enabled steps."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of the conditional steps and of the text each step computes', 'level': 'proof', 'min': 10,
        'note': 'Text only; offsets are N01. ICU character properties, ICU lower-casing of single characters and NFD (C19) are trusted. Whether '
                'U+2B820..U+2B91F belong to the CJK ranges is left open: the reference implementation and Unicode disagree.',
        'explanation': 'normalize is compared with the composition of the steps, each under its own option; the text of each step is compared '
                       'with the specified per-character map; the character classes are compared as predicates over all code points'}
STEPS = (('clean_text', 'do_clean_text'), ('handle_chinese_chars', 'do_handle_chinese_chars'), ('strip_accents', 'do_strip_accents'),
         ('lowercase', 'do_lowercase'))
CJK = ((0x4E00, 0x9FFF), (0x3400, 0x4DBF), (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0xF900, 0xFAFF),
       (0x2F800, 0x2FA1F))
OPEN = (0x2B820, 0x2B91F)


def inside(c, lo, hi):
    return And(le(I(lo), c), le(c, I(hi)))


def specified(c):
    """code points whose treatment is specified"""
    return [Not(inside(c, *OPEN))]


def is_cjk(c):
    return Or(*[inside(c, lo, hi) for lo, hi in CJK])


def is_white(c):
    return Or(*([eq(c, I(x)) for x in (9, 10, 13)] + [app('u_isUWhiteSpace', (c,), 'bool')]))


def is_ctl(c):
    return And(*([Not(eq(c, I(x))) for x in (9, 10, 13)] + [eq(app('u_charType', (c,), 'int'), I(15))]))


EDGE = [0, 9, 10, 13, 0x1b, 0x7f, 0x85, 0x9f, 0xa0, 0xad, 0x200b, 0x200d, 0x2028, 0x3000, 0xfeff, 0xfffd, 0xfffc, 0xfffe, 0x20, 0x41, 0x61, 0xe9, 0xc9, 0x130, 0x1e9e, 0x300, 0x36f, 0x301,
        0x488, 0x903, 0x93e, 0x5b0, 0x327, 0x20d0, 0x20dd, 0x1f600, 0xac00, 0x3042, 0x30a2] + [x for lo, hi in CJK for x in (lo - 1, lo, hi, hi + 1, (lo + hi) // 2)
                                                                     if not OPEN[0] <= x <= OPEN[1]]


def gen(m, r, d=0):
    t = tuple(r.choice(EDGE) if r.random() < 0.6 else r.choice((0x61, 0x20, 0x41)) for _ in range(r.randint(0, 5)))
    if m.big and r.random() < 0.7:
        t = (t or (0x4e16,)) * (m.big // max(len(t), 1) + 2)
    n = len(t)
    return ev.Rv('NormalizedString', {'normalized': t, 'offsets': tuple(ev.Rv('std::pair', {'first': i, 'second': i + 1}) for i in range(n)),
                                      'offset_ranges': tuple(ev.Rv('std::pair', {'first': i, 'second': 1}) for i in range(n)), '$id': 0})


GENS = {'NormalizedString': gen}
def case1(f):
    return lambda m, a: ord(f(chr(a[0]))) if 0 <= a[0] < 0x110000 and len(f(chr(a[0]))) == 1 else a[0]


LOWER = {'u_foldCase': case1(str.casefold), 'u_toupper': case1(str.upper), 'u_tolower': case1(str.lower)}


def run(ctx):
    ctx.rule('normalize = lowercase? . strip-accents? . space-CJK? . clean?, each exactly under its option')
    ctx.rule('clean: per character: NUL, U+FFFD, control (Cc but tab, newline, return) removed; white space -> space; others kept')
    ctx.rule('space-CJK: " " c " " for the eight ideograph ranges; others kept. Strip accents: NFD without category Mn. Lowercase: u_tolower of each')
    if 'normalized' not in rec_fields(ctx.prog, 'NormalizedString'):
        return ctx.unknown('text', '', 'NormalizedString::normalized not found')
    names = rec_fields(ctx.prog, 'BertNormalizer')
    this = sym('this', '')
    steps = [(o, 'BertNormalizer::' + f) for o, f in STEPS]
    j = Job(ctx, opaque={'bytes_char', 'NFD::normalize'})
    have = [q for _, q in steps if j.fns(q)]
    if any(o not in names for o, _ in steps):
        return ctx.unknown('options', '', 'options of BertNormalizer not found')
    # the order and the conditions
    jo = Job(ctx, opaque={'bytes_char', 'NFD::normalize'} | set(have), pure=set(have))
    s = jo.summ('BertNormalizer::normalize')
    if s is None or len(s.params) != 1:
        return
    inp = list(s.params.values())[0]
    called = {x.a[0] for x in tm.all_subterms(s.ret) if x.op == 'App'}
    have = [q for q in have if 'call:' + q in called]
    jo.known |= {'call:' + q for q in have}
    options(ctx, j, this)
    if len(have) == len(steps):
        for bits in range(16):
            facts, want = [], inp
            for i, (o, q) in enumerate(steps):
                on = bool(bits >> i & 1)
                facts.append(fld(this, o) if on else Not(fld(this, o)))
                if on:
                    want = app('call:' + q, (want,), ('rec', 'NormalizedString'))
            what = 'normalize with ' + (' '.join(o for i, (o, q) in enumerate(steps) if bits >> i & 1) or 'nothing') + ' enabled'
            ctx.did('option combinations', what)
            jo.same(what, s.where, s.ret, want, facts)
    else:
        for _, q in steps:
            if q not in have:
                ctx.did('steps written without a function of their own', q)
    texts = {'BertNormalizer::do_clean_text': clean, 'BertNormalizer::do_handle_chinese_chars': cjk, 'BertNormalizer::do_strip_accents': accents,
             'BertNormalizer::do_lowercase': lower}
    for i, (o, q) in enumerate(steps):
        if q in have:
            t = j.summ(q)
            if t is None or len(t.params) != 1:
                continue
            arg, ret, facts, loops = list(t.params.values())[0], t.ret, [], t.loops
        else:
            facts = [fld(this, x) if x == o else Not(fld(this, x)) for x, _ in steps]
            t = j.summ('BertNormalizer::normalize')
            if t is None or len(t.params) != 1:
                continue
            arg, ret, loops = list(t.params.values())[0], t.ret, []
        ctx.did('steps', o)
        texts[q](ctx, j, t.where, fld(arg, 'normalized'), fld(ret, 'normalized'), facts, loops, arg)


def options(ctx, j, this):
    """the constructor stores every option in its own member"""
    for f in j.fns('BertNormalizer::BertNormalizer'):
        if len(f['params']) != 4:
            continue
        s = j.summ(f)
        if s is None or s.ret is None:
            continue
        for (o, _), p in zip(STEPS, s.params.values()):
            j.same('the constructor stores ' + o, s.where, fld(s.ret, o), p)


def clean(ctx, j, w, x, got, facts, loops, arg):
    def ch(c):
        return tm.ite_seq(Or(eq0(c), eq(c, I(0xFFFD)), is_ctl(c)), tm.EMPTY, tm.ite_seq(is_white(c), elems(I(32)), elems(c)))
    j.same('cleaning removes NUL, U+FFFD and control characters and turns white space into spaces', w, got,
           each(length(x), lambda k: ch(at(x, k))), facts, gens=GENS, n=400)


def cjk(ctx, j, w, x, got, facts, loops, arg):
    def piece(c):
        return tm.ite_seq(is_cjk(c), elems(I(32), c, I(32)), elems(c))
    spec = forall(length(x), lambda k: And(*specified(at(x, k))))
    facts = facts + [spec]
    want = each(length(x), lambda k: piece(at(x, k)))
    # the class in the code, as it is used there: the same predicate over all specified code points
    preds = [q for q in ('is_chinese_char',) if j.fns(q)]
    for q in preds:
        s = j.summ(q)
        if s is not None and len(s.params) == 1:
            c = list(s.params.values())[0]
            cls(ctx, j, s.where, c, s.ret)
    # rewriting in place: by induction over the characters
    mine = None
    if preds:
        jo = Job(ctx, opaque={'bytes_char', 'NFD::normalize'} | set(preds), pure=set(preds))
        s = jo.summ('BertNormalizer::do_handle_chinese_chars') if jo.fns('BertNormalizer::do_handle_chinese_chars') else None
        if s is not None and len(s.params) == 1:
            xo = fld(list(s.params.values())[0], 'normalized')
            p = lambda c: app('call:is_chinese_char', (c,), 'bool')
            po = lambda k: tm.ite_seq(p(at(xo, k)), elems(I(32), at(xo, k), I(32)), elems(at(xo, k)))
            for info in s.loops:
                ms = splices(info, xo, po)
                if ms and any(subst(info.sol[m], {info.J: info.E}) is fld(s.ret, 'normalized') for m in ms):
                    mine = True
                    break
            if mine or prove_eq(fld(s.ret, 'normalized'), each(length(xo), po), []):
                return ctx.proved('a space is put on both sides of every CJK ideograph, nothing else changes', s.where,
                                  'by induction over the characters' if mine else 'same normal form')
    j.same('a space is put on both sides of every CJK ideograph, nothing else changes', w, got, want, facts, gens=GENS, n=400)


def cls(ctx, j, w, c, got):
    """both are unions of intervals: compared at every bound either side mentions"""
    j.same('the CJK class is exactly the ideograph ranges', w, got, is_cjk(c), specified(c), n=600, hints=())
    pts = set()
    for t in (got, is_cjk(c)):
        for x in tm.all_subterms(t):
            if x.op == 'Int' or x.op == 'Lin':
                v = abs(x.a[0])
                pts |= {v - 1, v, v + 1, v + 0x10000, v + 0x100, v & 0xffff, v & 0xff}
    for v in sorted(pts):
        if v < 0 or v > 0x10FFFF or OPEN[0] <= v <= OPEN[1]:
            continue
        a, b = subst(got, {c: I(v)}), subst(is_cjk(c), {c: I(v)})
        if a in (TRUE, tm.FALSE) and a is not b:
            return ctx.refuted('the CJK class at its bounds', w, 'U+%04X: the code says %s, specified %s' % (v, a is TRUE, b is TRUE))
    ctx.proved('the CJK class at its bounds', w, '%d code points at and around every bound' % len(pts))


def accents(ctx, j, w, x, got, facts, loops, arg):
    nf = [f for f in j.p.functions.values() if f['qn'] == 'NFD::normalize']
    calls = [t for t in tm.all_subterms(got) if t.op == 'App' and t.a[0] == 'call:NFD::normalize']
    if len(set(calls)) == 1:
        d = fld(calls[0], 'normalized')
        if calls[0].a[1][-1] is not arg:
            return ctx.unknown('accents are stripped from the decomposed text', w, 'decomposes another text')
    else:
        d = tm.to_u32(app('icunorm', (I(2), I(0), tm.mk('FromUTF32', x)), 'ustr'))
    mn = lambda c: eq(app('u_charType', (c,), 'int'), I(6))
    apps = {'call:NFD::normalize': nfd}
    j.same('accent stripping removes exactly the non-spacing marks of the decomposed text', w, got,
           each(length(d), lambda k: tm.ite_seq(mn(at(d, k)), tm.EMPTY, elems(at(d, k)))), facts, gens=GENS, n=400, apps=apps)


def nfd(m, a):
    import unicodedata
    e = a[-1]
    f = dict(e.f)
    f['normalized'] = tuple(ord(c) for c in unicodedata.normalize('NFD', ''.join(chr(c) for c in f['normalized'])))
    return ev.Rv(e.cls, f)


def lower(ctx, j, w, x, got, facts, loops, arg):
    j.same('lowercasing lower-cases every character', w, got, each(length(x), lambda k: elems(app('u_tolower', (at(x, k),), 'int'))), facts,
           gens=GENS, n=400, apps=LOWER)
