"""C19: NFC, NFD, NFKC and NFKD each apply exactly that form to the whole text."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of the normalised text with ICU normalisation in the form of that name', 'level': 'proof', 'min': 4,
        'note': 'ICU itself is trusted. Calls ICU reports as failed raise an exception (C16). Offsets after normalisation are N01.',
        'explanation': 'the text in the result of each normalizer, as a term over the symbolic input text, is the complete conversion of '
                       'ICU normalize(form, no options, complete input)'}
MODES = {'NFC': 4, 'NFD': 2, 'NFKC': 5, 'NFKD': 3}


def run(ctx):
    ctx.rule('text(normalize(x)) = all code points of icu_normalize(form, 0, all code points of text(x))')
    j = Job(ctx, opaque={'bytes_char', 'NormalizedString::transform'})
    for cls, mode in MODES.items():
        s = j.summ(cls + '::normalize')
        if s is None:
            continue
        if len(s.params) != 1 or 'normalized' not in rec_fields(ctx.prog, 'NormalizedString'):
            ctx.unknown(cls, s.where, 'text member not found')
            continue
        inp = fld(list(s.params.values())[0], 'normalized')
        ctx.did('normalizers', cls)
        want = tm.to_u32(app('icunorm', (I(mode), I(0), tm.mk('FromUTF32', inp)), 'ustr'))
        j.same('%s: the result is the complete text in form %s' % (cls, cls), s.where, fld(s.ret, 'normalized'), want,
               gens={'NormalizedString': gen}, n=300, hints=())
        # the only refusals: ICU reports a failure. Conversion fails if the capacity is too small, or if the status handed in is a failure
        g, facts = failures(s.throw_guard())
        j.holds('%s: no text is refused unless ICU fails' % cls, s.where, Not(g), facts, gens={'NormalizedString': gen}, n=300)


def failures(g):
    facts = set()
    memo = {}

    def fails(st):
        if st.op == 'Int':
            return tm.B(st.a[0] > 0)
        if st.op == 'App' and st.a[0] == 'toUTF32.status':
            u, cap, s0 = st.a[1]
            return Or(fails(f(s0)), lt(f(cap), length(tm.to_u32(f(u)))))
        return app('U_FAILURE', (f(st),), 'bool')

    def f(t):
        if t in memo:
            return memo[t]
        if t.op == 'App' and t.a[0] == 'U_FAILURE':
            r = fails(t.a[1][0])
            if r.op == 'App':
                facts.add(Not(r))
        else:
            r = tm.rebuild(t, f)
        memo[t] = r
        return r
    g = f(g)
    for x in tm.all_subterms(g):
        if x.op == 'App' and x.a[0] == 'U_FAILURE':
            facts.add(Not(x))
    return g, list(facts)


POOL = [0, 0x41, 0x61, 0x20, 0xe9, 0x301, 0x65, 0x327, 0xc5, 0x212b, 0xfb01, 0x2460, 0xac00, 0x1100, 0x1161, 0x3a9, 0x2126, 0x1f600, 0xff21, 0x1e9b, 0x323]


def gen(m, r, d=0):
    t = tuple(r.choice(POOL) for _ in range(r.randint(0, 5)))
    if m.big and r.random() < 0.7:
        t = (t or (0xe9,)) * (m.big // max(len(t), 1) + 2)
    n = len(t)
    return ev.Rv('NormalizedString', {'normalized': t, 'offsets': tuple(ev.Rv('std::pair', {'first': i, 'second': i + 1}) for i in range(n)),
                                      'offset_ranges': tuple(ev.Rv('std::pair', {'first': i, 'second': 1}) for i in range(n)), '$id': 0})
