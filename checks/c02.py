"""C02: padding adds only neutral entries, on one side, up to the right length."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence with the specified padding', 'level': 'proof', 'min': 20,
        'note': 'Given an encoding whose seven arrays agree in length (C01). Integer arithmetic is unbounded in the value graph.',
        'explanation': 'the value graph of Padding::pad_encoding is compared, array by array and for each side, with the specified padded arrays'}


def run(ctx):
    j = Job(ctx)
    ctx.rule('every array of the result = padding entries ++ the same array of the argument (left), or the converse (right), with the configured values')
    ctx.rule('number of padding entries = max(0, target - length), target = fixed size or own length, rounded up to the multiple')
    fixed = j.const('get_padding_strategy', 'Fixed')
    left, right = j.const('get_padding_direction', 'Left'), j.const('get_padding_direction', 'Right')
    s = j.summ('Padding::pad_encoding')
    if s is None or None in (fixed, left, right):
        return
    this = sym('this', '')
    F = lambda n: fld(this, n)
    enc = next((v for v in s.params.values()), None)
    n = length(fld(enc, 'ids'))
    m = F('pad_to_multiple_of')
    for case, sf in (('fixed size', [eq(F('strategy'), fixed)]), ('own length', [Not(eq(F('strategy'), fixed))])):
        base = F('fixed_size') if case == 'fixed size' else n
        if case == 'fixed size':
            sf = sf + [le(I(0), base)]
        up = And(lt(I(0), m), lt(I(0), tm.mod(base, m)))
        target = add(base, Ite(up, sub(m, tm.mod(base, m)), I(0)))
        for side, d in (('left', left), ('right', right)):
            facts = sf + [eq(F('direction'), d)] + equal_lengths(enc)
            w = s.where
            for what, get, of in [('the encoding', s.ret, enc), ('an overflow window', None, None)]:
                fs = facts
                if get is None:
                    k = sym('k', 'int')
                    ov = fld(enc, 'overflowing')
                    ctx_ov = fld(s.ret, 'overflowing')
                    if case == 'own length' and side == 'left' or case == 'fixed size':
                        j.same('padding keeps the number of overflow windows (%s, %s)' % (case, side), w, length(ctx_ov), length(ov), facts, gens=GENS)
                    fs = facts + [le(I(0), k), lt(k, length(ov))]
                    of = at(ov, k)
                    fs = fs + equal_lengths(of)
                    get = j.unfold(at(ctx_ov, k), 1)
                ln = length(fld(of, 'ids'))
                p = sub(target, ln)
                none = le(p, I(0))
                vals = {'ids': F('pad_id'), 'type_ids': F('pad_type_id'), 'tokens': F('pad_token'), 'attention_mask': I(0),
                        'special_tokens_mask': I(1), 'offsets': pair(I(0), I(0))}
                for a in ARRAYS:
                    x = fld(of, a)
                    g = fld(get, a)
                    name = '%s of %s padded on the %s to the %s' % (a, what, side, case)
                    if a == 'words':
                        q = Ite(none, I(0), p)
                        j.same('length of ' + name, w, length(g), add(length(x), q), fs, gens=GENS)
                        lo = q if side == 'left' else I(0)
                        for nf in (none, Not(none)):
                            j.same('existing %s (%s)' % (name, 'nothing to add' if nf is none else 'entries added'), w,
                                   refine(mk_slice(refine(g, fs + [nf]), refine(lo, fs + [nf]), refine(add(lo, length(x)), fs + [nf])), fs + [nf]),
                                   x, fs + [nf], gens=GENS)
                        continue
                    f = fill(p, vals[a])
                    want = tm.ite_seq(none, x, cat(f, x) if side == 'left' else cat(x, f))
                    j.same(name, w, g, want, fs, gens=GENS)
    ctx.did('array equations', 'compared')


GENS = {'Encoding': gen_encoding()}
