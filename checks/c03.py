"""C03: truncation cuts aligned windows that cover the whole encoding."""
from prop import *
import terms as tm
from vg import INF

META = {'technique': 'value-graph equivalence with the specified windows', 'level': 'proof', 'min': 20,
        'note': 'Given an encoding whose seven arrays agree in length (C01), whatever its overflow list. Integer arithmetic is unbounded.',
        'explanation': 'the value graph of Truncation::truncate_encoding is compared, array by array and for both directions, with the specified windows'}


def run(ctx):
    j = Job(ctx)
    ctx.rule('not longer than max_length -> the argument itself; max_length 0 -> empty, the argument as only overflow window')
    ctx.rule('otherwise window k covers [k*(max-stride), min(n, k*(max-stride)+max)) from the cut side, up to the first window reaching the other end; '
             'the result is window 0, overflow k is window k+1; the same range for all seven arrays')
    ctx.rule('a stride that is negative or not below the maximum raises instead of dropping or repeating entries')
    strat = [(n, j.const('get_truncation_strategy', n)) for n in ('LongestFirst', 'OnlyFirst')]
    dirs = [(n, j.const('get_truncation_direction', n)) for n in ('Right', 'Left')]
    if any(v is None for _, v in strat + dirs):
        return
    this = sym('this', '')
    F = lambda n: fld(this, n)
    mx, stride = F('max_length'), F('stride')
    s = j.summ('Truncation::truncate_encoding')
    if s is None:
        return
    w = s.where
    enc = next(v for v in s.params.values())
    n = length(fld(enc, 'ids'))
    cls = 'Encoding'
    # short encodings
    for sn, sv_ in strat + [('OnlySecond', j.const('get_truncation_strategy', 'OnlySecond'))]:
        fs = [eq(F('strategy'), sv_), le(n, mx), lt(I(0), mx)] + equal_lengths(enc)
        for a in ARRAYS + ('overflowing',):
            j.same('%s unchanged when short enough (%s)' % (a, sn), w, fld(s.ret, a), fld(enc, a), fs, gens=GENS)
    # length zero
    fs = [eq0(mx), lt(I(0), n)] + equal_lengths(enc)
    for a in ARRAYS:
        j.same('%s empty for maximum length 0' % a, w, length(fld(s.ret, a)), I(0), fs, gens=GENS)
    j.same('one overflow window for maximum length 0', w, length(fld(s.ret, 'overflowing')), I(1), fs, gens=GENS)
    for a in ARRAYS:
        j.same('%s of the overflow window for maximum length 0' % a, w, fld(at(fld(s.ret, 'overflowing'), I(0)), a), fld(enc, a),
               fs + [eq(length(fld(s.ret, 'overflowing')), I(1))], gens=GENS)
    off = sub(mx, stride)
    for sn, sc in strat:
        for dn, dc in dirs:
            pre = [eq(F('strategy'), sc), eq(F('direction'), dc), lt(I(0), mx)] + equal_lengths(enc) + [lt(mx, n)]
            bad = pre + [Or(lt(stride, I(0)), le(mx, stride))]
            j.holds('a stride outside [0, max_length) raises (%s, %s)' % (sn, dn), w, s.throw_guard(), bad, gens=GENS)
            facts = pre + [le(I(0), stride), lt(stride, mx)]
            j.holds('nothing raised otherwise (%s, %s)' % (sn, dn), w, Not(s.throw_guard()), facts, gens=GENS)
            J = sym('J!w', 'J')
            ov = fld(s.ret, 'overflowing')
            cnt = tm.first_idx(tm.INF, J, le(n, add(mul_(J, off), mx)))
            j.same('number of windows (%s, %s)' % (sn, dn), w, length(ov), cnt, facts, gens=GENS)
            k = sym('k', 'int')
            for what, e, ix, fk in (('the kept part', s.ret, I(0), []), ('overflow window k', at(ov, k), add(k, I(1)), [le(I(0), k), lt(k, length(ov))])):
                for a in ARRAYS:
                    x = fld(enc, a)
                    if dn == 'Right':
                        lo = mul_(ix, off)
                        hi = tm.tmin(n, add(lo, mx))
                    else:
                        hi = sub(n, mul_(ix, off))
                        lo = tm.tmax(I(0), sub(hi, mx))
                    fs = facts + fk
                    want = mk_slice(x, lo, hi)
                    j.same('%s of %s (%s, %s)' % (a, what, sn, dn), w, fld(e, a), want, fs, gens=GENS)
    ctx.did('window equations', 'compared')


def mul_(a, b):
    return tm.mul(a, b)


GENS = {'Encoding': gen_encoding()}
