"""C28: a template is emitted piece by piece, in order, with its own type ids."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence with the specified concatenation', 'level': 'proof', 'min': 10,
        'note': 'For templates whose pieces are the text (Sequence A) or special tokens, and special tokens that list as many ids as texts under '
                'distinct names; encodings whose seven arrays agree in length (C01).',
        'explanation': 'the value graph of TemplateProcessing::process is compared, array by array, with the concatenation over the template pieces'}


def gen_template(m, r, d=0):
    """a well-formed template"""
    names = r.sample(['[CLS]', '[SEP]', '[SEP]2', 'S', 'a', 'A'], r.randint(0, 4))
    st = []
    for nm in names:
        k = r.randint(0, 3)
        st.append(ev.Rv('SpecialToken', {'id': cp(nm), 'ids': tuple(r.randint(0, 99) for _ in range(k)),
                                         'tokens': tuple(cp(r.choice(names)) if r.random() < 0.5 else m.string(r) for _ in range(k)), '$id': 0}))

    def piece():
        if r.random() < 0.5 or not names:
            return ev.Rv('std::pair', {'first': cp('Sequence'), 'second': ev.Rv('Piece', {'id': cp('A'), 'type_id': r.randint(0, 5), '$id': 0})})
        return ev.Rv('std::pair', {'first': cp('SpecialToken'), 'second': ev.Rv('Piece', {'id': cp(r.choice(names)), 'type_id': r.randint(0, 5), '$id': 0})})
    return ev.Rv('TemplateProcessing', {'single': tuple(piece() for _ in range(r.choice((0, 1, 2, 2, 3, 3, 4, 10)))), 'pair': tuple(piece() for _ in range(r.randint(0, 2))),
                                        'special_tokens': tuple(st), '$id': 0})


def cp(s):
    return tuple(ord(c) for c in s)


GENS = {'Encoding': gen_encoding(), 'TemplateProcessing': gen_template}


def run(ctx):
    j = Job(ctx)
    ctx.rule('array a of the result = concatenation over the pieces in order: text piece -> array a of the encoding, with the piece\'s type id; '
             'special token and special tokens wanted -> the ids / texts listed under its name with the piece\'s type id, no word, (0,0), mask 1, attention 1')
    ctx.rule('overflow window k of the result = the same function of overflow window k')
    s = j.summ('TemplateProcessing::process')
    if s is None:
        return
    w = s.where
    ps = list(s.params.values())
    enc, want_special = ps[0], ps[1]
    this = sym('this', '')
    single, sts = fld(this, 'single'), fld(this, 'special_tokens')
    S, A, X = tm.lits('Sequence'), tm.lits('A'), tm.lits('SpecialToken')
    kind = lambda i: fld(at(single, i), 'first')
    pid = lambda i: fld(fld(at(single, i), 'second'), 'id')
    tid = lambda i: fld(fld(at(single, i), 'second'), 'type_id')
    n = length(single)
    ok = forall(n, lambda i: Or(And(eq(kind(i), S), eq(pid(i), A)), eq(kind(i), X)))
    base = [ok] + equal_lengths(enc)

    def listed(i, f):
        q = first(length(sts), lambda t: eq(fld(at(sts, t), 'id'), pid(i)))
        return tm.ite_seq(lt(q, length(sts)), f(at(sts, q)), tm.EMPTY)
    const = {'words': tm.mk_opt(FALSE, tm.UNDEF), 'offsets': pair(I(0), I(0)), 'special_tokens_mask': I(1), 'attention_mask': I(1)}

    def expected(e, a, special):
        def special_part(i):
            if a == 'ids':
                return listed(i, lambda t: fld(t, 'ids'))
            if a == 'tokens':
                return listed(i, lambda t: fld(t, 'tokens'))
            x = tid(i) if a == 'type_ids' else const[a]
            return listed(i, lambda t: fill(length(fld(t, 'ids')), x))

        def text_part(i):
            return fill(length(fld(e, 'type_ids')), tid(i)) if a == 'type_ids' else fld(e, a)
        return each(n, lambda i: tm.ite_seq(eq(kind(i), S), text_part(i),
                                            special_part(i) if special else tm.EMPTY))
    ov = fld(enc, 'overflowing')
    k = sym('k', 'int')
    inside = [le(I(0), k), lt(k, length(ov))]
    for special in (True, False):
        fs = base + [want_special if special else Not(want_special)]
        lab = 'with special tokens' if special else 'without special tokens'
        for a in ARRAYS:
            j.same('%s of the template result, %s' % (a, lab), w, fld(s.ret, a), expected(enc, a, special), fs, gens=GENS)
        j.same('every overflow window is kept, %s' % lab, w, length(fld(s.ret, 'overflowing')), length(ov), fs, gens=GENS)
        win = j.unfold(at(fld(s.ret, 'overflowing'), k), 1)
        fk = fs + inside + equal_lengths(at(ov, k))
        for a in ARRAYS:
            j.same('%s of overflow window k, %s' % (a, lab), w, fld(win, a), expected(at(ov, k), a, special), fk, gens=GENS)
        for a in rec_fields(ctx.prog, 'Encoding'):
            if a not in ARRAYS and a != 'overflowing':
                ctx.unknown('field %s of the template result' % a, w, 'no rule for this field')
    ctx.did('template pieces', 'text and special token')
