"""C22: WordPiece takes the longest match at each step, or one unknown for the word."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of WordPiece::tokenize with greedy longest match', 'level': 'proof', 'min': 3,
        'note': 'Positions, lengths and the limit count characters (code points). Conversions between UTF-8 and code points are trusted (ICU/codecvt).',
        'explanation': 'the tokens of one piece, as the value graph of the code computes them for every text and vocabulary, have the normal form of '
                       'the specified greedy cover; pieces that already carry tokens are passed on'}


def words(r, big=None):
    a = r.choice(((97, 98), (97, 98), (97, 0x1F600), (97, 0xE9, 98), (97, 98, 99)))
    if big and r.random() < 0.7:
        return a, (97,) * (big + r.randint(0, 3))
    if r.random() < 0.4:
        return a, (97,) * r.randint(1, 8)
    return a, tuple(r.choice(a) for _ in range(r.randint(0, 9 if r.random() < 0.5 else 4)))


def u8(t):
    return tuple(x - 256 if x > 127 else x for x in ''.join(map(chr, t)).encode())


def gen_piece(m, r, d=0):
    w = words(r, m.big)[1]
    mp = r.randint(0, 4) == 0
    toks = (ev.Rv('Token', {'id': 7, 'value': u8((120,)), 'offsets': ev.Rv('std::pair', {'first': 0, 'second': 1}), '$id': 0}),) if mp else ()
    return ev.Rv('Split', {'original': u8(w), 'normalized': u8(w), 'offsets': ev.Rv('std::pair', {'first': 0, 'second': len(w)}), 'tokens': toks, '$id': 0})


def gen_pre(m, r, d=0):
    n = r.randint(1, 2)
    ps = tuple(gen_piece(m, r) for _ in range(n))
    return ev.Rv('PreTokenizedString', {'splits': ps, 'normalized': ev.Rv('NormalizedString', {'normalized': (), 'offsets': (), 'offset_ranges': (), '$id': 0}), '$id': 0})


def gen_wp(m, r, d=0):
    pre = r.choice(((), (35, 35), (97,)))
    v = {}
    for i in range(r.randint(1, 9)):
        w = words(r, m.big)[1]
        w = w[:r.randint(1, 3)] if r.random() < 0.7 else w
        v[u8((pre if r.random() < 0.6 else ()) + w)] = i + (r.random() < 0.2)
    if r.random() < 0.5:
        for i, c in enumerate((97, 98, 0x1F600, 0xE9)):
            v.setdefault(u8((c,)), 20 + i)
            v.setdefault(u8(pre + (c,)), 30 + i)
    if r.random() < 0.1:
        v[()] = 40
    unk = u8((63,))
    if r.random() < 0.7:
        v[unk] = 50
    return ev.Rv('WordPiece', {'vocab': ev.Mv(list(v.items())), 'vocab_r': ev.Mv([(i, k) for k, i in v.items()]), 'unk_token': unk,
                               'max_input_chars_per_word': r.choice((100, 100, 100, 100, 4, 2, 0)), 'continuing_subword_prefix': u8(pre), '$id': 0})


GENS = {'WordPiece': gen_wp, 'PreTokenizedString': gen_pre, 'Split': gen_piece}


def unknown(this, n, names):
    u, v = fld(this, 'unk_token'), fld(this, 'vocab')
    return token(Ite(tm.m_has(v, u), tm.m_get(v, u), I(0)), u, I(0), n)


def token(id_, text, a, b):
    return tm.rec('Token', [('id', id_), ('value', text), ('offsets', tm.rec('std::pair', [('first', a), ('second', b)]))])


def run(ctx):
    ctx.rule('at position a: the largest b with vocab containing (a > 0 ? prefix : "") + text[a, b); token(id, that text, a, b); go on at b')
    ctx.rule('no such b > a at some a, or more than max_input_chars_per_word characters: the tokens are exactly one unknown token')
    names = set(rec_fields(ctx.prog, 'WordPiece')) | set(rec_fields(ctx.prog, 'Model'))
    if any(n not in names for n in ('vocab', 'unk_token', 'max_input_chars_per_word', 'continuing_subword_prefix')) or \
            any(n not in rec_fields(ctx.prog, 'Token') for n in ('id', 'value', 'offsets')):
        return ctx.unknown('members', '', 'members of WordPiece or Token not found')
    j = Job(ctx)
    s = j.summ('WordPiece::tokenize')
    if s is None or len(s.params) != 1 or s.ret is None:
        return
    this = sym('this', '')
    p = list(s.params.values())[0]
    splits = fld(p, 'splits')
    v = fld(this, 'vocab')

    def tokens(x):
        u = tm.to_u32(tm.mk('FromUTF8', fld(x, 'normalized')))
        n = length(u)

        def cand(a, b):
            return tm.cat(tm.ite_seq(lt(I(0), a), fld(this, 'continuing_subword_prefix'), tm.EMPTY), tm.mk('ToUTF8', tm.mk('FromUTF32', tm.mk_slice(u, a, b))))

        def end(a):
            return sub(n, first(sub(n, a), lambda i: tm.m_has(v, cand(a, sub(n, i)))))
        start = lambda k: loop(k, I(0), lambda _, a: end(a))
        stop = first(tm.INF, lambda k: Or(le(n, start(k)), le(end(start(k)), start(k))))
        fits = each(stop, lambda k: elems(token(tm.m_get(v, cand(start(k), end(start(k)))), cand(start(k), end(start(k))), start(k), end(start(k)))))
        bad = Or(lt(fld(this, 'max_input_chars_per_word'), n), lt(start(stop), n))
        # by definition of the first such position
        at_end = Or(le(n, start(stop)), le(end(start(stop)), start(stop)))
        return bad, fits, elems(unknown(this, n, names)), n, at_end

    fresh_ = forall(length(splits), lambda k: eq0(length(fld(at(splits, k), 'tokens'))))
    got = fld(s.ret, 'splits')
    j.same('as many pieces come out as went in', s.where, length(got), length(splits), gens=GENS)
    i = sym('i', 'J')
    facts = [lt(i, length(splits))]
    x = at(splits, i)
    y = at(got, i)
    bad, fits, unk, n, at_end = tokens(x)
    open_ = eq0(length(fld(x, 'tokens')))
    j.same('a piece that already has tokens keeps them', s.where, fld(y, 'tokens'), fld(x, 'tokens'), facts + [Not(open_)], gens=GENS, n=800)
    whole = tm.ite_seq(bad, unk, fits)
    small = le(n, fld(this, 'max_input_chars_per_word'))
    j.same('a word longer than the limit becomes the one unknown token', s.where, fld(y, 'tokens'), unk, facts + [open_, Not(small)], gens=GENS, n=800)
    j.same('any other word is covered by the longest matches from left to right, or becomes the one unknown token', s.where, fld(y, 'tokens'), whole,
           facts + [open_, small, at_end], gens=GENS, n=1500)
    j.same('the text of a piece stays what it was', s.where, fld(y, 'normalized'), fld(x, 'normalized'), facts, gens=GENS)
