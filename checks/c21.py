"""C21: decoding resolves every id in order and drops only special tokens."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of decode with lookup, filter, decoder, concatenation', 'level': 'proof', 'min': 8,
        'note': 'The decoder is an uninterpreted function of the list of texts (C29 decides what each decoder does). The tokenizer has an '
                'added-vocabulary object (C08).',
        'explanation': 'the value graph of Tokenizer::decode is compared with the concatenation, in id order, of the resolved texts handed once to '
                       'the configured decoder, for the four combinations of model and decoder present or absent'}


def isnull(t):
    return tm.mk('IsNull', t)



def run(ctx):
    ctx.rule('decode(ids, skip) = concat(decoder?(filter(not (skip and special), resolve each id in order)))')
    ctx.rule('resolve(id) = text of the added token with that id, otherwise text of the id in the model vocabulary, otherwise nothing')
    j = Job(ctx)
    this = sym('this', '')
    av, model, dec = (fld(this, n) for n in ('added_vocabulary', 'model', 'decoder'))
    names = rec_fields(ctx.prog, 'Tokenizer')
    s = j.summ('Tokenizer::decode')
    if s is None:
        return
    if any(n not in names for n in ('added_vocabulary', 'model', 'decoder')) or len(s.params) != 2:
        return ctx.unknown('decode', s.where, 'members of Tokenizer not found')
    ids, skip = list(s.params.values())
    x = sym('x', 'int')
    txt = sym('t', 'str')

    def lookup(qn, obj):
        f = j.fn(qn)
        if f is None:
            return None
        return j.summ(f, this=obj, args={f['params'][0]['n']: x if f['n'] == 'id_to_token' else txt})
    A, M, S = tm.mk('Deref', av), tm.mk('Deref', model), None
    look = {}
    for qn, obj in (('AddedVocabulary::id_to_token', A), ('Model::id_to_token', M), ('AddedVocabulary::is_special_token', A)):
        r = lookup(qn, obj)
        if r is None:
            return
        look[qn] = r
    a = look['AddedVocabulary::id_to_token']
    table = fld(A, 'added_tokens_map_r')
    if 'added_tokens_map_r' in rec_fields(ctx.prog, 'AddedVocabulary'):
        optional(j, 'an id resolves to the text of the added token with that id', a, tm.m_has(table, x), fld(tm.m_get(table, x), 'content'))
    m = look['Model::id_to_token']
    table = fld(M, 'vocab_r')
    if 'vocab_r' in rec_fields(ctx.prog, 'Model'):
        optional(j, 'an id resolves to its text in the model vocabulary', m, tm.m_has(table, x), tm.m_get(table, x))
    sp = look['AddedVocabulary::is_special_token']
    if 'special_tokens_set' in rec_fields(ctx.prog, 'AddedVocabulary'):
        j.same('a text is special exactly if it was added as special', sp.where, sp.ret, tm.m_has(fld(A, 'special_tokens_set'), txt))

    def at_id(t, i):
        return subst(t, {x: i})

    def at_text(t, w):
        return subst(t, {txt: w})
    for mn, mf in (('with a model', Not(isnull(model))), ('without a model', isnull(model))):
        def texts(i, mf=mf):
            """texts (none or one) the i-th id contributes"""
            one = at_id(a.ret, i)

            def keep(w):
                return tm.ite_seq(And(skip, at_text(sp.ret, w)), tm.EMPTY, elems(w))
            second = at_id(m.ret, i)
            other = tm.ite_seq(has_value(second), keep(opt_value(second)), tm.EMPTY) if mf.op == 'Not' else tm.EMPTY
            return tm.ite_seq(has_value(one), keep(opt_value(one)), other)
        toks = each(length(ids), lambda k: texts(at(ids, k)))
        for dn, df in (('with a decoder', Not(isnull(dec))), ('without a decoder', isnull(dec))):
            what = 'decode %s and %s' % (mn, dn)
            fs = [Not(isnull(av)), mf, df]
            ctx.did('configurations of decode', what)
            out = toks
            if df.op == 'Not':
                calls = [t for t in tm.all_subterms(s.ret) if t.op == 'App' and t.a[0] == 'virt:Decoder::decode_chain']
                if not calls:
                    if ev.unknowns(s.ret) or j.skipped(s.ret, ids):
                        ctx.unknown(what, s.where, 'parts not followed')
                    else:
                        ctx.refuted(what, s.where, 'the decoder is never called')
                    continue
                out = app('virt:Decoder::decode_chain', (tm.mk('Deref', dec), toks), calls[0].a[2])
            want = each(length(out), lambda k: at(out, k))
            j.same(what, s.where, refine(s.ret, fs), refine(want, fs), fs)


def optional(j, what, s, has, val):
    j.same(what + ': found', s.where, has_value(s.ret), has)
    j.same(what + ': text', s.where, opt_value(refine(s.ret, [has])), val, [has])
