"""C01: the seven arrays of an encoding always have equal length."""
from prop import *
import terms as tm
import c28

META = {'technique': 'value-graph analysis: length terms of the seven arrays, stage by stage, under the equal-length contract', 'level': 'proof', 'min': 8,
        'note': 'Assume-guarantee: each stage is given encodings (and templates whose special tokens list as many ids as texts) with equal lengths, and must '
                'return the same; a stage may rely on it only for the encodings another stage returned, and must hand on only such encodings.',
        'explanation': 'for each stage that returns an encoding the lengths of the seven arrays are computed as terms over its inputs and compared; so '
                       'are those of a generic overflow window, and of every encoding the stage hands to another stage'}

# the stages whose results the library hands out or passes on; whatever else they call is followed into
STAGES = ('Tokenizer::encode', 'Tokenizer::do_tokenize', 'Tokenizer::do_post_process', 'into_encoding', 'truncate', 'pad',
          'Truncation::truncate_encoding', 'Padding::pad_encoding')


def stages(prog):
    out = []
    for f in prog.functions.values():
        if f.get('body') is None or f.get('rt') is None or prog.type(f['unit'], f['rt']).get('cls') != 'Encoding':
            continue
        if f['qn'] in STAGES or f['qn'].split('::')[-1] == 'process' and f.get('cls'):
            out.append(f)
    return sorted(out, key=lambda f: (f['file'], f['l']))


def run(ctx):
    ctx.rule('stage(e): |ids| = |type_ids| = |tokens| = |words| = |offsets| = |special_tokens_mask| = |attention_mask| in the result and in overflow window k, '
             'given the same for every encoding that enters the stage')
    fs = stages(ctx.prog)
    names = {'=' + f['qn'] for f in fs}
    apps = {k + n for k in ('call:', 'virt:') for n in {f['qn'] for f in fs} | {c + '::process' for c in ctx.prog.class_by_qn}}
    for f in fs:
        stage(ctx, f, names - {'=' + f['qn']}, apps)


def quiet(prog):
    """what makes the text into pieces comes before there is an encoding"""
    out = set()
    for f in prog.functions.values():
        if f.get('rt') is not None and prog.type(f['unit'], f['rt']).get('cls') == 'PreTokenizedString' and 'Encoding' not in repr([prog.type(f['unit'], q['t']) for q in f['params']]):
            out.add('=' + f['qn'])
    return out


def stage(ctx, f, others, apps):
    j = Job(ctx, opaque={'bytes_char'} | quiet(ctx.prog) | others)
    j.known |= apps
    us = [q['n'] for q in f['params'] if ctx.prog.type(f['unit'], q['t']).get('cls') == 'Encoding']
    encs = [sym(n, ('rec', 'Encoding')) for n in us]
    facts = [x for e in encs for x in equal_lengths(e)]
    facts += [forall(length(fld(e, 'overflowing')), lambda k: And(*equal_lengths(at(fld(e, 'overflowing'), k)))) for e in encs]
    s = j.summ(f, facts=facts)
    if s is None or s.ret is None:
        return
    encs = [s.params[n] for n in us]
    n = f['qn']
    ctx.did('stages', n)
    r = s.ret
    check(ctx, j, '%s: the seven arrays have equal length' % n, s.where, r, encs, apps, [])
    k = sym('k', 'int')
    ov = fld(r, 'overflowing')
    win = at(ov, k)
    check(ctx, j, '%s: so do those of every overflow window' % n, s.where, win, encs, apps, [le(I(0), k), lt(k, length(ov))])
    handed = {}
    for t in tm.all_subterms(r):
        if t.op == 'App' and t.a[0] in apps:
            for a in t.a[1]:
                if a.op not in ('Clo',) and is_enc(a):
                    handed[a] = t
    for a, t in handed.items():
        if not trusted(a, encs, apps):
            check(ctx, j, '%s: the encoding handed to %s is in order' % (n, t.a[0][5:]), s.where, a, encs, apps, [])


def is_enc(t):
    if t.op in ('Ite', 'IteS'):
        return is_enc(t.a[1]) or is_enc(t.a[2])
    return t.op == 'Rec' and t.a[0] == 'Encoding' or t.op == 'With' and is_enc(t.a[0])


def trusted(t, encs, apps):
    if t in encs:
        return True
    if t.op == 'App':
        return t.a[0] in apps
    if t.op in ('Ite', 'IteS'):
        return trusted(t.a[1], encs, apps) and trusted(t.a[2], encs, apps)
    if t.op == 'Fold':
        v, acc = tm.fresh('i', 'J'), tm.fresh('acc', '')
        return trusted(t.a[1], encs, apps) and trusted(tm.open_bv(t.a[3], t.a[2], v, (acc,)), encs + [acc], apps)
    return t.op == 'At' and t.a[0].op == 'Fld' and t.a[0].a[1] == 'overflowing' and trusted(t.a[0].a[0], encs, apps)


def norm(t, encs, apps):
    """t with the lengths the contract makes equal written alike"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Len' and r.a[0].op == 'IteS':
                c, a, b = r.a[0].a
                r = tm.ite(c, f(length(a)), f(length(b)))
            if r.op == 'Len' and r.a[0].op == 'Fld':
                e, a = r.a[0].a
                if a in ARRAYS and a != 'ids' and trusted(e, encs, apps):
                    r = length(fld(e, 'ids'))
                elif a == 'tokens' and e.op == 'At' and e.a[0].op == 'Fld' and e.a[0].a[1] == 'special_tokens':
                    r = length(fld(e, 'ids'))
            memo[x] = r
        return r
    return f(t)


def check(ctx, j, what, where, e, encs, apps, facts):
    if tm.inconsistent(facts):
        return ctx.proved(what, where, 'there is none')
    if not trusted(e, encs, apps):
        e = refine(e, facts)
    if trusted(e, encs, apps):
        return ctx.proved(what, where, 'an encoding another stage returned, as it is')
    ls = [norm(length(fld(e, a)), encs, apps) for a in ARRAYS]
    sts = fld(sym('this', ''), 'special_tokens')
    given = facts + [x for p in encs for x in equal_lengths(p)]
    given += [forall(length(fld(p, 'overflowing')), lambda k: And(*equal_lengths(at(fld(p, 'overflowing'), k)))) for p in encs]
    if all(x is ls[0] or prove_eq(x, ls[0], facts) for x in ls[1:]):
        return ctx.proved(what, where, 'each has length %s' % tm.show(ls[0])[:150])
    gens = {'Encoding': gen_nested, 'TemplateProcessing': c28.gen_template}
    for a, x in list(zip(ARRAYS, ls))[1:]:
        if x is ls[0] or prove_eq(x, ls[0], facts):
            continue
        j.same(what + ' (%s)' % a, where, length(fld(e, a)), length(fld(e, 'ids')), given, gens=gens, apps={n: gen_app for n in apps})


def gen_nested(m, r, d=0):
    return gen_encoding()(m, r, d)


def gen_app(m, args):
    import random
    import zlib
    k = ('enc01', repr(args))
    if k not in m.memo:
        m.memo[k] = gen_encoding()(m, random.Random(zlib.crc32(repr(k).encode()) ^ m.seed))
    return m.memo[k]
