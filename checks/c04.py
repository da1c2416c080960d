"""C04: every documented component name builds exactly that component."""
import factory as fa
from factory import *

META = {'technique': 'partial evaluation of the factories on every documented name', 'level': 'proof', 'min': 40,
        'note': 'The list of names and of the components they stand for is the documented format, given in lib/factory.py.',
        'explanation': 'the value graph of each factory is specialised to each documented type name: the class built must be the one of that name; '
                       'direction, strategy and behaviour names must select that behaviour in the value graphs of the operations'}


def run(ctx):
    j = Job(ctx)
    ctx.rule('factory specialised to type == name yields the class of that name on every path; for an unsupported name none of the other classes')
    ctx.rule('direction, strategy and behaviour names: the operation, specialised to the value the name is loaded as, acts on that side / in that way')
    for fac, table in FACTORIES.items():
        s = j.summ(fac)
        if s is None:
            continue
        par = list(s.params.values())[0]
        own = {v[0]: n for n, v in table.items() if v}
        for name, v in table.items():
            what = '%s for "%s"' % (fac, name)
            facts = [named(par, name)]
            bad = unk = None
            if inconsistent(facts + [Not(s.throw_guard())]):
                bad = ('raises', facts)
            for t, fs in leaves(s.ret, facts):
                c = cls_of(t)
                if c is None:
                    unk = 'value %s' % tm.show(t)[:120]
                elif v and c != v[0]:
                    bad = ('builds %s instead of %s' % (c or 'nothing', v[0]), fs)
                elif not v and c in own:
                    bad = ('builds %s, the component named "%s"' % (c, own[c]), fs)
            if bad and v and bad[0].startswith('builds nothing') and ev.unknowns(*bad[1]):
                unk = 'depends on parts not followed'
                bad = None
            if bad:
                m, ok = ev.witness(ctx.prog, j.symtd, Not(And(*bad[1])), facts, n=600, seed=ctx.seed)
                if m is None or ev.unknowns(*bad[1]):
                    ctx.unknown(what, s.where, bad[0] + ', on a path no interpretation reached')
                else:
                    ctx.refuted(what, s.where, bad[0])
            elif unk:
                ctx.unknown(what, s.where, unk)
            else:
                ctx.proved(what, s.where, 'builds %s on every path' % v[0] if v else 'builds none of the named components')
            ctx.did('type names', name)
    # directions and strategies, from the text in the configuration to what the operation does
    s, p = j.summ('with_padding'), j.summ('Padding::pad_encoding')
    if s and p:
        sides(ctx, j, s, p)
    s, t = j.summ('with_truncation'), j.summ('Truncation::truncate_encoding')
    if s and t:
        cuts(ctx, j, s, t)
    s, f = j.summ('with_pre_tokenizer'), j.summ('split_normalized')
    if s and f:
        behaviours(ctx, j, s, f)


def loaded(j, s, facts, field):
    par = list(s.params.values())[0]
    r = refine(s.ret, facts)
    if r.op != 'Box':
        return None
    return refine(subst(fld(r.a[0], field), fixed_ints(facts)), facts)


def sides(ctx, j, s, p):
    par = list(s.params.values())[0]
    enc = list(p.params.values())[0]
    this = sym('this', '')
    n = length(fld(enc, 'ids'))
    for dname in ('Left', 'Right'):
        d = get(par, 'direction')
        dv = loaded(j, s, [Not(null(d)), eq(text(d), tm.lits(dname))], 'direction')
        st = get(par, 'strategy')
        for sname in ('Fixed', 'BatchLongest'):
            if sname == 'Fixed':
                fs = [Not(null(st)), isobj(st), eq0(sub(tm.mk('JLen', st), I(1))), eq(tm.mk('JKey', tm.mk('JField', st, I(0))), tm.lits('Fixed'))]
            else:
                fs = [Not(null(st)), Not(isobj(st)), eq(text(st), tm.lits('BatchLongest'))]
            sv_ = loaded(j, s, fs, 'strategy')
            what = 'direction "%s", strategy "%s" of padding' % (dname, sname)
            if dv is None or sv_ is None:
                ctx.unknown(what, s.where, 'settings direction / strategy not found')
                continue
            facts = [eq(fld(this, 'direction'), dv), eq(fld(this, 'strategy'), sv_), le(fld(this, 'pad_to_multiple_of'), I(0))] + equal_lengths(enc)
            pad = fill(sub(fld(this, 'fixed_size'), n), fld(this, 'pad_id'))
            if sname == 'Fixed':
                facts = facts + [lt(n, fld(this, 'fixed_size'))]
                want = cat(pad, fld(enc, 'ids')) if dname == 'Left' else cat(fld(enc, 'ids'), pad)
            else:
                want = fld(enc, 'ids')
            j.same(what, p.where, fld(p.ret, 'ids'), want, facts, gens={'Encoding': gen_encoding()})


def cuts(ctx, j, s, t):
    par = list(s.params.values())[0]
    enc = list(t.params.values())[0]
    this = sym('this', '')
    n = length(fld(enc, 'ids'))
    mx, stride = fld(this, 'max_length'), fld(this, 'stride')
    for dname in ('Left', 'Right'):
        d = get(par, 'direction')
        dv = loaded(j, s, [Not(null(d)), eq(text(d), tm.lits(dname))], 'direction')
        for sname in ('LongestFirst', 'OnlyFirst', 'OnlySecond'):
            k = get(par, 'strategy')
            kv = loaded(j, s, [Not(null(k)), eq(text(k), tm.lits(sname))], 'strategy')
            what = 'direction "%s", strategy "%s" of truncation' % (dname, sname)
            if dv is None or kv is None:
                ctx.unknown(what, s.where, 'settings direction / strategy not found')
                continue
            facts = [eq(fld(this, 'direction'), dv), eq(fld(this, 'strategy'), kv), le(I(0), stride), lt(stride, mx), lt(mx, n)] + equal_lengths(enc)
            ids = fld(enc, 'ids')
            if sname == 'OnlySecond':
                continue
            want = mk_slice(ids, sub(n, mx), n) if dname == 'Left' else mk_slice(ids, I(0), mx)
            j.same(what, t.where, fld(t.ret, 'ids'), want, facts, gens={'Encoding': gen_encoding()})


def behaviours(ctx, j, s, f):
    par = list(s.params.values())[0]
    ps = list(f.params.values())
    if len(ps) != 3:
        return ctx.unknown('behaviours of splitting', f.where, 'other parameters')
    call = None
    for x in tm.all_subterms(f.ret):
        if x.op == 'App' and x.a[0] == 'callfn':
            call = x
    if call is None:
        return ctx.unknown('behaviours of splitting', f.where, 'no call of the split function')
    b = get(par, 'behavior')
    for name in ('Isolated', 'Removed'):
        v = loaded(j, s, [named(par, 'Split'), Not(null(b)), eq(text(b), tm.lits(name))], 'behavior')
        what = 'behavior "%s" of splitting' % name
        if v is None:
            ctx.unknown(what, s.where, 'setting not found')
            continue
        facts = [eq(ps[2], v)]
        if name == 'Isolated':
            want = length(call)
        else:
            want = length(each(length(call), lambda i: tm.ite_seq(fld(at(call, i), 'second'), tm.EMPTY, elems(I(1)))))
        gm = lambda m, args: tuple(ev.Rv('std::pair', {'first': ev.Rv('std::pair', {'first': 0, 'second': 0}), 'second': bool(m.r.random() < 0.5)})
                                   for _ in range(m.r.randint(0, 4)))
        j.same(what, f.where, length(f.ret), want, facts, apps={'callfn': memo_app(gm)})


def memo_app(g):
    def f(m, args):
        k = ('memo', repr(args))
        if k not in m.memo:
            m.memo[k] = g(m, args)
        return m.memo[k]
    return f
