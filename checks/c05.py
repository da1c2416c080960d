"""C05: every configuration option reaches its own setting, with a neutral default."""
import core
import factory as fa
from factory import *

META = {'technique': 'value-graph equivalence of loaded settings with configuration options; effect analysis of setting uses', 'level': 'proof', 'min': 30,
        'note': 'The correspondence of options and settings is the documented format, given in lib/factory.py. Conversions of numbers to int are '
                'taken as value preserving.',
        'explanation': 'for each component the value graph of its factory gives every setting as a function of the configuration; it must equal the '
                       'option of that name, or the neutral value if that is null; every setting must be read by the operations of its class'}


def run(ctx):
    j = Job(ctx)
    ctx.rule('setting = option of its own name, unchanged; neutral value (empty, 0, false; accent stripping: lowercase) for null')
    ctx.rule('every setting is read by a function of the library other than the constructors and the factory')
    for fac, table in list(FACTORIES.items()) + [(k, {'': v}) for k, v in PLAIN.items()]:
        s = j.summ(fac)
        if s is None:
            continue
        par = list(s.params.values())[0]
        for name, v in table.items():
            if not v:
                continue
            facts = [named(par, name)] if name else []
            for t, fs in leaves(s.ret, facts):
                if cls_of(t) != v[0]:
                    continue
                for field, want in v[1].items():
                    setting(ctx, j, s, v[0], field, t.a[0], want(par), fs)
                if v[0] == 'TemplateProcessing':
                    template(ctx, j, s, t.a[0], par, fs)
                if v[0] == 'SplitPreTokenizer':
                    b = get(par, 'behavior')
                    iso = j.const('get_split_delimiter_behavior', 'Isolated')
                    if iso is not None:
                        for nm in ('Isolated', 'Removed'):
                            c = j.const('get_split_delimiter_behavior', nm)
                            setting(ctx, j, s, v[0], 'behavior', t.a[0], c, fs + [Not(null(b)), eq(text(b), tm.lits(nm))], ' for "%s"' % nm)
                if v[0] in ('BPE', 'WordPiece'):
                    vocab(ctx, j, s, v[0], t.a[0], par, fs)
                if v[0] in ('Truncation', 'Padding'):
                    enums(ctx, j, s, v[0], t.a[0], par, fs)
    sections(ctx, j)
    added(ctx, j)
    used(ctx, j)


def setting(ctx, j, s, cls, field, obj, want, facts, more=''):
    what = 'setting %s of %s%s' % (field, cls, more)
    names = [n for n, _ in obj.a[1]]
    if want is None:
        return ctx.unknown(what, s.where, 'expected value not found')
    if field not in names:
        for n in names:
            if prove_eq(fld(obj, n), want, facts):
                return ctx.proved(what, s.where, 'held in ' + n)
        return ctx.unknown(what, s.where, 'no field of this name')
    j.same(what, s.where, fld(obj, field), want, facts)
    ctx.did('settings', '%s::%s' % (cls, field))


def enums(ctx, j, s, cls, obj, par, facts):
    pre = 'get_' + cls.lower() + '_'
    for opt, names in (('direction', ('Left', 'Right')), ('strategy', ('LongestFirst', 'OnlyFirst', 'OnlySecond') if cls == 'Truncation' else ('BatchLongest',))):
        for nm in names:
            o = get(par, opt)
            fs = facts + [Not(null(o)), eq(text(o), tm.lits(nm))]
            if cls == 'Padding' and opt == 'strategy':
                fs.append(Not(isobj(o)))
            setting(ctx, j, s, cls, opt, obj, j.const(pre + opt, nm), fs, ' for "%s"' % nm)
    if cls == 'Padding':
        o = get(par, 'strategy')
        fs = facts + [Not(null(o)), isobj(o), eq0(sub(tm.mk('JLen', o), I(1))), eq(tm.mk('JKey', tm.mk('JField', o, I(0))), tm.lits('Fixed'))]
        setting(ctx, j, s, cls, 'strategy', obj, j.const(pre + 'strategy', 'Fixed'), fs, ' for "Fixed"')
        setting(ctx, j, s, cls, 'fixed_size', obj, num(tm.mk('JField', o, I(0))), fs, ' for "Fixed"')


def vocab(ctx, j, s, cls, obj, par, facts):
    """lookup of any text in the vocabulary = first member of that name"""
    o = get(par, 'vocab')
    if 'vocab' not in [n for n, _ in obj.a[1]]:
        return ctx.unknown('vocabulary of ' + cls, s.where, 'no field of this name')
    v = fld(obj, 'vocab')
    j.same('vocabulary of %s for null' % cls, s.where, refine(v, facts + [null(o)]), tm.mk('Map', ()), facts + [null(o)])
    i = tm.fresh('i', 'J')
    acc = tm.fresh('m', '')
    f = tm.mk('JField', o, i)
    key = tm.mk('JKey', f)
    want = tm.fold(tm.mk('JLen', o), tm.mk('Map', ()), i, acc, tm.mk('PutIf', acc, Not(tm.m_has(acc, key)), key, num(f)))
    fs = facts + [Not(null(o))]
    got = refine(v, fs)
    j.same('vocabulary of %s' % cls, s.where, got, want, fs)


def template(ctx, j, s, obj, par, facts):
    o = get(par, 'single')

    def pieces(i):
        a = tm.mk('JAt', o, i)
        return each(tm.mk('JLen', a), lambda k: elems(pair(tm.mk('JKey', tm.mk('JField', a, k)),
                    tm.rec('Piece', [('id', text(get(tm.mk('JField', a, k), 'id'))), ('type_id', num(get(tm.mk('JField', a, k), 'type_id')))]))))
    setting(ctx, j, s, 'TemplateProcessing', 'single', obj, tm.ite_seq(null(o), tm.EMPTY, each(tm.mk('JLen', o), pieces)), facts)
    t = get(par, 'special_tokens')

    def special(i):
        v = tm.mk('JField', t, i)
        ids, toks = get(v, 'ids'), get(v, 'tokens')
        return elems(tm.rec('SpecialToken', [
            ('id', text(get(v, 'id'))),
            ('ids', each(tm.mk('JLen', ids), lambda k: elems(num(tm.mk('JAt', ids, k))))),
            ('tokens', each(tm.mk('JLen', toks), lambda k: elems(text(tm.mk('JAt', toks, k)))))]))
    setting(ctx, j, s, 'TemplateProcessing', 'special_tokens', obj, tm.ite_seq(null(t), tm.EMPTY, each(tm.mk('JLen', t), special)), facts)


def sections(ctx, j):
    s, r = tokenizer_built(j)
    if s is None:
        return
    doc = None
    for x in tm.all_subterms(r):
        if x.op == 'JGet' and x.a[0].op == 'App' and x.a[0].a[0] == 'json':
            doc = x.a[0]
    if r.op != 'Rec' or doc is None:
        return ctx.unknown('sections of the configuration', s.where, 'tokenizer object not followed: ' + tm.show(r)[:100])
    path, conf = list(s.params.values())[:2]
    names = [n for n, _ in r.a[1]]
    for field, fac in SECTIONS.items():
        key = 'added_tokens' if field == 'added_vocabulary' else field
        if field not in names:
            ctx.unknown('section %s of the configuration' % key, s.where, 'no field of this name')
            continue
        o = get(doc, key)
        td = next((x.a[2] for x in tm.all_subterms(r) if x.op == 'App' and x.a[0] == 'call:' + fac), None)
        if td is None:
            ctx.refuted('section %s of the configuration' % key, s.where, '%s is never called' % fac) if not ev.unknowns(r) else \
                ctx.unknown('section %s of the configuration' % key, s.where, 'parts not followed')
            continue
        j.same('section %s of the configuration' % key, s.where, fld(r, field), app('call:' + fac, (o,), td),
               [Not(null(o))] + ([Not(tm.mk('IsNull', app('call:' + fac, (o,), td)))] if field == 'added_vocabulary' else []))
        if field != 'added_vocabulary':
            j.same('section %s left null' % key, s.where, fld(r, field), tm.NULL, [null(o)])


ADDED = {'content': text, 'single_word': flag, 'lstrip': flag, 'rstrip': flag, 'normalized': flag, 'special': flag}


def added(ctx, j):
    """an added token's flags: the member of the flag's own name"""
    s = j.summ('with_added_vocabulary')
    if s is None:
        return
    par = list(s.params.values())[0]
    r = s.ret
    if r.op != 'Box' or r.a[0].op != 'Rec' or 'added_tokens' not in [n for n, _ in r.a[0].a[1]]:
        return ctx.unknown('options of added tokens', s.where, 'object not followed')
    lst = fld(r.a[0], 'added_tokens')
    j.same('number of added tokens', s.where, length(lst), tm.mk('JLen', par))
    k = sym('k', 'int')
    obj = tm.mk('JAt', par, k)
    n = tm.mk('JLen', obj)
    i0 = sym('i0', 'int')
    base = [le(I(0), k), lt(k, tm.mk('JLen', par))]
    el = refine(at(lst, k), base)
    for f, conv in ADDED.items():
        # the object's i0-th member, and no other, has this name
        fs = base + [le(I(0), i0), lt(i0, n), eq(tm.mk('JKey', tm.mk('JField', obj, i0)), tm.lits(f)),
                     forall(n, lambda q: Or(eq0(sub(q, i0)), Not(eq(tm.mk('JKey', tm.mk('JField', obj, q)), tm.lits(f)))))]
        got = fld(el, f)
        want = conv(tm.mk('JField', obj, i0))
        ok = j.same('option %s of an added token' % f, s.where, got, want, fs)
        if ok != core.PROVED:
            # the same for objects of two members, which leaves nothing to quantify over
            for g in ADDED:
                if g == f:
                    continue
                for a, b in ((0, 1), (1, 0)):
                    ks = [eq(tm.mk('JKey', tm.mk('JField', obj, I(a))), tm.lits(f)), eq(tm.mk('JKey', tm.mk('JField', obj, I(b))), tm.lits(g))]
                    j.same('option %s of an added token with %s' % (f, g), s.where, refine(unrolled(subst(got, {n: I(2)})), ks), conv(tm.mk('JField', obj, I(a))),
                           base + ks + [eq0(sub(n, I(2)))])
        no = base + [forall(n, lambda q: Not(eq(tm.mk('JKey', tm.mk('JField', obj, q)), tm.lits(f))))]
        dflt = tm.EMPTY if f == 'content' else FALSE
        if f == 'normalized':
            continue
        j.same('option %s of an added token, left out' % f, s.where, got, dflt, no)


UNUSED = {('TemplateProcessing', 'pair'), ('AddedToken', 'id'), ('SpecialToken', 'id')}


def used(ctx, j):
    """each setting of a configurable component is read somewhere outside construction"""
    p = ctx.prog
    want = {}
    for table in FACTORIES.values():
        for v in table.values():
            if v:
                for f in v[1]:
                    want[(v[0], f)] = 0
    for cls, fs in PLAIN.values():
        for f in fs:
            want[(cls, f)] = 0
    for f in ('direction', 'strategy', 'fixed_size'):
        want[('Padding', f)] = 0
    for f in ('direction', 'strategy'):
        want[('Truncation', f)] = 0
    want[('TemplateProcessing', 'single')] = want[('TemplateProcessing', 'special_tokens')] = want[('SplitPreTokenizer', 'behavior')] = 0
    for f in ADDED:
        want[('AddedToken', f)] = 0
    for fn in p.functions.values():
        if fn.get('body') is None or fn.get('ctor') or fn['n'].startswith('with_'):
            continue
        for e, read in member_reads(fn['body'], False):
            k = ((e.get('cls') or '').split('::')[-1], e.get('f'))
            if k in want and read:
                want[k] += 1
    for (c, f), n in sorted(want.items()):
        k = p.class_by_qn.get(c)
        if k is None or f not in [x['n'] for x in k['fields']]:
            continue
        what = '%s::%s is used' % (c, f)
        if n:
            ctx.proved(what, '%s:%s in %s' % (k.get('file', ''), k.get('l', ''), c), '%d reads' % n)
        else:
            ctx.refuted(what, '%s:%s in %s' % (k.get('file', ''), k.get('l', ''), c), 'no operation reads this setting')


def member_reads(n, lhs):
    """member accesses and whether they read the value (not merely the left side of an assignment)"""
    if isinstance(n, list):
        for x in n:
            yield from member_reads(x, False)
        return
    if not isinstance(n, dict):
        return
    k = n.get('k')
    if k == 'Mem':
        yield n, not lhs
    if k == 'Bin' and n.get('op') == '=':
        yield from member_reads(n.get('a'), True)
        yield from member_reads(n.get('b'), False)
        return
    if k == 'MCall' and n.get('n') == 'operator=':
        yield from member_reads(n.get('o'), True)
        yield from member_reads(n.get('args'), False)
        return
    for v in n.values():
        if isinstance(v, (dict, list)):
            yield from member_reads(v, False)
