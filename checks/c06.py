"""C06: a sequence component applies all of its children, in order."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence with a left fold over the configured children', 'level': 'proof', 'min': 8,
        'note': 'The children are abstract: each call of a child is an uninterpreted function of the child and its argument, so the equality '
                'holds whatever the children do.',
        'explanation': 'for each of the four sequence classes the value graph of its operation is compared with the left fold of the children, '
                       'and the list of children its factory builds with the supported entries of the configured list'}

KINDS = [('SequenceNormalizer', 'normalize', 'Normalizer', 'with_normalizer', 'normalizers'),
         ('SequencePreTokenizer', 'pre_tokenize', 'PreTokenizer', 'with_pre_tokenizer', 'pretokenizers'),
         ('SequenceProcessing', 'process', 'PostProcessor', 'with_post_processor', 'processors'),
         ('SequenceDecoder', 'decode_chain', 'Decoder', 'with_decoder', 'decoders')]


def child_list(j, cls, base):
    """name of the field of cls that holds the children"""
    c = j.p.class_by_qn.get(cls)
    if c is None:
        return None
    e = vg.Engine(j.p)
    r = []
    for f in c['fields']:
        td = e.td(c['unit'], f['t'])
        if td[0] == 'seq' and td[1][0] in ('uptr', 'ptr') and base in str(td[1]):
            r.append(f['n'])
    return r[0] if len(r) == 1 else None


def run(ctx):
    j = Job(ctx)
    ctx.rule('operation(x, ...) = left fold over the list of children of child.operation(x, ...); no children: x')
    ctx.rule('factory: children = concatenation over the configured list, in order, of the built child where it is not null')
    for cls, op, base, fac, key in KINDS:
        f = child_list(j, cls, base)
        s = j.summ(cls + '::' + op)
        if s is None or f is None:
            if f is None:
                ctx.unknown('%s has one list of children' % cls, '', 'no such field')
            continue
        ps = list(s.params.values())
        x, rest = ps[0], tuple(ps[1:])
        kids = fld(sym('this', ''), f)
        i, acc = tm.fresh('i', 'J'), tm.fresh('acc', '')
        td = None
        for t in tm.all_subterms(s.ret):
            if t.op == 'App' and t.a[0] == 'virt:%s::%s' % (base, op):
                td = t.a[-1]
        if td is None:
            ctx.refuted('%s::%s calls its children' % (cls, op), s.where, 'no call of %s::%s in the value graph' % (base, op)) \
                if not ev.unknowns(s.ret) and not j.skipped(s.ret, x) else ctx.unknown('%s::%s calls its children' % (cls, op), s.where, 'parts not followed')
            continue
        step = app('virt:%s::%s' % (base, op), (tm.mk('Deref', at(kids, i)), acc) + rest, td)
        want = tm.fold(length(kids), x, i, acc, step)
        j.same('%s::%s threads its input through all children' % (cls, op), s.where, s.ret, want)
        none = [eq0(length(kids))]
        j.same('%s::%s without children returns its input' % (cls, op), s.where, s.ret, x, none)
        # factory
        s = j.summ(fac)
        if s is None:
            continue
        par = list(s.params.values())[0]
        facts = [eq(tm.mk('JStr', tm.mk('JGet', par, tm.lits('type'))), tm.lits('Sequence'))]
        r = refine(s.ret, facts)
        if r.op != 'Box' or not (r.a[0].op == 'Rec' and r.a[0].a[0] == cls):
            ctx.unknown('%s builds a %s for "Sequence"' % (fac, cls), s.where, 'value: ' + tm.show(r)[:200])
            continue
        lst = tm.mk('JGet', par, tm.lits(key))
        utd = None
        for t in tm.all_subterms(r):
            if t.op == 'App' and t.a[0] == 'call:' + fac:
                utd = t.a[-1]
        if utd is None:
            utd = ('uptr', ('rec', base))

        def child(i):
            return app('call:' + fac, (tm.mk('JAt', lst, i),), utd)
        want = each(tm.mk('JLen', lst), lambda i: tm.ite_seq(tm.mk('IsNull', child(i)), tm.EMPTY, elems(child(i))))
        j.same('children of %s as configured' % cls, s.where, fld(r.a[0], f), want, facts)
