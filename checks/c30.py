"""C30: trimming byte-level offsets stays inside the token."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence and entailment on byte-level post-processing', 'level': 'proof', 'min': 20,
        'note': 'A token is at the start of the text if it is the first of its window or its range starts at 0, as in the reference format. Where a '
                'range ends before the number of trailing spaces (only ranges that are no text positions) only the bounds are decided.',
        'explanation': 'the offsets computed for token i of the encoding, and of overflow window k, are compared with the trimmed range counted by '
                       'first non-space from either end; the bounds are derived from the computed terms; every other field must be unchanged'}

G = 'Ġ'.encode()


def gen(m, r, d=0):
    e = gen_encoding()(m, r, d)

    def fix(e):
        f = dict(e.f)
        f['tokens'] = tuple((tuple(b - 256 for b in G) * r.choice((0, 0, 1, 1, 2)) + t[:1] * r.choice((0, 1, 1)) + tuple(b - 256 for b in G) * r.choice((0, 0, 1, 2)))
                            for t in f['tokens'])
        offs = []
        for _ in f['offsets']:
            a = r.choice((0, 0, 1, 2, 5))
            offs.append(ev.Rv('std::pair', {'first': a, 'second': a + r.choice((0, 1, 2, 3, 6))}))
        f['offsets'] = tuple(offs)
        f['overflowing'] = tuple(fix(x) for x in f['overflowing'])
        return ev.Rv(e.cls, f)
    return fix(e)


def gen_self(m, r, d=0):
    return ev.Rv('ByteLevelProcessing', {'add_prefix_space': r.random() < 0.5, 'trim_offsets': r.random() < 0.7,
                                         'BYTES_CHAR': ev.Mv([(32, tuple(b - 256 for b in G)), (33, (33,))]), '$id': 0})


GENS = {'Encoding': gen, 'ByteLevelProcessing': gen_self}


def run(ctx):
    ctx.rule('trimming off: the encoding is returned as it is')
    ctx.rule('lead(t), trail(t) = number of space characters (byte-level alphabet, U+0120) before the first / after the last other character')
    ctx.rule('first\' = min(first + lead, second), but first if lead = 1, a prefix space was added and the token is at the start; '
             'second\' = max(second - trail, first\'); first <= first\' <= second\' <= second')
    ctx.rule('no other field changes, in the encoding and in every overflow window')
    j = Job(ctx)
    s = j.summ('ByteLevelProcessing::process')
    if s is None:
        return
    names = rec_fields(ctx.prog, 'ByteLevelProcessing')
    ps = list(s.params.values())
    enc, this = ps[0], sym('this', '')
    trim, add = fld(this, 'trim_offsets'), fld(this, 'add_prefix_space')
    if 'trim_offsets' not in names or 'add_prefix_space' not in names:
        return ctx.unknown('trimming', s.where, 'settings not found')
    w = s.where
    lit = elems(*[I(b - 256) for b in G])
    base = []
    # members no setting reaches have the value the constructor gives them; the alphabet maps 32 to U+0120 (C12)
    consts = {}
    c = j.summ('ByteLevelProcessing::ByteLevelProcessing')
    for n in names if c is not None else ():
        v = fld(c.ret, n)
        if not (tm.syms(v) & set(c.params.values())) and not ev.unknowns(v):
            consts[fld(this, n)] = v
    ret = subst(s.ret, consts)
    space = {}
    for t in tm.all_subterms(ret):
        if t.op in ('Get', 'Has') and t.a[0].op == 'App' and t.a[0].a[0] == 'call:bytes_char' and t.a[1] is I(32):
            space[t] = lit if t.op == 'Get' else TRUE
    ret = chars(subst(ret, space))
    j.same('trimming off changes nothing', w, ret, enc, base + [Not(trim)], gens=GENS)
    on = base + [trim]
    fields = rec_fields(ctx.prog, 'Encoding')

    def counts(tok):
        u = tm.mk('FromUTF8', tok)
        n = length(u)
        sp = lambda a: eq(at(u, a), I(288))
        lead = first(n, lambda q: Not(sp(q)))
        trail = first(n, lambda q: Not(sp(tm.sub(tm.sub(n, q), I(1)))))
        return lead, trail

    def trimmed(e, i):
        o = at(fld(e, 'offsets'), i)
        a, b = fld(o, 'first'), fld(o, 'second')
        lead, trail = counts(at(fld(e, 'tokens'), i))
        keep = And(add, eq(lead, I(1)), Or(eq(i, I(0)), eq(a, I(0))))
        a2 = tm.Ite(keep, a, tm.tmin(tm.add(a, lead), b))
        return pair(a2, tm.tmax(tm.sub(b, trail), a2))

    def ordered(e):
        off = fld(e, 'offsets')

        def good(i):
            a, b = fld(at(off, i), 'first'), fld(at(off, i), 'second')
            return And(le(I(0), a), le(a, b))
        return forall(length(off), good)

    def enough(e):
        off = fld(e, 'offsets')
        return forall(length(off), lambda i: le(counts(at(fld(e, 'tokens'), i))[1], fld(at(off, i), 'second')))

    def encoding(e, got, lab, fs):
        eqs = equal_lengths(e)
        i = sym('i', 'int')
        o = at(fld(e, 'offsets'), i)
        a, b = fld(o, 'first'), fld(o, 'second')
        inside = [le(I(0), i), lt(i, length(fld(e, 'ids'))), le(I(0), a), le(a, b)]
        for f in fields:
            if f not in ('offsets', 'overflowing'):
                j.same('%s of %s unchanged' % (f, lab), w, fld(got, f), fld(e, f), fs + eqs, gens=GENS)
        j.same('number of offsets of %s' % lab, w, length(fld(got, 'offsets')), length(fld(e, 'offsets')), fs + eqs, gens=GENS)
        x = chars(refine(at(fld(got, 'offsets'), i), fs + eqs + inside))
        trail = counts(at(fld(e, 'tokens'), i))[1]
        for h in ('first', 'second'):
            j.same('%s of range i of %s' % (h, lab), w, fld(x, h), fld(trimmed(e, i), h), fs + eqs + inside + [le(trail, b)], gens=GENS)
        p, q = fld(x, 'first'), fld(x, 'second')
        for what, c in (('start not before the token', le(a, p)), ('start not after the end', le(p, q)), ('end not after the token', le(q, b))):
            j.holds('%s: %s' % (lab, what), w, c, fs + eqs + inside, gens=GENS)
    r = refine(ret, on)
    encoding(enc, r, 'the encoding', on)
    ov, got = fld(enc, 'overflowing'), fld(r, 'overflowing')
    j.same('every overflow window is kept', w, length(got), length(ov), on + equal_lengths(enc), gens=GENS)
    k = sym('k', 'int')
    fk = on + [le(I(0), k), lt(k, length(ov))]
    win = refine(at(got, k), fk)
    encoding(at(ov, k), win, 'overflow window k', fk)
    j.same('windows inside overflow window k', w, fld(win, 'overflowing'), fld(at(ov, k), 'overflowing'), fk, gens=GENS)


def chars(t):
    """comparing the UTF-8 form of one UTF-16 unit with a literal is comparing the unit (no literal here is U+FFFD)"""
    memo = {}

    def unit(x):
        if x.op == 'ToUTF8' and x.a[0].op == 'Slice' and tm.sub(x.a[0].a[2], x.a[0].a[1]) is I(1):
            return at(x.a[0].a[0], x.a[0].a[1])
        return None

    def code(x):
        ss = tm.segs(x) if x.op in ('Seq', 'Elems') else ()
        if len(ss) == 1 and ss[0].op == 'Elems' and all(y.op == 'Int' for y in ss[0].a[0]):
            x = ss[0]
            try:
                c = bytes(y.a[0] & 255 for y in x.a[0]).decode()
            except UnicodeDecodeError:
                return None
            return I(ord(c)) if len(c) == 1 and ord(c) < 0xD800 else None
        return None

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Eq':
                for p, q in ((0, 1), (1, 0)):
                    u, c = unit(r.a[p]), code(r.a[q])
                    if u is not None and c is not None:
                        r = eq(u, c)
                        break
            memo[x] = r
        return r
    return f(t)
