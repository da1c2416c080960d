"""C17: a recognised added token stays one token with its own id."""
from prop import *
import terms as tm
import c07
import cg

META = {'technique': 'value-graph analysis of every stage under the fact that a piece already carries tokens', 'level': 'proof', 'min': 8,
        'note': 'Which stretches of text are recognised is N04. Offsets of pieces are N01; what a splitting pattern matches is left open.',
        'explanation': 'each pre-tokenizer yields, among the pieces that carry tokens, exactly those it was given; each model leaves them as they '
                       'are; extraction gives a recognised stretch one token and never normalises it; collection copies every token once'}
SPLITN = 'split_normalized'


def toks(s):
    return fld(s, 'tokens')


def has(s):
    return Not(eq0(length(toks(s))))


def proj(s):
    return tm.rec('piece', [('tokens', toks(s)), ('normalized', fld(s, 'normalized'))])


def u8(s):
    return tuple(s.encode('utf-8'))


def gen_split(m, r, d=0):
    w = u8(r.choice(('', 'a', ' a', 'a b', 'x,y', '[X]', "it's", 'é', '中 é,')))
    tok = lambda: ev.Rv('Token', {'id': r.randint(0, 9), 'value': r.choice((w, w, u8('[V]'), ())), 'offsets': ev.Rv('std::pair', {'first': 0, 'second': len(w)}), '$id': 0})
    a = r.randint(0, 5)
    return ev.Rv('Split', {'normalized': w, 'offsets': ev.Rv('std::pair', {'first': a, 'second': a + len(w)}),
                           'tokens': (tok(),) if r.random() < .5 else (), '$id': 0})


def gen_pre(m, r, d=0):
    n = r.randint(0, 4)
    if m.big and r.random() < .5:
        n = m.big + 1
    w = tuple(r.choice((97, 32, 98)) for _ in range(r.randint(0, 4)))
    ns = ev.Rv('NormalizedString', {'normalized': w, 'offsets': tuple(ev.Rv('std::pair', {'first': i, 'second': i + 1}) for i in range(len(w))),
                                    'offset_ranges': tuple(ev.Rv('std::pair', {'first': i, 'second': 1}) for i in range(len(w))), '$id': 0})
    return ev.Rv('PreTokenizedString', {'normalized': ns, 'splits': tuple(gen_split(m, r) for _ in range(n)), '$id': 0})


GENS = {'Split': gen_split, 'PreTokenizedString': gen_pre}


def cut(m, args):
    """some pieces without tokens, whatever the pattern"""
    import random
    import zlib
    k = ('cut', repr(args))
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        out = []
        for _ in range(r.randint(0, 3)):
            w = u8(r.choice(('a', ' ', 'b c', '')))
            out.append(ev.Rv('Split', {'normalized': w, 'offsets': ev.Rv('std::pair', {'first': 0, 'second': len(w)}), 'tokens': (), '$id': 0}))
        m.memo[k] = tuple(out)
    return m.memo[k]


def spans(m, args):
    """what a splitting function may answer"""
    import random
    import zlib
    k = ('spans', repr(args))
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        m.memo[k] = tuple(ev.Rv('std::pair', {'first': ev.Rv('std::pair', {'first': i, 'second': i + 1}), 'second': r.random() < .5})
                          for i in range(r.randint(0, 3)))
    return m.memo[k]


APPS = {'call:' + SPLITN: cut, 'callfn': spans}


def run(ctx):
    ctx.rule('pre-tokenizers: the pieces with tokens that come out are, in order, exactly the pieces with tokens that went in')
    ctx.rule('models: piece i comes out with the tokens and the text it had, if it had tokens')
    ctx.rule('chain: the parts one after the other and nothing else')
    p = ctx.prog
    c07.extract(ctx)
    j0 = Job(ctx)
    # pieces newly cut carry no tokens
    opq = {'bytes_char'}
    f = j0.fns(SPLITN)
    if len(f) == 1:
        s = j0.summ(f[0])
        if s is not None and s.ret is not None:
            what = 'pieces newly cut carry no tokens'
            ps = pieces(s.ret)
            if all(toks(x) is tm.EMPTY for x in ps):
                ctx.proved(what, s.where, 'all %d constructions of a piece leave its tokens empty' % len(ps))
            else:
                j0.same(what, s.where, each(length(s.ret), lambda k: toks(at(s.ret, k))), tm.EMPTY, gens=GENS, apps=APPS)
            opq |= {SPLITN, 'find_matches'}
    for base, meth in (('PreTokenizer', 'pre_tokenize'), ('Model', 'tokenize')):
        bc = p.class_by_qn.get(base)
        if bc is None:
            ctx.unknown('components', '', base + ' not found')
            continue
        for u in sorted(p.subclasses(bc['usr']), key=lambda u: p.classes[u]['qn']):
            cls = p.classes[u]['qn']
            for fn in j0.fns(cls + '::' + meth):
                ctx.did('components', cls)
                (pre if base == 'PreTokenizer' else model)(ctx, cls, fn, opq)
    collect(ctx, j0)


def pieces(t):
    """the elements a list is built of (one stands for all those taken from another list)"""
    if t.op == 'Elems':
        return list(t.a[0])
    if t.op == 'Comp':
        return pieces(t.a[2])
    if t.op == 'IteS':
        return pieces(t.a[1]) + pieces(t.a[2])
    if t.op == 'Seq':
        return [x for y in t.a[0] for x in pieces(y)]
    return [at(t, tm.fresh('any', 'J'))]


def impossible(facts, k):
    return tm.inconsistent(facts) or (eq0(k) in facts and tm.inconsistent([subst(x, {k: I(0)}) for x in facts]))


def pre(ctx, cls, fn, opq):
    j = Job(ctx, opaque=opq)
    j.known |= set(APPS)
    s = j.summ(fn)
    if s is None or s.ret is None or len(s.params) != 1:
        return
    q = list(s.params.values())[0]
    S = fld(q, 'splits')
    r = fld(s.ret, 'splits')
    # a chain of parts
    v = [x for x in tm.all_subterms(s.ret) if x.op == 'App' and str(x.a[0]).startswith('virt:PreTokenizer::')]
    if v:
        names = [n for n in rec_fields(ctx.prog, cls)]
        for n in names:
            parts = fld(sym('this', ''), n)
            want = loop(length(parts), q, lambda k, a: app(v[0].a[0], (tm.mk('Deref', at(parts, k)), a), v[0].a[2]))
            if prove_eq(s.ret, want, []):
                return ctx.proved('a chain runs its parts one after the other', s.where, tm.show(want)[:200])
        want = loop(length(parts), q, lambda k, a: app(v[0].a[0], (tm.mk('Deref', at(parts, k)), a), v[0].a[2]))
        return j.same('a chain runs its parts one after the other', s.where, s.ret, want)
    k = sym('k', 'J')
    facts = [lt(k, length(S)), has(at(S, k))]
    if r.op == 'Comp' and prove_eq(r.a[0], length(S), []):
        body = tm.open_bv(r.a[2], r.a[1], k)
        # whatever else the body depends on: the conditions that do not look at the piece, and whether it is the first
        cs = {}
        for x in tm.all_subterms(body):
            if x.op in ('IteS', 'Ite') and not tm.contains(x.a[0], lambda y: y is k or y.op == 'BV'):
                cs[x.a[0]] = 1
        cs = list(cs)[:6] + [eq0(k)]

        def alone(facts, i):
            if impossible(facts, k):
                return True
            b = refine(body, facts)
            if prove_eq(length(b), I(1), facts):
                x = at(b, I(0))
                if prove_eq(toks(x), toks(at(S, k)), facts) and prove_eq(fld(x, 'normalized'), fld(at(S, k), 'normalized'), facts):
                    return True
            return i < len(cs) and alone(facts + [cs[i]], i + 1) and alone(facts + [Not(cs[i])], i + 1)

        if alone(facts, 0):
            # and a piece without tokens turns into pieces without tokens
            f0 = [lt(k, length(S)), eq0(length(toks(at(S, k))))]

            def without(facts, i):
                if impossible(facts, k):
                    return True
                ps = pieces(refine(body, facts))
                if all(prove_eq(toks(x), tm.EMPTY, facts) or only_cut(toks(x)) for x in ps):
                    return True
                return i < len(cs) and without(facts + [cs[i]], i + 1) and without(facts + [Not(cs[i])], i + 1)

            if without(f0, 0):
                return ctx.proved(cls + ' passes recognised pieces on', s.where,
                                  'piece by piece, in order; a piece with tokens is passed on alone, one without gives pieces without')
    kept = lambda l: each(length(l), lambda k: tm.ite_seq(has(at(l, k)), elems(proj(at(l, k))), tm.EMPTY))
    j.same(cls + ' passes recognised pieces on', s.where, kept(r), kept(S), gens=GENS, apps=APPS, n=800)


def only_cut(t):
    return t.op == 'Fld' and t.a[0].op == 'At' and t.a[0].a[0].op == 'App' and t.a[0].a[0].a[0] in APPS


CARRY = ('Split', 'PreTokenizedString', 'Token')


def aside(prog, fn):
    """the helpers the model calls on words: they never see a piece"""
    g = cg.Graph(prog)
    out = set()
    for k in g.reach([fn.get('usr_key') or fn['usr']]):
        f = prog.functions.get(k)
        if f is None or f is fn:
            continue
        ts = [prog.type(f['unit'], x['t']) for x in f['params']]
        if f.get('cls') not in CARRY and not any(c in repr(t) for c in CARRY for t in ts):
            out.add(f['qn'])
    return out


def model(ctx, cls, fn, opq):
    helpers = aside(ctx.prog, fn)
    j = Job(ctx, opaque=opq | helpers)
    j.known |= {'call:' + h for h in helpers}
    s = j.summ(fn)
    if s is None or s.ret is None or len(s.params) != 1:
        return
    q = list(s.params.values())[0]
    S, r = fld(q, 'splits'), fld(s.ret, 'splits')
    i = sym('i', 'J')
    facts = [lt(i, length(S)), has(at(S, i))]
    what = cls + ' leaves recognised pieces as they are'
    if (r.op in ('Comp', 'SeqUpd') or r is S) and prove_eq(length(r), length(S), []) and prove_eq(toks(at(r, i)), toks(at(S, i)), facts) and \
            prove_eq(fld(at(r, i), 'normalized'), fld(at(S, i), 'normalized'), facts):
        return ctx.proved(what, s.where, 'same piece at every index')
    # by induction over the loop that walks the pieces: every step keeps the number of pieces and each piece that has tokens
    for info in s.loops:
        for m in [m for _, m in info.mus if info.init[m] is S]:
            f0 = [lt(i, length(m)), has(at(m, i)), le(I(0), i)]
            nx = info.next[m]
            good = True
            for same_index in ([eq0(sub(i, info.J))], [Not(eq0(sub(i, info.J)))]):
                fs = f0 + same_index
                sb = {i: info.J} if same_index[0].op == 'Eq0' else {}
                nxs = subst(nx, sb)
                fs = [subst(x, sb) for x in f0] if sb else fs
                ii = subst(i, sb)
                if not (prove_eq(length(nxs), length(m), []) and prove_eq(toks(at(nxs, ii)), toks(at(m, ii)), fs) and
                        prove_eq(fld(at(nxs, ii), 'normalized'), fld(at(m, ii), 'normalized'), fs)):
                    good = False
            last = subst(info.sol.get(m, tm.UNDEF), {info.J: info.E}) if m in info.sol else None
            if good and last is r:
                return ctx.proved(what, s.where, 'by induction: every step keeps the number of pieces and every piece that has tokens')
    x = tm.fresh('x', 'J')
    j.same(what, s.where, each(length(r), lambda k: tm.ite_seq(has(at(S, k)), elems(proj(at(r, k))), tm.EMPTY)),
           each(length(S), lambda k: tm.ite_seq(has(at(S, k)), elems(proj(at(S, k))), tm.EMPTY)), gens=GENS, n=600)


def collect(ctx, j):
    """the encoding holds the id and the text of every token of every piece, in order"""
    for fn in j.fns('into_encoding'):
        s = j.summ(fn)
        if s is None or s.ret is None or not s.params:
            continue
        q = list(s.params.values())[0]
        S = fld(q, 'splits')
        for f, g in (('ids', 'id'), ('tokens', 'value')):
            want = each(length(S), lambda k: each(length(toks(at(S, k))), lambda i: elems(fld(at(toks(at(S, k)), i), g))))
            j.same('the encoding holds the %s of every token once, in order' % g, s.where, fld(s.ret, f), want, gens=GENS, n=400)
