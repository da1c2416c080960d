"""C29: decoders keep the text of every token they are given."""
from prop import *
import terms as tm

META = {'technique': 'value-graph equivalence of every decoder with its specification', 'level': 'proof', 'min': 12,
        'note': 'What the byte-level alphabet contains is C12; that decode hands the tokens over in order is C21. A token list on which a '
                'library function does not return is not considered.',
        'explanation': 'the value graph of decode_chain of each decoder class is compared, for symbolic token lists and settings, with the '
                       'specified per-token rewriting; the helpers replace and cleanup_token are compared separately and then used as functions'}

CLEAN = ((' .', '.'), (' ?', '?'), (' !', '!'), (' ,', ','), (" ' ", "'"), (" n't", "n't"), (" 'm", "'m"), (' do not', " don't"),
         (" 's", "'s"), (" 've", "'ve"), (" 're", "'re"))


def text(s):
    return elems(*[I(b - 256 if b > 127 else b) for b in s.encode()])


def run(ctx):
    ctx.rule('WordPiece: token k = k = 0 ? t : t starts with the prefix ? t without it : " " + t; then cleaned up if configured')
    ctx.rule('cleanup: the eleven replacements in order; replace: every occurrence from the left, none inside inserted text')
    ctx.rule('Fuse: one text, all tokens joined; Replace: each token replaced; Strip: up to start leading and stop trailing contents of each token')
    ctx.rule('ByteFallback: runs of <0xHH> tokens become their bytes, one U+FFFD per byte if they are no UTF-8; every other token stays')
    ctx.rule('ByteLevel: one text; each character becomes the byte it stands for, or stays')
    j = Job(ctx, opaque={'bytes_char'})
    helpers(ctx, j)
    ops = {n for n in ('replace', 'cleanup_token') if j.fns(n)}
    j = Job(ctx, opaque={'bytes_char'} | ops, pure=ops)
    this = sym('this', '')

    def get(cls, *members):
        if not [f for f in ctx.prog.functions.values() if f['qn'] == cls + '::decode_chain']:
            ctx.unknown(cls, '', 'decoder not found')
            return None
        s = j.summ(cls + '::decode_chain')
        if s is None or len(s.params) != 1:
            return None
        names = rec_fields(ctx.prog, cls)
        if any(m not in names for m in members):
            ctx.unknown(cls, s.where, 'members not found')
            return None
        ctx.did('decoders', cls)
        return s
    for f in (wordpiece, fuse, replacing, strip, fallback, bytelevel):
        f(ctx, j, this, get)
    known = {'WordPieceDecoder', 'FuseDecoder', 'ReplaceDecoder', 'StripDecoder', 'ByteFallbackDecoder', 'ByteLevelDecoder', 'SequenceDecoder'}
    base = ctx.prog.class_by_qn.get('Decoder')
    if base is not None:
        for c in ctx.prog.subclasses(base['usr']):
            qn = ctx.prog.classes[c]['qn'] if isinstance(c, str) else c['qn']
            if qn not in known:
                ctx.did('decoders without a specification', qn)


def helpers(ctx, j):
    if j.fns('replace'):
        s = j.summ('replace')
        if s is not None and len(s.params) == 3:
            inp, frm, to = s.params.values()
            ctx.did('helpers', 'replace')
            j.same('replace replaces every occurrence from the left', s.where, s.ret, replaced(inp, frm, to), [Not(eq0(length(frm)))], n=1200)
    if j.fns('cleanup_token'):
        k = Job(ctx, opaque={'replace'} if j.fns('replace') else (), pure={'replace'})
        s = k.summ('cleanup_token')
        if s is not None and len(s.params) == 1:
            t = list(s.params.values())[0]
            for a, b in CLEAN:
                t = call(k, 'replace', t, text(a), text(b)) if k.fns('replace') else replaced(t, text(a), text(b))
            ctx.did('helpers', 'cleanup_token')
            k.same('cleanup makes the eleven replacements in order', s.where, s.ret, t, apps={'call:replace': replace_all}, n=400,
                   hints=chars(*[a for a, _ in CLEAN], ' ', "'", 'n'))


def call(j, qn, *args):
    """what the call of an uninterpreted helper looks like in the value graph"""
    return app('call:' + qn, args, ('str', ('int', 8, False)))


def replaced(inp, frm, to):
    """fold: position and text; find the next occurrence, splice, continue behind the inserted text"""
    def find(x):
        return app('find', (fld(x, 'x1'), frm, fld(x, 'x0')), 'int')

    def step(k, x):
        f = find(x)
        s = fld(x, 'x1')
        return tm.rec('group', [('x0', add(f, length(to))), ('x1', tm.cat(tm.mk_slice(s, I(0), f), to, tm.mk_slice(s, tm.tmin(length(s), add(f, length(frm))), length(s))))])
    x = whil(tm.INF, tm.rec('group', [('x0', I(0)), ('x1', inp)]), step, lambda x: Not(eq(find(x), I(-1))))
    return fld(x, 'x1')


def wordpiece(ctx, j, this, get):
    s = get('WordPieceDecoder', 'prefix', 'cleanup')
    if s is None:
        return
    toks = list(s.params.values())[0]
    pre, cl = fld(this, 'prefix'), fld(this, 'cleanup')

    def piece(k):
        t = at(toks, k)
        cut = tm.mk_slice(t, tm.tmin(length(pre), length(t)), length(t))
        return tm.ite_seq(eq0(k), t, tm.ite_seq(vg.starts_with(t, pre), cut, tm.cat(text(' '), t)))
    clean = lambda t: call(j, 'cleanup_token', t) if j.fns('cleanup_token') else t
    want = each(length(toks), lambda k: elems(tm.ite_seq(cl, clean(piece(k)), piece(k))))
    j.same('WordPiece: prefix stripped or one space put before each token but the first', s.where, s.ret, want)
    j.same('WordPiece without cleanup', s.where, s.ret, each(length(toks), lambda k: elems(piece(k))), [Not(cl)])
    j.same('WordPiece: one text per token', s.where, length(s.ret), length(toks))


def fuse(ctx, j, this, get):
    s = get('FuseDecoder')
    if s is not None:
        toks = list(s.params.values())[0]
        j.same('Fuse: one text with all tokens in order', s.where, s.ret, elems(each(length(toks), lambda k: at(toks, k))))


def replacing(ctx, j, this, get):
    s = get('ReplaceDecoder', 'pattern', 'content')
    if s is None:
        return
    toks = list(s.params.values())[0]
    pat, con = fld(this, 'pattern'), fld(this, 'content')
    if j.fns('replace'):
        new = lambda t: call(j, 'replace', t, pat, con)
    else:
        new = lambda t: replaced(t, pat, con)
    j.same('Replace: the pattern is replaced in every token', s.where, s.ret, each(length(toks), lambda k: elems(new(at(toks, k)))),
           [Not(eq0(length(pat)))])
    j.same('Replace: an empty pattern names nothing to replace', s.where, s.ret, toks, [eq0(length(pat))])


def strip(ctx, j, this, get):
    s = get('StripDecoder', 'content', 'start', 'stop')
    if s is None:
        return
    toks = list(s.params.values())[0]
    con, start, stop = (fld(this, n) for n in ('content', 'start', 'stop'))
    L = length(con)

    def drop_first(k, t):
        return tm.mk_slice(t, tm.tmin(L, length(t)), length(t))

    def drop_last(k, t):
        return tm.mk_slice(t, I(0), sub(length(t), L))

    def ends(t):
        return And(le(L, length(t)), eq(con, tm.mk_slice(t, sub(length(t), L), length(t))))

    def one(t):
        t = whil(tm.tmax(I(0), start), t, drop_first, lambda t: vg.starts_with(t, con))
        return whil(tm.tmax(I(0), stop), t, drop_last, ends)
    j.same('Strip: up to start leading and stop trailing contents are removed from each token', s.where, s.ret,
           each(length(toks), lambda k: elems(one(at(toks, k)))), [Not(eq0(L))], gens=gens())
    j.same('Strip: an empty content names nothing to strip', s.where, s.ret, toks, [eq0(L)])
    j.same('Strip: one text per token', s.where, length(s.ret), length(toks), gens=gens())


def gens():
    def g(m, r, d=0):
        return ev.Rv('StripDecoder', {'content': r.choice([(97,), (97,), (97, 97), (32,), ()]), 'start': r.choice((0, 1, 1, 2, 3, -1)),
                                      'stop': r.choice((0, 1, 1, 2, 3, -1)), '$id': 0})
    return {'StripDecoder': g}


def fallback(ctx, j, this, get):
    s = get('ByteFallbackDecoder')
    if s is None:
        return
    toks = list(s.params.values())[0]
    hexd = text('0123456789abcdefABCDEF')

    def isbyte(t):
        return And(eq(length(t), I(6)), vg.starts_with(t, text('<0x')), eq(app('find_first_not_of', (t, hexd, I(3)), 'int'), I(5)),
                   eq(at(t, I(5)), I(ord('>'))))

    def byte(t):
        return tm.mk('Cast', 's8', app('stoi', (tm.mk_slice(t, I(3), I(5)), tm.mk('Null'), I(16)), 'int'))

    def run_(n):
        return loop(n, tm.EMPTY, lambda k, b: tm.ite_seq(isbyte(at(toks, k)), tm.cat(b, elems(byte(at(toks, k)))),
                                                         tm.ite_seq(eq0(length(b)), b, tm.EMPTY)))

    def flush(b):
        return tm.ite_seq(eq0(length(b)), tm.EMPTY,
                          tm.ite_seq(app('validate_utf8', (b,), 'bool'), elems(b), tm.fill(length(b), text('\ufffd'))))
    n = length(toks)
    want = tm.cat(each(n, lambda k: tm.ite_seq(isbyte(at(toks, k)), tm.EMPTY, tm.cat(flush(run_(k)), elems(at(toks, k))))), flush(run_(n)))

    j.same('ByteFallback: runs of byte tokens are decoded, other tokens stay in place', s.where, s.ret, want, n=300,
           hints=chars('<0x41>', '<0xE4>', '<0xb8>', '<0x96>', '<0xFF>', '<0x0>', '<0x001>', '<0x4G>', '<0x41', 'x<0x41>'))


def bytelevel(ctx, j, this, get):
    s = get('ByteLevelDecoder', 'CHAR_BYTES')
    if s is None:
        return
    toks = list(s.params.values())[0]
    tab = fld(this, 'CHAR_BYTES')

    def ch(c):
        u = tm.mk('ToUTF8', tm.mk('FromUTF32', elems(c)))
        return tm.ite_seq(tm.m_has(tab, u), elems(tm.mk('Cast', 's8', tm.m_get(tab, u))), u)

    def tok(t):
        u = tm.to_u32(tm.mk('FromUTF8', t))
        return each(length(u), lambda k: ch(at(u, k)))
    j.same('ByteLevel: each character becomes the byte it stands for, or stays', s.where, s.ret,
           elems(each(length(toks), lambda k: tok(at(toks, k)))),
           gens={'ByteLevelDecoder': gen_bytes, 'tokens': gen_chars, list(s.params)[0]: gen_chars})


ALPHA = ' ab\u0100\u0142\u00e9\u20ac\U0001f600'


def gen_bytes(m, r, d=0):
    f = dict(m.default_rec('ByteLevelDecoder', r, max(d, 2)).f)
    f['CHAR_BYTES'] = ev.Mv([(tuple(c.encode()), r.choice((0, 0, 10, 13, 32, 97, 127, 128, 173, 255, r.randint(0, 255)))) for c in ALPHA if r.random() < .8])
    return ev.Rv('ByteLevelDecoder', f)


def gen_chars(m, r, d=0):
    n = 1 if not m.big else m.big
    return tuple(tuple(''.join(r.choice(ALPHA) for _ in range(r.randint(0, 4) * (n if r.random() < .5 else 1))).encode()) for _ in range(r.randint(0, 3)))
