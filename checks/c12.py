"""C12: the byte-level alphabet is total and one-to-one, and both ends use it."""
import unicodedata

from prop import *
import terms as tm
import vg
import c17
import c29

META = {'technique': 'constant propagation of the alphabet through its constructors, and value-graph analysis of both byte loops', 'level': 'proof', 'min': 6,
        'note': 'The alphabet is a closed term (no input), so folding it decides it for all 256 values. Which stretches are pieces is C15; '
                'fromUTF8/toUTF8 are taken as ICU documents them.',
        'explanation': 'the table of the byte-level pre-tokenizer folds to 256 entries, each a different single printable character; a piece becomes the '
                       'characters of its bytes, in order; the decoder table folds to the exact inverse and is applied character by character'}
PRE, DEC = 'ByteLevelPreTokenizer', 'ByteLevelDecoder'


def run(ctx):
    ctx.rule('alphabet: keys 0..255, values pairwise different, each one printable character')
    ctx.rule('encoder: piece = concatenation over its bytes b (unsigned) of alphabet[b]')
    ctx.rule('decoder: table = inverse of the alphabet; each character found in it becomes that byte')
    j = Job(ctx, opaque=())
    a = table(ctx, j, PRE, ('int',))
    if a is not None:
        alphabet, wh = a
        missing = [b for b in range(256) if b not in alphabet]
        extra = [b for b in alphabet if not 0 <= b <= 255]
        say(ctx, 'every byte value has a character', wh, not missing and not extra,
            '256 entries', 'no character for %s%s' % (missing[:8], ', entries for %s' % extra[:8] if extra else ''))
        rev = {}
        for b, w in sorted(alphabet.items()):
            rev.setdefault(w, []).append(b)
        twice = [v for v in rev.values() if len(v) > 1]
        say(ctx, 'no two byte values share a character', wh, not twice, '256 different texts', 'bytes %s share a character' % twice[:4])
        odd = [b for b, w in sorted(alphabet.items()) if not printable(w)]
        say(ctx, 'each character is one printable character', wh, not odd, 'one code point each, none a control, space or unassigned',
            'not so for bytes %s' % odd[:8])
        off = [b for b, w in sorted(alphabet.items()) if 0 <= b <= 255 and text(w) != published(b)]
        say(ctx, 'the alphabet is the one byte-level vocabularies are written in', wh, not off,
            'printable Latin-1 bytes stand for themselves, the rest for U+0100 onwards', 'not so for bytes %s' % off[:8])
        d = table(ctx, j, DEC, ('str',))
        if d is not None:
            back, wd = d
            bad = [b for b, w in sorted(alphabet.items()) if w not in back or to_byte(back[w]) != b]
            say(ctx, 'the decoder maps each character back to its byte', wd, not bad, 'inverse at all %d entries' % len(alphabet),
                'not so for bytes %s' % bad[:8])
            more = [w for w in back if w not in rev]
            say(ctx, 'the decoder maps nothing else', wd, not more, 'no further entries', 'further entries %s' % more[:4])
    pieces(ctx)
    jd = Job(ctx, opaque={'bytes_char'})

    def get(cls, *fields):
        for f in fields:
            if f not in rec_fields(ctx.prog, cls):
                ctx.unknown('%s is analysed' % cls, '', 'no field ' + f)
                return None
        return jd.summ(cls + '::decode_chain')
    c29.bytelevel(ctx, jd, sym('this', ''), get)


def say(ctx, what, wh, ok, yes, no):
    (ctx.proved if ok else ctx.refuted)(what, wh, yes if ok else no)


def to_byte(v):
    return v % 256 if isinstance(v, int) and -128 <= v <= 255 else None


def text(w):
    try:
        return bytes(c % 256 for c in w).decode('utf8')
    except Exception:
        return None


PLAIN = list(range(0x21, 0x7f)) + list(range(0xa1, 0xad)) + list(range(0xae, 0x100))
REST = [b for b in range(256) if b not in PLAIN]


def published(b):
    return chr(b) if b in PLAIN else chr(256 + REST.index(b))


def printable(w):
    s = text(w)
    return s is not None and len(s) == 1 and unicodedata.category(s)[0] not in 'CZ'


def maps(ctx, cls, kind):
    """the fields of cls that map bytes to texts / texts to bytes"""
    c = ctx.prog.class_by_qn.get(cls)
    out = []
    e = vg.Engine(ctx.prog)
    for x in (c or {}).get('fields', []):
        td = e.td(c['unit'], x['t'])
        if td[0] == 'map' and td[1][0] in kind:
            out.append(x['n'])
    return out


def table(ctx, j, cls, kind):
    """the table the constructor of cls builds, folded"""
    ns = maps(ctx, cls, kind)
    fs = [f for f in ctx.prog.functions.values() if f['qn'] == cls + '::' + cls and f.get('ctor') and f.get('body') is not None]
    fs = [f for f in fs if not any(cls in repr(ctx.prog.type(f['unit'], q['t'])) for q in f['params'])]
    if len(ns) != 1 or not fs:
        ctx.unknown('table of ' + cls, '', 'table or constructor not found')
        return None
    res = None
    for f in fs:
        s = j.summ(f)
        if s is None or s.ret is None:
            return None
        t = fld(s.ret, ns[0])
        if tm.syms(t) or ev.unknowns(t):
            ctx.unknown('table of ' + cls, s.where, 'not constant: %s' % ', '.join(sorted({tm.show(x) for x in tm.syms(t)} | set(ev.unknowns(t))))[:200])
            return None
        try:
            m = ev.Model(ctx.prog, j.symtd, 1, ([], []))
            m.steps = -5000000
            v = m.ev(t)
        except ev.EvalFail as ex:
            ctx.unknown('table of ' + cls, s.where, 'not folded: %s' % ex)
            return None
        left = set(m.lib) | {str(x.a[0]) for x in tm.all_subterms(t) if x.op == 'App' and str(x.a[0]).startswith('call')}
        if left:
            ctx.unknown('table of ' + cls, s.where, 'not folded: %s' % ', '.join(sorted(left)))
            return None
        ctx.did('tables folded', '%s::%s: %d entries' % (cls, ns[0], len(v.d)))
        res = (v.d, s.where)
    return res


def pieces(ctx):
    j = Job(ctx, opaque={'bytes_char', c17.SPLITN, '=find_matches'})
    j.known |= set(c17.APPS)
    s = j.summ(PRE + '::pre_tokenize')
    ns = maps(ctx, PRE, ('int',))
    if s is None or s.ret is None or len(ns) != 1:
        return
    q = list(s.params.values())[0]
    tab = fld(sym('this', ''), ns[0])
    what = 'byte-level: every byte of a piece becomes its character, in order'

    def mapped(w):
        return each(length(w), lambda k: tm.m_get(tab, tm.mk('Cast', 'u8', at(w, k))))
    r = fld(s.ret, 'splits')
    cuts = {x for x in tm.all_subterms(r) if x.op == 'App' and x.a[0] == 'call:' + c17.SPLITN}
    if r.op != 'Comp' or not cuts:
        return ctx.unknown(what, s.where, 'the pieces are not built one piece at a time')
    S = fld(q, 'splits')
    k = tm.fresh('k', 'J')
    body = tm.open_bv(r.a[2], r.a[1], k)
    cuts = {x for x in tm.all_subterms(body) if x.op == 'App' and x.a[0] == 'call:' + c17.SPLITN}
    base = [lt(k, length(S)), le(I(0), k), eq0(length(c17.toks(at(S, k))))]
    if len(cuts) != 1:
        return ctx.unknown(what, s.where, '%d cuts' % len(cuts))
    c = next(iter(cuts))
    n = length(c)
    facts = base + [forall(n, lambda i: eq0(length(c17.toks(at(c, i)))))]
    got = each(length(body), lambda i: elems(fld(at(body, i), 'normalized')))
    want = each(n, lambda i: elems(mapped(fld(at(c, i), 'normalized'))))
    body2 = no_tokens(body, c)
    # the guard on the piece itself holds
    cs = [x.a[0] for x in tm.all_subterms(body2) if x.op in ('IteS', 'Ite') and not tm.contains(x.a[0], lambda y: y is k or y.op == 'BV')]
    cs = list(dict.fromkeys(cs))[:4] + [eq0(k)]

    def go(facts, i):
        if c17.impossible(facts, k):
            return True
        b = refine(body2, facts)
        g = each(length(b), lambda i: elems(fld(at(b, i), 'normalized')))
        if prove_eq(g, refine(no_tokens(want, c), facts), facts):
            return True
        return i < len(cs) and go(facts + [cs[i]], i + 1) and go(facts + [Not(cs[i])], i + 1)
    if go(base, 0):
        return ctx.proved(what, s.where, 'for the pieces cut from every piece: %s' % tm.show(mapped(sym('piece', 'str'))))
    got = each(length(body2), lambda i: elems(fld(at(body2, i), 'normalized')))
    gens = dict(c17.GENS)
    gens[PRE] = gen_self(ns[0])
    gens['Split'] = lambda m, r, d=0: bytes_split(m, r)
    j.same(what, s.where, got, no_tokens(want, c), base, gens=gens, apps=c17.APPS | {'call:' + c17.SPLITN: cut}, n=400)


def no_tokens(t, c):
    """t, the pieces just cut carrying no tokens (C17)"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = tm.rebuild(x, f)
            if r.op == 'Fld' and r.a[1] == 'tokens' and r.a[0].op == 'At' and r.a[0].a[0].op == 'App' and r.a[0].a[0].a[0] == 'call:' + c17.SPLITN:
                r = tm.EMPTY
            memo[x] = r
        return r
    return f(t)


def gen_self(n):
    def g(m, r, d=0):
        f = dict(m.default_rec(PRE, r, max(d, 2)).f)
        f[n] = ev.Mv([(b, ((b % 127) + 1, (b // 127) + 1)) for b in range(256)])
        return ev.Rv(PRE, f)
    return g


def bytes_split(m, r):
    n = m.big + r.randint(-1, 2) if m.big and r.random() < .7 else r.randint(0, 4)
    w = tuple(r.randint(-128, 127) for _ in range(n))
    return ev.Rv('Split', {'normalized': w, 'offsets': ev.Rv('std::pair', {'first': 0, 'second': len(w)}), 'tokens': (), '$id': 0})


def cut(m, args):
    import random
    import zlib
    k = ('cut12', repr(args))
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        m.memo[k] = tuple(bytes_split(m, r) for _ in range(r.randint(0, 3)))
    return m.memo[k]
