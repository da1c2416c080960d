"""C15: pre-tokenisation tiles the text."""
import random
import re
import unicodedata
import zlib

from prop import *
import terms as tm
import vg
import c17

META = {'technique': 'value-graph analysis of match collection, of the cutting of one piece and of every pattern-based pre-tokenizer', 'level': 'proof', 'min': 6,
        'note': 'What a regular expression matches is the library\'s business: matches are taken to come in order and not to overlap. Ranges count UTF-16 units. '
                'Which texts a pattern text denotes is compared on probe texts when it is not the published one.',
        'explanation': 'the pieces of a text are: before every match the text since the previous one if there is any, the match itself, and finally the rest; '
                       'cutting keeps them in order with text and offsets of their own range and leaves out only what the behaviour removes; '
                       'pieces that carry tokens stay; each pre-tokenizer cuts on its pattern'}
FM = 'call:find_matches'
GPT2 = r"'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+"
WS, PUNC = r'\s+', r'\p{P}'
KNOWN = (GPT2, WS, PUNC)


def run(ctx):
    ctx.rule('tiling of a text: [(gap, false)] (match, true) for every match in order, then the rest')
    ctx.rule('cutting: REMOVED keeps the unmarked ranges, ISOLATED all; text = text at the range; offsets = range + start of the piece')
    ctx.rule('pieces with tokens stay as they are, the others are replaced by their cuts, in order')
    p = ctx.prog
    j = Job(ctx, opaque={'bytes_char'})
    td = tiling(ctx, j)
    cutting(ctx, j)
    jp = Job(ctx, opaque={'bytes_char', '=find_matches'})
    jp.known |= set(APPS)
    bert(ctx, jp, td)
    split(ctx, jp, td)
    bytelevel(ctx, jp, td)


def calm(t):
    """t when no library call reports an error"""
    memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = component(x.a[0], x.a[1], f) if x.op == 'Fld' and x.a[0].op == 'Fold' else None
            r = tm.rebuild(x, f) if r is None else r
            if r.op == 'App' and isinstance(r.a[0], str) and re.search(r'(Regex|U_FAILURE|U_SUCCESS)', r.a[0]):
                if re.search(r'!\d+$', r.a[0]):
                    r = I(0)
                elif r.a[0].endswith('U_FAILURE'):
                    r = I(0)
                elif r.a[0].endswith('U_SUCCESS'):
                    r = I(1)
            memo[x] = r
        return r
    return f(t)


def component(t, name, f):
    """one of the variables of a loop as a loop of its own, given the loops of those it depends on"""
    n, init, kk, b = t.a
    if init.op != 'Rec' or b.op != 'Rec':
        return None
    k, acc = tm.fresh('k', 'J'), tm.fresh('acc', '')
    body = {x: f(v) for x, v in tm.open_bv(b, kk, k, (acc,)).a[1]}
    start = {x: f(v) for x, v in init.a[1]}
    if set(body) != set(start):
        return None
    mine = {x: fld(acc, x) for x in body}
    done = {}
    while name not in done:
        for x in body:
            if x in done:
                continue
            e = subst(body[x], {mine[y]: g(k) for y, g in done.items()})
            if any(tm.contains(e, lambda z, y=y: z is mine[y]) for y in mine if y != x and y not in done):
                continue
            a = tm.fresh('acc', '')
            e = subst(e, {mine[x]: a})
            if tm.contains(e, lambda z: z is acc):
                return None
            if e is start[x] and e.op == 'Int':
                done[x] = lambda m, v=e: v
            else:
                done[x] = lambda m, x=x, a=a, e=e: tm.fold(m, start[x], k, a, e)
            break
        else:
            return None
    return done[name](f(n))


def lib(t, suffix):
    xs = {x.a[0]: x for x in tm.all_subterms(t) if x.op == 'App' and isinstance(x.a[0], str) and x.a[0].endswith(suffix)}
    return next(iter(xs.values())) if len(xs) == 1 else None


def spec_tiles(n, match, total):
    """the tiling for n matches"""
    def cur(k):
        return Ite(eq0(k), I(0), fld(match(sub(k, I(1))), 'second'))

    def piece(a, b, flag):
        return pair(pair(a, b), flag)
    body = each(n, lambda k: cat(tm.ite_seq(eq(cur(k), fld(match(k), 'first')), tm.EMPTY, elems(piece(cur(k), fld(match(k), 'first'), FALSE))),
                                 elems(piece(fld(match(k), 'first'), fld(match(k), 'second'), TRUE))))
    return cat(body, tm.ite_seq(lt(cur(n), total), elems(piece(cur(n), total, FALSE)), tm.EMPTY))


def tiling(ctx, j):
    fs = j.fns('find_matches')
    if len(fs) != 1:
        ctx.unknown('tiling', '', 'find_matches not found')
        return None
    s = j.summ(fs[0])
    if s is None or s.ret is None or len(s.params) != 2:
        return None
    regex, text = list(s.params.values())
    what = 'matches and gaps alternate and cover the text from start to end'
    got = calm(s.ret)
    find, nxt, start, end = (lib(got, 'RegexMatcher::' + x) for x in ('find', 'find!this', 'start', 'end'))
    mk = lib(got, 'RegexPattern::matcher')
    if None not in (find, nxt, start, end, mk):
        def upto(k):
            return loop(k, mk, lambda i, m: tm.mk('Box', app(nxt.a[0], (tm.mk('Deref', m),) + nxt.a[1][1:], nxt.a[2])))

        def nth(x, k):
            return app(x.a[0], (app(nxt.a[0], (tm.mk('Deref', upto(k)),) + nxt.a[1][1:], nxt.a[2]),) + x.a[1][1:], x.a[2])
        n = first(tm.INF, lambda k: eq0(app(find.a[0], (tm.mk('Deref', upto(k)),) + find.a[1][1:], find.a[2])))
        want = spec_tiles(n, lambda k: pair(nth(start, k), nth(end, k)), length(text))
        if closed(nxt, 1) and closed(find, 1) and closed(start, 1) and closed(end, 1) and prove_eq(got, want, []):
            comp = lib(got, 'RegexPattern::compile')
            ok = comp is not None and mk.a[1][0] is tm.mk('Deref', comp) and mk.a[1][1] is text and comp.a[1][0] is tm.mk('FromUTF8', regex)
            if ok:
                ctx.did('tilings', 'find_matches: %s' % tm.show(n)[:120])
                ctx.proved(what, s.where, 'for the matches of the given pattern in the given text: gap if not empty, match, rest if not empty')
                return fs[0]
    j.known |= set(APPS)
    j.same(what, s.where, got, app(FM, (regex, text), s.ret_td if hasattr(s, 'ret_td') else 'other'), apps=apps(got), gens={text: long_text})
    return fs[0]


def closed(x, i):
    """the further arguments of a library call do not depend on the round"""
    return not any(y.op == 'BV' for z in x.a[1][i:] for y in tm.all_subterms(z))


def long_text(m, r, d=0):
    n = m.big + r.randint(1, 2) if m.big else r.randint(0, 7)
    return tuple(r.choice((97, 98, 32, 46, 0x4e2d)) for _ in range(n))


def pre(m, r, d=0):
    v = c17.gen_pre(m, r, d)
    if m.big and m.big < 100000 and r.random() < .5:
        w = c17.u8('ab ')
        s = ev.Rv('Split', {'normalized': (w * (m.big // 3 + 2))[:m.big + r.randint(1, 2)], 'offsets': rp(3, 3 + m.big), 'tokens': (), '$id': 0})
        v = ev.Rv('PreTokenizedString', dict(v.f) | {'splits': (s,)})
    return v


def spans(m, args):
    """what a splitting function may answer"""
    if m.big and m.big < 100000 and len(args[1]) > m.big:
        n = m.big + 1
        return (rp(rp(0, n), False),) if m.seed % 3 else tuple(rp(rp(i, i + 1), i % 2 == 0) for i in range(n))
    return c17.spans(m, args)


def gens():
    return dict(c17.GENS) | {'PreTokenizedString': pre}


# ------------------------------------------------------------------ the model of the library (only to confirm differences)
def canon(text):
    for k in KNOWN:
        if text == k or same_matches(k, text):
            return k
    return text


ALPHABET = "a sZ'tl1٣中é.,!_$+\n\t​d"
PROBES = ["I'm a test", "it's 12 o'clock", "we'll", "they've don't", "you're he'd", "a  b", "  a", "a  ", " \n x", "a\tb", "...!", " .a", "_a_b", "1a2", " 1",
          "'a", "''s", "é中", " 中1", "$ +", "a1 b2", "ab'cd", "'ll've", "x\n\n y", "  ", " ", "", "a", "'", "٣a", "'S", "'D 'LL", "12 345", "a.b,c"]


def to_python(text):
    """text as a Python pattern over the characters of the probes; None if it uses more than that can express"""
    chars = sorted(set(''.join(PROBES)))

    def prop(m):
        neg = m.group(1) == 'P'
        n = m.group(2) or m.group(3)
        if n not in ('L', 'N', 'P', 'Z', 'S', 'Lu', 'Ll', 'Nd', 'Lo', 'M', 'C', 'Zs'):
            raise ValueError(n)
        s = ''.join(re.escape(c) for c in chars if (unicodedata.category(c).startswith(n)) != neg)
        return '\0%s\0' % s
    try:
        t = re.sub(r'\\([pP])(?:\{\^?(\w+)\}|(\w))', prop, text)
        out, cls, i = [], False, 0
        while i < len(t):
            c = t[i]
            if c == '\0':
                k = t.index('\0', i + 1)
                out.append(t[i + 1:k] if cls else '[%s]' % (t[i + 1:k] or '^\\s\\S'))
                i = k
            elif c == '\\':
                out.append(t[i:i + 2])
                i += 1
            else:
                if c == '[':
                    if cls:
                        return None
                    cls = True
                elif c == ']':
                    cls = False
                out.append(c)
            i += 1
        return re.compile(''.join(out))
    except (ValueError, re.error, IndexError):
        return None


def difference(a, b):
    """a probe text on which the patterns match differently; None: none found; False: not comparable"""
    x, y = to_python(a), to_python(b)
    if x is None or y is None:
        return False
    for t in PROBES:
        if [m.span() for m in x.finditer(t)] != [m.span() for m in y.finditer(t)]:
            return t
    return None


def same_matches(a, b):
    d = difference(a, b)
    return d is None or d is False


def matches(m, pattern, text):
    """consecutive ranges of the text, depending on the pattern"""
    p = ''.join(chr(c & 0xffff) for c in pattern)
    k = ('matches', canon(p), text)
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        out, at_, n = [], 0, len(text)
        if m.big and n > m.big:
            if r.random() < .5:     # many matches
                out = [(i, i + 1) for i in range(n)]
            elif r.random() < .7:   # long ones
                i = r.choice((0, n - m.big - 1))
                out = [(i, i + m.big + 1)]
            at_ = n + 1
        while at_ <= n and r.random() < .8:
            a = at_ + r.choice((0, 0, 1, 2))
            b = a + r.choice((0, 1, 1, 2))
            if b > n or (a == b and out and out[-1] == (a, a)):
                break
            out.append((a, b))
            at_ = b if b > a else a + 1
        m.memo[k] = out
    return m.memo[k]


def rp(a, b):
    return ev.Rv('std::pair', {'first': a, 'second': b})


def m_find_matches(m, args):
    p, text = args[0], args[1]
    if not isinstance(text, tuple) or not isinstance(p, tuple):
        raise ev.EvalFail('text')
    out, cur = [], 0
    for a, b in matches(m, ev.fromutf8(p), text):
        if a != cur:
            out.append(rp(rp(cur, a), False))
        out.append(rp(rp(a, b), True))
        cur = b
    if cur < len(text):
        out.append(rp(rp(cur, len(text)), False))
    return tuple(out)


def m_compile(m, args):
    if not isinstance(args[0], tuple):
        raise ev.EvalFail('pattern')
    return (ev.BOX, ev.Rv('RegexPattern', {'p': args[0]}))


def m_matcher(m, args):
    if not isinstance(args[0], ev.Rv) or len(args) < 2 or not isinstance(args[1], tuple):
        raise ev.EvalFail('matcher')
    return (ev.BOX, ev.Rv('RegexMatcher', {'p': args[0].get('p'), 't': args[1], 'i': -1}))


def state(m, args, n=2):
    x = args[0]
    if not isinstance(x, ev.Rv) or x.cls != 'RegexMatcher' or len(args) > n:
        raise ev.EvalFail('matcher')
    return x, matches(m, x.get('p'), x.get('t')), x.get('i')


def m_find(m, args):
    x, ms, i = state(m, args)
    return 1 if i + 1 < len(ms) else 0


def m_advance(m, args):
    x, ms, i = state(m, args)
    return ev.Rv('RegexMatcher', {'p': x.get('p'), 't': x.get('t'), 'i': min(i + 1, len(ms))})


def m_end_of(which):
    def f(m, args):
        x, ms, i = state(m, args)
        if not 0 <= i < len(ms):
            raise ev.EvalFail('no match')
        return ms[i][which]
    return f


def ok(m, args):
    return 0


def stay(m, args):
    return args[0]


APPS = {FM: m_find_matches}


def apps(t):
    """the interpretation of the library calls in t"""
    r = dict(APPS)
    for x in tm.all_subterms(t):
        if x.op != 'App' or not isinstance(x.a[0], str):
            continue
        n = x.a[0]
        for suffix, f in (('RegexPattern::compile', m_compile), ('RegexPattern::matcher', m_matcher), ('RegexMatcher::find', m_find),
                          ('RegexMatcher::find!this', m_advance), ('RegexMatcher::start', m_end_of(0)), ('RegexMatcher::end', m_end_of(1)),
                          ('RegexMatcher::start!this', stay), ('RegexMatcher::end!this', stay), ('RegexPattern::matcher!this', stay)):
            if n.endswith(suffix):
                r[n] = f
        if re.search(r'Regex(Pattern|Matcher)::\w+!\d+$', n):
            r[n] = ok
    return r


# ------------------------------------------------------------------ cutting
def cut(piece, tiles, isolated):
    text = tm.mk('FromUTF8', fld(piece, 'normalized'))
    o = fld(fld(piece, 'offsets'), 'first')

    def part(k):
        r = fld(at(tiles, k), 'first')
        a, b = fld(r, 'first'), fld(r, 'second')
        return tm.rec('Split', [('normalized', tm.mk('ToUTF8', mk_slice(text, a, b))), ('offsets', pair(add(o, a), add(o, b))), ('tokens', tm.EMPTY)])
    return each(length(tiles), lambda k: tm.ite_seq(Or(isolated, Not(fld(at(tiles, k), 'second'))), elems(part(k)), tm.EMPTY))


def stage(splits, tiles, isolated):
    return each(length(splits), lambda k: tm.ite_seq(eq0(length(c17.toks(at(splits, k)))), cut(at(splits, k), tiles(at(splits, k)), isolated),
                                                     elems(at(splits, k))))


def cutting(ctx, j):
    """for every splitting function"""
    fs = j.fns('PreTokenizedString::split')
    if len(fs) != 1:
        return ctx.unknown('cutting', '', 'PreTokenizedString::split not found')
    s = j.summ(fs[0])
    if s is None or s.this is None or len(s.params) != 2:
        return
    fn, how = list(s.params.values())
    S = fld(sym('this', ''), 'splits')
    got = fld(s.this, 'splits')
    c = next((x for x in tm.all_subterms(got) if x.op == 'App' and x.a[0] == 'callfn'), None)
    td = c.a[2] if c is not None else 'other'
    values = behaviours(ctx)
    for name, v in sorted(values.items()):
        facts = [eq(how, I(v))]
        want = stage(S, lambda piece: app('callfn', (fn, tm.mk('FromUTF8', fld(piece, 'normalized'))), td), B(name == 'ISOLATED'))
        j.same('cutting the pieces of a text, matches %s' % name.lower(), s.where, refine(got, facts), want, facts,
               gens=gens() | {'this': pre}, apps={'callfn': spans}, n=300)
        ctx.did('behaviours', name)


def behaviours(ctx):
    return {'REMOVED': 0, 'ISOLATED': 1}


# ------------------------------------------------------------------ the pre-tokenizers
def source(ctx, j, cls, facts=()):
    s = j.summ(cls + '::pre_tokenize')
    if s is None or s.ret is None or len(s.params) != 1:
        return None
    q = list(s.params.values())[0]
    return s, q


def final(ctx, j, cls, t):
    """t with the fields of the object that only the constructor sets to a constant replaced by it"""
    fs = [f for f in ctx.prog.functions.values() if f['qn'] == cls + '::' + cls and f.get('ctor') and f.get('body') is not None]
    fs = [f for f in fs if not any(cls in repr(ctx.prog.type(f['unit'], q['t'])) for q in f['params'])]
    out = {}
    for f in fs:
        s = j.summ(f)
        if s is None or s.ret is None:
            return t
        for n in rec_fields(ctx.prog, cls):
            v = fld(s.ret, n)
            out.setdefault(n, set()).add(v)
    m = {fld(sym('this', ''), n): next(iter(vs)) for n, vs in out.items() if len(vs) == 1 and not tm.syms(next(iter(vs))) and not ev.unknowns(next(iter(vs)))
         and next(iter(vs)).op in ('Str', 'Int', 'Bool', 'Seq', 'Elems')}
    return subst(t, m)


def tiles_of(t, pattern):
    c = next((x for x in tm.all_subterms(t) if x.op == 'App' and x.a[0] == FM), None)
    td = c.a[2] if c is not None else 'other'
    return lambda piece: app(FM, (pattern, tm.mk('FromUTF8', fld(piece, 'normalized'))), td)


def bert(ctx, j, td):
    r = source(ctx, j, 'BertPreTokenizer')
    if r is None:
        return
    s, q = r
    got = final(ctx, j, 'BertPreTokenizer', calm(fld(s.ret, 'splits')))
    want = stage(fld(q, 'splits'), tiles_of(got, tm.lits(WS)), FALSE)
    want = stage(want, tiles_of(got, tm.lits(PUNC)), TRUE)
    ctx.did('pre-tokenizers', 'BertPreTokenizer')
    j.same('Bert: cut at white space, which is removed, then at punctuation, which is kept', s.where, got, want, gens=gens(), apps=apps(got), n=300)


def split(ctx, j, td):
    r = source(ctx, j, 'SplitPreTokenizer')
    if r is None:
        return
    s, q = r
    ctx.did('pre-tokenizers', 'SplitPreTokenizer')
    this = sym('this', '')
    names = rec_fields(ctx.prog, 'SplitPreTokenizer')
    if not {'pattern', 'behavior', 'invert'} <= set(names):
        return ctx.unknown('Split', s.where, 'fields not found')
    got = calm(fld(s.ret, 'splits'))
    tiles = tiles_of(got, fld(this, 'pattern'))

    def flipped(piece):
        t = tiles(piece)
        return each(length(t), lambda k: elems(pair(fld(at(t, k), 'first'), Not(fld(at(t, k), 'second')))))
    inv = fld(this, 'invert')
    for name, v in sorted(behaviours(ctx).items()):
        for flag in (False, True):
            facts = [eq(fld(this, 'behavior'), I(v)), inv if flag else Not(inv)]
            g = refine(got, facts)
            want = stage(fld(q, 'splits'), flipped if flag else tiles, B(name == 'ISOLATED'))
            j.same('Split: cut on the pattern, %s %s' % ('gaps' if flag else 'matches', name.lower()), s.where, g, want, facts, gens=gens(), apps=apps(g), n=300)
    f = j.fns('get_split_delimiter_behavior')
    if len(f) == 1:
        for text, name in (('Removed', 'REMOVED'), ('Isolated', 'ISOLATED')):
            b = j.summ(f[0], args={f[0]['params'][0]['n']: tm.lits(text)})
            if b is not None and b.ret is not None:
                j.same('the behaviour "%s" is %s' % (text, name), b.where, b.ret, I(behaviours(ctx)[name]))
    # the constructor keeps what it is given
    cs = [x for x in j.fns('SplitPreTokenizer::SplitPreTokenizer') if x.get('ctor') and len(x['params']) == 3]
    for c in cs:
        b = j.summ(c, opaque={'get_split_delimiter_behavior'})
        if b is None or b.ret is None:
            continue
        pat, how, iv = list(b.params.values())
        j.same('Split cuts on the configured pattern', b.where, fld(b.ret, 'pattern'), pat)
        j.same('Split inverts as configured', b.where, fld(b.ret, 'invert'), iv)
        h = fld(b.ret, 'behavior')
        x = next((y for y in tm.all_subterms(h) if y.op == 'App'), None)
        if x is not None:
            j.same('Split removes or keeps as configured', b.where, h, app('call:get_split_delimiter_behavior', (how,), x.a[2]))


def bytelevel(ctx, j, td):
    cls = 'ByteLevelPreTokenizer'
    r = source(ctx, j, cls)
    if r is None:
        return
    s, q = r
    ctx.did('pre-tokenizers', cls)
    this = sym('this', '')
    if not {'use_regex', 'add_prefix_space'} <= set(rec_fields(ctx.prog, cls)):
        return ctx.unknown('ByteLevel', s.where, 'fields not found')
    got = final(ctx, j, cls, calm(fld(s.ret, 'splits')))
    use, pre = fld(this, 'use_regex'), fld(this, 'add_prefix_space')

    def whole(piece):
        return elems(pair(pair(I(0), length(tm.mk('FromUTF8', fld(piece, 'normalized')))), FALSE))

    def places(t):
        return each(length(t), lambda k: elems(tm.rec('piece', [('offsets', fld(at(t, k), 'offsets')), ('tokens', c17.toks(at(t, k)))])))
    for flag in (True, False):
        facts = [use if flag else Not(use), Not(pre)]
        g = refine(got, facts)
        tiles = tiles_of(g, tm.lits(GPT2)) if flag else whole
        want = stage(fld(q, 'splits'), tiles, TRUE)
        j.same('ByteLevel: %s' % ('pieces end where the GPT-2 pattern cuts' if flag else 'without the pattern every piece stays whole'),
               s.where, places(g), places(want), facts, gens=gens() | {cls: gen_byte}, apps=apps(g), n=300)


def gen_byte(m, r, d=0):
    from c12 import gen_self
    return gen_self('BYTES_CHAR')(m, r, d)
