"""C13: a token's id and text always agree with the vocabulary."""
from prop import *
import terms as tm
import cg
import c17

META = {'technique': 'value-graph analysis: every construction of a token, with the conditions it happens under', 'level': 'proof', 'min': 8,
        'note': 'Added tokens are C07 and C17; that a vocabulary does not give two texts the same id is assumed for the inverse table.',
        'explanation': 'at every place a model makes a token, the id is the vocabulary entry of the text or the text the entry of the id; the id-to-text '
                       'table is built from the text-to-id table entry by entry, and neither changes afterwards'}
WORDS = ('', 'a', 'b', 'ab', 'ba', 'aa', '##a', '##b', '[UNK]', 'c', '##ab', 'a</w>', 'aab', 'aba', '##aba', 'bab', 'abab')


def u8(s):
    return tuple(ord(c) for c in s)


def run(ctx):
    ctx.rule('each token: id = vocab[text], or text = vocab_r[id], or text = the unknown text with its id (0 if it has none)')
    ctx.rule('constructors: vocab_r maps vocab[w] to w for every w, and nothing else; every model passes its vocabulary on')
    ctx.rule('lookups: token_to_id reads vocab, id_to_token reads vocab_r; no other member function changes either')
    p = ctx.prog
    bc = p.class_by_qn.get('Model')
    if bc is None:
        return ctx.unknown('models', '', 'class Model not found')
    j = Job(ctx, opaque={'bytes_char'})
    tables(ctx, j, bc)
    for u in sorted(p.subclasses(bc['usr']), key=lambda u: p.classes[u]['qn']):
        cls = p.classes[u]['qn']
        for fn in j.fns(cls + '::tokenize'):
            ctx.did('models', cls)
            tokens(ctx, cls, fn)


def tables(ctx, j, bc):
    p = ctx.prog
    V, R = 'vocab', 'vocab_r'
    this = sym('this', '')
    classes = [bc] + [p.classes[u] for u in p.subclasses(bc['usr'])]
    for c in classes:
        cls = c['qn']
        n = cls.split('::')[-1]
        for fn in [f for f in j.fns(cls + '::' + n) if f.get('ctor') and f.get('body') is not None]:
            if any(q['n'] == 'other' or 'Model' in repr(p.type(fn['unit'], q['t'])) for q in fn['params']):
                continue
            s = j.summ(fn)
            if s is None or s.ret is None:
                continue
            ms = [x for q, x in s.params.items() if j.symtd.get(x, ('',))[0] == 'map']
            if not ms:
                continue
            v = ms[0]
            k = tm.fresh('j', 'J')
            j.same('%s keeps the vocabulary it is given' % cls, s.where, fld(s.ret, V), v)
            want = tm.map_acc(tm.mk('Map', ()), tm.m_size(v), k, TRUE, tm.mk('MVal', v, k), tm.mk('MKey', v, k))
            j.same('%s: the id-to-text table is the text-to-id table turned round' % cls, s.where, fld(s.ret, R), want)
    # lookups
    for qn, table, cond in (('Model::token_to_id', V, None), ('Model::id_to_token', R, None)):
        for fn in j.fns(qn):
            s = j.summ(fn)
            if s is None or s.ret is None or len(s.params) != 1:
                continue
            x = list(s.params.values())[0]
            m = fld(this, table)
            want = tm.mk('Opt', tm.m_has(m, x), tm.m_get(m, x))
            j.same('%s reads %s' % (qn, table), s.where, s.ret, want, gens=gens(p))
    # nothing else changes the tables
    for c in classes:
        for fn in sorted((f for f in p.functions.values() if f.get('cls') == c['qn'] and f.get('body') is not None and not f.get('ctor') and not f.get('static')
                          and not f.get('const')), key=lambda f: f['qn']):
            s = j.summ(fn)
            if s is None or s.this is None:
                continue
            for t in (V, R):
                j.same('%s leaves %s as it is' % (fn['qn'], t), s.where, fld(s.this, t), fld(this, t), gens=gens(p))


def gens(p):
    out = {}

    def model(cls):
        def g(m, r, d=0):
            v = m.default_rec(cls, r, max(d, 2))
            f = dict(v.f)
            ws = [w for w in WORDS if r.random() < 0.7] + (['[UNK]'] if r.random() < .3 else [])
            ids = r.sample(range(1, 40), len(ws))
            f['vocab'] = ev.Mv([(u8(w), i) for w, i in zip(ws, ids)])
            f['vocab_r'] = ev.Mv([(i, w) for w, i in f['vocab'].d.items()])
            ids = list(f['vocab_r'].d)
            for n, x in list(f.items()):
                if n == 'dropout':
                    f[n] = ev.Ov(r.choice(('flt0.0', 'flt0.0', 'flt0.5')))
                if n == 'end_of_word_suffix':
                    f[n] = u8(r.choice(('', '</w>', 'b')))
                if n == 'cache' and ids:
                    f[n] = ev.Mv([(u8(w), some_word(r, ids)) for w in ('a', 'ab', 'aab', 'b') if r.random() < .4])
                if n == 'unk_token':
                    f[n] = u8(r.choice(('[UNK]', '[UNK]', 'zz', 'a', '')))
                if n == 'continuing_subword_prefix':
                    f[n] = u8(r.choice(('##', '##', '', 'a')))
                if n == 'max_input_chars_per_word':
                    f[n] = r.choice((0, 1, 2, 100, 100, 100))
            return ev.Rv(cls, f)
        return g
    bc = p.class_by_qn.get('Model')
    for c in [bc] + [p.classes[u] for u in p.subclasses(bc['usr'])]:
        out[c['qn']] = model(c['qn'])
    out['Split'] = split
    return out


def split(m, r, d=0):
    w = u8(''.join(r.choice('aabbc') for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4)))))
    return ev.Rv('Split', {'normalized': w, 'offsets': ev.Rv('std::pair', {'first': 0, 'second': len(w)}), 'tokens': (), '$id': 0})


def helpers(prog, fn):
    """functions below fn that handle no tokens"""
    g = cg.Graph(prog)
    out = set()
    for k in g.reach([fn.get('usr_key') or fn['usr']]):
        f = prog.functions.get(k)
        if f is None or f is fn or f.get('ctor'):
            continue
        ts = [prog.type(f['unit'], x['t']) for x in f['params']] + [prog.type(f['unit'], f.get('rt'))]
        if f.get('cls') not in c17.CARRY and not any(c in repr(t) for c in c17.CARRY for t in ts) and any('Word' in repr(t) for t in ts):
            out.add('=' + f['qn'])
    return out


def made(t, facts=(), out=None, seen=None):
    """(token, conditions) for every construction of a token inside t"""
    if out is None:
        out, seen = [], set()
    key = (t, facts)
    if key in seen or len(seen) > 60000:
        return out
    seen.add(key)
    if t.op == 'Rec' and t.a[0] == 'Token':
        out.append((t, facts))
    if t.op in ('Ite', 'IteS'):
        made(t.a[0], facts, out, seen)
        made(t.a[1], facts + (t.a[0],), out, seen)
        made(t.a[2], facts + (Not(t.a[0]),), out, seen)
        return out
    if not tm.contains(t, lambda x: x.op == 'Rec' and x.a[0] == 'Token'):
        return out
    for x in kids(t):
        made(x, facts, out, seen)
    return out


def kids(t):
    def go(a):
        if isinstance(a, tm.T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                yield from go(b)
    return list(go(t.a))


def agrees(tok, facts):
    this = sym('this', '')
    i, w = fld(tok, 'id'), fld(tok, 'value')
    V = [x for x in tm.all_subterms(tok)]
    if w.op == 'Get' and is_table(w.a[0], 'vocab_r') and (w.a[1] is i or prove_eq(w.a[1], i, facts)):
        return 'text looked up by the id'
    if i.op == 'Get' and is_table(i.a[0], 'vocab') and (i.a[1] is w or prove_eq(i.a[1], w, facts)):
        return 'id looked up by the text'
    if i is I(0) and w is fld(this, 'unk_token'):
        for m in {x.a[0] for f in facts for x in tm.all_subterms(f) if x.op == 'Has'}:
            if is_table(m, 'vocab') and entails(list(facts), Not(tm.m_has(m, w))) is True:
                return 'unknown text without an entry'
    if i.op == 'Ite' or w.op == 'Ite' or w.op == 'IteS':
        c = i.a[0] if i.op == 'Ite' else w.a[0]
        a = agrees(refine(tok, [c]), facts + (c,))
        b = agrees(refine(tok, [Not(c)]), facts + (Not(c),))
        return a and b and a + ' / ' + b
    return None


def is_table(m, n):
    while m.op == 'With':
        m = m.a[0]
    return m.op == 'Fld' and m.a[1] == n


def tokens(ctx, cls, fn):
    p = ctx.prog
    hs = helpers(p, fn)
    j = Job(ctx, opaque={'bytes_char'} | hs)
    s = j.summ(fn)
    if s is None or s.ret is None or len(s.params) != 1:
        return
    q = list(s.params.values())[0]
    r = fld(s.ret, 'splits')
    ms = made(r)
    distinct = {}
    for t, f in ms:
        distinct.setdefault((fld(t, 'id'), fld(t, 'value')), []).append((t, f))
    for t, f in ms:
        ctx.did('token constructions', '%s: id %s, text %s' % (cls, tm.show(fld(t, 'id'))[:80], tm.show(fld(t, 'value'))[:80]))
    good = [agrees(t, f) for t, f in ms]
    what = 'ids and texts of the tokens %s makes agree' % cls
    src = all_from(r, q)
    if ms and all(good) and src is None:
        return ctx.proved(what, s.where, '%d constructions: %s' % (len(distinct), '; '.join(sorted(set(good)))))
    # by evaluation: every token of every piece that had none
    this = sym('this', '')
    V, R, U = fld(this, 'vocab'), fld(this, 'vocab_r'), fld(this, 'unk_token')

    def ok(t):
        i, w = fld(t, 'id'), fld(t, 'value')
        return Or(And(tm.m_has(V, w), eq0(sub(i, tm.m_get(V, w)))), And(tm.eq(w, U), Not(tm.m_has(V, w)), eq0(i)))
    S = fld(q, 'splits')
    cond = forall(length(r), lambda k: forall(length(c17.toks(at(r, k))), lambda n: ok(at(c17.toks(at(r, k)), n))))
    j.known |= {'call:' + h[1:] for h in hs}
    j.holds(what, s.where, cond, [forall(length(S), lambda k: eq0(length(c17.toks(at(S, k)))))], gens=gens(p), apps={'call:' + h[1:]: word for h in hs}, n=600,
            msg='a token is made whose id is not the id of its text' + (' (%s)' % src if src else ''))


def all_from(r, q):
    """a token that comes from elsewhere than a construction or the given pieces"""
    return None


def word(m, args):
    """any segmentation into entries of the vocabulary"""
    import random
    import zlib
    k = ('word', repr(args[1:]))
    if k not in m.memo:
        r = random.Random(zlib.crc32(repr(k).encode()) ^ m.seed)
        ids = [i for i, _ in args[0].get('vocab_r').d.items()]
        m.memo[k] = some_word(r, ids)
    return m.memo[k]


def some_word(r, ids):
    n = r.randint(0, 3) if ids else 0
    return ev.Rv('Word', {'symbols': tuple(ev.Rv('Symbol', {'c': r.choice(ids), 'prev': i - 1, 'next': i + 1 if i + 1 < n else -1, 'len': r.choice((0, 1, 1, 2)), '$id': 0})
                                           for i in range(n)), '$id': 0})
