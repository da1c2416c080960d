"""C25: empty texts, pieces and lists are handled without reading an element that is not there."""
from prop import *
import itertools
import terms as tm
import vg
import core
import time
import events

META = {'technique': 'value-graph analysis: every container access of every component specialised to empty inputs, and fixed-position accesses for all inputs', 'level': 'proof',
        'min': 8,
        'note': 'Accesses at computed positions on non-empty input are outside this property. Unsigned 64-bit subtraction is modelled as wrapping round.',
        'explanation': 'each component is followed with empty text, empty pieces, empty lists and lists of empty texts (settings arbitrary) and every access, '
                       'erasure, range and size on the way must be in bounds; accesses at a fixed position (first, last, constant) must be in bounds for every input'}

KINDS = {'index', 'front', 'back', 'range', 'resize', 'div0', 'at', 'iter'}


def run(ctx):
    ctx.rule('with empty inputs: every access, range and size of every component is in bounds, unsigned lengths wrapping round zero')
    ctx.rule('for every input: an access at a first, last or constant position is in bounds')
    held = owned(ctx.prog)
    sc = Fixed(ctx, KINDS, relevant=fixed, entry=lambda f: entry(f, held))
    sc.run()
    said = set()
    t0 = time.time()
    for f in events.library(ctx.prog):
        if time.time() - t0 > 250:
            ctx.unknown('%s with empty inputs' % f['qn'], '', 'out of time')
            continue
        empty_inputs(ctx, f, held, sc.anyway, said)


class Fixed(events.Scan):
    exact = True
    limit = 30
    budget = 100
    tries = 120


def owned(p):
    """classes the tokenizer holds and calls"""
    out = {'Tokenizer'}
    for c in p.class_by_qn.values():
        for f in c['fields']:
            td = vg.Engine(p).td(c['unit'], f['t'])
            if td[0] == 'uptr' and td[1][0] == 'rec':
                out.add(td[1][1])
    return out


def entry(f, held):
    return bool(f.get('over') or f.get('virt')) or f.get('cls') in held and f.get('access') == 0 and not f.get('ctor')


def fixed(e):
    """an access at a position that does not depend on a computation"""
    if e.kind in ('front', 'back'):
        return True
    return e.fixed or e.oblig is tm.FALSE


def plain(e):
    """a range or position computed without a search or a loop"""
    return e.kind != 'resize' and not any(x.op in ('Fold', 'MapAcc', 'FirstIdx', 'Sum', 'BV', 'App') or x.op == 'Sym' and x.a[1] == 'J' for x in tm.all_subterms(e.oblig))


def wraps(e):
    """in a loop up to a length that went below zero"""
    for f in e.facts:
        for x in conj_all(f):
            if x.op == 'Le0' and x.a[0].op == 'Lin':
                c, d = tm.lin_parts(x.a[0])
                if abs(c) >= vg.BIG >> 1 and any(y.op == 'Sym' and y.a[1] == 'J' for y in d):
                    return True
    return False


def conj_all(f):
    return f.a[0] if f.op == 'And' else (f,)


# ---------------------------------------------------------------- empty inputs
def variants(j, p, td):
    """the empty values of a parameter, or None if it has none"""
    if td[0] in ('ref', 'rref'):
        return variants(j, p, td[1])
    if td[0] == 'str':
        return [('""', tm.EMPTY)]
    if td[0] == 'ustr':
        return [('""', tm.EMPTY)]
    if td[0] == 'seq':
        out = [('{}', tm.EMPTY)]
        if td[1][0] == 'str':
            out += [('{""}', tm.elems(tm.EMPTY)), ('{"", ""}', tm.elems(tm.EMPTY, tm.EMPTY))]
        return out
    if td[0] == 'opt':
        return [('absent', tm.NONE)]
    if td[0] == 'map' or td[0] == 'set':
        return None
    if td == ('rec', 'NormalizedString'):
        n = normalized(j)
        return n and [('an empty text', n)]
    if td == ('rec', 'Split'):
        return [('an empty piece', piece(j))]
    if td == ('rec', 'PreTokenizedString'):
        n = normalized(j)
        c = [g for g in j.fns('PreTokenizedString::PreTokenizedString') if len(g['params']) == 1]
        if not n or not c:
            return None
        s = j.summ(c[0], args={c[0]['params'][0]['n']: n})
        if s is None:
            return None
        return [('an empty text', s.ret), ('no pieces', tm.with_(s.ret, 'splits', tm.EMPTY)), ('two empty pieces', tm.with_(s.ret, 'splits', tm.elems(piece(j), piece(j)))),
                ('a piece of one letter', tm.with_(s.ret, 'splits', tm.elems(tm.with_(piece(j), 'normalized', tm.lits('x')))))]
    if td == ('rec', 'Encoding'):
        return [('an empty encoding', tm.rec('Encoding', [(n, tm.EMPTY) for n in rec_fields(j.p, 'Encoding')]))]
    return None


def normalized(j):
    if 'ns' not in j.sums:
        c = [g for g in j.fns('NormalizedString::NormalizedString') if len(g['params']) == 1]
        s = c and j.summ(c[0], args={c[0]['params'][0]['n']: tm.EMPTY})
        j.sums['ns'] = s.ret if s else None
    return j.sums['ns']


def piece(j):
    c = j.p.class_by_qn['Split']
    e = vg.Engine(j.p)
    return tm.rec('Split', [(f['n'], tm.pair(I(0), I(0)) if e.td(c['unit'], f['t'])[0] == 'pair' else tm.EMPTY) for f in c['fields']])


def follows(v):
    try:
        with core.limit(6):
            return tm.inconsistent(v.facts) or prove(v.oblig, v.facts)
    except core.TimeUp:
        return False


def empty_inputs(ctx, f, held, anyway, said):
    j = Job(ctx, exact=True)
    e = vg.Engine(ctx.prog)
    ps = []
    for p in f['params']:
        v = variants(j, p, e.td(f['unit'], p['t']))
        if v:
            ps.append([(p['n'], w, x) for w, x in v])
    if not ps:
        return
    n = max(len(p) for p in ps)
    isentry = entry(f, held)
    for i in range(n):
        combo = [p[min(i, len(p) - 1)] for p in ps]
        name = '%s with %s' % (f['qn'], ', '.join('%s %s' % (a, w) for a, w, _ in combo))
        s = j.summ(f, args={a: x for a, _, x in combo})
        if s is None:
            continue
        bad = []
        evs = [v for v in s.events if v.kind in KINDS and (v.loc, v.what) not in anyway and (fixed(v) or wraps(v) or plain(v))]
        for v in evs:
            if not follows(v):
                bad.append(v)
        ctx.did('empty inputs', name)
        if not bad:
            ctx.proved(name, s.where, '%d accesses in bounds' % len(evs))
            continue
        if not isentry:
            ctx.did('left to callers', name)
            continue
        for v in bad:
            if (v.loc, v.what) in said:
                continue
            said.add((v.loc, v.what))
            j.tries = 60
            try:
                with core.limit(25):
                    settle(j, name, s, v)
            except core.TimeUp:
                ctx.unknown('%s: %s at %s:%s' % (name, v.what, v.loc.file, v.loc.line), s.where, 'not decided within 25 s')


def settle(j, name, s, v):
    j.holds('%s: %s at %s:%s' % (name, v.what, v.loc.file, v.loc.line), s.where, v.oblig, list(v.facts), msg='%s:%s in %s: out of range on empty input:' % (v.loc.file, v.loc.line, v.loc.fn))
