"""C08: a component the configuration leaves out is never used; an absent entry is never read."""
from prop import *
import terms as tm
import events

META = {'technique': 'value-graph analysis: presence obligations at every dereference, discharged from path conditions and class invariants', 'level': 'proof', 'min': 8,
        'note': 'A function that relies on its callers (a component handed to it as a pointer) is judged in the context of each caller. Pointers obtained from '
                'the Unicode library are C16.',
        'explanation': 'at every dereference of a component pointer, optional value or lookup result the condition "it is there" must follow from the tests on '
                       'the path to it, for any subset of missing components; the members that are dereferenced untested are shown never to be null'}


def run(ctx):
    ctx.rule('at each use of a unique_ptr, pointer, optional or iterator: not null / has a value / not the end, on every path')
    ctx.rule('invariants used: a member no constructor leaves null and no method resets; elements of a list its factory fills only with non-null ones')
    inv = Invariants(ctx)
    sc = events.Scan(ctx, {'null', 'opt', 'iter'}, relevant=relevant, invariants=inv.facts, entry=entry, gens={'AddedVocabulary': gen_av})
    sc.run()


def relevant(e):
    if e.kind == 'iter' and e.what not in ('map iterator', 'end iterator', 'iterator'):
        return False
    if e.kind == 'null' and any(x.op == 'App' and 'icu' in str(x.a[0]) for x in tm.all_subterms(e.oblig)):
        return False
    return True


def entry(f):
    return bool(f.get('over') or f.get('virt')) or f.get('cls') == 'Tokenizer' and f.get('access') == 0


def gen_av(m, r, d=0):
    """an added vocabulary with tokens in it"""
    f = dict(m.default_rec('AddedVocabulary', r, 1).f)
    ws = [(97,), (98, 99)][:r.choice((0, 1, 2))]
    ids = [r.choice((0, 1, 7, 50)) for _ in ws]
    f.update(added_tokens_map=ev.Mv(list(zip(ws, ids))))
    for n in ('split_normalized_trie', 'split_non_normalized_trie'):
        f[n] = ev.Rv('std::pair', {'first': tuple(ws), 'second': tuple(ids)})
    return ev.Rv('AddedVocabulary', f)


class Invariants:
    """members that are never null"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.p = ctx.prog
        self.lists = {}
        self.ptrs = {}
        self.find()

    def fields(self, cls):
        c = self.p.class_by_qn.get(cls)
        return [] if c is None else [(f['n'], vg_td(self.p, c, f)) for f in c['fields']]

    def find(self):
        lib = events.library(self.p)
        for cls, c in sorted(self.p.class_by_qn.items()):
            if not any(f.get('cls') == cls for f in lib):
                continue
            for n, td in self.fields(cls):
                if td[0] in ('uptr', 'unique_ptr', 'ptr') or td[0] == 'opt' and False:
                    self.ptrs.setdefault(cls, []).append(n)
                elif td[0] == 'seq' and td[1][0] in ('uptr', 'unique_ptr', 'ptr'):
                    self.lists.setdefault(cls, []).append(n)
        for cls in list(self.ptrs):
            self.ptrs[cls] = [n for n in self.ptrs[cls] if self.never_null(cls, n, lib)]
        for cls in list(self.lists):
            self.lists[cls] = [n for n in self.lists[cls] if self.filled(cls, n, lib)]

    def never_null(self, cls, n, lib):
        ctors = [f for f in lib if f.get('ctor') and f.get('cls') == cls]
        if not ctors:
            return False
        for f in [g for g in lib if g.get('cls') == cls and not g.get('static')]:
            j = Job(self.ctx, opaque={'bytes_char'} | {'=' + g['qn'] for g in lib if g is not f})
            given = [] if f.get('ctor') else [Not(eq(fld(sym('this', ''), n), tm.NULL))]
            s = j.summ(f, facts=given)
            r = s and (s.ret if f.get('ctor') else s.this)
            if r is None:
                if s is not None and not f.get('ctor'):
                    continue
                return False
            while r.op == 'App' and str(r.a[0]).startswith('call:%s::' % cls) and str(r.a[0]).endswith('!this'):
                r = r.a[1][0]       # a method keeps it (shown for that method)
            c = Not(eq(fld(r, n), tm.NULL))
            if not prove(c, given):
                return False
        self.ctx.did('invariants', '%s::%s is never null' % (cls, n))
        return True

    def filled(self, cls, n, lib):
        """every list of this class built anywhere has non-null elements only"""
        ok = False
        for f in lib:
            if f.get('rt') is None or not str(self.p.type(f['unit'], f['rt']).get('s', '')).startswith('std::unique_ptr') or f.get('cls'):
                continue
            if cls not in [self.p.classes[u]['qn'] for u in self.p.subclasses(base_usr(self.p, f))]:
                continue
            j = Job(self.ctx)
            s = j.summ(f)
            if s is None or s.ret is None:
                return False
            for t in tm.all_subterms(s.ret):
                if t.op == 'Rec' and t.a[0] == cls:
                    ok = True
                    if not nonnull(fld(t, n), []):
                        return False
        if ok:
            self.ctx.did('invariants', 'no element of %s::%s is null' % (cls, n))
        return ok

    def facts(self, j, f):
        this = sym('this', '')
        out = []
        if f.get('cls') and not f.get('ctor'):
            for n in self.ptrs.get(f['cls'], ()):
                out.append(Not(eq(fld(this, n), tm.NULL)))
            for n in self.lists.get(f['cls'], ()):
                l = fld(this, n)
                out.append(forall(length(l), lambda i: Not(eq(at(l, i), tm.NULL))))
        return out


def base_usr(p, f):
    import re
    m = re.match(r'std::unique_ptr<(\w+)', p.type(f['unit'], f['rt'])['s'])
    c = m and p.class_by_qn.get(m.group(1))
    return c['usr'] if c else ''


def nonnull(t, facts):
    """no element of the list t is null"""
    if t.op == 'Seq':
        return all(nonnull(x, facts) for x in t.a[0])
    if t.op == 'Elems':
        return all(prove(Not(eq(x, tm.NULL)), facts) for x in t.a[0])
    if t.op in ('IteS', 'Ite'):
        return nonnull(t.a[1], facts + [t.a[0]]) and nonnull(t.a[2], facts + [Not(t.a[0])])
    if t.op == 'Comp':
        v = tm.fresh('i', 'J')
        return nonnull(tm.open_bv(t.a[2], t.a[1], v), facts + [le(I(0), v), lt(v, t.a[0])])
    return False


def vg_td(p, c, f):
    import vg
    return vg.Engine(p).td(c['unit'], f['t'])
