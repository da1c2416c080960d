"""Obligations at the sites where a value is read that may not be there, function by function and, where a function relies on its callers, in their context."""
from prop import *
import cg
import terms as tm
from load import nodes
import time

LOOPS = {'For', 'While', 'Do', 'RangeFor', 'ForRange'}


def library(prog):
    return sorted((f for f in prog.functions.values() if f.get('body') is not None and f['file'].startswith(('src/', 'include/'))
                   and '~' not in f['qn']), key=lambda f: (f['file'], f['l'], f['qn']))


class Scan:
    """kinds: event kinds; relevant(ev): is it ours; invariants(f): facts on entry of f; entry(f): do its parameters come from outside"""

    def __init__(self, ctx, kinds, relevant=lambda e: True, invariants=lambda j, f: [], entry=None, gens=None, apps=None, slow=(), depth=3, extra=(), keep=()):
        self.ctx, self.p = ctx, ctx.prog
        self.kinds, self.relevant, self.inv, self.gens, self.apps = kinds, relevant, invariants, gens, apps
        self.g = cg.Graph(ctx.prog)
        self.fs = library(ctx.prog)
        self.depth = depth
        self.extra = set(extra)     # always opaque
        self.keep = set(keep)       # not opaque
        self.by_key = {f.get('usr_key', f['usr']): f for f in self.fs}
        self.is_entry = entry or (lambda f: False)
        self.sites = 0
        self.seen = {}
        self.t0 = time.time()
        self.anyway = set()     # proved whoever calls

    def callers(self, f):
        k = f.get('usr_key', f['usr'])
        return [h for h in self.fs if k in self.g.e.get(h.get('usr_key', h['usr']), ()) and h is not f]

    def opaque(self, f, inside=()):
        small = {g['qn'] for g in self.fs if not any(n.get('k') in LOOPS for n in nodes(g['body']))}
        return ({'=' + g['qn'] for g in self.fs if g is not f and g not in inside and g['qn'] not in self.keep and (g['qn'] not in small or g in self.heavy())}
                | {'bytes_char'} | self.extra)

    def heavy(self):
        if not hasattr(self, '_heavy'):
            # what reaches loops through others is kept apart as well
            loopy = {k for k, g in self.by_key.items() if any(n.get('k') in LOOPS for n in nodes(g['body']))}
            self._heavy = [g for k, g in self.by_key.items() if len(self.g.reach([k]) & set(self.by_key)) > 6]
        return self._heavy

    def events(self, f, inside=()):
        k = (f['usr'], tuple(g['usr'] for g in inside))
        if k not in self.seen:
            self.seen[k] = self.events_(f, inside)
        return self.seen[k]

    def events_(self, f, inside):
        j = Job(self.ctx, opaque=self.opaque(f, inside), exact=self.exact)
        ps = self.inv(j, f)
        s = j.summ(f, facts=ps)
        if s is None:
            return j, s, []
        self.last = s
        return j, s, [e for e in s.events if e.kind in self.kinds and self.relevant(e)]

    def run(self, only=None):
        for f in self.fs:
            if only is not None and not only(f):
                continue
            self.function(f)

    def function(self, f):
        j, s, evs = self.events(f)
        if s is None:
            return
        self.ctx.did('functions', f['qn'])
        for n, e in enumerate(evs):
            if e.loc.fn != f['qn'] and any(e.loc.fn == g['qn'] for g in self.fs):
                continue        # reported where it belongs
            self.ctx.did('accesses', '%s:%s %s (%s)' % (e.loc.file, e.loc.line, e.what, f['qn']))
            self.settle(f, j, s, e, 0, (f,))

    def settle(self, f, j, s, e, d, inside):
        import core
        try:
            with core.limit(self.limit):
                return self.settle_(f, j, s, e, d, inside)
        except core.TimeUp:
            self.ctx.unknown('%s at %s:%s' % (e.what, e.loc.file, e.loc.line), s.where, 'not decided within %d s' % self.limit)

    exact = False
    limit = 75
    budget = 300        # seconds for following obligations to callers
    tries = 240

    def settle_(self, f, j, s, e, d, inside):
        what = '%s at %s:%s' % (e.what, e.loc.file, e.loc.line) + (' reached from %s' % f['qn'] if e.loc.fn != f['qn'] else '')
        facts = list(e.facts) + self.inv(j, f)
        facts += instances(e.oblig, facts)
        wh = s.where
        import core
        try:
            with core.limit(25):
                if tm.inconsistent(facts) or prove(e.oblig, facts) or entails(facts, refine(e.oblig, facts)) is True:
                    if d == 0:
                        self.anyway.add((e.loc, e.what))
                    return self.ctx.proved(what, wh, 'in %s: %s' % (f['qn'], tm.show(e.oblig)[:120] if small(e.oblig) else 'follows from the path'))
        except core.TimeUp:
            pass
        cs = self.callers(f)
        if cs and not self.is_entry(f):
            if d >= self.depth or time.time() - self.t0 > self.budget:
                return self.ctx.unknown(what, wh, 'relies on callers, followed %d calls up' % d)
            found = False
            for h in cs:
                j2, s2, evs = self.events(h, inside)
                if s2 is None:
                    continue
                for e2 in evs:
                    if e2.loc == e.loc and e2.what == e.what:
                        found = True
                        self.settle(h, j2, s2, e2, d + 1, inside + (h,))
            if not found:
                self.ctx.proved(what, wh, 'holds at each of the %d calls' % len(cs))
            return
        j.holds(what, wh, e.oblig, facts, tried=True, n=self.tries, gens=self.gens, apps=self.apps, msg='%s:%s in %s: value may be absent:' % (e.loc.file, e.loc.line, e.loc.fn))


def instances(t, facts):
    """the facts 'for every element' at the elements t mentions"""
    out = []
    for f in facts:
        for q in tm.all_subterms(f):
            if q.op == 'FirstIdx' and f is Not(lt(q, q.a[0])):
                n, k, body = q.a
                for x in tm.all_subterms(t):
                    if x.op == 'At' and length(x.a[0]) is n and not ev.freebv(x) and prove(And(le(I(0), x.a[1]), lt(x.a[1], n)), facts):
                        out.append(Not(tm.open_bv(body, k, x.a[1])))
    return out


def small(t):
    n = 0
    for _ in tm.all_subterms(t):
        n += 1
        if n > 40:
            return False
    return True
