"""C16: ICU status typestate. Every operation that writes a UErrorCode leaves it pending; a pending status must be tested, and the
failing side must leave by an exception, before the function returns normally, before the operation's outputs are used, and
(for a compiled pattern or a matcher) before matching."""
from flow import Flow, Client, St
from cg import handler_exits, handlers_around, roots
from core import where
from load import nodes

META = {'technique': 'typestate analysis of ICU error codes over inlined paths', 'level': 'proof', 'min': 3,
        'explanation': 'path-sensitive typestate over the syntax tree, helpers inlined'}


# methods of a matcher that have a variant with an error code and one that swallows the error
SILENT = {'find'}


def is_status_type(p, u, t):
    ty = p.type(u, t)
    if ty is None:
        return False
    return ty.get('k') == 'enum' and ty.get('cls', '').split('::')[-1] == 'UErrorCode'


class C(Client):
    handles = ('T',)

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = {}
        self.ops = {}
        self.tests = set()

    def site(self, fl, fr, e):
        return '%s:%s in %s' % (fr.fn.get('file', fr.unit.path), e.get('l'), fr.fn.get('qn', 'lambda'))

    def flag(self, k, w, why):
        self.bad.setdefault((k, w), why)

    # status values: st[loc] = ('S', state, opname, where); outputs: st[('out', loc)] = statusloc
    def pending(self, st, loc):
        v = st.get(('S', loc))
        return v is not None and v[0] == 'pending'

    def status_args(self, fl, fr, e, args):
        out = []
        for i, a in enumerate(e.get('args', [])):
            t = a.get('t')
            if i < len(args) and args[i] and args[i][0] == 'L' and t is not None and is_status_type(fl.p, fr.unit, t) and \
                    i < len(e.get('modes', '')) and e['modes'][i] == 'm':
                out.append((i, args[i][1]))
            elif i < len(args) and args[i] and args[i][0] == 'P' and i < len(e.get('modes', '')) and e['modes'][i] == 'p':
                ty = fl.p.type(fr.unit, t)
                if ty and ty.get('k') == 'ptr' and is_status_type(fl.p, fr.unit, ty.get('to')):
                    out.append((i, args[i][1]))
        return out

    def use(self, fl, fr, st, e, v):
        """a value read: is it an output of a pending operation?"""
        loc = None
        if v and v[0] == 'L':
            loc = v[1]
        elif v and v[0] == 'O':
            loc = v[1]
        if v and v[0] == 'T':
            if self.pending(st, v[1]):
                self.report_use(fl, fr, st, e, v[1])
            return
        if loc is None:
            return
        for n in range(len(loc), 0, -1):
            s = st.get(('out', loc[:n]))
            if s is not None and self.pending(st, s[1]):
                self.report_use(fl, fr, st, e, s[1])
                return

    def report_use(self, fl, fr, st, e, sl):
        v = st.get(('S', sl))
        self.flag('the result of %s (%s) is used only after its status was found successful' % (v[1], v[2]), self.site(fl, fr, e),
                  'the result is used while the status of %s at %s is still untested' % (v[1], v[2]))

    def call(self, fl, fr, st, e, name, obj, args):
        short = (name or '').split('::')[-1]
        if e['k'] == 'Copy':
            v = obj
            if v and v[0] == 'T':
                return [(st, v)]
            if v and v[0] == 'L':
                self.use(fl, fr, st, e, v)
            return None
        if e.get('repo'):
            return None
        sa = self.status_args(fl, fr, e, args)
        if short in ('U_FAILURE', 'U_SUCCESS') and e['args']:
            a = args[0]
            if a and a[0] == 'L':
                a = fl.read(fr, st, e['args'][0], a[1])
            if a and a[0] == 'SV':
                self.tests.add(self.site(fl, fr, e))
                return [(st, ('B', ('F?', a[1]), short == 'U_FAILURE'))]
            return [(st, None)]
        if sa:
            i, sl = sa[0]
            w = self.site(fl, fr, e)
            self.ops[(short, w)] = self.ops.get((short, w), 0) + 1
            # matching on an object whose own construction is still pending
            if short in ('find', 'lookingAt', 'matches', 'replaceAll', 'replaceFirst', 'split') or (short == 'matcher'):
                o = obj
                src = self.origin(st, o)
                if src is not None and self.pending(st, src) and st.get(('S', src))[1] not in ('find', 'lookingAt', 'matches'):
                    v = st.get(('S', src))
                    self.flag('%s (%s) is tested before matching' % (v[1], v[2]), w,
                              '%s runs although the status of %s at %s is untested' % (short, v[1], v[2]))
            # other operands that are outputs of a pending operation under another status
            for j, a in enumerate(args):
                if j != i:
                    s = self.origin(st, a)
                    if s is not None and self.pending(st, s) and s != sl:
                        self.use(fl, fr, st, e, a)
                    elif s is not None and self.pending(st, s) and s == sl and short not in ('toUTF32', 'normalize'):
                        pass
            cur = st.get(('S', sl))
            accessor = short in ('start', 'end', 'group', 'groupCount')
            if cur is None and not accessor:
                st = st.put(('S', sl), ('pending', short, w))
            # written outputs
            for j, a in enumerate(args):
                if j != i and a and a[0] == 'L' and j < len(e['modes']) and e['modes'][j] == 'm':
                    st = st.put(('out', a[1]), ('s', sl))
                elif j != i and a and a[0] == 'P' and e['modes'][j] == 'p':
                    st = st.put(('out', a[1]), ('s', sl))
            if short in ('find', 'lookingAt', 'matches'):
                # false may mean failure; true means a match was found
                return [(st, ('B', ('M?', sl), True))]
            if accessor:
                return [(st, None)]
            return [(st, ('T', sl))]
        # any other library call reads its operands
        if e['k'] in ('Call', 'MCall', 'Ctor'):
            if short in ('operator=',) and obj and obj[0] == 'L':
                # assigned afresh
                for a in args:
                    self.use(fl, fr, st, e, a)
                st = st.put(('out', obj[1]), None)
                s = self.origin(st, args[0]) if args else None
                if s is not None:
                    st = st.put(('out', obj[1]), ('s', s))
                return [(st, obj)]
            smart = 'unique_ptr' in (e.get('cls') or '') or 'shared_ptr' in (e.get('cls') or '')
            if smart:
                if e['k'] == 'Ctor':
                    return [(st, args[0] if args and args[0] and args[0][0] == 'T' else None)]
                if short in ('operator->', 'get', 'operator*'):
                    s = self.origin(st, obj)
                    return [(st, ('T', s) if s is not None else None)]
                return None
            for a in [obj] + list(args):
                self.use(fl, fr, st, e, a)
        return None

    def origin(self, st, v):
        if not v:
            return None
        if v[0] == 'T':
            return v[1]
        if v[0] in ('L', 'O', 'P'):
            loc = v[1]
            for n in range(len(loc), 0, -1):
                s = st.get(('out', loc[:n]))
                if s is not None:
                    return s[1]
                t = st.get(loc[:n])
                if t is not None and t[0] == 'T':
                    return t[1]
        return None

    def value(self, fl, fr, st, e, v):
        if v and v[0] == 'O' and is_status_type(fl.p, fr.unit, e.get('t')):
            return ('SV', v[1])
        if v and v[0] == 'K' and is_status_type(fl.p, fr.unit, e.get('t')) and False:
            return v
        return v

    def on_decl(self, fl, fr, st, v, val):
        if is_status_type(fl.p, fr.unit, v.get('t')) and not v.get('ref'):
            key = ('v', fr.key, v['id'])
            st = st.put(key, None).put(('S', key), None)
        elif val and val[0] == 'T' and not v.get('ref'):
            key = ('v', fr.key, v['id'])
            st = st.put(('out', key), ('s', val[1]))
        return st

    def on_assign(self, fl, fr, st, e, loc, val):
        if st.get(('S', loc)) is not None:
            v = st.get(('S', loc))
            if v[0] == 'pending':
                self.flag('the status of %s (%s) is tested before it is overwritten' % (v[1], v[2]), self.site(fl, fr, e),
                          'the error code is reset while the status of %s is untested' % v[1])
            st = st.put(('S', loc), None).put(loc, None)
        if val and val[0] == 'T':
            st = st.put(('out', loc), ('s', val[1]))
        return st

    def binop(self, fl, s, op, a, b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x and x[0] == 'SV' and y and y[0] == 'K' and y[1] == 0:
                o = op
                if flip:
                    o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if o in ('>', '!='):
                    return ('B', ('F?', x[1]), True)
                if o in ('<=', '=='):
                    return ('B', ('F?', x[1]), False)
        return None

    def truth(self, fl, st, v):
        if v and v[0] == 'F?':
            sl = v[1]
            cur = st.get(('S', sl))
            if cur is None:
                return [(True, st), (False, st)] if False else [(False, st)] if st.get(('S', sl)) is None and sl[0] == 'v' else [(True, st), (False, st)]
            if cur[0] == 'failed':
                return [(True, st)]
            return [(True, st.put(('S', sl), ('failed',) + cur[1:])), (False, st.put(('S', sl), None))]
        if v and v[0] == 'M?':
            # a match was found, so the operation did not fail
            cur = st.get(('S', v[1]))
            ok = st
            if cur and cur[0] == 'pending' and cur[1] in ('find', 'lookingAt', 'matches'):
                ok = st.put(('S', v[1]), None)
            return [(True, ok), (False, st)]
        if v and v[0] == 'SV':
            # used as a truth value: non-zero is failure (or a warning)
            return self.truth(fl, st, ('F?', v[1]))
        return [(True, st), (False, st)]

    def leave_status(self, fl, fr, st, s, fn):
        pass


def run(ctx):
    p = ctx.prog
    ctx.rule('UErrorCode typestate: clean -> (ICU operation) pending -> (tested) clean | failed; a normal return with a pending or failed '
             'status owned by the function, a use of an output while pending, a reset while pending and matching on an unchecked pattern '
             'are violations')
    owners = []
    for f in p.functions.values():
        if f.get('body') is None:
            continue
        own = [v for n in nodes(f['body']) if n.get('k') == 'Decl' for v in n['v'] if is_status_type(p, f['unit'], v.get('t')) and not v.get('ref')]
        if own:
            owners.append((f, own))
    done = set()
    for f in roots(p, [f for f, _ in owners]):
        c = C(ctx)
        fl = Flow(p, c)
        o = fl.run(f)
        ctx.did('functions', f['qn'])
        pend = {}
        for st, v in o.ret:
            for k, x in st.d.items():
                if isinstance(k, tuple) and k[0] == 'S' and k[1][0] == 'v':
                    pend[(x[1], x[2])] = x[0]
        if fl.cut:
            ctx.unknown('paths of %s explored' % f['qn'], where(f), 'state limit')
        if c.ops and not o.ret and not fl.cut:
            ctx.refuted('%s returns a result when its Unicode operations succeed' % f['qn'], where(f), 'no path returns normally with every status successful')
        for (op, w), n in sorted(c.ops.items()):
            if (op, w, (op, w) in pend) in done:
                continue
            done.add((op, w, (op, w) in pend))
            ctx.did('operations', '%s %s' % (op, w))
            if (op, w) in pend:
                ctx.refuted('a failure of %s raises an exception' % op, w,
                            'a path returns normally from %s with the status %s' % (f['qn'], 'untested' if pend[(op, w)] == 'pending' else 'known to be a failure'))
            else:
                ctx.proved('a failure of %s raises an exception' % op, w, 'on every path to a normal return the status was tested and successful')
        for (k, w), why in sorted(c.bad.items()):
            ctx.refuted(k, w, why)
    keys = {f.get('usr_key', f['usr']) for f, _ in owners}
    thrown = {'std::runtime_error'}
    for f, _ in owners:
        for n in nodes(f['body']):
            if n.get('k') == 'Throw' and n.get('a'):
                c = (p.type(f['unit'], n['a'].get('t')) or {}).get('cls')
                if c:
                    thrown.add(c)
    for f, n, h in handlers_around(p, keys, lambda x, f: False, thrown):
        w = '%s:%s in %s' % (f['file'], h['l'], f['qn'])
        v = handler_exits(p, f, h)
        ctx.did('handlers', w)
        if v:
            ctx.refuted('a handler around Unicode operations raises an exception', w, v)
        else:
            ctx.proved('a handler around Unicode operations raises an exception', w, 'no path through the handler completes normally')
    # operations outside functions that own a status (status handed in by a caller) are covered where they are inlined
    covered = set()
    for o in ctx.obls:
        covered.add(o['where'])
    for f in p.functions.values():
        if f.get('body') is None:
            continue
        for n in nodes(f['body']):
            if n.get('k') in ('Call', 'MCall') and 'modes' in n and not n.get('repo'):
                for i, a in enumerate(n.get('args', [])):
                    if i < len(n['modes']) and n['modes'][i] == 'm' and is_status_type(p, f['unit'], a.get('t')):
                        w = '%s:%s in %s' % (f['file'], n['l'], f['qn'])
                        if w not in covered:
                            tail = ':%s in' % n['l']
                            if not any(f['file'] + tail in x or tail in x for x in covered):
                                ctx.unknown('a failure of %s raises an exception' % n['n'], w, 'the status is not owned by an analysed function')
    # overloads that keep an error to themselves
    for f in p.functions.values():
        for n in nodes(f.get('body') or {}):
            if n.get('k') == 'MCall' and not n.get('repo') and (n.get('n') or '').split('::')[-1] in SILENT and not any(
                    is_status_type(p, f['unit'], a.get('t')) for a in n.get('args', [])) and \
                    any(c in (n.get('n') or '') + (n.get('cls') or '') for c in ('RegexMatcher',)):
                ctx.refuted('matching reports its errors', '%s:%s in %s' % (f['file'], n['l'], f['qn']),
                            '%s without an error code stops silently when matching fails' % n['n'])
    # a status that is no variable at all
    for f in p.functions.values():
        for n in nodes(f.get('body') or {}):
            if n.get('k') == 'GVar' and is_status_type(p, f['unit'], n.get('t')):
                ctx.unknown('error codes are local', '%s:%s in %s' % (f['file'], n['l'], f['qn']))
