"""C18: no container is changed while it is walked, and nothing dangles."""
import flow
from flow import Flow, Client, St, Out
from load import nodes
from core import where
import core

META = {'technique': 'borrow typestate: iterators, references, pointers and views tracked to what they point into over inlined paths', 'level': 'other', 'min': 40,
        'note': 'All paths, but not a proof in one respect: objects inside elements of a container are told apart only by the loop variable that walks it; where that is not enough nothing is reported. Library code is taken to invalidate what the C++ '
                'standard and the ICU documentation say. Code outside the repository holding references into it is out of scope.',
        'explanation': 'every loop over a container, every iterator, reference, pointer and view variable is followed through all paths, '
                       'with calls inlined and parameters bound to the caller\'s objects; a change of the underlying object makes it stale, and a use of a stale one is reported'}

ITERS = ('__gnu_cxx::__normal_iterator', 'std::__detail::_Node_', 'std::_Rb_tree_', 'std::reverse_iterator', 'std::_List_', 'std::_Deque_iterator',
         'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::__detail::_Local', 'std::move_iterator')
SEQ = ('vector', 'basic_string')
UNORD = ('unordered_map', 'unordered_set', 'unordered_multimap', 'unordered_multiset')
TREE = ('map', 'set', 'multimap', 'multiset', 'list', 'forward_list')
ADAPT = ('priority_queue', 'queue', 'stack')
GET_ITER = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'find', 'lower_bound', 'upper_bound', 'before_begin'}
ELEM = {'at', 'operator[]', 'front', 'back', 'top', 'value', 'operator*'}
SEQ_MUT = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'assign', 'append', 'replace', 'operator+=', 'swap', 'clear', 'operator=',
           'erase', 'reserve', 'shrink_to_fit'}
GONE = {'clear', 'operator=', 'assign', 'swap'}
USTR_MUT = {'append', 'operator+=', 'replace', 'remove', 'removeBetween', 'setTo', 'operator=', 'insert', 'truncate', 'toLower', 'toUpper', 'trim', 'reverse',
            'findAndReplace', 'setCharAt', 'retain', 'retainBetween', 'foldCase', 'replaceBetween', 'padLeading', 'padTrailing', 'swap', 'fastCopyFrom',
            'moveFrom'}
LIM = 6
BORROW = ('I', 'R', 'P', 'W')


def kind(cls):
    cls = cls or ''
    if any(cls.startswith(x) for x in ITERS):
        return 'iter'
    if cls.startswith('std::'):
        c = cls[5:].replace('__cxx11::', '').split('<')[0]
        if c in SEQ:
            return 'seq'
        if c in UNORD:
            return 'unord'
        if c in TREE:
            return 'tree'
        if c in ADAPT:
            return 'adapt'
        if c == 'deque':
            return 'deque'
        if c == 'optional':
            return 'opt'
        if c in ('unique_ptr', 'shared_ptr', '__shared_ptr', '__shared_ptr_access'):
            return 'ptr'
        if c == 'basic_string_view' or c == 'span':
            return 'view'
    if cls.startswith('icu_') and cls.endswith('::UnicodeString'):
        return 'ustr'
    if cls.startswith('simdjson'):
        return 'json'
    return None


def inside(path, loc):
    """path lies strictly below loc"""
    return len(path) > len(loc) and path[:len(loc)] == loc


class C(Client):
    handles = ('I', 'W', 'S')

    def __init__(self, p):
        self.p = p
        self.bad = {}
        self.sites = {}

    def site(self, fr, e):
        return '%s:%s in %s' % (fr.fn.get('file', fr.unit.path), e.get('l'), fr.fn.get('qn', 'lambda'))

    def report(self, fr, e, v, use):
        k = (v[2], v[3])
        self.bad.setdefault(k, '%s at %s after %s' % (use, self.site(fr, e), v[4]))

    # ---------------------------------------------------------------- invalidation
    def stale(self, fr, e, v, name, why):
        return ('S', v[0], name or v[0], self.site(fr, e), why)

    def change(self, fr, st, e, loc, what, why, spare=()):
        """the object at loc changes; what: all (elements move), iter (only iterators and walks), gone (elements destroyed)"""
        if loc is None or '[]' in loc or any(isinstance(x, str) and x == '[]' for x in loc):
            return st
        why = '%s at %s' % (why, self.site(fr, e))

        def f(k, v):
            if not (isinstance(v, tuple) and v and v[0] in BORROW) or k in spare or not isinstance(v[1], tuple):
                return v
            walk_ = isinstance(k, tuple) and k[0] == 'rng'
            name = 'the walk' if walk_ else {'I': 'an iterator', 'R': 'a reference', 'P': 'a pointer', 'W': 'a view'}[v[0]]
            p = v[1]
            if v[0] == 'I' or walk_:
                if p == loc:
                    return self.stale(fr, e, v, name, why)
            elif v[0] == 'W' and p == loc and what != 'iter':
                return self.stale(fr, e, v, name, why)
            if inside(p, loc) and what != 'iter':
                rest = p[len(loc):]
                if what == 'gone' and (any(isinstance(x, str) and x[:1] in '[*' for x in rest) or v[0] in ('I', 'W') or walk_):
                    return self.stale(fr, e, v, name, why)
                if what == 'all' and rest[0][:1] == '[' and '*' not in rest and (v[0] in ('R', 'P', 'W') and not walk_) and \
                        not any(x[:1] == '[' for x in rest[1:] if isinstance(x, str)):
                    return self.stale(fr, e, v, name, why)
                if what == 'all' and walk_ and rest[0][:1] == '[' and '*' not in rest and len(rest) == 1:
                    return v
            return v
        return st.update(f)

    def scope_end(self, fr, st, keys, e):
        """the local objects are destroyed"""
        ks = set(keys)

        def f(k, v):
            if isinstance(v, tuple) and v and v[0] in BORROW and isinstance(v[1], tuple) and v[1][:3] in ks and not (isinstance(k, tuple) and k[:3] in ks):
                return self.stale(fr, e, v, {'I': 'an iterator', 'R': 'a reference', 'P': 'a pointer', 'W': 'a view'}[v[0]], 'the end of the object\'s life')
            if isinstance(k, tuple) and k[:3] in ks:
                return None
            return v
        return st.update(f)

    def want_inline(self, fl, fr, e, f):
        if len(fl.stack) <= fl.depth:
            return True
        if fl.depth:
            return False
        # only calls that hand over an object together with a part of it
        ls = [v[1] for v in fl.handed if v and v[0] == 'L' and isinstance(v[1], tuple)]
        return any(a == b or inside(a, b) or inside(b, a) for i, a in enumerate(ls) for b in ls[i + 1:])

    # ---------------------------------------------------------------- uses
    def value(self, fl, fr, st, e, v):
        if v and v[0] == 'S':
            self.report(fr, e, v, 'used')
        return v

    def read(self, fl, fr, st, e, v):
        return fl.read(fr, st, e, v[1]) if v and v[0] == 'L' else v

    def content(self, st, v):
        """the borrow stored in an lvalue, or the borrow itself"""
        if v and v[0] == 'L':
            w = st.get(v[1])
            return w if w and w[0] in ('I', 'W', 'P', 'S') else None
        return v if v and v[0] in ('I', 'W', 'P', 'S') else None

    def is_temp(self, fl, fr, n):
        """a temporary object"""
        if not n:
            return False
        k = n.get('k')
        if k in ('Call', 'MCall', 'ICall'):
            t = fl.p.type(fr.unit, n.get('rt')) if n.get('rt') is not None else None
            return bool(t) and not t.get('ref') and t.get('k') == 'rec'
        if k == 'Ctor':
            return True
        if k in ('Copy',):
            return True
        return False

    def owner(self, fl, fr, n):
        t = fl.p.type(fr.unit, n.get('rt') if n.get('rt') is not None else n.get('t'))
        c = (t or {}).get('cls') or ''
        return not c.split('<')[0].endswith('view')

    # ---------------------------------------------------------------- calls
    def call(self, fl, fr, st, e, name, obj, args):
        if e.get('k') not in ('Call', 'MCall', 'Ctor', 'ICall'):
            return None
        n = e.get('n') or ''
        repo = e.get('repo')
        cls = kind(e.get('cls'))
        an = e.get('args') or []
        if e['k'] == 'Ctor':
            if cls in ('iter', 'view') or cls == 'ptr' or cls == 'json':
                if args:
                    v = self.read(fl, fr, st, e, args[0]) if self.content(st, args[0]) is not None else args[0]
                    if v and v[0] in ('I', 'W', 'S', 'P'):
                        return [(st, v)]
                    if cls == 'view' and v is None and an and self.is_temp(fl, fr, an[0]) and kind((fl.p.type(fr.unit, an[0].get('t')) or {}).get('cls')) == 'seq':
                        return [(st, ('W', ('temp', e.get('l'))))]
                    if cls == 'view' and v and v[0] == 'L':
                        return [(st, ('W', v[1]))]
                return [(st, None)] if not repo else None
            self.uses(fl, fr, st, e, args, repo)
            return None
        if e['k'] == 'Call':
            if n == 'move' and args or n == 'forward' and args:
                return [(st, args[0])]
            if cls is None or not e.get('mstatic'):
                pass
            self.uses(fl, fr, st, e, args, repo)
            if not repo and n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend') and args and args[0] and args[0][0] == 'L':
                return [(st, ('I', args[0][1]))]
            if not repo and n in ('next', 'prev', 'find', 'find_if', 'find_if_not', 'remove_if', 'remove', 'lower_bound', 'upper_bound', 'max_element', 'min_element', 'unique',
                                  'partition', 'stable_partition', 'search', 'adjacent_find', 'rotate') and args:
                v = self.content(st, args[0])
                if v and v[0] == 'I':
                    r = self.walked(fl, fr, st, e, args)
                    return [(s, v) for s in r]
            if not repo and n in ('swap',):
                for a in args[:2]:
                    if a and a[0] == 'L':
                        st = self.change(fr, st, e, a[1], 'gone', 'swap')
                return [(st, None)]
            if not repo and n in ('getline', 'operator>>') and args and args[-1] and args[-1][0] == 'L':
                return [(self.change(fr, st, e, args[-1][1], 'gone', n), None)]
            if not repo and any(self.lam(st, a) for a in args):
                return [(s, None) for s in self.walked(fl, fr, st, e, args)]
            return None
        if e['k'] != 'MCall':
            return None
        o = obj
        if repo and cls is None:
            self.uses(fl, fr, st, e, args, True)
            if o and o[0] == 'L' and n == 'operator=' and self.implicit(fl, fr, e):
                st2 = self.change(fr, st, e, o[1], 'gone', 'assignment')
                return [(fl.store(fr, st2, e, o[1], args[0] if args else None), o)]
            return None
        loc = o[1] if o and o[0] == 'L' else None
        held = self.content(st, o)
        node = e.get('o')
        temp = o is None and self.is_temp(fl, fr, node)
        if temp and loc is None:
            loc = ('temp', e.get('l'))
        if cls == 'iter':
            if n == 'operator=':
                v = self.read(fl, fr, st, e, args[0]) if args else None
                if o and o[0] == 'L':
                    st = st.put(o[1], v if v and v[0] == 'I' else None)
                return [(st, o)]
            if held is not None:
                v = self.read(fl, fr, st, e, o)
            else:
                v = None
            self.uses(fl, fr, st, e, args, False)
            if v is None or v[0] != 'I':
                return [(st, o if n in ('operator++', 'operator--', 'operator+=', 'operator-=') and not args else None)]
            if n == 'operator*' or n == 'operator[]':
                return [(st, ('L', v[1] + ('[]',)))]
            if n == 'operator->':
                return [(st, ('P', v[1] + ('[]',)))]
            if n in ('operator++', 'operator--'):
                return [(st, o if not args else v)]
            if n in ('operator+=', 'operator-='):
                return [(st, o)]
            if n == 'operator-' and args and self.content(st, args[0]):
                return [(st, None)]
            if n in ('operator+', 'operator-', 'base'):
                return [(st, v)]
            return [(st, None)]
        if cls == 'view':
            if n == 'operator=':
                v = self.content(st, args[0]) if args else None
                if v is None and args and args[0] and args[0][0] == 'L':
                    v = None
                if o and o[0] == 'L':
                    st = st.put(o[1], v)
                return [(st, o)]
            v = self.read(fl, fr, st, e, o) if held is not None else None
            self.uses(fl, fr, st, e, args, False)
            if v is not None and v[0] == 'W' and n in ('substr', 'data', 'begin', 'end', 'cbegin', 'cend'):
                return [(st, v)]
            return [(st, None)]
        if cls == 'json':
            v = self.read(fl, fr, st, e, o) if held is not None else None
            self.uses(fl, fr, st, e, args, False)
            if n.startswith('operator ') and n != 'operator =':
                if o and o[0] == 'L' and held is None:
                    return [(st, ('W', o[1]))]
                if temp and (e.get('cls') or '').endswith('padded_string'):
                    return [(st, ('W', ('temp', e.get('l'))))]
            if n == 'iterate' and args:
                if self.content(st, args[0]) is not None:
                    return [(st, self.content(st, args[0]))]
                if args[0] and args[0][0] == 'L':
                    return [(st, ('W', args[0][1]))]
                if an and self.is_temp(fl, fr, an[0]) and self.owner(fl, fr, an[0]):
                    return [(st, ('W', ('temp', e.get('l'))))]
            if n == 'operator=' and o and o[0] == 'L':
                return [(st.put(o[1], self.content(st, args[0]) if args else None), o)]
            return [(st, v if v and v[0] == 'W' else None)]
        if (e.get('cls') or '').endswith('::RegexPattern') and n == 'matcher' and args:
            if held is not None:
                self.read(fl, fr, st, e, o)
            if args[0] and args[0][0] == 'L':
                return [(st, ('W', args[0][1]))]
            if an and self.is_temp(fl, fr, an[0]) and len(args) > 1:
                return [(st, ('W', ('temp', e.get('l'))))]
            return [(st, None)]
        if cls is None:
            self.uses(fl, fr, st, e, args, repo)
            return None
        # containers and owners
        self.uses(fl, fr, st, e, args, False)
        why = '%s::%s' % (e.get('cls', '').split('::')[-1], n)
        if cls == 'ptr':
            if held is not None:
                self.read(fl, fr, st, e, o)     # a matcher over a text
            if n in ('operator->', 'get'):
                if held is not None and held[0] in ('W', 'S'):
                    return [(st, None)]
                return [(st, ('P', loc + ('*',)) if loc else None)]
            if n == 'operator*':
                return [(st, ('L', loc + ('*',)) if loc else None)]
            if n in ('reset', 'operator=', 'swap'):
                st = self.change(fr, st, e, loc, 'gone', why)
                if o and o[0] == 'L' and n == 'operator=':
                    v = self.content(st, args[0]) if args else None
                    st = st.put(o[1], v if v and v[0] in ('W', 'S') else None)
                return [(st, o if n == 'operator=' else None)]
            return [(st, None)]
        if loc is None:
            return None if repo else [(st, None)]
        if cls == 'opt':
            if n in ('reset', 'emplace'):
                return [(self.change(fr, st, e, loc, 'gone', why), ('L', loc + ('[]',)) if n == 'emplace' else None)]
            if n in ('value', 'operator*'):
                return [(st, ('L', loc + ('[]',)))]
            if n == 'operator->':
                return [(st, ('P', loc + ('[]',)))]
            if n == 'operator=':
                return [(st, o)]
            return [(st, None)]
        if cls == 'ustr':
            if n in USTR_MUT:
                return [(self.change(fr, st, e, loc, 'gone', why), o)]
            if n in ('tempSubString', 'tempSubStringBetween', 'getBuffer', 'getTerminatedBuffer'):
                return [(st, ('W', loc))]
            if n == 'toUTF8String' and args and args[0] and args[0][0] == 'L':
                return [(self.change(fr, st, e, args[0][1], 'all', why), args[0])]
            return [(st, None)]
        elem = ('[]', 'second') if cls in ('unord', 'tree') and n in ('at', 'operator[]') else ('[]',)
        if cls in ('seq', 'deque'):
            if n in SEQ_MUT or n in ('pop_back', 'push_front', 'emplace_front', 'pop_front'):
                if n == 'insert' and cls == 'seq':
                    own = [self.content(st, a) for a in args[1:]]
                    if len(own) == 2 and all(x and x[0] == 'I' and x[1] == loc and '[]' not in loc for x in own):
                        self.bad.setdefault(('a container is inserted into itself', self.site(fr, e)), 'insert takes its own elements as the range')
                if n == 'reserve':
                    st = self.change(fr, st, e, loc, 'all', why)
                    st = st.put(('rsv', loc), ('K', 1))
                    return [(st, None)]
                if n in ('operator=', 'swap', 'shrink_to_fit'):
                    st = st.put(('rsv', loc), None)
                roomy = st.get(('rsv', loc)) is not None and n in ('push_back', 'emplace_back', 'operator+=', 'append')
                what = 'gone' if n in GONE else 'iter' if n == 'pop_back' or cls == 'deque' and n.startswith(('push', 'emplace_')) else 'all'
                if roomy:
                    st = st.update(lambda k, v: self.stale(fr, e, v, 'the walk', '%s at %s' % (why, self.site(fr, e)))
                                   if isinstance(k, tuple) and k[0] == 'rng' and v == ('R', loc) and '[]' not in loc else v)
                else:
                    st = self.change(fr, st, e, loc, what, why)
                if n in ('insert', 'erase', 'emplace'):
                    return [(st, ('I', loc) if self.gives_iter(fl, fr, e) else o)]
                if n in ('emplace_back', 'emplace_front'):
                    return [(st, ('L', loc + ('[]',)))]
                if n in ('operator=', 'operator+=', 'append', 'assign', 'replace'):
                    return [(st, o)]
                return [(st, None)]
            if n in ('data', 'c_str', 'operator basic_string_view') or n.startswith('operator basic_string_view'):
                return [(st, ('W', loc))]
            if n in GET_ITER and self.gives_iter(fl, fr, e):
                return [(st, ('I', loc))]
            if n in ELEM:
                return [(st, ('L', loc + elem))]
            return [(st, None)]
        if cls == 'adapt':
            if n in ('push', 'emplace', 'pop', 'swap', 'operator='):
                return [(self.change(fr, st, e, loc, 'gone' if n in GONE else 'all', why), None)]
            if n in ('top', 'front', 'back'):
                return [(st, ('L', loc + ('[]',)))]
            return [(st, None)]
        # maps and sets
        if n in ('clear', 'operator=', 'swap', 'merge'):
            return [(self.change(fr, st, e, loc, 'gone', why), o if n == 'operator=' else None)]
        if n in ('erase', 'extract'):
            a = args[0] if args else None
            own = a[1] if a and a[0] == 'L' and self.content(st, a) else None
            nd = an[0] if an else None
            while own is None and nd is not None and nd.get('k') in ('Ctor', 'Cast', 'Copy'):
                nd = (nd.get('args') or [nd.get('a') or nd.get('e')])[0]
            if own is None and nd is not None and nd.get('k') == 'Var':
                r = fl.ev(nd, st, fr)
                if len(r) == 1 and r[0][1] and r[0][1][0] == 'L' and self.content(st, r[0][1]):
                    own = r[0][1][1]
            st2 = st
            if own is not None:
                v = st.get(own)
                st2 = st2.put(own, self.stale(fr, e, v, 'an iterator', '%s at %s' % (why, self.site(fr, e))))
            if '[]' not in loc:
                st2 = st2.update(lambda k, v: self.stale(fr, e, v, 'the walk', '%s at %s' % (why, self.site(fr, e)))
                                 if isinstance(k, tuple) and k[0] == 'rng' and v == ('R', loc) else v)
            return [(st2, ('I', loc) if self.gives_iter(fl, fr, e) else None)]
        grows = n in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'push_back', 'push_front', 'emplace_back', 'emplace_hint', 'reserve', 'rehash') or \
            n == 'operator[]' and not self.own_key(st, args, loc)
        if grows and cls == 'unord':
            st = self.change(fr, st, e, loc, 'iter', why)
        elif grows and cls == 'tree' and n != 'operator[]':
            pass
        if n in GET_ITER:
            return [(st, ('I', loc))]
        if n in ELEM:
            return [(st, ('L', loc + elem))]
        return [(st, None)]

    def own_key(self, st, args, loc):
        """the key is an element of the container itself"""
        a = args[0] if args else None
        return bool(a) and a[0] == 'L' and inside(a[1], loc)

    def implicit(self, fl, fr, e):
        f = fl.p.lookup(e['usr'], fr.unit)
        return f is None or f.get('body') is None

    def gives_iter(self, fl, fr, e):
        t = fl.p.type(fr.unit, e.get('rt')) if e.get('rt') is not None else None
        return bool(t) and t.get('k') == 'rec' and kind(t.get('cls')) == 'iter'

    def lam(self, st, a):
        v = st.get(a[1]) if a and a[0] == 'L' else a
        return v if v and v[0] in ('F', 'FN') else None

    def uses(self, fl, fr, st, e, args, repo):
        """a stale borrow is handed to a function"""
        if repo:
            return
        for a in args:
            v = self.content(st, a)
            if v and v[0] == 'S':
                self.report(fr, e, v, 'used')

    def walked(self, fl, fr, st, e, args):
        """a library algorithm walks a container and calls functions on the way"""
        its = [self.content(st, a) for a in args]
        locs = [v[1] for v in its if v and v[0] == 'I'][:1]
        fs = [self.lam(st, a) for a in args]
        fs = [f for f in fs if f]
        if not fs:
            return [st]
        key = ('rng', fr.key, ('call', id(e)))
        if locs:
            st = st.put(key, ('R', locs[0]))
            self.note(fr, e, 'algorithm')
        work, seen, out = {st}, set(), set()
        while work and len(seen) < 50:
            seen |= work
            nx = set()
            for s in work:
                v = s.get(key)
                if v and v[0] == 'S':
                    self.report(fr, e, v, 'continued')
                    continue
                for f in fs:
                    ps = self.arity(fl, f)
                    a = [('L', locs[0] + ('[]',))] * ps if locs and ps <= 1 else [None] * ps
                    for s2, _ in fl.apply(f, a, e, s, fr):
                        nx.add(s2)
            work = nx - seen
        return [s.put(key, None) for s in seen]

    def arity(self, fl, f):
        if f[0] == 'F':
            le = fl.lams.get((f[1], f[2]))
            b = le and (le[0].get('body') or (le[0].get('specs') or [None])[0])
            return len(b['params']) if b else 0
        return 0

    # ---------------------------------------------------------------- statements
    def note(self, fr, e, what):
        self.sites.setdefault((self.site(fr, e), what), 1)

    def on_range(self, fl, fr, st, s, rv):
        self.note(fr, s, 'loop')
        if rv and rv[0] == 'L' and rv[1][:1] == ('temp',) and len(rv[1]) > 2:
            self.bad.setdefault(('the walk', self.site(fr, s)), 'it walks a part of a temporary object that is already destroyed')
        self.ranges = getattr(self, 'ranges', {})
        self.ranges[(fr.key, s['v']['id'])] = s
        for b in s['v'].get('bindings') or []:
            self.ranges[(fr.key, b['id'])] = s
        return st

    def on_iter(self, fl, fr, st, s, rv):
        if rv and rv[0] == 'S':
            self.report(fr, s, rv, 'continued')
        tag = '[@%s' % s['v']['id']

        def f(k, v):
            if isinstance(v, tuple) and len(v) > 1 and v[0] in BORROW and isinstance(v[1], tuple) and tag in v[1]:
                return (v[0], tuple('[]' if x == tag else x for x in v[1])) + v[2:]
            return v
        return st.update(f)

    def on_decl(self, fl, fr, st, v, val):
        key = ('v', fr.key, v['id'])
        w = st.get(key)
        if (fr.key, v['id']) in getattr(self, 'ranges', {}) and val is None and v.get('init') is None:
            tag = '[@%s' % v['id']
            for k in [key] + [('v', fr.key, b['id']) for b in v.get('bindings') or []]:
                x = st.get(k)
                if x and x[0] == 'R' and isinstance(x[1], tuple) and '[]' in x[1]:
                    i = len(x[1]) - 1 - x[1][::-1].index('[]')
                    st = st.put(k, ('R', x[1][:i] + (tag,) + x[1][i + 1:]))
            return st
        if w and w[0] in BORROW and isinstance(w[1], tuple):
            self.note(fr, v if 'l' in v else fr.fn, 'variable ' + str(v.get('n')))
            if w[1][:1] == ('temp',) and (w[0] != 'R' or len(w[1]) > 2):
                st = st.put(key, self.stale(fr, v, w, 'a view' if w[0] == 'W' else 'a reference', 'the temporary it points into is destroyed at the end of the declaration'))
        return st

    def on_assign(self, fl, fr, st, e, loc, val):
        v = st.get(loc)
        if v and v[0] in BORROW and isinstance(v[1], tuple) and v[1][:1] == ('temp',):
            return st.put(loc, self.stale(fr, e, v, 'a view', 'the temporary it points into is destroyed at the end of the statement'))
        if val is None or val[0] not in ('I', 'P', 'W', 'S', 'K', 'F', 'FN', 'N'):
            st = self.change(fr, st, e, loc, 'gone', 'assignment')
        return st

    def on_return(self, fl, fr, st, v, s):
        if v is None or v[0] not in ('L', 'I', 'P', 'W', 'R') or not isinstance(v[1], tuple):
            return
        rt = fl.p.type(fr.unit, fr.fn.get('rt')) if fr.fn.get('rt') is not None else None
        if rt is None:
            return
        if v[0] == 'L' and not rt.get('ref'):
            return
        if v[0] != 'L' and rt.get('k') == 'rec' and kind(rt.get('cls')) not in ('iter', 'view', 'json', 'ptr', None):
            return
        if v[0] != 'L' and rt.get('k') in ('int', 'bool', 'enum', 'void', 'float'):
            return
        root = v[1][:3]
        if v[1][:1] == ('temp',) or v[1][:2] == ('v', fr.key) and not (st.get(root) or (None,))[0] == 'R':
            if v[0] == 'P' and '*' in v[1]:
                return
            what = {'L': 'a reference', 'R': 'a reference', 'I': 'an iterator', 'P': 'a pointer', 'W': 'a view'}[v[0]]
            self.bad.setdefault((what + ' is returned', self.site(fr, s)), 'it points into an object of %s that is destroyed on return' % fr.fn.get('qn', 'lambda'))


def slim(st):
    """only what the rules need: borrows, functions, and constants in local variables"""
    def f(k, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] in BORROW or v[0] in ('S', 'F', 'FN'):
            return v
        if v[0] == 'K' and isinstance(k, tuple) and (k[0] == 'rsv' or k[0] == 'v' and len(k) == 3):
            return v
        return None
    return st.update(f)


class F(Flow):
    def __init__(self, p, c, depth):
        super().__init__(p, c)
        self.depth = depth

    def cap(self, states):
        return super().cap({slim(s) for s in states})

    def call(self, e, st, fr, obj, args):
        self.handed = [obj if obj else ('L', fr.this) if e.get('k') == 'MCall' and fr.this else None] + list(args)
        return super().call(e, st, fr, obj, args)

    def exec(self, s, states, fr):
        o = super().exec(s, states, fr)
        o.next = {slim(x) for x in o.next}
        o.brk = {slim(x) for x in o.brk}
        o.cont = {slim(x) for x in o.cont}
        o.ret = {(slim(x), v) for x, v in o.ret}
        o.throw = {(slim(x), v) for x, v in o.throw}
        return o

    def e_Var(self, e, st, fr):
        out = super().e_Var(e, st, fr)
        res = []
        for s, v in out:
            if v and v[0] == 'L':
                w = s.get(v[1])
                if w and w[0] == 'S' and w[1] == 'R':
                    self.c.report(fr, e, w, 'used')
            res.append((s, v))
        return res

    def x_Block(self, s, states, fr, out):
        super().x_Block(s, states, fr, out)
        keys = [('v', fr.key, v['id']) for x in s['s'] if x.get('k') == 'Decl' for v in x['v']]
        if keys and fr.fn.get('body') is not s:
            for a in ('next', 'brk', 'cont'):
                setattr(out, a, {self.c.scope_end(fr, st, keys, s) for st in getattr(out, a)})


def run(ctx):
    p = ctx.prog
    ctx.rule('borrow(object): loop over it, iterator, reference or pointer to an element, view of its text')
    ctx.rule('a change of the object that the library says invalidates the borrow makes it stale; continuing the loop or using a stale borrow is a violation')
    ctx.rule('a borrow of a local or temporary object may not outlive it')
    bad, sites, cut = {}, {}, []
    for f in sorted(p.functions.values(), key=lambda f: (f['qn'], f['usr'])):
        if f.get('body') is None:
            continue
        for depth in (flow.MAXDEPTH, 3, 0):
            c = C(p)
            fl = F(p, c, depth)
            try:
                with core.limit(LIM):
                    fl.run(f)
            except core.TimeUp:
                fl.cut = True
            if not fl.cut:
                break
        if fl.cut:
            cut.append(f)
        ctx.did('functions' if depth == flow.MAXDEPTH else 'functions where only calls %s are followed' % ('to depth 3' if depth else 'that hand over an object and a part of it'), f['qn'])
        for k, v in c.bad.items():
            bad.setdefault(k, v)
        for k in c.sites:
            sites.setdefault(k, f['qn'])
    for (what, site), why in sorted(bad.items()):
        ctx.refuted('%s stays valid while it is in use' % what, site, why)
    hit = {s for _, s in bad}
    for (site, what), root in sorted(sites.items()):
        ctx.proved('%s stays valid' % what, site, 'on every path, from every caller')
    for f in cut:
        ctx.unknown('%s is followed' % f['qn'], where(f), 'state or time limit')
