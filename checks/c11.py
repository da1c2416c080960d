"""C11: every JSON error is raised."""
import re
from cg import handler_exits, handlers_around, library_functions
from core import where
from flow import Client, Flow
from load import nodes

META = {'technique': 'typestate analysis of JSON results and error codes; handler and constructor-guard analysis', 'level': 'proof', 'min': 8,
        'explanation': 'every consumption of a simdjson result is enumerated; error codes, tested values and handlers are followed on all paths'}

QUIET = {'value_unsafe', 'tie', 'first', 'second', 'take_value_unsafe'}
TYPED = {'get_string', 'get_int64', 'get_uint64', 'get_double', 'get_bool', 'get_object', 'get_array', 'get', 'value', 'take_value', 'begin',
         'find_field', 'find_field_unordered', 'operator[]', 'at', 'get_wobbly_string', 'get_raw_json_string', 'raw_json_token', 'raw_json',
         'count_elements', 'count_fields', 'get_int64_in_string', 'get_double_in_string', 'get_uint64_in_string', 'get_value', 'get_number',
         'at_pointer'}


def tname(p, u, t):
    ty = p.type(u, t)
    return (ty or {}).get('cls', '') or ''


def is_result(c):
    return c.endswith('simdjson_result') or 'simdjson_result' in c


def is_value(p, u, t):
    ty = p.type(u, t)
    if not ty:
        return False
    c = ty.get('cls', '')
    if c.endswith('ondemand::value'):
        return True
    return is_result(c) and 'ondemand::value' in ty['s']


def is_err(p, u, t):
    ty = p.type(u, t)
    return bool(ty) and ty.get('k') == 'enum' and ty.get('cls', '').endswith('error_code')


def is_jtype(p, u, t):
    ty = p.type(u, t)
    return bool(ty) and 'json_type' in ty.get('s', '')


class C(Client):
    handles = ('JV', 'JT')

    def __init__(self, ctx, null):
        self.ctx = ctx
        self.bad = {}
        self.sites = {}
        self.null = null

    def site(self, fr, e):
        return '%s:%s in %s' % (fr.fn.get('file', fr.unit.path), e.get('l'), fr.fn.get('qn', 'lambda'))

    def want_inline(self, fl, fr, e, f):
        # recursion into other components is analysed at its own root
        return any(is_value(fl.p, f['unit'], x['t']) for x in f['params']) or not any(is_json_param(fl.p, f, x) for x in f['params'])

    def mark(self, st, loc):
        if loc is not None and st.get(('J', loc)) is not None:
            return st.put(('J', loc), None)
        return st

    def call(self, fl, fr, st, e, name, obj, args):
        short = e.get('n', '') if e['k'] != 'Copy' else ''
        cls = e.get('cls') or ''
        p = fl.p
        if e['k'] == 'Copy':
            return None
        if is_err(p, fr.unit, e.get('t')) and not e.get('repo') and e['k'] in ('Call', 'MCall'):
            k = ('E', e['l'], e.get('n'))
            self.sites[k] = self.site(fr, e)
            for a in args:
                if a and a[0] == 'L':
                    st = self.mark(st, a[1])
            if obj and obj[0] == 'L':
                st = self.mark(st, obj[1])
            return [(st.put(k, 'pending'), ('EC', k))]
        js = 'simdjson' in cls or (e.get('fn') or '').startswith('simdjson')
        if js and short in ('type', 'is_null', 'is_scalar', 'is_string'):
            loc = obj[1] if obj and obj[0] == 'L' else None
            if loc is None and e['k'] == 'MCall':
                loc = literal_key(e)
                if loc is not None and short == 'type' and st.get(('J', loc)) is None:
                    st = st.put(('J', loc), ('fresh', self.site(fr, e)))
            if short == 'type':
                return [(st, ('JT', loc))]
            if short == 'is_null' and loc is not None and is_value(p, fr.unit, e['o'].get('t')):
                return [(st, ('B', ('JN', loc), True))]
            return [(st, None)]
        if js and obj and obj[0] == 'JT':
            # conversion or value() of a type() result
            return [(st, obj)]
        if (name or '').endswith('operator==') or (name or '').endswith('operator!='):
            vals = [obj] + list(args) if e['k'] == 'MCall' else list(args)
            vals = [fl.read(fr, st, e, v[1]) if v and v[0] == 'L' else v for v in vals]
            r = self.binop(fl, st, '==' if name.endswith('==') else '!=', *vals[:2]) if len(vals) >= 2 else None
            return [(st, r)] if r else None
        if js:
            for a in args:
                if a and a[0] == 'L':
                    st = self.mark(st, a[1])
            if e['k'] == 'MCall' and short == 'operator=' and obj and obj[0] == 'L' and is_value(p, fr.unit, e['o'].get('t')):
                st = self.over(fl, fr, st, e, obj[1])
                return [(st.put(('J', obj[1]), ('fresh', self.site(fr, e))), obj)]
            if obj and obj[0] == 'L':
                st = self.mark(st, obj[1])
            k = literal_key(e)
            if k is not None and short != 'operator[]':
                st = self.mark(st, k)
            return [(st, None)]
        # handed to any other function: consumed there
        f = p.lookup(e['usr'], fr.unit) if e.get('usr') else None
        if f is not None and f.get('body') is not None and not e.get('virt') and f['usr'] not in fl.stack and self.want_inline(fl, fr, e, f):
            return None
        for a in [obj] + list(args):
            if a and a[0] == 'L':
                st = self.mark(st, a[1])
        return None

    def over(self, fl, fr, st, e, loc):
        v = st.get(('J', loc))
        if v and v[0] == 'tested':
            self.flag(v, self.site(fr, e))
        return st.put(('J', loc), None)

    def flag(self, v, at):
        self.bad[(v[1], v[2])] = at

    def value(self, fl, fr, st, e, v):
        return v

    def binop(self, fl, s, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x and x[0] == 'JT' and y and y[0] == 'K' and x[1] is not None and op in ('==', '!='):
                return ('B', ('JN' if y[1] == self.null else 'JX', x[1]), op == '==')
            if x and x[0] == 'EC' and y and y[0] == 'K' and op in ('==', '!='):
                if y[1] == 0:
                    return ('B', ('EF', x[1]), op == '!=')
                return ('B', ('ES', x[1]), op == '==')
        return None

    def truth(self, fl, st, v):
        if v and v[0] in ('JN', 'JX'):
            cur = st.get(('J', v[1]))
            if cur is None:
                return [(True, st), (False, st)]
            w = cur[1]
            tested = st.put(('J', v[1]), ('tested', w, 'type test'))
            if v[0] == 'JN':
                return [(True, st.put(('J', v[1]), None)), (False, tested)]
            return [(True, tested), (False, tested)]
        if v and v[0] in ('EF', 'EC'):
            k = v[1]
            cur = st.get(k)
            if cur == 'failed':
                return [(True, st)]
            if cur is None:
                return [(False, st)]
            return [(True, st.put(k, 'failed')), (False, st.put(k, None))]
        if v and v[0] == 'ES':
            k = v[1]
            return [(True, st.put(k, 'failed')), (False, st)]
        return [(True, st), (False, st)]

    def on_decl(self, fl, fr, st, v, val):
        key = ('v', fr.key, v['id'])
        old = st.get(('J', key))
        if old and old[0] == 'tested':
            self.flag(old, '%s in %s' % (v['l'], fr.fn.get('qn')))
        st = st.put(('J', key), None)
        if is_value(fl.p, fr.unit, v.get('t')) and (v.get('init') is None or True):
            if v.get('init') is not None and v['init'].get('k') not in ('Ctor',):
                st = st.put(('J', key), ('fresh', '%s:%s in %s' % (fr.fn.get('file'), v['l'], fr.fn.get('qn'))))
        return st


def literal_key(e):
    """the option an access chain like doc["a"].get_object() reads"""
    o = e.get('o')
    while isinstance(o, dict):
        if o.get('n') == 'operator[]' and o.get('args'):
            for x in nodes(o['args']):
                if x.get('k') == 'Str':
                    return ('key', tuple(x['v']))
            return None
        o = o.get('o') or o.get('a')
    return None


def is_json_param(p, f, x):
    return 'simdjson' in (p.type(f['unit'], x['t']) or {}).get('s', '')


def run(ctx):
    p = ctx.prog
    null = None
    for n, e in p.enums.items():
        pass
    # json_type::null as an enumerator in the sources
    for f in p.functions.values():
        for n in nodes(f.get('body') or {}):
            if n.get('k') == 'Enum' and n.get('n') == 'null' and 'json_type' in (p.type(f['unit'], n.get('t')) or {}).get('s', ''):
                null = n['v']
    ctx.rule('a JSON value whose type was tested and found not null is consumed by a converting (throwing) access before it is overwritten or the function returns')
    ctx.rule('error codes returned by simdjson are tested and the failing side leaves by an exception')
    ctx.rule('no non-throwing accessor (value_unsafe, tie) is used; no simdjson result is discarded')
    ctx.rule('a handler around configuration parsing never completes normally; constructing without path and configuration throws')
    jsonf = set()
    for f in library_functions(p):
        use = False
        for n in nodes([f.get('body'), f.get('inits')]):
            if n.get('k') in ('MCall', 'Call') and 'simdjson' in (n.get('cls') or n.get('fn') or ''):
                use = True
                w = '%s:%s in %s' % (f['file'], n['l'], f['qn'])
                ctx.did('json operations', n.get('n'))
                if n.get('n') in QUIET:
                    ctx.refuted('JSON results are read by accessors that raise errors', w, '%s() reads the result without checking its error' % n['n'])
            if n.get('k') == 'Mem' and n.get('f') in ('first', 'second') and 'simdjson' in (n.get('cls') or '') and 'result' in (n.get('cls') or ''):
                ctx.refuted('JSON results are read by accessors that raise errors', '%s:%s in %s' % (f['file'], n['l'], f['qn']), 'the result is taken apart without checking its error')
            if n.get('k') == 'Expr' and n['a'].get('k') in ('MCall', 'Call') and is_result(tname(p, f['unit'], n['a'].get('t'))):
                w = '%s:%s in %s' % (f['file'], n['l'], f['qn'])
                ctx.refuted('no JSON result is left unchecked', w, 'the result of %s is discarded' % n['a'].get('n'))
        if use:
            jsonf.add(f.get('usr_key', f['usr']))
            c = C(ctx, null)
            fl = Flow(p, c)
            o = fl.run(f)
            ends = {}
            for st, v in o.ret:
                for k, x in st.d.items():
                    if isinstance(k, tuple) and k[0] == 'J' and x[0] == 'tested':
                        c.bad.setdefault((x[1], x[2]), where(f))
                    if isinstance(k, tuple) and k[0] == 'E':
                        ends[k] = x
            ctx.did('functions', f['qn'])
            for k, w in c.sites.items():
                if k in ends:
                    ctx.refuted('a failure of %s raises an exception' % k[2], w, 'a path returns normally with the error code %s' %
                                ('ignored' if ends[k] == 'pending' else 'known to be a failure'))
                else:
                    ctx.proved('a failure of %s raises an exception' % k[2], w)
            for (w, k), at in sorted(c.bad.items()):
                ctx.refuted('an option of the wrong type raises an error', w, 'on a path to %s the value is found not to be null but is never converted, so a value of the '
                            'wrong type is accepted silently' % at)
            if not c.bad:
                ctx.proved('options of the wrong type raise an error in %s' % f['qn'], where(f), 'every tested value is converted')
            if fl.cut:
                ctx.unknown('paths of %s explored' % f['qn'], where(f), 'state limit')
    # handlers
    def isjson(x, f):
        return x.get('k') in ('MCall', 'Call') and 'simdjson' in (x.get('cls') or x.get('fn') or '')
    for f, n, h in handlers_around(p, jsonf, isjson, {'simdjson::simdjson_error'}):
        w = '%s:%s in %s' % (f['file'], h['l'], f['qn'])
        ctx.did('handlers', w)
        verdict = handler_exits(p, f, h)
        if verdict:
            ctx.refuted('a handler around JSON parsing raises an exception', w, verdict)
        else:
            ctx.proved('a handler around JSON parsing raises an exception', w, 'no path through the handler completes normally')
    # missing configuration
    import vg
    from terms import TRUE, FALSE
    import terms as tm
    ctors = [f for f in p.by_qn.get('Tokenizer::Tokenizer', []) if f.get('ctor') and len(f['params']) >= 2]
    for f in ctors:
        names = [x['n'] for x in f['params'] if (p.type(f['unit'], x['t']) or {}).get('cls', '').startswith('std::basic_string')]
        try:
            e = vg.Engine(p, opaque={x['qn'] for x in p.functions.values() if x['qn'].startswith(('with_', 'bytes_char', 'AddedVocabulary::add_tokens'))})
            facts = [tm.eq0(tm.length(tm.sym(n, 'str'))) for n in names]
            s = e.summarize(f, facts=facts)
            gd = s.throw_guard()
            r = tm.refine(gd, tuple(facts))
            if r is TRUE or tm.entails(tuple(facts), gd):
                ctx.proved('constructing a tokenizer without path and configuration raises an exception', where(f), 'guard: %s' % str(r)[:200])
            elif r is FALSE:
                ctx.refuted('constructing a tokenizer without path and configuration raises an exception', where(f), 'no throwing path is taken')
            else:
                ctx.unknown('constructing a tokenizer without path and configuration raises an exception', where(f), str(r)[:300])
        except Exception as x:
            ctx.unknown('constructing a tokenizer without path and configuration raises an exception', where(f), 'not analysable: %s' % str(x)[:200])

