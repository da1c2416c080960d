"""C10: results depend only on the configuration and the input."""
from cg import library_functions
from core import where
from flow import Client, Flow, St
from load import nodes, parents

META = {'technique': 'effect analysis: process-wide state, environment sources, hash-table order, definite assignment', 'level': 'proof', 'min': 40,
        'note': 'Every static, every library call and every traversal of a hash table is classified; values are followed for definite assignment. '
                'Assumes that a vocabulary gives different tokens different ids, and that ICU functions without a locale argument listed as '
                'locale-independent by ICU are.',
        'explanation': 'syntax-tree effect rules over all library functions plus a path-sensitive definite-assignment analysis'}

CTYPE = {'isspace', 'isalpha', 'isalnum', 'isupper', 'islower', 'ispunct', 'iscntrl', 'isprint', 'isgraph', 'isblank', 'toupper', 'tolower'}
WCTYPE = {'iswspace', 'iswalpha', 'iswalnum', 'iswupper', 'iswlower', 'iswpunct', 'iswcntrl', 'iswprint', 'iswgraph', 'iswblank', 'towupper',
          'towlower', 'iswctype', 'towctrans', 'wctype', 'iswdigit'}
ENV = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'rand_r', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'localtime', 'gmtime',
       'getenv', 'secure_getenv', 'setlocale', 'localeconv', 'newlocale', 'uselocale', 'getpid', 'gettid', 'getppid', 'getuid', 'getcwd',
       'mbstowcs', 'wcstombs', 'mbtowc', 'wctomb', 'mbrtowc', 'wcrtomb', 'mbsrtowcs', 'wcsrtombs', 'mblen', 'mbrlen', 'btowc', 'wctob',
       'strcoll', 'wcscoll', 'strxfrm', 'wcsxfrm', 'atof', 'strtod', 'strtof', 'strtold', 'wcstod', 'stod', 'stof', 'stold', 'strftime',
       'gethostname', 'uname', 'sysconf', 'getrandom', 'arc4random', 'tmpnam', 'setenv', 'putenv'}
ENVQ = ('std::random_device', 'std::chrono::_V2::system_clock::now', 'std::chrono::_V2::steady_clock::now', 'std::chrono::_V2::high_resolution_clock::now',
        'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::locale::global', 'std::this_thread::get_id', 'std::thread::get_id',
        'std::filesystem::current_path', 'std::filesystem::temp_directory_path')
ICULOC = {'toLower', 'toUpper', 'toTitle'}
SEQ_ADD = {'push_back', 'emplace_back', 'append', 'operator+=', 'push_front', 'emplace_front', 'push', 'emplace', 'insert', 'assign'}


def ty(p, f, t):
    return p.type(f['unit'], t) or {}


def unordered(p, f, t):
    return ty(p, f, t).get('cls', '').startswith('std::unordered_')


def assoc(c):
    return c.startswith(('std::unordered_', 'std::map', 'std::set', 'std::multimap', 'std::multiset'))


def scalar(x):
    return x.get('k') in ('int', 'bool', 'float', 'enum', 'ptr') and not x.get('ref')


def root(n):
    """variable at the bottom of an access path"""
    while isinstance(n, dict):
        k = n.get('k')
        if k in ('Var', 'GVar', 'This'):
            return n
        if k == 'Mem':
            n = n['b']
        elif k in ('Cast', 'Un', 'Copy', 'Sub'):
            n = n['a']
        elif k == 'MCall':
            n = n['o']
        else:
            return n
    return None


def skip(n):
    while isinstance(n, dict) and n.get('k') in ('Cast', 'Copy'):
        n = n['a']
    return n


def same(a, b):
    a, b = skip(a), skip(b)
    if not isinstance(a, dict) or not isinstance(b, dict):
        return a == b
    if a.get('k') != b.get('k'):
        return False
    ign = ('l', 't', 'e', 'rt', 'ot')
    ka = {k for k in a if k not in ign}
    kb = {k for k in b if k not in ign}
    if ka != kb:
        return False
    for k in ka:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if not same(x, y):
                return False
        elif isinstance(x, list):
            if len(x) != len(y) or not all(same(i, j) for i, j in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def mutated(p, f, par, n, depth=0):
    """how the object named by n is changed here, or None"""
    x, u = n, par.get(id(n))
    while u is not None:
        k = u.get('k')
        if k == 'Mem' and u['b'] is x and not u.get('arrow') or k == 'Sub' and u['a'] is x:
            x, u = u, par.get(id(u))
            continue
        if k == 'Cast':
            if u.get('ck') == 'LValueToRValue':
                return None
            x, u = u, par.get(id(u))
            continue
        if k == 'Cond' and u['c'] is not x:
            x, u = u, par.get(id(u))
            continue
        if k in ('Assign', 'CAssign') and u['a'] is x:
            return 'assigned'
        if k == 'Un' and u['op'] in ('++', '--'):
            return 'changed by %s' % u['op']
        if k == 'MCall' and u.get('o') is x:
            if u.get('mconst') or u.get('mstatic'):
                return None
            c = u.get('cls') or ''
            if c.startswith('std::') and u['n'] in ('begin', 'end', 'find', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'data', 'c_str', 'equal_range', 'count'):
                return None
            if c.startswith('std::') and (u['n'] in ('at', 'front', 'back', 'operator*', 'operator->', 'get', 'value') or
                                          u['n'] == 'operator[]' and not assoc(c)):
                x, u = u, par.get(id(u))
                continue
            if 'wstring_convert' in c:
                return None
            return 'changed by %s()' % u['n']
        if k in ('Call', 'MCall', 'Ctor') and any(a is x for a in u.get('args', [])):
            i = [a is x for a in u['args']].index(True)
            m = u.get('modes', '')
            return 'handed to %s() to be changed' % u['n'] if i < len(m) and m[i] in 'm' else None
        if k == 'Decl' or 'init' in u and u.get('init') is x and 'id' in u:
            v = u
            if v.get('ref') and not ty(p, f, v.get('t')).get('const') and depth < 3:
                for y in nodes([f.get('body')]):
                    if y.get('k') == 'Var' and y.get('id') == v['id']:
                        r = mutated(p, f, par, y, depth + 1)
                        if r:
                            return r
            return None
        return None
    return None


def statics(ctx, p, funs):
    refs = {}
    for f in funs:
        par = None
        for n in nodes([f.get('body'), f.get('inits')]):
            if n.get('k') == 'GVar' and n.get('repo'):
                par = par or parents([f.get('body'), f.get('inits')])
                refs.setdefault(n['usr'], []).append((f, par, n))
    done = set()
    for g in p.globals.values():
        if not g['file'].startswith(('src', 'include')) or not (g.get('def', True) or g.get('init')):
            continue
        if g['usr'] in done and not g.get('init'):
            continue
        done.add(g['usr'])
        w = '%s:%s' % (g['file'], g['l'])
        ctx.did('statics and globals', g['qn'])
        bad = None
        for f, par, n in refs.get(g['usr'], []):
            if g['const']:
                break
            r = mutated(p, f, par, n)
            if r:
                bad = (f, n, r)
                break
        if bad:
            ctx.refuted('%s is constant' % g['qn'], where(bad[0], bad[1]), 'state shared by the whole process (declared at %s) is %s' % (w, bad[2]))
        else:
            ctx.proved('%s is constant' % g['qn'], w, 'no use changes it' if not g['const'] else 'const')
    # initialisers of function-local statics
    for f in funs:
        pids = {x['id']: x['n'] for x in f['params']}
        for n in nodes([f.get('body')]):
            if n.get('k') != 'Decl':
                continue
            for v in n['v']:
                if v.get('static') and v.get('init'):
                    dep = None
                    for x in nodes(v['init']):
                        if x.get('k') == 'This':
                            dep = 'this'
                        elif x.get('k') == 'Var':
                            inner = {y['id'] for z in nodes(v['init']) if z.get('k') == 'Lambda' for s in ([z.get('body')] + (z.get('specs') or [])) if s
                                     for y in list(s.get('params', [])) + [q for d in nodes(s.get('body') or {}) if d.get('k') == 'Decl' for q in d['v']]}
                            if x['id'] not in inner:
                                dep = x['n']
                    if dep:
                        ctx.refuted('the static %s is computed from constants only' % v['n'], where(f, v), 'its value is fixed by the first call ever made: it depends on %s' % dep)
                    else:
                        ctx.proved('the static %s is computed from constants only' % v['n'], where(f, v))


def calls(ctx, p, funs):
    nc = 0
    for f in funs:
        par = None
        for n in nodes([f.get('body'), f.get('inits')]):
            k = n.get('k')
            if k == 'Cast' and n.get('ck') == 'PointerToIntegral':
                ctx.refuted('no result depends on an address', where(f, n), 'a pointer is converted to a number')
            if k == 'Fn' and not n.get('repo') and (n.get('n') in CTYPE | WCTYPE or n.get('n') in ENV) and (n.get('fn') or '').count('::') <= 1:
                ctx.refuted('no environment source is used', where(f, n), '%s depends on the process environment' % n['fn'])
            if k not in ('Call', 'MCall', 'Ctor') or n.get('repo'):
                continue
            nc += 1
            q = n.get('fn') or ''
            cls = n.get('cls') or ''
            nm = n.get('n')
            free = not cls and (q == nm or q == 'std::' + nm)
            if free and nm in CTYPE | WCTYPE and len(n.get('args', [])) == 1:
                ctx.refuted('no environment source is used', where(f, n), '%s() depends on the process locale' % nm)
            elif free and nm in CTYPE and len(n.get('args', [])) == 2 and not classic(n['args'][1]):
                ctx.refuted('no environment source is used', where(f, n), '%s() uses a locale' % nm)
            elif free and nm in ENV:
                ctx.refuted('no environment source is used', where(f, n), '%s() depends on the process environment or on other users of the process' % nm)
            elif any(q.startswith(x) or cls == x for x in ENVQ):
                ctx.refuted('no environment source is used', where(f, n), '%s depends on the process environment' % q)
            elif k == 'Ctor' and cls == 'std::locale' and not (n.get('args') and all('std::locale' in ty(p, f, a.get('t')).get('cls', '') for a in n['args'][:1])):
                if not in_classic_name(n):
                    ctx.refuted('no environment source is used', where(f, n), 'the global or a named locale is used')
            elif cls.startswith('icu') and cls.endswith('UnicodeString') and nm in ICULOC and not any('Locale' in ty(p, f, a.get('t')).get('s', '') for a in n.get('args', [])):
                ctx.refuted('no environment source is used', where(f, n), '%s() without a locale uses the default locale of the process' % nm)
            elif cls.endswith('Locale') and nm in ('getDefault', 'setDefault') or nm and nm.startswith(('uloc_getDefault', 'uloc_setDefault')):
                ctx.refuted('no environment source is used', where(f, n), 'the default locale of the process')
            elif nm and nm.startswith(('u_strToLower', 'u_strToUpper', 'u_strToTitle')) and len(n.get('args', [])) >= 5 and skip(n['args'][4]).get('k') == 'Null':
                ctx.refuted('no environment source is used', where(f, n), 'the default locale of the process')
            elif nm and nm.startswith('ucnv_getDefaultName'):
                ctx.refuted('no environment source is used', where(f, n), 'the default converter of the process')
            elif q.startswith('std::to_string') or q.startswith('std::to_wstring'):
                if n.get('args') and ty(p, f, n['args'][0].get('t')).get('k') == 'float':
                    ctx.refuted('no environment source is used', where(f, n), 'a fraction is formatted with the decimal point of the process locale')
            elif k == 'Ctor' and cls == 'std::basic_regex' and n.get('args') and not ('std::basic_regex' in ty(p, f, n['args'][0].get('t')).get('cls', '')):
                ctx.refuted('no environment source is used', where(f, n), 'the character classes of a pattern are those of the global locale')
            elif k == 'MCall' and cls == 'std::basic_regex' and nm in ('assign', 'operator='):
                if n.get('args') and 'std::basic_regex' in ty(p, f, n['args'][0].get('t')).get('cls', ''):
                    continue
                r = root(n['o'])
                if not imbued(p, f, r):
                    ctx.refuted('no environment source is used', where(f, n), 'the character classes of a pattern are those of the global locale')
                else:
                    ctx.proved('the pattern is compiled in the classic locale', where(f, n))
            elif nm in ('operator>>', 'operator<<', 'getline', 'ws', 'put_time', 'get_money'):
                o = n.get('o') or (n.get('args') or [None])[0]
                st = ty(p, f, (o or {}).get('t')).get('cls', '') if o else ''
                args = n.get('args', [])
                arg = args[-1] if args else None
                at = ty(p, f, (arg or {}).get('t'))
                if 'stream' not in st or arg is None or arg is o:
                    continue
                if nm == 'getline':
                    continue
                r = root(stream_root(n))
                if nm == 'operator<<':
                    dep = at.get('k') in ('int', 'float', 'bool', 'ptr', 'enum') and not (at.get('k') == 'int' and at.get('w') in (8,)) and not is_cstr(p, f, at) and k == 'MCall'
                    fnarg = skip(arg).get('k') in ('Fn',)
                    if not dep or fnarg:
                        continue
                else:
                    if skip(arg).get('k') == 'Fn':
                        continue
                if imbued(p, f, r):
                    ctx.proved('the stream is used in the classic locale', where(f, n))
                else:
                    ctx.refuted('no environment source is used', where(f, n), 'the stream formats or parses with the global locale')
    ctx.did('library calls examined', 'all')
    ctx.analysed['library calls examined'] = {'all': nc}
    ctx.proved('library calls are free of environment sources', '%d calls in src and include' % nc, 'all others are outside the lists of the rule') \
        if not any(o['verdict'] == 'REFUTED' and 'environment' in o['obligation'] for o in ctx.obls) else None


def is_cstr(p, f, t):
    return t.get('k') == 'ptr' and (p.type(f['unit'], t.get('to')) or {}).get('w') == 8


def classic(a):
    return any(x.get('n') == 'classic' for x in nodes(a))


def in_classic_name(n):
    for x in nodes(n.get('args', [])):
        if x.get('k') == 'Str' and bytes(c for c in x['v'] if c < 256) in (b'C', b'POSIX'):
            return True
    return False


def stream_root(n):
    o = n.get('o') or n['args'][0]
    while isinstance(o, dict) and (o.get('n') in ('operator>>', 'operator<<') and o.get('k') in ('Call', 'MCall')):
        o = o.get('o') or o['args'][0]
    return o


def imbued(p, f, r):
    if r is None or r.get('k') != 'Var':
        return False
    for x in nodes([f.get('body')]):
        if x.get('k') == 'MCall' and x.get('n') == 'imbue' and x.get('args') and (classic(x['args'][0]) or in_classic_name(x['args'][0])):
            y = root(x['o'])
            if y is not None and y.get('id') == r['id']:
                return True
    return False


# ---------------------------------------------------------------- hash-table order
def tainted_vars(body, ids):
    ids = set(ids)
    while True:
        n0 = len(ids)
        for d in nodes(body):
            if d.get('k') == 'Decl':
                for v in d['v']:
                    if v.get('init') and any(x.get('k') == 'Var' and x['id'] in ids for x in nodes(v['init'])):
                        ids.add(v['id'])
                        ids |= {b['id'] for b in v.get('bindings', [])}
            if d.get('k') == 'RangeFor' and any(x.get('k') == 'Var' and x['id'] in ids for x in nodes(d['range'])):
                ids.add(d['v']['id'])
                ids |= {b['id'] for b in d['v'].get('bindings', [])}
        if len(ids) == n0:
            return ids


def declared(body):
    out = set()
    for d in nodes(body):
        if d.get('k') == 'Decl':
            for v in d['v']:
                out.add(v['id'])
                out |= {b['id'] for b in v.get('bindings', [])}
        if d.get('k') == 'RangeFor':
            out.add(d['v']['id'])
            out |= {b['id'] for b in d['v'].get('bindings', [])}
    return out


def has(n, ids):
    return any(x.get('k') == 'Var' and x['id'] in ids for x in nodes(n))


def conjuncts(c):
    c = skip(c)
    if isinstance(c, dict) and c.get('k') == 'Bin' and c['op'] == '&&':
        return conjuncts(c['a']) + conjuncts(c['b'])
    return [c]


def guards(par, n, body):
    out = []
    x, u = n, par.get(id(n))
    while u is not None and u is not body:
        if u.get('k') == 'If' and (u.get('th') is x):
            out += conjuncts(u['c'])
        elif u.get('k') == 'If' and u.get('el') is x:
            out += [None]
        elif u.get('k') == 'Cond' and u['c'] is not x:
            out += [None]
        x, u = u, par.get(id(u))
    return out


def eq_guard(gs, ids):
    for c in gs:
        if not isinstance(c, dict):
            continue
        a = b = None
        if c.get('k') == 'Bin' and c['op'] == '==':
            a, b = c['a'], c['b']
        elif c.get('n') == 'operator==' and c.get('k') in ('Call', 'MCall'):
            l = ([c['o']] if c.get('k') == 'MCall' else []) + c['args']
            a, b = l[0], l[1]
        if a is not None and has(a, ids) != has(b, ids):
            return True
    return False


def order(ctx, p, funs):
    for f in funs:
        body = f.get('body')
        par = None
        allb = [f.get('body'), f.get('inits')]
        sorts = [x for x in nodes(allb) if x.get('k') == 'Call' and (x.get('fn') or '') in ('std::sort', 'std::stable_sort', 'std::make_heap', 'std::partial_sort')]

        def sorted_later(r):
            return r is not None and any(root(y) is not None and root(y).get('id') == r.get('id') and r.get('id') is not None or
                                         (y.get('k') == 'Mem' and False) for s in sorts for a in s['args'] for y in nodes(a) if y.get('k') == 'Var')
        for n in nodes(allb):
            k = n.get('k')
            loop = None
            if k == 'RangeFor' and unordered(p, f, n.get('rt') if n.get('rt') is not None else n['range'].get('t')):
                ids = {n['v']['id']} | {b['id'] for b in n['v'].get('bindings', [])}
                loop = n
            elif k == 'For' and n.get('init'):
                ids = set()
                for d in nodes(n['init']):
                    if d.get('k') == 'Decl':
                        for v in d['v']:
                            if v.get('init') and any(x.get('n') in ('begin', 'cbegin') and unordered(p, f, x.get('ot')) for x in nodes(v['init'])):
                                ids.add(v['id'])
                if ids:
                    loop = n
            if loop is not None:
                par = par or parents(allb)
                walk_loop(ctx, p, f, par, loop, ids, sorted_later)
                continue
            if k in ('Call', 'Ctor', 'MCall') and not n.get('repo'):
                args = n.get('args', [])
                bs = [a for a in args if skip(a).get('n') in ('begin', 'cbegin') and unordered(p, f, skip(a).get('ot'))]
                if not bs:
                    continue
                par = par or parents(allb)
                algorithm(ctx, p, f, par, n, bs[0], sorted_later)
            if k in ('Un', 'MCall', 'Call') and (n.get('op') == '*' or n.get('n') in ('operator*', 'operator->')):
                o = skip(n.get('a') or n.get('o') or (n.get('args') or [{}])[0])
                if isinstance(o, dict) and o.get('n') in ('begin', 'cbegin') and unordered(p, f, o.get('ot')):
                    ctx.refuted('no result depends on hash-table order', where(f, n), 'the first element of an unordered container is used')


def one_past(lhs, rhs, c, t, v):
    """x = t + 1 when t >= x: the largest element plus one, whatever the order"""
    r = skip(rhs)
    if not same(lhs, v) or r.get('k') != 'Bin' or r['op'] != '+':
        return False
    one = [y for y in (skip(r['a']), skip(r['b'])) if y.get('k') == 'Int' and int(y['v']) == 1]
    op = c['op'] if same(c['a'], t) else {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}[c['op']]
    return bool(one) and (same(r['a'], t) or same(r['b'], t)) and op == '>='


def walk_loop(ctx, p, f, par, loop, ids0, sorted_later):
    body = loop['body']
    ids = tainted_vars(body, ids0)
    inner = declared(body) | ids0
    what = 'the result of walking an unordered container does not depend on its order'
    # variables the loop itself changes
    changed = {}
    for x in nodes(body):
        if x.get('k') in ('Assign', 'CAssign', 'Un') and (x.get('k') != 'Un' or x['op'] in ('++', '--')):
            r = root(x['a'])
            if r is not None and r.get('k') == 'Var' and r['id'] not in inner:
                changed[r['id']] = r['n']
    bad = unk = None
    rets = []
    for x in nodes(body):
        k = x.get('k')
        if k == 'Assign' or k == 'MCall' and x.get('n') == 'operator=':
            lhs, rhs = (x['a'], x['b']) if k == 'Assign' else (x['o'], x['args'][0])
            r = root(lhs)
            keyed = any(y.get('k') == 'MCall' and y.get('n') in ('operator[]', 'at') and has(y['args'], ids) for y in nodes(lhs))
            keyed = keyed or any(y.get('k') == 'Sub' and has(y['b'], ids) for y in nodes(lhs))
            if keyed:
                cv = [y['n'] for y in nodes(rhs) if y.get('k') == 'Var' and y['id'] in changed] + \
                     [y.get('n') for y in nodes(rhs) if y.get('k') == 'MCall' and y.get('n') in ('size', 'length') and same(root(y['o']), r)]
                if cv:
                    bad = bad or (x, 'each element is numbered in the order the hash table yields it (%s)' % cv[0])
                continue
            if r is not None and r.get('k') == 'Var' and r['id'] in inner:
                continue
            if not has(rhs, ids):
                continue
            rc = skip(rhs)
            if rc.get('k') == 'Call' and (rc.get('fn') or '') in ('std::max', 'std::min') and any(same(a, lhs) for a in rc['args']):
                continue
            if rc.get('k') == 'Bin' and rc['op'] in ('+', '*', '|', '&', '^', '&&', '||') and (same(rc['a'], lhs) or same(rc['b'], lhs)) and \
                    ty(p, f, rc.get('t')).get('k') in ('int', 'bool'):
                continue
            if rc.get('k') == 'Cond':
                unk = (x, 'a conditional value')
                continue
            gs = guards(par, x, body)
            ext = [c for c in gs if isinstance(c, dict) and c.get('k') == 'Bin' and c['op'] in ('<', '>', '<=', '>=') and
                   (has(c['a'], ids) and mentions(c['b'], changed) or has(c['b'], ids) and mentions(c['a'], changed))]
            if eq_guard(gs, ids) or None in gs:
                unk = (x, 'chosen by equality; ids and texts of a vocabulary are taken to be unique')
            elif ext:
                c = ext[0]
                t, v = (c['a'], c['b']) if has(c['a'], ids) else (c['b'], c['a'])
                if same(lhs, v) and same(rhs, t):
                    continue
                rest = [g for g in gs if g not in ext]
                if one_past(lhs, rhs, c, t, v) and not rest:
                    continue
                only = rc.get('k') == 'Bin' and (same(rc['a'], t) and not has(rc['b'], ids) or same(rc['b'], t) and not has(rc['a'], ids))
                if only:
                    unk = (x, 'a function of the extremal element')
                elif rest:
                    unk = (x, 'an extremal element under further conditions')
                else:
                    bad = bad or (x, 'among elements that compare equal the one kept depends on the order')
            else:
                bad = bad or (x, 'the value kept is the last one the hash table happens to yield')
        elif k == 'MCall' and x.get('n') in SEQ_ADD and not x.get('mconst'):
            c = x.get('cls') or ''
            r = root(x['o'])
            if r is not None and r.get('k') == 'Var' and r['id'] in inner:
                continue
            if not has(x.get('args', []), ids):
                continue
            if assoc(c):
                cv = [y['n'] for a in x['args'] for y in nodes(a) if y.get('k') == 'Var' and y['id'] in changed]
                if cv:
                    bad = bad or (x, 'each element is numbered in the order the hash table yields it (%s)' % cv[0])
                continue
            if c.startswith('std::priority_queue'):
                unk = (x, 'a priority queue orders them again, except equal ones')
                continue
            if sorted_later(r):
                unk = (x, 'sorted afterwards')
                continue
            bad = bad or (x, 'elements are added in the order the hash table yields them')
        elif k == 'Return' and x.get('a') is not None and has(x['a'], ids):
            rets.append(x)
        elif k in ('Call', 'MCall') and x.get('repo') and has(x.get('args', []), ids):
            m = x.get('modes', '')
            if any(i < len(m) and m[i] in 'mp' and root(a) is not None and root(a).get('id') not in inner for i, a in enumerate(x.get('args', []))) or \
                    k == 'MCall' and not x.get('mconst'):
                unk = (x, 'another function is called for each element')
        elif k == 'Lambda':
            pass
    for x in rets:
        gs = guards(par, x, body)
        if eq_guard(gs, ids) or None in gs:
            unk = (x, 'chosen by equality; ids and texts of a vocabulary are taken to be unique')
        else:
            bad = bad or (x, 'the first element the hash table happens to yield is returned')
    ctx.did('traversals of unordered containers', where(f, loop))
    if bad:
        ctx.refuted(what, where(f, bad[0]), bad[1])
    elif unk:
        ctx.unknown(what, where(f, unk[0]), unk[1])
    else:
        ctx.proved(what, where(f, loop), 'only keyed stores, sums and extrema')


def mentions(n, changed):
    return any(x.get('k') == 'Var' and x['id'] in changed for x in nodes(n))


def algorithm(ctx, p, f, par, n, b, sorted_later):
    nm = n.get('n')
    q = n.get('fn') or ''
    what = 'the result of walking an unordered container does not depend on its order'
    w = where(f, n)
    ctx.did('traversals of unordered containers', w)
    if q in ('std::max_element', 'std::min_element'):
        comp = n['args'][2] if len(n['args']) > 2 else None
        fields = {y['f'] for y in nodes(comp) if y.get('k') == 'Mem' and y['f'] in ('first', 'second')} if comp is not None else {'first', 'second'}
        # the variable the iterator lands in
        u = par.get(id(n))
        while u is not None and u.get('k') in ('Cast', 'Copy'):
            u = par.get(id(u))
        used = set()
        if u is not None and 'id' in u and 'init' in u:
            for y in nodes(f['body']):
                if y.get('k') == 'Mem' and any(z.get('k') == 'Var' and z['id'] == u['id'] for z in nodes(y['b'])):
                    used.add(y['f'])
        elif u is not None:
            x = u
            while x is not None and x.get('k') != 'Mem':
                x = par.get(id(x))
            if x is not None:
                used.add(x['f'])
        if used and used <= fields:
            ctx.proved(what, w, 'only the compared part of the extremal element is used')
        elif used and 'first' not in fields and 'first' in used:
            ctx.refuted(what, w, 'among elements with equal values the key that is used depends on the order')
        else:
            ctx.unknown(what, w, 'extremal element')
        return
    if q in ('std::accumulate', 'std::count_if', 'std::count', 'std::any_of', 'std::all_of', 'std::none_of'):
        rt = ty(p, f, n.get('t'))
        if rt.get('k') in ('int', 'bool'):
            ctx.proved(what, w, 'a sum, count or test')
        elif q == 'std::accumulate' and 'basic_string' in rt.get('cls', ''):
            ctx.refuted(what, w, 'texts are concatenated in hash-table order')
        else:
            ctx.unknown(what, w, q)
        return
    seq = None
    if n['k'] == 'Ctor' and (n.get('cls') or '').startswith(('std::vector', 'std::basic_string', 'std::deque', 'std::list')):
        seq = n
        u = par.get(id(n))
        while u is not None and u.get('k') in ('Cast', 'Copy'):
            u = par.get(id(u))
        if u is not None and 'id' in u and sorted_later({'k': 'Var', 'id': u['id']}):
            ctx.unknown(what, w, 'sorted afterwards')
            return
    elif n['k'] == 'MCall' and nm in ('insert', 'assign', 'append') and not assoc(n.get('cls') or ''):
        seq = n
        if sorted_later(root(n['o'])):
            ctx.unknown(what, w, 'sorted afterwards')
            return
    elif q in ('std::copy', 'std::transform', 'std::copy_if') and any(x.get('n') == 'back_inserter' for a in n['args'] for x in nodes(a)):
        seq = n
        for a in n['args']:
            for x in nodes(a):
                if x.get('n') == 'back_inserter' and sorted_later(root(x['args'][0])):
                    ctx.unknown(what, w, 'sorted afterwards')
                    return
    if seq is not None:
        ctx.refuted(what, w, 'a list is filled in hash-table order')
        return
    if n['k'] == 'Ctor' and assoc(n.get('cls') or '') or n['k'] == 'MCall' and assoc(n.get('cls') or ''):
        ctx.proved(what, w, 'another keyed container')
        return
    ctx.unknown(what, w, q or nm)


# ---------------------------------------------------------------- definite assignment
class U(Client):
    def __init__(self, ctx, uninit):
        self.bad = {}
        self.uninit = uninit    # class -> scalar fields its implicit constructor leaves open
        self.n = 0

    def on_decl(self, fl, fr, st, v, val):
        key = ('v', fr.key, v['id'])
        t = fl.p.type(fr.unit, v.get('t')) or {}
        if v.get('static') or v.get('ref') or v.get('bindings'):
            return st
        if v.get('init') is None and scalar(t) and v.get('$loopvar') is None:
            if v['id'] in fl.rangevars:
                return st
            self.n += 1
            return st.put(('U', key), '%s' % v['n'])
        if t.get('k') == 'rec' and t.get('cls') in self.uninit:
            i = v.get('init')
            if i is None or i.get('k') == 'Ctor' and i.get('default') and not i.get('repo_user') and not i.get('list'):
                for fld in self.uninit[t['cls']]:
                    st = st.put(('U', key + (fld,)), '%s.%s' % (v['n'], fld))
                self.n += 1
        return st

    def value(self, fl, fr, st, e, v):
        if v and v[0] == 'O' and st.get(('U', v[1])) is not None:
            self.bad[(st.get(('U', v[1])), '%s:%s in %s' % (fr.fn.get('file', fr.unit.path), (e or {}).get('l'), fr.fn.get('qn', 'lambda')))] = 1
        return v

    def on_assign(self, fl, fr, st, e, loc, val):
        return self.clear(st, loc)

    def clear(self, st, loc):
        n = len(loc)
        for k in [k for k in st.d if k[0] == 'U' and (k[1][:n] == loc or k[1] == loc)]:
            st = st.put(k, None)
        return st

    def call(self, fl, fr, st, e, name, obj, args):
        ch = st
        for i, a in enumerate(args):
            if a and a[0] in ('L', 'P') and (e.get('modes') or 'm' * 9)[i:i + 1] not in ('v', 'r', 'c'):
                ch = self.clear(ch, a[1])
        if obj and obj[0] == 'L' and e.get('k') == 'MCall' and e.get('n') == 'operator=':
            ch = self.clear(ch, obj[1])
        if ch is not st:
            return [(ch, None)]
        return None

    def want_inline(self, fl, fr, e, f):
        return False


def uninit(ctx, p, funs):
    impl = {}
    ctors = {}
    for f in p.functions.values():
        if f.get('ctor') and not f.get('defaulted'):
            ctors.setdefault(f['cls'], []).append(f)
    reads = {}
    for f in funs:
        for n in nodes([f.get('body'), f.get('inits')]):
            if n.get('k') == 'Mem':
                reads.setdefault((n.get('cls'), n['f']), n)
    for c in p.classes.values():
        if not c['file'].startswith(('src', 'include')):
            continue
        open_ = [x['n'] for x in c['fields'] if x.get('init') is None and scalar(p.type(c['unit'], x['t']) or {})]
        if not open_:
            continue
        user = ctors.get(c['qn'], [])
        if not any(not f['params'] for f in user) and not user:
            impl[c['qn']] = open_
        for f in user:
            if f.get('body') is None and not f.get('inits'):
                continue
            if any(i.get('deleg') for i in f.get('inits', [])):
                continue
            done = {i.get('f') for i in f.get('inits', [])}
            for n in nodes([f.get('body')]):
                if n.get('k') == 'Assign' and skip(n['a']).get('k') == 'Mem' and root(n['a']).get('k') == 'This':
                    done.add(skip(n['a'])['f'])
                if n.get('k') in ('Call', 'MCall') and n.get('repo'):
                    done |= set(open_) if any(x.get('k') == 'This' for x in nodes(n)) else set()
            for x in open_:
                if x in done:
                    ctx.proved('%s::%s is initialised' % (c['qn'], x), where(f))
                elif (c['qn'], x) in reads:
                    ctx.refuted('%s::%s is initialised' % (c['qn'], x), where(f), 'this constructor leaves the field with an indeterminate value')
                else:
                    ctx.unknown('%s::%s is initialised' % (c['qn'], x), where(f), 'not initialised here, but never read by name')
    for f in funs:
        if f.get('body') is None:
            continue
        c = U(ctx, impl)
        fl = Flow(p, c)
        fl.rangevars = {n['v']['id'] for n in nodes([f.get('body')]) if n.get('k') == 'RangeFor'}
        for n in nodes([f.get('body')]):
            if n.get('k') == 'Try':
                for h in n['h']:
                    if h.get('var'):
                        fl.rangevars.add(h['var']['id'])
        fl.run(f)
        for (v, w) in sorted(c.bad):
            ctx.refuted('%s is assigned before it is read' % v, w, 'on some path its value is indeterminate')
        if c.n and not c.bad:
            ctx.proved('variables declared without a value are assigned before they are read in %s' % f['qn'], where(f), '%d declarations' % c.n)


def run(ctx):
    p = ctx.prog
    funs = library_functions(p)
    ctx.rule('statics and globals are never changed, and local statics are computed from constants')
    ctx.rule('no call to a function that reads the locale, environment, clock, an unseeded random source, or an address')
    ctx.rule('walks over unordered containers have effects that commute')
    ctx.rule('every scalar variable and field is assigned before it is read')
    for f in funs:
        ctx.did('functions', f['qn'])
    statics(ctx, p, funs)
    calls(ctx, p, funs)
    order(ctx, p, funs)
    uninit(ctx, p, funs)
