"""C24: texts from the configuration are used unescaped."""
from cg import library_functions
from core import where
from load import nodes, parents

META = {'technique': 'type and use analysis of raw JSON text over the syntax tree', 'level': 'proof', 'min': 10,
        'note': 'Every simdjson operation that yields configuration text is enumerated; raw (still escaped) text may only be unescaped. '
                'Trusts that get_string and unescaped_key decode every escape.',
        'explanation': 'every expression of a raw-text type, and every simdjson operation yielding raw text, is enumerated with its use'}

RAW = {'escaped_key', 'raw_json', 'raw_json_token', 'key_raw_json_token', 'key_raw_json', 'raw', 'to_json_string', 'current_location'}
DECODED = {'get_string', 'unescaped_key', 'get_wobbly_string', 'unescape', 'unescape_wobbly'}


def value_positions(a):
    if not isinstance(a, dict):
        return
    if a.get('k') in ('Cast', 'Copy'):
        yield from value_positions(a['a'])
    elif a.get('k') == 'Cond':
        yield from value_positions(a['a'])
        yield from value_positions(a['b'])
    else:
        yield a


def is_raw(p, u, t):
    s = (p.type(u, t) or {}).get('s', '')
    return 'raw_json_string' in s


def run(ctx):
    p = ctx.prog
    ctx.rule('an expression of type raw_json_string is only unescaped, moved or error-tested; operations yielding escaped text are used in error messages only')
    ctx.rule('decoded text is taken over with its length (not as a C string)')
    for f in library_functions(p):
        par = None
        for n in nodes([f.get('body'), f.get('inits')]):
            k = n.get('k')
            if k not in ('Call', 'MCall', 'Var', 'Ctor'):
                continue
            js = 'simdjson' in (n.get('cls') or n.get('fn') or '')
            w = '%s:%s in %s' % (f['file'], n['l'], f['qn'])
            if k != 'Var' and js and n.get('n') in DECODED:
                ctx.did('decoding reads', n['n'])
                ctx.proved('text read from the configuration is decoded', w, '%s()' % n['n'])
            raw = k in ('Call', 'MCall') and js and n.get('n') in RAW
            rs = k != 'Ctor' and is_raw(p, f['unit'], n.get('t')) and not raw
            if not raw and not rs:
                if k == 'Ctor' and (n.get('cls') or '').startswith('std::basic_string') and len(n.get('args', [])) in (1, 2) or \
                        k == 'MCall' and n.get('n') in ('operator=', 'operator+=', 'append', 'assign') and (n.get('cls') or '').startswith('std::basic_string') and len(n.get('args', [])) == 1:
                    a = n['args'][0] if n.get('args') else None
                    if any(x.get('k') == 'MCall' and x.get('n') == 'data' and (x.get('cls') or '').startswith('std::basic_string_view')
                           for x in value_positions(a)):
                        second = n['args'][1] if k == 'Ctor' and len(n['args']) == 2 else None
                        if second is None or 'cls' in (p.type(f['unit'], second.get('t')) or {}) or second.get('k') == 'Default':
                            ctx.refuted('text from the configuration is taken over whole', w, 'a text is copied from data() up to the first NUL, ignoring its length')
                continue
            if par is None:
                par = parents([f.get('body'), f.get('inits')])
            ctx.did('raw text expressions', n.get('n'))
            ups = []
            x = par.get(id(n))
            while x is not None:
                ups.append(x)
                x = par.get(id(x))
            if any(u.get('k') == 'Throw' for u in ups):
                ctx.proved('raw text is used in an error message only', w)
                continue
            if raw:
                ctx.refuted('text from the configuration is used unescaped', w, '%s() yields text with its escape sequences' % n['n'])
                continue
            ok = None
            prev = n
            for u in ups:
                if u.get('k') in ('MCall', 'Call') and u.get('n') in DECODED:
                    ok = 'unescaped'
                    break
                if u.get('k') == 'MCall' and u.get('n') in ('error', 'has_value') and 'simdjson' in (u.get('cls') or ''):
                    ok = 'error test'
                    break
                if u.get('k') == 'MCall' and u.get('n') in RAW:
                    ok = 'judged there'
                    break
                if is_raw(p, f['unit'], u.get('t')) or u.get('k') in ('Cast', 'Copy', 'Init'):
                    prev = u
                    continue
                if u.get('k') == 'Decl':
                    ok = 'kept in a variable of raw type'
                    break
                if u.get('k') == 'Expr':
                    ok = 'no use'
                    break
                if u.get('k') in ('Call', 'MCall') and u.get('repo'):
                    ok = 'handed to a function whose uses are judged there'
                    break
                break
            if ok:
                ctx.proved('raw text is unescaped before use', w, ok)
            else:
                ctx.refuted('text from the configuration is used unescaped', w, '%s is raw JSON text and is used as %s without unescaping' %
                            (n.get('n'), (u.get('n') or u.get('k')) if ups else '?'))
