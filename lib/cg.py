"""Call graph over resolved callees (virtual calls go to every overrider), and syntax helpers."""
from load import nodes


def callees(p, f):
    out = set()
    for n in nodes([f.get('body'), f.get('inits')]):
        if n.get('k') in ('Call', 'MCall', 'Ctor', 'Fn') and n.get('usr'):
            g = p.lookup(n['usr'], f['unit'])
            if g is not None:
                out.add(g.get('usr_key', g['usr']))
            for o in overriders(p, n['usr']) if n.get('virt') else ():
                out.add(o.get('usr_key', o['usr']))
    return out


def overriders(p, usr):
    out = []
    for o in p.overriders.get(usr, []):
        out.append(o)
        out += overriders(p, o['usr'])
    return out


class Graph:
    def __init__(self, p):
        self.p = p
        self.e = {k: callees(p, f) for k, f in p.functions.items()}
        self.e = {f.get('usr_key', f['usr']): self.e[k] for k, f in p.functions.items()}

    def reach(self, keys):
        seen, todo = set(), list(keys)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += [x for x in self.e.get(k, ()) if x not in seen]
        return seen

    def reachable_from_node(self, n, f):
        ks = set()
        for x in nodes(n):
            if x.get('k') in ('Call', 'MCall', 'Ctor', 'Fn') and x.get('usr'):
                g = self.p.lookup(x['usr'], f['unit'])
                if g is not None:
                    ks.add(g.get('usr_key', g['usr']))
                for o in overriders(self.p, x['usr']) if x.get('virt') else ():
                    ks.add(o.get('usr_key', o['usr']))
        return self.reach(ks)


def completes(s):
    """can this statement complete normally (structurally)?"""
    if s is None:
        return True
    k = s['k']
    if k == 'Block':
        for x in s['s']:
            if not completes(x):
                return False
        return True
    if k in ('Return', 'Break', 'Continue'):
        return k != 'Return' or True
    if k == 'Expr':
        return s['a'].get('k') != 'Throw' and not s['a'].get('noreturn')
    if k == 'If':
        if s.get('el') is None:
            return True
        return completes(s['th']) or completes(s['el'])
    if k == 'Try':
        return completes(s['body']) or any(completes(h['body']) for h in s['h'])
    return True


def library_functions(p):
    return [f for f in p.functions.values() if f['file'].startswith(('src', 'include'))]


def jni_functions(p):
    return [f for f in p.functions.values() if f['file'].startswith('android')]


def callers(p, f):
    k = f.get('usr_key', f['usr'])
    return [g for g in p.functions.values() if k in callees(p, g)]


def roots(p, fs):
    """functions to start from: a function with internal linkage is seen through the functions that call it"""
    out, seen, todo = [], set(), list(fs)
    while todo:
        f = todo.pop(0)
        k = f.get('usr_key', f['usr'])
        if k in seen:
            continue
        seen.add(k)
        cs = [c for c in callers(p, f) if c is not f] if f.get('internal') else []
        if cs:
            todo += cs
        else:
            out.append(f)
    return out


def handler_exits(p, f, h):
    """how a handler ends other than by an exception (None if it never does)"""
    from flow import Client, Flow, Frame, St
    fl = Flow(p, Client())
    fr = Frame(f, f['unit'], None, None, ('this',))
    fl.stack.append(f['usr'])
    fl.throws.append(set())
    fl.rethrow = ['?']
    o = fl.exec(h['body'], {St({})}, fr)
    if o.next or o.brk or o.cont:
        return 'the handler completes normally, so the error is swallowed'
    if o.ret:
        return 'the handler returns, so the error is swallowed'
    return None


def handlers_around(p, fs, direct, classes):
    """(function, try, handler) for every handler that can catch one of `classes` around code that reaches one of fs (keys)
    or contains a node for which direct(node, function)"""
    from flow import exc_bases
    g = Graph(p)
    out = []
    for f in library_functions(p):
        for n in nodes([f.get('body')]):
            if n.get('k') != 'Try':
                continue
            r = g.reachable_from_node(n['body'], f)
            if not ((r & fs) or any(direct(x, f) for x in nodes(n['body']))):
                continue
            left = set(classes)
            for h in n['h']:
                if not left:
                    break
                if h.get('t') is None:
                    out.append((f, n, h))
                    left = set()
                    continue
                ht = (p.type(f['unit'], h['t']) or {}).get('cls')
                hit = {c for c in left if ht in exc_bases(c)}
                if hit:
                    out.append((f, n, h))
                    left -= hit
    return out
