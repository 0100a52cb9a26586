"""Call graph over the compiler's facts, and which code runs while a request is served."""
from .facts import canon, key2, strip_refs


def walk_fns(x, out):
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict) and 'def' in x['fn']:
            out.append(x['fn'])
        for v in x.values():
            walk_fns(v, out)
    elif isinstance(x, list):
        for v in x:
            walk_fns(v, out)


class Site:
    __slots__ = ('body', 'fn', 'loc', 'block', 'call')

    def __init__(self, body, fn, loc, block, call):
        self.body, self.fn, self.loc, self.block, self.call = body, fn, loc, block, call


class Graph:
    def __init__(self, F):
        self.F = F
        self.sites = {}     # body -> [Site] of every function mentioned
        self.closures = {}  # body -> [closure body]
        self.impl_methods = {}
        for tr, impls in F.trait_impls.items():
            for i in impls:
                for n, p in i['methods']:
                    self.impl_methods.setdefault((tr, n), []).append(p)
        self.adt_methods = {}
        for i in F.impls:
            if i['trait']:
                for a in self.adts_in(F.ty(i['self'])):
                    self.adt_methods.setdefault(a, []).extend(p for n, p in i['methods'])
        for n, b in F.bodies.items():
            ss, cl = [], []
            for bi, bl in enumerate(b.blocks):
                if bl.get('cleanup'):
                    continue
                for st in bl['st']:
                    v = st.get('v')
                    if isinstance(v, dict) and v.get('r') == 'agg' and v.get('ak') in ('closure', 'coroutine', 'coroutineclosure'):
                        cl.append(v['p'])
                    fs = []
                    walk_fns(st, fs)
                    ss += [Site(n, f, st.get('l', b.span), bi, False) for f in fs]
                t = bl['term']
                fs = []
                walk_fns(t.get('args', []), fs)
                ss += [Site(n, f, t.get('l', b.span), bi, False) for f in fs]
                if t['t'] == 'call' and 'fn' in t['f']:
                    ss.append(Site(n, t['f']['fn'], t.get('l', b.span), bi, True))
            self.sites[n] = ss
            self.closures[n] = cl

    def adts_in(self, t, depth=0):
        out = []
        if depth > 8:
            return out
        if t[0] == 'adt':
            if t[1] in self.F.adts:
                out.append(t[1])
            for x in t[2]:
                out += self.adts_in(x, depth + 1)
        elif t[0] in ('ref', 'ptr'):
            out += self.adts_in(t[2], depth + 1)
        elif t[0] == 'tuple':
            for x in t[1]:
                out += self.adts_in(x, depth + 1)
        elif t[0] in ('slice', 'array'):
            out += self.adts_in(t[1], depth + 1)
        return out

    def callees(self, site):
        """crate functions a mentioned function may enter"""
        F, f = self.F, site.fn
        out = []
        r = f.get('res')
        if r in F.bodies:
            out.append(r)
        elif f['def'] in F.bodies:
            out.append(f['def'])
        tr = f.get('trait')
        if tr and not (r in F.bodies):
            out += [p for p in self.impl_methods.get((tr, f.get('name')), ()) if p in F.bodies]
        if r not in F.bodies:
            # foreign code generic over a type of the crate may use the type's trait impls
            for t in f.get('targs', []):
                for a in self.adts_in(F.ty(t)):
                    out += [p for p in self.adt_methods.get(a, ()) if p in F.bodies]
        return out

    def reach(self, roots, stop=lambda site: False):
        seen, work, via = set(), list(roots), {}
        for r in roots:
            via[r] = None
        while work:
            n = work.pop()
            if n in seen or n not in self.F.bodies:
                continue
            seen.add(n)
            off = self.offloaded(n)
            for c in self.closures[n]:
                if c not in off and c not in via:
                    via[c] = n
                    work.append(c)
            for s in self.sites[n]:
                if stop(s):
                    continue
                for c in self.callees(s):
                    if c not in via:
                        via[c] = n
                        work.append(c)
        self.via = via
        return seen

    def offloaded(self, n):
        """closures handed to a thread of their own"""
        out = set()
        for s in self.sites[n]:
            if s.call and key2(s.fn['def']) in ('blocking::spawn_blocking', 'task::spawn_blocking', 'thread::spawn', 'Builder::spawn',
                                               'spawn_blocking::spawn_blocking', 'Handle::spawn_blocking', 'blocking::unblock'):
                for t in s.fn.get('targs', []):
                    ty = self.F.ty(t)
                    if ty[0] == 'closure':
                        out.add(ty[1])
        return out

    def path_to(self, n):
        p = []
        while n is not None:
            p.append(n)
            n = self.via.get(n)
        return ' <- '.join(canon(x) for x in p[:6])


SETUP = ('App', 'Router', 'RouteTrie', 'Node', 'Resource', 'Route', 'RouteValue', 'Action', 'ActionPayload', 'ActionName', 'AppServer', 'DefaultAppState', 'Logger')


def request_roots(A, G):
    """functions entered while requests are served: everything that handles a request, a context, a response or a part of one,
    all trait implementations, the lookup, and the closures of the server"""
    F = A.F
    listen = A.method('App', 'listen')
    errors = {F.ty(i['self'])[1] for i in F.trait_impls.get('std::error::Error', ()) if F.ty(i['self'])[0] == 'adt'}
    roots = []
    for n, b in F.bodies.items():
        if b.kind not in ('method', 'fn', 'closure', 'coroutine'):
            continue
        c = canon(n)
        if b.impl_trait is not None:
            st = F.ty(b.j['impl_self']) if 'impl_self' in b.j else None
            if b.impl_trait in ('std::default::Default', 'std::clone::Clone') and st is not None and st[0] == 'adt' and st[1].split('::')[-1] in SETUP:
                if b.impl_trait == 'std::default::Default':
                    continue
            roots.append(n)
            continue
        if c.endswith('::search_route'):
            roots.append(n)
            continue
        if listen and n.startswith(listen + '::') and b.kind == 'closure':
            roots.append(n)
            continue
        if b.j.get('default_of'):
            roots.append(n)
            continue
        for i in range(0, b.argc + 1):
            t = strip_refs(F.ty(b.locals[i][0]))
            if t[0] == 'adt' and t[1] not in errors and (t[1] in F.adts and t[1].split('::')[-1] not in SETUP or t[1].endswith('::Request') or t[1].endswith('::Response')):
                roots.append(n)
                break
    return roots


def request_code(A):
    if 'request_code' not in A.cache:
        G = graph(A)
        A.cache['request_code'] = G.reach(request_roots(A, G))
    return A.cache['request_code']


def graph(A):
    if 'graph' not in A.cache:
        A.cache['graph'] = Graph(A.F)
    return A.cache['graph']
