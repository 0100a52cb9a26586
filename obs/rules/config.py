"""Configuring an application or a router: P01 (verbs), P25 (recursion), P27 (delegation), and the outer half of P04 and P06."""
from ..base import *
from ..graph import graph, request_code
from .trie import *
from .lookup import look, vague
from .serve import is_exec

VERBS = {'get': 'GET', 'post': 'POST', 'put': 'PUT', 'patch': 'PATCH', 'delete': 'DELETE'}


class Config:
    """All outcomes of one configuration call, the registration calls of the tree being unknown functions"""

    def __init__(self, A, name):
        T = trie(A)
        self.A, self.name, self.T = A, name, T
        self.w = A.span(name)
        Es = {E.name: E for E in entry_points(A)}
        self.Es = Es

        def con(E):
            def f(I, st, fr, args, loc, c):
                vals = [A.eta(I.norm(st, a)) for a in args]
                I.event(st, 'call', 'ENTRY', s(E.name), *vals, loc=loc)
                a = args[0]
                if a.tag == 'ref':
                    I.store(st, a.a[0], a.a[1], app('REG', s(E.name), *vals))
                return [(st, UNIT)]
            return f
        self.R = A.run(name, contracts={n: con(E) for n, E in Es.items()}, partkey=everything)
        self.I = self.R.I
        self.p = [sym(a) for a in self.R.args]
        b = A.F.bodies[name]
        self.tys = [A.F.ty(b.locals[i + 1][0]) for i in range(b.argc)]
        self.outs = [st for st, v in self.R.outs]
        self.values = [(st, A.eta(self.I.norm(st, v))) for st, v in self.R.outs]

    def entries(self, st):
        """[(registration call, event)] in this outcome, None if some are in a loop"""
        own = [e for e in events(st, 'call') if e.a[2] == 'ENTRY']
        al = [e for e in all_events(self.I, st) if e.a[0] == 'call' and e.a[2] == 'ENTRY']
        if len(al) != len(own):
            return None
        return [(self.Es[e.a[3].a[0]], e) for e in own]

    def by_role(self, E, e):
        """the arguments of a registration call by their role"""
        b = self.A.F.bodies[E.name]
        out = {}
        for i in range(b.argc):
            a = sym(E.R.args[i])
            v = e.a[4 + i]
            if a is E.target:
                out['target'] = v
            elif a is E.path:
                out['path'] = v
            elif a is sym(E.given):
                out['given'] = v
        return out


def config(A, name):
    c = A.cache.setdefault('config', {})
    if name not in c:
        c[name] = Config(A, name)
    return c[name]


def own_tree(A, C, t):
    """is a tree the one of the application or router the call is made on"""
    r, ch = chain(t)
    return r is C.p[0]


# ------------------------------------------------------------------ P01: verbs
def verbs(A):
    T = trie(A)
    n = 0
    for ty in ('App', 'Router'):
        for m, verb in VERBS.items():
            name = A.method(ty, m)
            if name is None:
                A.und('%s::%s' % (ty, m), '', 'not found')
                continue
            n += 1
            C = config(A, name)
            handlers = [p for p, t in zip(C.p, C.tys) if t[0] in ('param', 'other', 'dyn') or is_adt(t, 'Arc', 'Box')]
            paths = [p for p, t in zip(C.p, C.tys) if strip_refs(t) == ('str',)]
            if len(handlers) != 1 or len(paths) != 1 or not C.outs:
                A.und('%s::%s' % (ty, m), C.w, 'its arguments are not a path and a handler, or it never returns')
                continue
            for st in C.outs:
                one_route(A, C, st, '%s::%s' % (ty, m), verb, paths[0], handlers[0])
    for m in ('use_static', 'use_static_to'):
        name = A.method('Router', m)
        if name is None:
            continue
        C = config(A, name)
        for st in C.outs:
            one_route(A, C, st, 'Router::%s' % m, 'GET', None, None)
    if not n:
        A.und('verbs', '', 'none found')


def one_route(A, C, st, who, verb, path, handler):
    T = C.T
    what = '%s registers one route' % who
    es = C.entries(st)
    if es is None:
        A.und(what, C.w, 'registered in a loop')
        return
    rs = [(E, e) for E, e in es if E.kind == 'route']
    if len(rs) != 1 or len(es) != 1:
        A.check(False, what, C.w, 'it makes %d registrations on a normal return, with %s' % (len(es), facts_of(st)))
        return
    E, e = rs[0]
    w = e.a[1]
    d = C.by_role(E, e)
    A.check(True if own_tree(A, C, d['target']) else (None if vague(d['target']) else False), '%s registers on itself' % who, w, 'it registers on %s' % show(d['target'])[:100])
    mf = method_field(A, E)
    route = d['given']
    if mf is None:
        A.und(what, w, 'routes have no method')
        return
    mv = proj(route, ('f', mf))
    cn = constname(mv)
    A.check(True if cn == verb else (False if cn else None if vague(mv) or mv.tag in UNKNOWN else False), '%s registers for %s' % (who, verb), w, 'it registers for %s' % show(mv)[:100])
    if path is not None:
        A.check(path_is(d['path'], path), '%s registers at the given path' % who, w, 'it registers at %s' % show(d['path'])[:150])
    if handler is not None:
        hs = [proj(route, ('f', f[0])) for f in A.F.adts[E.giventy[1]]['variants'][0][1] if f[0] != mf]
        good = any(h is handler for h in hs)
        A.check(True if good else (None if any(vague(h) for h in hs) else False), '%s registers the given handler' % who, w, 'it registers %s' % ', '.join(show(h)[:100] for h in hs))


def path_is(t, p):
    """do two path texts have the same segments, whatever the path is"""
    if same_path(t, p):
        return True
    if respelled(t, p):
        return False
    if t.tag == 'fld' and mentions(t, p) and any(x.tag == 'app' and x.a[0].endswith('strip_prefix') and x.a[2].tag == 'k' and x.a[2].a[0] == '/' for x in subterms(t)):
        return True
    return None if vague(t) and mentions(t, p) else False


# ------------------------------------------------------------------ P04, P06: the other calls
OTHERS = {'use_service': 'middleware', 'use_service_to': 'middleware', 'use_router': 'tree'}


def others(A, pid):
    for ty in ('App', 'Router'):
        for m, kind in OTHERS.items():
            name = A.method(ty, m)
            if name is None:
                A.und('%s::%s' % (ty, m), '', 'not found')
                continue
            if pid == 'P04' and kind != 'middleware':
                continue
            C = config(A, name)
            who = '%s::%s' % (ty, m)
            if not C.outs:
                A.und(who, C.w, 'it never returns')
            for st in C.outs:
                other(A, C, st, who, kind, pid)
        if pid == 'P06':
            for m in list(VERBS) + ['use_static', 'use_static_to']:
                name = A.method(ty, m)
                if name is None:
                    continue
                C = config(A, name)
                for st in C.outs:
                    es = C.entries(st)
                    A.check(None if es is None else len(es) == 1, '%s::%s registers on every normal return' % (ty, m), C.w, 'it registers %d times, with %s' % (len(es or ()), facts_of(st)))


def other(A, C, st, who, kind, pid):
    what = '%s registers what it was given, once' % who
    es = C.entries(st)
    if es is None:
        A.und(what, C.w, 'registered in a loop')
        return
    if len(es) != 1 or es[0][0].kind != kind:
        A.check(False, what, C.w, 'it makes %d registrations on a normal return, with %s' % (len(es), facts_of(st)))
        return
    E, e = es[0]
    w = e.a[1]
    d = C.by_role(E, e)
    paths = [p for p, t in zip(C.p, C.tys) if strip_refs(t) == ('str',)]
    given = [p for p, t in zip(C.p[1:], C.tys[1:]) if strip_refs(t) != ('str',)]
    A.check(True if own_tree(A, C, d['target']) else (None if vague(d['target']) else False), '%s registers on itself' % who, w, 'it registers on %s' % show(d['target'])[:100])
    if len(given) == 1:
        g = d['given']
        good = g is given[0] or kind == 'tree' and chain(g)[0] is given[0] or kind == 'middleware' and g is given[0]
        A.check(True if good else (None if vague(g) else False), what, w, 'it registers %s' % show(g)[:150])
    if paths and d.get('path') is not None:
        A.check(path_is(d['path'], paths[0]), '%s registers at the given path' % who, w, 'it registers at %s' % show(d['path'])[:150])
    elif paths:
        A.check(False, '%s registers at the given path' % who, w, 'it registers at the root')
    elif d.get('path') is not None:
        p = d['path']
        A.check(True if p.tag == 'k' and isinstance(p.a[0], str) and not p.a[0].strip('/') else (None if vague(p) else False), '%s registers at the root' % who, w, 'it registers at %s' % show(p)[:100])


# ------------------------------------------------------------------ P27
def P27(A):
    T = trie(A)
    rt = [p for p in A.F.adts if p.endswith('::Router') or p == 'Router']
    appadt = A.adt('App')
    rf = field_by_type(A, appadt, lambda t: t[0] == 'adt' and t[1] in rt) if appadt else None
    if rf is None:
        A.und('the router of an application', '', 'not found')
        return
    n = 0
    for name, b in list(A.F.bodies.items()):
        c = canon(name)
        if b.kind != 'method' or b.impl_trait is not None or not (c.startswith('App::') or '::App::' in c):
            continue
        m = c.split('::')[-1]
        if not b.argc or strip_refs(A.F.ty(b.locals[1][0]))[0] != 'adt':
            continue
        other_ = A.method('Router', m)
        if other_ is None or m in ('listen',):
            continue
        ob = A.F.bodies[other_]
        if ob.argc != b.argc:
            A.und('App::%s' % m, A.span(name), 'it takes other arguments than Router::%s' % m)
            continue
        n += 1
        delegated(A, config(A, name), config(A, other_), m, rf)
    if not n:
        A.und('delegation', '', 'no method of App has the name of one of Router')
    scope(A)
    clones(A)


def story(C, st, sub):
    """what one outcome did: its calls in order, and what it was given back"""
    ev = []
    for e in all_events(C.I, st):
        if e.a[0] == 'call':
            ev.append((e.a[2],) + tuple(replace(x, sub) if isinstance(x, T) else x for x in e.a[4:]) + ((replace(e.a[3], sub),) if e.a[2] == 'ENTRY' else ()))
    return tuple(ev)


def delegated(A, C, D, m, rf):
    what = 'App::%s does what Router::%s does' % (m, m)
    sub = {proj(C.p[0], ('f', rf)): D.p[0]}
    mine = {story(C, st, sub): st for st in C.outs}
    his = {story(D, st, {}): st for st in D.outs}
    if set(mine) == set(his):
        A.ok(what, C.w)
    else:
        diff = list(set(mine) - set(his)) + list(set(his) - set(mine))
        fuzzy = any(isinstance(x, T) and (vague(x) or any(y.tag == 'clo' for y in subterms(x))) for ev in diff for e in ev for x in e)
        if fuzzy and {coarse(x) for x in mine} != {coarse(x) for x in his} and not any(isinstance(x, T) and vague(x) for ev in diff for e in ev for x in e if coarse_keeps(x)):
            fuzzy = False
        if fuzzy and any(isinstance(x, T) and respelled(x, q) for ev in diff for e in ev for x in e for q in D.p[1:]):
            fuzzy = False
        A.check(None if fuzzy else False, what, C.w, 'it does %s, the router %s' % (brief(mine), brief(his)))
        return
    if len(mine) > 1:
        # the same things, but under the same conditions?
        def conds(X, s_):
            return {(story(X, st, s_), frozenset((replace(f, s_), r) for f, r in st.facts.items())) for st in X.outs}
        A.check(True if conds(C, sub) == conds(D, {}) else None, what + ', in the same cases', C.w, 'the cases differ')
    # an application panics when its router does, and not otherwise
    A.check(True if len(C.I.panics) == len(D.I.panics) else (None if C.I.panics and D.I.panics else False), what + ', also when it fails', C.w, '%d and %d ways to panic of its own' % (len(C.I.panics), len(D.I.panics)))
    # and nothing else of the application changes
    for st in C.outs:
        now = C.I.norm(st, C.p[0])
        if now.tag == 'with':
            bad = [e for e, v in now.a[1] if e[1] != rf]
            A.check(not bad, what + ', and nothing else', C.w, 'it also changes %s' % ', '.join(str(e[1]) for e in bad))


def coarse_keeps(x):
    return not any(y.tag == 'clo' for y in subterms(x))


def coarse(story_):
    """a story without the closures in it"""
    return tuple(tuple(x if not isinstance(x, T) or coarse_keeps(x) else '?' for x in e) for e in story_)


def brief(stories):
    return ' | '.join('; '.join('%s(%s)' % (e[0] if e[0] != 'ENTRY' else show(e[-1]).split('::')[-1], ', '.join(show(x)[:60] for x in (e[1:-1] if e[0] == 'ENTRY' else e[1:]) if isinstance(x, T))) for e in s_) or 'nothing' for s_ in stories)[:400]


def scope(A):
    name = A.method('App', 'scope')
    new = A.method('Router', 'new')
    what = 'a scope mounts at its name what the given function registers on a fresh router'
    if name is None or new is None:
        A.und(what, '', 'no App::scope')
        return
    C = config(A, name)
    N = A.run(new)
    if len(N.outs) != 1:
        A.und(what, C.w, 'a new router has several forms')
        return
    empty = A.norm(N, *N.outs[0])
    paths = [p for p, t in zip(C.p, C.tys) if strip_refs(t) == ('str',)]
    fns = [p for p, t in zip(C.p[1:], C.tys[1:]) if strip_refs(t) != ('str',)]
    if len(paths) != 1 or len(fns) != 1 or not C.outs:
        A.und(what, C.w, 'its arguments are not a name and a function')
        return
    for st in C.outs:
        evs = [e for e in all_events(C.I, st) if e.a[0] == 'call']
        cf = [e for e in evs if e.a[2] == 'callfn' and e.a[4] is fns[0]]
        es = C.entries(st)
        if es is None or len(cf) != 1:
            A.check(None if es is None else False, what, C.w, 'the given function is called %d times' % len(cf))
            continue
        given = A.eta(cf[0].a[5]) if len(cf[0].a) > 5 else None
        A.check(True if given is empty else (None if given is None or vague(given) else False), 'a scope starts with a fresh router', cf[0].a[1], 'it starts with %s' % (show(given)[:200] if given is not None else ''))
        if len(es) != 1 or es[0][0].kind != 'tree':
            A.check(False, what, C.w, 'it makes %d registrations' % len(es))
            continue
        E, e = es[0]
        d = C.by_role(E, e)
        A.check(True if own_tree(A, C, d['target']) else (None if vague(d['target']) else False), what, e.a[1], 'it is mounted in %s' % show(d['target'])[:100])
        A.check(path_is(d['path'], paths[0]), 'a scope is mounted at its name', e.a[1], 'it is mounted at %s' % show(d['path'])[:150])
        g = d['given']
        r, ch = chain(g)
        after = r.tag == 'app' and str(r.a[0]).startswith('callfn#') and r.a[1] is fns[0] and evs.index(cf[0]) < evs.index(e)
        A.check(True if after else (None if vague(g) else False), what, e.a[1], 'mounted: %s' % show(g)[:200])


def clones(A):
    """copies of a router and of all it consists of"""
    rt = [p for p in A.F.adts if p.endswith('::Router') or p == 'Router']
    G = graph(A)
    types, work = set(), list(rt)
    while work:
        p = work.pop()
        if p in types or p not in A.F.adts:
            continue
        types.add(p)
        for v in A.F.adts[p]['variants']:
            for f in v[1]:
                work += G.adts_in(A.F.ty(f[1]))
    n = 0
    for ty, body in A.impl('Clone', 'clone'):
        if not (ty[0] == 'adt' and ty[1] in types):
            continue
        R = A.run(body, partkey=everything)
        w = A.span(body)
        what = 'a copy of a %s is equal to it' % ty[1].split('::')[-1]
        if not R.outs:
            A.und(what, w, 'no outcome')
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            p0 = sym(R.args[0])
            good = v is p0
            if not good and v.tag == 'agg':
                good = all(equal_given(A, st, x, A.eta(proj(p0, ('f', nm)))) for nm, x in zip(v.a[2], v.a[3:]))
            A.check(True if good else (None if vague(v) else False), what, w, 'it is %s' % show(v)[:300])
    if not n:
        A.und('copies of a router', '', 'no Clone of a router')


def equal_given(A, st, x, y):
    if x is y:
        return True
    if is_none(x) and A.variant(st, y) == 'None':
        return True
    if x.tag == 'seq' and not x.a and A.truth(st, is_empty(y)) is True:
        return True
    return False


# ------------------------------------------------------------------ P25
def P25(A):
    T = trie(A)
    G = graph(A)
    edges = {}
    for n, ss in G.sites.items():
        out = set()
        for x in ss:
            f = x.fn
            r = f.get('res')
            if r in A.F.bodies:
                out.add(r)
            elif f['def'] in A.F.bodies:
                out.add(f['def'])
            elif f.get('trait') and not f['trait'].startswith(('std::', 'core::', 'alloc::', 'serde')):
                out |= {p for p in G.impl_methods.get((f['trait'], f.get('name')), ()) if p in A.F.bodies}
        out |= set(G.closures[n])
        edges[n] = out
    rc = request_code(A)
    walkers = {T.looker, T.inserter} - {None}
    n = 0
    for comp in sccs(edges):
        n += 1
        derived = [m for m in comp if A.F.bodies[m].impl_trait and A.F.bodies[m].impl_trait.startswith(('std::clone', 'std::fmt', 'std::cmp', 'std::ops::Drop', 'std::hash'))]
        inner = [m for m in comp if m not in walkers and m not in derived and not is_chain(A, m)]
        cyc = sccs({m: edges[m] & set(inner) for m in inner})
        for bad in cyc:
            who = ', '.join(canon(m) for m in bad[:3])
            reached = [m for m in bad if m in rc]
            over = all(takes_node(A, T, m) for m in bad)
            A.check(None if over or not reached else False, 'serving a request recurses only over the routing table and the middleware chain', A.span(bad[0]), 'recursion through %s' % who)
        A.ok('every cycle of calls goes through a function whose recursion is bounded', A.span(comp[0]))
    # the lookup goes down the tree
    L = look(A)
    if L.ro is None or not L.outs:
        A.und('recursion of the lookup', '', T.why or 'its shape is not known')
    else:
        for st, e in L.calls:
            A.check(below(L.p0, L.kids0, e.a[4], T), 'each recursion of the lookup is one level further down', e.a[1], 'it goes on at %s' % show(e.a[4])[:150])
    S = step(A)
    if S.R is None or not S.outs:
        A.und('recursion of the registration', '', T.why or 'its shape is not known')
    else:
        for st, v, res, after in S.outs:
            for e in events(st, 'call', 'REC'):
                A.check(below(S.p0, S.kids0, e.a[4], T), 'each recursion of the registration is one level further down', e.a[1], 'it goes on at %s' % show(e.a[4])[:150])
    executor_shrinks(A)


def below(p0, kids0, x, T):
    """strictly inside the node"""
    d = 0
    y = x
    while y.tag == 'app' and y.a[0] == 'elem' and y.a[1].tag == 'fld' and y.a[1].a[1] == T.kids:
        y = y.a[1].a[0]
        d += 1
    if y is p0:
        return d > 0
    return None if vague(x) or x.tag in UNKNOWN else False


def takes_node(A, T, m):
    b = A.F.bodies[m]
    return any(T.isnode(A.F.ty(b.locals[i][0])) for i in range(1, b.argc + 1))


def is_chain(A, m):
    """links of the middleware chain: judged by executor_shrinks"""
    c = canon(m)
    b = A.F.bodies[m.split('::{closure')[0]] if m.split('::{closure')[0] in A.F.bodies else A.F.bodies[m]
    return 'EndpointExecutor' in c or b.impl_trait is not None and b.impl_trait.endswith('Middleware')


def executor_shrinks(A):
    name = A.method('EndpointExecutor', 'next')
    what = 'each link of the chain leaves fewer middleware than it was given'
    if name is None:
        A.und(what, '', 'no EndpointExecutor::next')
        return
    R = A.run(name, asynchronous=True)
    self_ = sym(R.args[0])
    adt = A.adt('EndpointExecutor')
    mf = field_by_type(A, adt, lambda t: 'Middleware' in tstr(t))
    if mf is None:
        A.und(what, A.span(name), 'the executor holds no middleware')
        return
    mw = mk('fld', self_, mf)
    n = 0
    for st, v in R.outs:
        for e in all_events(R.I, st):
            if e.a[0] == 'call' and is_exec(e.a[2]) and e.a[2].startswith('Middleware') and len(e.a) > 6:
                n += 1
                nx = A.eta(e.a[6])
                left = A.eta(proj(nx, ('f', mf)))
                good = left.tag == 'app' and left.a[0] == 'sub' and left.a[1] is mw and not number_zero(left.a[2], left.a[3])
                A.check(True if good else (False if left is mw else None), what, e.a[1], 'left: %s' % show(left)[:150])
    if not n:
        A.und(what, A.span(name), 'no link found')


def number_zero(a, b):
    return (a == 0 or isinstance(a, T) and number(a, 0)) and (b == 0 or isinstance(b, T) and number(b, 0))


def sccs(E):
    idx, low, st, on, out, todo = {}, {}, [], set(), [], 0
    for root in E:
        if root in idx:
            continue
        work = [(root, iter(sorted(E.get(root, ()))))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in E:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(E.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in E.get(v, ()):
                        out.append(c)
    return out


# ------------------------------------------------------------------ the rules
def P01(A):
    verbs(A)
    entries(A, 'P01')


def P04(A):
    others(A, 'P04')
    entries(A, 'P04')


def P06(A):
    others(A, 'P06')


# ------------------------------------------------------------------ P36: what a new application or router holds
def constructors(A):
    """[(type, function without arguments that makes a value of it)]"""
    out = []
    for n, b in A.F.bodies.items():
        if b.argc or b.kind not in ('method', 'fn'):
            continue
        t = A.F.ty(b.locals[0][0])
        if t[0] == 'adt' and t[1].split('::')[-1] in ('App', 'Router'):
            out.append((t[1].split('::')[-1], n))
    return out


def empty_tree(A, C, st, t):
    """(True/False/None, what it holds)"""
    T = C.T
    t = A.eta(C.I.norm(st, t))
    node = A.eta(proj(t, ('f', T.head))) if t.tag in ('agg', 'with') else None
    if node is None or node.tag not in ('agg', 'with'):
        return None, show(t)[:150]
    kids = proj(node, ('f', T.kids))
    if kids is not EMPTYSEQ:
        return (None if vague(kids) or kids.tag != 'seq' else False), 'it has children: %s' % show(kids)[:150]
    v = proj(node, ('f', T.val))
    if v is NONE:
        return True, ''
    if not (v.tag == 'agg' and v.a[1] == 'Some'):
        return None, 'its value is %s' % show(v)[:150]
    v = pay(v)
    mws = proj(v, ('f', T.mws))
    m = T.map_of(v)
    if mws is not EMPTYSEQ:
        return (False if mws.tag == 'seq' and mws.a else None), 'it has middleware: %s' % show(mws)[:150]
    if not (m.tag == 'app' and m.a[0] == 'emptymap'):
        return (False if m.tag == 'app' and m.a[0] == 'minsert' else None), 'it has routes: %s' % show(m)[:150]
    return True, ''


def P36(A):
    T = trie(A)
    if T.why:
        A.und('routing table', '', T.why)
        return
    n = 0
    for ty, name in constructors(A):
        C = config(A, name)
        n += 1
        fresh = canon(name).split('::')[-1] != 'default'
        who = canon(name) if fresh else '%s::default' % ty
        for st, v in C.values:
            es = C.entries(st)
            if es is None:
                A.und('%s makes an empty one' % who, C.w, 'it registers in a loop')
                continue
            if ty == 'App':
                rf = field_by_type(A, 'App', lambda t: is_adt(t, 'Router'))
                sf = field_by_type(A, 'App', lambda t: is_opt_of(t, lambda u: True))
                if rf is None or v.tag not in ('agg', 'with'):
                    A.und('%s makes an empty one' % who, C.w, show(v)[:150])
                    continue
                if sf is not None:
                    state = proj(v, ('f', sf))
                    A.check(True if state is NONE else (None if unknown(state) else False), '%s makes one without state' % who, C.w, 'its state is %s' % show(state)[:100])
                router = proj(v, ('f', rf))
            else:
                router = v
            # the tree inside, and what was registered on it
            tree = router
            hops = 0
            while hops < 8 and not (tree.tag == 'agg' and tree.a[0] == T.tree):
                hops += 1
                if tree.tag == 'app' and tree.a[0] == 'REG':
                    E = C.Es[tree.a[1].a[0]]
                    tree = tree.a[2 + [i for i in range(A.F.bodies[E.name].argc) if sym(E.R.args[i]) is E.target][0]]
                elif tree.tag == 'agg' and len(tree.a) > 3:
                    inner = [x for x in tree.a[3:] if any(y.tag == 'agg' and y.a[0] == T.tree for y in subterms(x))]
                    if len(inner) != 1:
                        break
                    tree = inner[0]
                else:
                    break
            what = '%s makes one without routes' % who
            if not (tree.tag == 'agg' and tree.a[0] == T.tree):
                A.und(what, C.w, show(router)[:150])
                continue
            r, why = empty_tree(A, C, st, tree)
            A.check(r, what, C.w, why)
            if ty == 'App' and not fresh:
                # the default middleware, and nothing else
                what = 'the default application has the logger as its only middleware, on every route'
                mw = [(E, e) for E, e in es if E.kind == 'middleware']
                if len(es) != 1 or len(mw) != 1:
                    A.check(False, what, C.w, 'it makes %d registrations' % len(es))
                    continue
                E, e = mw[0]
                d = C.by_role(E, e)
                g = d['given']
                logs = any(x.tag == 'agg' and x.a[0].split('::')[-1] == 'Logger' for x in subterms(g))
                A.check(True if logs else (None if vague(g) else False), what, e.a[1], 'the middleware is %s' % show(g)[:100])
                p = d.get('path')
                root = p is None or p.tag == 'k' and str(p.a[0]).strip('/') == ''
                A.check(True if root else (False if p.tag == 'k' else None), what, e.a[1], 'it is registered at %s' % (show(p)[:100] if p is not None else ''))
            else:
                A.check(not es, '%s registers nothing' % who, C.w, 'it makes %d registrations' % len(es))
    if not n:
        A.und('constructors', '', 'no function that makes an application or a router')
