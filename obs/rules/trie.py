"""The routing table: registration (P01, P06, P07, P23, P25) and lookup (P01, P04, P05, P23, P25)."""
from ..base import *
from ..graph import graph


def callers(A, n):
    G = graph(A)
    c = A.cache.get('callers')
    if c is None:
        c = A.cache['callers'] = {}
        for m, ss in G.sites.items():
            for x in ss:
                for y in G.callees(x):
                    c.setdefault(y, set()).add(m)
    return c.get(n, ())


def everything(st):
    """tell paths apart by all that is known on them"""
    return frozenset(st.facts.items())


def is_vec_of(t, pred):
    return t[0] == 'adt' and t[1].endswith('Vec') and pred(t[2][0])


def object_ref(t, m=True):
    return mk('ref', ('O', t), (), m)


class Trie:
    """Names of the parts of the routing table, found by their types."""

    def __init__(self, A):
        self.A = A
        F = A.F
        self.why = ''
        self.node = None
        for p, a in F.adts.items():
            if len(a['variants']) == 1:
                kids = [f[0] for f in a['variants'][0][1] if is_vec_of(F.ty(f[1]), lambda u: u[0] == 'adt' and u[1] == p)]
                if len(kids) == 1:
                    self.node, self.kids, nodeadt = p, kids[0], a
        if self.node is None:
            self.why = 'no type of tree nodes'
            return
        self.key = field_by_type(A, nodeadt, lambda t: is_adt(t, 'String'))
        self.suf = field_by_type(A, nodeadt, lambda t: t == ('prim', 'bool'))
        self.val = field_by_type(A, nodeadt, lambda t: is_opt_of(t, lambda u: u[0] == 'adt' and u[1] in F.adts))
        if self.key is None or self.val is None:
            self.why = 'node without a key or a value'
            return
        vt = [F.ty(f[1]) for f in nodeadt['variants'][0][1] if f[0] == self.val][0][2][0][1]
        self.value = vt
        va = F.adts[vt]
        self.mws = field_by_type(A, va, lambda t: is_vec_of(t, lambda u: 'Middleware' in tstr(u)))
        self.res = field_by_type(A, va, lambda t: t[0] == 'adt' and t[1] in F.adts or is_adt(t, 'HashMap'))
        if self.mws is None or self.res is None:
            self.why = 'value of a node without middleware or routes'
            return
        rt = [F.ty(f[1]) for f in va['variants'][0][1] if f[0] == self.res][0]
        self.map = None if is_adt(rt, 'HashMap') else field_by_type(A, F.adts[rt[1]], lambda t: is_adt(t, 'HashMap'))
        # the tree: a type holding one node
        self.tree = None
        for p, a in F.adts.items():
            if p != self.node and len(a['variants']) == 1:
                h = [f[0] for f in a['variants'][0][1] if F.ty(f[1])[0] == 'adt' and F.ty(f[1])[1] == self.node]
                if len(h) == 1:
                    self.tree, self.head = p, h[0]
        if self.tree is None:
            self.why = 'no type holding the root node'
            return
        # who finds or makes the node for one more segment, and who looks one up
        self.inserter = self.looker = None
        ins, look = [], []
        for n, b in F.bodies.items():
            if b.kind not in ('method', 'fn') or not b.argc:
                continue
            t0 = F.ty(b.locals[1][0])
            if t0[0] != 'ref' or not self.isnode(t0):
                continue
            ret = F.ty(b.locals[0][0])
            if ret[0] == 'adt' and ret[1] == RES and self.isnode(ret[2][0]):
                ins.append(n)
            elif ret[0] == 'adt' and ret[1] == OPT and self.isnode(ret[2][0]):
                look.append(n)
        self.inserter = self.called_from_outside(self.of_text(ins))
        self.looker = self.called_from_outside(look)

    def of_text(self, names):
        """those that are given text, when there are any"""
        F = self.A.F
        out = [n for n in names if any(tstr(strip_refs(F.ty(F.bodies[n].locals[i + 1][0]))) in ('str', 'std::string::String') for i in range(1, F.bodies[n].argc))]
        return out or names

    def isnode(self, t):
        t = strip_refs(t)
        return t[0] == 'adt' and t[1] == self.node

    def called_from_outside(self, names):
        if len(names) < 2:
            return names[0] if names else None
        out = []
        for n in names:
            for m in callers(self.A, n):
                b = self.A.F.bodies[m.split('::{closure')[0]]
                if not (b.argc and self.isnode(self.A.F.ty(b.locals[1][0]))):
                    out.append(n)
                    break
        return out[0] if len(out) == 1 else None

    # terms
    def f(self, t, n):
        return proj(t, ('f', n))

    def value_of(self, node):
        return proj(proj(self.f(node, self.val), ('v', 'Some')), ('f', '0'))

    def mws_of(self, node):
        return self.f(self.value_of(node), self.mws)

    def map_of(self, value):
        r = self.f(value, self.res)
        return self.f(r, self.map) if self.map else r

    def is_param(self, st, key):
        """does the key start with a colon: True, False or None"""
        A = self.A
        cs = app('chars', key)
        if A.variant(st, app('at', cs, k(0))) == 'None' or A.truth(st, is_empty(key)) is True:
            return False
        return A.truth(st, eq(app('elem', cs, k(0)), k(':', 'char')))


def trie(A):
    if 'trie' not in A.cache:
        A.cache['trie'] = Trie(A)
    return A.cache['trie']


# ------------------------------------------------------------------ induction over loops
def back_value(I, b, lv):
    """the value a loop variable has at the end of an iteration"""
    root, path = I.lvs[lv]['at']
    v = b.mem.get(root)
    for e in path:
        if v is None:
            return None
        if e == 'pos':
            v = v.a[1] if v.tag == 'iter' else None
        elif isinstance(e, tuple):
            v = proj(v, e)
        elif isinstance(e, int):
            v = v.a[3 + e] if v.tag == 'clo' else None
        else:
            v = proj(v, ('f', e))
    return v


def lvs_of(I, t):
    return [x for x in subterms(t) if x.tag == 'lv' and x in I.lvs]


def refuted(A, I, st):
    """A fact of this state about loop variables which is false at every head of that loop, by induction"""
    for f, r in list(st.facts.items()):
        ls = lvs_of(I, f)
        loops = {I.lvs[x]['loop'] for x in ls}
        for L in loops:
            mine = [x for x in ls if I.lvs[x]['loop'] == L]
            if L not in I.iters:
                continue
            W, backs, S0 = I.iters[L]
            if not contradicts(A, S0, replace(f, {x: I.lvs[x]['init'] for x in mine}), r):
                continue
            good = True
            for b in backs:
                vs = {x: back_value(I, b, x) for x in mine}
                if any(v is None for v in vs.values()) or not contradicts(A, b, replace(f, vs), r):
                    good = False
                    break
            if good:
                return True
    return False


def contradicts(A, st, f, r):
    if f.tag == 'disc' and isinstance(r, tuple):
        v = A.variant(st, f.a[0])
        if v is None:
            return False
        return v != r[1] if r[0] == 'is' else v in r[1]
    if isinstance(r, bool):
        t = A.truth(st, f)
        return t is not None and t != r
    return False


# ------------------------------------------------------------------ one step of registration
class Step:
    """All outcomes of finding or making the node of one segment below a node"""

    def __init__(self, A):
        T = trie(A)
        self.A, self.T = A, T
        self.R = self.key = None
        if T.inserter is None:
            return
        self.name = T.inserter

        def recursion(I, st, fr, target, env, args, loc):
            if target != T.inserter:
                return None
            vals = [I.norm(st, a) for a in args]
            r = app('REC', *vals)
            I.event(st, 'call', 'REC', r, *vals, loc=loc)
            a = args[0]
            if a.tag == 'ref':
                I.store(st, a.a[0], a.a[1], app('REC#0', *vals))
            return [(st, r)]
        self.R = A.run(T.inserter, hooks={'recursion': recursion}, partkey=everything, unfilter=True)
        self.I = self.R.I
        b = A.F.bodies[T.inserter]
        tys = [A.F.ty(b.locals[i][0]) for i in range(1, b.argc + 1)]
        self.keyarg = [i for i, t in enumerate(tys) if strip_refs(t) == ('str',) or is_adt(strip_refs(t), 'String')]
        self.flagarg = [i for i, t in enumerate(tys) if t == ('prim', 'bool')]
        self.key = sym(self.R.args[self.keyarg[0]]) if len(self.keyarg) == 1 else None
        self.flag = sym(self.R.args[self.flagarg[0]]) if len(self.flagarg) == 1 else None
        self.p0 = sym(self.R.args[0])
        self.kids0 = T.f(self.p0, T.kids)
        self.w = A.span(T.inserter)
        self.outs = []
        for st, v in self.R.outs:
            if self.impossible(st):
                continue
            n = A.eta(self.I.norm(st, v))
            self.outs.append((st, v, n, A.eta(self.I.norm(st, T.f(self.I.norm(st, self.p0), T.kids)))))


    def impossible(self, st):
        """nodes never have empty keys: checked where they are made (no_empty_keys)"""
        for f, r in st.facts.items():
            if r is True and f.tag == 'app' and f.a[0] == 'is_empty' and f.a[1].tag == 'fld' and f.a[1].a[1] == self.T.key:
                return True
            if r is True and f is is_empty(self.key):
                return True
            if r is True and f.tag == 'app' and f.a[0] == 'eq':
                for x, c in (f.a[1:], f.a[:0:-1]):
                    if x.tag == 'app' and x.a[0] == 'len' and (x.a[1] is self.key or x.a[1].tag == 'fld' and x.a[1].a[1] == self.T.key) and any(is_true(self.A, st, c, z) for z in zeros(st)):
                        return True
        return False


def step(A):
    if 'step' not in A.cache:
        A.cache['step'] = Step(A)
    return A.cache['step']


def step_guard(A, S):
    if S.R is None or S.key is None or not S.outs:
        A.und('finding the node of one more segment', '', trie(A).why or 'its shape is not known')
        return False
    return True


def touched(S, after):
    """the child that was changed or None, given the children afterwards"""
    if after.tag == 'app' and after.a[0] == 'stored' and after.a[1] is S.kids0:
        return app('elem', S.kids0, after.a[2]), after.a[3]
    return None


def atoms(T, S, n, e, path, out):
    """what a rebuilt node holds of the node e it replaces; False when something else is in it"""
    if n is e:
        out.append(('V', path, n))
        out.append(('K', path, n))
        return True
    if n.tag == 'app' and n.a[0] == 'REC#0' and n.a[1] is e and not path:
        out.append(('V', path, n))
        out.append(('K', path, n))
        return True
    if n.tag not in ('agg', 'with') or n.tag == 'with' and n.a[0] is not e:
        return False
    v = T.f(n, T.val)
    if v is T.f(e, T.val):
        out.append(('V', path, n))
    elif is_none(v):
        pass
    else:
        return False
    return katoms(T, S, T.f(n, T.kids), n, e, path, out)


def katoms(T, S, ks, n, e, path, out):
    if ks is T.f(e, T.kids):
        out.append(('K', path, n))
        return True
    if ks.tag != 'seq':
        return False
    for p in ks.a:
        if p.tag == 'one':
            if not atoms(T, S, p.a[0], e, path + (n,), out):
                return False
        elif p.tag == 'all':
            if not katoms(T, S, p.a[0], n, e, path, out):
                return False
        else:
            return False
    return True


def fresh(T, n):
    """a node without anything in it"""
    return n.tag == 'agg' and is_none(T.f(n, T.val)) and seqparts_empty(T.f(n, T.kids))


def seqparts_empty(v):
    return v.tag == 'seq' and not v.a


def parts_of(after, kids0):
    """children afterwards as [one|all], nested lists opened; None if not understood"""
    out = []
    for p in seqparts(after):
        if p.tag == 'one':
            out.append(p)
        elif p.tag == 'all' and p.a[0] is not after and p.a[0].tag == 'seq':
            x = parts_of(p.a[0], kids0)
            if x is None:
                return None
            out += x
        elif p.tag == 'all' and p.a[0].tag == 'app' and p.a[0].a[0] == 'inserted':
            # somewhere among them
            x = parts_of(p.a[0].a[1], kids0)
            if x is None:
                return None
            out += x + [mk('one', p.a[0].a[3])]
        elif p.tag == 'all':
            out.append(p)
        else:
            return None
    return out


def conserved(A, S, st, after):
    """(True/False/None, why): the children afterwards hold everything the children held"""
    T = S.T
    if after is S.kids0:
        return True, ''
    t = touched(S, after)
    if t is not None:
        e, n = t
        return rebuilt(A, S, st, e, n)
    parts = parts_of(after, S.kids0)
    if parts is None:
        return (None if unknown_more(S, after) else False), 'the children become %s' % show(after)[:200]
    alls = [p for p in parts if p.tag == 'all']
    ones = [p.a[0] for p in parts if p.tag == 'one']
    if len(alls) == 1:
        a = alls[0].a[0]
        if a is S.kids0:
            for n in ones:
                if not fresh(T, n):
                    return (None if unknown_more(S, n) else False), 'a new child is not empty: %s' % show(n)[:200]
            return True, ''
        t = touched(S, a)
        if t is not None:
            for n in ones:
                if not fresh(T, n):
                    return (None if unknown_more(S, n) else False), 'a new child is not empty: %s' % show(n)[:200]
            return rebuilt(A, S, st, *t)
    if unknown_more(S, after) or any(x.tag == 'app' and x.a[0] in ('removed', 'swap_remove', 'without') for x in subterms(after)):
        return None, 'the children become %s' % show(after)[:200]
    return False, 'the children become %s' % show(after)[:200]


def rebuilt(A, S, st, e, n):
    T = S.T
    out = []
    if not atoms(T, S, n, e, (), out):
        return (None if unknown_more(S, n) else False), 'the child becomes %s' % show(n)[:300]
    kinds = sorted(x[0] for x in out)
    if kinds != ['K', 'V']:
        return False, 'of the old child %s is kept: %s' % (' and '.join({'V': 'the value', 'K': 'the children'}[x] for x in kinds) or 'nothing', show(n)[:300])
    if out[0][2] is not out[1][2]:
        return False, 'the value and the children of the old child end up in different nodes: %s' % show(n)[:300]
    path, last = out[0][1], out[0][2]
    if last.tag == 'app' or last is e:
        return True, ''
    keys = [T.f(x, T.key) for x in path + (last,)]
    whole = joined(A, S, keys, T.f(e, T.key))
    if whole is not True:
        return whole, 'the key of the old child becomes %s' % ' + '.join(show(x)[:120] for x in keys)
    return True, ''


def number(v, n):
    return v.tag == 'k' and v.a[0] == n and not isinstance(v.a[0], bool)


def is_true(A, st, a, b):
    """is it known that two values are equal, however the constant is typed"""
    if A.truth(st, eq(a, b)) is True:
        return True
    for f, r in st.facts.items():
        if r is True and f.tag == 'app' and f.a[0] == 'eq':
            x, y = f.a[1], f.a[2]
            for p, q in ((x, y), (y, x)):
                if p is a and (q is b or q.tag == 'k' and b.tag == 'k' and q.a[0] == b.a[0]):
                    return True
    return False


def covers(A, st, c, x):
    """is the length c of the start of a text known to be all of it"""
    return is_true(A, st, length(x), c) or A.truth(st, lt(c, length(x))) is False


def prefix_count(A, I, c, a, b):
    """c is the length in bytes of a common prefix of the texts a and b: True, False or None"""
    if number(c, 0):
        return True
    if c.tag == 'app' and c.a[0] == 'common':
        return set(c.a[1:]) == {a, b}
    info = I.lvs.get(c)
    if c.tag != 'lv' or info is None or info['loop'] not in I.iters:
        return None
    if not number(info['init'], 0):
        return False if info['init'].tag == 'k' else None
    W, backs, S0 = I.iters[info['loop']]
    its = {}
    for t, p in char_walks(W, (a, b)):
        its.setdefault(t, []).append(p)
    if a not in its or b not in its:
        return None
    if not backs:
        return None
    res = True
    for s2 in backs:
        n = back_value(I, s2, c)
        good = None
        if n is c:
            # going on although the texts differed here, unless something else ends the counting
            good = None if other_flags(I, info['loop'], s2) else False
        elif n is not None and n.tag == 'app' and n.a[0] == 'Add' and n.a[1] is c:
            d = n.a[2]
            good = False
            for pa in its[a]:
                for pb in its[b]:
                    if not (in_step(I, s2, pa) and in_step(I, s2, pb)):
                        continue
                    ca, cb = app('elem', app('chars', a), pa), app('elem', app('chars', b), pb)
                    if A.truth(s2, eq(ca, cb)) is True and d in (app('len_utf8', ca), app('len_utf8', cb)):
                        good = True
            if d.tag != 'k' and not (d.tag == 'app' and d.a[0] == 'len_utf8'):
                good = good or None
        if good is False:
            return False
        if good is None:
            res = None
    return res


def char_walks(W, texts):
    """[(text, position)] of the walks over the characters of some texts"""
    out = []
    for r, v in W.mem.items():
        if v.tag != 'iter' or v.a[1].tag not in ('lv', 'k'):
            continue
        for c in v.a[0].a[1:] if v.a[0].tag == 'app' and v.a[0].a[0] == 'zip' else (v.a[0],):
            if isinstance(c, T) and c.tag == 'app' and c.a[0] == 'chars' and c.a[1] in texts:
                out.append((c.a[1], v.a[1]))
    return out


def other_flags(I, L, s2):
    """a flag this iteration changes"""
    return any(i['loop'] == L and i['init'].tag == 'k' and isinstance(i['init'].a[0], bool) and back_value(I, s2, x) is not x for x, i in I.lvs.items())


def longest(A, I, st, c, a, b):
    """c, a length of a common prefix of a and b, is that of the longest one: True, False or None"""
    if number(c, 0):
        x, y = app('elem', app('chars', a), k(0)), app('elem', app('chars', b), k(0))
        if A.truth(st, eq(x, y)) is False or A.truth(st, is_empty(a)) is True or A.truth(st, is_empty(b)) is True:
            return True
        return False
    if c.tag == 'app' and c.a[0] == 'common':
        return set(c.a[1:]) == {a, b}
    info = I.lvs.get(c)
    if info is None or info['loop'] not in I.iters:
        return None
    W, backs, S0 = I.iters[info['loop']]
    ps = {a: [], b: []}
    for t, p in char_walks(W, (a, b)):
        if p.tag == 'lv':
            ps[t].append(p)
    if not ps[a] or not ps[b]:
        return None
    for t, o in ((a, b), (b, a)):
        # all of the other text was passed and this one ends there as well
        if A.variant(st, app('at', app('chars', t), length(app('chars', o)))) == 'None':
            return True
        for q in ps[t]:
            if A.variant(st, app('at', app('chars', t), q)) == 'None':
                return True
            for o in (a, b):
                if A.variant(st, app('at', app('zip', app('chars', t), app('chars', o)), q)) == 'None' or A.variant(st, app('at', app('zip', app('chars', o), app('chars', t)), q)) == 'None':
                    return True
    for p in ps[a]:
        for q in ps[b]:
            if A.truth(st, eq(app('elem', app('chars', a), p), app('elem', app('chars', b), q))) is False:
                return True
    cs = {app('chars', a), app('chars', b)}
    return None if any(unread(f, cs) for f in st.facts) else False


def unread(f, cs):
    return f.tag == 'app' and f.a[0] not in ('eq', 'is_empty', 'lt', 'len') and any(x in cs for x in subterms(f))


def counts(S, st, e):
    """what is counted as the length of a common prefix of the segment and the key of a child on this path"""
    key = S.T.f(e, S.T.key)
    out = []
    for x in {x for f in st.facts for x in subterms(f)} | {k(0)}:
        if number(x, 0) or x.tag == 'lv' and positional(S.I, x) or x.tag == 'app' and x.a[0] == 'common':
            if prefix_count(S.A, S.I, x, S.key, key) is True:
                out.append(x)
    return out


def same_text(A, S, st, e):
    """is the segment known to be the key of the child"""
    key = S.T.f(e, S.T.key)
    if A.truth(st, eq(S.key, key)) is True:
        return True
    for c in counts(S, st, e):
        if covers(A, st, c, S.key) and covers(A, st, c, key):
            return True
    return False


def counted_otherwise(S, st):
    """a condition speaks of something taken from the segment in a way the rules on the counting do not read"""
    return any(x.tag == 'app' and x.a[0] in ('elem', 'at') and x.a[1].tag == 'app' and x.a[1].a[0] not in ('chars', 'bytes', 'zip') and mentions(x.a[1], S.key) for f in st.facts for x in subterms(f))


def spelled(A, S, st, v):
    """(True/False/None, why): from the node down to the one handed back the keys make up the segment"""
    T, I = S.T, S.I
    keys = None
    e = chosen(A, S, st, v, A.eta(I.norm(st, T.f(I.norm(st, S.p0), T.kids))))
    if v.tag == 'app' and v.a[0] == 'REC':
        keys = [T.f(v.a[1], T.key), v.a[1 + S.keyarg[0]]]
    elif is_ok(v):
        r = pay(v)
        for x in (r, r.a[0][1] if r.tag == 'ref' and r.a[0][0] == 'O' else r):
            if x.tag == 'fld' and x.a[0].tag == 'as' and x.a[0].a[0].tag == 'app' and x.a[0].a[0].a[0] == 'REC':
                rec = x.a[0].a[0]
                keys = [T.f(rec.a[1], T.key), rec.a[1 + S.keyarg[0]]]
        if keys is None and r.tag == 'ref' and r.a[0] == ('O', S.p0) and r.a[1] and len(r.a[1]) % 2 == 0 and all(x == ('f', T.kids) for x in r.a[1][::2]):
            keys = [T.f(A.eta(I.norm(st, mk('ref', r.a[0], r.a[1][:j + 2], True))), T.key) for j in range(0, len(r.a[1]), 2)]
    if keys is None:
        return None, 'it hands back %s' % show(v)[:200]
    why = 'the keys down to it are %s for the segment %s' % (' + '.join(show(x)[:120] for x in keys), show(S.key))
    own = T.f(e, T.key) if e is not None else None
    if any(changed_text(x) for x in keys):
        return False, why
    if len(keys) == 1:
        x = keys[0]
        if x is S.key:
            return True, ''
        if x is own:
            return (True if same_text(A, S, st, e) else None if any(odd(S, f, own) for f in st.facts) or counted_otherwise(S, st) else False), why
        if x.tag == 'app' and x.a[0] == 'substr' and number(x.a[2], 0) and x.a[1] in (S.key, own):
            c = x.a[3]
            whole = covers(A, st, c, S.key) or any(r is True and f.tag == 'app' and f.a[0] == 'is_empty' and f.a[1].tag == 'app' and f.a[1].a[0] == 'substr' and
                                                            f.a[1].a[1] is S.key and f.a[1].a[2] is c for f, r in st.facts.items())
            good = prefix_count(A, I, c, S.key, own) if x.a[1] is own else True
            return (good if whole else False), why
        return None if unknown(x) else False, why
    if len(keys) == 2:
        x, y = keys
        if not (y.tag == 'app' and y.a[0] == 'substr' and y.a[1] is S.key and y.a[3].tag == 'app' and y.a[3].a[0] == 'end'):
            return None if y.tag == 'app' and y.a[0] not in ('substr',) or y.tag in UNKNOWN else False, why
        c = y.a[2]
        if x is own:
            return (prefix_count(A, I, c, S.key, own) if covers(A, st, c, own) else False), why
        if x.tag == 'app' and x.a[0] == 'substr' and number(x.a[2], 0) and x.a[3] is c:
            if x.a[1] is S.key:
                return True, ''
            if x.a[1] is own:
                return prefix_count(A, I, c, S.key, own), why
        return None if x.tag in UNKNOWN else False, why
    return None, why


def changed_text(t):
    return any(x.tag == 'app' and isinstance(x.a[0], str) and x.a[0].split('#')[0].split('<')[0].split('::')[-1] in CHANGES or stripped(x) for x in subterms(t))


def apart(A, S, st, e):
    """is it known that a child passed over is of the other kind or starts with another character: True, False or None"""
    T = S.T
    key = T.f(e, T.key)
    if T.suf is not None and S.flag is not None and A.truth(st, eq(S.flag, T.f(e, T.suf))) is False:
        return True
    x, y = app('elem', app('chars', key), k(0)), app('elem', app('chars', S.key), k(0))
    if A.truth(st, eq(x, y)) is False:
        return True
    res = False
    for c in counts(S, st, e):
        if any(is_true(A, st, c, z) for z in zeros(st)) or number(c, 0):
            m = longest(A, S.I, st, c, S.key, key)
            if m is True:
                return True
            if m is None:
                res = None
    if res is False and (counted_otherwise(S, st) or not counts(S, st, e) and any(unknown(f) and mentions(f, key) for f in st.facts) or any(odd(S, f, key) for f in st.facts)):
        return None
    return res


def siblings_apart(A, S):
    """what keeps the walk unambiguous: at every node, no two children of the same kind start with the same character"""
    T = S.T
    what = 'siblings never share the start of their keys'
    loops = deciding(S, lambda b, e: apart(A, S, b, e))
    if not loops:
        A.und(what, S.w, 'no loop over the siblings found')
    for L, e in loops:
        W, backs, S0 = S.I.iters[L]
        for b in backs:
            if S.impossible(b):
                continue
            A.check(apart(A, S, b, e), what, S.w, 'a child is passed over that may start like the segment: %s' % facts_of(b))
    for st, v, n, after in S.outs:
        if is_err(n) or after is S.kids0:
            continue
        t = touched(S, after)
        if t is None:
            parts = parts_of(after, S.kids0)
            if parts and any(p.tag == 'one' for p in parts) and any(p.tag == 'all' and p.a[0] is S.kids0 for p in parts):
                done = walked(A, S, st, loops)
                A.check(True if done else (None if not loops or any(unknown(f) and mentions(f, S.kids0) and f.tag == 'app' and f.a[0] not in ('lt', 'eq') for f in st.facts) else False),
                        'a child is only added when every child was looked at', S.w, 'it is added after %s' % facts_of(st))
            continue
        e, n2 = t
        if n2.tag not in ('agg', 'with') or T.f(n2, T.key) is T.f(e, T.key):
            continue
        x = T.f(n2, T.key)
        if not (x.tag == 'app' and x.a[0] == 'substr' and x.a[1] in (S.key, T.f(e, T.key))):
            continue        # judged where the keys are put together
        c = x.a[3]
        if covers(A, st, c, S.key):
            continue        # only one child below
        A.check(longest(A, S.I, st, c, S.key, T.f(e, T.key)), what, S.w, 'a key is split where both texts may go on alike: %s' % facts_of(st))


def walked(A, S, st, loops):
    return A.truth(st, is_empty(S.kids0)) is True or any(A.variant(st, app('at', S.kids0, e.a[2])) == 'None' for L, e in loops)


def in_step(I, s2, pos):
    """a position that starts at 0 and moves on by one"""
    if pos.tag != 'lv' or pos not in I.lvs:
        return False
    n = back_value(I, s2, pos)
    return number(I.lvs[pos]['init'], 0) and n is not None and n.tag == 'app' and n.a[0] == 'Add' and n.a[1] is pos and number(n.a[2], 1)


def joined(A, S, keys, want):
    """do the pieces make up the text?"""
    if any(changed_text(x) for x in keys):
        return False
    if len(keys) == 1:
        return True if keys[0] is want else (None if keys[0].tag in UNKNOWN else False)
    if len(keys) == 2:
        a, b = keys
        if a.tag == 'app' and a.a[0] == 'substr' and b.tag == 'app' and b.a[0] == 'substr' and a.a[1] is want and b.a[1] is want:
            lo, mid, mid2, hi = a.a[2], a.a[3], b.a[2], b.a[3]
            return number(lo, 0) and mid is mid2 and hi.tag == 'app' and hi.a[0] == 'end'
        if a.tag == 'app' and a.a[0] == 'substr' and b.tag == 'app' and b.a[0] == 'substr' and b.a[1] is want and a.a[1] is S.key:
            # the text before is the same in both
            lo, mid, mid2, hi = a.a[2], a.a[3], b.a[2], b.a[3]
            if number(lo, 0) and mid is mid2 and hi.tag == 'app' and hi.a[0] == 'end':
                return prefix_count(A, S.I, mid, S.key, want)
            return False
        for x, y in ((a, b),):
            if x.tag == 'fld' and y.tag == 'fld' and x.a[0] is y.a[0] and x.a[0].tag == 'app' and x.a[0].a[0] == 'split_at' and x.a[0].a[1] is want:
                return x.a[1] == '0' and y.a[1] == '1'
        return False if a.tag == 'app' and b.tag == 'app' and a.a[0] == b.a[0] == 'substr' else None
    return None


def unknown_more(S, t):
    """mentions something unknown beyond the positions and lengths this walk is about"""
    for x in subterms(t):
        if x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect'):
            return True
        if x.tag in ('rep', 'join', 'undef'):
            return True
        if x.tag == 'lv' and not positional(S.I, x):
            return True
    return False


def positional(I, lv):
    """a position or a count"""
    info = I.lvs.get(lv)
    if info is None:
        return False
    i = info['init']
    return i.tag == 'k' and isinstance(i.a[0], int)


# ------------------------------------------------------------------ P06
def P06(A):
    T = trie(A)
    S = step(A)
    if step_guard(A, S):
        for st, v, n, after in S.outs:
            if is_err(n):
                continue
            good, why = conserved(A, S, st, after)
            A.check(good, 'making room for one more segment keeps every node below', S.w, why)
            rest = without_field(A, T, S, st)
            A.check(rest, 'making room for one more segment changes only the children', S.w, 'the node becomes %s' % show(S.I.norm(st, S.p0))[:200])
            A.check(inside(A, S, st, v, after), 'the node handed back is part of the tree', S.w, 'it hands back %s' % show(v)[:200])
        exact(A, S)
        siblings_apart(A, S)
    entries(A, 'P06')


def P01(A):
    S = step(A)
    if step_guard(A, S):
        exact(A, S)
        for st, v, n, after in S.outs:
            if not is_err(n):
                good, why = conserved(A, S, st, after)
                A.check(good, 'making room for one more segment leaves every handler at its path', S.w, why)


def P04(A):
    S = step(A)
    if step_guard(A, S):
        for st, v, n, after in S.outs:
            if not is_err(n):
                good, why = conserved(A, S, st, after)
                A.check(good, 'making room for one more segment leaves every middleware at its path', S.w, why)


def P05(A):
    S = step(A)
    if step_guard(A, S):
        exact(A, S)


def exact(A, S):
    for st, v, n, after in S.outs:
        if not is_err(n):
            good, why = spelled(A, S, st, v)
            A.check(good, 'the node handed back is the one of the segment', S.w, why)


def without_field(A, T, S, st):
    now = S.I.norm(st, S.p0)
    if now is S.p0:
        return True
    if now.tag == 'with' and now.a[0] is S.p0:
        return all(e == ('f', T.kids) for e, _ in now.a[1])
    e = A.eta(now)
    if e is S.p0:
        return True
    if now.tag == 'agg':
        return all(n == T.kids or x is T.f(S.p0, n) for n, x in zip(now.a[2], now.a[3:]))
    return None


def inside(A, S, st, v, after):
    """the reference handed back points below the node"""
    if v.tag == 'app' and v.a[0] == 'REC':
        return stored_into(S, st, v, after)
    if is_ok(v):
        r = pay(v)
        if r.tag == 'ref':
            if r.a[0] == ('O', S.p0) and r.a[1] and r.a[1][0] == ('f', S.T.kids):
                return True
            if r.a[0][0] == 'O' and r.a[0][1] is S.p0:
                return False
        if r.tag == 'fld' and r.a[0].tag == 'as' and r.a[0].a[0].tag == 'app' and r.a[0].a[0].a[0] == 'REC':
            return stored_into(S, st, r.a[0].a[0], after)
        if r.tag == 'ref' and r.a[0][0] == 'O':
            x = r.a[0][1]
            if x.tag == 'fld' and x.a[0].tag == 'as' and x.a[0].a[0].tag == 'app' and x.a[0].a[0].a[0] == 'REC':
                return stored_into(S, st, x.a[0].a[0], after)
        return None if unknown(r) else False
    return None


def stored_into(S, st, rec, after):
    t = touched(S, after)
    return True if t is not None and t[1].tag == 'app' and t[1].a[0] == 'REC#0' and t[1].a[1:] == rec.a[1:] else None


# ------------------------------------------------------------------ what each registration call does
class Entry:
    """All outcomes of one registration call of the tree, the step above being an unknown function that may fail"""

    def __init__(self, A, name):
        T = trie(A)
        self.A, self.T, self.name = A, T, name
        b = A.F.bodies[name]
        self.w = A.span(name)

        def ins(I, st, fr, args, loc, c):
            vals = [I.norm(st, a) for a in args]
            node = app('NODE', *vals)
            s2 = st.copy()
            I.event(st, 'call', 'INS', node, *vals, loc=loc)
            if args[0].tag == 'ref':
                I.store(st, args[0].a[0], args[0].a[1], app('INS', *vals))
            e = app('INSERR', *vals)
            I.event(s2, 'call', 'INS', e, *vals, loc=loc)
            return [(st, ok(mk('ref', ('O', node), (), True))), (s2, err(e))]
        self.R = A.run(name, contracts={T.inserter: ins}, partkey=everything)
        self.I = self.R.I
        self.target = self.path = self.given = None
        args = []
        for i in range(b.argc):
            t = A.F.ty(b.locals[i + 1][0])
            u = strip_refs(t)
            if t[0] == 'ref' and u[0] == 'adt' and u[1] == T.tree:
                self.target = sym(self.R.args[i])
            elif u == ('str',):
                self.path = sym(self.R.args[i])
            else:
                args.append((self.R.args[i], u))
        if len(args) == 1:
            self.given, self.giventy = args[0]
        self.kind = None
        if self.given is not None:
            t = self.giventy
            if t[0] == 'adt' and t[1] == T.tree:
                self.kind = 'tree'
            elif t[0] == 'adt' and t[1] in A.F.adts:
                self.kind = 'route'
            elif t[0] in ('param', 'dyn', 'other') or is_adt(t, 'Arc', 'Box'):
                self.kind = 'middleware'
        self.head0 = T.f(self.target, T.head) if self.target is not None else None
        self.segs = segments(self.I, self.R.outs, self.path) if self.path is not None else None
        self.outs = []
        for st, v in self.R.outs:
            if not refuted(A, self.I, st):
                self.outs.append((st, v))


def is_segments(t, path):
    """the segments of a path, as the tree splits it: the non-empty pieces between slashes"""
    if not (t.tag == 'app' and t.a[0] == 'filter' and t.a[1].tag == 'app' and t.a[1].a[0] in ('split', 'split_terminator')):
        return False
    return bool(same_path(t.a[1].a[1], path)) and t.a[1].a[2].tag == 'k' and t.a[1].a[2].a[0] == '/' and t.a[3] is not_(is_empty(t.a[2]))


def segments(I, outs, path):
    seen = set()
    states = [st for st, v in outs] + [b for W, backs, S0 in I.iters.values() for b in backs]
    for st in states:
        for f in st.facts:
            for x in subterms(f, seen):
                if is_segments(x, path):
                    return x
    h = s('hole0')
    return app('filter', app('split', path, k('/', 'str')), h, not_(is_empty(h)))


def entry_points(A):
    """registration calls of the tree that other types use"""
    if 'entries' in A.cache:
        return A.cache['entries']
    T = trie(A)
    out = []
    if T.tree is not None and T.inserter is not None:
        for n, b in A.F.bodies.items():
            if b.kind not in ('method', 'fn') or not b.argc:
                continue
            t = A.F.ty(b.locals[1][0])
            if t[0] == 'ref' and t[1] and strip_refs(t)[0] == 'adt' and strip_refs(t)[1] == T.tree and A.F.tys(b.locals[0][0]) == '()' and b.argc > 1 and public(A, n):
                E = Entry(A, n)
                if E.kind is not None:
                    out.append(E)
    A.cache['entries'] = out
    return out


def public(A, n):
    """used from outside the module of the tree"""
    T = trie(A)
    for m in callers(A, n):
        b = A.F.bodies[m]
        owner = m.split('::{closure')[0]
        ob = A.F.bodies.get(owner)
        if ob is None or not ob.argc:
            return True
        t = strip_refs(A.F.ty(ob.locals[1][0]))
        if not (t[0] == 'adt' and t[1] == T.tree):
            return True
    return False


def entries(A, pid):
    T = trie(A)
    Es = entry_points(A)
    kinds = {E.kind for E in Es}
    for want in ('route', 'middleware', 'tree'):
        if want not in kinds:
            A.und('registration of a %s' % want, '', T.why or 'not found')
    for E in Es:
        n = 0
        if E.I.recursive:
            A.und('registration by %s' % E.name, E.w, 'recursion through %s' % E.I.recursive[0][0])
            continue
        for st, v in E.outs:
            n += 1
            entry_outcome(A, E, st, pid)
        if not n:
            A.und('registration by %s' % E.name, E.w, 'no normal return')
        if pid == 'P07':
            entry_rules(A, E)


def objects(E, st):
    """objects that differ from how they were: [(root term, value)]"""
    out = []
    for root, val in st.mem.items():
        if root[0] != 'O':
            continue
        now = E.A.eta(E.I.norm(st, root[1]))
        if now is not root[1]:
            out.append((root[1], now))
    return out


def places(E, st):
    """(nodes changed other than by making room, everything else understood?)"""
    T = E.T
    out, vague = [], []
    for root, now in objects(E, st):
        if root is E.target:
            h = E.A.eta(T.f(now, T.head))
            for n in names_of(now):
                if n != T.head and T.f(now, n) is not T.f(root, n):
                    vague.append(now)
            if h is E.head0 or conserved_node(E, h):
                continue
            out.append((E.head0, h))
        elif root.tag == 'app' and root.a[0] == 'NODE':
            if conserved_node(E, now, root):
                continue
            out.append((root, now))
        elif root.tag == 'lv':
            held = content(E, root)
            if now is not held and not conserved_node(E, now, root):
                out.append((held or root, now))
        else:
            if root is E.given or mentions(root, E.given) or root.tag == 'ref':
                continue
            vague.append(now)
    return out, vague


def content(E, p):
    """what the node is that a loop variable points to, at the head of its loop"""
    for x, i in E.I.lvs.items():
        if i['at'] == (('O', p), ()):
            return x
    return None


def names_of(v):
    if v.tag == 'agg':
        return v.a[2]
    if v.tag == 'with':
        return [e[1] for e, _ in v.a[1] if e[0] == 'f']
    return []


def conserved_node(E, v, base=None, depth=0):
    """v is a node to which nothing but room was added"""
    if base is not None and v is base or v is E.head0:
        return True
    if v.tag == 'app' and v.a[0] == 'INS':
        return conserved_node(E, v.a[1], base, depth)
    if v.tag == 'app' and v.a[0] == 'NODE':
        return True
    if v.tag == 'lv' and depth < 8:
        info = E.I.lvs.get(v)
        if info is None:
            return False
        if info['init'].tag == 'ref':
            return True
        if info.get('_c'):
            return True
        info['_c'] = True
        try:
            return all(conserved_node(E, x, base, depth + 1) for x in [info['init']] + list(info['alts']))
        finally:
            info['_c'] = False
    if v.tag == 'fld' and E.head0 is v:
        return True
    return False


def entry_outcome(A, E, st, pid):
    T, I = E.T, E.I
    w = E.w
    short = E.name.split('::')[-1]
    ps, vague = places(E, st)
    what = '%s stores what it was given, once' % short
    if vague:
        A.check(None if any(unknown(x) for x in vague) else False, what, w, 'it also changes %s' % show(vague[0])[:200])
        return
    ierr = [e for e in all_events(I, st) if e.a[0] == 'call' and e.a[2] == 'INS' and e.a[3].a[0] == 'INSERR']
    if ierr:
        if pid == 'P07':
            A.bad('%s rejects an ambiguous path' % short, ierr[0].a[1], 'it returns normally although no node could be made for the path')
        elif pid == 'P06':
            A.check(False if not ps else None, what, w, 'it returns normally without storing when no node could be made')
        return
    if len(ps) != 1:
        if pid in ('P06',):
            A.check(False, what, w, 'a return stores it %d times, with %s' % (len(ps), facts_of(st)))
        return
    root, now = ps[0]
    if (pid, E.kind) in (('P01', 'route'), ('P04', 'middleware'), ('P06', 'tree')):
        A.check(at_path(A, E, st, root), '%s stores at exactly the given path' % short, w, 'it stores at %s, with %s' % (show(root)[:150], facts_of(st)))
    old = T.f(root, T.val)
    new = A.eta(T.f(now, T.val))
    if E.kind == 'tree':
        srch = T.f(E.given, T.head)
        if pid in ('P06', 'P04', 'P01', 'P27'):
            good = now is srch or new is T.f(srch, T.val) and A.eta(T.f(now, T.kids)) is T.f(srch, T.kids)
            A.check(True if good else (None if unknown_but_nodes(E, now) else False), 'a nested router is mounted whole', w, 'the node becomes %s' % show(now)[:300])
        if pid in ('P06', 'P07'):
            novalue = A.variant(st, old) == 'None'
            nokids = A.truth(st, is_empty(T.f(root, T.kids))) is True
            what = 'a nested router is only mounted where nothing was registered'
            A.check(novalue, what, w, 'it may replace the routes and middleware registered there')
            A.check(nokids, what, w, 'it may replace what is registered below')
        return
    # others leave the rest of the node alone
    if pid == 'P06':
        rest = [n for n in names_of(now) if n != T.val and A.eta(T.f(now, n)) is not T.f(root, n)]
        rest = [n for n in rest if not (n == T.kids and conserved_node(E, T.f(now, n), T.f(root, n)))]
        if now.tag == 'app' or now.tag == 'lv':
            A.check(None, what, w, show(now)[:200])
            return
        A.check(not rest, '%s changes only the value of its node' % short, w, 'it also changes %s' % ', '.join(rest))
    oldvar = A.variant(st, old)
    if oldvar == 'Some':
        ov = T.value_of(root)
        omws, omap = seqparts(T.f(ov, T.mws)), T.map_of(ov)
    elif oldvar == 'None':
        omws, omap = [], app('emptymap')
    else:
        A.check(None if not mentions(new, old) and unknown_but_nodes(E, new) else False, what, w, 'it stores without looking at what the node holds: %s' % show(new)[:200])
        return
    nvar = A.variant(st, new)
    if nvar != 'Some':
        A.check(False if nvar == 'None' else None, what, w, 'the node holds %s' % show(new)[:200])
        return
    nv = proj(proj(new, ('v', 'Some')), ('f', '0'))
    nmws, nmap = list(seqparts(A.eta(T.f(nv, T.mws)))), A.eta(T.map_of(nv))
    if len(omws) == 1 and omws[0].tag != 'one':
        omws = [omws[0]]
    omws = list(omws)
    if E.kind == 'middleware':
        if pid in ('P06', 'P04'):
            want = omws + [mk('one', E.given)]
            A.check(True if nmws == want else (None if any(unknown_but_nodes(E, p) for p in nmws) else False), 'a middleware is added after those already there', w, 'they become %s' % show(mkseq(nmws))[:300])
            if pid == 'P06':
                A.check(True if nmap is omap else (None if unknown_but_nodes(E, nmap) else False), 'adding a middleware keeps the routes', w, 'they become %s' % show(nmap)[:300])
    else:
        if pid in ('P06', 'P04'):
            A.check(True if nmws == omws else (None if any(unknown_but_nodes(E, p) for p in nmws) else False), 'adding a route keeps the middleware', w, 'they become %s' % show(mkseq(nmws))[:300])
        if not (nmap.tag == 'app' and nmap.a[0] == 'minsert' and nmap.a[1] is omap):
            if pid in ('P06', 'P01'):
                A.check(None if unknown_but_nodes(E, nmap) else False, 'adding a route keeps the other routes', w, 'they become %s' % show(nmap)[:300])
            return
        key, val = nmap.a[2], nmap.a[3]
        if pid in ('P06', 'P01'):
            A.check(True if val is E.given else (None if unknown_but_nodes(E, val) else False), 'the route stored is the one given', w, 'stored: %s' % show(val)[:200])
        if pid == 'P01':
            m = method_field(A, E)
            A.check(True if m is not None and key is proj(E.given, ('f', m)) else (None if unknown_but_nodes(E, key) else False), 'a route is stored under its own method', w, 'stored under %s' % show(key)[:200])
        if pid in ('P06', 'P07'):
            absent = omap.tag == 'app' and omap.a[0] == 'emptymap' or A.variant(st, app('HashMap::get', omap, key)) == 'None' or A.truth(st, app('has', omap, key)) is False or \
                A.truth(st, app('HashMap::contains_key', omap, key)) is False
            A.check(True if absent else False, 'a route never replaces another of the same method and path', w, 'it returns normally although the method may be taken')


def facts_of(st):
    return '; '.join('%s %s' % (show(f)[:80], r[1] if isinstance(r, tuple) else r) for f, r in list(st.facts.items())[-4:])


def method_field(A, E):
    a = A.F.adts.get(E.giventy[1])
    return field_by_type(A, a, lambda t: is_adt(t, 'Method')) if a else None


def unknown_but_nodes(E, t):
    """unknown other than what the walk itself is over"""
    work, seen = [t], set()
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.tag == 'app' and x.a[0] == 'NODE':
            continue
        if x.tag in UNKNOWN or x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect'):
            return True
        work.extend(x.a)
    return False


def at_path(A, E, st, root):
    """is the node the one of the whole path, by induction over the walk"""
    T, I = E.T, E.I
    if root is E.head0:
        return True if E.path is None or A.truth(st, is_empty(E.segs)) is True else (None if any(unknown(f) for f in st.facts) else False)
    if root.tag == 'lv' and root in I.lvs:
        return at_end_of_walk(A, E, st, root)
    if root.tag != 'app' or root.a[0] != 'NODE':
        return None
    base, key = root.a[1], root.a[2]
    flags = [x for x in root.a[3:] if x.tag == 'k']
    if any(x is TRUE for x in flags):
        return False
    if not (key.tag == 'app' and key.a[0] == 'elem'):
        return None if unknown(key) else False
    if key.a[1] is not E.segs:
        return None if unknown(key.a[1]) else False
    pos = key.a[2]
    if pos.tag == 'app' and pos.a[0] == 'last':
        # the last of the segments, below the node of the others
        init = app('sub', E.segs, 0, 1)
        if base.tag == 'lv' and base in I.lvs:
            return at_end_of_walk(A, E, st, base, init)
        return True if base is E.head0 and A.truth(st, is_empty(init)) is True else None
    # last segment?
    nxt = app('Add', pos, k(1)) if pos.tag != 'k' else k(pos.a[0] + 1)
    last = A.variant(st, app('at', E.segs, nxt)) == 'None' or ended(A, st, E.segs, nxt)
    if not last:
        return None if vague_position(st, E.segs, pos) else False
    if pos is k(0):
        return True if base is E.head0 else None
    if pos.tag != 'lv' or pos not in I.lvs:
        return None
    L = I.lvs[pos]['loop']
    if I.lvs[pos]['init'] is not k(0):
        return False if I.lvs[pos]['init'].tag == 'k' else None
    W, backs, S0 = I.iters[L]
    cur = [(r, v) for r, v in W.mem.items() if v.tag == 'lv' and v in I.lvs and I.lvs[v]['loop'] == L and I.lvs[v]['init'].tag == 'ref']
    if not cur and base.tag == 'lv' and base in I.lvs and I.lvs[base]['init'] is E.head0 and not any(v.tag == 'lv' and I.lvs.get(v, {}).get('loop') == L and unknown_place(I, v) for v in W.mem.values()):
        return False        # every segment starts from the root again
    if len(cur) != 1:
        return None
    r, lv = cur[0]
    init = I.lvs[lv]['init']
    if not (init.a[0] == ('O', E.target) and init.a[1] == (('f', T.head),)):
        return None
    for b in backs:
        p2 = back_value(I, b, pos)
        c2 = back_value(I, b, lv)
        if p2 is not app('Add', pos, k(1)):
            return None if p2 is None or unknown_but_nodes(E, replace(p2, {pos: k(0)})) else False
        if c2 is None or c2.tag != 'ref' or c2.a[0][0] != 'O' or c2.a[1]:
            return None
        x = c2.a[0][1]
        if not (x.tag == 'app' and x.a[0] == 'NODE' and x.a[2] is key and x.a[1] is base):
            return None if unknown_but_nodes(E, x) else False
        if any(y is TRUE for y in x.a[3:]):
            return False
    return True


def at_end_of_walk(A, E, st, root, segs=None):
    """the node a loop over all segments (or all but the last) has arrived at"""
    T, I = E.T, E.I
    segs = segs if segs is not None else E.segs
    at = I.lvs[root]['at']
    p = at[0][1] if at[0][0] == 'O' and not at[1] and at[0][1].tag == 'lv' else root
    if p not in I.lvs or I.lvs[p]['loop'] not in I.iters:
        return None
    L = I.lvs[p]['loop']
    init = I.lvs[p]['init']
    if not (init.tag == 'ref' and init.a[0] == ('O', E.target) and init.a[1] == (('f', T.head),)):
        return None
    W, backs, S0 = I.iters[L]
    pos = None
    for r, v in W.mem.items():
        if v.tag == 'iter' and v.a[1].tag == 'lv' and v.a[1] in I.lvs and I.lvs[v.a[1]]['loop'] == L:
            src = v.a[0]
            while src.tag == 'app' and src.a[0] in ('enumerate', 'iter'):
                src = src.a[1]
            if src is segs:
                pos = v.a[1]
    if pos is None or I.lvs[pos]['init'] is not k(0):
        return None
    if not (A.variant(st, app('at', segs, pos)) == 'None' or ended(A, st, segs, pos)):
        return None if vague_position(st, segs, pos) else False
    for b in backs:
        if not in_step(I, b, pos):
            return None
        c = back_value(I, b, p)
        if c is None or c.tag != 'ref' or c.a[0][0] != 'O' or c.a[1]:
            return None
        x = c.a[0][1]
        if not (x.tag == 'app' and x.a[0] == 'NODE' and x.a[1] in (p, content(E, p)) and x.a[2] is app('elem', E.segs, pos)):
            return None if unknown_but_nodes(E, x) else False
        if any(y is TRUE for y in x.a[3:]):
            return False
    return True


def unknown_place(I, v):
    """a loop variable that may say where the walk is"""
    i = I.lvs[v]['init']
    return i.tag != 'k' and not (i.tag == 'fld' and I.lvs[v]['at'][0][0] == 'O')


def ended(A, st, segs, pos):
    for f, r in st.facts.items():
        if f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[1] is segs and f.a[0].a[2] is pos:
            return True
        if f.tag == 'app' and f.a[0] == 'eq' and r is True:
            n = app('len', segs)
            p = pos.a[1] if pos.tag == 'app' and pos.a[0] == 'Add' else None
            if set(f.a[1:]) in ({n, pos}, {app('Sub', n, k(1)), p}):
                return True
    return False


def vague_position(st, segs, pos):
    plain = {'is_empty', 'lt', 'eq', 'at', 'elem', 'len', 'str::contains', 'Add', 'Sub'}

    def bare(f):
        return replace(f, {x: k('node', 'str') for x in subterms(f) if x.tag == 'app' and x.a[0] in ('NODE', 'INS')})
    return any(mentions(f, segs) and f.tag == 'app' and any(x.tag == 'app' and x.a[0] not in plain for x in subterms(replace(f, {segs: k('segs', 'str')}))) for f in map(bare, st.facts))


# ------------------------------------------------------------------ P07
def P07(A):
    T = trie(A)
    S = step(A)
    if step_guard(A, S):
        ambiguous(A, S)
    entries(A, 'P07')


def ambiguous(A, S):
    T = S.T
    what = 'a parameter segment next to a different segment is an error'
    n = 0
    for st, v, res, after in S.outs:
        if is_err(res):
            continue
        e = chosen(A, S, st, v, after)
        if e is None:
            continue
        n += 1
        A.check(compatible(A, S, st, e), what, S.w, 'it goes on into a sibling it may be ambiguous with: %s' % facts_of(st))
    # siblings that were passed over
    loops = deciding(S, lambda b, e: compatible(A, S, b, e, passed=True))
    if not loops:
        A.und(what, S.w, 'no loop over the siblings found')
    for L, elem in loops:
        W, backs, S0 = S.I.iters[L]
        for b in backs:
            n += 1
            A.check(compatible(A, S, b, elem, passed=True), what, S.w, 'a sibling is passed over although it may be ambiguous: %s' % facts_of(b))
    if len(sibling_loops(S)) > 1:
        for st, v, res, after in S.outs:
            if not is_err(res) and after is not S.kids0 and touched(S, after) is None and any(p.tag == 'one' for p in parts_of(after, S.kids0) or ()):
                A.check(True if walked(A, S, st, loops) else None, what, S.w, 'a sibling is added after %s' % facts_of(st))
    if not n:
        A.und(what, S.w, 'no sibling is looked at')


def walk_of(I, src):
    """(list an iterator walks over element by element, is it from the last to the first)"""
    back = False
    while src.tag == 'app':
        if src.a[0] in ('enumerate', 'iter', 'rev'):
            back = back != (src.a[0] == 'rev')
            src = src.a[1]
        elif I.unfilter and src in I.unfilter:
            src = src.a[2] if src.a[0] == 'stage' else src.a[1]
        elif src.a[0] == 'rangeseq' and number(src.a[1], 0) and src.a[2].tag == 'app' and src.a[2].a[0] == 'len':
            src = src.a[2].a[1]
        else:
            break
    return src, back


def sibling_loops(S):
    out = []
    for L, (W, backs, S0) in S.I.iters.items():
        for r, v in W.mem.items():
            if v.tag == 'iter' and backs and any(b.mem.get(r) is not v for b in backs):
                src = v.a[0]
                src, back = walk_of(S.I, src)
                if src is S.kids0 and not back:
                    out.append((L, app('elem', S.kids0, v.a[1])))
    return out


def deciding(S, good):
    """the walks over the siblings which decide: one of several is enough, if every child passed over there is fine"""
    loops = sibling_loops(S)
    if len(loops) > 1:
        best = [(L, e) for L, e in loops if all(S.impossible(b) or good(b, e) is True for b in S.I.iters[L][1])]
        return best or [(L, e) for L, e in loops if any(mentions(f, S.key) for b in S.I.iters[L][1] for f in b.facts if mentions(f, e))] or loops
    return loops


def compatible(A, S, st, e, passed=False):
    T = S.T
    key = T.f(e, T.key)
    if T.suf is not None and S.flag is not None:
        if A.truth(st, S.flag) is True:
            return True
        if A.truth(st, T.f(e, T.suf)) is True and A.truth(st, eq(S.flag, T.f(e, T.suf))) is True:
            return True
        if passed:
            f = A.truth(st, eq(S.flag, T.f(e, T.suf)))
            if f is False:
                return True
    if not passed and A.truth(st, eq(S.key, key)) is True:
        return True
    if passed and A.truth(st, eq(S.key, key)) is True:
        return False
    a, b = T.is_param(st, key), T.is_param(st, S.key)
    if a is False and b is False:
        return True
    if a is True or b is True:
        return False
    return None if any(odd(S, f, key) for f in st.facts) else False


def odd(S, f, key):
    """a condition on the keys this rule does not read"""
    if f.tag != 'app' or not (mentions(f, key) or mentions(f, S.key)):
        return False
    return f.a[0] not in ('eq', 'is_empty', 'lt', 'len') and not f.a[0].endswith('eq_ignore_ascii_case')


def chosen(A, S, st, v, after):
    """the existing child an outcome goes into"""
    t = touched(S, after)
    if t is not None:
        return t[0]
    for p in seqparts(after):
        if p.tag == 'all':
            t = touched(S, p.a[0])
            if t is not None:
                return t[0]
    if is_ok(v) and pay(v).tag == 'ref':
        p = pay(v).a[1]
        if after is S.kids0 and len(p) >= 2 and p[0] == ('f', S.T.kids) and p[1][0] == 'i':
            return index(S.kids0, p[1][1])
    for e in events(st, 'call', 'REC'):
        return e.a[4]
    return None


def entry_rules(A, E):
    """the path rules every registration call applies"""
    short = E.name.split('::')[-1]
    # a step that fails is a panic: also when the walk goes on
    bad = None
    for L, (W, backs, S0) in E.I.iters.items():
        for b in backs:
            for e in b.ev[len(W.ev):]:
                if e.a[0] == 'call' and e.a[2] == 'INS' and e.a[3].a[0] == 'INSERR':
                    bad = e
    if E.path is None:
        return
    A.check(bad is None, '%s rejects an ambiguous path' % short, bad.a[1] if bad else E.w, 'it goes on although no node could be made for the segment')
    what = '%s rejects a path whose wildcard is not a whole final segment' % short
    res = []
    for L, (W, backs, S0) in E.I.iters.items():
        for r, v in W.mem.items():
            if v.tag != 'iter' or not backs or not all(back_moves(b, r, v) for b in backs):
                continue
            src = v.a[0]
            while src.tag == 'app' and src.a[0] in ('enumerate', 'iter'):
                src = src.a[1]
            if src is not E.segs:
                continue
            if v.a[1].tag == 'lv' and E.I.lvs[v.a[1]]['init'] is not k(0):
                continue
            seg = app('elem', E.segs, v.a[1])
            res.append((L, [starred(A, E, b, seg, v.a[1]) for b in backs]))
    for st, v in E.outs:
        if E.kind and A.truth(st, is_empty(E.segs)) is True:
            continue
    good = [all(x is True for x in rs) for L, rs in res]
    if any(good):
        # passed on every normal return
        A.ok(what, E.w)
        return
    star = any(mentions_star(f) for L, (W, backs, S0) in E.I.iters.items() for b in backs for f in b.facts) or any(mentions_star(f) for st, v in E.outs for f in st.facts)
    if not res:
        A.und(what, E.w, 'no loop over the segments of the path found')
    elif not star:
        A.bad(what, E.w, 'it never looks for a wildcard')
    else:
        vague = any(x is None for L, rs in res for x in rs) or E.segs.tag == 'app' and any(v.tag == 'iter' and v.a[0] is E.segs.a[1] and any(b.mem.get(r) is not v for b in backs) and any(mentions_star(f) for b in backs for f in b.facts) for L, (W, backs, S0) in E.I.iters.items() for r, v in W.mem.items())
        A.check(None if vague else False, what, E.w, 'a segment with a wildcard is accepted: %s' % '; '.join(facts_of(b) for L, rs in res for b in E.I.iters[L][1])[:300])


def ones(b):
    """the number one, as it is typed there"""
    return {x for f in b.facts for x in subterms(f) if x.tag == 'k' and x.a[0] == 1 and not isinstance(x.a[0], bool)} | {k(1)}


def mentions_star(f):
    return any(x.tag == 'k' and x.a[0] == '*' for x in subterms(f))


def back_moves(b, r, v):
    x = b.mem.get(r)
    return x is not None and x.tag == 'iter' and x.a[0] is v.a[0] and x.a[1] is app('Add', v.a[1], k(1))


def starred(A, E, b, seg, pos):
    """an iteration that ends well has a segment without a wildcard, or it is the last and nothing but the wildcard"""
    has = None
    for star in (k('*', 'str'), k('*', 'char')):
        t = A.truth(b, app('str::contains', seg, star))
        has = t if t is not None else has
    if has is False:
        return True
    one = is_true(A, b, app('len', seg), k(1)) or A.truth(b, eq(seg, k('*', 'str'))) is True
    n = app('len', E.segs)
    lastp = any(is_true(A, b, app('Sub', n, o), pos) or is_true(A, b, app('Add', pos, o), n) or A.truth(b, lt(app('Add', pos, o), n)) is False or A.truth(b, lt(pos, app('Sub', n, o))) is False for o in ones(b)) or A.variant(b, app('at', E.segs, app('Add', pos, k(1)))) == 'None'
    if one and lastp:
        return True
    # a*b neither starts nor ends with a wildcard
    ok_reading = [f for f in b.facts if mentions(f, seg) and f.tag == 'app' and f.a[0] not in ('eq', 'is_empty', 'str::contains', 'lt') and
                  not (f.a[0] in ('str::starts_with', 'str::ends_with') and f.a[1] is seg and f.a[2].tag == 'k' and b.facts[f] is False)]
    if ok_reading or any(x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'any', 'all') for f in b.facts if mentions_star(f) for x in subterms(f)):
        return None
    return False


# ------------------------------------------------------------------ P23, registration
def P23(A):
    T = trie(A)
    S = step(A)
    if T.node is not None and T.suf is None:
        A.und('whether a node continues a segment', '', 'nodes have no such mark')
    elif step_guard(A, S) and S.flag is not None:
        for st, v, res, after in S.outs:
            if is_err(res):
                continue
            e = chosen(A, S, st, v, after)
            if e is not None:
                f = A.truth(st, eq(S.flag, T.f(e, T.suf)))
                A.check(True if f is True else (False if f is False or not any(mentions(x, T.f(e, T.suf)) for x in st.facts) else None),
                        'only a sibling of the same kind is used for a segment', S.w, 'the rest of a segment may be taken for a whole one: %s' % facts_of(st))
            marks(A, S, st, after)
            for ev in events(st, 'call', 'REC'):
                fl = ev.a[4 + S.flagarg[0]]
                ky = ev.a[4 + S.keyarg[0]]
                rest = ky.tag == 'app' and ky.a[0] == 'substr' and ky.a[1] is S.key
                want = TRUE if rest else (FALSE if ky is S.key else None)
                A.check(True if want is not None and fl is want else (None if want is None or fl.tag != 'k' else False), 'the rest of a segment is marked as such', ev.a[1], 'it goes on with %s marked %s' % (show(ky)[:80], show(fl)))
        no_empty_keys(A, S)
    for E in entry_points(A):
        for e in {e for st, v in E.outs for e in all_events(E.I, st) if e.a[0] == 'call' and e.a[2] == 'INS'}:
            for x in e.a[4:]:
                if x.tag == 'k' and x.a[1] == 'bool':
                    A.check(x is FALSE, 'every segment of a registered path starts as a whole one', e.a[1], 'it starts as the rest of one')
            kx = e.a[5] if len(e.a) > 5 else None
            if E.segs is not None and kx is not None:
                good = kx.tag == 'app' and kx.a[0] == 'elem' and kx.a[1] is E.segs
                A.check(True if good else (None if unknown(replace_lv(kx)) and not respelled(kx, E.path) else False), 'a registered path is split at its slashes', e.a[1], 'a segment is %s' % show(kx)[:200])


def no_empty_keys(A, S):
    """every node made has a key, if the segment has text"""
    T = S.T
    for st, v, res, after in S.outs:
        for x in subterms(after):
            if x.tag == 'agg' and x.a[0] == T.node:
                key = T.f(x, T.key)
                A.check(has_text(A, S, st, key), 'no node is made with an empty key', S.w, 'the key is %s, with %s' % (show(key)[:150], facts_of(st)))
            elif x.tag == 'with' and x.a[0].tag == 'app' and any(e == ('f', T.key) for e, _ in x.a[1]):
                key = T.f(x, T.key)
                A.check(has_text(A, S, st, key), 'no node is left with an empty key', S.w, 'the key is %s, with %s' % (show(key)[:150], facts_of(st)))
        for e in events(st, 'call', 'REC'):
            key = e.a[4 + S.keyarg[0]]
            A.check(has_text(A, S, st, key), 'no empty rest of a segment is registered', e.a[1], 'the rest is %s, with %s' % (show(key)[:150], facts_of(st)))


def has_text(A, S, st, key):
    if key is S.key or key.tag == 'fld' and key.a[1] == S.T.key:
        return True
    if A.truth(st, is_empty(key)) is False:
        return True
    if key.tag == 'app' and key.a[0] == 'substr':
        t, lo, hi = key.a[1:4]
        if hi.tag == 'app' and hi.a[0] == 'end':
            d = A.truth(st, eq(lo, length(t)))
            return True if d is False or A.truth(st, lt(lo, length(t))) is True else (False if d is True else None if vague_count(S, lo) else False)
        if number(lo, 0):
            z = [A.truth(st, eq(hi, z)) for z in zeros(st)]
            return True if False in z or A.truth(st, lt(k(0), hi)) is True else None if vague_count(S, hi) else False
    return None if unknown(key) or key.tag == 'app' else False


def zeros(st):
    return {x for f in st.facts for x in subterms(f) if x.tag == 'k' and x.a[0] == 0 and not isinstance(x.a[0], bool)} | {k(0)}


def vague_count(S, c):
    return c.tag != 'k' and not (c.tag == 'lv' and positional(S.I, c)) and not (c.tag == 'app' and c.a[0] == 'common')


def replace_lv(t):
    return replace(t, {x: k(0) for x in subterms(t) if x.tag == 'lv'})


def marks(A, S, st, after):
    """marks of the nodes made"""
    T = S.T

    def nodes(v, depth):
        for p in seqparts(v):
            if p.tag == 'one' and p.a[0].tag in ('agg', 'with'):
                yield p.a[0], depth
                if p.a[0].tag == 'agg':
                    yield from nodes(T.f(p.a[0], T.kids), depth + 1)
            elif p.tag == 'all' and p.a[0] is not v:
                yield from nodes(p.a[0], depth)
        t = touched(S, v)
        if t is not None and t[1].tag in ('agg', 'with'):
            yield t[1], depth
            ks = T.f(t[1], T.kids)
            if ks.tag == 'seq':
                yield from nodes(ks, depth + 1)
    for n, depth in nodes(after, 0):
        m = T.f(n, T.suf)
        if depth == 0:
            good = m is S.flag or m.tag == 'fld' and m.a[1] == T.suf or A.truth(st, eq(m, S.flag)) is True
            A.check(True if good else (None if unknown(m) else False), 'a new node is marked like the segment it is made for', S.w, 'it is marked %s' % show(m))
        else:
            A.check(True if m is TRUE else (None if unknown(m) else False), 'a node made by splitting a segment is marked as its rest', S.w, 'it is marked %s' % show(m))



# ------------------------------------------------------------------ P38, registration
STAR = k('*', 'str')


def P38(A):
    S = step(A)
    if step_guard(A, S):
        star_last(A, S)


def star_last(A, S):
    """every list of children keeps the wildcard behind the others"""
    T = S.T
    what = 'a wildcard is kept behind its siblings'
    n = 0
    for st, v, res, after in S.outs:
        if is_err(res) or after is S.kids0:
            continue
        n += 1
        lists = [after]
        t = touched(S, after)
        if t is not None:
            lists = [T.f(t[1], T.kids)] if t[1].tag in ('agg', 'with') else []
        good = True
        for ks in lists:
            good = good and ordered(A, S, st, ks)
        A.check(good, what, S.w, 'the children become %s, with %s' % (show(after)[:250], facts_of(st)))
    if not n:
        A.und(what, S.w, 'no child is ever added')


def ordered(A, S, st, ks):
    """a list of children in which what comes before the last is no wildcard, given that the old lists are so"""
    T = S.T
    if any(x.tag == 'app' and x.a[0] == 'inserted' for x in subterms(ks)):
        return None
    if ks.tag != 'seq':
        return True if ks.tag == 'fld' and ks.a[1] == T.kids or ks.tag == 'app' and ks.a[0] == 'stored' else None
    ps = parts_of(ks, S.kids0)
    if ps is None:
        return None
    ps = [p for p in ps if not (p.tag == 'all' and A.truth(st, is_empty(p.a[0])) is True)]
    olds = [p for p in ps if p.tag == 'all']
    if len(olds) > 1:
        return None
    res = True
    for j, p in enumerate(ps):
        if p.tag == 'all':
            if p.a[0] is not S.kids0 and not (p.a[0].tag == 'fld' and p.a[0].a[1] == T.kids) and touched(S, p.a[0]) is None:
                return None
            continue
        x = p.a[0]
        key = T.f(x, T.key)
        w = A.truth(st, eq(key, STAR))
        plain = w is False or T.f(x, T.suf) is TRUE or S.flag is not None and T.f(x, T.suf) is S.flag and A.truth(st, S.flag) is True or key.tag == 'app' and key.a[0] == 'substr' and number(key.a[2], 0)
        if j < len(ps) - 1 and not plain:
            # something comes after it
            return None if w is None and vague_key(S, st, key) else False
        if any(q.tag == 'all' for q in ps[:j]) and w is not True and not (all(q.a[0] is S.kids0 for q in ps[:j] if q.tag == 'all') and no_star(A, S, st)):
            # what comes before it may be a wildcard
            return None if w is None and vague_key(S, st, key) else False
    return res


def no_star(A, S, st):
    """a walk over all the children which found none that is a wildcard"""
    return any(A.variant(st, app('at', S.kids0, e.a[2])) == 'None' and all(A.truth(b, eq(S.T.f(e, S.T.key), STAR)) is False for b in S.I.iters[L][1]) for L, e in sibling_loops(S))


def vague_key(S, st, key):
    return unknown(key) or any(f.tag == 'app' and mentions(f, key) and f.a[0] not in ('eq', 'is_empty', 'lt', 'len', 'str::contains', 'str::starts_with', 'str::ends_with') for f in st.facts)


# ------------------------------------------------------------------ P39
def P39(A):
    T = trie(A)
    S = step(A)
    if step_guard(A, S):
        refusals(A, S)
    Es = entry_points(A)
    for want in ('route', 'middleware', 'tree'):
        if want not in {E.kind for E in Es}:
            A.und('registration of a %s' % want, '', T.why or 'not found')
    for E in Es:
        short = E.name.split('::')[-1]
        what = '%s refuses a path only for one of the stated reasons' % short
        n = 0
        if E.I.recursive:
            A.und(what, E.w, 'recursion through %s' % E.I.recursive[0][0])
            continue
        for p in E.I.panics:
            st = p[0]
            if refuted(A, E.I, st):
                continue
            n += 1
            good = reason(A, E, st)
            A.check(good if good or deliberate(p) else None, what, p[2] or E.w, 'it panics with %s' % facts_of(st))
        if not n:
            A.ok(what, E.w)


def refusals(A, S):
    T = S.T
    what = 'one more segment is refused only next to a parameter of another name, or as one next to another segment'
    loops = sibling_loops(S)
    n = 0
    for st, v, res, after in S.outs:
        if not is_err(res):
            continue
        n += 1
        good = False
        for L, e in loops:
            good = good or clash(A, S, st, e)
        if good is False and (not loops or any(unknown(f) and odd(S, f, S.kids0) for f in st.facts)):
            good = None
        A.check(good, what, S.w, 'it is refused with %s' % facts_of(st))
    for p in S.I.panics:
        st = p[0]
        if S.impossible(st) or refuted(A, S.I, st) or absurd(A, st):
            continue
        sh = [shared_start(A, S, st, f) for f, r in st.facts.items() if r is False]
        if True in sh:
            continue
        good = any(clash(A, S, st, e) for L, e in loops)
        A.check(True if good else (None if not loops or None in sh or not deliberate(p) or any(odd(S, f, S.kids0) for f in st.facts) else False), what, p[2] or S.w, 'it panics with %s' % facts_of(st))


def shared_start(A, S, st, f):
    """does a condition say that two texts are the same as far as they were counted to be: True, False, None if it is not clear how far that is"""
    if not (f.tag == 'app' and f.a[0] == 'eq' and all(isinstance(x, T) and x.tag == 'app' and x.a[0] == 'substr' and number(x.a[2], 0) for x in f.a[1:])):
        return False
    x, y = f.a[1:]
    if x.a[3] is not y.a[3] or not mentions(x.a[3], S.kids0) and x.a[3].tag != 'lv':
        return False
    return longest(A, S.I, st, x.a[3], x.a[1], y.a[1]) or None


def deliberate(p):
    """a panic that is written as one, rather than the failing arm of an operation"""
    return p[1].split('::')[-1] in ('panic_fmt', 'panic', 'panic_display', 'panic_str', 'panic_explicit', 'begin_panic', 'assert_failed', 'assert_failed_inner')


def absurd(A, st):
    """a position holds something and lies behind the end"""
    for f, r in st.facts.items():
        if f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and r == ('is', 'Some') and A.truth(st, lt(f.a[0].a[2], length(f.a[0].a[1]))) is False:
            return True
    return False


def clash(A, S, st, e):
    """a child of the same kind with another key, one of the two being a parameter"""
    T = S.T
    key = T.f(e, T.key)
    if T.suf is not None and S.flag is not None:
        same = A.truth(st, eq(S.flag, T.f(e, T.suf)))
        if same is not True or A.truth(st, S.flag) is not False and A.truth(st, T.f(e, T.suf)) is not False:
            return False
    if A.truth(st, eq(S.key, key)) is not False:
        return False
    return T.is_param(st, key) is True or T.is_param(st, S.key) is True


def reason(A, E, st):
    """why a registration may be refused: True when one of the reasons is known on the path, False when none is, None when unclear"""
    T, I = E.T, E.I
    if any(e.a[0] == 'call' and e.a[2] == 'INS' and e.a[3].a[0] == 'INSERR' for e in all_events(I, st)):
        return True
    vague = False
    for f, r in st.facts.items():
        # a wildcard that is not a whole final segment
        if f.tag == 'app' and f.a[0] == 'str::contains' and r is True and f.a[2].tag == 'k' and f.a[2].a[0] == '*' or f.tag == 'app' and f.a[0] == 'eq' and r is True and any(x.tag == 'k' and x.a[0] == '*' for x in f.a[1:]):
            seg = f.a[1] if not (f.a[1].tag == 'k') else f.a[2]
            if not (seg.tag == 'app' and seg.a[0] == 'elem' and seg.a[1] is E.segs):
                vague = vague or unknown_but_nodes(E, replace_lv(seg))
                continue
            pos = seg.a[2]
            if A.truth(st, eq(seg, k('*', 'str'))) is False:
                return True
            for o in ones(st):
                if A.truth(st, eq(length(seg), o)) is False or A.truth(st, lt(o, length(seg))) is True:
                    return True
                n = length(E.segs)
                if A.truth(st, eq(app('Sub', n, o), pos)) is False or A.truth(st, eq(app('Add', pos, o), n)) is False or \
                        A.truth(st, lt(pos, app('Sub', n, o))) is True or A.truth(st, lt(app('Add', pos, o), n)) is True:
                    return True
            nxt = app('Add', pos, k(1)) if pos.tag != 'k' else k(pos.a[0] + 1)
            if A.variant(st, app('at', E.segs, nxt)) == 'Some':
                return True
        # the method is taken
        if E.kind == 'route' and f.tag == 'disc' and r == ('is', 'Some') and f.a[0].tag == 'app' and f.a[0].a[0] == 'HashMap::get' and taken(A, E, st, f.a[0].a[1], f.a[0].a[2]):
            return True
        if E.kind == 'route' and f.tag == 'app' and r is True and f.a[0] in ('has', 'HashMap::contains_key') and taken(A, E, st, f.a[1], f.a[2]):
            return True
        # the place of a nested router is taken
        if E.kind == 'tree':
            x = None
            if f.tag == 'disc' and r == ('is', 'Some') and f.a[0].tag == 'fld' and f.a[0].a[1] == T.val:
                x = f.a[0].a[0]
            elif f.tag == 'app' and f.a[0] == 'is_empty' and r is False and f.a[1].tag == 'fld' and f.a[1].a[1] == T.kids:
                x = f.a[1].a[0]
            if x is not None and not mentions(x, E.given):
                p = at_path(A, E, st, x)
                if p:
                    return True
                vague = vague or p is None
    if vague or any(mentions_star(f) and unread_star(f) or any(x.tag == 'rep' for x in subterms(f)) for f in st.facts):
        return None
    return False


def unread_star(f):
    return any(x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'any', 'all', 'stage', 'deep', 'collect', 'find', 'position', 'filter') and mentions_star(x) for x in subterms(f))


def taken(A, E, st, m, key):
    """m is the map of the node of the path and key the method of the route"""
    f = method_field(A, E)
    if f is not None and key is not proj(E.given, ('f', f)):
        return False
    for x in subterms(m):
        if x is E.head0 or x.tag == 'app' and x.a[0] == 'NODE' or x.tag == 'lv' and x in E.I.lvs:
            if m is E.T.map_of(E.T.value_of(x)):
                return at_path(A, E, st, x) is not False
    return False
