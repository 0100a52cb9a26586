"""Looking a path up in the routing table: P01 (which node), P04 (which middleware), P05 (which parameters), P23 (whole segments)."""
from ..base import *
from .trie import *
from .serve import serve


def roles(A, T, name):
    """parameters of the lookup step by their types"""
    b = A.F.bodies[name]
    out = {}
    for i in range(1, b.argc + 1):
        t = A.F.ty(b.locals[i][0])
        u = strip_refs(t)
        if i == 1:
            continue
        if t == ('prim', 'bool'):
            r = 'flag'
        elif u[0] == 'adt' and u[1].endswith('HashMap') and t[0] == 'ref':
            r = 'params'
        elif t[0] == 'ref' and is_vec_of(u, lambda x: 'Middleware' in tstr(x)):
            r = 'mws'
        elif t[0] == 'ref' and (is_vec_of(u, lambda x: strip_refs(x) == ('str',)) or u[0] == 'adt' and u[1].endswith('VecDeque') and strip_refs(u[2][0]) == ('str',)):
            r = 'keys'
        else:
            return None
        if r in out:
            return None
        out[r] = i - 1
    return out if set(out) >= {'keys', 'params', 'mws'} else None


def sub_contract(ro):
    """looking up below a child, as an unknown function: it finds a node, adding parameters and middleware, or finds none and adds nothing"""
    def f(I, st, fr, args, loc, c):
        vals = [I.norm(st, a) for a in args]
        r = app('SUB', *vals)
        s2 = st.copy()
        I.event(st, 'call', 'SUB', some(app('FOUND', r)), *vals, loc=loc)
        I.event(s2, 'call', 'SUB', NONE, *vals, loc=loc)

        def put(st, role, v):
            a = args[ro[role]]
            if a.tag == 'ref':
                I.store(st, a.a[0], a.a[1], v)
        put(st, 'keys', app('SUBKEY', r))
        put(st, 'params', app('SUBPARAMS', vals[ro['params']], r))
        put(st, 'mws', mkseq(list(seqparts(vals[ro['mws']])) + [mk('all', app('SUBMW', r))]))
        put(s2, 'keys', app('SUBKEY', r))
        return [(st, some(mk('ref', ('O', app('FOUND', r)), (), False))), (s2, NONE)]
    return f


class Look:
    def __init__(self, A, generic):
        T = trie(A)
        self.A, self.T, self.ro, self.outs = A, T, None, []
        if T.looker is None:
            return
        self.ro = ro = roles(A, T, T.looker)
        if ro is None:
            return
        con = sub_contract(ro)
        b = A.F.bodies[T.looker]
        args = [None] * b.argc
        self.params0 = s('params')
        self.mws0 = s('mws') if generic else EMPTYSEQ
        args[ro['params']] = mk('ref', ('O', self.params0), (), True)
        args[ro['mws']] = mk('ref', ('O', self.mws0), (), True)
        self.R = A.run(T.looker, args=args, partkey=everything, unfilter=True,
                       hooks={'recursion': lambda I, st, fr, target, env, a, loc: con(I, st, fr, a, loc, None) if target == T.looker else None})
        self.I = I = self.R.I
        self.keys0 = sym(self.R.args[ro['keys']])
        self.cur = self.first()
        self.flag = sym(self.R.args[ro['flag']]) if 'flag' in ro else None
        self.p0 = sym(self.R.args[0])
        self.kids0 = T.f(self.p0, T.kids)
        self.w = A.span(T.looker)
        for st, v in self.R.outs:
            if not self.impossible(st):
                self.outs.append((st, v, A.eta(I.norm(st, v))))
        self.states = [(st, 0) for st, v, n in self.outs] + [(b, len(W.ev)) for W, backs, S0 in I.iters.values() for b in backs if not self.impossible(b)]
        self.calls = list(dict.fromkeys((st, e) for st, n in self.states for e in st.ev[n:] if e.a[0] == 'call' and e.a[2] == 'SUB'))

    def first(self):
        """the segment looked up, as it is written there"""
        self.back = False
        last = app('elem', self.keys0, app('last'))
        back = None
        for st, v in self.R.outs:
            for t in list(st.facts) + list(st.mem.values()):
                for x in subterms(t):
                    if x.tag == 'app' and x.a[0] == 'elem' and x.a[1] is self.keys0 and number(x.a[2], 0):
                        return x
                    if x is last:
                        back = x
        if back is not None:
            # a stack of segments, the next one on top
            self.back = True
            return back
        return app('elem', self.keys0, k(0))

    def impossible(self, st):
        """nodes never have empty keys: checked where they are made (P23)"""
        for f, r in st.facts.items():
            if r is True and f.tag == 'app' and f.a[0] == 'is_empty' and f.a[1].tag == 'fld' and f.a[1].a[1] == self.T.key:
                return True
            if r is True and f.tag == 'app' and f.a[0] == 'eq' and any(number(x, 0) for x in f.a[1:]):
                # nothing matched, and yet all of the key
                c = f.a[1] if number(f.a[2], 0) else f.a[2]
                for g, q in st.facts.items():
                    if q is True and g.tag == 'app' and g.a[0] == 'eq' and c in g.a[1:]:
                        o = g.a[1] if g.a[2] is c else g.a[2]
                        if o.tag == 'app' and o.a[0] == 'len' and o.a[1].tag == 'fld' and o.a[1].a[1] == self.T.key:
                            return True
        return refuted(self.A, self.R.I, st)

    def value(self, st, o):
        return self.A.eta(self.I.norm(st, st.mem.get(('O', o), o)))

    def keys(self, st):
        return self.value(st, self.keys0)

    def found(self, n):
        """(nodes from the child on, lookup below the last one or None)"""
        x = n
        while x.tag == 'ref':
            x = x.a[0][1] if x.a[0][0] == 'O' and not x.a[1] else mk('undef')
        if self.child(x):
            return [x], None
        if x.tag == 'app' and x.a[0] == 'elem':
            xs = x.a[1]
            while xs.tag == 'app' and xs.a[0] == 'filter':
                xs = xs.a[1]
            if xs.tag == 'fld' and xs.a[1] == self.T.kids and self.child(xs.a[0]):
                return [xs.a[0], x], None
        if x.tag == 'app' and x.a[0] == 'FOUND':
            c = x.a[1].a[1]
            if self.child(c):
                return [c], x.a[1]
        return None

    def child(self, x):
        return x.tag == 'app' and x.a[0] == 'elem' and x.a[1] is self.kids0

    def arg(self, e, role):
        return e.a[4 + self.ro[role]]

    def flag_of(self, e):
        return self.arg(e, 'flag') if 'flag' in self.ro else FALSE

    def kind(self, st, c):
        """how a child is matched: param, star, text or None"""
        A, T = self.A, self.T
        key = T.f(c, T.key)
        if self.flag is not None and A.truth(st, self.flag) is True:
            return 'text'
        p = T.is_param(st, key)
        if p is True:
            return 'param'
        if A.truth(st, eq(key, k('*', 'str'))) is True:
            return 'star'
        if p is False:
            return 'text'
        return None

    def matched(self, st, c):
        """is the child's key a prefix of the segment: (True/False/None, length)"""
        A, T = self.A, self.T
        key = T.f(c, T.key)
        if A.truth(st, eq(key, self.cur)) is True:
            return True, length(key)
        for f, r in st.facts.items():
            if r is True and f.tag == 'app' and f.a[0] in ('str::starts_with', 'starts_with') and f.a[1] is self.cur and f.a[2] is key:
                return True, length(key)
            if f.tag == 'disc' and r == ('is', 'Some') and f.a[0].tag == 'app' and f.a[0].a[0].endswith('strip_prefix') and f.a[0].a[1] is self.cur and f.a[0].a[2] is key:
                return True, length(key)
        res = False
        for n in self.counts(st, key):
            p = prefix_count(A, self.I, n, key, self.cur)
            if p is True:
                return True, n
            if p is None:
                res = None
        if res is False and any(odd_text(f, key, self.cur) for f in st.facts):
            res = None
        return res, None

    def counts(self, st, key, want=True):
        """what is known to be (or not to be) the length of the key"""
        out = []
        n = length(key)
        for f, r in st.facts.items():
            if r is want and f.tag == 'app' and f.a[0] == 'eq' and n in f.a[1:]:
                out.append(f.a[1] if f.a[2] is n else f.a[2])
        return out

    def whole(self, st, n):
        """does the match cover the segment"""
        if n is None:
            return None
        ls = [n] + [x for f, r in st.facts.items() if r is True and f.tag == 'app' and f.a[0] == 'eq' and n in f.a[1:] for x in f.a[1:]]
        for x in ls:
            t = self.A.truth(st, eq(x, length(self.cur)))
            if t is not None:
                return t
        for f, r in st.facts.items():
            # what is left of the segment after the key
            if r in (True, False) and f.tag == 'app' and f.a[0] in ('is_empty', 'eq'):
                for x in subterms(f.a[1]) if f.a[0] == 'is_empty' else ():
                    if x.tag == 'app' and x.a[0].endswith('strip_prefix') and x.a[1] is self.cur and length(x.a[2]) is n and f.a[1].tag == 'fld':
                        return r
        return None

    def rest(self, v):
        """the segments after the current one"""
        while v.tag == 'lv' and v in self.I.lvs:
            v = self.I.lvs[v]['init']
        if v.tag == 'app' and v.a[0] == 'sub' and v.a[1] is self.keys0:
            lo, hi = (v.a[3], v.a[2]) if self.back else (v.a[2], v.a[3])
            return number_or_int(lo, 1) and number_or_int(hi, 0)
        return None if unknown(v) or v.tag == 'app' else False


def number_or_int(x, n):
    return x == n if not isinstance(x, T) else number(x, n)


def odd_text(f, key, cur):
    """a condition on the text which this rule does not read"""
    if f.tag != 'app' or not (mentions(f, key) and mentions(f, cur)):
        return False
    return f.a[0] not in ('eq', 'lt') or any(x.tag == 'app' and x.a[0] not in ('eq', 'lt', 'elem', 'chars', 'len', 'at', 'end') for x in subterms(f))


def look(A):
    L = A.cache.get('look')
    if L is None:
        L = Look(A, False)
        if L.outs and any(L.arg(e, 'mws') is not EMPTYSEQ for st, e in L.calls):
            L = Look(A, True)
        A.cache['look'] = L
    return L


def look_guard(A, L):
    if L.ro is None or not L.outs:
        A.und('looking up one more segment', '', trie(A).why or 'its shape is not known')
        return False
    return True


# ------------------------------------------------------------------ one step
def each_found(A, L, what):
    """outcomes that found a node: (state, node chain, lookup below)"""
    n = 0
    for st, v, r in L.outs:
        if A.variant(st, r) == 'None' or is_none(r):
            continue
        if not is_some(r):
            A.und(what, L.w, 'the outcome is %s' % show(r)[:150])
            continue
        f = L.found(pay(r))
        if f is None:
            A.check(None if unknown(pay(r)) else False, 'what is found is below the node', L.w, 'found: %s' % show(pay(r))[:200])
            continue
        n += 1
        yield (st,) + f
    if not n:
        A.und(what, L.w, 'nothing is ever found')


def each_none(A, L):
    for st, v, r in L.outs:
        if is_none(r) or A.variant(st, r) == 'None':
            yield st


def unsettled(I, v):
    """True when v holds loop variables whose loop really adds something"""
    for x in lvs_of(I, v):
        info = I.lvs[x]
        L = I.iters.get(info['loop'])
        if L is None:
            return None
        for b in L[1]:
            w = back_value(I, b, x)
            if w is not None and w is not x and mentions(w, x):
                return True
    return None


def judge(A, I, got, want, what, where, why):
    if got is want:
        A.ok(what, where)
        return
    if lvs_in_value(I, got, want):
        A.check(False if unsettled(I, got) else None, what, where, why)
        return
    A.check(None if vague(got) and not altered(got) else False, what, where, why)


def lvs_in_value(I, got, want):
    """loop variables at a place where a list or map is expected"""
    work = [got]
    while work:
        x = work.pop()
        if x.tag == 'lv':
            return True
        if x.tag == 'seq':
            work.extend(p.a[0] for p in x.a if p.tag == 'all')
        elif x.tag == 'app' and x.a[0] in ('minsert', 'SUBPARAMS', 'mremove', 'truncated', 'sub'):
            work.append(x.a[1])
    return False


def vague(v):
    """holds something this analysis does not follow"""
    return any(x.tag in ('rep', 'join', 'undef', 'ite') or x.tag == 'app' and (x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect', 'truncated') or isinstance(x.a[0], str) and '::' in x.a[0])
               for x in subterms(v))


def mws_expected(A, L, st, nodes, sub):
    T = L.T
    out = list(seqparts(L.mws0))
    if sub is not None:
        fl = sub.a[1 + L.ro['flag']] if 'flag' in L.ro else FALSE
        t = A.truth(st, fl)
        if fl is TRUE or t is True:
            nodes = []
        elif not (fl is FALSE or t is False):
            return None
    for c in nodes:
        if c is not nodes[-1] and sub is None:
            # passed through only as far as it is on the path
            pass
        v = A.variant(st, T.f(c, T.val))
        if v == 'Some':
            out.append(mk('all', T.mws_of(c)))
        elif v is None:
            return None
    if sub is not None:
        out.append(mk('all', app('SUBMW', sub)))
    return out


def step_mws(A):
    L = look(A)
    if not look_guard(A, L):
        return
    T = L.T
    for st, nodes, sub in each_found(A, L, 'the middleware collected'):
        got = L.value(st, L.mws0)
        want = mws_expected(A, L, st, nodes, sub)
        what = 'the middleware of each node on the way is collected, outermost first'
        if want is None:
            if any(mentions(got, T.f(c, T.val)) for c in nodes):
                A.und(what, L.w, 'undetermined whether the node has any: %s' % facts_of(st))
            else:
                A.check(False, what, L.w, 'the middleware of %s are left out' % show(nodes[0])[:80])
            continue
        judge(A, L.I, got, mkseq(want), what, L.w, 'collected: %s, expected: %s, with %s' % (show(got)[:300], show(mkseq(want))[:300], facts_of(st)))
    for st in each_none(A, L):
        got = L.value(st, L.mws0)
        judge(A, L.I, got, L.mws0, 'a lookup that finds nothing leaves no middleware behind', L.w, 'left: %s' % show(got)[:300])


def param_parts(L, v):
    """(inserted pairs, lookups below) or None"""
    ins, subs = [], []
    while v is not L.params0:
        if v.tag == 'app' and v.a[0] == 'minsert':
            ins.append((v.a[2], v.a[3]))
            v = v.a[1]
        elif v.tag == 'app' and v.a[0] == 'SUBPARAMS':
            subs.append(v.a[2])
            v = v.a[1]
        else:
            return None
    return ins, subs


def step_params(A):
    L = look(A)
    if not look_guard(A, L):
        return
    T = L.T
    for st, nodes, sub in each_found(A, L, 'the parameters bound'):
        got = L.value(st, L.params0)
        c = nodes[0]
        key = T.f(c, T.key)
        what = 'a parameter is bound to its segment, and nothing else is'
        p = param_parts(L, got)
        if p is None:
            if lvs_in_value(L.I, got, None):
                A.check(False if unsettled(L.I, got) else None, what, L.w, 'bound: %s' % show(got)[:300])
            else:
                A.check(None if vague(got) else False, what, L.w, 'bound: %s' % show(got)[:300])
            continue
        ins, subs = p
        want_subs = [] if sub is None else [sub]
        # the parameters passed down are part of the name of the lookup below
        A.check([strip_sub(L, x) for x in subs] == [strip_sub(L, x) for x in want_subs], 'the parameters of the matched alternative are kept, and no others', L.w, 'bound: %s' % show(got)[:300])
        kd = L.kind(st, c)
        if kd is None:
            A.check(None if any(mentions(f, app('chars', key)) for f in st.facts) else False, what, L.w, 'without looking whether it is a parameter: %s' % facts_of(st))
            continue
        if kd != 'param':
            A.check(not ins, what, L.w, 'a segment that is no parameter is bound: %s' % show(got)[:300])
            continue
        want = (app('substr', key, k(1), app('end')), L.cur)
        if not ins:
            A.bad(what, L.w, 'the parameter is not bound: %s' % show(got)[:300])
        for a, b in ins:
            good = same_name(a, key) and b is L.cur
            A.check(True if good else (None if (vague(a) or vague(b)) and not (changed_text(a) or changed_text(b)) else False), what, L.w, 'bound: %s to %s' % (show(a)[:150], show(b)[:150]))
    for st in each_none(A, L):
        got = L.value(st, L.params0)
        judge(A, L.I, got, L.params0, 'a lookup that finds nothing leaves no parameter behind', L.w, 'left: %s' % show(got)[:300])


def same_name(a, key):
    """the key without its colon"""
    if a.tag == 'app' and a.a[0] == 'substr' and a.a[1] is key and number(a.a[2], 1) and a.a[3].tag == 'app' and a.a[3].a[0] == 'end':
        return True
    if a.tag == 'app' and a.a[0] == 'concat' and a.a[1].tag == 'app' and a.a[1].a[0] == 'sub' and a.a[1].a[1] is app('chars', key) and a.a[1].a[2:] == (1, 0):
        return True
    if a.tag == 'fld' and a.a[0].tag == 'as' and a.a[0].a[0].tag == 'app' and a.a[0].a[0].a[0].endswith('strip_prefix'):
        x = a.a[0].a[0]
        return x.a[1] is key and x.a[2].tag == 'k' and x.a[2].a[0] == ':'
    return False


def strip_sub(L, r):
    """a lookup below, whatever it was given to add to"""
    a = list(r.a)
    for role in ('params', 'mws'):
        a[1 + L.ro[role]] = UNIT
    return mk('app', *a)


def step_match(A, pid):
    """a child is found or gone into only for a segment it stands for"""
    L = look(A)
    if not look_guard(A, L):
        return
    T = L.T
    for st, nodes, sub in each_found(A, L, 'the node found'):
        c = nodes[0]
        key = T.f(c, T.key)
        kd = L.kind(st, c)
        if pid == 'P23':
            f = A.truth(st, eq(L.flag, T.f(c, T.suf))) if L.flag is not None and T.suf else None
            A.check(True if f is True else (False if f is False or not any(mentions(x, T.f(c, T.suf)) for x in st.facts) else None), 'a whole segment is looked up among whole segments only, its rest among rests only', L.w,
                    'a node may be taken for what it does not stand for: %s' % facts_of(st))
            if L.flag is not None:
                insert = L.value(st, L.params0)
                p = param_parts(L, insert)
                if p and p[0]:
                    A.check(A.truth(st, L.flag) is False, 'a parameter stands for a whole segment', L.w, 'it may be bound to the rest of one: %s' % facts_of(st))
                if kd == 'star' or star_only(A, L, st, c):
                    A.check(A.truth(st, L.flag) is False, 'a wildcard stands for whole segments', L.w, 'it may stand for the rest of one')
        if sub is not None or pid != 'P01':
            continue
        what = 'a node is found only when the path ends at it'
        if kd == 'star':
            A.ok(what, L.w)
            continue
        K = L.keys(st)
        end = A.truth(st, is_empty(K))
        if kd == 'param':
            A.check(True if end is True and L.rest(K) is not False else (None if end is None and L.rest(K) is None else False), what, L.w, 'found with segments left over: %s' % facts_of(st))
        elif kd == 'text':
            m, n = L.matched(st, c)
            A.check(m, 'a node is found only for the text it stands for', L.w, 'its text is not known to be that of the segment: %s' % facts_of(st))
            if m is True:
                wh = L.whole(st, n)
                if end is True and L.rest(K) is not False:
                    # the rest of the segment, had there been any, would have been put in front
                    A.check(True if wh is not False and (wh is True or rest_put_back(L, st, n)) else False, what, L.w, 'found although the segment has more text: %s' % facts_of(st))
                else:
                    A.check(None if end is None and L.rest(K) is None else False, what, L.w, 'found with segments left over: %s' % facts_of(st))
        else:
            A.check(None if any(odd_text(f, key, L.cur) for f in st.facts) else False, 'a node is found only for the text it stands for', L.w, 'without looking at it: %s' % facts_of(st))
        if len(nodes) == 2:
            ck = T.f(nodes[1], T.key)
            A.check(True if A.truth(st, eq(ck, k('*', 'str'))) is True else False, 'only a wildcard is found for a path that has ended', L.w, 'found: %s' % facts_of(st))
    done = set()
    for st, e in L.calls:
        c = e.a[4]
        what = 'the lookup goes on below a node with what follows the text it stands for'
        if not L.child(c):
            A.check(None if unknown(c) else False, 'the lookup goes on below a child', e.a[1], show(c)[:150])
            continue
        K, fl = L.arg(e, 'keys'), L.flag_of(e)
        ft = True if fl is TRUE else False if fl is FALSE else A.truth(st, fl)
        kd = L.kind(st, c)
        if ft is None:
            A.und(what, e.a[1], 'undetermined whether the rest of a segment is meant: %s' % show(fl)[:100])
            continue
        if ft is False:
            r = L.rest(K)
            A.check(r, what, e.a[1], 'it goes on with %s' % show(K)[:200])
            if kd == 'text' or kd == 'star':
                m, n = L.matched(st, c)
                A.check(m, 'the lookup goes on only below a node that stands for the segment', e.a[1], 'its text is not known to be that of the segment: %s' % facts_of(st))
                if m is True:
                    wh = L.whole(st, n)
                    A.check(True if wh is True else False, 'the lookup goes on only below a node that stands for the segment', e.a[1], 'the segment may have more text: %s' % facts_of(st))
            elif kd is None:
                A.check(None if any(odd_text(f, T.f(c, T.key), L.cur) for f in st.facts) else False, 'the lookup goes on only below a node that stands for the segment', e.a[1], 'without looking at it: %s' % facts_of(st))
        else:
            if kd != 'text':
                A.check(None if kd is None else False, 'a parameter or wildcard stands for whole segments', e.a[1], 'the rest of its segment is looked up')
                continue
            m, n = L.matched(st, c)
            A.check(m, 'the lookup goes on only below a node that stands for the segment', e.a[1], 'its text is not known to be that of the segment: %s' % facts_of(st))
            if m is not True:
                continue
            ps = seqparts(K)
            if L.back:
                ps = ps[::-1]
            good = None if unknown_but_lv(K) else False
            if len(ps) == 2 and ps[0].tag == 'one' and ps[1].tag == 'all':
                t, r = ps[0].a[0], L.rest(ps[1].a[0])
                if is_rest_text(st, t, L, c, n):
                    good = r
            A.check(good, what, e.a[1], 'it goes on with %s' % show(K)[:250])


def unknown_but_lv(t):
    return any(x.tag in ('rep', 'join', 'undef', 'ite') or x.tag == 'app' and isinstance(x.a[0], str) and ('::' in x.a[0] or x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect')) for x in subterms(t))


def is_rest_text(st, t, L, c, n):
    key = L.T.f(c, L.T.key)
    if t.tag == 'app' and t.a[0] == 'substr' and t.a[1] is L.cur and t.a[3].tag == 'app' and t.a[3].a[0] == 'end':
        return t.a[2] is n or t.a[2] is length(key)
    if t.tag == 'fld' and t.a[0].tag == 'as' and t.a[0].a[0].tag == 'app' and t.a[0].a[0].a[0].endswith('strip_prefix'):
        x = t.a[0].a[0]
        return x.a[1] is L.cur and x.a[2] is key
    return False


def star_only(A, L, st, c):
    """its key was compared with the wildcard and nothing else"""
    return A.truth(st, eq(L.T.f(c, L.T.key), k('*', 'str'))) is True and L.matched(st, c)[0] is not True


def rest_put_back(L, st, n):
    """the length of the match was compared with the segment before the remaining segments were looked at"""
    ln = length(L.cur)
    return any(f.tag == 'app' and f.a[0] in ('eq', 'lt') and mentions(f, ln) for f in st.facts)


def step_all(A):
    """a child that stands for the path is never passed over"""
    L = look(A)
    if not look_guard(A, L):
        return
    T = L.T
    what = 'a node that stands for the segment is never passed over'
    n = 0
    for key, (W, backs, S0) in L.I.iters.items():
        for r, v in W.mem.items():
            if v.tag == 'iter' and backs and any(b.mem.get(r) is not v for b in backs):
                src = v.a[0]
                src, back = walk_of(L.I, src)
                if src is not L.kids0 or back:
                    continue
                c = app('elem', L.kids0, v.a[1])
                for b in backs:
                    if L.impossible(b):
                        continue
                    n += 1
                    A.check(passed_over(A, L, b, c, len(W.ev)), what, L.w, 'passed over with %s' % '; '.join('%s %s' % (show(f)[:100], r) for f, r in b.facts.items())[:900])
    if not n:
        A.und(what, L.w, 'no loop over the children found')
    for st in each_none(A, L):
        end = A.truth(st, is_empty(L.kids0)) is True or any(f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[1] is L.kids0 for f, r in st.facts.items())
        failed = None
        if not end:
            failed = [e for e in events(st, 'call', 'SUB')]
        if not end and A.truth(st, is_empty(L.keys0)) is True:
            # there is always a segment left where it is called
            calls = [(s2, L.arg(e, 'keys')) for s2, e in L.calls] + [(s2, L.arg(e, 'keys')) for R, head, path, w, s2, r, subs in search_states(A, what) for e in subs]
            A.check(True if calls and all(A.truth(s2, is_empty(K)) is False for s2, K in calls) else None, 'a lookup gives up only after all children', L.w, 'it gives up with %s' % facts_of(st))
            continue
        A.check(True if end else False, 'a lookup gives up only after all children', L.w, 'it gives up with %s' % facts_of(st))


def passed_over(A, L, b, c, nev):
    T = L.T
    key = T.f(c, T.key)
    if L.flag is not None and T.suf and A.truth(b, eq(L.flag, T.f(c, T.suf))) is False:
        return True
    for e in b.ev[nev:]:
        if e.a[0] == 'call' and e.a[2] == 'SUB' and e.a[3] is NONE and e.a[4] is c:
            return True
    kd = L.kind(b, c)
    K = L.keys(b)
    empty = A.truth(b, is_empty(K)) is True or any(r is True and f.tag == 'app' and f.a[0] == 'is_empty' and L.rest(f.a[1]) for f, r in b.facts.items())
    noval = A.variant(b, T.f(c, T.val)) == 'None'
    if empty and noval and kd in ('param', 'text'):
        return True
    if kd == 'text':
        ends = ended_text(A, b, key, L.cur, L.I)
        cs = [n for n in L.counts(b, key, False) if prefix_count(A, L.I, n, key, L.cur) is True]
        if cs and ends:
            return True
        zs = [f for f, r in b.facts.items() if r is True and f.tag == 'app' and f.a[0] == 'eq' and any(number(x, 0) for x in f.a[1:])]
        for f in zs:
            n = f.a[1] if number(f.a[2], 0) else f.a[2]
            if prefix_count(A, L.I, n, key, L.cur) is True and ends:
                return True
        for f, r in b.facts.items():
            if r is False and f.tag == 'app' and f.a[0] in ('str::starts_with', 'starts_with') and f.a[1] is L.cur and f.a[2] is key:
                return True
            if f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0].endswith('strip_prefix') and f.a[0].a[1] is L.cur and f.a[0].a[2] is key:
                return True
    if any(odd_text(f, key, L.cur) for f in b.facts):
        return None
    return False


def ended_text(A, b, key, cur, I):
    """the comparison of the texts stopped at a difference, or where one ended"""
    if any(x.tag == 'app' and x.a[0] == 'common' and set(x.a[1:]) == {key, cur} for f in b.facts for x in subterms(f)):
        return True
    ck, cc = app('chars', key), app('chars', cur)
    for f, r in b.facts.items():
        if f.tag == 'app' and f.a[0] == 'eq' and r is False and all(x.tag == 'app' and x.a[0] == 'elem' for x in f.a[1:]) and {x.a[1] for x in f.a[1:]} == {ck, cc}:
            return True
        if f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and (f.a[0].a[1] in (ck, cc) or set(zipped(f.a[0].a[1])) == {ck, cc}):
            return True
        if f.tag == 'app' and f.a[0] == 'is_empty' and r is True and f.a[1] is cur:
            return True
    return False


def zipped(t):
    return t.a[1:] if t.tag == 'app' and t.a[0] == 'zip' else ()


# ------------------------------------------------------------------ the whole lookup
class Search:
    """All outcomes of the lookup of a path, the step above being an unknown function"""

    def __init__(self, A):
        T = trie(A)
        self.A, self.T, self.runs = A, T, []
        L = look(A)
        self.L = L
        if L.ro is None:
            return
        names = [n for n in A.F.bodies if canon(n).endswith('::search_route') and A.F.bodies[n].kind == 'method']
        for n in names:
            R = A.run(n, contracts={T.looker: sub_contract(L.ro)}, partkey=everything)
            b = A.F.bodies[n]
            head = path = None
            for i in range(b.argc):
                t = strip_refs(A.F.ty(b.locals[i + 1][0]))
                if t == ('str',):
                    path = sym(R.args[i])
                elif t[0] == 'adt' and t[1] == T.tree:
                    head = T.f(sym(R.args[i]), T.head)
                elif t[0] == 'adt' and t[1] in A.F.adts:
                    fn = field_by_type(A, A.F.adts[t[1]], lambda u: u[0] == 'adt' and u[1] == T.tree)
                    if fn:
                        head = T.f(T.f(sym(R.args[i]), fn), T.head)
            outs = [(st, v, A.eta(R.I.norm(st, v))) for st, v in R.outs]
            self.runs.append((n, R, head, path, outs, A.span(n)))


def search(A):
    if 'search' not in A.cache:
        A.cache['search'] = Search(A)
    return A.cache['search']


def search_states(A, what):
    """(run, state, value found or None, root node or lookup) for every outcome"""
    X = search(A)
    L = X.L
    n = 0
    for name, R, head, path, outs, w in X.runs:
        if head is None or path is None:
            A.und(what, w, 'the lookup does not take a path')
            continue
        for st, v, r in outs:
            subs = [e for e in all_events(R.I, st) if e.a[0] == 'call' and e.a[2] == 'SUB']
            n += 1
            yield R, head, path, w, st, r, subs
    if not n:
        A.und(what, '', 'no lookup of a path found')


def search_match(A, pid):
    L = look(A)
    T = L.T
    for R, head, path, w, st, r, subs in search_states(A, 'the lookup of a path'):
        for e in subs:
            K = L.arg(e, 'keys')
            if L.back and K.tag == 'app' and K.a[0] == 'rev':
                K = K.a[1]
            elif L.back:
                K = app('rev', K)
            A.check(True if is_segments(K, path) else (None if vague(K) and not respelled(K, path) else False), 'a looked up path is split at its slashes like a registered one', e.a[1], 'it is split into %s' % show(K)[:200])
            A.check(True if e.a[4] is head else (None if unknown(e.a[4]) else False), 'the lookup starts at the root', e.a[1], 'it starts at %s' % show(e.a[4])[:100])
            fl = L.flag_of(e)
            A.check(True if fl is FALSE else (None if unknown(fl) else False), 'the lookup starts with a whole segment', e.a[1], 'it starts with %s' % show(fl))
        if pid != 'P01':
            continue
        good = [e for e in subs if is_some(e.a[3])]
        fail = [e for e in subs if is_none(e.a[3])]
        root = not subs
        if len(subs) > 1:
            A.und('one lookup per path', w, '%d' % len(subs))
            continue
        if root:
            A.check(True if any(v is True and f.tag == 'app' and f.a[0] == 'is_empty' and is_segments(f.a[1], path) for f, v in st.facts.items()) else (None if any(vague(f) for f in st.facts) else False),
                    'only the path without segments is the root', w, 'the root is taken for %s' % facts_of(st))
        node = head if root else (app('FOUND', good[0].a[3].a[3].a[1]) if good and pay(good[0].a[3]).tag == 'app' else None)
        what = 'a path is found if and only if its node holds something'
        if fail:
            A.check(True if is_none(r) else (None if unknown(r) and not is_some(r) else False), what, w, 'found although there is no node: %s' % show(r)[:200])
            continue
        val = A.variant(st, T.f(node, T.val))
        if is_none(r):
            A.check(True if val == 'None' else (False if val == 'Some' else None if any(mentions(f, node) and f.tag != 'disc' for f in st.facts) else False), what, w, 'not found although there is a node: %s' % facts_of(st))
        elif is_some(r):
            A.check(True if val == 'Some' else None, what, w, facts_of(st))
        else:
            A.und(what, w, show(r)[:150])


def seen(A, what):
    """the result of the lookup as serving a request sees it: (where, kind, term over the result, result term)"""
    S = serve(A)
    out = []
    for st, resp, where in S.outs:
        sr = S.search(st)
        ex = S.execs(st)
        if not sr or not ex:
            continue
        e = ex[0]
        res = A.eta(sr[-1].a[3])
        ctx = A.eta(e.a[5]) if len(e.a) > 5 else None
        if ctx is not None and S.ctx_par is not None:
            out.append((e.a[1], 'params', A.eta(S.I.norm(st, proj(ctx, ('f', S.ctx_par)))), res))
        h = A.eta(e.a[4])
        if e.a[2].startswith('Middleware'):
            if h.tag == 'app' and h.a[0] == 'elem':
                out.append((e.a[1], 'mws', h.a[1], res))
            exr = A.eta(e.a[6]) if len(e.a) > 6 else None
            if exr is not None and exr.tag == 'agg':
                h = fields_of(exr).get('route_endpoint')
            else:
                h = None
        if h is not None:
            out.append((e.a[1], 'handler', h, res))
    out = list(dict.fromkeys(out))
    if not out:
        A.und(what, '', 'no request is served after a lookup')
    return out


def outcomes_found(A, what):
    """(state, result, root node's value known, node found, lookup) of the lookups that find something"""
    for R, head, path, w, st, r, subs in search_states(A, what):
        if not is_some(r):
            continue
        good = [e for e in subs if is_some(e.a[3])]
        if len(subs) > 1 or subs and not good:
            continue
        sub = pay(good[0].a[3]).a[1] if good and pay(good[0].a[3]).tag == 'app' else None
        if good and sub is None:
            continue
        yield R, head, w, st, r, (app('FOUND', sub) if sub is not None else head), sub


def through(A, R, st, t, res, r):
    return A.eta(R.I.norm(st, replace(t, {res: r})))


def search_mws(A):
    L = look(A)
    T = L.T
    what = 'a matched request gets the middleware of the root and of every node on its way, in this order'
    for where, kind, t, res in seen(A, what):
        if kind != 'mws':
            continue
        for R, head, w, st, r, node, sub in outcomes_found(A, what):
            got = through(A, R, st, t, res, r)
            want = []
            hv = A.variant(st, T.f(head, T.val))
            if hv is None:
                A.check(None if mentions(got, T.f(head, T.val)) else False, what, w, 'the middleware of the root are left out')
                continue
            if hv == 'Some':
                want.append(mk('all', T.mws_of(head)))
            if sub is not None:
                want.append(mk('all', app('SUBMW', sub)))
            want = mkseq(want)
            good = got is want or list(seqparts(got)) == list(seqparts(want))
            A.check(True if good else (None if vague(got) and not altered(got) else False), what, w, 'it gets %s, expected %s' % (show(got)[:250], show(want)[:250]))
    for R, head, path, w, st, r, subs in search_states(A, what):
        for e in subs:
            m = L.arg(e, 'mws')
            if L.mws0 is EMPTYSEQ:
                A.check(True if m is EMPTYSEQ else None, 'the lookup starts without middleware', e.a[1], 'it starts with %s' % show(m)[:150])


def reworked(got):
    """is this map made from another one by adding to it or by computing new entries"""
    if altered(got):
        return True
    # whatever a filter asks for, it leaves something out
    conds = {y for x in subterms(got) if x.tag == 'app' and x.a[0] == 'filter' and len(x.a) == 4 for y in subterms(x.a[3])}
    while got.tag == 'app' and got.a[0] in ('collect_map', 'collect', 'map', 'filter', 'minsert', 'mremove'):
        if got.a[0] != 'collect_map' and got.a[0] != 'collect':
            return not lvs_in_value(None, got, None) and not any(x.tag in UNKNOWN or x.tag == 'app' and x.a[0] in ('choice', 'stage') for x in subterms(got) if x not in conds)
        got = got.a[1]
    return False


def search_params(A):
    L = look(A)
    what = 'a matched request gets the parameters the lookup bound'
    for where, kind, t, res in seen(A, what):
        if kind != 'params':
            continue
        for R, head, w, st, r, node, sub in outcomes_found(A, what):
            got = through(A, R, st, t, res, r)
            if sub is None:
                base = got
                while base.tag == 'app' and base.a[0] in ('collect_map', 'map', 'filter', 'iter'):
                    base = base.a[1]
                good = base.tag == 'app' and base.a[0] == 'emptymap'
            else:
                good = got.tag == 'app' and got.a[0] == 'SUBPARAMS' and got.a[1].tag == 'app' and got.a[1].a[0] == 'emptymap' and got.a[2] is sub
            A.check(True if good else (None if vague(got) and not reworked(got) else False), what, where, 'it gets %s' % show(got)[:300])


def search_handler(A):
    L = look(A)
    T = L.T
    S = serve(A)
    what = 'a matched request is answered by the handler stored at the node found, for its method'
    hf = None
    for where, kind, t, res in seen(A, what):
        if kind != 'handler':
            continue
        for R, head, w, st, r, node, sub in outcomes_found(A, what):
            got = through(A, R, st, t, res, r)
            ms = [x for x in subterms(got) if x.tag == 'app' and x.a[0] in ('mval', 'HashMap::get')]
            want = T.map_of(T.value_of(node))
            good = bool(ms) and A.eta(ms[0].a[1]) is want
            A.check(True if good else (None if vague(got) and not ms else False), what, where, 'the handler is %s' % show(got)[:300])


# ------------------------------------------------------------------ the rules
def P01(A):
    step_match(A, 'P01')
    step_all(A)
    search_match(A, 'P01')
    search_handler(A)


def P04(A):
    step_mws(A)
    search_mws(A)


def P05(A):
    step_params(A)
    search_params(A)


def P23(A):
    step_match(A, 'P23')
    search_match(A, 'P23')


def P38(A):
    """children are looked at in their order, and the first that answers is taken"""
    L = look(A)
    if not look_guard(A, L):
        return
    T = L.T
    what = 'children are looked at from the first to the last'
    n = 0
    for key, (W, backs, S0) in L.I.iters.items():
        for r, v in W.mem.items():
            if v.tag != 'iter' or not any(b.mem.get(r) is not v for b in backs):
                continue
            src = v.a[0]
            src, back = walk_of(L.I, src)
            if src is not L.kids0:
                continue
            n += 1
            A.check(not back, what, L.w, 'the last child is looked at first')
            if not back:
                for b in backs:
                    A.check(True if in_step(L.I, b, v.a[1]) else None, what, L.w, 'the next child is %s' % show(b.mem[r])[:150])
    if not n:
        A.und(what, L.w, 'no loop over the children found')
    for st, nodes, sub in each_found(A, L, 'the node found'):
        if sub is not None or L.kind(st, nodes[0]) != 'star' and not star_only(A, L, st, nodes[0]):
            continue
        pos = nodes[0].a[2]
        A.check(True if pos.tag == 'lv' and pos in L.I.lvs or A.truth(st, is_empty(L.kids0)) is False and number(pos, 0) else None, 'a wildcard is only found in its turn', L.w, 'it is taken from %s' % show(pos)[:100])
