"""What the rules share: running bodies symbolically, recording obligations, reading outcomes."""
from .terms import *
from .facts import Facts, canon, key2, tstr, strip_refs
from .interp import Interp, Frame, State, Budget, proj, index, subslice

CONST = 'const'


CODES = {'OK': 200, 'CREATED': 201, 'NOT_FOUND': 404, 'INTERNAL_SERVER_ERROR': 500}


def status(name):
    return k(CODES[name], 'hyper::StatusCode')


class Run:
    """All outcomes of one body"""

    def __init__(self, I, outs, args, name):
        self.I, self.outs, self.args, self.name = I, outs, args, name

    def norm(self, st, v):
        return self.I.norm(st, v)


class Analysis:
    """One build profile of the crate and the findings of one rule on it."""

    def __init__(self, facts, tag):
        self.F = facts
        self.tag = tag
        self.obl = []           # (status, what, where)
        self.cache = {}
        self.bodies = set()
        self.callsites = 0
        self.paths = 0

    # ---- verdicts
    def ok(self, what, where=''):
        self.obl.append(('ok', what, where, '', ''))

    def bad(self, what, where, why, key=''):
        self.obl.append(('bad', what, where, why, key))

    def und(self, what, where='', why=''):
        self.obl.append(('undecided', what, where, why, ''))

    def check(self, verdict, what, where='', why=''):
        """verdict: True, False or None"""
        if verdict is True:
            self.ok(what, where)
        elif verdict is False:
            self.bad(what, where, why)
        else:
            self.und(what, where, why)

    # ---- anchors
    def has(self, name):
        return name in self.F.bodies

    def find(self, *suffixes):
        """bodies whose canonical name (no generics) equals one of the given"""
        out = []
        for n in self.F.bodies:
            c = canon(n)
            if c in suffixes or n in suffixes:
                out.append(n)
        return out

    def method(self, ty, name):
        """inherent method `name` of the type called `ty`, wherever it is declared"""
        for n, b in self.F.bodies.items():
            c = canon(n)
            if b.kind == 'method' and b.impl_trait is None and (c == '%s::%s' % (ty, name) or c.endswith('::%s::%s' % (ty, name))):
                return n
        return None

    def impl(self, trait, meth, selfpred=lambda t: True):
        """[(self type, body)] of a trait method's impls"""
        out = []
        for t, impls in self.F.trait_impls.items():
            if t == trait or t.endswith('::' + trait):
                for i in impls:
                    ty = self.F.ty(i['self'])
                    if selfpred(ty):
                        for n, p in i['methods']:
                            if n == meth and p in self.F.bodies:
                                out.append((ty, p))
        return out

    def is_async(self, name):
        """a function which does nothing but make the future of its body"""
        return name + '::{closure#0}' in self.F.bodies and self.F.bodies[name + '::{closure#0}'].kind == 'coroutine'

    def adt(self, name):
        for p, a in self.F.adts.items():
            if p == name or p.endswith('::' + name):
                return a
        return None

    def span(self, name):
        b = self.F.bodies.get(name)
        return b.span if b else ''

    # ---- facts about a value, whatever way it was written
    def eta(self, t):
        return eta(self.F, t, self.cache.setdefault('eta', {}))

    def norm(self, R, st, v):
        I = R if isinstance(R, Interp) else R.I
        return self.eta(I.norm(st, v))

    def variant(self, st, v):
        x = st.variant(v)
        if x is not None:
            return x
        v = self.eta(v)
        x = st.variant(v)
        if x is not None:
            return x
        for f, r in st.facts.items():
            if f.tag == 'disc' and r[0] == 'is' and self.eta(f.a[0]) is v:
                return r[1]
            if f.tag == 'app' and f.a[0] == 'is_variant' and self.eta(f.a[1]) is v:
                if r is True:
                    return f.a[2]
                if f.a[2] in ('Some', 'Ok'):
                    return {'Some': 'None', 'Ok': 'Err'}[f.a[2]]
        return None

    def truth(self, st, c):
        x = st.truth(c)
        if x is not None:
            return x
        c = self.eta(c)
        x = st.truth(c)
        if x is not None:
            return x
        neg = c.tag == 'app' and c.a[0] == 'not'
        d = c.a[1] if neg else c
        for f, r in st.facts.items():
            if isinstance(r, bool) and self.eta(f) is d:
                return r != neg
        return None

    # ---- running
    def interp(self, **kw):
        return Interp(self.F, **kw)

    def run(self, name, args=None, contracts=None, opaque=None, hooks=None, asynchronous=False, env=None, partkey=None, pre=None, unfilter=False):
        """All outcomes of a body on unknown arguments; an async fn is awaited."""
        I = Interp(self.F, contracts=contracts, opaque=opaque, hooks=hooks)
        I.partkey = partkey
        I.unfilter = set() if unfilter else None
        b = self.F.bodies[name]
        st = State()
        fid = I.getfid(0, 0, name)
        syms = []
        for i in range(1, b.argc + 1):
            t = self.F.ty(b.locals[i][0])
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                v = args[i - 1]
            else:
                sy = s(b.locals[i][1] or 'arg%d' % i)
                if args is None or True:
                    sy = s('p%d' % (i - 1))
                v = mk('ref', ('O', sy), (), True) if t[0] == 'ref' and t[1] else sy
            st.mem[('L', fid, i)] = v
            syms.append(v)
        if pre is not None:
            pre(I, st, syms)
        fr = Frame(b, fid, env or {}, 0)
        outs = I.run_body(fr, st)
        if asynchronous:
            res = []
            for st2, v in outs:
                f = I.deref(st2, v)
                if f.tag == 'clo' and f.a[1] == 'coroutine' or f.tag == 'app' and f.a[0] == 'future::ready':
                    res += I.run_future(st2, fr, f, b.span, 'await')
                else:
                    res.append((st2, app('await', I.norm(st2, f))))
            outs = res
        self.note(I, outs)
        return Run(I, outs, syms, name)

    def note(self, I, outs):
        self.bodies |= I.seen_bodies
        self.paths += len(outs) + len(I.escapes)

    def where(self, loc):
        return loc


def sym(a):
    """the symbol behind a parameter value"""
    return a.a[0][1] if a.tag == 'ref' and a.a[0][0] == 'O' else a


def events(st, kind=None, name=None):
    for e in st.ev:
        if kind and e.a[0] != kind:
            continue
        if name and not (kind == 'call' and name_match(e.a[2], name)):
            continue
        yield e


def name_match(n, want):
    return want(n) if callable(want) else n == want


def all_events(I, st):
    """events of a state, the ones inside loops included (each listed once)"""
    seen = set()
    work = list(st.ev)
    while work:
        e = work.pop(0)
        if e in seen:
            if e.a[0] == 'loop':
                continue
        seen.add(e)
        if e.a[0] == 'loop':
            for q in I.loopevs.get(e, ()):
                for x in sorted(q, key=lambda z: z.id):
                    if x not in seen:
                        work.append(x)
            continue
        yield e


def lv_alts(I, v, seen=None):
    """initial value and every value a loop variable takes, one level"""
    info = I.lvs.get(v)
    if info is None:
        return []
    return [info['init']] + sorted(info['alts'], key=lambda t: t.id) + sorted(info.get('parts', ()), key=lambda t: t.id)


UNKNOWN = ('lv', 'rep', 'join', 'undef')


CHANGES = {'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'trim', 'trim_start', 'trim_end', 'percent_decode', 'percent_decode_str', 'repeat',
           'escape_default', 'escape_debug', 'escape_unicode', 'rev', 'decode_utf8', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_left', 'trim_right', 'make_ascii_lowercase', 'truncated'}


ALTER = {'values_mut', 'iter_mut', 'retain', 'retain_mut', 'drain', 'drain_filter', 'extract_if', 'get_mut', 'get_many_mut', 'remove', 'remove_entry', 'insert', 'clear', 'extend', 'split_off', 'append', 'dedup', 'reverse', 'sort',
         'sort_by', 'sort_by_key', 'rotate_left', 'rotate_right', 'swap', 'swap_remove', 'first_mut', 'last_mut'}


def altered(t):
    """holds a collection after a call which exists to change what is in it"""
    return any(x.tag == 'app' and isinstance(x.a[0], str) and '#' in x.a[0] and x.a[0].split('#')[0].split('<')[0].split('::')[-1] in ALTER for x in subterms(t))


def slashes(t):
    return t.tag == 'k' and isinstance(t.a[0], str) and t.a[0] != '' and t.a[0].strip('/') == ''


def stripped(x):
    """is a text without a given start or end, when it has one"""
    return x.tag == 'app' and isinstance(x.a[0], str) and len(x.a) == 3 and x.a[0].split('#')[0].split('<')[0].split('::')[-1] in ('strip_prefix', 'strip_suffix') and x.a[2].tag == 'k' and isinstance(x.a[2].a[0], str) and x.a[2].a[0].strip('/') != ''


REORDER = {'dedup', 'dedup_by', 'dedup_by_key', 'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'rotate_left', 'rotate_right'}


def respelled(t, p):
    """is the path text p changed in other ways than adding or removing repeated slashes, or split elsewhere, for some p"""
    for x in subterms(t):
        if x.tag == 'app' and len(x.a) == 3 and x.a[0] in ('split', 'split_terminator') and mentions(x.a[1], p):
            d = delimiters(x.a[2])
            if d is not None and d != {'/'}:
                return True
        if x.tag == 'app' and len(x.a) > 1 and isinstance(x.a[1], T) and mentions(x.a[1], p):
            if stripped(x) or '#' in x.a[0] and x.a[0].split('#')[0].split('<')[0].split('::')[-1] in REORDER:
                return True
            if x.a[0] == 'filter' and len(x.a) == 4 and x.a[1].tag == 'app' and x.a[1].a[0] in ('split', 'split_terminator') and drops(x.a[2], x.a[3]):
                return True
        if x.tag != 'app' or len(x.a) < 2:
            continue
        n = x.a[0].split('#')[0].split('<')[0].split('::')[-1]
        if n not in CHANGES or not isinstance(x.a[1], T) or not mentions(x.a[1], p):
            continue
        if n in ('replace', 'replacen') and len(x.a) > 3 and slashes(x.a[2]) and slashes(x.a[3]):
            continue
        if n.endswith('_matches') and len(x.a) > 2 and slashes(x.a[2]):
            continue
        return True
    return False


def drops(h, c):
    """is a condition false for some text h which is not empty"""
    from .rules.files import ev, Unknown, ORDINARY
    for x in ORDINARY + ('.', '..', ':', '...', ';', '?', '#', '%2E%2e', 'a' * 300):
        try:
            if not ev(c, {h: x}):
                return True
        except Unknown:
            pass
    return False


def same_path(t, p):
    """True when two path texts have the same segments, whatever the path is, else None"""
    if t is p:
        return True
    if t.tag == 'str':
        ps = [x for x in t.a if not slashes(x)]
        if len(ps) == 1:
            # slashes may only be added at the ends
            return same_path(ps[0], p)
    if t.tag == 'app' and len(t.a) > 2 and isinstance(t.a[1], T):
        n = t.a[0].split('::')[-1]
        if n in ('trim_matches', 'trim_start_matches', 'trim_end_matches') and slashes(t.a[2]) or n == 'replace' and len(t.a) > 3 and slashes(t.a[2]) and slashes(t.a[3]):
            return same_path(t.a[1], p)
    return None


def unknown(t):
    """mentions a value the analysis does not track exactly"""
    for x in subterms(t):
        if x.tag in UNKNOWN or x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect'):
            return True
    return False


def mentions(t, sub):
    return any(x is sub for x in subterms(t))


def deep(I, t, seen=None):
    """subterms, following loop variables to everything they can be"""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        for y in subterms(x, seen):
            yield y
            if y.tag in ('lv', 'rep'):
                for z in lv_alts(I, y):
                    if z.id not in seen:
                        work.append(z)


def deep_mentions(I, t, sub):
    return any(x is sub for x in deep(I, t))


def same(I, got, want):
    """True / False / None (cannot tell) that a value is exactly the expected one"""
    if got is want:
        return True
    if unknown(got):
        return None
    return False


def fields_of(t):
    return dict(zip(t.a[2], t.a[3:])) if t.tag == 'agg' else {}


def is_some(t):
    return t.tag == 'agg' and t.a[0] == OPT and t.a[1] == 'Some'


def is_none(t):
    return t.tag == 'agg' and t.a[0] == OPT and t.a[1] == 'None'


def is_ok(t):
    return t.tag == 'agg' and t.a[0] == RES and t.a[1] == 'Ok'


def is_err(t):
    return t.tag == 'agg' and t.a[0] == RES and t.a[1] == 'Err'


def pay(t):
    return t.a[3]


def constname(t):
    return t.a[0].split('::')[-1] if t.tag == 'k' and t.a[1] == CONST else None


def is_status(t, name):
    if t.tag != 'k':
        return False
    if t.a[1] == CONST:
        return t.a[0].endswith('StatusCode::' + name)
    return t.a[1].endswith('StatusCode') and t.a[0] == CODES[name]


def some_status(t):
    return t.tag == 'k' and (t.a[1] == CONST and 'StatusCode::' in t.a[0] or t.a[1].endswith('StatusCode'))


def chain(t):
    """(root, projection names) of a pure chain of field accesses"""
    p = []
    while t.tag in ('fld', 'as') or t.tag == 'app' and t.a[0] in ('mval', 'elem'):
        if t.tag == 'app':
            p.append((t.a[0], t.a[2]))
            t = t.a[1]
        else:
            p.append((t.tag, t.a[1]))
            t = t.a[0]
    return t, tuple(reversed(p))


def eta(F, t, memo=None):
    """A struct rebuilt from all fields of one value is that value."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r

    def tr(x):
        if isinstance(x, T):
            return eta(F, x, memo)
        if isinstance(x, tuple):
            return tuple(tr(y) for y in x)
        return x
    a = tuple(tr(x) for x in t.a)
    r = t
    if a != t.a:
        from .terms import rebuild
        r = rebuild(t.tag, a)
    if r.tag == 'agg' and len(r.a) > 3 and r.a[0] not in ('array', 'http::Builder', 'parts'):
        base = None
        good = True
        for n, v in zip(r.a[2], r.a[3:]):
            if v.tag != 'fld' or v.a[1] != n or base is not None and v.a[0] is not base:
                good = False
                break
            base = v.a[0]
        if good and base is not None:
            if r.a[1] is not None and r.a[0] in (OPT, RES):
                r = base.a[0] if base.tag == 'as' and base.a[1] == r.a[1] else r
            elif r.a[1] is None and r.a[0] != 'tuple':
                adt = F.adts.get(r.a[0])
                if adt is not None and len(adt['variants'][0][1]) == len(r.a[2]):
                    r = base
    if r.tag == 'app' and r.a[0] == 'map' and len(r.a) == 4 and r.a[3] is r.a[2]:
        r = r.a[1]
    if r.tag == 'with' and all(isinstance(v, T) and v.tag == 'fld' and v.a[0] is r.a[0] and e == ('f', v.a[1]) for e, v in r.a[1]):
        r = r.a[0]
    memo[t] = r
    return r


def field_by_type(A, adt, pred):
    """name of the only field of a struct whose type satisfies pred"""
    a = A.adt(adt) if isinstance(adt, str) else adt
    if a is None:
        return None
    c = [f[0] for f in a['variants'][0][1] if pred(A.F.ty(f[1]))]
    return c[0] if len(c) == 1 else None


def is_adt(t, *names):
    return t[0] == 'adt' and any(t[1] == n or t[1].endswith('::' + n) for n in names)


def is_opt_of(t, pred):
    return t[0] == 'adt' and t[1] == OPT and pred(t[2][0])
