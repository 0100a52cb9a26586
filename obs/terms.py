"""Hash-consed abstract values.

Tags
  k(val, ty)          constant                     s(name)            symbol for an unknown input
  fld(base, name)     field of an opaque value     as(base, variant)  opaque value seen as a variant
  app(fn, args...)    result of an unmodelled operation on args
  ref(root, path, m)  pointer to a location        agg(kind, variant, names, vals...)
  with(base, ((elem, val)...))  opaque value some parts of which were overwritten
  clo(body, kind, env, upvals...)                  fnv(index)         function item
  seq(parts...)       ordered collection           str(parts...)      text
  iter(src, pos, peek, stages...)                  lv(id)             loop variable
  join(alternatives...)
A pointer that is itself opaque stands for its pointee.
"""

EMPTY = frozenset()


class T:
    __slots__ = ('tag', 'a', 'id', 'hasref', 'roots')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_pool = {}


def mk(tag, *a):
    key = (tag,) + a
    t = _pool.get(key)
    if t is None:
        t = T()
        t.tag = tag
        t.a = a
        t.id = len(_pool)
        roots = EMPTY
        if tag == 'ref':
            roots = frozenset([a[0]])
            if a[0][0] == 'O':
                roots |= a[0][1].roots
        for x in a:
            if isinstance(x, T):
                if x.roots:
                    roots = roots | x.roots
            elif isinstance(x, tuple):
                roots = roots | _troots(x)
        t.roots = roots
        t.hasref = bool(roots)
        _pool[key] = t
    return t


def _troots(x):
    r = EMPTY
    for y in x:
        if isinstance(y, T):
            r = r | y.roots
        elif isinstance(y, tuple):
            r = r | _troots(y)
    return r


def k(val, ty=''):
    if isinstance(val, bool):
        ty = 'bool'
    elif isinstance(val, str) and not ty:
        ty = 'str'
    elif isinstance(val, int) and not ty:
        ty = 'int'
    return mk('k', val, ty)


TRUE, FALSE = k(True), k(False)
UNIT = mk('agg', 'tuple', None, ())


def s(name):
    return mk('s', name)


def app(fn, *args):
    return mk('app', fn, *args)


def agg(kind, variant, names, vals):
    return mk('agg', kind, variant, tuple(names), *vals)


def tup(*vals):
    return agg('tuple', None, [str(i) for i in range(len(vals))], vals)


OPT, RES = 'std::option::Option', 'std::result::Result'
NONE = agg(OPT, 'None', (), ())


def some(v):
    return agg(OPT, 'Some', ('0',), (v,))


def ok(v):
    return agg(RES, 'Ok', ('0',), (v,))


def err(v):
    return agg(RES, 'Err', ('0',), (v,))


def is_k(t):
    return t.tag == 'k'


def not_(t):
    if t.tag == 'k':
        return k(not t.a[0])
    if t.tag == 'app' and t.a[0] == 'not':
        return t.a[1]
    return app('not', t)


def seqparts(v):
    if v.tag == 'seq':
        return v.a
    return (mk('all', v),)


def mkseq(parts):
    out = []
    for p in parts:
        if p.tag == 'all' and p.a[0].tag == 'seq':
            out.extend(p.a[0].a)
        else:
            out.append(p)
    if len(out) == 1 and out[0].tag == 'all':
        return out[0].a[0]
    return mk('seq', *out)


EMPTYSEQ = mk('seq')


def mkstr(parts):
    out = []
    for p in parts:
        ps = p.a if p.tag == 'str' else (p,)
        for q in ps:
            if q.tag == 'k' and q.a[0] == '':
                continue
            if out and q.tag == 'k' and out[-1].tag == 'k':
                out[-1] = k(str(out[-1].a[0]) + str(q.a[0]))
            else:
                out.append(q)
    if not out:
        return k('')
    if len(out) == 1:
        return out[0]
    return mk('str', *out)


def every(src, h, c):
    """the condition holds for every element"""
    if c.tag == 'app' and c.a[0] == 'is_empty' and c.a[1] is h and src.tag == 'app' and src.a[0] == 'split':
        # nothing but separators
        return is_empty(app('filter', src, h, not_(c)))
    return app('all', src, h, c)


def length(v):
    if v.tag == 'k' and isinstance(v.a[0], str):
        return k(len(v.a[0].encode()))
    if v.tag == 'agg' and v.a[0] == 'array':
        return k(len(v.a[2]))
    if v.tag == 'seq' and all(p.tag == 'one' for p in v.a):
        return k(len(v.a))
    if v.tag == 'app' and v.a[0] in ('stored', 'rev'):
        return length(v.a[1])
    return app('len', v)


def is_empty(v):
    if v.tag == 'k' and isinstance(v.a[0], str):
        return k(v.a[0] == '')
    if v.tag == 'seq':
        if not v.a:
            return TRUE
        if any(p.tag == 'one' for p in v.a):
            return FALSE
        if len(v.a) == 1 and v.a[0].tag == 'all':
            return app('is_empty', v.a[0].a[0])
    if v.tag == 'str' and any(p.tag == 'k' for p in v.a):
        return FALSE
    if v.tag == 'agg' and v.a[0] == 'array':
        return k(len(v.a[2]) == 0)
    if v.tag == 'app' and v.a[0] == 'stored':
        return FALSE
    if v.tag == 'app' and v.a[0] == 'rev' and len(v.a) == 2:
        return is_empty(v.a[1])
    if v.tag == 'app' and v.a[0] in ('chars', 'bytes') and len(v.a) == 2:
        return is_empty(v.a[1])
    if v.tag == 'app' and v.a[0] == 'substr' and v.a[3].tag == 'app' and v.a[3].a[0] == 'end':
        return eq(v.a[2], length(v.a[1]))
    return app('is_empty', v)


def eq(a, b):
    if a is b:
        return TRUE
    if a.tag == 'k' and b.tag == 'k' and a.a[1] != 'const' and b.a[1] != 'const':
        return k(a.a[0] == b.a[0])
    if a.tag == 'agg' and b.tag == 'agg' and a.a[0] == OPT and b.a[0] == OPT:
        if a.a[1] != b.a[1]:
            return FALSE
        return eq(a.a[3], b.a[3])
    if a.tag == 'k':
        a, b = b, a
    if b.tag == 'k':
        if b.a[1] == 'u8' and 0 < b.a[0] < 128 and a.tag == 'app' and a.a[0] == 'elem' and a.a[2].tag == 'k' and a.a[2].a[0] == 0:
            # the first byte of a text is ASCII when its first character is
            return eq(app('elem', app('chars', a.a[1]), a.a[2]), k(chr(b.a[0]), 'char'))
        if b.a[0] is True:
            return a
        if b.a[0] is False and b.a[1] == 'bool':
            return not_(a)
        if b.a[0] == '' and b.a[1] == 'str':
            return is_empty(a)
        if b.a[0] == 0 and a.tag == 'app' and a.a[0] == 'len':
            return is_empty(a.a[1])
        return app('eq', a, b)
    if b < a:
        a, b = b, a
    return app('eq', a, b)


SIGNED = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64')


def lt(a, b):
    if a is b:
        return FALSE
    if a.tag == 'k' and b.tag == 'k':
        try:
            return k(a.a[0] < b.a[0])
        except TypeError:
            pass
    if b.tag == 'k' and b.a[0] == 1 and a.tag == 'app' and a.a[0] == 'len':
        return is_empty(a.a[1])
    if a.tag == 'k' and a.a[0] == 0 and b.tag == 'app' and b.a[0] == 'len':
        return not_(is_empty(b.a[1]))
    if b.tag == 'k' and b.a[0] == 0 and b.a[1] not in SIGNED:
        return FALSE
    if a.tag == 'k' and a.a[0] == 0 and isinstance(a.a[1], str) and a.a[1] not in SIGNED and a.a[1] != 'char':
        return not_(eq(b, a))
    if b.tag == 'k' and b.a[0] == 1 and isinstance(b.a[1], str) and b.a[1] not in SIGNED and b.a[1] != 'char':
        return eq(a, k(0, b.a[1]))
    return app('lt', a, b)


def subterms(t, seen=None):
    """All subterms, each once."""
    seen = set() if seen is None else seen
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        work.extend(x.a)


def contains(t, sub):
    return any(x is sub for x in subterms(t))


def replace(t, m, memo=None):
    """Replace subterms (m: T -> T)."""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r

    def tr(x):
        if isinstance(x, T):
            return replace(x, m, memo)
        if isinstance(x, tuple):
            return tuple(tr(y) for y in x)
        return x
    a = tuple(tr(x) for x in t.a)
    r = t if a == t.a else rebuild(t.tag, a)
    memo[t] = r
    return r


def rebuild(tag, a):
    if tag == 'app':
        f = a[0]
        if f == 'not':
            return not_(a[1])
        if f == 'eq':
            return eq(a[1], a[2])
        if f == 'lt':
            return lt(a[1], a[2])
        if f == 'is_empty':
            return is_empty(a[1])
        if f == 'len':
            return length(a[1])
        if f == 'all' and len(a) == 4:
            return every(a[1], a[2], a[3])
        if f == 'elem':
            from .interp import index
            return index(a[1], a[2])
        if f == 'at':
            from .interp import at
            return at(a[1], a[2])
    if tag == 'mutseq':
        return mk(tag, *a) if a[0].tag == 'ref' else a[0]
    if tag == 'seq':
        return mkseq(a)
    if tag == 'str':
        return mkstr(a)
    if tag == 'fld':
        from .interp import proj
        return proj(a[0], ('f', a[1]))
    if tag == 'as':
        from .interp import proj
        return proj(a[0], ('v', a[1]))
    return mk(tag, *a)


def show(t, d=0):
    if d > 8:
        return '..'
    sh = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    g = t.tag
    if g == 'k':
        return repr(t.a[0]) if t.a[1] != 'const' else t.a[0].split('::')[-1]
    if g == 's':
        return t.a[0]
    if g == 'fld':
        return '%s.%s' % (sh(t.a[0]), t.a[1])
    if g == 'as':
        return '(%s as %s)' % (sh(t.a[0]), t.a[1])
    if g == 'app':
        return '%s(%s)' % (t.a[0].split('::', 1)[-1] if t.a[0].count('::') > 1 else t.a[0], ', '.join(map(sh, t.a[1:])))
    if g == 'ref':
        r = t.a[0]
        return '&%s%s%s' % ('mut ' if t.a[2] else '', sh(r[1]) if r[0] == 'O' else '%s%s_%s' % r,
                            ''.join('.%s' % (e[1],) for e in t.a[1]))
    if g == 'agg':
        nm = (t.a[0].split('::')[-1] if t.a[0] != 'tuple' else '') + ('::' + t.a[1] if t.a[1] and t.a[1] != t.a[0].split('::')[-1] else '')
        return '%s(%s)' % (nm, ', '.join(('%s: ' % n if not n.isdigit() else '') + sh(v) for n, v in zip(t.a[2], t.a[3:])))
    if g == 'with':
        return '%s{%s}' % (sh(t.a[0]), ', '.join('%s: %s' % (e[1], sh(v)) for e, v in t.a[1]))
    if g == 'clo':
        return '%s[%s]' % (t.a[0].split('::', 1)[-1], ', '.join(map(sh, t.a[3:])))
    if g == 'seq':
        return '[%s]' % ', '.join(map(sh, t.a))
    if g == 'str':
        return '"%s"' % '+'.join(map(sh, t.a))
    if g == 'lv':
        return 'lv%s' % (t.a[0],)
    return '%s(%s)' % (g, ', '.join(map(sh, t.a)))


def holds_for(b, h, c):
    """the truth of a condition on the character h when it is c, None when not followed"""
    if b.tag == 'k':
        return bool(b.a[0]) if isinstance(b.a[0], bool) else None
    if b.tag != 'app':
        return None
    n = b.a[0]
    if n == 'eq' and b.a[1] is h and b.a[2].tag == 'k':
        x = b.a[2].a[0]
        return (chr(x) if isinstance(x, int) and not isinstance(x, bool) else x) == c
    if n == 'not':
        r = holds_for(b.a[1], h, c)
        return None if r is None else not r
    if n in ('and', 'or'):
        rs = [holds_for(x, h, c) for x in b.a[1:]]
        if (n == 'and') in [not r for r in rs if r is not None]:
            return n == 'or'
        return None if None in rs else n == 'and'
    if n == 'choice':
        for x in b.a[1:]:
            if x.tag in ('tup', 'tuple') or x.tag == 'agg':
                c0, v = [y for y in x.a if isinstance(y, T)][-2:]
                r = holds_for(c0, h, c)
                if r is None:
                    return None
                if r:
                    return holds_for(v, h, c)
            else:
                return None
    return None


def delimiters(p):
    """the characters a split pattern accepts, '' standing for some other one: None when not followed"""
    if p.tag == 'k' and isinstance(p.a[0], str):
        return {p.a[0]}
    if p.tag == 'agg' and p.a[0] == 'array':
        xs = [x for x in p.a if isinstance(x, T)]
        if xs and all(x.tag == 'k' for x in xs):
            return {chr(x.a[0]) if isinstance(x.a[0], int) else x.a[0] for x in xs}
        return None
    if p.tag == 'app' and p.a[0] == 'lam':
        h, b = p.a[1], p.a[2]
        cs = {'', '/'} | {chr(x.a[0]) if isinstance(x.a[0], int) else x.a[0] for x in subterms(b) if x.tag == 'k' and not isinstance(x.a[0], bool) and isinstance(x.a[0], (int, str))}
        got = set()
        for c in cs:
            r = holds_for(b, h, c)
            if r is None:
                return None
            if r:
                got.add(c)
        return got
    return None
