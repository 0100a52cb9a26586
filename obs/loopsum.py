"""What a loop that runs through a whole collection has built: lists, maps and counters
as terms over the collection, in the form the same iterator chain would give."""
from .interp import index, at
from .terms import mk, app, k, s, not_, replace, seqparts, subterms, every, TRUE, FALSE


def own(I, key):
    return {l for l, i in I.lvs.items() if i['loop'] == key}


def bare(t, mine):
    return not any(x in mine for x in subterms(t))


def place(I, st, where):
    """what one place a loop changes holds"""
    root, path = where
    v = st.mem.get(root)
    if v is None:
        return None
    for n, e in enumerate(path):
        if e == 'pos':
            if v.tag != 'iter':
                return None
            v = v.a[1]
        elif v.tag == 'agg' and isinstance(e, str) and e in v.a[2]:
            v = v.a[3 + v.a[2].index(e)]
        elif v.tag == 'clo' and isinstance(e, int):
            v = v.a[3 + e]
        elif v.tag == 'with' and isinstance(e, tuple):
            v = dict(v.a[1]).get(e)
        else:
            return None
        if v is None:
            return None
    return I.norm(st, v)


def ended(st, mine):
    """the collections known to be used up, by the place the loop has reached in them"""
    for f, r in st.facts.items():
        if f.tag == 'disc' and r == ('is', 'None'):
            a = f.a[0]
            if a.tag == 'app' and a.a[0] == 'at' and a.a[2] in mine and bare(a.a[1], mine):
                yield a.a[1], a.a[2]


def condition(yes, no, h, put, mine):
    """one test of the element, met in all the states `yes` and failed in all the states `no`"""
    found = []
    for f, r in yes[0].facts.items():
        if isinstance(r, bool) and all(b.facts.get(f) is r for b in yes) and all(b.facts.get(f) is (not r) for b in no):
            c = put(f)
            if bare(c, mine):
                found.append(c if r else not_(c))
    return found[0] if len(found) == 1 else None


def summarise(I, key, backs, st):
    """the state at the exit of loop `key`, with what it built in closed form"""
    mine = own(I, key)
    if not mine or not backs:
        return st
    done = {}
    for M, pos in ended(st, mine):
        info = I.lvs[pos]
        if info['init'] is not k(0) or any(place(I, b, info['at']) is not app('Add', pos, k(1)) for b in backs):
            continue
        h = s('hole%d' % I.holes)
        e = index(M, pos)
        x = mk('fld', mk('as', at(M, pos), 'Some'), '0')

        def put(t):
            return replace(t, {e: h, x: h})
        for l in mine:
            if l is pos or l in done:
                continue
            v = closed(I, l, M, pos, h, put, mine, backs)
            if v is not None and bare(v, mine):
                done[l] = v
    if not done:
        return st
    st = st.copy()
    m = dict(done)
    for r, v in list(st.mem.items()):
        st.mem[r] = replace(v, m)
    facts = {}
    for f, r in st.facts.items():
        facts[replace(f, m)] = r
    st.facts = facts
    return st


def closed(I, l, M, pos, h, put, mine, backs):
    info = I.lvs[l]
    ends = [place(I, b, info['at']) for b in backs]
    if any(v is None for v in ends):
        return None
    init = info['init']
    if l.tag == 'rep':
        adds = []
        for v in ends:
            ps = list(seqparts(v))
            if l not in ps:
                return None
            n = ps.index(l)
            adds.append(tuple(ps[n + 1:]))
        got = chosen(adds, backs, h, put, mine, ())
        if got is None:
            return None
        c, add = got
        if len(add) != 1 or add[0].tag != 'one':
            return None
        body = put(add[0].a[0])
        if not bare(body, mine):
            return None
        src = M if c is None else app('filter', M, h, c)
        return mk('all', src if body is h else app('map', src, h, body))
    if init.tag == 'k' and isinstance(init.a[0], bool):
        return flag(init, ends, l, M, h, put, mine, backs)
    steps = []
    for v in ends:
        if v is l:
            steps.append(())
        elif v.tag == 'app' and v.a[0] == 'minsert' and v.a[1] is l:
            steps.append(('minsert', put(v.a[2]), put(v.a[3])))
        elif v is app('Add', l, k(1)):
            steps.append(('count',))
        else:
            return None
    got = chosen(steps, backs, h, put, mine, ())
    if got is None:
        return None
    c, step = got
    src = M if c is None else app('filter', M, h, c)
    if step == ('count',):
        return app('len', src) if init is k(0) else None
    if not step:
        return init
    a, b = step[1:]
    if not bare(a, mine) or not bare(b, mine):
        return None
    if not (init.tag == 'app' and init.a[0] == 'emptymap'):
        return None
    from .models import as_map
    return as_map(I, app('map', src, h, mk('agg', 'tuple', None, ('0', '1'), a, b)))


def flag(init, ends, l, M, h, put, mine, backs):
    """a yes or no that one kind of element turns over"""
    if len(set(ends)) == 1 and ends[0].tag == 'app' and ends[0].a[0] == ('and' if init is TRUE else 'or'):
        v = ends[0]
        c = [x for x in v.a[1:] if x is not l]
        if len(c) != 1 or len(v.a) != 3:
            return None
        c = put(c[0])
        if init is FALSE:
            c = not_(c)
    else:
        if not all(v is l or v.tag == 'k' and isinstance(v.a[0], bool) for v in ends):
            return None
        turned = not_(init)
        got = chosen([() if v in (l, init) and v is not turned else ('turn',) for v in ends], backs, h, put, mine, ())
        if got is None or got[0] is None:
            return None
        if any(v is init for v in ends):
            return None
        c = not_(got[0])
    if not bare(c, mine):
        return None
    r = every(M, h, c)
    return r if init is TRUE else not_(r)


def chosen(steps, backs, h, put, mine, idle):
    """(condition or None, step) of what every round does"""
    kinds = sorted(set(steps), key=repr)
    if len(kinds) == 1:
        return None, kinds[0]
    if len(kinds) == 2 and idle in kinds:
        work = [x for x in kinds if x != idle][0]
        yes = [b for b, x in zip(backs, steps) if x == work]
        no = [b for b, x in zip(backs, steps) if x == idle]
        c = condition(yes, no, h, put, mine)
        if c is not None:
            return c, work
    return None
