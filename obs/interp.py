"""Flow-sensitive, trace-partitioned dataflow over MIR, in the value-provenance domain of terms.py.

Calls to functions of the crate are analysed in place (one context per call path), calls to other
crates through models.py, and anything unmodelled yields a fresh value that depends on all of its
arguments. Loops are widened to a fixpoint. Awaiting is modelled as running the future to
completion at that point. Nothing is executed and no path condition is handed to a solver: branch
conditions only prune partitions which contradict a recorded fact literally.
"""
import heapq
from .terms import *
from .facts import canon, key2, subst, unify, tstr, strip_refs, parse_template


class Budget(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'ev')

    def __init__(self, mem=None, facts=None, ev=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.ev = ev

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ev)

    def key(self):
        return (frozenset(self.mem.items()), self.ev)

    # ---- branch facts
    def variant(self, v):
        if v.tag == 'agg':
            return v.a[1]
        if v.tag == 'with':
            for e, _ in v.a[1]:
                if e[0] == 'v':
                    return e[1]
            return self.variant(v.a[0])
        f = self.facts.get(mk('disc', v))
        if f and f[0] == 'is':
            return f[1]
        if v.tag == 'app' and v.a[0] == 'at' and v.a[2].tag == 'k' and v.a[2].a[0] == 0 and not v.hasref:
            t = self.truth(is_empty(v.a[1]))
            if t is not None:
                return 'None' if t else 'Some'
        return None

    def excluded(self, v):
        f = self.facts.get(mk('disc', v))
        return f[1] if f and f[0] == 'not' else frozenset()

    def set_variant(self, v, var):
        if v.tag == 'agg':
            return v.a[1] == var
        if v.tag == 'with':
            x = self.variant(v)
            if x is not None:
                return x == var
            return self.set_variant(v.a[0], var)
        if v.tag == 'undef':
            return True
        d = mk('disc', v)
        f = self.facts.get(d)
        if f:
            if f[0] == 'is':
                return f[1] == var
            if var in f[1]:
                return False
        self.facts[d] = ('is', var)
        if v.tag == 'app' and v.a[0] == 'at' and v.a[2].tag == 'k' and v.a[2].a[0] == 0 and not v.hasref:
            return self.assume(is_empty(v.a[1]), var == 'None')
        if v.tag == 'app' and v.a[0] == 'HashMap::entry':
            return self.set_variant(app('HashMap::get', v.a[2], v.a[3]), 'Some' if var == 'Occupied' else 'None')
        return True

    def not_variant(self, v, vars_):
        d = mk('disc', v)
        f = self.facts.get(d)
        if f and f[0] == 'is':
            return f[1] not in vars_
        self.facts[d] = ('not', (f[1] if f else frozenset()) | frozenset(vars_))
        return True

    def truth(self, c):
        if c.tag == 'k':
            return bool(c.a[0])
        neg = False
        if c.tag == 'app' and c.a[0] == 'not':
            c, neg = c.a[1], True
        r = self.facts.get(c)
        if r is None and c.tag == 'app':
            if c.a[0] == 'eq':
                a, b = c.a[1], c.a[2]
                va, vb = self.facts.get(mk('val', a)), self.facts.get(mk('val', b))
                if va is not None or vb is not None:
                    e = eq(va or a, vb or b)
                    if e.tag == 'k':
                        r = bool(e.a[0])
                    elif e is not c:
                        r = self.facts.get(e)
            elif c.a[0] == 'and':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x is False or y is False:
                    r = False
                elif x and y:
                    r = True
            elif c.a[0] == 'or':
                x, y = self.truth(c.a[1]), self.truth(c.a[2])
                if x or y:
                    r = True
                elif x is False and y is False:
                    r = False
            elif c.a[0] == 'is_variant':
                w = self.variant(c.a[1])
                if w is not None:
                    r = w == c.a[2]
                elif c.a[2] in self.excluded(c.a[1]):
                    r = False
        if r is None:
            return None
        return r != neg

    def assume(self, c, val):
        t = self.truth(c)
        if t is not None:
            return t == val
        if c.tag == 'app' and c.a[0] == 'not':
            c, val = c.a[1], not val
        if c.tag == 'app':
            if c.a[0] == 'and' and val or c.a[0] == 'or' and not val:
                if not (self.assume(c.a[1], val) and self.assume(c.a[2], val)):
                    return False
            if c.a[0] == 'is_variant' and val:
                return self.set_variant(c.a[1], c.a[2])
            if c.a[0] == 'eq' and val:
                a, b = c.a[1], c.a[2]
                if b.tag == 'k' and a.tag != 'k':
                    self.facts[mk('val', a)] = b
        self.facts[c] = val
        return True


def proj(v, e):
    g = v.tag
    if e[0] == 'f':
        n = e[1]
        if g == 'agg':
            try:
                return v.a[3 + v.a[2].index(n)]
            except ValueError:
                return app('nofield', v, n)
        if g == 'clo':
            return v.a[3 + int(n)]
        if g == 'with':
            for x, y in v.a[1]:
                if x == e:
                    return y
            return proj(v.a[0], e)
        if g == 'as' and n == '0' and v.a[1] == 'Some' and v.a[0].tag == 'app':
            x = v.a[0]
            if x.a[0] == 'at':
                return index(x.a[1], x.a[2])
            if x.a[0] == 'HashMap::get':
                return app('mval', x.a[1], x.a[2])
        return mk('fld', v, n)
    if e[0] == 'm':
        if g == 'app' and v.a[0] == 'minsert' and v.a[2] is e[1]:
            return v.a[3]
        return app('mval', v, e[1])
    if e[0] == 'v':
        if g == 'agg':
            return v if v.a[1] == e[1] else mk('undef')
        if g == 'with':
            for x, y in v.a[1]:
                if x == e:
                    return y
            return proj(v.a[0], e)
        return mk('as', v, e[1])
    if e[0] == 'i':
        return index(v, e[1])
    if e[0] == 'ci':
        if not e[2]:
            return index(v, k(e[1]))
        return app('elem_from_end', v, e[1])
    if e[0] == 'ss':
        return subslice(v, e[1], e[2], e[3])
    return app('proj', v)


def index(v, i):
    if i.tag == 'k' and isinstance(i.a[0], int):
        n = i.a[0]
        i = k(n)
        if v.tag == 'agg' and v.a[0] == 'array' and n < len(v.a[2]):
            return v.a[3 + n]
        if v.tag == 'seq' and all(p.tag == 'one' for p in v.a[:n + 1]) and n < len(v.a):
            return v.a[n].a[0]
        if v.tag == 'app' and v.a[0] == 'sub' and v.a[3] == 0:
            return app('elem', v.a[1], k(n + v.a[2]))
    elif i.tag == 'app' and i.a[0] == 'last':
        if v.tag == 'seq' and v.a and v.a[-1].tag == 'one':
            return v.a[-1].a[0]
    if v.tag == 'mutseq':
        r = v.a[0]
        return mk('ref', r.a[0], r.a[1] + (('i', i),), True) if r.tag == 'ref' else index(r, i)
    if v.tag == 'app':
        f = v.a[0]
        if f in ('stored', 'inserted') and v.a[2] is i:
            return v.a[3]
        if f == 'sub' and v.a[2] == 0 and not (i.tag == 'app' and i.a[0] == 'last'):
            return index(v.a[1], i)
        if f == 'map' and len(v.a) == 4:
            return replace(v.a[3], {v.a[2]: index(v.a[1], i)})
        if f == 'enumerate':
            return tup(i, index(v.a[1], i))
        if f == 'rangeseq' and v.a[1].tag == 'k' and v.a[1].a[0] == 0:
            return i
        if f == 'zip':
            return tup(index(v.a[1], i), index(v.a[2], i))
    return app('elem', v, i)


def at(src, pos):
    """The optional element at a position"""
    if pos.tag == 'k' and isinstance(pos.a[0], int):
        n = pos.a[0]
        if src.tag == 'seq':
            if len(src.a) > n and all(p.tag == 'one' for p in src.a[:n + 1]):
                return some(src.a[n].a[0])
            if len(src.a) <= n and all(p.tag == 'one' for p in src.a):
                return NONE
        if src.tag == 'app' and src.a[0] == 'sub' and src.a[3] == 0:
            return at(src.a[1], k(n + src.a[2]))
    if src.tag == 'app' and src.a[0] == 'inserted' and src.a[2] is pos:
        return some(src.a[3])
    return app('at', src, pos)


def subslice(v, lo, hi, from_end):
    if lo == 0 and hi == 0 and from_end:
        return v
    if from_end:
        if v.tag == 'app' and v.a[0] == 'sub':
            return app('sub', v.a[1], v.a[2] + lo, v.a[3] + hi)
        if v.tag == 'seq' and len(v.a) >= lo and all(p.tag == 'one' for p in v.a[:lo]):
            if hi == 0:
                return mkseq(v.a[lo:])
        return app('sub', v, lo, hi)
    return app('range', v, k(lo), k(hi))


def put(v, path, x):
    if not path:
        return x
    e, rest = path[0], path[1:]
    if e[0] == 'v' and v.tag == 'agg':
        return put(v, rest, x) if v.a[1] == e[1] else v
    old = proj(v, e)
    new = put(old, rest, x)
    if new is old:
        return v
    if v.tag == 'agg' and e[0] == 'f' and e[1] in v.a[2]:
        i = v.a[2].index(e[1])
        return mk('agg', v.a[0], v.a[1], v.a[2], *(v.a[3:3 + i] + (new,) + v.a[4 + i:]))
    if v.tag == 'clo' and e[0] == 'f':
        i = int(e[1])
        return mk('clo', *(v.a[:3 + i] + (new,) + v.a[4 + i:]))
    if e[0] == 'i' and v.tag == 'seq' and v.a:
        n = e[1].a[0] if e[1].tag == 'k' else len(v.a) - 1 if e[1].tag == 'app' and e[1].a[0] == 'last' else None
        if isinstance(n, int) and n < len(v.a) and v.a[n].tag == 'one' and (e[1].tag != 'k' or all(p.tag == 'one' for p in v.a[:n])):
            return mkseq(v.a[:n] + (mk('one', new),) + v.a[n + 1:])
    if e[0] == 'i' and v.tag == 'agg' and v.a[0] == 'array' and e[1].tag == 'k':
        n = e[1].a[0]
        return mk('agg', *(v.a[:3 + n] + (new,) + v.a[4 + n:]))
    if e[0] == 'i' and v.tag == 'app' and v.a[0] == 'stored' and v.a[2] is e[1]:
        return app('stored', v.a[1], e[1], new)
    if e[0] == 'i':
        return app('stored', v, e[1], new)
    if e[0] in ('ci', 'ss'):
        return app('stored', v, app('slot'), new)
    if e[0] == 'm':
        if v.tag == 'app' and v.a[0] == 'minsert' and v.a[2] is e[1]:
            v = v.a[1]
        return app('minsert', v, e[1], new)
    if v.tag == 'with':
        fs = tuple((a, b) for a, b in v.a[1] if a != e) + ((e, new),)
        return mk('with', v.a[0], tuple(sorted(fs, key=lambda p: str(p[0]))))
    return mk('with', v, ((e, new),))


# calls into other crates which only compute a value
SILENT = {
    'HeaderValue::from_static', 'HeaderValue::from_str', 'HeaderValue::from_bytes', 'HeaderValue::to_str', 'HeaderValue::as_bytes', 'HeaderValue::from_maybe_shared',
    'HeaderName::from_static', 'HeaderName::from_bytes', 'HeaderName::as_str', 'HeaderName::from_lowercase', 'StatusCode::as_u16', 'StatusCode::as_str', 'StatusCode::from_u16',
    'StatusCode::is_success', 'StatusCode::canonical_reason', 'Method::as_str', 'Uri::path', 'Uri::query', 'Uri::host', 'Uri::scheme', 'Uri::path_and_query',
}


# calls into other crates which panic on some arguments, besides those whose models record the condition
PARTIAL = {
    'Vec::swap_remove', 'Vec::split_off', 'Vec::drain', 'VecDeque::drain', 'Vec::extend_from_within', 'Vec::insert', 'VecDeque::swap',
    'slice::copy_from_slice', 'slice::clone_from_slice', 'slice::swap', 'slice::copy_within', 'slice::rotate_left', 'slice::rotate_right',
    'slice::chunks', 'slice::chunks_exact', 'slice::rchunks', 'slice::windows', 'Iterator::step_by', 'slice::select_nth_unstable',
    'String::remove', 'String::insert', 'String::insert_str', 'String::drain', 'String::split_off', 'String::replace_range',
    'RefCell::borrow', 'RefCell::borrow_mut', 'RefCell::replace', 'RefCell::take', 'RefCell::swap',
    'char::from_digit', 'char::to_digit', 'methods::to_digit', 'Duration::from_secs_f32', 'Duration::from_secs_f64', 'Duration::div_f64',
    'HeaderValue::from_static', 'HeaderName::from_static', 'Uri::from_static', 'PathAndQuery::from_static', 'Authority::from_static',
    'Bytes::slice', 'Bytes::slice_ref', 'Bytes::split_to', 'Bytes::split_off', 'BytesMut::split_to', 'BytesMut::split_off',
    'Buf::advance', 'Buf::copy_to_slice', 'Buf::get_u8', 'Buf::get_u16', 'Buf::get_u32', 'Buf::get_u64', 'Buf::copy_to_bytes',
    'Runtime::block_on', 'Handle::block_on', 'Handle::current', 'Runtime::new', 'spawn::spawn_local', 'local::spawn_local',
    'Vec::with_capacity', 'String::with_capacity', 'HashMap::with_capacity', 'BytesMut::with_capacity', 'vec::from_elem', 'slice::repeat', 'str::repeat',
    'Vec::reserve', 'String::reserve', 'HashMap::reserve', 'HeaderMap::with_capacity', 'HeaderMap::reserve',
    'process::exit', 'process::abort', 'intrinsics::abort', 'num::pow', 'num::abs', 'panic::resume_unwind', 'panic::panic_any',
}


class Frame:
    __slots__ = ('body', 'fid', 'env', 'depth', 'loc')

    def __init__(self, body, fid, env, depth):
        self.body, self.fid, self.env, self.depth = body, fid, env, depth
        self.loc = body.span


class Interp:
    def __init__(self, facts, contracts=None, opaque=None, budget=600000, hooks=None):
        self.F = facts
        self.contracts = contracts or {}
        self.opaque = opaque or (lambda name: False)
        self.steps = 0
        self.budget = budget
        self.fids = {}
        self.fidname = {}
        self.stack = []
        self.panics = []
        self.sites = []          # possible panics with the facts at that point
        self.escapes = []
        self.escenv = []         # closures handed to foreign code: state after a call, closure before it
        self.lvs = {}
        self.unfilter = None     # filters whose loops were run over all elements, if that is wanted
        self.loopevs = {}
        self.iterruns = {}
        self.iters = {}          # loop -> (state at its head, states at the end of each iteration, state at entry)
        self.seen_bodies = set()
        self.unmodelled = {}
        self.fnvs = []
        self.fnvidx = {}
        self.recursive = []
        self.hooks = hooks or {}
        self.holes = 0
        self.writes = None
        self.loopids = {}
        self.maps = set()
        self.partkey = None      # facts worth keeping states apart for
        self._ctors = None
        from . import models
        self.models = models.MODELS
        self.loop_head = models.loop_head

    # ---------------------------------------------------------------- memory
    def load(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = root[1] if root[0] == 'O' else mk('undef')
        for e in path:
            v = proj(v, e)
        return v

    def store(self, st, root, path, x):
        if not path:
            if root[0] == 'O' and x is root[1]:
                st.mem.pop(root, None)
            else:
                st.mem[root] = x
            return
        st.mem[root] = put(self.load(st, root), path, x)

    def as_place(self, v):
        if v.tag == 'ref':
            return v.a[0], v.a[1]
        return ('O', v), ()

    def deref(self, st, v):
        """Content behind a pointer, through any number of pointers."""
        n = 0
        while v.tag == 'ref' and n < 20:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if ('O', v) in st.mem:
            v = st.mem[('O', v)]
        return v

    def norm(self, st, v, depth=0):
        """The value with all pointers replaced by what they point to."""
        if v.tag == 'ref':
            if depth > 30:
                return app('deep')
            return self.norm(st, self.load(st, v.a[0], v.a[1]), depth + 1)
        if ('O', v) in st.mem and depth < 30:
            w = st.mem[('O', v)]
            if w is not v and not contains(w, v):
                return self.norm(st, w, depth + 1)
            return w
        if not v.hasref:
            return v

        def tr(x):
            if isinstance(x, T):
                return self.norm(st, x, depth + 1) if x.hasref else x
            if isinstance(x, tuple):
                return tuple(tr(y) for y in x)
            return x
        if depth > 30:
            return v
        from .terms import rebuild
        return rebuild(v.tag, tuple(tr(x) for x in v.a))

    def ref(self, root, path, m):
        if root[0] == 'O' and not path and not m and root[1].tag != 'ref':
            return root[1]
        return mk('ref', root, tuple(path), bool(m))

    def event(self, st, kind, *a, loc=''):
        st.ev = st.ev + (mk('ev', kind, loc, *a),)

    # ---------------------------------------------------------------- places and operands
    def place(self, fr, st, p):
        root, path = ('L', fr.fid, p[0]), ()
        for e in p[1:]:
            if e[0] == 'd':
                v = self.load(st, root, path)
                if v.tag == 'ref':
                    root, path = v.a[0], v.a[1]
                elif v.tag in ('agg', 'seq', 'str', 'clo', 'with', 'iter'):
                    pass
                else:
                    root, path = ('O', v), ()
            elif e[0] == 'f':
                path = path + (('f', e[2]),)
            elif e[0] == 'v':
                path = path + (('v', e[2]),)
            elif e[0] == 'i':
                path = path + (('i', self.load(st, ('L', fr.fid, e[1]))),)
            elif e[0] == 'ci':
                path = path + (('ci', e[1], e[2], e[3]),)
            elif e[0] == 'ss':
                path = path + (('ss', e[1], e[2], e[3]),)
            else:
                path = path + (('x',),)
        return root, path

    def fnv(self, callee, env):
        key = (id(callee), tuple(sorted(env.items())) if env else ())
        i = self.fnvidx.get(key)
        if i is None:
            i = len(self.fnvs)
            self.fnvs.append((callee, env))
            self.fnvidx[key] = i
        return mk('fnv', i)

    def operand(self, fr, st, o):
        if o['o'] in ('c', 'm'):
            root, path = self.place(fr, st, o['p'])
            return self.load(st, root, path)
        if o['o'] == 'rt':
            return app('runtime_check')
        if 'fn' in o:
            return self.fnv(o['fn'], fr.env)
        ty = self.F.tys(o['ty'])
        if 'val' in o and 'path' not in o or 'val' in o and o.get('val') is not None and o['path'] in self.F.bodies:
            if ty == 'bool':
                return k(bool(o['val']))
            return k(o['val'], ty)
        if 'str' in o:
            return k(o['str'])
        if o.get('path'):
            b = self.F.bodies.get(o['path'])
            if b is not None and b.kind == 'const':
                r = self.run_const(b)
                if r is not None:
                    return r
            if 'val' in o and o['val'] is not None:
                return k(o['val'], ty) if ty != 'bool' else k(bool(o['val']))
            return k(canon(o['path']), 'const')
        if ty == '()':
            return UNIT
        return k(o.get('repr', '?'), 'const:' + ty)

    def run_const(self, b):
        if b.name in self.stack or len(self.stack) > 60:
            return None
        fid = self.getfid(0, 0, b.name)
        outs = self.run_body(Frame(b, fid, {}, 1), State())
        if len(outs) == 1 and not outs[0][1].hasref:
            return outs[0][1]
        if len(outs) == 1:
            v = self.norm(outs[0][0], outs[0][1])
            return v
        return None

    def getfid(self, parent, bb, name):
        key = (parent, bb, name)
        f = self.fids.get(key)
        if f is None:
            f = self.fids[key] = len(self.fids) + 1
            self.fidname[f] = name
        return f

    # ---------------------------------------------------------------- statements
    def rvalue(self, fr, st, r):
        g = r['r']
        if g == 'use':
            return self.operand(fr, st, r['a'])
        if g in ('ref', 'reborrow'):
            root, path = self.place(fr, st, r['p'])
            if not r['m'] and len(r['p']) > 1 and r['p'][-1][0] == 'd' and root[0] == 'L':
                # a reborrow of a value that stands for its own pointee
                v = self.load(st, ('L', fr.fid, r['p'][0])) if len(r['p']) == 2 else None
                if v is not None and v.tag in ('agg', 'seq', 'str', 'clo', 'with', 'iter'):
                    return v
            return self.ref(root, path, r['m'])
        if g == 'cast':
            v = self.operand(fr, st, r['a'])
            if 'IntToInt' in r['kind'] or 'Float' in r['kind']:
                ty = self.F.tys(r['ty'])
                if v.tag == 'k' and isinstance(v.a[0], int) and not isinstance(v.a[0], bool):
                    return k(v.a[0], ty)
                return app('cast:' + ty, v)
            return v
        if g == 'bin':
            return self.binop(r['op'], self.operand(fr, st, r['a']), self.operand(fr, st, r['b']))
        if g == 'un':
            v = self.operand(fr, st, r['a'])
            if r['op'] == 'Not':
                return not_(v)
            if r['op'] == 'PtrMetadata':
                return length(self.norm(st, v))
            if r['op'] == 'Neg' and v.tag == 'k' and isinstance(v.a[0], (int, float)):
                return k(-v.a[0], v.a[1])
            return app(r['op'], v)
        if g == 'discr':
            root, path = self.place(fr, st, r['p'])
            v = self.load(st, root, path)
            if v.tag == 'ref':
                v = self.deref(st, v)
            var = st.variant(v)
            if var is not None:
                for n, name in r['vs']:
                    if name == var:
                        return k(n, 'isize')
            return mk('discr', v, tuple((n, name) for n, name in r['vs']))
        if g == 'agg':
            ops = [self.operand(fr, st, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'array':
                return agg('array', None, [str(i) for i in range(len(ops))], ops)
            if ak == 'tuple':
                return tup(*ops)
            if ak == 'adt':
                if r['vn'] in ('Owned', 'Borrowed') and len(ops) == 1 and canon(r['p']).endswith('borrow::Cow'):
                    return ops[0] if r['vn'] == 'Owned' else self.norm(st, ops[0])      # what it holds
                return agg(canon(r['p']) if not r['p'].startswith('<') else r['p'], r['vn'] if r['enum'] else None, r['fn'], ops)
            if ak in ('closure', 'coroutine', 'coroutineclosure'):
                env = tuple(sorted(fr.env.items())) if fr.env else ()
                return mk('clo', r['p'], ak, env, *ops)
            return app('rawptr', *ops)
        if g == 'repeat':
            return app('repeat', self.operand(fr, st, r['a']))
        if g == 'tls':
            return app('tls', r['p'])
        return app('rvalue')

    def binop(self, op, a, b):
        over = op.endswith('WithOverflow')
        if over:
            op = op[:-len('WithOverflow')]
        op = op.replace('Unchecked', '')
        if op == 'Eq':
            r = eq(a, b)
        elif op == 'Ne':
            r = not_(eq(a, b))
        elif op == 'Lt':
            r = lt(a, b)
        elif op == 'Gt':
            r = lt(b, a)
        elif op == 'Le':
            r = not_(lt(b, a))
        elif op == 'Ge':
            r = not_(lt(a, b))
        elif op in ('BitAnd', 'BitOr') and (a.tag == 'k' and isinstance(a.a[0], bool) or b.tag == 'k' and isinstance(b.a[0], bool)):
            if a.tag == 'k':
                a, b = b, a
            if op == 'BitAnd':
                r = a if b.a[0] else FALSE
            else:
                r = TRUE if b.a[0] else a
        elif op in ('BitAnd', 'BitOr'):
            r = app('and' if op == 'BitAnd' else 'or', a, b)
        elif op == 'BitXor' and b.tag == 'k' and isinstance(b.a[0], bool):
            r = not_(a) if b.a[0] else a
        elif a.tag == 'k' and b.tag == 'k' and isinstance(a.a[0], int) and isinstance(b.a[0], int) and op in ('Add', 'Sub', 'Mul'):
            r = k({'Add': a.a[0] + b.a[0], 'Sub': a.a[0] - b.a[0], 'Mul': a.a[0] * b.a[0]}[op], a.a[1])
        elif op in ('Add', 'Sub') and b.tag == 'k' and b.a[0] == 0:
            r = a
        elif op == 'Add' and a.tag == 'k' and a.a[0] == 0:
            r = b
        else:
            r = app(op, a, b)
        return tup(r, FALSE) if over else r

    # ---------------------------------------------------------------- bodies
    def run_body(self, fr, st):
        """-> [(state, value)] for every normal return; panics are collected in self.panics"""
        b = fr.body
        self.seen_bodies.add(b.name)
        loops = b.loops()
        self.stack.append(b.name)
        try:
            rets, backs, exits = self.explore(fr, 0, [st], None, None, loops)
        finally:
            self.stack.pop()
        out, seen = [], {}
        for s in rets:
            v = self.load(s, ('L', fr.fid, 0))
            self.gc(s, fr.fid, v)
            key = (s.key(), v, self.partkey(s) if self.partkey else None)
            if key in seen:
                seen[key].facts = inter(seen[key].facts, s.facts)
            else:
                seen[key] = s
                out.append((s, v))
        return out

    def gc(self, st, fid, ret):
        cand = [r for r in st.mem if r[0] == 'L' and r[1] == fid]
        if not cand:
            return
        cs = set(cand)
        live, work = set(), [ret]
        work.extend(v for r, v in st.mem.items() if r not in cs)
        work.extend(e for e in st.ev[-1:] )
        while work:
            v = work.pop()
            for r in v.roots:
                if r in cs and r not in live:
                    live.add(r)
                    work.append(st.mem[r])
        for r in cand:
            if r not in live:
                del st.mem[r]

    def explore(self, fr, start, states, head, loopset, loops):
        """Blocks from `start`; inside a loop: head/loopset bound the exploration."""
        b = fr.body
        rpo = b.rpo
        pend = {start: list(states)}
        heap = [(rpo.get(start, 10 ** 6), start)]
        first = True
        rets, backs, exits = [], [], []
        while heap:
            _, bb = heapq.heappop(heap)
            sts = pend.pop(bb, None)
            if not sts:
                continue
            sts = merge(sts, self.partkey)
            if not (first and bb == head) and bb in loops and bb != head:
                for s in sts:
                    r, ex = self.run_loop(fr, bb, s, loops)
                    rets.extend(r)
                    for tgt, s2 in ex:
                        self.push(tgt, s2, head, loopset, backs, exits, pend, heap, rpo)
                first = False
                continue
            first = False
            for s in sts:
                for tgt, s2 in self.block(fr, bb, s):
                    if tgt == 'ret':
                        rets.append(s2)
                    else:
                        self.push(tgt, s2, head, loopset, backs, exits, pend, heap, rpo)
        return rets, backs, exits

    def push(self, tgt, s, head, loopset, backs, exits, pend, heap, rpo):
        if tgt == head:
            backs.append(s)
        elif loopset is not None and tgt not in loopset:
            exits.append((tgt, s))
        else:
            if tgt not in pend:
                pend[tgt] = []
                heapq.heappush(heap, (rpo.get(tgt, 10 ** 6), tgt))
            pend[tgt].append(s)

    def run_loop(self, fr, head, st, loops):
        loopset = loops[head]
        key = self.loopkey((fr.fid, head), st)
        W = st
        for n in range(12):
            rets, backs, exits = self.explore(fr, head, [W.copy()], head, loopset, loops)
            W2, changed = self.widen(W, merge(backs, self.partkey), key, st)
            if not changed:
                from .loopsum import summarise
                bs = merge(backs, self.partkey)
                return rets, [(tgt, summarise(self, key, bs, s)) for tgt, s in exits]
            W = W2
        raise Budget('loop does not stabilise in %s' % fr.body.name)

    def loopkey(self, key, st):
        """loop variables are told apart by the state the loop is entered in"""
        e = (key, st.key())
        n = self.loopids.get(e)
        if n is None:
            m = self.loopids[key] = self.loopids.get(key, 0) + 1
            n = self.loopids[e] = key + (m,)
        return n

    def widen(self, W, backs, key, S0):
        runs = self.iterruns.setdefault(key, {})
        runs[frozenset(S0.facts.items())] = (W, list(backs), S0)
        if len(runs) == 1:
            self.iters[key] = (W, list(backs), S0)
        else:
            # entered in the same memory with different facts
            fs = dict(S0.facts)
            for _, _, s0 in runs.values():
                fs = inter(fs, s0.facts)
            Wb = W if backs else next((w for w, bs, _ in runs.values() if bs), W)
            self.iters[key] = (Wb, [b for _, bs, _ in runs.values() for b in bs], State(dict(S0.mem), fs, S0.ev))
        if not backs:
            return W, False
        mem = dict(W.mem)
        for bst in backs:
            for root in list(mem):
                if root not in bst.mem:
                    if root[0] == 'L':
                        del mem[root]
                    else:
                        mem[root] = self.wjoin(mem[root], root[1], key, root, ())
                else:
                    mem[root] = self.wjoin(mem[root], bst.mem[root], key, root, ())
            for root in bst.mem:
                if root[0] == 'O' and root not in mem:
                    mem[root] = self.wjoin(root[1], bst.mem[root], key, root, ())
        ev = S0.ev
        extras = set()
        n = len(W.ev)
        for bst in backs:
            x = bst.ev[n:]
            if x:
                extras.add(x)
        mark = mk('ev', 'loop', '', str(key), len(S0.ev))
        if extras:
            self.loopevs.setdefault(mark, set()).update(extras)
        if extras or (W.ev and len(W.ev) > len(S0.ev) and W.ev[len(S0.ev)] is mark):
            ev = S0.ev + (mark,)
        W2 = State(mem, dict(S0.facts), ev)
        return W2, mem != W.mem or ev != W.ev

    def wjoin(self, w, b, key, root, path):
        if w is b:
            if w.tag == 'lv' and w in self.lvs and str(key) in w.a[0]:
                self.lvs[w]['alts'].add(b)
            return w
        rk = root if root[0] == 'L' else ('O', root[1].id)
        lid = str((key, rk, path))

        def reps(x):
            return [p for p in x if p.tag == 'rep' and p.a[0] == lid]
        if w.tag == 'lv' and w.a[0] == lid:
            self.lvs[w]['alts'].add(b)
            return w
        if w.tag == 'agg' and b.tag == 'agg' and w.a[:3] == b.a[:3]:
            vs = [self.wjoin(x, y, key, root, path + (n,)) for n, x, y in zip(w.a[2], w.a[3:], b.a[3:])]
            return agg(w.a[0], w.a[1], w.a[2], vs)
        if w.tag == 'clo' and b.tag == 'clo' and w.a[:3] == b.a[:3]:
            vs = [self.wjoin(x, y, key, root, path + (n,)) for n, (x, y) in enumerate(zip(w.a[3:], b.a[3:]))]
            return mk('clo', *(w.a[:3] + tuple(vs)))
        base = w.a[0] if w.tag == 'with' else w
        if b.tag == 'with' and b.a[0] is base or w.tag == 'with' and b is base:
            wd = dict(w.a[1]) if w.tag == 'with' else {}
            bd = dict(b.a[1]) if b.tag == 'with' else {}
            es = sorted(set(wd) | set(bd), key=str)
            if not any(e[0] == 'v' for e in es):
                r = tuple((e, self.wjoin(wd.get(e) or proj(base, e), bd.get(e) or proj(base, e), key, root, path + (e,))) for e in es)
                return mk('with', base, r)
        if w.tag == 'iter' and b.tag == 'iter' and w.a[0] is b.a[0] and w.a[3:] == b.a[3:]:
            pos = self.wjoin(w.a[1], b.a[1], key, root, path + ('pos',))
            return mk('iter', w.a[0], pos, w.a[2] if w.a[2] == b.a[2] else 'unk', *w.a[3:])
        if (w.tag == 'seq' or b.tag == 'seq') and w.tag not in ('lv',):
            wp, bp = list(seqparts(w)), list(seqparts(b))
            rep = mk('rep', lid)
            core = [p for p in wp if p is not rep]
            front = bool(wp) and wp[0] is rep and len(wp) > 1
            info = self.lvs.setdefault(rep, {'init': w, 'alts': set(), 'parts': set(), 'loop': key, 'at': (root, path)})
            if not front and bp[:len(core)] == core:
                extra = [p for p in bp[len(core):] if p is not rep]
                info['parts'].update(extra)
                return mkseq(core + [rep])
            if core and (front or rep not in wp) and bp[-len(core):] == core:
                extra = [p for p in bp[:-len(core)] if p is not rep]
                info['parts'].update(extra)
                return mkseq([rep] + core)
        if w.tag == 'str' or b.tag == 'str' or (w.tag == 'k' and w.a[1] == 'str' and b.tag in ('k', 'str')):
            wp = list(w.a) if w.tag == 'str' else [w]
            bp = list(b.a) if b.tag == 'str' else [b]
            rep = mk('rep', lid)
            core = [p for p in wp if p is not rep and not (p.tag == 'k' and p.a[0] == '')]
            info = self.lvs.setdefault(rep, {'init': w, 'alts': set(), 'parts': set(), 'loop': key, 'at': (root, path)})
            if bp[:len(core)] == core:
                info['parts'].update(p for p in bp[len(core):] if p is not rep)
                return mkstr(core + [rep])
        lv = mk('lv', lid, w.id)
        info = self.lvs.setdefault(lv, {'init': w, 'alts': set(), 'loop': key, 'at': (root, path)})
        info['alts'].add(b)
        return lv

    def block(self, fr, bb, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('budget exhausted in %s' % fr.body.name)
        blk = fr.body.blocks[bb]
        st = st.copy()
        for s in blk['st']:
            g = s['s']
            if g == '=':
                fr.loc = s['l']
                if s['v']['r'] == 'ref' and s['v'].get('fake'):
                    continue
                v = self.rvalue(fr, st, s['v'])
                root, path = self.place(fr, st, s['p'])
                if root[0] == 'O' or root[1] != fr.fid:
                    self.write_event(st, root, path, v, fr.loc)
                self.store(st, root, path, v)
            elif g == 'dead':
                r = ('L', fr.fid, s['x'])
                v = st.mem.get(r)
                if v is not None and v.tag == 'agg' and v.a[0] == 'array' and all(x.tag == 'k' for x in v.a[3:]):
                    continue        # a reference to a constant array makes it a static one
                st.mem.pop(r, None)
        t = blk['term']
        fr.loc = t['l']
        g = t['t']
        if g == 'goto' or g == 'drop':
            return [(t['to'], st)]
        if g == 'return':
            return [('ret', st)]
        if g == 'switch':
            return self.switch(fr, st, t)
        if g == 'assert':
            self.site(st, 'assert:' + t['kind'], [self.norm(st, self.operand(fr, st, o)) for o in t['ops']], fr)
            c = self.operand(fr, st, t['a'])
            if not st.assume(c, bool(t['exp'])):
                self.panic(st, 'assert:' + t['kind'], fr)
                return []
            return [(t['to'], st)]
        if g == 'yield':
            root, path = self.place(fr, st, t['ra'])
            self.store(st, root, path, mk('s', 'resume'))
            return [(t['to'], st)]
        if g == 'call':
            loc = t['l']
            args = [self.operand(fr, st, a) for a in t['args']]
            f = t['f']
            if 'fn' in f:
                outs = self.call(st, fr, f['fn'], fr.env, args, loc, bb, t)
            else:
                fv = self.operand(fr, st, f)
                outs = self.call_value(st, fr, fv, args, loc, bb)
            if t['to'] is None:
                return []
            res = []
            for s2, v in outs:
                if v.tag == 'again':
                    res.append((self.loop_head(fr.body, bb), s2))
                    continue
                root, path = self.place(fr, s2, t['d'])
                if root[0] == 'O' or root[1] != fr.fid:
                    self.write_event(s2, root, path, v, loc)
                self.store(s2, root, path, v)
                res.append((t['to'], s2))
            return res
        return []

    def write_event(self, st, root, path, v, loc):
        if 'write' in self.hooks:
            self.hooks['write'](self, st, root, path, v, loc)
        if self.writes is not None:
            self.writes.append((dict(st.facts), root, path, self.load(st, root, path), v, loc))

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t['a'])
        out = []
        if v.tag == 'k':
            val = v.a[0]
            if isinstance(val, str):
                val = ord(val) if len(val) == 1 else None
            val = int(val) if val is not None else None
            for n, bb in t['vals']:
                if n == val:
                    return [(bb, st)]
            return [(t['else'], st)]
        if v.tag == 'discr':
            x, vs = v.a
            names = dict(vs)
            used = []
            var = st.variant(x)
            exc = st.excluded(x)
            for n, bb in t['vals']:
                name = names.get(n)
                used.append(name)
                if var is not None and var != name or name in exc:
                    continue
                s2 = st.copy()
                if s2.set_variant(x, name):
                    out.append((bb, s2))
            rest = [name for _, name in vs if name not in used and name not in exc]
            if rest and (var is None or var in rest):
                s2 = st.copy()
                good = s2.set_variant(x, rest[0]) if len(rest) == 1 else (var is not None or s2.not_variant(x, used))
                if good:
                    out.append((t['else'], s2))
            return out
        ty = self.F.tys(t['ty'])
        if ty == 'bool':
            # switchInt on bool: value 0 -> false target
            for n, bb in t['vals']:
                s2 = st.copy()
                if s2.assume(v, bool(n)):
                    out.append((bb, s2))
            s2 = st.copy()
            other = [n for n, _ in t['vals']]
            if len(other) == 1 and s2.assume(v, not bool(other[0])):
                out.append((t['else'], s2))
            return out
        known = st.facts.get(mk('val', v))
        s_else = st.copy()
        feas = True
        for n, bb in t['vals']:
            c = eq(v, k(chr(n) if ty == 'char' else n, ty))
            s2 = st.copy()
            if s2.assume(c, True):
                out.append((bb, s2))
            if not s_else.assume(c, False):
                feas = False
        if feas:
            out.append((t['else'], s_else))
        return out

    # ---------------------------------------------------------------- panics
    def panic(self, st, what, fr, args=()):
        self.panics.append((st, what, fr.loc, fr.body.name, tuple(self.norm(st, a) for a in args)))

    def site(self, st, kind, vals, fr, ok_=None):
        self.sites.append((kind, tuple(vals), dict(st.facts), fr.loc, fr.body.name, st))

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, c, env, args, loc, bb, term=None):
        name = c['def']
        res = c.get('res')
        # functions whose behaviour the rule supplies
        for n in (res, name):
            if n in self.contracts:
                return self.contracts[n](self, st, fr, args, loc, c)
        cn = key2(name)
        ctor = self.ctor(name)
        if ctor:
            return [(st, agg(ctor[0], ctor[1], [str(i) for i in range(len(args))], args))]
        if c.get('trait') in ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce') and cn.split('::')[-1] in ('call', 'call_mut', 'call_once'):
            tupv = args[1]
            xs = list(tupv.a[3:]) if tupv.tag == 'agg' else [tupv]
            return self.call_value(st, fr, args[0], xs, loc, bb)
        if name == 'std::future::Future::poll':
            return self.poll(st, fr, args, loc, bb)
        if name == 'std::future::IntoFuture::into_future':
            return [(st, args[0])]
        target, tenv = self.resolve(c, env)
        if target is not None and not self.opaque(target):
            return self.inline(st, fr, target, tenv, args, loc, bb)
        return self.extern(st, fr, c, env, args, loc, bb, target)

    def ctor(self, name):
        """Variant and tuple struct constructors used as functions"""
        last = name.rsplit('::', 1)[-1]
        if last in ('Some', 'Ok', 'Err') and name.startswith(('std::', 'core::')):
            return (OPT if last == 'Some' else RES), last
        if not last[:1].isupper():
            return None
        if self._ctors is None:
            self._ctors = {}
            for p, a in self.F.adts.items():
                for v in a['variants']:
                    if len(a['variants']) > 1 or v[0] != p.split('::')[-1]:
                        self._ctors[p + '::' + v[0]] = (canon(p), v[0])
                    else:
                        self._ctors[p] = (canon(p), None)
        return self._ctors.get(canon(name)) if canon(name) not in self.F.bodies else None

    def resolve(self, c, env):
        F = self.F
        if c.get('reskind') == 'item' and c.get('reslocal') and c['res'] in F.bodies:
            e = {}
            for n, t in zip(c['resnames'], c['resargs']):
                e[n] = subst(F.ty(t), env)
            return c['res'], e
        if c.get('trait') and c.get('reskind') != 'item' and 'self' in c and c.get('reskind') != 'virtual':
            sty = subst(F.ty(c['self']), env)
            r = self.find_impl(c['trait'], c['name'], sty)
            if r:
                return r
        return None, None

    def find_impl(self, trait, meth, sty):
        F = self.F
        if sty[0] == 'param' or sty[0] == 'dyn':
            # the body a trait provides, unless some type of the crate has its own
            p = trait + '::' + meth
            if sty[0] == 'param' and p in F.bodies and not any(n == meth for i in F.trait_impls.get(trait, []) for n, _ in i['methods']):
                return p, {'Self': sty}
            return None
        cands = []
        for i in F.trait_impls.get(trait, []):
            e = {}
            pat = F.ty(i['self'])
            if unify(pat, sty, e):
                cands.append((pat[0] == 'param', i, e))
        cands.sort(key=lambda x: x[0])
        for _, i, e in cands:
            for n, p in i['methods']:
                if n == meth and p in F.bodies:
                    return p, e
            p = trait + '::' + meth
            if p in F.bodies:
                return p, {'Self': sty}
        return None

    def inline(self, st, fr, target, env, args, loc, bb):
        b = self.F.bodies[target]
        if target in self.stack or fr.depth > 45:
            self.recursive.append((target, fr.body.name, loc))
            h = self.hooks.get('recursion')
            if h:
                r = h(self, st, fr, target, env, args, loc)
                if r is not None:
                    return r
            return self.opaque_call(st, fr, 'rec:' + target, args, loc)
        fid = self.getfid(fr.fid, bb, target)
        nf = Frame(b, fid, env, fr.depth + 1)
        s2 = st.copy()
        for r in [r for r in s2.mem if r[0] == 'L' and r[1] == fid]:
            del s2.mem[r]
        for i, v in enumerate(args):
            s2.mem[('L', fid, i + 1)] = v
        h = self.hooks.get('enter')
        if h:
            h(self, s2, target, args, loc)
        return self.run_body(nf, s2)

    def call_value(self, st, fr, fv, args, loc, bb, tag=''):
        """Call a closure or function value."""
        f = self.deref(st, fv)
        if f.tag == 'fnv':
            callee, env = self.fnvs[f.a[0]]
            return self.call(st, fr, callee, env, args, loc, (bb, tag))
        if f.tag == 'clo' and f.a[1] == 'closure':
            b = self.F.bodies.get(f.a[0])
            if b is not None:
                t1 = self.F.ty(b.locals[1][0])
                if t1[0] == 'ref':
                    if fv.tag == 'ref':
                        selfv = fv
                    else:
                        # a closure value: give it a place of its own
                        root = ('L', self.getfid(fr.fid, bb, 'closure' + tag), 'self')
                        st.mem[root] = f
                        selfv = mk('ref', root, (), True)
                else:
                    selfv = f
                return self.inline(st, fr, f.a[0], dict(f.a[2]), [selfv] + list(args), loc, (bb, tag))
        if f.tag == 'agg' and f.a[1] is not None and len(f.a) > 3 and False:
            pass
        vals = [self.norm(st, f)] + [self.norm(st, a) for a in args]
        r = app('callfn', *vals)
        self.event(st, 'call', 'callfn', r, *vals, loc=loc)
        self.havoc_muts(st, 'callfn', args, vals)
        return [(st, r)]

    def pure_lambda(self, st, call, f, n=1, src=None):
        """(hole, body term) of a closure without effects, else None"""
        fv = self.deref(st, f)
        if fv.tag not in ('clo', 'fnv') or call is None:
            return None
        hole = s('hole%d' % self.holes)
        self.holes += 1
        np, ns = len(self.panics), len(self.sites)
        s0 = st.copy()
        s0.facts = dict(st.facts)
        try:
            outs = self.call_value(s0, call.fr, f, [hole], call.loc, call.bb, 'lam')
        finally:
            self.holes -= 1
        res = []
        for s2, v in outs:
            pure = s2.ev == st.ev
            if pure:
                for r, x in s2.mem.items():
                    if r[0] == 'L' and r not in st.mem:
                        continue
                    if st.mem.get(r) is not x:
                        pure = False
            if not pure:
                del self.panics[np:]
                del self.sites[ns:]
                return None
            conj = []
            for c, t in s2.facts.items():
                if st.facts.get(c) == t:
                    continue
                if c.tag == 'disc':
                    if t[0] == 'is':
                        conj.append(app('is_variant', c.a[0], t[1]))
                    else:
                        conj.extend(not_(app('is_variant', c.a[0], x)) for x in sorted(t[1]))
                elif c.tag == 'val':
                    pass
                else:
                    conj.append(c if t else not_(c))
            res.append((conj, self.norm(s2, v)))
        if not res:
            return None
        res = self.searched(res, s('hole%d' % (self.holes + 1))) or res
        if src is not None:
            # what may go wrong in there goes wrong for some element
            m = {hole: index(src, s('holeany'))}

            def put(t):
                return replace(t, m) if isinstance(t, T) else t

            def puts(s2):
                s2 = s2.copy()
                s2.facts = {put(f): r for f, r in s2.facts.items()}
                return s2
            self.panics[np:] = [(puts(a), w, l, b, tuple(put(v) for v in vs)) for a, w, l, b, vs in self.panics[np:]]
            self.sites[ns:] = [(kd, tuple(put(v) for v in vs), {put(c): r for c, r in fs.items()}, l, b, puts(a)) for kd, vs, fs, l, b, a in self.sites[ns:]]
        if len(res) == 1:
            return hole, res[0][1]

        def conjoin(cs):
            r = TRUE
            for c in cs:
                r = c if r is TRUE else app('and', r, c)
            return r
        if all(v.tag == 'k' and v.a[1] == 'bool' for _, v in res):
            yes = [c for c, v in res if v.a[0]]
            no = [c for c, v in res if not v.a[0]]
            if not no:
                return hole, TRUE
            if not yes:
                return hole, FALSE
            if len(yes) == 1:
                return hole, conjoin(yes[0])
            if len(no) == 1:
                return hole, not_(conjoin(no[0]))
        return hole, app('choice', *[tup(conjoin(c), v) for c, v in res])

    def searched(self, res, h):
        """outcomes of a loop that runs through a list until some entry decides, in closed form"""
        ats = {c.a[1] for cs, v in res for c in cs if c.tag == 'app' and c.a[0] == 'is_variant' and c.a[1].tag == 'app' and c.a[1].a[0] == 'at' and c.a[1].a[2].tag == 'lv'}
        if len(ats) != 1 or len(res) < 2:
            return None
        at = ats.pop()
        src, pos = at.a[1:]
        info = self.lvs.get(pos)
        if info is None or not (info['init'].tag == 'k' and info['init'].a[0] == 0) or sum(1 for i in self.lvs.values() if i['loop'] == info['loop']) != 1 or pos in set(subterms(src)):
            return None
        for x in info['alts'] or (None,):
            if x is None or not (x.tag == 'k' and x.a[0] == 1 or x.tag == 'app' and x.a[0] == 'Add' and x.a[1] is pos and x.a[2].tag == 'k' and x.a[2].a[0] == 1):
                return None
        some, none = app('is_variant', at, 'Some'), app('is_variant', at, 'None')
        ends, early = [], []
        for cs, v in res:
            rest = [c for c in cs if c is not some and c is not none and c is not not_(app('is_empty', src))]
            (ends if none in cs else early).append((rest, v))
            if none in cs and rest or none not in cs and some not in cs:
                return None
        if len(ends) != 1 or not early or len({v for _, v in early}) != 1:
            return None
        found = []
        for rest, v in early:
            if not rest:
                return None
            c = rest[0]
            for d in rest[1:]:
                c = app('and', c, d)
            found.append(replace(c, {app('elem', src, pos): h}))
        if pos in {x for c in found + [ends[0][1], early[0][1]] for x in subterms(c)}:
            return None
        c = TRUE
        for d in found:
            c = not_(d) if c is TRUE else app('and', c, not_(d))
        every_ = every(src, h, c)
        return [([every_], ends[0][1]), ([not_(every_)], early[0][1])]

    def poll(self, st, fr, args, loc, bb):
        fut = self.deref(st, args[0])
        outs = self.run_future(st, fr, fut, loc, bb)
        return [(s, agg('std::task::Poll', 'Ready', ('0',), (v,))) for s, v in outs]

    def run_future(self, st, fr, fut, loc, bb):
        if fut.tag == 'clo' and fut.a[1] == 'coroutine' and fut.a[0] in self.F.bodies:
            return self.inline(st, fr, fut.a[0], dict(fut.a[2]), [fut, s('resume')], loc, bb)
        v = self.norm(st, fut)
        if v.tag == 'app' and v.a[0] == 'future::ready':
            return [(st, v.a[1])]
        r = app('await', v)
        self.event(st, 'call', 'await', r, v, loc=loc)
        return [(st, r)]

    def havoc_muts(self, st, name, args, vals):
        for i, a in enumerate(args):
            self.havoc_mut(st, name + '#%d' % i, a, vals, set())

    def havoc_mut(self, st, name, a, vals, seen):
        if a.tag == 'ref' and a.a[2]:
            root, path = a.a[0], a.a[1]
            if (root, path) in seen:
                return
            seen.add((root, path))
            old = self.load(st, root, path)
            if old.tag in ('agg', 'clo', 'seq', 'with') and old.hasref:
                for x in old.a:
                    if isinstance(x, T):
                        self.havoc_mut(st, name, x, vals, seen)
            self.store(st, root, path, app(name, *vals))
        elif a.hasref:
            for x in a.a:
                if isinstance(x, T):
                    self.havoc_mut(st, name, x, vals, seen)

    def opaque_call(self, st, fr, name, args, loc, ev=True):
        vals = [self.norm(st, a) for a in args]
        r = app(name, *vals)
        if ev:
            self.event(st, 'call', name, r, *vals, loc=loc)
        self.havoc_muts(st, name, args, vals)
        return [(st, r)]

    def extern(self, st, fr, c, env, args, loc, bb, target=None):
        name = c.get('def')
        res = c.get('res') or name
        if name.startswith('core::panicking') or name.startswith('std::rt::begin_panic') or 'panicking::' in name or canon(name) in ('std::rt::panic_fmt',):
            self.panic(st, name, fr, args)
            return []
        if 'name' not in c:
            c['name'] = key2(name).split('::')[-1]
        call = Call(self, fr, c, env, loc, bb)
        if key2(name) in PARTIAL:
            self.site(st, 'partial:' + key2(name), [self.norm(st, a) for a in args], fr)
        for n in (key2(name), canon(name), key2(res)):
            m = self.models.get(n)
            if m:
                r = m(self, st, call, args)
                if r is not None:
                    return r
        self.unmodelled[key2(name)] = self.unmodelled.get(key2(name), 0) + 1
        sfx = ''
        if c.get('trait') and 'self' in c:
            sfx = '<%s>' % tstr(strip_refs(subst(self.F.ty(c['self']), env)))
        return self.default_extern(st, call, key2(name), args, sfx)

    def default_extern(self, st, call, name, args, sfx=''):
        fr, loc = call.fr, call.loc
        base = st.copy()
        vals = [self.norm(st, a) for a in args]
        r = app(name + sfx if name in SELF_NAMED else name, *vals)
        # code handed over: analysed once with unknown inputs
        for i, a in enumerate(args):
            for clo, path in self.code_in(st, a):
                self.run_escaped(base.copy(), fr, clo, loc, (call.bb, name, i, path), st)
        if name not in SILENT:
            self.event(st, 'call', name, r, *vals, loc=loc)
        self.havoc_muts(st, name, args, vals)
        return [(st, r)]

    def code_in(self, st, a):
        v = self.deref(st, a)
        out = []
        if v.tag == 'clo':
            out.append((a if a.tag == 'ref' else v, 0))
        elif v.tag == 'app' and v.a[0] in ('future', ):
            pass
        elif v.tag == 'agg':
            for i, x in enumerate(v.a[3:]):
                if x.tag == 'clo':
                    out.append((x, i))
        return out

    def run_escaped(self, st, fr, clo, loc, bb, main):
        f = self.deref(st, clo)
        if f.a[0] in self.stack:
            return
        n0 = len(self.panics)
        b = self.F.bodies.get(f.a[0])
        if b is None:
            return
        if f.a[1] == 'coroutine':
            outs = self.run_future(st, fr, f, loc, bb)
        else:
            syms = []
            for i in range(2, b.argc + 1):
                sy = s('arg%d:%s' % (i - 1, f.a[0]))
                t = self.F.ty(b.locals[i][0])
                syms.append(mk('ref', ('O', sy), (), True) if t[0] == 'ref' and t[1] else sy)
            outs = self.call_value(st, fr, clo, syms, loc, bb, 'esc')
        # what the handed-over code changes may change at any time from here on
        for s2, v in outs:
            for root, val in s2.mem.items():
                if root in main.mem and main.mem[root] is not val and root[0] != 'T':
                    main.mem[root] = app('changed_by', k(f.a[0]), main.mem[root], val)
                elif root[0] == 'O' and root not in main.mem:
                    main.mem[root] = app('changed_by', k(f.a[0]), root[1], val)
        for s2, v in outs:
            self.escapes.append((f.a[0], s2, v, loc))
            self.escenv.append((f, s2, ('L', self.getfid(fr.fid, bb, 'closureesc'), 'self') if clo.tag != 'ref' else (clo.a[0], clo.a[1]), loc))
            if v.tag == 'clo':
                self.run_escaped(s2.copy(), fr, v, loc, (bb, 'r'), s2.copy())


SELF_NAMED = {'Default::default', 'From::from', 'Into::into', 'FromStr::from_str', 'Deserialize::deserialize'}


class Call:
    __slots__ = ('I', 'fr', 'c', 'env', 'loc', 'bb')

    def __init__(self, I, fr, c, env, loc, bb):
        self.I, self.fr, self.c, self.env, self.loc, self.bb = I, fr, c, env, loc, bb

    def targ(self, i):
        ts = self.c.get('targs') or []
        return subst(self.I.F.ty(ts[i]), self.env) if i < len(ts) else None

    def selfty(self):
        return subst(self.I.F.ty(self.c['self']), self.env) if 'self' in self.c else self.targ(0)


def inter(a, b):
    return {x: y for x, y in a.items() if b.get(x) == y}


def merge(states, partkey=None):
    if len(states) < 2:
        return states
    seen = {}
    out = []
    for s in states:
        key = s.key() if partkey is None else (s.key(), partkey(s))
        o = seen.get(key)
        if o is None:
            seen[key] = s
            out.append(s)
        else:
            o.facts = inter(o.facts, s.facts)
    return out
