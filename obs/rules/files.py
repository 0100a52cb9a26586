"""Files: P15 (which file a request may name) and P16 (what is sent for a file)."""
import re
from ..base import *
from ..interp import Frame
from .config import config, entry_points
from .extract import Ctx
from .respond import resp_fields, strip_text
from .trie import trie, is_segments, facts_of

# calls that hand a path to the file system
FSCALL = re.compile(r'^(fs::\w+|File::(open|create|options)\w*|OpenOptions::open|DirBuilder::create|Path(Buf)?::(exists|try_exists|canonicalize|metadata|symlink_metadata|is_file|is_dir|is_symlink|read_dir|read_link))$')
READS = ('read', 'read_to_string', 'open')


def fs_events(I, st):
    return [e for e in all_events(I, st) if e.a[0] == 'call' and FSCALL.match(e.a[2].split('<')[0])]


def path_arg(e):
    """the value that names the file"""
    n = e.a[2].split('<')[0]
    return e.a[-1] if n.startswith('OpenOptions') else e.a[4]


# ------------------------------------------------------------------ the handlers of static routes
class Static:
    """What the handler installed by use_static or use_static_to does with a request"""

    def __init__(self, A, name):
        self.A, self.name, self.w = A, name, A.span(name)
        self.why = None
        self.outs = []
        C = config(A, name)
        I = self.I = C.I
        self.C = C
        strs = [p for p, t in zip(C.p, C.tys) if strip_refs(t) == ('str',)]
        self.dir = strs[-1] if strs else None
        self.virt = strs[0] if strs else None
        self.ctx = s('CTX')
        np = len(I.panics)
        for st in C.outs:
            es = C.entries(st)
            rs = [(E, e) for E, e in es or () if E.kind == 'route']
            if len(rs) != 1:
                self.why = 'it does not register one route'
                continue
            E, e = rs[0]
            route = C.by_role(E, e)['given']
            hs = []
            for f in A.F.adts[E.giventy[1]]['variants'][0][1]:
                h = I.deref(st, A.eta(proj(route, ('f', f[0]))))
                if h.tag in ('clo', 'fnv'):
                    hs.append((h, None))
                elif h.tag == 'agg':
                    hs += [(h, b) for b in handler_impl(A, h.a[0])]
            if len(hs) != 1:
                self.why = 'its handler is not a closure'
                continue
            fr = Frame(A.F.bodies[name], I.getfid(0, 0, name), {}, 0)
            s2 = st.copy()
            h, b = hs[0]
            if b is None:
                called = I.call_value(s2, fr, h, [self.ctx], self.w, 'static')
            else:
                root = ('L', I.getfid(fr.fid, 'static', 'handler'), 'self')
                s2.mem[root] = h
                called = I.inline(s2, fr, b, {}, [mk('ref', root, (), False), self.ctx], self.w, 'static')
            for s2, v in called:
                f = I.deref(s2, v)
                for s3, r in I.run_future(s2, fr, f, self.w, 'staticfut'):
                    self.outs.append((s3, A.eta(I.norm(s3, r))))
        self.panics = I.panics[np:]


def handler_impl(A, ty):
    """what a type of the crate does as a handler"""
    return [b for _, b in A.impl('Handler', 'call', lambda t: t[0] == 'adt' and t[1] == ty)]


def statics(A):
    r = A.cache.get('statics')
    if r is None:
        r = []
        for m in ('use_static', 'use_static_to'):
            n = A.method('Router', m)
            if n is None:
                A.und('Router::%s' % m, '', 'not found')
            else:
                r.append(Static(A, n))
        A.cache['statics'] = r
    return r


# ------------------------------------------------------------------ P15
def requests(S, names):
    """the ways a request for each of these names below the virtual path can look to the handler"""
    for x in names:
        for virt, d in (('v', 'd'), ('V/w', 'D/e'), ('/v/', '/d.x/')) if S.virt is not S.dir else (('v', 'v'), ('V/w', 'V/w'), ('/v.x/', '/v.x/')):
            for q in ('', '?q=1'):
                yield x, d.strip('/'), {S.virt: virt, S.dir: d}, '/%s/%s' % (virt.strip('/'), x), q


def imagine(S, G, st, t, names, skip=()):
    """what a text of the handler is on this path for requests of these names: yields (name, directory, value), or (name, directory, None)
    for a request of which cannot be told whether it takes this path or what the text is; requests that do not take it are left out"""
    A = S.A
    paths = []
    for f in list(st.facts) + ([t] if t is not None else []):
        for x in subterms(f):
            if x.tag == 'app' and x.a[0] in ('Uri::path', 'disp', 'Uri::path_and_query') and mentions(x, S.ctx) and x not in paths:
                paths.append(x)
    loose = any(x.tag in ('lv', 'undef') or unknown(x) for f in st.facts for x in subterms(f) if not G.tainted(f))
    fs = []
    known = []
    for f in G.facts(st):
        if not G.tainted(f):
            if mentions(f, S.dir) or mentions(f, S.virt):
                known.append(f)
            continue
        if any(x.tag == 'app' and FSCALL.match(x.a[0].split('<')[0]) for x in subterms(f)):
            if any(x.tag == 'app' and 'canonicalize' in x.a[0] for x in subterms(f)):
                loose = True
            elif not (f.tag == 'app' and f.a[0] == 'is_variant' and f.a[2] in ('Ok', 'Err')):
                loose = True
            continue
        fs.append(f)
    walked = list({x for f in fs for x in subterms(f) if x.tag == 'lv'})
    for x, d, env, path, query in requests(S, names):
        env = dict(env)
        for y in paths:
            env[y] = path + ('' if y.a[0] == 'Uri::path' else query)
        got = True
        for f in known + fs:
            try:
                if not ev(f, env):
                    got = False
                    break
            except (Unknown, TypeError, AttributeError, IndexError):
                if f not in known:
                    got = None
        if got is None and len(walked) == 1 and not any(passes(known + fs, {**env, walked[0]: i}) for i in range(len(path) + 1)):
            got = False     # at no position of the walk
        if got is False:
            continue
        if got is None or loose:
            yield x, d, None
            continue
        try:
            r = ev(t, env) if t is not None else ''
        except (Unknown, TypeError, AttributeError, IndexError):
            r = None
        yield x, d, r if isinstance(r, str) else None


def passes(fs, env):
    """none of some conditions is known to fail"""
    for f in fs:
        try:
            if not ev(f, env):
                return False
        except (Unknown, TypeError, AttributeError, IndexError):
            pass
    return True


class Unknown(Exception):
    pass


def comps(x):
    """path components as the standard library defines them"""
    out = [('RootDir', '/')] if x.startswith('/') else []
    for i, p in enumerate(x.split('/')):
        if p == '..':
            out.append(('ParentDir', p))
        elif p == '.':
            if i == 0:
                out.append(('CurDir', p))
        elif p:
            out.append(('Normal', p))
    return out


def ev(t, env):
    """value of a term built from known text functions for known values of its variables"""
    if t in env:
        return env[t]
    if t.tag == 'k':
        return t.a[0]
    if t.tag == 'str':
        return ''.join(ev(x, env) for x in t.a)
    if t.tag == 'seq':
        return elems(t, env)
    if t.tag == 'agg' and t.a[0].endswith('Component'):
        return (t.a[1], ev(t.a[3], env) if len(t.a) > 3 else {'ParentDir': '..', 'CurDir': '.', 'RootDir': '/'}.get(t.a[1]))
    if t.tag == 'fld' and t.a[0].tag == 'as':
        x = ev(t.a[0].a[0], env)
        if isinstance(x, tuple) and x[0] == t.a[0].a[1]:
            return x[1]
        raise Unknown
    if t.tag != 'app':
        raise Unknown
    n, a = t.a[0], t.a[1:]
    m = n.split('<')[0].split('::')[-1]
    if n == 'not':
        return not ev(a[0], env)
    if n in ('and', 'or'):
        stop = n == 'or'
        un = False
        for x in a:
            try:
                if bool(ev(x, env)) is stop:
                    return stop
            except Unknown:
                un = True
        if un:
            raise Unknown
        return not stop
    if n == 'choice':
        for x in a:
            if x.tag == 'agg' and len(x.a) == 5 and ev(x.a[3], env):
                return ev(x.a[4], env)
        raise Unknown
    if n == 'eq':
        return ev(a[0], env) == ev(a[1], env)
    if n in ('add', 'sub', 'lt', 'le') and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unknown
        return x + y if n == 'add' else x < y if n == 'lt' else x <= y if n == 'le' else x - y if x >= y else unk()
    if n == 'is_variant':
        x = ev(a[0], env)
        if x is None or isinstance(x, tuple):
            return (x[0] if isinstance(x, tuple) else 'None') == a[1] or (a[1] == 'Some' and isinstance(x, tuple) and x[0] not in ('None', 'Some') and False)
        raise Unknown
    if n == 'is_empty':
        try:
            return len(elems(a[0], env)) == 0
        except Unknown:
            return len(ev(a[0], env)) == 0
    if n == 'join' and len(a) == 2 or m == 'concat' and len(a) == 1:
        xs = elems(a[0], env)
        sep = ev(a[1], env) if n == 'join' else ''
        if not isinstance(sep, str) or not all(isinstance(x, str) for x in xs):
            raise Unknown
        return sep.join(xs)
    if n in ('Path::join', 'PathBuf::join', 'pjoin', 'PathBuf::push') and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if not isinstance(x, str) or not isinstance(y, str):
            raise Unknown
        return y if y.startswith('/') else x + y if x.endswith('/') or not x else x + '/' + y
    if n in ('PathBuf::new', 'String::new') and not a:
        return ''
    if n == 'all':
        src, h, b = a
        un = False
        for x in elems(src, env):
            try:
                if not ev(b, {**env, h: x}):
                    return False
            except Unknown:
                un = True
        if un:
            raise Unknown
        return True
    if m == 'contains':
        return ev(a[1], env) in ev(a[0], env)
    if m == 'starts_with':
        return ev(a[0], env).startswith(ev(a[1], env))
    if m == 'ends_with':
        return ev(a[0], env).endswith(ev(a[1], env))
    if m in ('to_lowercase', 'to_ascii_lowercase'):
        return ev(a[0], env).lower()
    if m in ('to_uppercase', 'to_ascii_uppercase'):
        return ev(a[0], env).upper()
    if m == 'replace' and len(a) == 3:
        return ev(a[0], env).replace(ev(a[1], env), ev(a[2], env))
    if m == 'trim':
        return ev(a[0], env).strip()
    if m == 'trim_matches':
        return ev(a[0], env).strip(ev(a[1], env))
    if m == 'trim_start_matches':
        return ev(a[0], env).lstrip(ev(a[1], env)) if len(ev(a[1], env)) == 1 else unk()
    if m == 'trim_end_matches':
        return ev(a[0], env).rstrip(ev(a[1], env)) if len(ev(a[1], env)) == 1 else unk()
    if m == 'len':
        try:
            return len(elems(a[0], env))
        except Unknown:
            return len(ev(a[0], env))
    if n in ('elem', 'at'):
        xs = elems(a[0], env)
        i = len(xs) - 1 if a[1].tag == 'app' and a[1].a[0] == 'last' and len(a[1].a) == 1 else ev(a[1], env)
        if not isinstance(i, int) or i < 0:
            raise Unknown
        if n == 'at':
            return ('Some', xs[i]) if i < len(xs) else None
        if i >= len(xs):
            raise Unknown
        return xs[i]
    if m in ('file_name',):
        cs = comps(ev(a[0], env))
        return ('Some', cs[-1][1]) if cs and cs[-1][0] == 'Normal' else None
    if m in ('is_absolute', 'has_root'):
        return ev(a[0], env).startswith('/')
    if m == 'is_relative':
        return not ev(a[0], env).startswith('/')
    raise Unknown


def unk():
    raise Unknown


def elems(src, env):
    if src in env:
        x = env[src]
        if isinstance(x, list):
            return x
        raise Unknown
    if src.tag == 'seq':
        out = []
        for p in src.a:
            if p.tag == 'one':
                out.append(ev(p.a[0], env))
            elif p.tag == 'all':
                out += elems(p.a[0], env)
            else:
                raise Unknown
        return out
    if src.tag == 'app':
        n, a = src.a[0].split('#')[0].split('<')[0], src.a[1:]
        if n in ('collect', 'from', 'peekable', 'fuse', 'iter') and len(a) == 1:
            return elems(a[0], env)
        if n == 'chain' and len(a) == 2:
            return elems(a[0], env) + elems(a[1], env)
        if n == 'components':
            return comps(ev(a[0], env))
        if n == 'split':
            return ev(a[0], env).split(ev(a[1], env))
        if n == 'chars':
            return list(ev(a[0], env))
        if n == 'filter':
            return [x for x in elems(a[0], env) if ev(a[2], {**env, a[1]: x})]
        if n == 'map':
            return [ev(a[2], {**env, a[1]: x}) for x in elems(a[0], env)]
        if n == 'rev':
            return elems(a[0], env)[::-1]
        if n == 'sub' and len(a) == 3 and isinstance(a[1], int) and isinstance(a[2], int):
            xs = elems(a[0], env)
            return xs[a[1]:len(xs) - a[2]]
        if n in ('skip', 'take'):
            i = ev(a[1], env)
            if not isinstance(i, int) or i < 0:
                raise Unknown
            return elems(a[0], env)[i:] if n == 'skip' else elems(a[0], env)[:i]
        if n in ('skip_while', 'take_while') and len(a) == 3:
            xs = elems(a[0], env)
            i = 0
            while i < len(xs) and ev(a[2], {**env, a[1]: xs[i]}):
                i += 1
            return xs[i:] if n == 'skip_while' else xs[:i]
    raise Unknown


# texts a client can put where a text of the request is used: any, and within one segment
SEGMENT = ['..', '%2e%2e', '%2E%2E', '.%2e', '.%2E', '..%2f..%2f..', '..%2F..%2F..', '%2e%2e%2f', '%2fetc', '%2Fetc', '...', '....', '..%20', '%20..', '. .', '..+', '.%00.', '..;', '..\\']
ANY = SEGMENT + ['/etc', '../x', 'x/..', 'x/../../y', '/..', '..//', './..', '/x/..', '/x/../y', '/../x', '//..//x', '/x/.../../..']


def leaves(x):
    """does a text leave the directory it is appended to, or mention its parent"""
    return any(c[0] in ('ParentDir', 'RootDir') for c in comps(x))


KEEP = ('filter', 'skip', 'take', 'rev', 'skip_while', 'take_while', 'step_by', 'sub', 'range', 'later', 'chain', 'from', 'peekable', 'enumerate', 'fuse')


def under(t):
    """sources a collection of texts is a selection of, with the conditions selected by, outermost first: [(source, hole, condition)]"""
    out = []
    while t.tag == 'app' and t.a[0] in KEEP and len(t.a) > 1 and isinstance(t.a[1], T):
        if t.a[0] == 'filter':
            out.append((t, t.a[2], t.a[3]))
        else:
            out.append((t, None, None))
        t = t.a[1]
    out.append((t, None, None))
    return out


class Both:
    """Facts of a round of a loop together with those known after it that are not about a round"""

    def __init__(self, b, st, loop, I):
        mine = {v for v, i in I.lvs.items() if i['loop'] == loop}
        self.after = st
        self.I = I
        self.facts = Pairs(list(b.facts.items()) + [(f, r) for f, r in st.facts.items() if not any(x in mine for x in subterms(f))])


class Pairs:
    def __init__(self, ps):
        self.ps = ps

    def items(self):
        return self.ps


class Guard:
    """Everything known, on one path, about the texts that end up in a file name"""

    def __init__(self, A, I, ctx):
        self.A, self.I, self.ctx = A, I, ctx

    def tainted(self, t):
        return any(x is self.ctx for x in deep(self.I, t))

    def parts(self, t, st, depth=0):
        """[(kind, term, state)] a path is put together from, in order; None if it cannot be told"""
        A, I = self.A, self.I
        t = strip_text(A.eta(t))
        if depth > 12:
            return None
        if t.tag == 'k':
            return [('one', t, st)]
        if t.tag == 'str':
            out = []
            for x in t.a:
                p = self.parts(x, st, depth + 1)
                if p is None:
                    return None
                out += p
            return out
        if t.tag == 'seq':
            out = []
            for p in t.a:
                if p.tag == 'one':
                    q = self.parts(p.a[0], st, depth + 1)
                elif p.tag == 'all':
                    q = self.collection(p.a[0], st, depth + 1)
                elif p.tag == 'rep':
                    q = self.repeated(p, st, depth + 1)
                else:
                    q = None
                if q is None:
                    return None
                out += q
            return out
        if t.tag == 'rep':
            return self.repeated(t, st, depth + 1)
        if t.tag == 'fld' and t.a[1] == '0' and t.a[0].tag == 'as' and t.a[0].a[0].tag == 'app' and t.a[0].a[0].a[0] in ('Path::to_str', 'PathBuf::to_str', 'OsStr::to_str', 'PathBuf::into_os_string', 'OsString::into_string'):
            return self.parts(t.a[0].a[0].a[1], st, depth + 1)
        if t.tag == 'app':
            n = t.a[0].split('#')[0].split('<')[0]
            m = n.split('::')[-1]
            if n == 'join' and len(t.a) == 3:
                sep = t.a[2]
                if sep.tag == 'k' and sep.a[0] in ('/',):
                    return self.collection(t.a[1], st, depth + 1)
                return None
            if n in ('Path::join', 'PathBuf::join', 'PathBuf::push', 'pjoin') and len(t.a) == 3:
                a, b = self.parts(t.a[1], st, depth + 1), self.parts(t.a[2], st, depth + 1)
                return None if a is None or b is None else a + b
            if m in ('concat',) and len(t.a) == 2:
                return self.collection(t.a[1], st, depth + 1)
            if m in ('collect',) and len(t.a) == 2:
                return self.collection(t.a[1], st, depth + 1)
            if m in ('components', 'iter', 'as_path', 'as_os_str', 'to_string_lossy', 'display', 'to_path_buf', 'into_os_string') and len(t.a) == 2:
                return self.parts(t.a[1], st, depth + 1)
        if t.tag == 'lv':
            return self.loop(t, st, depth + 1)
        if t.tag == 'app' and len(t.a) == 1 and t.a[0].split('<')[0] in ('PathBuf::new', 'OsString::new', 'String::new'):
            return []
        src = t.a[1] if t.tag == 'app' and t.a[0] == 'elem' else \
            t.a[0].a[0].a[1] if t.tag == 'fld' and t.a[1] == '0' and t.a[0].tag == 'as' and t.a[0].a[0].tag == 'app' and t.a[0].a[0].a[0] == 'at' else None
        if src is not None and src.tag == 'seq':
            # any of several collections, under what is known of this element
            h = s('each%d' % depth)
            c = [subst(f, t, h) for f in self.facts(st) if mentions(f, t)]
            out = []
            for p in src.a:
                if p.tag == 'all':
                    q = self.collection(app('filter', p.a[0], h, app('and', *c) if len(c) > 1 else c[0]) if c else p.a[0], st, depth + 1)
                elif p.tag == 'one':
                    q = self.parts(p.a[0], st, depth + 1)
                else:
                    q = self.repeated(p, st, depth + 1)
                if q is None:
                    return None
                out += q
            return out
        return [('one', t, st)]

    def collection(self, t, st, depth):
        t = self.A.eta(t)
        if t.tag == 'seq':
            return self.parts(t, st, depth)
        if t.tag == 'lv':
            return self.loop(t, st, depth)
        if t.tag == 'app' and t.a[0] == 'chain' and len(t.a) == 3:
            a, b = self.collection(t.a[1], st, depth), self.collection(t.a[2], st, depth)
            return None if a is None or b is None else a + b
        return [('all', t, st)]

    def loop(self, t, st, depth):
        I, A = self.I, self.A
        info = I.lvs.get(t)
        if info is None or info['loop'] not in I.iters:
            return None
        W, backs, S0 = I.iters[info['loop']]
        root, path = info['at']
        was = A.eta(I.norm(W, I.load(W, root, path)))
        out = self.parts(info['init'], st, depth + 1)
        if out is None:
            return None
        for b in backs:
            now = A.eta(I.norm(b, I.load(b, root, path)))
            if now is was:
                continue
            q = self.grown(now, was, Both(b, st, info['loop'], I), depth)
            if q is None:
                return None
            out = out + q
        return out

    def repeated(self, rep, st, depth):
        """parts added by the rounds of a loop"""
        I, A = self.I, self.A
        info = I.lvs.get(rep)
        if info is None or info['loop'] not in I.iters or depth > 12:
            return None
        W, backs, S0 = I.iters[info['loop']]
        root, path = info['at']
        was = A.eta(I.norm(W, I.load(W, root, path)))
        old = list(was.a if was.tag in ('seq', 'str') else [was])
        out = []
        for b in backs:
            now = A.eta(I.norm(b, I.load(b, root, path)))
            new = list(now.a if now.tag in ('seq', 'str') else [now])
            for p in new:
                if p in old:
                    continue
                q = self.parts(mk('seq', p) if p.tag in ('one', 'all') else p, Both(b, st, info['loop'], I), depth + 1)
                if q is None:
                    return None
                out += q
        return out

    def grown(self, now, was, st, depth):
        """parts added to a path or list"""
        if now is was:
            return []
        if now.tag == 'seq' and now.a and (now.a[0].tag == 'all' and now.a[0].a[0] is was):
            return self.parts(mk('seq', *now.a[1:]), st, depth + 1)
        if now.tag == 'str' and now.a and now.a[0] is was:
            return self.parts(mk('str', *now.a[1:]), st, depth + 1)
        if now.tag == 'app' and len(now.a) == 3 and now.a[0].split('#')[0] in ('Path::join', 'PathBuf::push', 'pjoin'):
            a = self.grown(now.a[1], was, st, depth + 1)
            b = self.parts(now.a[2], st, depth + 1)
            return None if a is None or b is None else a + b
        return None

    # ---- what is known
    def facts(self, st):
        out = []
        for f, r in st.facts.items():
            if isinstance(r, bool):
                out.append(self.A.eta(f) if r else not_(self.A.eta(f)))
            elif f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[2].tag == 'lv':
                pass    # the end of a loop over a collection
            elif f.tag == 'disc' and r[0] == 'is':
                out.append(app('is_variant', self.A.eta(f.a[0]), r[1]))
        work = list(out)
        flat = []
        while work:
            c = work.pop()
            if c.tag == 'app' and c.a[0] == 'and':
                work += list(c.a[1:])
            elif c.tag == 'app' and c.a[0] == 'not' and c.a[1].tag == 'app' and c.a[1].a[0] == 'or':
                work += [not_(x) for x in c.a[1].a[1:]]
            else:
                if c.tag == 'app' and c.a[0] == 'not' and c.a[1].tag == 'app' and c.a[1].a[0] == 'has' and len(c.a[1].a) == 3:
                    h = s('each')
                    c = app('all', c.a[1].a[1], h, not_(app('eq', h, c.a[1].a[2])))
                if c.tag == 'app' and c.a[0] == 'all' and len(c.a) == 4:
                    # whether it holds for all of them does not depend on their order
                    x = c.a[1]
                    while x.tag == 'app' and x.a[0] in ('rev', 'peekable', 'fuse') and len(x.a) == 2:
                        x = x.a[1]
                    c = app('all', x, c.a[2], c.a[3])
                flat.append(c)
        return flat

    def safe(self, kind, t, st):
        """(True/False/None, a text that gets through) that a part never leaves the directory"""
        if not self.tainted(t):
            if t.tag == 'k' and isinstance(t.a[0], str):
                return (False if any(c[0] == 'ParentDir' for c in comps(t.a[0])) else True), t.a[0]
            return True, ''
        A = self.A
        facts = self.facts(st)
        hole = s('hole!')
        # what the text is taken from, innermost last, and what is asked of it on the way
        if kind == 'all':
            srcs = under(t)
        else:
            srcs = None
            if t.tag == 'app' and t.a[0] == 'elem':
                srcs = under(t.a[1])
            elif t.tag == 'fld' and t.a[1] == '0' and t.a[0].tag == 'as' and t.a[0].a[0].tag == 'app' and t.a[0].a[0].a[0] == 'at':
                srcs = under(t.a[0].a[0].a[1])
        conds = []      # conditions on the raw text, each false for a text that is turned away
        used = []
        use = hole      # the text used, made from the raw text
        loops = []
        sources = set()
        if kind == 'one':
            for f in facts:
                if mentions(f, t) and not any(x.tag == 'app' and FSCALL.match(x.a[0].split('<')[0]) for x in subterms(f)):
                    conds.append(subst(f, t, hole))
                    used.append(f)
        while srcs:
            for src, h, c in srcs:
                sources.add(src)
                if h is not None:
                    conds.append(subst(c, h, hole))
                for f in facts:
                    if f.tag == 'app' and f.a[0] == 'all':
                        if f.a[1] is src:
                            conds.append(subst(f.a[3], f.a[2], hole))
                            used.append(f)
                        elif f.a[1].tag == 'app' and f.a[1].a[0] == 'map' and f.a[1].a[1] is src:
                            conds.append(subst(f.a[3], f.a[2], subst(f.a[1].a[3], f.a[1].a[2], hole)))
                            used.append(f)
                    x = lacks(f)
                    if x is not None and x[0].tag == 'app' and x[0].a[0] == 'join' and x[0].a[1] is src:
                        # nowhere in all of them put together
                        conds.append(not_(app('str::contains', hole, k(x[1]))))
                        used.append(f)
                loops += self.scans(src, st, hole)
            base = srcs[-1][0]
            if base.tag == 'app' and base.a[0] == 'map' and len(base.a) == 4:
                # what was said so far is about the image
                pre = subst(base.a[3], base.a[2], hole)
                conds = [subst(c, hole, pre) for c in conds]
                use = subst(use, hole, pre)
                loops = []
                srcs = under(base.a[1])
                continue
            break
        raw = ANY
        vague = False
        if srcs:
            base = srcs[-1][0]
            if base.tag == 'app' and base.a[0] == 'split' and len(base.a) == 3 and base.a[2].tag == 'k' and base.a[2].a[0] == '/':
                raw = SEGMENT
                whole = base.a[1]
                for f in facts:
                    x = lacks(f)
                    if x is not None and cut_from(whole, x[0]):
                        conds.append(not_(app('str::contains', mkstr([k('/'), hole]), k(x[1]))))
                        used.append(f)
                sources.add(whole)
            elif base.tag == 'app' and base.a[0] == 'components':
                raw = SEGMENT
            else:
                vague = base.tag in UNKNOWN or base.tag == 'app' and base.a[0] == 'stage'
        else:
            vague = t.tag in UNKNOWN
            for f in facts:
                x = lacks(f)
                if x is not None and x[0] is not t and cut_from(t, x[0]):
                    conds.append(not_(app('str::contains', hole, k(x[1]))))
                    used.append(f)
            sources.add(t)
        # questions asked that are not understood
        for f in facts:
            if f not in used and any(x in sources for x in subterms(f)):
                g = f
                for x in sorted(sources, key=lambda x: -len(set(subterms(x)))):
                    g = subst(g, x, hole)
                if g is is_empty(hole) or g is not_(is_empty(hole)):
                    continue
                if any(x.tag == 'app' and x.a[0] not in PLAIN for x in subterms(g)) and not any(x.tag == 'app' and FSCALL.match(x.a[0].split('<')[0]) for x in subterms(g)):
                    vague = True
        got = None
        und = False
        for x in raw:
            env = {hole: x}
            try:
                u = ev(use, env)
                if not isinstance(u, str):
                    raise Unknown
                bad = leaves(u)
            except Unknown:
                # an unknown function of the text can make anything of it
                bad = True
            if not bad:
                continue
            stop, open_ = False, False
            for c in conds:
                try:
                    if not ev(c, env):
                        stop = True
                        break
                except Unknown:
                    if mentions(c, hole):
                        open_ = True
            for L in loops:
                if stop:
                    break
                r = L(env)
                stop = r is True
                open_ = open_ or r is None
            if stop:
                continue
            if open_:
                und = True
            elif got is None:
                got = x
        if got is not None:
            return (None if vague else False), got
        return (None if und or vague else True), ''

    def inner(self, b, elem, hole, env, L):
        """(is a text turned away, or may it be) by a loop over its pieces within a round"""
        op = False
        h2 = s('inner!')
        for f, r in b.facts.items():
            if not (f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at'):
                continue
            src = self.A.eta(f.a[0].a[1])
            if not mentions(src, elem) or src is elem:
                continue
            gs = self.scans(src, b, h2)
            if not gs:
                op = True
                continue
            try:
                items = list(elems(subst(src, elem, hole), env))
            except Unknown:
                op = True
                continue
            for g in gs:
                for x in items:
                    t = g({h2: x})
                    if t is True:
                        return True, op
                    op = op or t is None
        return False, op

    def scans(self, src, st, hole):
        """loops over all of a source that have ended: each tells whether a text among it would have been turned away"""
        A, I = self.A, self.I
        out = []
        fs = list(st.facts.items()) + (list(st.after.facts.items()) if isinstance(st, Both) else [])
        ended = any(f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and A.eta(f.a[0].a[1]) is src for f, r in fs)
        if not ended:
            return out
        for L, (W, backs, S0) in I.iters.items():
            its = [v for r, v in W.mem.items() if v.tag == 'iter' and A.eta(v.a[0]) is src and v.a[1].tag == 'lv' and v.a[1] in I.lvs and I.lvs[v.a[1]]['loop'] == L]
            if not its or not backs:
                continue
            pos = its[0].a[1]
            elem = app('elem', src, pos)
            # flags the path depends on
            flags = []
            for f, r in fs:
                if f.tag == 'lv' and isinstance(r, bool) and f in I.lvs and I.lvs[f]['loop'] == L:
                    root, path = I.lvs[f]['at']
                    vals = [A.eta(I.norm(b, I.load(b, root, path))) for b in backs]
                    was = A.eta(I.norm(W, I.load(W, root, path)))
                    other = k(not r)
                    if all(v is was or v is other for v in vals):
                        flags.append([v is other for v in vals])

            def f(env, backs=backs, flags=flags, elem=elem):
                res = True
                for i, b in enumerate(backs):
                    if any(fl[i] for fl in flags):
                        continue
                    stop, op = False, False
                    for c in self.facts(b):
                        if not mentions(c, elem):
                            continue
                        try:
                            if not ev(subst(c, elem, hole), env):
                                stop = True
                                break
                        except Unknown:
                            op = True
                    if not stop:
                        stop, o2 = self.inner(b, elem, hole, env, L)
                        op = op or o2
                    if not stop:
                        if op:
                            res = None
                        else:
                            return False
                return res
            out.append(f)
        return out


PLAIN = ('eq', 'not', 'and', 'or', 'elem', 'at', 'len', 'is_empty', 'all', 'split', 'filter', 'map', 'skip', 'take', 'is_variant', 'lt', 'le', 'str::contains', 'str::starts_with', 'str::ends_with', 'chars', 'components',
         'join', 'Uri::path', 'await', 'add', 'sub', 'range', 'end', 'rev', 'from<hyper::Body>')


def lacks(f):
    """(text, what it does not contain) if a fact says so"""
    if f.tag == 'app' and f.a[0] == 'not' and f.a[1].tag == 'app' and f.a[1].a[0] == 'str::contains' and f.a[1].a[2].tag == 'k' and isinstance(f.a[1].a[2].a[0], str):
        return f.a[1].a[1], f.a[1].a[2].a[0]
    return None


def cut_from(t, whole):
    """is a text a piece of another, as it stands there"""
    n = 0
    while t is not whole and n < 20:
        n += 1
        if t.tag == 'app' and len(t.a) > 1 and isinstance(t.a[1], T) and t.a[0].split('::')[-1] in ('sub', 'range', 'trim', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'trim_start', 'trim_end', 'split_at'):
            t = t.a[1]
        elif t.tag == 'fld' and t.a[0].tag == 'as' and t.a[0].a[0].tag == 'app' and t.a[0].a[0].a[0].split('::')[-1] in ('strip_prefix', 'strip_suffix', 'get', 'at', 'elem'):
            t = t.a[0].a[0].a[1]
        elif t.tag == 'app' and t.a[0] in ('elem', 'split', 'at', 'filter', 'skip', 'take'):
            t = t.a[1]
        else:
            return False
    return t is whole


def subst(t, a, b):
    from ..terms import rebuild
    memo = {}

    def tr(x):
        if x is a:
            return b
        if not isinstance(x, T):
            return tuple(tr(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            ys = tuple(tr(y) for y in x.a)
            r = x if all(p is q for p, q in zip(ys, x.a)) else rebuild(x.tag, ys)
            memo[x] = r
        return r
    return tr(t)


def canonical(G, st, p):
    """the path was resolved and found to be below the directory"""
    for f in G.facts(st):
        if f.tag == 'app' and f.a[0].split('<')[0] in ('Path::starts_with', 'PathBuf::starts_with') and any(x.tag == 'app' and x.a[0].split('<')[0].endswith('canonicalize') for x in subterms(f.a[1])):
            return True
    return False


def whole_dir(t, d):
    """the configured directory, all of it"""
    t = strip_text(t)
    if t is d:
        return True
    if t.tag == 'app' and t.a[0].split('::')[-1] in ('trim_matches', 'trim_end_matches', 'trim_start_matches') and t.a[1] is d:
        return True if t.a[2].tag == 'k' and t.a[2].a[0] == '/' else None if t.a[2].tag == 'k' and t.a[2].a[0] == './' else False
    if t.tag == 'fld' and mentions(t, d) and any(x.tag == 'app' and x.a[0].endswith('strip_prefix') and x.a[2].tag == 'k' and x.a[2].a[0] == '/' for x in subterms(t)):
        return True
    if t.tag == 'app' and t.a[0] == 'filter':
        c = t.a[3]
        h = t.a[2]
        try:
            if not all(ev(c, {h: x}) for x in ('a', '..', 'b.c', '%2e', ' ', '~')):
                return False
            return whole_dir(t.a[1], d)
        except Unknown:
            return None
    if t.tag == 'app' and t.a[0] == 'split' and t.a[2].tag == 'k' and t.a[2].a[0] == '/':
        return t.a[1] is d or (None if unknown(t.a[1]) else False)
    if t.tag == 'app' and t.a[0] == 'map':
        return whole_dir(t.a[1], d) if strip_text(t.a[3]) is t.a[2] else None
    if t.tag == 'app' and t.a[0] == 'components':
        return t.a[1] is d
    return None if unknown(t) else False


def P15(A):
    for S in statics(A):
        short = 'Router::' + S.name.split('::')[-1]
        if S.why or not S.outs:
            A.und('the handler of %s' % short, S.w, S.why or 'no outcome')
            continue
        G = Guard(A, S.I, S.ctx)
        n = 0
        for st, v in S.outs:
            for e in fs_events(S.I, st):
                n += 1
                one_access(A, S, G, st, e, short)
        if not n:
            A.und('%s reads files' % short, S.w, 'no access to the file system found')
        else:
            A.ok('file system accesses of %s: %d' % (short, n), S.w)


def one_access(A, S, G, st, e, short):
    w = e.a[1]
    p = A.eta(path_arg(e))
    if canonical(G, st, p):
        A.ok('%s resolves the path and finds it below its directory' % short, w)
        return
    what = '%s reads only below its directory' % short
    ps = G.parts(p, st)
    if ps is None:
        fs = [f for f in G.facts(st) if G.tainted(f)]
        if G.tainted(p) and not fs and not any(x.tag == 'lv' for x in deep(S.I, p)):
            A.bad(what, w, 'no part of the request path is looked at before it is used')
        else:
            A.und(what, w, show(p)[:200])
        return
    ps = [q for q in ps if not (q[1].tag == 'k' and isinstance(q[1].a[0], str) and q[1].a[0].strip('/.') == '' and '..' not in q[1].a[0])]
    if not ps:
        A.check(True if p.tag == 'k' and p.a[0] == '' else False, what, w, 'the path is %s whatever is asked for' % show(p)[:100])
        return
    k0, d, _ = ps[0]
    first = whole_dir(d, S.dir)
    named = not first and any(r is True and f.tag == 'app' and f.a[0] == 'is_empty' and whole_dir(unjoined(f.a[1]), S.dir) is True for f, r in st.facts.items())
    A.check(True if named else first, '%s starts from its directory' % short, w, 'the path starts with %s' % show(d)[:150])
    for kind, t, s2 in ps[1:] if first else ps:
        r, text = G.safe(kind, t, s2)
        if r is None:
            r, text = outside(A, S, G, st, p, text)
        A.check(r, what, w, 'a path with %r gets through in %s' % (text, show(t)[:150]))


def unjoined(t):
    return t.a[1] if t.tag == 'app' and t.a[0] == 'join' and t.a[2].tag == 'k' and t.a[2].a[0] == '/' else t


def outside(A, S, G, st, p, text):
    """(False, name) if a request is sure to be answered from outside the directory, else (None, text)"""
    names = ['..', '../x', 'x/..', 'x/../../../y', 'x/../..', 'x/y/../../../z', '../../../z', 'x/../../y/z']
    for x, d, r in imagine(S, G, st, p, names):
        if r is not None and '..' in r.split('/'):
            return False, x
    return None, text


# ------------------------------------------------------------------ P16
LOSSYREAD = ('read_to_string',)


def content_of(A, I, st, body):
    """(True/False/None, the reading) that a body is all of what was read from a file"""
    x = strip_text(A.eta(body))
    if x.tag == 'fld' and x.a[1] == '0' and x.a[0].tag == 'as' and x.a[0].a[1] == 'Ok':
        r = x.a[0].a[0]
        c = r.a[1] if r.tag == 'app' and r.a[0] == 'await' else r
        if c.tag == 'app' and FSCALL.match(c.a[0].split('<')[0]):
            m = c.a[0].split('<')[0].split('::')[-1]
            return (True if m == 'read' else False if m in LOSSYREAD else None), c
    for y in subterms(x):
        if y.tag == 'app' and FSCALL.match(y.a[0].split('<')[0]):
            return (None if unknown(x) or y.a[0].split('::')[-1] != 'read' and y.a[0].split('::')[-1] not in LOSSYREAD else False), y
    return None if unknown(x) else False, None


def reading(A, I, st):
    """[(event, variant of its outcome)] for each time content is read on this path"""
    out = []
    for e in fs_events(I, st):
        if e.a[2].split('<')[0].split('::')[-1] not in READS:
            continue
        v = A.variant(st, app('await', e.a[3])) or A.variant(st, e.a[3])
        out.append((e, v))
    return out


def sent(A, I, st, body, status, initial, who, w):
    """one outcome of something that sends a file"""
    rs = reading(A, I, st)
    oks = [e for e, v in rs if v == 'Ok']
    good, c = content_of(A, I, st, body)
    is404 = is_status(status, 'NOT_FOUND')
    if oks:
        if is404:
            # another reason not to send it
            A.check(None if good is None else True, '%s sends what it read' % who, w, '')
            return 'ok'
        if good is False and body.tag == 'app' and body.a[0] == 'emptybody' and any(
                r is True and f.tag == 'app' and f.a[0] == 'is_empty' and content_of(A, I, st, f.a[1])[0] is True for f, r in st.facts.items()):
            good = True
        A.check(good, '%s sends the file byte for byte' % who, w, 'it sends %s' % show(body)[:250])
        A.check(True if status is initial or is_status(status, 'OK') and initial is None else (None if unknown(status) else False),
                '%s leaves the status of a file it could read' % who, w, 'the status becomes %s' % show(status)[:100])
        return 'ok'
    und = [e for e, v in rs if v is None]
    if und:
        A.check(None if unknown(status) or good is not False else (True if is404 else None), '%s answers 404 if the file cannot be read' % who, w, 'the outcome of %s is not looked at' % und[0].a[2])
        return 'und'
    A.check(True if is404 else (None if unknown(status) else False), '%s answers 404 if the file cannot be read' % who, w, 'the status is %s, with %s' % (
        show(status)[:80], '; '.join('%s %s' % (show(f)[:90], r) for f, r in st.facts.items())[-300:]))
    return 'err'


def P16(A):
    rf = resp_fields(A)
    cx = Ctx(A)
    if rf is None or not cx.ok:
        A.und('Response', '', 'its parts are not a body, a status and headers')
        return
    fb, fs, fh = rf
    for S in statics(A):
        short = 'Router::' + S.name.split('::')[-1]
        if S.why or not S.outs:
            A.und('the handler of %s' % short, S.w, S.why or 'no outcome')
            continue
        kinds = set()
        for st, v in S.outs:
            var = A.variant(st, v)
            if var != 'Ok':
                A.check(False if var == 'Err' else None, '%s answers every request' % short, S.w, show(v)[:200])
                continue
            c = A.eta(proj(proj(v, ('v', 'Ok')), ('f', '0')))
            r = A.eta(proj(c, ('f', cx.resp)))
            rv = A.variant(st, r)
            if rv != 'Some':
                A.check(False if rv == 'None' else None, '%s answers with a response' % short, S.w, show(r)[:200])
                continue
            r = A.eta(proj(proj(r, ('v', 'Some')), ('f', '0')))
            kinds.add(sent(A, S.I, st, A.eta(proj(r, ('f', fb))), A.eta(proj(r, ('f', fs))), None, short, S.w))
        for want, word in (('ok', 'sends'), ('err', 'fails to send')):
            if want not in kinds:
                A.und('%s %s a file' % (short, word), S.w, 'no such path')
        A.ok('outcomes of %s: %d' % (short, len(S.outs)), S.w)
    n = A.method('Response', 'file')
    if n is None:
        A.und('Response::file', '', 'not found')
    else:
        R = A.run(n, asynchronous=A.is_async(n))
        one_builder(A, R, 'Response::file', A.span(n), fb, fs, fh, lambda st, v: v, sym(R.args[0]), sym(R.args[1]))
    n = A.method('Context', 'build_file')
    if n is None:
        A.und('Context::build_file', '', 'not found')
    else:
        R = A.run(n, asynchronous=A.is_async(n))
        ba = A.adt('ResponseBuilder')
        f = field_by_type(A, ba, lambda t: is_adt(t, 'Response')) if ba else None
        if f is None:
            A.und('Context::build_file', A.span(n), 'the response of a builder was not found')
        else:
            one_builder(A, R, 'Context::build_file', A.span(n), fb, fs, fh, lambda st, v: A.eta(proj(v, ('f', f))), None, sym(R.args[1]))


def one_builder(A, R, who, w, fb, fs, fh, get, base, path):
    I = R.I
    kinds = set()
    for st, v in R.outs:
        v = A.eta(I.norm(st, v))
        r = get(st, v)
        body, status = A.eta(proj(r, ('f', fb))), A.eta(proj(r, ('f', fs)))
        initial = A.eta(proj(base, ('f', fs))) if base is not None else None
        kinds.add(sent(A, I, st, body, status, initial, who, w))
        for e in fs_events(I, st):
            p = strip_text(A.eta(path_arg(e)))
            A.check(same(I, p, path), '%s reads the file it was given' % who, e.a[1], 'it reads %s' % show(p)[:150])
    for want, word in (('ok', 'sends'), ('err', 'fails to send')):
        if want not in kinds:
            A.und('%s %s a file' % (who, word), w, 'no such path')


# ------------------------------------------------------------------ P37
ORDINARY = ('a', 'b.c', '%2e', ' ', '~', '-', 'A', '_x', '.well-known', 'a=b', "it's", '(1)', 'x.tar.gz', '+', '@')


def keeps_names(c, h):
    """does a condition let every ordinary name through; None if that cannot be told"""
    try:
        return all(ev(c, {h: x}) for x in ORDINARY)
    except Unknown:
        return None


def tail_of(t, path):
    """(True/False/None, number of segments left out, reason): is a collection the segments of a path from some segment on"""
    skipped = []
    while t.tag == 'app' and len(t.a) > 1 and isinstance(t.a[1], T):
        n = t.a[0].split('#')[0].split('<')[0].split('::')[-1]
        if is_segments(t, path):
            return True, skipped, ''
        if n == 'skip' and len(t.a) == 3:
            skipped.append(t.a[2])
        elif n == 'sub' and t.a[3] == 0:
            skipped.append(k(t.a[2]))
        elif n == 'filter' and len(t.a) == 4:
            r = keeps_names(t.a[3], t.a[2])
            if not r:
                return r, skipped, 'names are left out'
        elif n == 'map' and len(t.a) == 4:
            if strip_text(t.a[3]) is not t.a[2]:
                return (False if respelled(t.a[3], t.a[2]) else None), skipped, 'names are changed'
        elif n in ('take', 'rev', 'step_by', 'take_while', 'skip_while', 'truncated', 'map_while') or n == 'sub':
            return False, skipped, 'it is cut by %s' % n
        elif n in ('peekable', 'fuse', 'collect', 'iter', 'from'):
            pass
        else:
            return (False if respelled(t, path) else None), skipped, 'it is %s' % show(t)[:100]
        t = t.a[1]
    return (False if respelled(t, path) else None), skipped, 'it comes from %s' % show(t)[:100]


def P37(A):
    for S in statics(A):
        m = S.name.split('::')[-1]
        short = 'Router::' + m
        if S.why or not S.outs:
            A.und('the handler of %s' % short, S.w, S.why or 'no outcome')
            continue
        # what is registered
        for st in S.C.outs:
            for E, e in S.C.entries(st) or ():
                p = A.eta(S.C.by_role(E, e).get('path') or mk('undef'))
                what = '%s serves everything below its virtual path' % short
                ok = p.tag == 'str' and len(p.a) >= 2 and p.a[-1].tag == 'k' and isinstance(p.a[-1].a[0], str) and re.fullmatch(r'/+\*/*', p.a[-1].a[0]) and same_path(mk('str', *p.a[:-1]) if len(p.a) > 2 else p.a[0], S.virt)
                plain = p.tag in ('str', 'k') and not unknown(p) and all(x.tag in ('k', 'sym') or x is S.virt for x in p.a if isinstance(x, T))
                plain = plain or strip_text(p) is S.virt
                A.check(True if ok else (False if plain or respelled(p, S.virt) else None), what, e.a[1], 'it is registered at %s' % show(p)[:150])
        G = Guard(A, S.I, S.ctx)
        path = app('Uri::path', mk('fld', mk('fld', S.ctx, 'request'), 'uri'))
        n = 0
        for st, v in S.outs:
            rd = [e for e in fs_events(S.I, st) if e.a[2].split('<')[0].split('::')[-1] in ('read', 'open', 'read_to_string')]
            for e in rd:
                n += 1
                names_file(A, S, G, st, e, short)
            if not rd:
                turned_away(A, S, G, st, short)
        if not n:
            A.und('%s reads files' % short, S.w, 'no reading found')


NAMES = ORDINARY + tuple('%s/%s' % (a, b) for a in ORDINARY[:4] for b in ORDINARY[:4]) + ('a/b/c.txt', 'a/a/a/a/a/a/a/a/a/a/a/a', 'x' * 80, 'index.html', 'a/index.html')


def turned_away(A, S, G, st, short):
    """an outcome which reads nothing is not one of a request for a plain name"""
    what = '%s reads the file for every ordinary name' % short
    un = None
    for x, d, r in imagine(S, G, st, None, NAMES):
        if r is not None:
            A.bad(what, S.w, 'a request for %r is answered without reading the file' % x)
            return
        un = x
    A.check(None if un else True, what, S.w, 'whether a request for %r is answered without reading cannot be told, with %s' % (un, facts_of(st)))


def names_file(A, S, G, st, e, short):
    """the file read is the one named"""
    w = e.a[1]
    what = '%s reads the file the request names below the virtual path' % short
    p = A.eta(path_arg(e))
    r, why = named(A, S, G, st, p)
    if r is False and request_path(S, p) is None and not any(True for _ in imagine(S, G, st, p, NAMES)):
        A.ok(what, w)   # no request for a name is answered like this
        return
    if r is None or r is True:
        # what is read for some requests
        for x, d, got in imagine(S, G, st, p, NAMES):
            if got is not None and (got.startswith('/') or [c for c in got.split('/') if c not in ('', '.')] != (d + '/' + x).split('/')):
                r, why = False, 'for %s below %s it reads %r' % (x, d, got)
                break
    A.check(r, what, w, why)
    if r is not True:
        return
    # that is the path of the route only where no router around it has a path of its own
    A.bad('%s leaves out the whole path its route was reached by' % short, w, 'it leaves out as many segments as its own virtual path has, also below other routers', key=short)


def request_path(S, t):
    """the path of the request, as a term holds it"""
    for x in subterms(t):
        if x.tag == 'app' and x.a[0] == 'Uri::path' and mentions(x, S.ctx):
            return x
    return None


def named(A, S, G, st, p):
    """(True/False/None, reason): is a path the directory and the segments of the request below the virtual path"""
    path = request_path(S, p)
    if path is None:
        return (None if unknown(p) or G.tainted(p) else False), 'it reads %s' % show(p)[:150]
    ps = G.parts(p, st)
    if ps is None:
        return (False if respelled(p, path) else None), 'it reads %s' % show(p)[:150]
    ps = [q for q in ps if not (q[1].tag == 'k' and isinstance(q[1].a[0], str) and q[1].a[0].strip('/') == '')]
    at = [i for i, q in enumerate(ps) if G.tainted(q[1])]
    extra = [q[1] for i, q in enumerate(ps) if i > 0 and i not in at]
    if extra and all(x.tag in ('k', 'sym') for x in extra):
        return False, 'the name also holds %s' % ', '.join(show(x)[:60] for x in extra)
    if extra or len(at) != 1 or ps[at[0]][0] != 'all':
        return (False if any(respelled(ps[i][1], path) for i in at) else None), 'the name is put together from %s' % ', '.join(show(q[1])[:80] for q in ps)
    if at[0] > 0 and whole_dir(ps[0][1], S.dir) is False and mentions(ps[0][1], S.dir):
        return False, 'below the directory %s' % show(ps[0][1])[:150]
    t = ps[at[0]][1]
    r, skipped, why = tail_of(t, path)
    if r is not True:
        return r, why
    want = S.virt
    if len(skipped) == 1 and skipped[0].tag == 'app' and skipped[0].a[0] == 'len' and is_segments(skipped[0].a[1], want):
        return True, ''
    if len(skipped) == 1:
        rs = [counted(skipped[0], want, n) for n in range(40)]
        if None not in rs:
            if rs == list(range(40)):
                return True, ''
            return False, 'of the path of the request, it leaves out %s segments' % show(skipped[0])[:100]
    fuzzy = any(unknown(x) for x in skipped) or any(mentions(x, want) and not is_len_of(x) for x in skipped)
    return (None if fuzzy else False), 'of the path of the request, it leaves out %s segments' % (' and '.join(show(x)[:100] for x in skipped) or 'no')


def counted(x, want, n):
    """the value of a number computed from the number n of segments of a path, None if that cannot be told"""
    if x.tag == 'k':
        return x.a[0] if isinstance(x.a[0], int) and not isinstance(x.a[0], bool) else None
    if x.tag != 'app':
        return None
    if x.a[0] == 'len':
        return n if is_segments(x.a[1], want) else None
    f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'min': min, 'max': max, 'saturating_sub': lambda a, b: max(0, a - b), 'mul': lambda a, b: a * b}.get(str(x.a[0]).split('#')[0].split('<')[0].split('::')[-1].lower())
    if f is None or len(x.a) != 3:
        return None
    a, b = counted(x.a[1], want, n), counted(x.a[2], want, n)
    return None if a is None or b is None else f(a, b)


def is_len_of(x):
    return x.tag == 'app' and x.a[0] in ('len', 'add', 'sub', 'Add', 'Sub')
