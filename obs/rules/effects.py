"""Shared state, blocking, unsafe code, the logger and the listening address: P11, P19, P22, P26, P29."""
import re
from ..base import *
from ..graph import graph, request_code
from . import serve as serving


# ------------------------------------------------------------------ P11
GLOBAL_WRITERS = {
    'env::set_var', 'env::remove_var', 'env::set_current_dir', 'panic::set_hook', 'panic::take_hook', 'control::set_override',
    'Arc::get_mut_unchecked', 'Box::leak', 'process::exit', 'process::abort',
}


def P11(A):
    F = A.F
    S = serving.serve(A)
    # 1. nothing global that can change
    for s_ in F.statics:
        w = s_['span']
        if s_['mut'] or s_['cells']:
            A.bad('global data is immutable', w, '%s can change while requests are served (%s)' % (s_['p'], (s_['cells'] or ['static mut'])[0]), key='static:' + s_['p'])
        elif s_['tls']:
            A.bad('no thread-local data', w, '%s lives from one request to the next' % s_['p'], key='static:' + s_['p'])
        else:
            A.ok('global data is immutable', w)
    A.ok('statics enumerated: %d' % len(F.statics), 'crate')
    # 2. nothing shared between requests that can change behind a shared reference
    shared = [n for n in ('App', 'AppServer', 'Router', 'RouteTrie', 'Node', 'RouteValue', 'Resource', 'Route') if A.adt(n)]
    for tr, m in (('Handler', 'call'), ('Middleware', 'handle')):
        for t, p in A.impl(tr, m):
            if t[0] == 'adt' and t[1] in F.adts:
                shared.append(t[1])
    if A.adt('App') is None or A.adt('Router') is None:
        A.und('types shared between requests', '', 'App or Router not found')
    for n in sorted(set(shared)):
        a = A.adt(n)
        A.check(not a['cells'], 'no interior mutability in the shared type %s' % a['p'], a['span'], '; '.join(a['cells'][:3]))
    # 3. closures kept by the server or stored as handlers
    kept = set()
    if S.I is not None:
        for n, st, v, loc in S.I.escapes:
            if F.bodies[n].kind == 'closure':
                kept.add(n)
    for r in registrations(A):
        for st, v in r.outs:
            for root, val in st.mem.items():
                for x in subterms(val):
                    if x.tag == 'clo':
                        kept.add(x.a[0])
    if not kept:
        A.und('closures kept while serving', '', 'none found')
    for n in sorted(kept):
        cells = F.bodies[n].j.get('capcells', [])
        A.check(not cells, 'no interior mutability captured by %s' % canon(n), F.bodies[n].span, '; '.join(cells[:3]))
    # 4. a call of a kept closure leaves what it captured as it was
    if S.I is not None:
        for f, st, place, loc in S.I.escenv:
            if f.a[1] != 'closure':
                continue
            if place[0] == 'L' and len(place) == 3:
                cur = S.I.load(st, place)
            else:
                cur = S.I.load(st, place[0], place[1])
            w = A.span(f.a[0])
            if cur.tag == 'undef' or cur is f:
                A.ok('a call leaves captured data unchanged: ' + canon(f.a[0]), w)
                continue
            old, new = A.eta(S.I.norm(st, f)), A.eta(S.I.norm(st, cur))
            A.check(True if old is new else (False if new.tag == 'clo' else None), 'a call leaves captured data unchanged: ' + canon(f.a[0]), w,
                    'from %s to %s' % (show(old)[:150], show(new)[:200]))
        for st, v in S.R.outs:
            for root, val in st.mem.items():
                if root[0] == 'O' and any(x.tag == 'app' and x.a[0] == 'changed_by' for x in subterms(val)):
                    A.bad('serving leaves the application unchanged', A.span(S.R.name), 'changed: %s' % show(val)[:200])
        A.ok('serving leaves the application unchanged', A.span(S.R.name))
    # 5. process-wide state
    n = 0
    G = graph(A)
    for b in request_code(A):
        for s_ in G.sites[b]:
            n += 1
            c = key2(s_.fn['def'])
            if c in GLOBAL_WRITERS:
                A.bad('no process-wide state is changed while serving', s_.loc, '%s calls %s' % (canon(b), c), key='%s:%s' % (canon(b), c))
    A.ok('no process-wide state is changed while serving (%d functions, %d mentioned callees)' % (len(request_code(A)), n), 'crate')


def registrations(A):
    if 'registrations' in A.cache:
        return A.cache['registrations']
    out = []
    for t in ('Router', 'App'):
        for m in ('use_static', 'use_static_to', 'get'):
            n = A.method(t, m)
            if n:
                out.append(A.run(n))
    A.cache['registrations'] = out
    return out


# ------------------------------------------------------------------ P19
BLOCKING = [re.compile(x) for x in (
    r'^std::fs::', r'^std::net::', r'^std::os::unix::net::',
    r'^std::thread::(functions::)?(sleep|sleep_ms|sleep_until|park|park_timeout|yield_now|scope)$', r'^std::thread::(\w+::)?(JoinHandle|ScopedJoinHandle)::join$',
    r'^std::process::(Command::(output|status|spawn|exec)|Child::(wait|wait_with_output))$', r'^std::hint::spin_loop$',
    r'^std::sync::(\w+::)*(Mutex|RwLock|ReentrantLock)::(lock|read|write)$', r'^std::sync::(\w+::)*Condvar::wait\w*$', r'^std::sync::(\w+::)*Barrier::wait$',
    r'^std::sync::mpsc::(\w+::)*(Receiver::(recv\w*|iter)|SyncSender::send)$', r'^std::sync::(\w+::)*Once::(wait|call_once)$',
    r'^std::io::(\w+::)*(stdin|read_to_string|copy)$', r'^std::io::(\w+::)*(Stdin|StdinLock)::', r'^std::io::Stdin::',
    r'^std::path::Path::(exists|try_exists|canonicalize|metadata|symlink_metadata|is_file|is_dir|is_symlink|read_dir|read_link)$',
    r'::block_on$', r'::block_on_stream$', r'::block_in_place$', r'^futures_executor::', r'^futures::executor::', r'::blocking_(recv|send|lock|read|write|lock_owned)$',
    r'^parking_lot::', r'^lock_api::', r'^crossbeam\w*::', r'^std::time::\w+::park', r'^reqwest::blocking', r'^ureq::',
)]
TRAIT_IO = {'Read::read', 'Read::read_to_end', 'Read::read_to_string', 'Read::read_exact', 'Read::bytes', 'Write::write', 'Write::write_all', 'Write::flush',
            'BufRead::read_line', 'BufRead::lines', 'BufRead::read_until', 'ToSocketAddrs::to_socket_addrs', 'Seek::seek'}
IO_TYPES = ('std::fs::File', 'std::net::', 'std::io::Stdin', 'std::process::', 'std::os::')
ASYNC_OK = re.compile(r'^(async_std|tokio|async_fs|smol)::')


def blocking(fn, F):
    # a function generic parameters of which hold a file etc. is told by the trait
    for n in {canon(fn['def']), canon(fn.get('res') or fn['def'])}:
        n = n[1:] if n.startswith('<') else n
        if n.startswith('std::fs::') and n.split('::')[-1] in ('File', 'new', 'options', 'clone', 'len', 'is_dir', 'is_file') and not n.startswith('std::fs::File::options_open'):
            if n.split('::')[-2] in ('OpenOptions', 'Metadata', 'FileType', 'Permissions', 'DirBuilder') or n.endswith('options'):
                continue
        if re.match(r'^std::fs::(Metadata|FileType|Permissions|DirEntry)::', n):
            continue
        if re.match(r'^std::net::(\w+::)*(Ip|Ipv4|Ipv6|SocketAddr\w*)', n) and not n.endswith('to_socket_addrs'):
            continue
        for r in BLOCKING:
            if r.search(n) and not ASYNC_OK.match(n) or r.search(n) and r.pattern.startswith('::block') and not n.endswith('spawn_blocking'):
                return n
    k_ = key2(fn['def'])
    if k_ in TRAIT_IO:
        ts = [F.ty(t) for t in fn.get('targs', [])]
        for t in ts:
            u = strip_refs(t)
            if k_.startswith('ToSocketAddrs') or u[0] == 'adt' and any(x in tstr(u) for x in IO_TYPES):
                return '%s on %s' % (k_, tstr(u))
    return None


def P19(A):
    F, G = A.F, graph(A)
    # the list matches what it must match
    for n in ('std::fs::read', 'std::thread::sleep', 'async_std::task::block_on', 'std::sync::Mutex::<T>::lock', 'std::path::Path::exists'):
        if blocking({'def': n}, F) is None:
            A.und('rule matches ' + n, '', 'the list of blocking calls is broken')
    for n in ('tokio::fs::read', 'async_std::fs::read', 'std::path::Path::join', 'tokio::task::spawn_blocking'):
        if blocking({'def': n}, F) is not None:
            A.und('rule does not match ' + n, '', 'the list of blocking calls is broken')
    code = request_code(A)
    A.bodies |= code
    if len(code) < 100:
        A.und('code that runs while serving', '', 'only %d functions found' % len(code))
    for b in sorted(code):
        body = F.bodies[b]
        hit = None
        loops = None
        for s_ in G.sites[b]:
            x = blocking(s_.fn, F)
            if x:
                hit = 1
                graph(A).reach([b])
                A.bad('serving a request never blocks its thread', s_.loc, '%s uses %s' % (canon(b), x), key='%s:%s' % (canon(b), x))
            if s_.call and canon(s_.fn['def']) == 'std::future::Future::poll' and body.kind != 'coroutine' and not polls(body):
                loops = body.loops() if loops is None else loops
                if any(s_.block in l for l in loops.values()):
                    hit = 1
                    A.bad('no future is driven to completion synchronously', s_.loc, '%s polls in a loop' % canon(b), key='%s:poll' % canon(b))
        if not hit:
            A.ok('nothing blocks in ' + canon(b), body.span)
    A.callsites = sum(len(G.sites[b]) for b in code)


def polls(body):
    """an implementation of poll itself"""
    return body.name.endswith('::poll') or body.name.endswith('::poll_next')


# ------------------------------------------------------------------ P22
def P22(A):
    F = A.F
    for u in F.unsafe:
        A.bad('no unsafe code', u[1] if isinstance(u, list) else u.get('span', ''), str(u), key=str(u[0] if isinstance(u, list) else u))
    for s_ in F.statics:
        if s_['mut']:
            A.bad('no mutable statics', s_['span'], s_['p'])
    for a in F.adts.values():
        if a['union']:
            A.bad('no unions', a['span'], a['p'])
        A.ok('no union: ' + a['p'], a['span'])
    for n, b in F.bodies.items():
        A.ok('no unsafe code in ' + canon(n), b.span)
    if F.missing:
        A.und('functions without facts', '', ', '.join(F.missing[:5]))
    A.bodies |= set(F.bodies)


# ------------------------------------------------------------------ P26
def P26(A):
    F = A.F
    impls = [p for t, p in A.impl('Middleware', 'handle') if is_adt(t, 'Logger')]
    nx = A.method('EndpointExecutor', 'next')
    if not impls or nx is None:
        A.und('the logger', '', 'Logger or EndpointExecutor::next not found')
        return

    def next_contract(I, st, fr, args, loc, c):
        vals = [I.norm(st, a) for a in args]
        r = app('NEXT', *vals)
        I.event(st, 'call', 'NEXT', r, *vals, loc=loc)
        return [(st, r)]
    for p in impls:
        R = A.run(p, contracts={nx: next_contract}, asynchronous=True)
        I = R.I
        ctx, ex = R.args[1], R.args[2]
        w = A.span(p)
        for q in I.panics:
            A.bad('the logger does not panic', q[2], q[1])
        if not R.outs:
            A.bad('the logger returns', w, 'no path returns')
        for st, v in R.outs:
            calls = [e for e in all_events(I, st) if e.a[0] == 'call' and e.a[2] == 'NEXT']
            inloop = [e for e in calls if e not in st.ev]
            if inloop:
                A.und('continues from a loop', inloop[0].a[1])
                continue
            loc = calls[0].a[1] if calls else w
            A.check(len(calls) == 1, 'the logger continues the chain exactly once', loc, 'a path continues %d times' % len(calls))
            if len(calls) != 1:
                continue
            e = calls[0]
            A.check(same(I, A.eta(e.a[4]), ex), 'it continues its own chain', loc, 'executor: %s' % show(e.a[4])[:200])
            A.check(same(I, A.eta(e.a[5]), ctx), 'it hands on the context as received', loc, 'context: %s' % show(e.a[5])[:200])
            want = app('await', e.a[3])
            got = A.norm(R, st, v)
            if got is not want and A.variant(st, want) is not None:
                x = A.variant(st, want)
                if got.tag == 'agg' and got.a[1] == x and got.a[3] is proj(mk('as', want, x), ('f', '0')):
                    got = want
            A.check(same(I, got, want), 'it returns the outcome as received', loc, 'returned: %s' % show(got)[:300])


# ------------------------------------------------------------------ P29
LOOP4 = (127, 0, 0, 1)


def ip_of(t):
    """known IPv4 octets, or None"""
    t = unwrap(t)
    if t.tag == 'agg' and t.a[0] in ('array', 'tuple') and len(t.a[2]) == 4 and all(x.tag == 'k' for x in t.a[3:]):
        return tuple(x.a[0] for x in t.a[3:])
    if t.tag == 'app' and t.a[0] in ('Ipv4Addr::new', 'Ipv4Addr::from_octets') and all(x.tag == 'k' for x in t.a[1:]):
        return tuple(x.a[0] for x in t.a[1:]) if len(t.a) == 5 else None
    if t.tag == 'k' and isinstance(t.a[0], str):
        n = t.a[0]
        if n.endswith('Ipv4Addr::LOCALHOST') or n in ('127.0.0.1', 'localhost'):
            return LOOP4
        if n.endswith('Ipv4Addr::UNSPECIFIED') or n == '0.0.0.0':
            return (0, 0, 0, 0)
        if re.match(r'^\d+(\.\d+){3}$', n):
            return tuple(int(x) for x in n.split('.'))
        if 'Ipv6Addr::' in n or n == '::' or n == '::1':
            return n
    if t.tag == 'app' and t.a[0] in ('str::parse', 'parse') or t.tag == 'app' and t.a[0].startswith('from_str'):
        return ip_of(t.a[1])
    return None


def unwrap(t):
    while True:
        if t.tag == 'agg' and t.a[1] in ('V4', 'Some', 'Ok') and len(t.a) == 4:
            t = t.a[3]
        elif t.tag == 'app' and len(t.a) == 2 and t.a[0].split('<')[0].split('::')[-1] in ('V4', 'from', 'into', 'clone'):
            t = t.a[1]
        elif t.tag == 'fld' and t.a[1] == '0' and t.a[0].tag == 'as' and t.a[0].a[1] in ('Ok', 'Some'):
            t = t.a[0].a[0]
        else:
            return t


def addr_of(t):
    """(ip, port) as far as they can be told"""
    t = unwrap(t)
    if t.tag == 'agg' and t.a[0] == 'tuple' and len(t.a[2]) == 2:
        return ip_of(t.a[3]), t.a[4]
    if t.tag == 'app' and t.a[0] in ('SocketAddr::new', 'SocketAddrV4::new') and len(t.a) == 3:
        return ip_of(t.a[1]), t.a[2]
    if t.tag == 'app' and len(t.a) >= 2 and t.a[0].split('<')[0].split('::')[-1] in ('parse', 'from_str'):
        x = t.a[1]
        if x.tag == 'str' and len(x.a) == 2 and x.a[0].tag == 'k' and x.a[0].a[0].endswith(':') and x.a[1].tag == 'app' and x.a[1].a[0] == 'disp':
            return ip_of(k(x.a[0].a[0][:-1])), x.a[1].a[1]
        if x.tag == 'str' and len(x.a) == 3 and x.a[0].tag == 'app' and x.a[0].a[0] == 'disp' and x.a[1].tag == 'k' and x.a[1].a[0] == ':' and x.a[2].tag == 'app':
            return ip_of(x.a[0].a[1]), x.a[2].a[1]
    return None, None


# what prepares a server without running it
SETUP = {'serve', 'local_addr', 'with_graceful_shutdown', 'drop', 'map_err', 'http1_keepalive', 'tcp_nodelay', 'tcp_keepalive', 'http1_only', 'http2_only', 'with_executor', 'executor', 'http1_half_close'}


def P29(A):
    S = serving.serve(A)
    if S.I is None:
        A.und('App::listen', '', S.why)
        return
    I, R = S.I, S.R
    port = R.args[1]
    n = 0
    for st, v in R.outs:
        binds = [e for e in all_events(I, st) if e.a[0] == 'call' and e.a[2].split('::')[-1] in ('bind', 'try_bind', 'from_tcp')]
        if not binds:
            A.bad('starting the application binds its address', A.span(R.name), 'a path returns without having bound')
            continue
        for e in binds:
            n += 1
            if e.a[2].split('::')[-1] == 'from_tcp':
                continue
            a = A.eta(e.a[4])
            ip, p = addr_of(a)
            A.check(None if ip is None else ip == LOOP4, 'the server binds the loopback address', e.a[1], 'it binds %s' % show(a))
            A.check(None if p is None else same(I, p, port), 'the server binds the requested port', e.a[1], 'it binds port %s' % (show(p) if p is not None else '?'))
        served = [e for e in st.ev if e.a[0] == 'call' and e.a[2] == 'await' and any(mentions(e.a[4], b.a[3]) for b in binds)]
        # it may also be handed to something which runs it
        given = any(e.a[0] == 'call' and e.a[2] != 'await' and e.a[2].split('<')[0].split('::')[-1] not in SETUP and any(mentions(x, b.a[3]) for x in e.a[4:] if isinstance(x, T) for b in binds) for e in all_events(I, st))
        A.check(True if served else (None if given else False), 'the bound server is run', A.span(R.name), 'not awaited')
        for e in all_events(I, st):
            if e.a[0] != 'print':
                continue
            t = A.eta(e.a[2])
            txt = ''.join(x.a[0] for x in subterms(t) if x.tag == 'k' and isinstance(x.a[0], str))
            if 'http' not in txt and not any(mentions(t, b.a[4]) or mentions(t, port) for b in binds):
                continue
            parts = t.a if t.tag == 'str' else (t,)
            b = binds[0]
            good = any(x.tag == 'app' and x.a[0] in ('disp', 'dbg') and A.eta(x.a[1]) is A.eta(b.a[4]) for x in parts)
            if not good:
                for i, x in enumerate(parts):
                    if x.tag == 'app' and x.a[0] == 'disp' and x.a[1] is port and i and parts[i - 1].tag == 'k' and re.search(r'(127\.0\.0\.1|localhost):$', str(parts[i - 1].a[0])):
                        good = True
            ds = [x for x in parts if x.tag == 'app' and x.a[0] == 'disp']
            vague = any(unknown(x) or any(y.tag == 'app' and y.a[0].endswith('local_addr') for y in subterms(x)) for x in ds)
            pieces = any(mentions(x, port) or any(y.tag == 'app' and y.a[0] in ('SocketAddr::port', 'SocketAddr::ip') for y in subterms(x)) for x in ds)
            A.check(True if good else (None if vague or pieces and '127.0.0.1' not in txt and not any(x.tag == 'app' and x.a[0] in ('add', 'sub', 'AddUnchecked') for x in subterms(t)) else False),
                    'the announced address is the bound one', e.a[1], 'announced: %s' % show(t)[:200])
    if not n:
        A.und('binding', '', 'no call found')
