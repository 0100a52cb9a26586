"""What happens to a request between the server and the client: P01 (dispatch), P02, P03, P08, P09, P10."""
from ..base import *


def search_contract(I, st, fr, args, loc, c):
    vals = [I.norm(st, a) for a in args]
    r = app('SEARCH', *vals)
    I.event(st, 'call', 'SEARCH', r, *vals, loc=loc)
    return [(st, r)]


def is_exec(n):
    return n.split('<')[0] in ('Handler::call', 'Middleware::handle')


def partkey(st):
    return frozenset((f, v) for f, v in st.facts.items() if f.tag == 'disc' and interesting(f.a[0]))


_int = {}


def interesting(t):
    r = _int.get(t)
    if r is None:
        r = _int[t] = any(x.tag == 'app' and (x.a[0] == 'SEARCH' or x.a[0] == 'await') for x in subterms(t)) and t.tag in ('app', 'fld', 'as')
    return r


class Serve:
    """All outcomes of serving one request through App::listen, with the route lookup as an unknown function."""

    def __init__(self, A):
        self.A = A
        self.outs, self.req, self.I, self.why = [], None, None, ''
        listen = A.method('App', 'listen')
        if listen is None:
            self.why = 'no App::listen'
            return
        contracts = {n: search_contract for n in A.F.bodies if canon(n).endswith('::search_route') and A.F.bodies[n].kind == 'method'}
        if not contracts:
            self.why = 'no search_route'
            return
        R = A.run(listen, contracts=contracts, asynchronous=True, partkey=partkey)
        self.R, self.I = R, R.I
        self.app = sym(R.args[0])
        F = A.F
        reqs = []
        for n in R.I.seen_bodies:
            b = F.bodies[n]
            for i in range(1, b.argc + 1):
                if is_adt(F.ty(b.locals[i][0]), 'Request') and b.kind == 'closure':
                    reqs.append(s('arg%d:%s' % (i - 1, n)))
        if len(reqs) != 1:
            self.why = 'cannot tell which closure receives the request'
            return
        self.req = reqs[0]
        for n, st, v, loc in R.I.escapes:
            v = A.eta(R.I.norm(st, v))
            if is_ok(v) and pay(v).tag == 'agg' and pay(v).a[0] == 'http::Response':
                self.outs.append((st, pay(v), A.span(n)))
            elif F.bodies[n].kind == 'coroutine' and mentions(v, self.req) and not (v.tag == 'clo'):
                self.outs.append((st, v, A.span(n)))
            elif is_err(v) and F.bodies[n].kind == 'coroutine':
                self.outs.append((st, v, A.span(n)))
        self.ctx_resp = field_by_type(A, 'Context', lambda t: is_opt_of(t, lambda u: is_adt(u, 'Response')))
        self.ctx_req = field_by_type(A, 'Context', lambda t: is_adt(t, 'Request'))
        self.ctx_par = field_by_type(A, 'Context', lambda t: is_adt(t, 'HashMap'))
        self.app_state = field_by_type(A, 'App', lambda t: is_opt_of(t, lambda u: True))
        self.app_router = field_by_type(A, 'App', lambda t: is_adt(t, 'Router'))

    def execs(self, st):
        return [e for e in events(st, 'call') if is_exec(e.a[2])]

    def exec_in_loop(self, st):
        for e in st.ev:
            if e.a[0] == 'loop':
                for x in all_events(self.I, State(ev=(e,))):
                    if x.a[0] == 'call' and is_exec(x.a[2]):
                        return x
        return None

    def result(self, st):
        """the awaited outcome of the chain"""
        ex = self.execs(st)
        if not ex:
            return None
        r = self.A.eta(ex[0].a[3])
        for e in events(st, 'call', 'await'):
            if e.a[4] is ex[0].a[3] or self.A.eta(e.a[4]) is r:
                return self.A.eta(e.a[3])
        return None

    def search(self, st):
        return [e for e in events(st, 'call', 'SEARCH')]


def serve(A):
    if 'serve' not in A.cache:
        A.cache['serve'] = Serve(A)
    return A.cache['serve']


def guard(A, S):
    if S.req is None or not S.outs:
        A.und('request path through App::listen', '', S.why or 'no response found')
        return False
    return True


def variant_of(S, st, v):
    return S.A.variant(st, v)


# ------------------------------------------------------------------ P01, the serving half
def dispatch(A):
    S = serve(A)
    if not guard(A, S):
        return
    F = A.F
    n = 0
    for st, resp, where in S.outs:
        for e in S.execs(st):
            if e.a[2].startswith('Handler::call'):
                h = A.eta(e.a[4])
            else:
                ex = [A.eta(x) for x in e.a[4:] if x.tag == 'agg' and x.a[0].endswith('EndpointExecutor')]
                h = fields_of(ex[0]).get('route_endpoint') if ex else None
                if h is None:
                    A.und('handler of the matched route', e.a[1], 'executor has no route_endpoint')
                    continue
            n += 1
            ms = [x for x in subterms(h) if x.tag == 'app' and x.a[0] == 'mval']
            want = mk('fld', S.req, 'method')
            if not ms:
                A.check(None if unknown(h) else False, 'the handler that runs is looked up by the request method', e.a[1], 'handler is %s' % show(h))
                continue
            A.check(same(S.I, ms[0].a[2], want), 'the handler that runs is looked up by exactly the request method', e.a[1],
                    'looked up by %s' % show(ms[0].a[2]))
    if not n:
        A.und('handler of the matched route', '', 'no handler invocation found')


# ------------------------------------------------------------------ P02
def P02(A):
    S = serve(A)
    if not guard(A, S):
        return
    F = A.F
    seen = set()
    want = app('Uri::path', mk('fld', S.req, 'uri'))
    nex = nno = 0
    for st, resp, where in S.outs:
        sr = S.search(st)
        for e in sr:
            if e in seen:
                continue
            seen.add(e)
            p = A.eta(e.a[-1])
            A.check(same_path(p, want) or same(S.I, p, want), 'the lookup gets exactly the path of the request', e.a[1], 'it gets %s' % show(p))
            r = A.eta(e.a[4])
            root, ch = chain(r)
            A.check(True if root is S.app else (None if unknown(r) else False), 'the lookup runs on the application\'s router', e.a[1], 'it runs on %s' % show(r))
        ex = S.execs(st)
        if resp.tag != 'agg' or resp.a[0] != 'http::Response':
            A.und('outcome without a response', where, show(resp)[:200])
            continue
        status = fields_of(resp)['status']
        if ex or S.exec_in_loop(st):
            nex += 1
            A.check(False if is_status(status, 'NOT_FOUND') else True, 'no 404 of the framework after user code ran', ex[0].a[1] if ex else where, 'status %s' % show(status))
        else:
            nno += 1
            good = is_status(status, 'NOT_FOUND')
            A.check(True if good else (None if unknown(status) and not some_status(status) else False), 'a request which ran no user code is answered 404', where, 'it is answered %s' % show(status))
            A.check(unmatched(S, st), 'only a request without a registered route is answered without user code', where,
                    'it is answered without the lookup having failed')
    if not nex or not nno:
        A.und('outcomes with and without a matching route', '', '%d with, %d without' % (nex, nno))
    # user code runs only for a matched route
    for st, resp, where in S.outs:
        for e in S.execs(st):
            A.check(matched(S, st), 'user code runs only when the lookup found the path', e.a[1], 'it runs without a lookup result')


def unmatched(S, st):
    """the lookup failed or had no handler for the method"""
    A = S.A
    looks = [A.eta(e.a[3]) for e in S.search(st)]
    if not looks:
        return False
    if any(A.variant(st, r) == 'None' for r in looks):
        return True
    method = mk('fld', S.req, 'method')
    vague = False
    for f, v in st.facts.items():
        c = A.eta(f)
        if not any(mentions(c, r) for r in looks):
            continue
        if c.tag == 'disc' or c.tag == 'app' and c.a[0] == 'is_variant' and v is False:
            x = c.a[0] if c.tag == 'disc' else c.a[1]
            if (v == ('is', 'None') or v is False) and x.tag == 'app' and x.a[0] == 'HashMap::get' and x.a[2] is method:
                return True
        if unknown(c):
            vague = True
    return None if vague else False


def matched(S, st):
    for e in S.search(st):
        if variant_of(S, st, e.a[3]) == 'Some':
            return True
    return False


# ------------------------------------------------------------------ P03
def given_handlers(A):
    """a function used as a handler is called once, with the context received, and its outcome is returned"""
    for t, name in A.impl('Handler', 'call'):
        if t[0] != 'param':
            continue
        R = A.run(name, asynchronous=A.is_async(name))
        I, w = R.I, A.span(name)
        fn, ctx = R.args[0], R.args[1]
        for st, v in R.outs:
            calls = [e for e in all_events(I, st) if e.a[0] == 'call' and e.a[2] == 'callfn' and A.eta(e.a[4]) is A.eta(I.norm(st, fn))]
            if any(e not in st.ev for e in calls):
                A.und('a function used as a handler is called once', w, 'it is called from a loop')
                continue
            if not calls:
                A.check(None if unknown(A.norm(R, st, v)) else False, 'a function used as a handler is called once', w, 'a path does not call it')
                continue
            A.check(len(calls) == 1, 'a function used as a handler is called once', w, 'a path calls it %d times' % len(calls))
            e = calls[0]
            A.check(True if len(e.a) > 5 and A.eta(e.a[5]) is A.eta(I.norm(st, ctx)) else (None if len(e.a) <= 5 or unknown(e.a[5]) else False), 'it is given the context received', w, 'it is given %s' % ', '.join(show(x)[:100] for x in e.a[5:]))
            want = app('await', e.a[3]) if A.is_async(name) else e.a[3]
            got = A.norm(R, st, v)
            x = A.variant(st, want)
            if got is not want and x is not None and got.tag == 'agg' and got.a[1] == x and A.eta(got.a[3]) is proj(mk('as', want, x), ('f', '0')):
                got = want
            A.check(None if got is not want and got.tag == 'app' and mentions(got, e.a[3]) else same(I, got, want), 'its outcome is returned as it is', w, 'returned: %s' % show(got)[:200])


def P03(A):
    given_handlers(A)
    S = serve(A)
    F = A.F
    if guard(A, S):
        n = 0
        for st, resp, where in S.outs:
            lp = S.exec_in_loop(st)
            if lp is not None:
                A.und('the chain is started from a loop', lp.a[1])
                continue
            ex = S.execs(st)
            if not ex:
                # entering none is right only if there was nothing to enter
                A.check(unmatched(S, st), 'a matched request enters its chain', where, 'answered without entering the chain')
                continue
            n += 1
            A.check(len(ex) == 1, 'the chain is entered once', ex[-1].a[1], 'it is entered %d times' % len(ex))
            e = ex[0]
            aw = [x for x in events(st, 'call', 'await')]
            A.check(any(x.a[4] is e.a[3] for x in aw), 'the chain is awaited', e.a[1], 'its future is dropped')
            sr = S.search(st)
            if not sr:
                A.bad('the chain comes from the lookup', e.a[1], 'no lookup on this path')
                continue
            look = A.eta(sr[-1].a[3])
            if e.a[2].startswith('Handler::call'):
                h, mws = A.eta(e.a[4]), None
                ems = [f for f, v in st.facts.items() if f.tag == 'app' and f.a[0] == 'is_empty' and v is True and mentions(A.eta(f.a[1]), look)]
                mw_ok = None
                for f in ems:
                    m = A.eta(f.a[1])
                    if chain(m)[0] is look:
                        mw_ok = True
                A.check(mw_ok if mw_ok or not ems else None, 'the handler is entered directly only if the lookup produced no middleware', e.a[1],
                        '' if ems else 'undetermined')
                if not ems:
                    A.obl.pop()
                    A.bad('the handler is entered directly only if the lookup produced no middleware', e.a[1], 'middleware is not consulted')
            else:
                m = A.eta(e.a[4])
                exr = A.eta(e.a[6]) if len(e.a) > 6 else None
                rest = None
                if exr is not None and exr.tag == 'agg':
                    fo = fields_of(exr)
                    h, rest = fo.get('route_endpoint'), fo.get('middleware')
                else:
                    A.und('executor handed to the first middleware', e.a[1], show(exr) if exr is not None else '')
                    continue
                if m.tag == 'app' and m.a[0] == 'elem':
                    base = m.a[1]
                    A.check(same(S.I, m, app('elem', base, k(0))), 'the first middleware is entered first', e.a[1], 'entered: %s' % show(m))
                    r, ch = chain(base)
                    A.check(True if r is look else (None if unknown(base) else False), 'the middleware is exactly the list the lookup produced', e.a[1], 'list: %s' % show(base))
                    if rest is not None:
                        A.check(selected(S.I, rest, app('sub', base, 1, 0)), 'the continuation holds all other middleware', e.a[1], 'it holds %s' % show(rest))
                else:
                    A.check(None if unknown(m) else False, 'the first middleware of the lookup is entered', e.a[1], 'entered: %s' % show(m))
            if h is not None:
                r, ch = chain(h)
                A.check(True if r is look else (None if unknown(h) else False), 'the endpoint is the handler the lookup produced', e.a[1], 'endpoint: %s' % show(h))
        if not n:
            A.und('entering the chain', '', 'no invocation found')
    executor(A)


SELECT = ('filter', 'filter_map', 'take_while', 'skip_while', 'map_while', 'partition', 'dedup')


def selected(I, got, want):
    """same, but a choice among the links by what they are is a mismatch"""
    r = same(I, got, want)
    if r is None and any(x.tag == 'app' and (x.a[0] in SELECT or x.a[0] == 'stage' and x.a[1] in SELECT) for x in subterms(got)):
        return False
    return r


def executor(A):
    F = A.F
    name = A.method('EndpointExecutor', 'next')
    if name is None:
        A.und('EndpointExecutor::next', '', 'not found')
        return
    R = A.run(name, asynchronous=True)
    I = R.I
    self_, ctx = sym(R.args[0]), R.args[1]
    mw, ep = mk('fld', self_, 'middleware'), mk('fld', self_, 'route_endpoint')
    kinds = set()
    for p in I.panics:
        A.bad('continuing never panics', p[2], p[1])
    for st, v in R.outs:
        v = I.norm(st, v)
        calls_ = [e for e in events(st, 'call') if is_exec(e.a[2])]
        looped = [e for e in all_events(I, st) if e.a[0] == 'call' and is_exec(e.a[2]) and e not in calls_]
        where = calls_[0].a[1] if calls_ else A.span(name)
        if looped:
            A.und('continuing enters one link', looped[0].a[1], 'invoked from a loop')
            continue
        if len(calls_) != 1:
            A.bad('continuing enters exactly one link', where, 'a path enters %d links' % len(calls_))
            continue
        e = calls_[0]
        emp = st.truth(is_empty(mw))
        if e.a[2].startswith('Handler::call'):
            kinds.add('handler')
            A.check(same(I, A.eta(e.a[4]), ep), 'the handler entered is the endpoint', where, 'entered: %s' % show(e.a[4]))
            A.check(True if emp is True else (False if emp is False or not any(mentions(f, mw) for f in st.facts) else None),
                    'the handler is entered only after the last middleware', where, 'entered while middleware may be left')
            c = e.a[5]
        else:
            kinds.add('middleware')
            A.check(same(I, A.eta(e.a[4]), app('elem', mw, k(0))), 'the next middleware is the first one left', where, 'entered: %s' % show(e.a[4]))
            c, nx = e.a[5], A.eta(e.a[6])
            fo = fields_of(nx)
            if nx.tag == 'with':
                fo = {n: proj(nx, ('f', n)) for n in ('middleware', 'route_endpoint')}
            if 'middleware' not in fo and nx is not self_:
                A.und('what the continuation holds', where, show(nx))
            else:
                A.check(selected(I, fo.get('middleware', mw), app('sub', mw, 1, 0)), 'the continuation holds exactly the middleware after this one', where, 'it holds %s' % show(fo.get('middleware', mw)))
                A.check(same(I, fo.get('route_endpoint', ep), ep), 'the continuation keeps the endpoint', where, 'it holds %s' % show(fo.get('route_endpoint', ep)))
        A.check(same(I, A.eta(c), ctx), 'the context is handed on as received', where, 'handed on: %s' % show(c))
        A.check(same(I, A.eta(v), app('await', e.a[3])), 'the outcome is returned unchanged', where, 'returned: %s' % show(v))
    for w in ('handler', 'middleware'):
        if w not in kinds:
            A.und('continuing into a ' + w, A.span(name), 'no such path found')


# ------------------------------------------------------------------ P08, P09
def final(A, rule):
    S = serve(A)
    if not guard(A, S):
        return
    F, I = A.F, S.I
    seen = set()
    for st, resp, where in S.outs:
        ex = S.execs(st)
        if not ex:
            continue
        r = S.result(st)
        if r is None:
            A.und('outcome of the chain', ex[0].a[1], 'not awaited directly')
            continue
        var = variant_of(S, st, r)
        if st.facts.get(app('builder_error')) is True:
            if rule == 'P09' and var == 'Err':
                A.bad('a failing chain is answered with the text of its error', where, 'the answer is given a header whose value may be refused, and then it is another one')
            continue
        if resp.tag != 'agg' or resp.a[0] != 'http::Response':
            if is_err(resp):
                A.bad('every outcome of the chain is answered', where, 'the connection fails with %s' % show(resp)[:200])
            else:
                A.und('response sent', where, show(resp)[:200])
            continue
        f = fields_of(resp)
        if var is None:
            # the same response for success and failure
            if rule == 'P09':
                A.check(same(I, f['status'], status('INTERNAL_SERVER_ERROR')), 'a failing chain is answered 500', where, 'answered %s without looking at the outcome' % show(f['status']))
            else:
                A.check(False if not unknown(f['status']) else None, 'the response of the chain decides the answer', where, 'the outcome is not looked at')
            continue
        seen.add(var)
        if var == 'Err' and rule == 'P09':
            e = mk('fld', mk('as', r, 'Err'), '0')
            A.check(True if is_status(f['status'], 'INTERNAL_SERVER_ERROR') else same(I, f['status'], status('INTERNAL_SERVER_ERROR')), 'a failing chain is answered 500', where, 'answered %s' % show(f['status']))
            want = app('From::from<hyper::Body>', app('disp', e))
            A.check(same(I, f['body'], want), 'the body is the text of the error', where, 'body: %s' % show(f['body']))
        if var == 'Ok' and rule == 'P08':
            ctx = mk('fld', mk('as', r, 'Ok'), '0')
            ro = mk('fld', ctx, S.ctx_resp) if S.ctx_resp else None
            if ro is None:
                A.und('response of the context', where, 'Context has no single response field')
                continue
            rv = variant_of(S, st, ro)
            if rv is None:
                A.check(None if unknown(f['status']) else False, 'the response set by the chain is sent', where, 'the response is not looked at; answered %s' % show(f['status']))
                continue
            seen.add('Ok' + rv)
            if rv == 'None':
                A.check(True if is_status(f['status'], 'OK') else same(I, f['status'], status('OK')), 'success without a response is answered 200', where, 'answered %s' % show(f['status']))
                b = f['body']
                A.check(True if empty_body(b) else same(I, b, app('emptybody')), 'success without a response has an empty body', where, 'body: %s' % show(b))
                continue
            p = mk('fld', mk('as', ro, 'Some'), '0')
            fs = field_by_type(A, 'router::response::Response', lambda t: is_adt(t, 'StatusCode'))
            fb = field_by_type(A, 'router::response::Response', lambda t: is_adt(t, 'Body'))
            fh = field_by_type(A, 'router::response::Response', lambda t: not is_adt(t, 'StatusCode') and not is_adt(t, 'Body'))
            if not (fs and fb and fh):
                A.und('fields of Response', '', 'not three as expected')
                continue
            A.check(same(I, f['status'], mk('fld', p, fs)), 'the status sent is the one of the response', where, 'sent: %s' % show(f['status']))
            A.check(same(I, f['body'], mk('fld', p, fb)), 'the body sent is the one of the response', where, 'sent: %s' % show(f['body']))
            headers(A, S, st, f['headers'], mk('fld', p, fh), where)
    need = {'P09': ['Err'], 'P08': ['OkSome', 'OkNone']}[rule]
    for w in need:
        if w not in seen:
            A.und('outcome %s of the chain' % w, '', 'no path found')


def empty_body(b):
    if b.tag == 'app' and b.a[0] == 'emptybody':
        return True
    return b.tag == 'app' and b.a[0] == 'From::from<hyper::Body>' and (b.a[1].tag == 'k' and b.a[1].a[0] == '' or b.a[1] is EMPTYSEQ)


def hdr_entry(t, src):
    """(True/False/None, why) that an inserted pair is (e.0, HeaderValue(e.1)) for e an element of src"""
    key, val = t.a[2], t.a[3]
    if key.tag == 'fld' and key.a[1] == '0' and key.a[0].tag == 'app' and key.a[0].a[0] == 'elem':
        e = key.a[0]
    else:
        return (None if unknown(key) and key.tag == 'lv' else False), 'header name %s' % show(key)
    if e.a[1] is not src:
        return (None if unknown(e.a[1]) else False), 'headers taken from %s' % show(e.a[1])
    return header_value(val, mk('fld', e, '1'))


def header_value(val, v1):
    v = val
    while v.tag in ('fld', 'as') and mentions(v, v1) and v.a[0].tag != 'app' or v.tag == 'fld' and v.a[0].tag == 'as':
        v = v.a[0]
    if v.tag == 'as':
        v = v.a[0]
    if v.tag == 'app' and ('HeaderValue::from' in v.a[0] or 'parse<' in v.a[0] and 'HeaderValue' in v.a[0] or v.a[0].startswith('From::from<') or 'try_from' in v.a[0]) and len(v.a) == 2 and v.a[1] is v1:
        return True, ''
    return False, 'header value %s' % show(val)


def headers(A, S, st, got, src, where):
    """the header map sent holds the last value set for every name"""
    I, F = S.I, A.F
    none = A.variant(st, src) == 'None'
    vec = mk('fld', mk('as', src, 'Some'), '0')
    empty = A.truth(st, is_empty(vec)) is True
    got = A.eta(got)
    if got.tag == 'app' and got.a[0] == 'emptymap':
        A.check(none or empty, 'headers set on the response are sent', where, 'none are sent although the response may have some')
        return
    if got.tag == 'app' and got.a[0] == 'collect_map':
        m = got.a[1]
        what = 'each header is sent with its own name and value, the last one set wins'
        if m.tag == 'app' and m.a[0] == 'map' and m.a[3].tag == 'agg' and m.a[3].a[0] == 'tuple' and len(m.a[3].a) == 5:
            h, row = m.a[2], m.a[3]
            if m.a[1] is not vec:
                x = m.a[1]
                A.check(False if any(y.tag == 'app' and y.a[0] in SELECT + ('rev', 'skip', 'take', 'sub') for y in subterms(x)) or not unknown(x) else None, 'every header set on the response is sent', where, 'headers taken from %s' % show(x)[:200])
                return
            if row.a[3] is not mk('fld', h, '0'):
                A.check(None if unknown(row.a[3]) else False, what, where, 'header name %s' % show(row.a[3]))
                return
            vd, why = header_value(row.a[4], mk('fld', h, '1'))
            A.check(vd, what, where, why)
            return
        A.check(None if unknown(m) or m.tag == 'app' and '::' in str(m.a[0]) else False, what, where, show(got)[:200])
        return
    if got.tag == 'lv':
        alts = I.lvs[got]['alts']
        A.check(same(I, I.lvs[got]['init'], app('emptymap')), 'the header map starts empty', where, show(I.lvs[got]['init']))
        n = 0
        for a in sorted(alts, key=lambda t: t.id):
            a = A.eta(a)
            if a is got:
                A.bad('every header set on the response is sent', where, 'some headers are skipped')
            elif a.tag == 'app' and a.a[0] == 'minsert' and a.a[1] in (got, I.lvs[got]['init']):
                n += 1
                vd, why = hdr_entry(a, vec)
                A.check(vd, 'each header is sent with its own name and value, the last one set wins', where, why)
            elif a.tag == 'app' and a.a[0] == 'mappend':
                A.bad('for every header name the last value set is sent', where, 'all values of a name are sent')
            else:
                A.und('header map', where, show(a)[:200])
        L = I.iters.get(I.lvs[got]['loop'])
        if L is not None:
            W, backs, S0 = L
            root, path = I.lvs[got]['at']
            was = A.eta(I.norm(W, I.load(W, root, path)))
            for b in backs:
                if A.eta(I.norm(b, I.load(b, root, path))) is was:
                    A.bad('every header set on the response is sent', where, 'a header is skipped, with %s' % '; '.join(
                        '%s %s' % (show(f)[:120], r) for f, r in b.facts.items() if mentions(f, vec))[-300:])
        # complete iteration: the loop leaves only when the list is exhausted
        return
    if got.tag == 'app' and got.a[0] == 'minsert':
        A.und('header map', where, show(got)[:200])
        return
    A.check(same(I, got, src), 'headers set on the response are sent', where, show(got)[:200])


def P08(A):
    final(A, 'P08')


def P09(A):
    final(A, 'P09')
    # what next() does to an error
    # (returning outcomes unchanged is part of P03 and checked there)


# ------------------------------------------------------------------ P28
def P28(A):
    """the context of the first middleware or handler holds the request that arrived"""
    S = serve(A)
    if not guard(A, S):
        return
    if not S.ctx_req:
        A.und('request of the context', '', 'Context has no single request field')
        return
    for st, resp, where in S.outs:
        for e in S.execs(st):
            if len(e.a) < 6:
                continue
            q = proj(e.a[5], ('f', S.ctx_req))
            for f in ('method', 'uri', 'version', 'headers', 'body'):
                g = A.eta(S.I.norm(st, proj(q, ('f', f))))
                A.check(same(S.I, g, mk('fld', S.req, f)), 'user code is given the %s of the request as received' % f, e.a[1], 'it is %s' % show(g)[:200])


# ------------------------------------------------------------------ P10
def P10(A):
    S = serve(A)
    F = A.F
    if guard(A, S) and S.app_state and S.ctx_req:
        I = S.I
        state = mk('fld', S.app, S.app_state)
        seen = set()
        T_ = tstr(F.ty([f for f in A.adt('App')['variants'][0][1] if f[0] == S.app_state][0][1])[2][0])
        for st, resp, where in S.outs:
            for e in S.execs(st):
                ctx = e.a[5]
                q = proj(ctx, ('f', S.ctx_req))
                ext = A.eta(proj(q, ('f', 'extensions')))
                base = mk('fld', S.req, 'extensions')
                var = variant_of(S, st, state)
                if var is None:
                    good = mentions(ext, state)
                    A.check(None if good else False, 'application state is put into the context before user code runs', e.a[1], 'user code runs without looking at the state')
                    continue
                seen.add(var)
                if var == 'None':
                    A.check(same(I, ext, base), 'without state nothing is added', e.a[1], 'extensions: %s' % show(ext))
                    continue
                val = mk('fld', mk('as', state, 'Some'), '0')
                want = app('ext_insert', base, k(T_), val)
                if ext is not want and ext.tag == 'app' and ext.a[0] == 'ext_insert' and ext.a[3] is val and ext.a[2] is not k(T_):
                    A.bad('the state is stored under its own type', e.a[1], 'stored as %s' % show(ext.a[2]))
                    continue
                A.check(same(I, ext, want), 'exactly the application state is put into the context before user code runs', e.a[1], 'extensions: %s' % show(ext))
        for w in ('Some', 'None'):
            if w not in seen:
                A.und('outcomes with state %s' % w, '', 'no path found')
        # the state is still there when the next request of the connection arrives
        for f, st, place, loc in S.I.escenv:
            if f.a[1] != 'closure':
                continue
            cur = S.I.load(st, place) if place[0] == 'L' and len(place) == 3 else S.I.load(st, place[0], place[1])
            if cur.tag != 'clo' or cur is f:
                continue
            for x, y in zip(f.a[3:], cur.a[3:]):
                a, b = A.eta(S.I.norm(st, x)), A.eta(S.I.norm(st, y))
                if mentions(a, state):
                    A.check(True if a is b else (None if unknown(b) else False), 'serving a request keeps the state for the next one', A.span(f.a[0]), 'afterwards: %s' % show(b)[:200])
    elif S.req is not None:
        A.und('state of the application', '', 'App has no single optional field')
    keep_state(A, S)


def keep_state(A, S):
    F = A.F
    fld_ = S.app_state if S.app_state else None
    if not fld_:
        return
    n = 0
    for name, b in sorted(F.bodies.items()):
        if b.kind != 'method' or not canon(name).startswith('app::App::') and not canon(name).endswith('::App::' + canon(name).split('::')[-1]) or b.impl_trait is not None:
            continue
        if not b.argc:
            continue
        t = F.ty(b.locals[1][0])
        if not (t[0] == 'ref' and t[1]):
            continue
        R = A.run(name)
        app_ = sym(R.args[0])
        want = mk('fld', app_, fld_)
        setter = any(b2 == ('param', 'T') for b2 in [F.ty(b.locals[i][0]) for i in range(2, b.argc + 1)])
        for st, v in R.outs:
            got = A.eta(R.norm(st, R.I.load(st, ('O', app_), (('f', fld_),))))
            n += 1
            if setter:
                A.check(same(R.I, got, some(R.args[1])), 'setting the state stores exactly it', b.span, 'stored: %s' % show(got))
            else:
                A.check(same(R.I, got, want), '%s leaves the state alone' % canon(name), b.span, 'state becomes %s' % show(got))
    if not n:
        A.und('configuration calls', '', 'none found')


# ------------------------------------------------------------------ P35
ENDS = ('with_graceful_shutdown', 'timeout', 'timeout_at', 'select', 'race', 'or', 'now_or_never', 'abortable', 'take_until', 'catch_unwind', 'poll_once', 'race_ok', 'select_ok', 'select_all')
# settings of the server under which clients are turned away or which let a failed accept end it
SETTINGS = {'tcp_sleep_on_accept_errors': FALSE, 'http2_only': TRUE, 'http1_half_close': None}


def P35(A):
    S = serve(A)
    if S.I is None or S.req is None:
        A.und('request path through App::listen', '', S.why or 'not found')
        return
    I, R, F = S.I, S.R, A.F
    # what the future made for a request yields
    what = 'every request is answered'
    n = 0
    for st, v, where in S.outs:
        n += 1
        r = v.tag == 'agg' and v.a[0] == 'http::Response'
        A.check(True if r else (False if is_err(v) or A.variant(st, v) == 'Err' else None), what, where, 'the connection is closed with %s' % show(v)[:150])
    if not n:
        A.und(what, '', 'no outcome')
    # what is made for a connection
    what = 'every connection is served'
    n = 0
    mine = [m for m, st, v, loc in R.I.escapes if F.bodies[m].kind == 'closure' and mentions(A.eta(I.norm(st, v)), S.req)]
    for m, st, v, loc in R.I.escapes:
        b = F.bodies[m]
        if b.kind != 'coroutine' or any(o is st for o, _, _ in S.outs):
            continue
        v = A.eta(I.norm(st, v))
        if not (is_ok(v) or is_err(v)):
            continue
        holds = any(x.tag == 'clo' and x.a[0] in mine for x in subterms(v))
        if is_ok(v) and not holds:
            continue
        n += 1
        A.check(is_ok(v), what, A.span(m), 'a connection gets %s' % show(v)[:150])
    for m, st, v, loc in R.I.escapes:
        # or an already known service
        v = A.eta(I.norm(st, v))
        if F.bodies[m].kind == 'closure' and v.tag == 'app' and v.a[0].split('::')[-1] in ('ready', 'ok', 'err') and any(x.tag == 'clo' and x.a[0] in mine for x in subterms(v)):
            n += 1
            A.check(True if v.a[0].endswith('ok') or is_ok(v.a[1]) else (False if v.a[0].endswith('err') or is_err(v.a[1]) else None), what, A.span(m), 'a connection gets %s' % show(v)[:150])
    if not n:
        A.und(what, '', 'not found what is made for a connection')
    # the server is awaited as it is
    what = 'nothing but the operating system ends the server'
    for J in {id(J): J for J in (I, R.I)}.values():
        for x in J.sites:
            if x[0] in ('partial:process::exit', 'partial:process::abort', 'partial:intrinsics::abort'):
                if any(mentions(f, S.req) for f in x[5].facts) or any(x[4].startswith(m) for m in mine):
                    A.bad(what, x[3], 'the process is ended here')
    n = 0
    for st, v in R.outs:
        for e in events(st, 'call', 'await'):
            t = A.eta(e.a[4])
            names = {x.a[0].split('#')[0].split('<')[0].split('::')[-1] for x in subterms(t) if x.tag == 'app' and isinstance(x.a[0], str)}
            if not names & {'serve'}:
                continue
            n += 1
            ends = sorted(names & set(ENDS))
            direct = t.tag == 'app' and t.a[0].split('<')[0].split('::')[-1] == 'serve'
            A.check(False if ends else (True if direct else None), what, e.a[1], 'it is run by %s' % (', '.join(ends) or show(t)[:150]))
            for x in subterms(t):
                if x.tag == 'app' and isinstance(x.a[0], str) and x.a[0].startswith('Builder::'):
                    m = x.a[0].split('::')[-1].split('<')[0]
                    if m in ('http1_header_read_timeout',):
                        A.bad(what, e.a[1], 'a client is given only so long: %s' % m)
                    if m in SETTINGS:
                        val = x.a[2] if len(x.a) > 2 else None
                        if SETTINGS[m] is not None:
                            A.check(False if val is SETTINGS[m] else (True if val is not None and val.tag == 'k' else None), 'the settings of the server keep it running for every client', e.a[1], '%s(%s)' % (m, show(val) if val is not None else ''))
    if not n:
        A.und(what, A.span(R.name), 'no awaited server found')
