"""Reading requests: P12, P13, P20, P24, P28, P30."""
from ..base import *
from .respond import strip_text, is_empty_body, lossy, resp_fields


def fn_of(t):
    return t.a[0].split('<')[0] if t.tag == 'app' else ''


def last(t):
    return fn_of(t).split('::')[-1]


class Ctx:
    """The parts of Context, found by their types"""

    def __init__(self, A):
        a = A.adt('Context')
        self.adt = a
        self.ok = a is not None
        if self.ok:
            self.req = field_by_type(A, a, lambda t: is_adt(t, 'Request'))
            self.params = field_by_type(A, a, lambda t: is_adt(t, 'HashMap'))
            self.resp = field_by_type(A, a, lambda t: is_opt_of(t, lambda u: is_adt(u, 'Response')))
            self.ok = bool(self.req and self.params and self.resp)
        if not self.ok:
            A.und('Context', '', 'its fields are not a request, parameters and an optional response')

    def field(self, base, *names):
        v = base
        for n in names:
            v = mk('fld', v, n)
        return v


def through(t):
    """a value without the conversions which keep its content: bytes, slices, text views"""
    while True:
        u = strip_text(t)
        if u is t:
            if t.tag == 'app' and len(t.a) == 2 and last(t) in ('freeze', 'chunk_all', 'to_bytes_whole', 'clone', 'copy_to_bytes_all', 'as_slice', 'reader'):
                u = t.a[1]
            elif t.tag == 'app' and last(t) == 'copy_to_bytes' and len(t.a) == 3 and last(t.a[2]) == 'remaining' and t.a[2].a[1] is t.a[1]:
                u = t.a[1]
        if u is t:
            return t
        t = u


PARTIAL = ('chunk', 'sub', 'range', 'take', 'truncate', 'split_to', 'split_off', 'slice', 'skip', 'removed', 'truncated', 'data', 'trim', 'limit', 'next', 'poll_data', 'strip_prefix', 'strip_suffix', 'split_first', 'split_last', 'split_at')


def chunked(A, I, st, x, body):
    """x is collected chunk by chunk until there are no more: True, False or None if it is not collected in a loop"""
    parts = seqparts(x)
    if len(parts) != 1 or parts[0].tag != 'rep' or parts[0] not in I.lvs:
        return None
    acc = parts[0]
    info = I.lvs[acc]
    if info['loop'] not in I.iters:
        return None
    W, backs, S0 = I.iters[info['loop']]
    bs = [l for l, i in I.lvs.items() if i['loop'] == info['loop'] and i['init'] is body and l.tag == 'lv']
    if info['init'].tag != 'seq' or info['init'].a or len(bs) != 1 or not backs:
        return None
    reads = [app('await', f.a[0].a[1]) for f in st.facts if f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'await' and reads_next(f.a[0], bs[0])]
    if not reads:
        return None
    nxt = reads[0]
    chunk = mk('fld', mk('as', mk('fld', mk('as', nxt, 'Some'), '0'), 'Ok'), '0')
    for b in backs:
        if A.variant(b, nxt) is None:
            return None
        root, path = info['at']
        now = seqparts(A.eta(I.norm(b, I.load(b, root, path))))
        if A.variant(b, nxt) != 'Some' or A.variant(b, chunk.a[0].a[0]) != 'Ok':
            return False
        if len(now) == 1 and now[0] is acc:
            if A.truth(b, is_empty(chunk)) is not True:
                return False
        elif len(now) != 2 or now[0] is not acc or now[1].tag != 'all':
            return None
        elif through(now[1].a[0]) is not chunk:
            return None if unknown(now[1].a[0]) else False
    return A.variant(st, nxt) == 'None'


def reads_next(aw, b):
    src = aw.a[1]
    return src.tag == 'app' and last(src) in ('data', 'next') and len(src.a) == 2 and src.a[1] is b


def read_whole(A, I, st, d, body):
    """d is the content of the whole of body: True, False, None; and the reading it is the success of"""
    x = through(d)
    if x.tag == 'seq':
        good = chunked(A, I, st, x, body)
        if good is not None:
            return good, None
    if x.tag == 'fld' and x.a[1] == '0' and x.a[0].tag == 'as' and x.a[0].a[1] == 'Ok':
        aw = x.a[0].a[0]
        src = aw.a[1] if aw.tag == 'app' and aw.a[0] == 'await' else aw
        if src.tag == 'app' and last(src) in ('to_bytes', 'aggregate', 'concat') and len(src.a) == 2:
            if src.a[1] is body:
                return (True if aw.a[0] == 'await' else None), aw
            return (None if unknown(src.a[1]) else False), aw
    if not any(y is body for y in subterms(x)):
        return (None if unknown(x) else False), None
    if any(y.tag == 'app' and last(y) in PARTIAL for y in subterms(x)) and not unknown(x):
        return False, None
    return None, None


def decodes(R, v, st):
    """decoder applications a result is made from: [(app, data)]"""
    out = []
    for x in subterms(v):
        if x.tag == 'app' and (last(x) in ('from_slice', 'from_str', 'from_reader') and 'json' in x.a[0] or fn_of(x) == 'Deserialize::deserialize'):
            out.append(x)
    return out


def form_input(A, R, x):
    """the map a form decoder reads, or None"""
    for y in subterms(x.a[1]):
        if y.tag == 'iter':
            return y
    return None


class Extraction:
    """One extractor: its outcomes with the decoder, data and verdicts"""

    def __init__(self, A, name):
        self.name, self.A = name, A
        self.R = A.run(name, asynchronous=A.is_async(name))
        self.w = A.span(name)
        self.outs = [(st, A.norm(self.R, st, v)) for st, v in self.R.outs]


def extractors(A):
    r = A.cache.get('extractors')
    if r is None:
        r = {m: Extraction(A, n) for m in ('param', 'query_params', 'form', 'json') for n in [A.method('Context', m)] if n}
        for m in ('param', 'query_params', 'form', 'json'):
            if m not in r:
                A.und('Context::%s' % m, '', 'not found')
        A.cache['extractors'] = r
    return r


def form_sources(A, R, m, seen=None):
    """what the text was which the pairs of a map were split from; None when not known"""
    seen = set() if seen is None else seen
    out = set()
    for x in deep(R.I, m, seen):
        if x.tag == 'app' and x.a[0] == 'form_pairs':
            out.add(x.a[1])
    return out


def data_of(A, E, x):
    """[data] a decoder application reads, [] when unknown"""
    if fn_of(x) == 'Deserialize::deserialize':
        return sorted(form_sources(A, E.R, x.a[1]), key=lambda t: t.id)
    return [x.a[1]]


def success(A, st, v):
    """(kind, decoder) of a returned value: 'err', 'same' (decoder's result returned), 'ok' with payload"""
    if is_err(v):
        return 'err', None
    if is_ok(v):
        return 'ok', pay(v)
    var = A.variant(st, v)
    if var == 'Err':
        return 'err', v
    return 'same', v


# ------------------------------------------------------------------ P12
def P12(A):
    C = Ctx(A)
    if not C.ok:
        return
    p0 = s('p0')
    body = C.field(p0, C.req, 'body')
    Es = extractors(A)
    for m in ('form', 'json'):
        E = Es.get(m)
        if E is None:
            continue
        n = 0
        for st, v in E.outs:
            kind, d = success(A, st, v)
            ds = decodes(E.R, v, st) or [x for f in st.facts for x in decodes(E.R, f, st)]
            for x in ds:
                src = data_of(A, E, x)
                if not src:
                    A.check(None if unknown(x) else False, 'Context::%s decodes the request body' % m, E.w, 'it decodes %s' % show(x)[:200])
                for d in src:
                    n += 1
                    good, rd = read_whole(A, E.R.I, st, d, body)
                    if good is None and m == 'json' and any(y.tag == 'app' and last(y) == 'from_utf8_lossy' for y in subterms(d)):
                        # what is not text becomes some
                        good = False
                    A.check(good, 'Context::%s decodes the whole request body' % m, E.w, 'it decodes %s' % show(d)[:300])
                    if rd is not None and kind != 'err':
                        A.check(True if A.variant(st, rd) == 'Ok' else (None if unknown(rd) else False), 'Context::%s decodes only what was read completely' % m, E.w,
                                'no test that %s succeeded' % show(rd)[:200])
            for f, r in st.facts.items():
                if f.tag == 'disc' and r == ('is', 'Err') and f.a[0].tag == 'app' and f.a[0].a[0] == 'await' and any(y is body for y in subterms(f.a[0])):
                    A.check(kind == 'err', 'Context::%s fails when the body cannot be read' % m, E.w, 'it returns %s' % show(v)[:200])
        if not n:
            A.und('Context::%s decodes the whole request body' % m, E.w, 'no decoding found')


# ------------------------------------------------------------------ P13
def P05(A):
    P13(A, ('param',))


def P13(A, only_of=None):
    C = Ctx(A)
    if not C.ok:
        return
    p0, p1 = s('p0'), s('p1')
    Es = extractors(A)
    body = C.field(p0, C.req, 'body')
    uri = C.field(p0, C.req, 'uri')
    params = C.field(p0, C.params)

    def param_data(x, st):
        """the text parsed is exactly the parameter of that name"""
        d = strip_text(x)
        if d.tag == 'app' and d.a[0] == 'mval' and d.a[1] is params and strip_text(d.a[2]) is p1:
            return True
        if d.tag == 'fld' and d.a[0].tag == 'as' and d.a[0].a[1] == 'Some' and d.a[0].a[0].tag == 'app' and d.a[0].a[0].a[0] == 'HashMap::get':
            return d.a[0].a[0].a[1] is params and strip_text(d.a[0].a[0].a[2]) is p1
        return None if unknown(x) else False

    def query_data(x, st):
        d = strip_text(x)
        q = [y for y in subterms(d) if y.tag == 'app' and y.a[0] == 'Uri::query' and y.a[1] is uri]
        if d.tag == 'k' and d.a[0] in ('', 'b""'):
            for f, r in st.facts.items():
                if f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'Uri::query' and f.a[0].a[1] is uri and r == ('is', 'None'):
                    return True
            return False
        if q and d is mk('fld', mk('as', q[0], 'Some'), '0'):
            return True
        if q and d.tag == 'app' and last(d) in ('unwrap_or_default', 'unwrap_or'):
            return True
        return None if unknown(x) or not q else False

    def body_data(x, st):
        return read_whole(A, E.R.I, st, x, body)[0]

    spec = {'param': param_data, 'query_params': query_data, 'form': body_data, 'json': body_data}
    for m, E in Es.items():
        if only_of and m not in only_of:
            continue
        n = 0
        fn = 'Context::' + m
        for st, v in E.outs:
            kind, x = success(A, st, v)
            if kind == 'err':
                A.ok(fn + ' reports failures as errors', E.w)
                continue
            if kind == 'same':
                decs = [x] if x.tag == 'app' else []
                good = bool(decs) and (last(x) in ('from_slice', 'from_str', 'from_reader', 'deserialize') or x.a[0].startswith('parse'))
            else:
                # Ok(payload): the payload of a successful decoding
                good = x.tag == 'fld' and x.a[0].tag == 'as' and x.a[0].a[1] == 'Ok' and x.a[0].a[0].tag == 'app'
                d = x.a[0].a[0] if good else None
                good = good and (last(d) in ('from_slice', 'from_str', 'from_reader', 'deserialize') or d.a[0].startswith('parse'))
                if good and A.variant(st, d) != 'Ok':
                    good = None
                x = d if good else x
            if not good:
                A.check(None if good is None or unknown(x) else False, fn + ' returns only values it decoded', E.w, 'it returns %s' % show(v)[:300])
                continue
            A.ok(fn + ' returns only values it decoded', E.w)
            n += 1
            src = [x.a[1]] if m == 'param' else data_of(A, E, x)
            if not src:
                A.check(None if unknown(x) else False, fn + ' decodes the data asked for', E.w, 'it decodes %s' % show(x)[:300])
            for d in src:
                A.check(spec[m](d, st), fn + ' decodes the data asked for', E.w, 'it decodes %s' % show(d)[:300])
            for f, r in st.facts.items():
                # a lookup or reading that failed on this path
                if f.tag == 'disc' and r[0] == 'is' and r[1] in ('None', 'Err'):
                    y = f.a[0]
                    if y.tag == 'app' and (y.a[0] == 'HashMap::get' and y.a[1] is params or y.a[0] == 'await' and (r[1] == 'Err' or not (y.a[1].tag == 'app' and last(y.a[1]) in ('data', 'next', 'trailers'))) or y is x):
                        A.bad(fn + ' fails when there is nothing to decode', E.w, 'it returns a value though %s' % show(f)[:200])
        if not n:
            A.und(fn, E.w, 'no successful outcome found')


# ------------------------------------------------------------------ P24
def P24(A):
    p0, p1 = s('p0'), s('p1')
    err_adt = A.adt('ObsidianError')
    if err_adt is None:
        A.und('ObsidianError', '', 'not found')
        return
    own = {err_adt['p']}
    n = 0
    # conversions
    for t, name in A.impl('From', 'from'):
        if t[0] != 'adt' or t[1] not in A.F.adts:
            continue
        b = A.F.bodies[name]
        src = A.F.ty(b.locals[1][0])
        if not (is_adt(t, 'ObsidianError') or is_adt(t, 'Error') and 'rror' in t[1]) or src[0] != 'adt':
            continue
        own.add(src[1])
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            if v.tag == 'agg' and v.a[0] == t[1]:
                good = len(v.a) == 4 and v.a[3] is p0
                A.check(True if good else (None if unknown(v) else False), 'converting an error keeps it', A.span(name), 'it becomes %s' % show(v)[:200])
                # the variant made for errors of that type
                vs = [x[0] for x in A.F.adts[t[1]]['variants'] if len(x[1]) == 1 and A.F.ty(x[1][0][1]) == src]
                if good and len(vs) == 1:
                    A.check(v.a[1] == vs[0], 'converting an error keeps its kind', A.span(name), 'it becomes %s' % show(v)[:200])
            else:
                A.check(None if unknown(v) else False, 'converting an error keeps it', A.span(name), 'it becomes %s' % show(v)[:200])
    for t, name in A.impl('Error', 'custom'):
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            good = v.tag == 'agg' and len(v.a) == 4 and strip_text(v.a[3]) is p0
            A.check(True if good else (None if unknown(v) else False), 'a message given to an error is kept', A.span(name), 'it becomes %s' % show(v)[:200])
            if v.tag == 'agg':
                own.add(v.a[0])
    # printing
    for t, name in A.impl('Display', 'fmt'):
        if t[0] != 'adt' or t[1] not in own:
            continue
        # what other errors print is their own text
        R = A.run(name, contracts={nm: display_contract for _, nm in A.impl('Display', 'fmt') if nm != name})
        adt = A.F.adts[t[1]]
        payload = {x[0]: [f[0] for f in x[1]] for x in adt['variants']}
        w = A.span(name)
        seen = set()
        texts = {}
        for st, v in R.outs:
            var = A.variant(st, p0)
            v = A.norm(R, st, v)
            if var is None:
                outs = [x for x in subterms(v) if x.tag == 'as' and x.a[0] is p0]
                A.check(None if outs or unknown(v) else False, 'the text of an error is that of its cause', w, 'it does not depend on the kind of error: %s' % show(v)[:200])
                continue
            if len(payload) == 1 or var in payload:
                seen.add(var)
            txt = v.a[1] if v.tag == 'app' and v.a[0] == 'fmtresult' else v
            if is_ok(v):
                txt = k('')
            if payload.get(var):
                n += 1
                x = mk('fld', mk('as', p0, var), payload[var][0])
                got = strip_text(txt)
                if got.tag == 'app' and last(got) == 'fmt' and got.a[1] is x:
                    got = x
                A.check(True if got is x else (None if unknown(txt) or txt is v and v.tag == 'app' else False),
                        'the text of %s::%s is that of its cause' % (t[1].split('::')[-1], var), w, 'it is %s' % show(txt)[:200])
            else:
                n += 1
                A.check(False if is_empty_body(txt) else True, 'the text of %s::%s is not empty' % (t[1].split('::')[-1], var), w, 'it is %s' % show(txt)[:200])
        if not seen:
            A.und('the text of %s' % t[1], w, 'its kinds are not told apart')
    # errors made by extraction
    Es = extractors(A)
    for m, E in Es.items():
        for st, v in E.outs:
            if not is_err(v):
                continue
            e = pay(v)
            if e.tag == 'agg' and e.a[1] == 'ParamError':
                n += 1
                A.check(True if any(x is p1 for x in subterms(e)) else (None if unknown(e) else False), 'a parameter error names the parameter', E.w, 'it is %s' % show(e)[:200])
            fails = [f.a[0] for f, r in st.facts.items() if f.tag == 'disc' and r == ('is', 'Err') and f.a[0].tag == 'app'
                     and (fn_of(f.a[0]) == 'Deserialize::deserialize' or 'json' in f.a[0].a[0] and last(f.a[0]).startswith('from_'))]
            for x in fails:
                n += 1
                want = mk('fld', mk('as', x, 'Err'), '0')
                good = e.tag == 'agg' and len(e.a) == 4 and e.a[3] is want and e.a[1] == ('JsonError' if 'json' in x.a[0] else 'FormError')
                A.check(True if good else (None if e.tag != 'agg' and mentions(e, want) else False), 'a decoding error is passed on as it is', E.w, 'it becomes %s' % show(e)[:200])
            if m == 'param' and e.tag == 'agg' and not unknown(e) and not mentions(e, p1) and not st.facts and any(f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'HashMap::get' and r == ('is', 'Some') for st2, v2 in E.outs for f, r in st2.facts.items()):
                # the same error whether the parameter is missing or something else failed
                n += 1
                A.bad('a parameter error names the parameter', E.w, 'it is %s, not only where there is no such parameter' % show(e)[:150])
            if m == 'param' and any(f.tag == 'disc' and r == ('is', 'Err') and f.a[0].tag == 'app' and f.a[0].a[0].startswith('parse') for f, r in st.facts.items()):
                n += 1
                A.check(True if any(x is p1 for x in subterms(e)) else (None if unknown(e) else False), 'a parameter error names the parameter', E.w, 'it is %s' % show(e)[:200])
    if n < 12:
        A.und('errors', '', 'only %d outcomes found' % n)


def display_contract(I, st, fr, args, loc, c):
    return [(st, app('fmtresult', app('disp', I.norm(st, args[0]))))]


# ------------------------------------------------------------------ P28
def P28(A):
    C = Ctx(A)
    if not C.ok:
        return
    p0, p1, p2 = s('p0'), s('p1'), s('p2')
    req = C.field(p0, C.req)
    n = 0

    def view(m, want):
        name = A.method('Context', m)
        if name is None:
            return
        nonlocal n
        R = A.run(name)
        w = A.span(name)
        for st, v in R.outs:
            n += 1
            got = A.norm(R, st, v)
            A.check(want(R, st, v, got), 'Context::%s shows the request as it is' % m, w, 'it returns %s' % show(got)[:200])
            unchanged(A, R, st, p0, 'Context::%s changes nothing' % m, w)

    def exact(t):
        return lambda R, st, v, got: same(R.I, got, t)

    for m in ('headers', 'method', 'uri', 'extensions'):
        view(m, exact(mk('fld', req, m)))
    for m in ('headers', 'extensions'):
        def place(R, st, v, got, m=m):
            if got is mk('fld', req, m):
                return True
            return None if unknown(got) else False
        view(m + '_mut', place)
    view('response', exact(C.field(p0, C.resp)))
    view('response_mut', exact(C.field(p0, C.resp)))
    view('take_response', exact(C.field(p0, C.resp)))
    ext = mk('fld', req, 'extensions')

    def ext_get(R, st, v, got):
        if got.tag == 'app' and last(got) in ('get', 'get_mut') and got.a[1] is ext and len(got.a) == 2:
            return True
        return None if unknown(got) or mentions(got, ext) else False
    name = A.method('Context', 'get')
    view('get', ext_get)
    name = A.method('Context', 'add')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            now = A.eta(R.I.norm(st, p0))
            e = A.eta(proj(proj(now, ('f', C.req)), ('f', 'extensions')))
            good = e.tag == 'app' and e.a[0].startswith('ext_insert') and e.a[1] is ext and e.a[-1] is p1
            A.check(True if good else (None if unknown(e) else False), 'Context::add adds the given value to the request', A.span(name), 'extensions: %s' % show(e)[:200])
            only(A, R, st, p0, C, ('extensions',), 'Context::add changes nothing else', A.span(name))
    # extraction
    Es = extractors(A)
    for m, E in Es.items():
        for st, v in E.outs:
            n += 1
            if m in ('form', 'json'):
                only(A, E.R, st, p0, C, ('body',), 'Context::%s consumes only the body' % m, E.w)
            else:
                unchanged(A, E.R, st, p0, 'Context::%s changes nothing' % m, E.w)
    name = A.method('Context', 'take_body')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            got = A.norm(R, st, v)
            A.check(same(R.I, got, mk('fld', req, 'body')), 'Context::take_body returns the body of the request', A.span(name), 'it returns %s' % show(got)[:200])
            b = A.eta(proj(proj(A.eta(R.I.norm(st, p0)), ('f', C.req)), ('f', 'body')))
            A.check(True if is_empty_body(b) else (None if unknown(b) else False), 'Context::take_body leaves an empty body', A.span(name), 'it leaves %s' % show(b)[:200])
            only(A, R, st, p0, C, ('body',), 'Context::take_body changes nothing else', A.span(name))
    # a new context holds what it is given
    name = A.method('Context', 'new')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            A.check(same(R.I, A.eta(proj(v, ('f', C.req))), p0), 'a new context holds the request it is given', A.span(name), show(v)[:200])
            A.check(same(R.I, A.eta(proj(v, ('f', C.params))), p1), 'a new context holds the parameters it is given', A.span(name), show(v)[:200])
            r = A.eta(proj(v, ('f', C.resp)))
            A.check(True if is_none(r) else (None if unknown(r) else False), 'a new context has no response', A.span(name), show(r)[:200])
    # building a response
    a = A.adt('ResponseBuilder')
    if a is None:
        A.und('ResponseBuilder', '', 'not found')
        return
    fc = field_by_type(A, a, lambda t: is_adt(t, 'Context'))
    fr = field_by_type(A, a, lambda t: is_adt(t, 'Response'))
    for m in ('build', 'build_json', 'build_file'):
        name = A.method('Context', m)
        if name:
            R = A.run(name, asynchronous=A.is_async(name))
            for st, v in R.outs:
                n += 1
                c = A.eta(proj(A.norm(R, st, v), ('f', fc)))
                A.check(same(R.I, c, p0), 'Context::%s keeps the context' % m, A.span(name), 'context: %s' % show(c)[:200])
    for nm in list(A.F.bodies):
        b = A.F.bodies[nm]
        if b.kind == 'method' and canon(nm).split('::')[-2:-1] == ['ResponseBuilder'] and b.impl_trait is None and b.argc >= 1:
            t = A.F.ty(b.locals[1][0])
            if not is_adt(strip_refs(t), 'ResponseBuilder'):
                continue
            R = A.run(nm, asynchronous=A.is_async(nm))
            rt = A.F.ty(b.locals[0][0])
            base = mk('fld', p0, fc)
            for st, v in R.outs:
                n += 1
                v = A.norm(R, st, v)
                if is_adt(rt, 'ResponseBuilder'):
                    c = A.eta(proj(v, ('f', fc)))
                    A.check(same(R.I, c, base), '%s keeps the context' % canon(nm), A.span(nm), 'context: %s' % show(c)[:200])
                elif v.tag == 'agg' and v.a[0] == RES:
                    if not is_ok(v):
                        A.bad('%s returns the context' % canon(nm), A.span(nm), 'it returns %s' % show(v)[:200])
                        continue
                    c = pay(v)
                    for f in (C.req, C.params):
                        g = A.eta(proj(c, ('f', f)))
                        A.check(same(R.I, g, mk('fld', base, f)), '%s keeps the %s of the context' % (canon(nm), f), A.span(nm), show(g)[:200])
                    g = A.eta(proj(c, ('f', C.resp)))
                    A.check(True if is_some(g) and pay(g) is mk('fld', p0, fr) else (None if unknown(g) else False), '%s puts in the response that was built' % canon(nm), A.span(nm), show(g)[:200])
    if n < 20:
        A.und('reading a request', '', 'only %d outcomes found' % n)


def unchanged(A, R, st, p0, what, w):
    now = A.eta(R.I.norm(st, p0))
    A.check(same(R.I, now, p0), what, w, 'it becomes %s' % show(now)[:200])


def only(A, R, st, p0, C, parts, what, w):
    """nothing but these parts of the request changed"""
    now = A.eta(R.I.norm(st, p0))
    if now is p0:
        A.ok(what, w)
        return
    for f in (C.params, C.resp):
        g = A.eta(proj(now, ('f', f)))
        A.check(same(R.I, g, mk('fld', p0, f)), what, w, '%s becomes %s' % (f, show(g)[:200]))
    r = A.eta(proj(now, ('f', C.req)))
    base = mk('fld', p0, C.req)
    for f in ('method', 'uri', 'headers', 'version', 'extensions', 'body'):
        if f in parts:
            continue
        g = A.eta(proj(r, ('f', f)))
        A.check(same(R.I, g, mk('fld', base, f)), what, w, '%s becomes %s' % (f, show(g)[:200]))


# ------------------------------------------------------------------ P20
INTS = {'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0)}
SCALARS = list(INTS) + ['f32', 'f64', 'bool', 'char']


def value_deserializers(A):
    """self types of Deserializer impls that read the values of one field"""
    out = []
    for t, name in A.impl('Deserializer', 'deserialize_bool'):
        u = strip_refs(t)
        if u[0] == 'adt' and u[1] in A.F.adts:
            fs = A.F.adts[u[1]]['variants'][0][1]
            if not any('Iter' in A.F.tys(f[1]) or 'Peekable' in A.F.tys(f[1]) for f in fs):
                out.append(u[1])
    return out


def de_impls(A, ty):
    return {m: name for t, ms in [(i['self'], i['methods']) for n, impls in A.F.trait_impls.items() if n.endswith('::Deserializer') or n == 'serde::Deserializer' for i in impls]
            if strip_refs(A.F.ty(t))[0] == 'adt' and strip_refs(A.F.ty(t))[1] == ty for m, name in ms if name in A.F.bodies}


def is_first(x, p0, inp):
    """x is the first value of the field, unchanged"""
    x = strip_text(x)
    return x is index(inp, k(0)) or x is app('elem', inp, k(0))


def P20(A):
    p0, p1 = s('p0'), s('p1')
    tys = value_deserializers(A)
    if len(tys) != 1:
        A.und('the decoder of field values', '', '%d candidates' % len(tys))
        return
    ty = tys[0]
    adt = A.F.adts[ty]
    ms = de_impls(A, ty)
    fi = field_by_type(A, adt, lambda t: strip_refs(t)[0] == 'slice' or is_adt(strip_refs(t), 'Vec'))
    if fi is None:
        A.und('the decoder of field values', adt['span'], 'does not hold a list of texts')
        return
    inp = mk('fld', p0, fi)
    first = index(inp, k(0))
    n = 0
    for sc in SCALARS:
        name = ms.get('deserialize_' + sc)
        what = 'a value asked for as %s is parsed as %s' % (sc, sc)
        if name is None:
            A.bad(what, adt['span'], 'there is no deserialize_%s' % sc)
            continue
        R = A.run(name)
        w = A.span(name)
        good_seen = False
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            quiet(A, R, st, p0, 'decoding a scalar leaves the field as it was', w)
            parsed = [x for x in list(subterms(v)) + [y for f in st.facts for y in subterms(f)] if x.tag == 'app' and x.a[0].startswith('parse<')]
            if is_err(v):
                # an error: there is no value, or it does not parse
                fails = [x for x in parsed if A.variant(st, x) == 'Err']
                none = A.truth(st, is_empty(inp)) is True or any(
                    f.tag == 'disc' and r == ('is', 'None') and mentions(f.a[0], inp) for f, r in st.facts.items())
                good = none or bool(fails) and all(x.a[0] == 'parse<%s>' % sc and is_first(x.a[1], p0, inp) for x in fails)
                A.check(True if good else (None if unknown(v) or not fails and any(unknown(f) for f in st.facts) else False),
                        'only a missing or unparsable value asked for as %s is an error' % sc, w, 'it fails when %s' % '; '.join('%s %s' % (show(f)[:80], r) for f, r in list(st.facts.items())[:4]))
                continue
            val = visited(v, sc)
            if val is None:
                A.check(None if unknown(v) else False, what, w, 'it returns %s' % show(v)[:200])
                continue
            kind, x = val
            if kind != sc and not (kind in INTS and sc in INTS and INTS[kind][1] == INTS[sc][1] and INTS[kind][0] > INTS[sc][0]):
                A.bad(what, w, 'it is handed on as %s' % kind)
                continue
            y = x
            if y.tag == 'app' and y.a[0].startswith('cast') and len(y.a) >= 2 and kind != sc:
                y = y.a[1]
            elif y.tag == 'app' and last(y) in ('from', 'into') and kind != sc:
                y = y.a[-1]
            good = y.tag == 'fld' and y.a[0].tag == 'as' and y.a[0].a[1] == 'Ok' and y.a[0].a[0].tag == 'app' and y.a[0].a[0].a[0].startswith('parse<')
            if not good:
                A.check(None if unknown(x) or sc in ('char', 'bool') and not any(z.tag == 'app' and z.a[0] in ('chars', 'elem') and mentions(z, first) and z is not first for z in subterms(x)) and mentions(x, first) else False,
                        what, w, 'the value is %s' % show(x)[:200])
                continue
            p = y.a[0].a[0]
            A.check(p.a[0] == 'parse<%s>' % sc, what, w, 'it is parsed by %s' % p.a[0])
            A.check(True if is_first(p.a[1], p0, inp) else (None if unknown(p.a[1]) else False), 'a scalar is parsed from the first value of its field', w, 'it parses %s' % show(p.a[1])[:200])
            good_seen = True
        if not good_seen and R.outs:
            A.und('%s (accepting path)' % what, w, 'none found')
    # text
    for m in ('deserialize_str', 'deserialize_string', 'deserialize_any', 'deserialize_identifier'):
        name = ms.get(m)
        if name is None:
            A.bad('text is handed on unchanged', adt['span'], 'there is no %s' % m)
            continue
        R = A.run(name)
        w = A.span(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            quiet(A, R, st, p0, 'decoding a scalar leaves the field as it was', w)
            if is_err(v):
                none = A.truth(st, is_empty(inp)) is True or any(f.tag == 'disc' and r == ('is', 'None') and mentions(f.a[0], inp) for f, r in st.facts.items())
                A.check(True if none else (None if unknown(v) else False), 'text is an error only when the field has no value', w, show(v)[:200])
                continue
            if v.tag == 'app' and v.a[0] in ('Visitor::visit_str', 'Visitor::visit_string', 'Visitor::visit_borrowed_str'):
                A.check(True if is_first(v.a[2], p0, inp) else (None if unknown(v.a[2]) else False), 'text is handed on unchanged', w, 'it hands on %s' % show(v.a[2])[:200])
            else:
                x = visited(v, 'str') or visited(v, 'string')
                if x:
                    A.check(True if is_first(x[1], p0, inp) else (None if unknown(x[1]) else False), 'text is handed on unchanged', w, 'it hands on %s' % show(x[1])[:200])
                else:
                    A.check(None if unknown(v) else False, 'text is handed on unchanged', w, 'it returns %s' % show(v)[:200])
    # options and wrappers
    name = ms.get('deserialize_option')
    if name:
        R = A.run(name)
        w = A.span(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            if v.tag == 'app' and v.a[0] in ('Visitor::visit_none', 'Visitor::visit_unit'):
                empty = A.truth(st, is_empty(inp)) is True or A.truth(st, is_empty(first)) is True or any(
                    r is True and f.tag == 'app' and f.a[0] == 'all' and f.a[1] is inp and f.a[3].tag == 'app' and f.a[3].a[0] == 'is_empty' and f.a[3].a[1] is f.a[2] or
                    r is True and f.tag == 'app' and f.a[0] in ('starts_with', 'eq') and mentions(f, inp) and any(x.tag == 'k' and x.a[0] == '' for x in subterms(f)) for f, r in st.facts.items())
                A.check(True if empty else (None if any(x.tag in UNKNOWN for f in st.facts for x in subterms(f)) else False), 'an optional value is absent only when it is empty', w, 'absent when %s' % '; '.join('%s %s' % (show(f)[:80], r) for f, r in list(st.facts.items())[:4]))
            elif v.tag == 'app' and v.a[0] == 'Visitor::visit_some':
                present = A.truth(st, is_empty(first)) is False or any(
                    r is False and f.tag == 'app' and (f.a[0] == 'starts_with' or f.a[0] == 'eq' or f.a[0] == 'all') and mentions(f, inp) for f, r in st.facts.items())
                # or the other outcome takes all that are empty
                present = present or any(absent(A, R, s2, v2, inp, first) for s2, v2 in R.outs)
                A.check(True if present else (None if any(mentions(f, inp) for f in st.facts) else False), 'an optional value which is empty is absent', w, 'present when %s' % ('; '.join('%s %s' % (show(f)[:80], r) for f, r in list(st.facts.items())[:4]) or 'whatever it is'))
                A.check(True if v.a[2] is p0 or is_rebuilt(A, v.a[2], ty, inp) else (None if unknown(v.a[2]) else False), 'a present optional value is decoded from the same field', w, show(v)[:200])
            elif is_err(v):
                A.bad('an optional value is never an error by itself', w, show(v)[:200])
            else:
                A.check(None if unknown(v) else False, 'an optional value is absent or decoded', w, show(v)[:200])
    else:
        A.bad('optional values can be decoded', adt['span'], 'there is no deserialize_option')
    name = ms.get('deserialize_newtype_struct')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            good = v.tag == 'app' and v.a[0] == 'Visitor::visit_newtype_struct' and (v.a[2] is p0 or is_rebuilt(A, v.a[2], ty, inp))
            A.check(True if good else (None if unknown(v) else False), 'a wrapper type is decoded from the same field', A.span(name), show(v)[:200])
    name = ms.get('deserialize_unit')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            A.check(True if v.tag == 'app' and v.a[0] == 'Visitor::visit_unit' else (None if unknown(v) else False), 'the empty type is decoded from any value', A.span(name), show(v)[:200])
    for m in ('deserialize_seq', 'deserialize_tuple'):
        name = ms.get(m)
        if name is None:
            A.bad('several values can be decoded', adt['span'], 'there is no %s' % m)
            continue
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            good = v.tag == 'app' and v.a[0] == 'Visitor::visit_seq'
            A.check(True if good else (None if unknown(v) else False), 'a list or tuple is decoded from all values of its field', A.span(name), show(v)[:200])
    if n < 30:
        A.und('decoding of scalars', '', 'only %d outcomes found' % n)


def absent(A, R, st, v, inp, first):
    """an outcome which every empty first value leads to, and which is that of no value"""
    v = A.norm(R, st, v)
    if not (v.tag == 'app' and v.a[0] in ('Visitor::visit_none', 'Visitor::visit_unit')):
        return False
    for f, r in st.facts.items():
        if f is is_empty(first) and r is True or f is is_empty(inp) and r is False:
            continue
        if f.tag == 'disc' and r == ('is', 'Some') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[1] is inp:
            continue
        if f.tag == 'app' and f.a[0] in ('starts_with', 'eq') and r is True and mentions(f, inp):
            continue
        return False
    return True


def is_rebuilt(A, x, ty, inp):
    return x.tag == 'agg' and x.a[0] == ty and inp in x.a[3:]


def quiet(A, R, st, p0, what, w):
    now = A.eta(R.I.norm(st, p0))
    A.check(same(R.I, now, p0), what, w, 'it becomes %s' % show(now)[:200])


def visited(v, sc):
    """(type, value) handed to the visitor"""
    if v.tag != 'app':
        return None
    if v.a[0].startswith('Visitor::visit_') and len(v.a) == 3:
        return v.a[0][len('Visitor::visit_'):], v.a[2]
    if v.a[0].startswith('Deserializer::deserialize_') and len(v.a) == 3 and v.a[1].tag == 'app' and last(v.a[1]) in ('into_deserializer', 'new'):
        # the value's own type decides what the visitor is given
        x = v.a[1].a[1]
        t = sc
        if x.tag == 'fld' and x.a[0].tag == 'as' and x.a[0].a[0].tag == 'app' and x.a[0].a[0].a[0].startswith('parse<'):
            t = x.a[0].a[0].a[0][6:-1]
        m = v.a[0][len('Deserializer::deserialize_'):]
        return (t if m in (t, 'any') or t in SCALARS else m), x
    return None


# ------------------------------------------------------------------ P30
def P30(A):
    Es = extractors(A)
    done = 0
    for m in ('query_params', 'form'):
        E = Es.get(m)
        if E is None:
            continue
        for st, v in E.outs:
            ds = decodes(E.R, v, st) or [x for f in st.facts for x in decodes(E.R, f, st)]
            for x in ds:
                if fn_of(x) != 'Deserialize::deserialize':
                    continue
                it = form_input(A, E.R, x)
                if it is None:
                    A.check(None if unknown(x) or not form_sources(A, E.R, x) else None, 'Context::%s decodes the collected pairs' % m, E.w, show(x)[:200])
                    continue
                if it.a[1] is not k(0) or len(it.a) > 3 and it.a[3:]:
                    A.check(None if unknown(it.a[1]) else False, 'the decoder starts at the first key', E.w, show(it)[:200])
                done += 1
                collected(A, E, st, it.a[0], 'Context::' + m)
    if not done:
        A.und('collection of the pairs', '', 'no map handed to the decoder')
    walk(A)


def lookup_fact(A, st, m, key):
    """is the key known to be in the map? 'Some', 'None' or None"""
    for f, r in st.facts.items():
        g = f.a[0] if f.tag == 'disc' else f.a[1] if f.tag == 'app' and f.a[0] == 'is_variant' else None
        if isinstance(g, T) and g.tag == 'app' and last(g) in ('get', 'get_mut', 'remove', 'get_key_value') and g.a[1] is m and strip_text(g.a[2]) is key:
            if f.tag == 'disc' and r[0] == 'is':
                return r[1]
            if f.tag == 'app':
                return f.a[2] if r else {'Some': 'None', 'None': 'Some'}.get(f.a[2])
            v = A.variant(st, g)
            if v is not None:
                return v
        if f.tag == 'app' and last(f) in ('contains_key', 'has') and f.a[1] is m and strip_text(f.a[2]) is key:
            return 'Some' if r else 'None'
    return None


def collected(A, E, st, m, fn, depth=0):
    """every pair of the text reaches m under its key, values of equal keys in order"""
    I = E.R.I
    w = E.w
    what = '%s keeps every non-empty value under its own key, in order' % fn
    if depth > 4:
        A.und(what, w, 'chain of maps too long')
        return
    if m.tag == 'app' and last(m) in ('into_owned', 'clone', 'from', 'into') and len(m.a) == 2:
        return collected(A, E, st, m.a[1], fn, depth + 1)
    if m.tag == 'app' and m.a[0] == 'collect_map':
        x = m.a[1]
        while x.tag == 'app' and x.a[0] in ('map', 'filter', 'collect', 'rev') and len(x.a) > 1:
            x = x.a[1]
        if x.tag == 'app' and x.a[0] == 'form_pairs':
            A.bad(what, w, 'of equal keys only the last is kept')
            return
        if x.tag == 'lv':
            return collected(A, E, st, x, fn, depth + 1)
        A.check(None if not lossy(x) else False, what, w, 'the map is %s' % show(m)[:200])
        return
    info = I.lvs.get(m)
    if m.tag != 'lv' or info is None or info.get('loop') not in I.iters:
        if m.tag == 'app' and m.a[0] == 'form_pairs':
            A.ok(what, w)
        elif m.tag == 'app' and m.a[0] == 'emptymap':
            A.bad(what, w, 'nothing is collected')
        else:
            A.check(False if lossy(m) and not unknown(m) else None, what, w, 'the map is %s' % show(m)[:200])
        return
    W, backs, S0 = I.iters[info['loop']]
    root, path = info['at']
    if path:
        A.und(what, w, 'the map is part of something else')
        return
    if not (info['init'].tag == 'app' and info['init'].a[0] == 'emptymap'):
        A.check(None if unknown(info['init']) else False, what, w, 'the map starts as %s' % show(info['init'])[:100])
    # what the loop runs over
    src = None
    its = [v for r, v in W.mem.items() if v.tag == 'iter' and any(b.mem.get(r) is not v for b in backs)]
    if len(its) != 1:
        A.und(what, w, 'the loop does not run over one thing')
        return
    it = its[0]
    src = it.a[0]
    if lossy(src) or len(it.a) > 3 and any(lossy(y) for y in it.a[3:] if isinstance(y, T)):
        A.bad(what, w, 'it runs over %s' % show(it)[:200])
        return
    elem = index(src, it.a[1])
    alt = app('elem', src, it.a[1])
    # it stops only at the end
    end = [r for f, r in st.facts.items() if f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[1] is src]
    if ('is', 'None') not in end:
        A.und(what, w, 'the loop may stop early')
    key, val = proj(elem, ('f', '0')), proj(elem, ('f', '1'))
    base = src
    while base.tag == 'app' and base.a[0] == 'filter':
        good = base.a[3] is not_(is_empty(mk('fld', base.a[2], '1')))
        if not good:
            A.check(None if any(x.tag in UNKNOWN for x in subterms(base.a[3])) else False, what, w, 'pairs are kept only if %s' % show(base.a[3])[:200])
            return
        base = base.a[1]
    pairs = base.tag == 'app' and base.a[0] == 'form_pairs'
    if base.tag == 'lv' and base is not src:
        A.und(what, w, 'the loop runs over %s' % show(src)[:150])
        return
    if not pairs and not (src.tag == 'lv'):
        A.und(what, w, 'the loop runs over %s' % show(src)[:150])
        return
    for b in backs:
        new = b.mem.get(root)
        old = m
        if new is None:
            A.und(what, w, 'the map is gone')
            continue
        has = lookup_fact(A, b, old, key)
        why = 'after one pair it is %s, with %s' % (show(new)[:300], '; '.join('%s %s' % (show(f)[:100], r) for f, r in b.facts.items() if mentions(f, key) or mentions(f, val))[:300])
        if new is old:
            if pairs:
                # nothing stored: only allowed for an empty value
                skip = A.truth(b, is_empty(val)) is True
                vague = any(unknown_but(f, (old, it.a[1])) for f in b.facts if mentions(f, elem))
                A.check(True if skip else (None if vague else False), what, w, why)
            else:
                A.check(True if has == 'Some' or A.truth(b, is_empty(val)) is True else False, what, w, why)
            continue
        if not (new.tag == 'app' and new.a[0] == 'minsert' and new.a[1] is old):
            bad = any(x.tag == 'app' and x.a[0] in ('mremove', 'emptymap') for x in subterms(new)) or new.tag == 'app' and new.a[0] == 'emptymap'
            A.check(False if bad else None, what, w, why)
            continue
        if pairs and A.truth(b, is_empty(val)) is not False:
            # a key without a value is not given at all, however it is stored
            vague = any(unknown_but(f, (old, it.a[1])) for f in b.facts if mentions(f, elem))
            if not nonempty_source(src):
                A.check(None if vague else False, '%s leaves out keys without a value' % fn, w, why)
                continue
        kx, vx = strip_text(new.a[2]), strip_text(new.a[3])
        if kx is not key:
            A.check(None if unknown_but(kx, (old, it.a[1])) else False, what, w, why)
            continue
        if not pairs:
            A.check(True if vx is val or vx is mk('seq', mk('all', val)) else (None if unknown_but(vx, (old, it.a[1])) else False), what, w, why)
            continue
        parts = [p for p in seqparts(vx)]
        prev = mk('all', app('mval', old, new.a[2]))
        prevs = (prev, mk('all', app('mval', old, key)))
        if len(parts) == 2 and parts[0] in prevs and is_one(parts[1], val):
            A.check(True if has != 'None' else False, what, w, why)
        elif len(parts) == 1 and is_one(parts[0], val):
            A.check(True if has == 'None' else (False if has == 'Some' else None), what, w, why)
        else:
            vague = any(unknown_but(p, (old, it.a[1])) for p in parts)
            A.check(None if vague else False, what, w, why)
    if not pairs:
        collected(A, E, st, src, fn, depth + 1)


def nonempty_source(src):
    """pairs without a value were filtered out before"""
    while src.tag == 'app' and src.a[0] == 'filter':
        if src.a[3] is not_(is_empty(mk('fld', src.a[2], '1'))):
            return True
        src = src.a[1]
    return False


def is_one(p, val):
    return p.tag == 'one' and strip_text(p.a[0]) is val


def unknown_but(t, known):
    """mentions something unknown other than the given loop variables"""
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, T) or x in known:
            continue
        if x.tag in UNKNOWN or x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect'):
            return True
        work.extend(x.a)
    return False


def step(A, name, mem, facts=None):
    """One call of a method on the object `self`, everything it handed to the seed kept: [(state, value, run)]"""
    I = Interp(A.F, contracts={'serde::de::DeserializeSeed::deserialize': seed_contract})
    b = A.F.bodies[name]
    st = State()
    st.mem.update(mem)
    st.facts.update(facts or {})
    fid = I.getfid(0, 0, name)
    st.mem[('L', fid, 1)] = mk('ref', ('O', s('self')), (), True)
    for i in range(2, b.argc + 1):
        st.mem[('L', fid, i)] = s('p%d' % (i - 1))
    outs = I.run_body(Frame(b, fid, {}, 0), st)
    A.note(I, outs)
    return I, outs


def walk(A):
    """The sequence and map accesses hand out each element once, in order"""
    for tr, methods in (('SeqAccess', ('next_element_seed',)), ('MapAccess', ('next_key_seed', 'next_value_seed'))):
        impls = A.impl(tr, methods[0])
        if len(impls) != 1:
            A.und('%s' % tr, '', '%d implementations' % len(impls))
            continue
        ty, first = impls[0]
        names = [first] + [n for m in methods[1:] for t, n in A.impl(tr, m) if t == ty]
        if len(names) != len(methods):
            A.und('%s' % tr, '', 'methods missing')
            continue
        visit = 'Visitor::visit_seq' if tr == 'SeqAccess' else 'Visitor::visit_map'
        start = None
        for t, name in A.impl('Deserializer', 'deserialize_seq' if tr == 'SeqAccess' else 'deserialize_map'):
            R = A.run(name)
            for st, v in R.outs:
                # the access object as it is handed to the visitor, its pointers kept
                for e in all_events(R.I, st):
                    if e.a[0] == 'call' and e.a[2] == visit:
                        start = (R, st, e, name)
        if start is None:
            A.und('%s' % tr, '', 'its start was not found')
            continue
        walk_from(A, tr, names, start, ty)


def walk_from(A, tr, names, start, ty):
    R, st, e, origin = start
    what_all = 'a sequence hands out each value once, in order' if tr == 'SeqAccess' else 'a map hands out each key with its values once'
    # the object handed over
    obj = None
    for a in e.a[3:]:
        if isinstance(a, T):
            for x in subterms(a):
                if x.tag == 'agg' and x.a[0] == ty[1]:
                    obj = x
        elif isinstance(a, tuple):
            for y in a:
                if isinstance(y, T):
                    for x in subterms(y):
                        if x.tag == 'agg' and x.a[0] == ty[1]:
                            obj = x
    if obj is None:
        A.und(what_all, A.span(origin), 'the object handed to the visitor is not known')
        return
    # its reader: a fresh one over an unknown list or map
    src = s('input')
    mem = {}
    de = A.F.adts.get(strip_refs(A.F.ty(A.F.bodies[origin].locals[1][0]))[1])
    if de is None:
        A.und(what_all, A.span(origin), 'unknown reader')
        return
    flds = [f[0] for f in de['variants'][0][1]]
    if len(flds) != 1:
        # other fields start as constructed; not known here
        A.und(what_all, A.span(origin), 'the reader has %d fields' % len(flds))
        return
    fresh = agg(de['p'], None, tuple(flds), [src if tr == 'SeqAccess' else mk('iter', src, k(0), None)])
    mem[('O', s('de'))] = fresh
    ftys = {f[0]: A.F.ty(f[1]) for f in A.F.adts[ty[1]]['variants'][0][1]}
    vals = []
    for n_, v in zip(obj.a[2], obj.a[3:]):
        if v is s('p0') and ftys.get(n_, ('',))[0] == 'ref':
            v = mk('ref', ('O', s('de')), (), True)
        else:
            v = replace(v, {s('p0'): fresh})
        vals.append(v)
    mem[('O', s('self'))] = agg(obj.a[0], obj.a[1], obj.a[2], vals)
    w = A.span(names[0])
    states = [(0, mem, {})]
    for round_ in range(3):
        nxt = []
        for i, mem, facts in states:
            I, outs = step(A, names[0], mem, facts)
            for st2, v in outs:
                v = A.eta(I.norm(st2, v))
                cur = index(src, k(i)) if i == 0 else index(src, k(i))
                seeds = [x for x in st2.ev if x.a[0] == 'seed']
                if is_ok(v) and is_none(pay(v)):
                    good = exhausted(A, st2, src, i)
                    A.check(good, what_all, w, 'call %d ends although an element is left: %s' % (i + 1, '; '.join('%s %s' % (show(f)[:80], r) for f, r in st2.facts.items())))
                    continue
                if len(seeds) != 1:
                    A.check(None if unknown(v) else False, what_all, w, 'call %d decodes %d elements and returns %s' % (i + 1, len(seeds), show(v)[:150]))
                    continue
                d = seeds[0].a[5]
                got = current(A, d, src)
                A.check(True if got is cur else (None if got is None else False), what_all, w, 'call %d decodes %s' % (i + 1, show(d)[:200]))
                res = seeds[0].a[3]
                kind, x = success(A, st2, v)
                if kind != 'err':
                    good = is_ok(v) and is_some(pay(v)) and pay(pay(v)) is mk('fld', mk('as', res, 'Ok'), '0')
                    A.check(True if good else (None if unknown(v) or v.tag == 'app' else False), 'what was decoded is what is returned', w, show(v)[:200])
                else:
                    good = A.variant(st2, res) == 'Err'
                    A.check(True if good else False, 'what was decoded is what is returned', w, show(v)[:200])
                    continue
                keep = {r: x for r, x in st2.mem.items() if r[0] == 'O'}
                if tr == 'MapAccess':
                    I2, outs2 = step(A, names[1], keep, about(st2.facts, src))
                    w2 = A.span(names[1])
                    for st3, v3 in outs2:
                        v3 = A.eta(I2.norm(st3, v3))
                        seeds3 = [x for x in st3.ev if x.a[0] == 'seed']
                        if not seeds3:
                            good = is_err(v3) and (exhausted(A, st3, src, i) is True)
                            A.check(True if good else (None if unknown(v3) else False), 'the value of a key is decoded', w2, show(v3)[:200])
                            continue
                        d3 = seeds3[0].a[5]
                        want = proj(cur, ('f', '1'))
                        got3 = [x for x in subterms(d3) if x is want]
                        inner = d3.a[3] if d3.tag == 'agg' and len(d3.a) == 4 else None
                        A.check(True if inner is want else (None if unknown(d3) else False), 'the values decoded are those of the key', w2, 'key %d is decoded with %s' % (i, show(d3)[:200]))
                        A.check(True if v3 is seeds3[0].a[3] or is_ok(v3) and pay(v3) is mk('fld', mk('as', seeds3[0].a[3], 'Ok'), '0') or A.variant(st3, seeds3[0].a[3]) == 'Err' and is_err(v3) else (None if unknown(v3) else False),
                                'what was decoded is what is returned', w2, show(v3)[:200])
                        nxt.append((i + 1, {r: x for r, x in st3.mem.items() if r[0] == 'O'}, about(st3.facts, src)))
                else:
                    nxt.append((i + 1, keep, about(st2.facts, src)))
        if round_:
            # the same situation one element further on: so it goes for any number of calls
            was = {frozenset((str(r), shift(x, src).id) for r, x in m.items()) for i, m, f in states}
            now = {frozenset((str(r), x.id) for r, x in m.items()) for i, m, f in nxt}
            A.check(True if now <= was else None, what_all + ' (any number of calls)', w, 'the object after call %d is not the one after call %d moved on by one' % (round_ + 1, round_))
        states = []
        seen = set()
        for i, m, f in nxt:
            kk = tuple(sorted(((str(r), x.id) for r, x in m.items())))
            if kk not in seen:
                seen.add(kk)
                states.append((i, m, f))
    if tr == 'MapAccess':
        keys(A)


def shift(t, src):
    """the same term, one element further on"""
    m = {src: subslice(src, 1, 0, True)}
    for x in subterms(t):
        if x.tag == 'iter' and x.a[0] is src and x.a[1].tag == 'k':
            m[x] = mk('iter', src, k(x.a[1].a[0] + 1), *x.a[2:])
        elif x.tag == 'app' and x.a[0] == 'sub' and x.a[1] is src:
            m[x] = app('sub', src, x.a[2] + 1, x.a[3])
        elif x.tag == 'app' and x.a[0] in ('elem', 'at') and x.a[1] is src and x.a[2].tag == 'k':
            m[x] = app(x.a[0], src, k(x.a[2].a[0] + 1))
    return replace(t, m)


def about(facts, src):
    """what is known of the input alone"""
    return {f: r for f, r in facts.items() if all(x.tag != 's' or x is src for x in subterms(f)) and not any(x.tag == 'app' and x.a[0] == 'SEED' for x in subterms(f))}


def keys(A):
    """keys are handed over as they are"""
    p0 = s('p0')
    for t, name in A.impl('Deserializer', 'deserialize_identifier'):
        u = strip_refs(t)
        if u[1] in value_deserializers(A):
            continue
        ms = de_impls(A, u[1])
        for m, nm in sorted(ms.items()):
            if not m.startswith('deserialize_'):
                continue
            R = A.run(nm)
            w = A.span(nm)
            for st, v in R.outs:
                v = A.norm(R, st, v)
                if v.tag == 'app' and v.a[0] == 'Visitor::visit_map':
                    if m in ('deserialize_identifier', 'deserialize_str', 'deserialize_string'):
                        A.bad('a key is handed over as it is', w, show(v)[:200])
                    continue    # all of the pairs, not a key
                # the values of the key are looked up where its key was read
                place = A.eta(R.I.norm(st, p0))
                place = replace(place, {x: x.a[0] for x in subterms(place) if x.tag == 'iter' and x.a[1] is k(0) and not [y for y in x.a[2:] if y is not None and not (isinstance(y, T) and is_none(y))]})
                A.check(same(R.I, A.eta(place), p0), 'reading a key keeps its place', w, 'it becomes %s' % show(place)[:200])
                if is_err(v):
                    none = any(r == ('is', 'None') and f.tag == 'disc' and mentions(f.a[0], p0) or r is True and f.tag == 'app' and f.a[0] == 'is_empty' and mentions(f, p0) for f, r in st.facts.items())
                    if m in ('deserialize_identifier', 'deserialize_str', 'deserialize_string'):
                        A.check(True if none else (None if unknown(v) else False), 'a key which is there is handed over', w, show(v)[:200])
                    continue
                x = v.a[2] if v.tag == 'app' and v.a[0].startswith('Visitor::visit_') and len(v.a) == 3 else None
                if x is None:
                    y = visited(v, m[len('deserialize_'):])
                    x = y[1] if y else None
                x = strip_text(x) if x is not None else None
                good = x is not None and x.tag == 'fld' and x.a[1] == '0' and x.a[0].tag == 'app' and x.a[0].a[0] == 'elem' and x.a[0].a[2] is k(0)
                parsed = x is not None and any(y.tag == 'app' and y.a[0].startswith('parse<') for y in subterms(x)) and m[len('deserialize_'):] in SCALARS
                A.check(True if good else (None if unknown(v) or x is None or parsed else False), 'a key is handed over as it is', w, show(v)[:200])


def exhausted(A, st, src, i):
    """nothing at position i: True, False or None"""
    for f, r in st.facts.items():
        if r == ('is', 'None') and f.tag == 'disc' and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[1] is src and f.a[0].a[2].tag == 'k':
            if f.a[0].a[2].a[0] <= i:
                return True
        if r is True and f.tag == 'app' and f.a[0] == 'is_empty':
            x = f.a[1]
            if x is src or x.tag == 'app' and x.a[0] == 'sub' and x.a[1] is src and x.a[2] <= i:
                return True
            if x.tag == 'undef':
                return True
        if f.tag == 'app' and f.a[0] == 'lt' and r is False and f.a[2].tag == 'app' and f.a[2].a[0] == 'len' and f.a[2].a[1] is src and f.a[1].tag == 'k' and f.a[1].a[0] <= i:
            return True
        if f.tag == 'app' and f.a[0] == 'lt' and r is True and f.a[1].tag == 'app' and f.a[1].a[0] == 'len' and f.a[1].a[1] is src and f.a[2].tag == 'k' and f.a[2].a[0] <= i + 1:
            return True
    return None if any(unknown(f) for f in st.facts) else False


def current(A, d, src):
    """the element a reader handed to a seed stands at"""
    if d.tag != 'agg' or len(d.a) != 4:
        return None
    x = d.a[3]
    if x.tag == 'iter':
        return index(x.a[0], x.a[1]) if not x.a[3:] else None
    if x.tag == 'agg' and x.a[0] == 'array' and len(x.a) > 3:
        return x.a[3]
    if x.tag == 'undef' or unknown(x):
        return None
    return index(x, k(0))


def seed_contract(I, st, fr, args, loc, c):
    """decoding an element leaves its reader where it was"""
    vals = [I.norm(st, a) for a in args]
    r = app('SEED', *vals)
    I.event(st, 'seed', 'SEED', r, *vals, loc=loc)
    return [(st, r)]
