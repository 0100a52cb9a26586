"""Building responses: P17, P18, P28."""
from ..base import *

# operations on a list which lose or reorder elements
LOSSY = {'retain', 'retain_mut', 'dedup', 'dedup_by', 'dedup_by_key', 'drain', 'split_off', 'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by',
         'sort_unstable_by_key', 'swap', 'swap_remove', 'truncate', 'clear', 'rotate_left', 'rotate_right', 'remove', 'pop', 'resize', 'rev', 'reversed', 'sub', 'removed',
         'truncated', 'skip', 'take', 'step_by', 'reverse', 'extract_if', 'insert', 'inserted'}


def lossy(t):
    return any(x.tag == 'app' and x.a[0].split('#')[0].split('<')[0].split('::')[-1] in LOSSY for x in subterms(t))


def hname(t):
    """header name in lower case, or the value itself"""
    if t.tag == 'k' and t.a[1] == CONST and 'header' in t.a[0].lower():
        return t.a[0].split('::')[-1].lower().replace('_', '-')
    if t.tag == 'app' and t.a[0].split('::')[-1] in ('from_static', 'from_lowercase', 'from_bytes') and t.a[1].tag == 'k':
        return str(t.a[1].a[0]).lower()
    if t.tag == 'fld' and t.a[0].tag == 'as' and t.a[0].a[1] == 'Ok':
        return hname(t.a[0].a[0]) if isinstance(hname(t.a[0].a[0]), str) else t
    return t


def strip_text(t):
    """the text or bytes a value was converted from, content unchanged"""
    while t.tag == 'app' and len(t.a) == 2 and (t.a[0] == 'disp' or t.a[0].split('<')[0].split('::')[-1] in (
            'from', 'into', 'to_string', 'to_owned', 'into_bytes', 'as_bytes', 'to_vec', 'into_boxed_str', 'into_string', 'copy_from_slice', 'from_static', 'as_str', 'into_boxed_slice', 'into_vec')):
        t = t.a[1]
    return t


def is_empty_body(t):
    if t.tag == 'app' and t.a[0] == 'emptybody':
        return True
    x = strip_text(t)
    return x.tag == 'k' and x.a[0] in ('', 'b""') or x.tag == 'seq' and not x.a or x.tag == 'agg' and x.a[0] == 'array' and not x.a[2]


def body_is(A, t, want):
    """the body made from a value of a type known only by its traits, or from a text"""
    x = strip_text(t)
    if x is want:
        return True
    if x.tag == 'fld' and x.a[0].tag == 'app' and x.a[0].a[0].split('<')[0] == 'Responder::respond_to' and x.a[0].a[1] is want:
        return True
    if x.tag == 'app' and x.a[0] == 'ResponseBody::into_body':
        return x.a[1] is want or (None if unknown(x) else False)
    return None if unknown(x) else False


class Resp:
    """A response value, field by field, on one path"""

    def __init__(self, A, R, st, v, fb, fs, fh):
        self.A, self.R, self.st, self.v = A, R, st, v
        self.body = A.eta(proj(v, ('f', fb)))
        self.status = A.eta(proj(v, ('f', fs)))
        self.hv = A.eta(proj(v, ('f', fh)))

    def headers(self, hv=None):
        """parts of the header list; None if unknown"""
        A, st = self.A, self.st
        hv = self.hv if hv is None else hv
        if hv.tag == 'seq':
            return list(hv.a)
        var = A.variant(st, hv)
        if var is None and hv.tag == 'with':
            if any(e == ('v', 'Some') for e, x in hv.a[1]):
                var = 'Some'
        if var == 'None':
            return []
        if var == 'Some':
            x = A.eta(proj(proj(hv, ('v', 'Some')), ('f', '0')))
            return list(seqparts(x))
        return None


class Expect:
    def __init__(self, body=None, status=None, headers=None):
        self.body, self.status, self.headers = body, status, headers


def resp_fields(A):
    a = A.adt('Response')
    if a is None:
        return None
    fb = field_by_type(A, a, lambda t: is_adt(t, 'Body'))
    fs = field_by_type(A, a, lambda t: is_adt(t, 'StatusCode'))
    fh = field_by_type(A, a, lambda t: is_opt_of(t, lambda u: is_adt(u, 'Vec')) or is_adt(t, 'Vec'))
    return (fb, fs, fh) if fb and fs and fh else None


def part_is(A, R, got, want):
    """one appended element: want is (name, value)"""
    if got.tag != 'one':
        return None if unknown(got) else False
    x = got.a[0]
    if x.tag != 'agg' or x.a[0] != 'tuple' or len(x.a) != 5:
        return None if unknown(x) else False
    n, v = A.eta(x.a[3]), A.eta(x.a[4])
    wn, wv = want
    hn = hname(n)
    good_n = wn(n) if callable(wn) else (hn == wn if isinstance(wn, str) else n is wn)
    good_v = wv(v) if callable(wv) else v is wv
    if good_n and good_v:
        return True
    return None if unknown(x) else False


def from_text(src):
    """predicate: the header name spelled by src"""
    def f(n):
        x = n
        if x.tag == 'fld' and x.a[0].tag == 'as' and x.a[0].a[1] == 'Ok':
            x = x.a[0].a[0]
        if x.tag == 'app' and x.a[0].split('<')[0].split('::')[-1] in ('from_bytes', 'from_static', 'from_lowercase', 'from_str', 'parse', 'try_from', 'try_into'):
            return strip_text(x.a[1]) is src
        return False
    return f


def check_headers(A, R, P, base, added, what, where):
    """added: list of ('one', name, value), ('all', vec), ('each', vec)"""
    got = P.headers()
    b = P.headers(base) if base is not None else []
    r = by_rounds(A, R, P, base, added)
    if r is not None:
        A.check(r[0], what, where, r[1])
        return
    if got is None:
        if base is not None and not added and P.hv is base:
            A.ok(what, where)
        else:
            A.check(None if unknown(P.hv) or not added else (False if base is not None and P.hv is base else None), what, where, 'headers: %s' % show(P.hv)[:200])
        return
    if b is None:
        # the path does not depend on whether headers were set before
        if not any(mentions(x, base) for x in got) and (added or not got and not any(mentions(f, base) for f in P.st.facts)):
            A.bad(what, where, 'headers set before are lost: %s' % show(P.hv)[:200])
        else:
            A.und(what, where, 'headers: %s' % show(P.hv)[:200])
        return
    full = b + [None] * len(added)
    why = 'headers: %s' % show(P.hv)[:300]
    if any(lossy(x) for x in got):
        A.bad(what, where, why)
        return
    for x in b:
        if not any(deep_mentions(R.I, g, x.a[0] if x.tag == 'all' else x) for g in got):
            A.bad(what, where, 'headers set before are lost: ' + why)
            return
    if len(got) != len(full) and not any(x.tag == 'rep' for x in got):
        vague = any(unknown(x) for x in got)
        opaque = any(x.tag == 'app' and x.a[0].split('::')[0] in ('Vec', 'Iterator', 'Extend', 'slice') for g in got for x in subterms(g))
        A.check(None if vague or opaque else False, what, where, why)
        return
    verdict = True
    for g, w in zip(got, b):
        if g is not w:
            verdict = None if unknown(g) and not unknown(w) else False
    for g, (kind, *w) in zip(got[len(b):], added):
        if kind == 'one':
            r = part_is(A, R, g, w)
        elif kind == 'all':
            r = True if g is mk('all', w[0]) else each(A, R, g, w[0], lambda e: (lambda n: n is proj(e, ('f', '0')), lambda v: v is proj(e, ('f', '1'))))
        else:
            r = each(A, R, g, w[0], lambda e: (from_text(proj(e, ('f', '0'))), lambda v: v is proj(e, ('f', '1'))))
        if r is False:
            verdict = False
        elif r is None and verdict is True:
            verdict = None
    if len(got) != len(full):
        verdict = None if verdict is not False else False
    A.check(verdict, what, where, why)


def by_rounds(A, R, P, base, added):
    """(verdict, reason) for headers added one at a time by a loop over the given ones; None if there is no such loop"""
    I, hv = R.I, P.hv
    info = I.lvs.get(hv)
    if info is None or base is None or len(added) != 1 or added[0][0] not in ('all', 'each') or info['loop'] not in I.iters:
        return None
    kind, vec = added[0]
    W, backs, S0 = I.iters[info['loop']]
    if A.eta(info['init']) is not base or not backs:
        return None
    pos = None
    for r, v in W.mem.items():
        if v.tag == 'iter' and A.eta(v.a[0]) is vec and v.a[1].tag == 'lv' and I.lvs.get(v.a[1], {}).get('loop') == info['loop'] and I.lvs[v.a[1]]['init'].tag == 'k' and I.lvs[v.a[1]]['init'].a[0] == 0:
            if all(b.mem.get(r) is not None and b.mem[r].tag == 'iter' and b.mem[r].a[0] is v.a[0] and b.mem[r].a[1] is app('Add', v.a[1], k(1)) for b in backs):
                pos = v.a[1]
    for r, v in W.mem.items():
        x = A.eta(v.a[0]) if v.tag == 'iter' else None
        if x is not None and x.tag == 'app' and x.a[0] in ('take', 'skip') and A.eta(x.a[1]) is vec and x.a[2].tag == 'k' and x.a[2].a[0] != 0 and I.lvs.get(v.a[1], {}).get('loop') == info['loop']:
            return False, 'only some of the given headers are added: %s' % show(x)[:60]
    if pos is None or not any(f.tag == 'disc' and r == ('is', 'None') and f.a[0].tag == 'app' and f.a[0].a[0] == 'at' and f.a[0].a[2] is pos for f, r in P.st.facts.items()):
        return None
    root, path = info['at']
    e = app('elem', vec, pos)
    want = (lambda n: n is proj(e, ('f', '0'))) if kind == 'all' else from_text(proj(e, ('f', '0')))
    for b in backs:
        now = A.eta(I.norm(b, I.load(b, root, path)))
        Q = Resp.__new__(Resp)
        Q.A, Q.R, Q.st, Q.hv = A, R, b, now
        new, old = Q.headers(), Q.headers(hv)
        why = 'one round makes %s of %s' % (show(now)[:200], show(hv)[:60])
        if now is hv:
            return False, 'a given header is left out'
        if new is None or old is None:
            return None
        if len(new) != len(old) + 1 or any(x is not y for x, y in zip(new, old)):
            if any(unknown(replace(x, {hv: UNIT})) for x in new):
                return None
            return False, why
        x = new[-1]
        if x.tag == 'one' and A.eta(x.a[0]) is e and kind == 'all':
            continue
        if x.tag != 'one' or x.a[0].tag != 'agg' or len(x.a[0].a) != 5:
            return None
        n, v = A.eta(x.a[0].a[3]), A.eta(x.a[0].a[4])
        if not (want(n) and v is proj(e, ('f', '1'))):
            return (None if any(unknown(replace(y, {pos: k(0)})) for y in (n, v)) else False), why
    return True, ''


def each(A, R, g, vec, want):
    """g is one element per element of vec, in order"""
    if g.tag == 'all' and g.a[0].tag == 'app' and g.a[0].a[0] == 'map' and g.a[0].a[1] is vec and len(g.a[0].a) == 4:
        h, body = g.a[0].a[2:]
        return part_is2(A, mk('one', A.eta(body)), want(h), h)
    if g.tag != 'rep':
        return None if unknown(g) else False
    info = R.I.lvs.get(g)
    if info is None:
        return None
    verdict = True
    if not info.get('parts'):
        return None
    for p in info['parts']:
        p = A.eta(p)
        es = [x for x in subterms(p) if x.tag == 'app' and x.a[0] in ('elem', 'at') and x.a[1] is vec]
        if not es:
            return None if unknown(p) and any(x.tag == 'app' and x.a[0] in ('elem', 'at') for x in subterms(p)) else False
        r = part_is2(A, p, want(es[0]))
        if r is not True:
            return False
    if info.get('skips'):
        return False
    return verdict


def part_is2(A, p, want, whole=None):
    if p.tag != 'one' or p.a[0].tag != 'agg' or len(p.a[0].a) != 5:
        # whole elements kept as they are
        if p.tag == 'one' and (p.a[0] is whole or p.a[0].tag == 'app' and p.a[0].a[0] in ('elem', 'at')):
            return True
        return False
    n, v = A.eta(p.a[0].a[3]), A.eta(p.a[0].a[4])
    return want[0](n) and want[1](v)


def frame(A, R, P, base, spec, name, where):
    """Compare a response with what it must be. spec: dict with optional body, status, headers(list of additions)"""
    f = resp_fields(A)
    fb, fs, fh = f
    what = canon(name)
    if 'body' in spec:
        w = spec['body']
        A.check(w(P.body) if callable(w) else body_is(A, P.body, w), '%s sets the body to what it is given' % what, where, 'body: %s' % show(P.body)[:200])
    elif base is not None:
        A.check(same(R.I, P.body, mk('fld', base, fb)), '%s leaves the body alone' % what, where, 'body: %s' % show(P.body)[:200])
    if 'status' in spec:
        A.check(same(R.I, P.status, spec['status']), '%s sets the status to the given one' % what, where, 'status: %s' % show(P.status))
    elif base is not None:
        A.check(same(R.I, P.status, mk('fld', base, fs)), '%s leaves the status alone' % what, where, 'status: %s' % show(P.status))
    hb = mk('fld', base, fh) if base is not None else None
    adds = spec.get('headers', [])
    check_headers(A, R, P, hb, adds, '%s adds exactly the given headers' % what if adds else '%s leaves the headers alone' % what, where)


def setters(p0, p1, p2, status_ok=None):
    S = {}
    for n in ('with_status', 'set_status'):
        S[n] = dict(status=p1)
    S['set_body'] = dict(body=p1)
    for n in ('with_header', 'set_header'):
        S[n] = dict(headers=[('one', p1, p2)])
    for n in ('with_header_str', 'set_header_str'):
        S[n] = dict(headers=[('one', from_text(p1), p2)])
    for n in ('with_headers', 'set_headers'):
        S[n] = dict(headers=[('all', p1)])
    for n in ('with_headers_str', 'set_headers_str'):
        S[n] = dict(headers=[('each', p1)])
    S['set_content_type'] = dict(headers=[('one', 'content-type', p1)])
    return S


def P17(A):
    f = resp_fields(A)
    if f is None:
        A.und('Response', '', 'its fields are not body, status and headers')
        return
    fb, fs, fh = f
    p0, p1, p2 = s('p0'), s('p1'), s('p2')
    S = setters(p0, p1, p2)
    S['html'] = dict(body=p1, headers=[('one', 'content-type', lambda v: v.tag == 'k' and str(v.a[0]).startswith('text/html'))])
    n = 0
    for m, spec in S.items():
        name = A.method('Response', m)
        if name is None:
            continue
        n += 1
        R = A.run(name)
        w = A.span(name)
        for st, v in R.outs:
            v = A.norm(R, st, v)
            frame(A, R, Resp(A, R, st, v, *f), sym(R.args[0]), spec, name, w)
        if not R.outs:
            A.bad('%s returns' % canon(name), w, 'no path returns')
    # reading
    for m, fld_ in (('status', fs), ('headers', fh), ('body', fb)):
        name = A.method('Response', m)
        if name:
            R = A.run(name)
            for st, v in R.outs:
                got = A.norm(R, st, v)
                A.check(same(R.I, got, mk('fld', p0, fld_)), '%s is what was set' % canon(name), A.span(name), 'it returns %s' % show(got)[:200])
    for m, fld_ in (('status_mut', fs), ('headers_mut', fh)):
        name = A.method('Response', m)
        if name:
            R = A.run(name)
            for st, v in R.outs:
                good = v.tag == 'ref' and v.a[0] == ('O', p0) and v.a[1] == (('f', fld_),)
                A.check(True if good else (None if v.tag != 'ref' else False), '%s gives access to exactly that part' % canon(name), A.span(name), show(v))
                got = A.norm(R, st, p0)
                A.check(same(R.I, got, p0), '%s changes nothing' % canon(name), A.span(name), 'becomes %s' % show(got)[:200])
    # Response::new and the defaults of Responder
    name = A.method('Response', 'new')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            frame(A, R, Resp(A, R, st, A.norm(R, st, v), *f), None, dict(body=p0, status=status('OK')), name, A.span(name))
    for m, spec in S.items():
        for nm in A.F.bodies:
            b = A.F.bodies[nm]
            if b.j.get('default_of', '').endswith('Responder') and canon(nm).endswith('::' + m):
                R = A.run(nm)
                sp = dict(spec)
                sp.setdefault('status', status('OK'))
                sp['body'] = p0
                for st, v in R.outs:
                    frame(A, R, Resp(A, R, st, A.norm(R, st, v), *f), None, sp, nm, A.span(nm))
                n += 1
    n += builder(A, f)
    if n < 12:
        A.und('response-building steps', '', 'only %d found' % n)


def builder(A, f):
    """ResponseBuilder and the constructors on Context"""
    a = A.adt('ResponseBuilder')
    if a is None:
        A.und('ResponseBuilder', '', 'not found')
        return 0
    fc = field_by_type(A, a, lambda t: is_adt(t, 'Context'))
    fr = field_by_type(A, a, lambda t: is_adt(t, 'Response'))
    if not fc or not fr:
        A.und('ResponseBuilder', '', 'its fields are not a context and a response')
        return 0
    p0, p1, p2 = s('p0'), s('p1'), s('p2')
    n = 0
    base = mk('fld', p0, fr)
    for m, spec in setters(p0, p1, p2).items():
        name = A.method('ResponseBuilder', m)
        if name is None:
            continue
        n += 1
        R = A.run(name)
        w = A.span(name)
        if not R.outs:
            A.bad('%s returns' % canon(name), w, 'no path returns')
        for st, v in R.outs:
            v = A.norm(R, st, v)
            ctx = A.eta(proj(v, ('f', fc)))
            A.check(same(R.I, ctx, mk('fld', p0, fc)), '%s leaves the context alone' % canon(name), w, 'context: %s' % show(ctx)[:200])
            frame(A, R, Resp(A, R, st, A.eta(proj(v, ('f', fr))), *f), base, spec, name, w)
    name = A.method('ResponseBuilder', 'new')
    if name:
        n += 1
        R = A.run(name)
        for st, v in R.outs:
            v = A.norm(R, st, v)
            A.check(same(R.I, A.eta(proj(v, ('f', fc))), p0), 'the builder starts with the given context', A.span(name), show(v)[:200])
            A.check(same(R.I, A.eta(proj(v, ('f', fr))), p1), 'the builder starts with the given response', A.span(name), show(v)[:200])
    name = A.method('ResponseBuilder', 'ok')
    if name:
        n += 1
        finish(A, name, f, mk('fld', p0, fc), base)
    # Context::build*
    name = A.method('Context', 'build')
    if name:
        n += 1
        R = A.run(name)
        for st, v in R.outs:
            v = A.norm(R, st, v)
            A.check(same(R.I, A.eta(proj(v, ('f', fc))), p0), 'building a response keeps the context', A.span(name), show(v)[:300])
            got = A.eta(proj(v, ('f', fr)))
            r = got.tag == 'app' and got.a[0].split('<')[0] == 'Responder::respond_to' and got.a[1] is p1
            A.check(True if r else (None if unknown(got) else False), 'a built response is the conversion of the value', A.span(name), show(got)[:200])
    for m in ('build_json', 'build_file'):
        name = A.method('Context', m)
        if name:
            n += 1
            R = A.run(name, asynchronous=A.is_async(name))
            for st, v in R.outs:
                v = A.norm(R, st, v)
                A.check(same(R.I, A.eta(proj(v, ('f', fc))), p0), 'building a response keeps the context', A.span(name), show(v)[:300])
    return n


def finish(A, name, f, ctx, resp):
    """ResponseBuilder::ok"""
    R = A.run(name)
    w = A.span(name)
    ca = A.adt('Context')
    if not R.outs:
        A.bad('finishing a response returns', w, 'no path returns')
    for st, v in R.outs:
        v = A.norm(R, st, v)
        if is_err(v) or A.variant(st, v) == 'Err':
            A.bad('finishing a response succeeds', w, 'a path returns an error')
            continue
        c = A.eta(proj(proj(v, ('v', 'Ok')), ('f', '0')))
        for fl in ca['variants'][0][1]:
            t = A.F.ty(fl[1])
            got = A.eta(proj(c, ('f', fl[0])))
            if is_opt_of(t, lambda u: is_adt(u, 'Response')):
                A.check(same(R.I, got, some(resp)), 'finishing attaches exactly the built response', w, 'response: %s' % show(got)[:200])
            else:
                A.check(same(R.I, got, mk('fld', ctx, fl[0])), 'finishing a response keeps the %s of the context' % fl[0], w, '%s: %s' % (fl[0], show(got)[:200]))


# ------------------------------------------------------------------ P18
def ctype(parts):
    """content types set, in order"""
    out = []
    for p in parts:
        if p.tag == 'one' and p.a[0].tag == 'agg' and len(p.a[0].a) == 5 and hname(p.a[0].a[3]) == 'content-type':
            v = p.a[0].a[4]
            out.append(v.a[0] if v.tag == 'k' else v)
    return out


def type_ok(A, P, want, what, where):
    hs = P.headers()
    if hs is None:
        A.und(what, where, show(P.hv)[:200])
        return
    ct = ctype(hs)
    last = ct[-1] if ct else None
    vague = any(unknown(x) for x in hs)
    if isinstance(last, str):
        A.check(last == want or last.startswith(want + ';'), what, where, 'content type %s' % last)
        cs = [x.strip().lower() for x in last.split(';')[1:]]
        cs = [x[8:].strip('"') for x in cs if x.startswith('charset=')]
        A.check(all(x in ('utf-8', 'utf8') for x in cs), what + ' that names no other encoding than UTF-8', where, 'content type %s' % last)
    else:
        A.check(None if vague or last is not None else False, what, where, 'content type %s' % (last if last is None else show(last)))


def P18(A):
    f = resp_fields(A)
    if f is None:
        A.und('Response', '', 'its fields are not body, status and headers')
        return
    F = A.F
    p0, p1 = s('p0'), s('p1')
    OK_ = status('OK')
    n = 0
    for t, name in A.impl('Responder', 'respond_to'):
        R = A.run(name)
        w = A.span(name)
        kind = tstr(t)
        u = strip_refs(t)
        text = u[0] == 'str' or is_adt(u, 'String')
        for st, v in R.outs:
            v = A.norm(R, st, v)
            n += 1
            P = Resp(A, R, st, v, *f)
            if is_adt(t, 'Response') and t[1] in F.adts:
                A.check(same(R.I, v, p0), 'a response converts into itself', w, show(v)[:300])
            elif text:
                A.check(body_is(A, P.body, p0), 'text is sent as it is', w, 'body: %s' % show(P.body)[:200])
                A.check(same(R.I, P.status, OK_), 'text answers with 200', w, 'status: %s' % show(P.status))
                type_ok(A, P, 'text/plain', 'text carries a text/plain content type', w)
            elif t == ('tuple', ()):
                A.check(True if is_empty_body(P.body) else (None if unknown(P.body) else False), 'nothing is sent as an empty body', w, 'body: %s' % show(P.body)[:200])
                A.check(same(R.I, P.status, OK_), 'nothing answers with 200', w, 'status: %s' % show(P.status))
            elif t[0] == 'tuple' and len(t[1]) == 2 and is_adt(t[1][0], 'StatusCode'):
                A.check(body_is(A, P.body, mk('fld', p0, '1')), 'a pair answers with its body', w, 'body: %s' % show(P.body)[:200])
                A.check(same(R.I, P.status, mk('fld', p0, '0')), 'a pair answers with its status', w, 'status: %s' % show(P.status))
            elif is_adt(t, 'StatusCode'):
                A.check(True if is_empty_body(P.body) else (None if unknown(P.body) else False), 'a bare status has an empty body', w, 'body: %s' % show(P.body)[:200])
                A.check(same(R.I, P.status, p0), 'a bare status answers with itself', w, 'status: %s' % show(P.status))
            elif t[0] == 'adt' and t[1] == OPT:
                var = A.variant(st, p0)
                if var == 'None':
                    A.check(same(R.I, P.status, status('NOT_FOUND')), 'an absent value answers with 404', w, 'status: %s' % show(P.status))
                elif var == 'Some':
                    x = mk('fld', mk('as', p0, 'Some'), '0')
                    A.check(body_is(A, P.body, x), 'a present value answers like its content', w, 'body: %s' % show(P.body)[:200])
                    A.check(same(R.I, P.status, OK_), 'a present value answers with 200', w, 'status: %s' % show(P.status))
                    type_ok(A, P, 'text/plain', 'a present text carries a text/plain content type', w)
                else:
                    A.check(None if unknown(v) else False, 'an optional answers by whether it is there', w, 'one response for both: %s' % show(v)[:200])
            elif is_adt(t, 'Vec'):
                json_case(A, R, st, P, p0, w, OK_)
            else:
                A.und('conversion of ' + kind, w, 'no requirement known')
    for t, name in A.impl('ResponseBody', 'into_body'):
        R = A.run(name)
        w = A.span(name)
        u = strip_refs(t)
        for st, v in R.outs:
            n += 1
            v = A.norm(R, st, v)
            if u[0] == 'str' or is_adt(u, 'String'):
                A.check(body_is(A, v, p0), 'the body of a text is the text', w, 'body: %s' % show(v)[:200])
            elif t == ('tuple', ()):
                A.check(True if is_empty_body(v) else (None if unknown(v) else False), 'the body of nothing is empty', w, 'body: %s' % show(v)[:200])
            elif is_adt(t, 'Vec'):
                j, x, var = json_of(A, st, v)
                if j is None:
                    A.check(body_is(A, v, p0), 'the body of bytes is made of them', w, 'body: %s' % show(v)[:200])
                else:
                    A.check(x is p0, 'the body of bytes is their serialisation', w, 'body: %s' % show(v)[:200])
            else:
                A.und('body of ' + tstr(t), w, 'no requirement known')
    # html, json
    name = A.method('Response', 'html')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            P = Resp(A, R, st, A.norm(R, st, v), *f)
            n += 1
            type_ok(A, P, 'text/html', 'HTML carries a text/html content type', A.span(name))
            A.check(body_is(A, P.body, p1), 'HTML is sent as it is', A.span(name), 'body: %s' % show(P.body)[:200])
    name = A.method('Response', 'json')
    if name:
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            P = Resp(A, R, st, A.norm(R, st, v), *f)
            json_case(A, R, st, P, p1, A.span(name), mk('fld', p0, f[1]))
            type_ok(A, P, 'application/json', 'JSON carries an application/json content type', A.span(name))
    name = A.method('Context', 'build_json')
    if name:
        fr = field_by_type(A, 'ResponseBuilder', lambda t: is_adt(t, 'Response'))
        R = A.run(name)
        for st, v in R.outs:
            n += 1
            P = Resp(A, R, st, A.eta(proj(A.norm(R, st, v), ('f', fr))), *f)
            json_case(A, R, st, P, p1, A.span(name), OK_)
            type_ok(A, P, 'application/json', 'JSON carries an application/json content type', A.span(name))
    for m, code in (('ok', 'OK'), ('created', 'CREATED'), ('internal_server_error', 'INTERNAL_SERVER_ERROR')):
        name = A.method('Response', m)
        if name:
            R = A.run(name)
            for st, v in R.outs:
                n += 1
                P = Resp(A, R, st, A.norm(R, st, v), *f)
                A.check(same(R.I, P.status, status(code)), 'Response::%s has its status' % m, A.span(name), 'status: %s' % show(P.status))
                A.check(True if is_empty_body(P.body) else (None if unknown(P.body) else False), 'Response::%s has an empty body' % m, A.span(name), 'body: %s' % show(P.body)[:200])
    if n < 12:
        A.und('conversions', '', 'only %d outcomes found' % n)


def json_of(A, st, v):
    """(serialisation, value serialised, outcome taken) if the body is made from a serialisation"""
    for x in subterms(v):
        if x.tag == 'app' and x.a[0].startswith('serde_json::to_') or x.tag == 'app' and x.a[0].split('::')[0] == 'ser' and x.a[0].split('::')[-1].startswith('to_'):
            return x, x.a[1] if len(x.a) == 2 else x.a[-1], A.variant(st, x)
    return None, None, None


def json_case(A, R, st, P, val, w, good):
    j, x, var = json_of(A, st, P.body)
    if j is None:
        # which way did the serialisation go?
        for fct, r in st.facts.items():
            for y in subterms(fct):
                jj = json_of(A, st, y)
                if jj[0] is not None:
                    j, x, var = jj
        if var == 'Err':
            A.check(same(R.I, P.status, status('INTERNAL_SERVER_ERROR')), 'JSON that cannot be serialised answers with 500', w, 'status: %s' % show(P.status))
        else:
            A.check(None if unknown(P.body) else False, 'JSON is the serialisation of the value', w, 'body: %s' % show(P.body)[:200])
        return
    A.check(True if x is val else (None if unknown(x) else False), 'JSON is the serialisation of the value', w, 'serialised: %s' % show(x)[:200])
    if var == 'Ok':
        A.check(same(R.I, P.status, good), 'serialised JSON answers with the status asked for', w, 'status: %s' % show(P.status))
        b = strip_text(P.body)
        A.check(same(R.I, b, mk('fld', mk('as', j, 'Ok'), '0')), 'JSON is sent as serialised', w, 'body: %s' % show(P.body)[:200])
    elif var == 'Err':
        A.check(same(R.I, P.status, status('INTERNAL_SERVER_ERROR')), 'JSON that cannot be serialised answers with 500', w, 'status: %s' % show(P.status))
    else:
        A.check(None if unknown(P.body) else False, 'a failed serialisation is told from a good one', w, show(P.body)[:200])
