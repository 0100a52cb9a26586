"""What the standard library and hyper operations used for request handling do to abstract values.

Every model maps (interpreter, state, call, args) to the list of possible (state, result). Anything
without a model gets a fresh value depending on all arguments, and everything it could write to is
forgotten, so an omission here costs precision and never hides an effect.
"""
import re
from .terms import *
from .facts import canon, key2, tstr, strip_refs, unify, subst, parse_template
from .interp import State, proj, index, subslice, at

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ helpers
def val(I, st, a):
    return I.norm(st, a)


def cases(I, st, v, variants):
    """Split on the variant of v -> [(state, variant, payload or None)]"""
    if v.tag == 'ref':
        v = I.deref(st, v)
    var = st.variant(v)
    out = []
    for x in variants:
        if var is not None and var != x:
            continue
        s2 = st.copy()
        if var is None and not s2.set_variant(v, x):
            continue
        p = None
        if x not in ('None',):
            p = proj(proj(v, ('v', x)), ('f', '0'))
        out.append((s2, x, p))
    return out


OPTV, RESV = ('Some', 'None'), ('Ok', 'Err')


def kind_of(call):
    """'opt' or 'res' for a method of Option or Result"""
    return 'opt' if canon(call.c['def']).startswith('std::option') or 'Option' in call.c['def'].split('::<')[0] else 'res'


def calls(I, st, call, f, args, tag=''):
    return I.call_value(st, call.fr, f, args, call.loc, call.bb, tag)


def boolsplit(I, st, v):
    out = []
    for b in (True, False):
        s2 = st.copy()
        if s2.assume(v, b):
            out.append((s2, b))
    return out


# ------------------------------------------------------------------ things that only pass a value on
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
       'Arc::new', 'Box::new', 'Rc::new', 'Box::pin', 'Pin::new', 'Pin::new_unchecked', 'Pin::as_mut', 'Pin::get_mut',
       'Arc::clone', 'Rc::clone', 'Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'slice::into_vec', 'Cow::into_owned', 'Cow::to_mut',
       'String::as_str', 'String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'String::as_mut_str', 'Vec::as_slice', 'Vec::as_mut_slice',
       'String::into_boxed_str', 'Vec::into_boxed_slice', 'hint::must_use', 'convert::identity', 'Box::into_pin', 'Pin::from', 'Box::leak',
       'Into::into', 'String::from', 'PathBuf::from', 'Path::new', 'Path::to_path_buf', 'Path::as_os_str', 'PathBuf::as_path',
       'Box::as_ref', 'Arc::as_ref', 'fmt::format', 'hint::black_box', 'str::to_owned', 'Vec::from', 'slice::as_ref', 'str::as_ref',
       'Bytes::from', 'str::into_string', 'mem::ManuallyDrop::new', 'Option::cloned', 'Option::copied', 'Option::as_deref', 'Option::as_deref_mut',
       'Option::as_ref', 'Result::as_ref', 'Option::as_slice', 'Result::copied', 'Result::cloned', 'Vec::into_iter_identity', 'FutureExt::boxed', 'FutureExt::boxed_local', 'Arguments::as_str_identity', 'OsStr::new', 'Wrapping::from', 'Box::deref', 'Poll::Ready_identity')
def ident(I, st, call, args):
    n = call.c['name'] if 'name' in call.c else ''
    if key2(call.c['def']) == 'Into::into':
        return conv(I, st, call, args[0], call.targ(1), call.targ(0))
    a = args[0]
    d = canon(call.c['def'])
    if n in ('clone', 'cloned', 'to_owned', 'to_vec', 'as_ref', 'copied'):
        v = I.deref(st, a)
        if v.tag == 'agg' and v.a[1] in ('Some', 'Ok', 'Err') and v.hasref:
            v = agg(v.a[0], v.a[1], v.a[2], [I.deref(st, x) if n in ('cloned', 'copied', 'clone') else x for x in v.a[3:]])
        if n == 'as_ref' and a.tag == 'ref' and not d.startswith('std::option') and not d.startswith('std::result'):
            return [(st, a)]
        return [(st, v)]
    return [(st, a)]


MODELS['Box::new_uninit'] = lambda I, st, call, args: [(st, mk('ref', ('H', call.fr.fid, str(call.bb)), (), True))]


@model('boxed::box_assume_init_into_vec_unsafe')
def box_vec(I, st, call, args):
    v = args[0]
    for _ in range(12):
        if v.tag == 'ref':
            v = I.load(st, v.a[0], v.a[1])
        elif v.tag == 'with' and len(v.a[1]) == 1:
            v = v.a[1][0][1]
        elif v.tag == 'agg' and v.a[0] != 'array' and len(v.a[2]) >= 1:
            v = v.a[3 + len(v.a[2]) - 1]
        else:
            break
    if v.tag == 'agg' and v.a[0] == 'array':
        return [(st, mkseq([mk('one', x) for x in v.a[3:]]))]
    return [(st, v)]


IDENT_FROM = {'std::string::String', 'std::borrow::Cow', 'std::boxed::Box', 'std::vec::Vec', 'std::path::PathBuf', 'std::sync::Arc',
              'bytes::Bytes', 'std::rc::Rc', 'std::ffi::OsString'}


def conv(I, st, call, v, to, frm):
    """From::from / Into::into"""
    if to is None:
        return None
    if frm is not None and to == frm:
        return [(st, v)]
    for i in I.F.trait_impls.get('std::convert::From', []):
        e = {}
        if unify(I.F.ty(i['self']), to, e):
            for n, p in i['methods']:
                b = I.F.bodies.get(p)
                if n == 'from' and b is not None and (frm is None or unify(I.F.ty(b.locals[1][0]), frm, e)):
                    return I.inline(st, call.fr, p, e, [v], call.loc, (call.bb, 'from'))
    if to[0] == 'adt' and to[1] in IDENT_FROM or to[0] in ('str', 'slice', 'ref'):
        return [(st, v)]
    if to[0] == 'adt' and to[1] == OPT:
        return [(st, some(v))]
    if to[0] == 'prim' and frm is not None and frm[0] == 'prim':
        return [(st, v)]
    n = I.norm(st, v)
    name = 'From::from<%s>' % (to[1] if to[0] == 'adt' else tstr(to))
    return [(st, app(name, n))]


@model('From::from')
def from_from(I, st, call, args):
    return conv(I, st, call, args[0], call.selfty(), call.targ(1))


@model('ToString::to_string')
def to_string(I, st, call, args):
    return [(st, display(I, st, args[0], call.selfty()))]


STRLIKE = {'std::string::String', 'std::borrow::Cow', 'std::fmt::Arguments'}


def display(I, st, a, ty):
    v = I.norm(st, a)
    ty = strip_refs(ty) if ty else ('other', '')
    while ty[0] == 'adt' and ty[1] in ('std::boxed::Box', 'std::sync::Arc') and ty[2]:
        ty = strip_refs(ty[2][0])
    if ty[0] == 'str' or ty[0] == 'adt' and ty[1] in STRLIKE or v.tag == 'str' or v.tag == 'k' and v.a[1] == 'str':
        return v
    return app('disp', v)


# ------------------------------------------------------------------ formatting
@model('Argument::new_display')
def arg_display(I, st, call, args):
    return [(st, display(I, st, args[0], call.targ(0)))]


@model('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_octal', 'Argument::new_binary', 'Argument::new_lower_exp')
def arg_debug(I, st, call, args):
    return [(st, app('dbg', I.norm(st, args[0])))]


@model('Arguments::new')
def arguments_new(I, st, call, args):
    t = I.deref(st, args[0])
    parts = parse_template(str(t.a[0])) if t.tag == 'k' else None
    vals = I.norm(st, args[1]) if len(args) > 1 else agg('array', None, (), ())
    if parts is None:
        return [(st, app('fmt', t, vals))]
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(k(p))
        else:
            x = index(vals, k(p[0]))
            out.append(x if p[1] else app('padded', x))
    return [(st, mkstr(out))]


@model('Arguments::from_str', 'Arguments::new_const')
def arguments_str(I, st, call, args):
    v = I.norm(st, args[0])
    if v.tag == 'agg' and v.a[0] == 'array':
        return [(st, mkstr(v.a[3:]))]
    return [(st, v)]


@model('fmt::Formatter::write_str', 'Formatter::write_str', 'Formatter::write_fmt', 'Write::write_str', 'Write::write_fmt', 'Formatter::pad', 'Formatter::write_char', 'Write::write_char')
def fmt_write(I, st, call, args):
    x = I.norm(st, args[1])
    I.event(st, 'fmt', x, loc=call.loc)
    if args[0].tag in ('s', 'ref') and 'String' in tstr(strip_refs(call.selfty() or ('other', ''))):
        root, path = I.as_place(args[0])
        I.store(st, root, path, mkstr([I.load(st, root, path), x]))
        return [(st, ok(UNIT))]
    return [(st, app('fmtresult', x))]


@model('Display::fmt')
def display_fmt(I, st, call, args):
    x = display(I, st, args[0], call.selfty())
    I.event(st, 'fmt', x, loc=call.loc)
    return [(st, app('fmtresult', x))]


# ------------------------------------------------------------------ Option and Result
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def is_x(I, st, call, args):
    want = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[call.c['name']]
    v = I.deref(st, args[0])
    var = st.variant(v)
    if var is not None:
        return [(st, k(var == want))]
    pos = {'None': 'Some', 'Err': 'Ok'}.get(want, want)
    r = app('is_variant', v, pos)
    return [(st, r if pos == want else not_(r))]


@model('Option::is_some_and', 'Result::is_ok_and', 'Option::is_none_or')
def is_and(I, st, call, args):
    vs = RESV if call.c['name'] == 'is_ok_and' else OPTV
    out = []
    for s2, x, p in cases(I, st, args[0], vs):
        if x in ('Some', 'Ok'):
            out += calls(I, s2, call, args[1], [p])
        else:
            out.append((s2, k(call.c['name'] == 'is_none_or')))
    return out


def wrap(good, x):
    return {'Some': some, 'Ok': ok, 'Err': err}[good](x)


def opt_shape(v):
    return None


def variants_of(call):
    d = call.c['def']
    return OPTV if 'option' in d.lower().split('<')[0] or key2(d).startswith('Option') else RESV


def bad(x, p):
    return NONE if x == 'None' else err(p)


@model('Option::map', 'Result::map')
def opt_map(I, st, call, args):
    out = []
    vs = variants_of(call)
    for s2, x, p in cases(I, st, args[0], vs):
        if x == vs[0]:
            out += [(s3, wrap(x, r)) for s3, r in calls(I, s2, call, args[1], [p])]
        else:
            out.append((s2, bad(x, p)))
    return out


@model('Option::and_then', 'Result::and_then')
def opt_and_then(I, st, call, args):
    out = []
    vs = variants_of(call)
    for s2, x, p in cases(I, st, args[0], vs):
        out += calls(I, s2, call, args[1], [p]) if x == vs[0] else [(s2, bad(x, p))]
    return out


@model('Result::map_err')
def map_err(I, st, call, args):
    out = []
    for s2, x, p in cases(I, st, args[0], RESV):
        if x == 'Err':
            out += [(s3, err(r)) for s3, r in calls(I, s2, call, args[1], [p])]
        else:
            out.append((s2, ok(p)))
    return out


@model('Option::ok_or', 'Option::ok_or_else')
def ok_or(I, st, call, args):
    out = []
    for s2, x, p in cases(I, st, args[0], OPTV):
        if x == 'Some':
            out.append((s2, ok(p)))
        elif call.c['name'] == 'ok_or':
            out.append((s2, err(args[1])))
        else:
            out += [(s3, err(r)) for s3, r in calls(I, s2, call, args[1], [])]
    return out


@model('Result::ok', 'Result::err')
def res_ok(I, st, call, args):
    want = 'Ok' if call.c['name'] == 'ok' else 'Err'
    return [(s2, some(p) if x == want else NONE) for s2, x, p in cases(I, st, args[0], RESV)]


@model('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Result::unwrap_err', 'Result::expect_err', 'Option::unwrap_unchecked')
def unwrap(I, st, call, args):
    out = []
    vs = variants_of(call)
    want = vs[1] if call.c['name'].endswith('_err') else vs[0]
    v0 = I.norm(st, args[0])
    for s2, x, p in cases(I, st, args[0], vs):
        if x == want:
            out.append((s2, p))
        else:
            I.panic(s2, call.c['name'] + ' on ' + x, call.fr, [v0])
    return out


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_else', 'Result::unwrap_or_else', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def unwrap_or(I, st, call, args):
    out = []
    vs = variants_of(call)
    n = call.c['name']
    for s2, x, p in cases(I, st, args[0], vs):
        if x == vs[0]:
            out.append((s2, p))
        elif n == 'unwrap_or':
            out.append((s2, args[1]))
        elif n == 'unwrap_or_else':
            out += calls(I, s2, call, args[1], [p] if x == 'Err' else [])
        else:
            out.append((s2, default_of(call.targ(0))))
    return out


@model('Option::map_or', 'Result::map_or', 'Option::map_or_else', 'Result::map_or_else')
def map_or(I, st, call, args):
    out = []
    vs = variants_of(call)
    for s2, x, p in cases(I, st, args[0], vs):
        if x == vs[0]:
            out += calls(I, s2, call, args[2], [p])
        elif call.c['name'] == 'map_or':
            out.append((s2, args[1]))
        else:
            out += calls(I, s2, call, args[1], [p] if x == 'Err' else [], 'e')
    return out


@model('Option::or', 'Option::or_else', 'Result::or', 'Result::or_else')
def opt_or(I, st, call, args):
    out = []
    vs = variants_of(call)
    for s2, x, p in cases(I, st, args[0], vs):
        if x == vs[0]:
            out.append((s2, wrap(x, p)))
        elif call.c['name'] == 'or':
            out.append((s2, args[1]))
        else:
            out += calls(I, s2, call, args[1], [p] if x == 'Err' else [])
    return out


@model('Option::and', 'Result::and')
def opt_and(I, st, call, args):
    vs = variants_of(call)
    return [(s2, args[1] if x == vs[0] else bad(x, p)) for s2, x, p in cases(I, st, args[0], vs)]


@model('Option::filter')
def opt_filter(I, st, call, args):
    out = []
    for s2, x, p in cases(I, st, args[0], OPTV):
        if x == 'None':
            out.append((s2, NONE))
            continue
        for s3, r in calls(I, s2, call, args[1], [p]):
            out += [(s4, some(p) if b else NONE) for s4, b in boolsplit(I, s3, r)]
    return out


@model('bool::then', 'bool::then_some')
def bool_then(I, st, call, args):
    out = []
    for s2, b in boolsplit(I, st, I.norm(st, args[0])):
        if not b:
            out.append((s2, NONE))
        elif call.c['name'] == 'then':
            out += [(s3, some(r)) for s3, r in calls(I, s2, call, args[1], [])]
        else:
            out.append((s2, some(args[1])))
    return out


@model('Option::transpose', 'Result::transpose')
def transpose(I, st, call, args):
    out = []
    o = variants_of(call) is OPTV
    for s2, x, p in cases(I, st, args[0], OPTV if o else RESV):
        if x == 'None':
            out.append((s2, ok(NONE)))
        elif x == 'Err':
            out.append((s2, some(err(p))))
        else:
            for s3, y, q in cases(I, s2, p, RESV if o else OPTV):
                out.append((s3, NONE if y == 'None' else wrap(y, some(q) if y == 'Ok' else q if y == 'Err' else ok(q))))
    return out


@model('Option::flatten')
def opt_flatten(I, st, call, args):
    return [(s2, p if x == 'Some' else NONE) for s2, x, p in cases(I, st, args[0], OPTV)]


@model('Option::zip')
def opt_zip(I, st, call, args):
    out = []
    for s2, x, p in cases(I, st, args[0], OPTV):
        if x == 'None':
            out.append((s2, NONE))
            continue
        out += [(s3, some(tup(p, q)) if y == 'Some' else NONE) for s3, y, q in cases(I, s2, args[1], OPTV)]
    return out


@model('Option::inspect', 'Result::inspect', 'Result::inspect_err')
def inspect(I, st, call, args):
    out = []
    vs = variants_of(call)
    want = vs[1] if call.c['name'] == 'inspect_err' else vs[0]
    for s2, x, p in cases(I, st, args[0], vs):
        v = NONE if x == 'None' else wrap(x, p)
        if x == want:
            out += [(s3, v) for s3, _ in calls(I, s2, call, args[1], [p])]
        else:
            out.append((s2, v))
    return out


@model('Option::as_mut', 'Result::as_mut')
def opt_as_mut(I, st, call, args):
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    if v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    out = []
    vs = variants_of(call)
    for s2, x, p in cases(I, st, v, vs):
        out.append((s2, NONE if x == 'None' else wrap(x, I.ref(root, path + (('v', x), ('f', '0')), True))))
    return out


@model('Option::iter', 'Option::into_iter')
def opt_iter(I, st, call, args):
    out = []
    for s2, x, p in cases(I, st, args[0], OPTV):
        out.append((s2, mk('iter', EMPTYSEQ if x == 'None' else mkseq([mk('one', p)]), k(0), None)))
    return out


@model('Option::take', 'mem::take')
def opt_take(I, st, call, args):
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    I.write_event(st, root, path, NONE, call.loc)
    I.store(st, root, path, NONE if call.c['name'] == 'take' and key2(call.c['def']).startswith('Option') else default_of(call.targ(0)))
    return [(st, v)]


@model('Option::replace', 'mem::replace', 'Option::insert')
def opt_replace(I, st, call, args):
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    new = args[1] if canon(call.c['def']).startswith('std::mem') else some(args[1])
    I.write_event(st, root, path, new, call.loc)
    I.store(st, root, path, new)
    if call.c['name'] == 'insert':
        return [(st, I.ref(root, path + (('v', 'Some'), ('f', '0')), True))]
    return [(st, v)]


@model('mem::swap')
def mem_swap(I, st, call, args):
    r1, p1 = I.as_place(args[0])
    r2, p2 = I.as_place(args[1])
    a, b = I.load(st, r1, p1), I.load(st, r2, p2)
    I.write_event(st, r1, p1, b, call.loc)
    I.write_event(st, r2, p2, a, call.loc)
    I.store(st, r1, p1, b)
    I.store(st, r2, p2, a)
    return [(st, UNIT)]


@model('mem::drop', 'mem::forget')
def mem_drop(I, st, call, args):
    return [(st, UNIT)]


@model('Option::get_or_insert_with', 'Option::get_or_insert', 'Option::get_or_insert_default')
def get_or_insert(I, st, call, args):
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    out = []
    r = I.ref(root, path + (('v', 'Some'), ('f', '0')), True)
    for s2, x, p in cases(I, st, v, OPTV):
        if x == 'Some':
            out.append((s2, r))
            continue
        n = call.c['name']
        if n == 'get_or_insert':
            news = [(s2, args[1])]
        elif n == 'get_or_insert_default':
            news = default_call(I, s2, call, call.targ(0))
        else:
            news = calls(I, s2, call, args[1], [])
        for s3, nv in news:
            I.write_event(s3, root, path, some(nv), call.loc)
            I.store(s3, root, path, some(nv))
            out.append((s3, r))
    return out


@model('Try::branch')
def try_branch(I, st, call, args):
    t = strip_refs(call.selfty())
    vs = OPTV if t[0] == 'adt' and t[1] == OPT else RESV
    CF = 'std::ops::ControlFlow'
    if t[0] == 'adt' and t[1] not in (OPT, RES):
        return None
    out = []
    for s2, x, p in cases(I, st, args[0], vs):
        if x in ('Some', 'Ok'):
            out.append((s2, agg(CF, 'Continue', ('0',), (p,))))
        else:
            out.append((s2, agg(CF, 'Break', ('0',), (bad(x, p),))))
    return out


@model('FromResidual::from_residual')
def from_residual(I, st, call, args):
    v = args[0]
    if v.tag != 'agg':
        return None
    if v.a[1] == 'None':
        return [(st, NONE)]
    if v.a[1] == 'Err':
        to, frm = strip_refs(call.targ(0)), strip_refs(call.targ(1))
        if to[0] == 'adt' and len(to[2]) == 2 and frm[0] == 'adt' and len(frm[2]) == 2:
            outs = conv(I, st, call, v.a[3], to[2][1], frm[2][1])
            if outs:
                return [(s2, err(e)) for s2, e in outs]
        return [(st, err(v.a[3]))]
    return None


@model('Try::from_output')
def from_output(I, st, call, args):
    t = strip_refs(call.selfty())
    return [(st, some(args[0]) if t[0] == 'adt' and t[1] == OPT else ok(args[0]))]


# ------------------------------------------------------------------ defaults
def default_of(t):
    if t is None:
        return app('default')
    if t[0] == 'adt':
        n = t[1]
        if n == 'std::vec::Vec':
            return EMPTYSEQ
        if n == 'std::string::String':
            return k('')
        if n == OPT:
            return NONE
        if n in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            return app('emptymap')
        if n == 'hyper::Body' or n.endswith('::body::Body'):
            return app('emptybody')
        if n == 'bytes::Bytes' or n.endswith('::Bytes'):
            return k('')
    if t[0] == 'prim':
        return FALSE if t[1] == 'bool' else k(0, t[1])
    if t[0] == 'tuple':
        return tup(*[default_of(x) for x in t[1]])
    if t[0] == 'ref' and t[2][0] == 'str':
        return k('')
    if t[0] == 'ref' and t[2][0] == 'slice':
        return EMPTYSEQ
    if t[0] == 'ref':
        return default_of(t[2])
    return app('default<%s>' % tstr(t))


def default_call(I, st, call, t):
    r = I.find_impl('std::default::Default', 'default', t)
    if r:
        return I.inline(st, call.fr, r[0], r[1], [], call.loc, (call.bb, 'default'))
    return [(st, default_of(t))]


@model('Default::default')
def default_default(I, st, call, args):
    return default_call(I, st, call, call.selfty())


@model('Vec::new', 'Vec::with_capacity')
def vec_new(I, st, call, args):
    return [(st, EMPTYSEQ)]


@model(*['%s::%s' % (t, m) for t in ('Vec', 'String', 'VecDeque', 'HashMap', 'BTreeMap', 'BytesMut') for m in ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to')])
def capacity(I, st, call, args):
    # changes how much room there is, never what is in it
    return [(st, UNIT)]


@model('String::new', 'String::with_capacity')
def string_new(I, st, call, args):
    return [(st, k(''))]


@model('HashMap::new', 'HashMap::with_capacity', 'HashMap::with_hasher', 'BTreeMap::new', 'HeaderMap::new', 'HeaderMap::with_capacity')
def map_new(I, st, call, args):
    return [(st, app('emptymap'))]


# ------------------------------------------------------------------ comparison
@model('PartialEq::eq', 'PartialEq::ne')
def peq(I, st, call, args):
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    # a string compared with a slice of one-element arrays and the like stays symbolic
    if a.tag == 'agg' and b.tag == 'agg' and a.a[1] is not None and b.a[1] is not None and a.a[1] != b.a[1]:
        r = FALSE
    elif b.tag == 'agg' and b.a[1] is not None and len(b.a) == 3:
        v = st.variant(a)
        r = k(v == b.a[1]) if v is not None else app('is_variant', a, b.a[1])
        if b.a[1] == 'None' and v is None:
            r = not_(app('is_variant', a, 'Some'))
    else:
        r = eq(a, b)
    return [(st, r if call.c['name'] == 'eq' else not_(r))]


@model('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def pord(I, st, call, args):
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    n = call.c['name']
    return [(st, {'lt': lambda: lt(a, b), 'gt': lambda: lt(b, a), 'le': lambda: not_(lt(b, a)), 'ge': lambda: not_(lt(a, b))}[n]())]


@model('Not::not')
def not_not(I, st, call, args):
    return [(st, not_(I.norm(st, args[0])))]


# ------------------------------------------------------------------ sequences
def upd(I, st, call, a, f):
    root, path = I.as_place(a)
    old = I.load(st, root, path)
    while old.tag == 'ref':
        root, path = old.a[0], old.a[1]
        old = I.load(st, root, path)
    new = f(old)
    I.write_event(st, root, path, new, call.loc)
    I.store(st, root, path, new)
    return old


@model('Vec::push', 'VecDeque::push_back')
def vec_push(I, st, call, args):
    upd(I, st, call, args[0], lambda o: mkseq(list(seqparts(o)) + [mk('one', args[1])]))
    return [(st, UNIT)]


@model('VecDeque::push_front')
def vec_push_front(I, st, call, args):
    upd(I, st, call, args[0], lambda o: mkseq([mk('one', args[1])] + list(seqparts(o))))
    return [(st, UNIT)]


@model('Vec::append', 'VecDeque::append')
def vec_append(I, st, call, args):
    root, path = I.as_place(args[1])
    other = I.load(st, root, path)
    while other.tag == 'ref':
        root, path = other.a[0], other.a[1]
        other = I.load(st, root, path)
    upd(I, st, call, args[0], lambda o: mkseq(list(seqparts(o)) + list(seqparts(other))))
    I.write_event(st, root, path, EMPTYSEQ, call.loc)
    I.store(st, root, path, EMPTYSEQ)
    return [(st, UNIT)]


def seq_of(I, st, a):
    """The remaining elements of anything iterable, as a collection value."""
    v = I.deref(st, a)
    if v.tag == 'iter':
        src, pos = v.a[0], v.a[1]
        if pos.tag == 'k' and pos.a[0] == 0:
            return I.norm(st, src)
        if pos.tag == 'k' and src.tag == 'seq' and all(p.tag == 'one' for p in src.a[:pos.a[0]]) and len(src.a) >= pos.a[0]:
            return I.norm(st, mkseq(src.a[pos.a[0]:]))
        if pos.tag == 'k':
            return subslice(I.norm(st, src), pos.a[0], 0, True)
        return app('skip', I.norm(st, src), pos)
    if v.tag == 'agg' and v.a[0] == 'array':
        return mkseq([mk('one', x) for x in v.a[3:]])
    if v.tag == 'agg' and v.a[0] == OPT:
        return mkseq([mk('one', x) for x in v.a[3:]])
    return I.norm(st, v)


@model('Extend::extend', 'Vec::extend_from_slice', 'Vec::extend')
def vec_extend(I, st, call, args):
    t = strip_refs(call.selfty() or ('other', ''))
    s2 = seq_of(I, st, args[1])
    if t[0] == 'adt' and t[1] == 'std::string::String':
        upd(I, st, call, args[0], lambda o: mkstr([o, app('concat', s2)]))
    elif t[0] == 'adt' and 'Map' in t[1]:
        if any(strip_refs(x)[:2] == t[:2] for x in map(call.targ, range(1, 4)) if x):
            I.maps.add(s2)
        upd(I, st, call, args[0], lambda o: as_map(I, s2) if o.tag == 'app' and o.a[0] == 'emptymap' else app('mextend', o, s2))
    else:
        upd(I, st, call, args[0], lambda o: mkseq(list(seqparts(o)) + list(seqparts(s2))))
    return [(st, UNIT)]


@model('Vec::insert')
def vec_insert(I, st, call, args):
    i = args[1]
    if i.tag != 'k':
        I.site(st, 'Vec::insert', [I.norm(st, args[0]), i], call.fr)

    def f(o):
        ps = list(seqparts(o))
        if i.tag == 'k' and all(p.tag == 'one' for p in ps[:i.a[0]]) and len(ps) >= i.a[0]:
            return mkseq(ps[:i.a[0]] + [mk('one', args[2])] + ps[i.a[0]:])
        if i.tag == 'app' and i.a[0] == 'len' and i.a[1] is I.norm(st, o):
            return mkseq(ps + [mk('one', args[2])])
        return app('inserted', o, i, args[2])
    upd(I, st, call, args[0], f)
    return [(st, UNIT)]


@model('Vec::remove', 'VecDeque::pop_front')
def vec_remove(I, st, call, args):
    front = call.c['name'] == 'pop_front'
    i = k(0) if front else args[1]
    root, path = I.as_place(args[0])
    old = I.load(st, root, path)
    while old.tag == 'ref':
        root, path = old.a[0], old.a[1]
        old = I.load(st, root, path)
    if not front:
        I.site(st, 'Vec::remove', [I.norm(st, old), i], call.fr)
    e = index(old, i)
    if i.tag == 'k' and i.a[0] == 0:
        new = subslice(old, 1, 0, True)
    else:
        new = app('removed', old, i)
    out = []
    if front:
        for s2, b in boolsplit(I, st, is_empty(I.norm(st, old))):
            if b:
                out.append((s2, NONE))
            else:
                I.write_event(s2, root, path, new, call.loc)
                I.store(s2, root, path, new)
                out.append((s2, some(e)))
        return out
    if not st.assume(is_empty(I.norm(st, old)), False):
        I.panic(st, 'Vec::remove on an empty vector', call.fr, [old])
        return []
    I.write_event(st, root, path, new, call.loc)
    I.store(st, root, path, new)
    return [(st, e)]


@model('Vec::clear', 'String::clear', 'HashMap::clear')
def vec_clear(I, st, call, args):
    e = {'Vec': EMPTYSEQ, 'String': k(''), 'HashMap': app('emptymap')}[key2(call.c['def']).split('::')[0]]
    upd(I, st, call, args[0], lambda o: e)
    return [(st, UNIT)]


@model('Vec::truncate', 'String::truncate')
def vec_truncate(I, st, call, args):
    n = args[1]
    if call.c['def'].startswith('std::string'):
        I.site(st, 'partial:String::truncate', [I.norm(st, args[0]), n], call.fr)

    def f(o):
        if n.tag == 'k' and n.a[0] == 0:
            return EMPTYSEQ if o.tag != 'str' else k('')
        if n.tag == 'app' and n.a[0] == 'len':
            x = list(seqparts(n.a[1]))
            ps = list(seqparts(o))
            if ps[:len(x)] == x:
                return n.a[1]
        if call.c['def'].startswith('std::string') and (n.tag == 'lv' or n.tag == 'app' and n.a[0] == 'common'):
            return app('substr', o, k(0), n)
        return app('truncated', o, n)
    upd(I, st, call, args[0], f)
    return [(st, UNIT)]


@model('Vec::pop', 'VecDeque::pop_back')
def vec_pop(I, st, call, args):
    root, path = I.as_place(args[0])
    old = I.load(st, root, path)
    while old.tag == 'ref':
        root, path = old.a[0], old.a[1]
        old = I.load(st, root, path)
    if old.tag == 'seq' and old.a and old.a[-1].tag == 'one':
        I.store(st, root, path, mkseq(old.a[:-1]))
        return [(st, some(old.a[-1].a[0]))]
    out = []
    for s2, b in boolsplit(I, st, is_empty(I.norm(st, old))):
        if b:
            out.append((s2, NONE))
        else:
            I.store(s2, root, path, subslice(old, 0, 1, True))
            out.append((s2, some(index(old, app('last')))))
    return out


@model('Vec::splice')
def vec_splice(I, st, call, args):
    rng = I.deref(st, args[1])
    new = seq_of(I, st, args[2])
    lo = proj(rng, ('f', 'start')) if rng.tag == 'agg' and 'start' in rng.a[2] else k(0) if rng.tag == 'agg' else app('lo', rng)
    hi = proj(rng, ('f', 'end')) if rng.tag == 'agg' and 'end' in rng.a[2] else None

    def f(o):
        ps = list(seqparts(o))
        if lo.tag == 'k' and hi is not None and hi is lo and len(ps) >= lo.a[0] and all(p.tag == 'one' for p in ps[:lo.a[0]]):
            return mkseq(ps[:lo.a[0]] + list(seqparts(new)) + ps[lo.a[0]:])
        return app('spliced', o, lo, hi or app('end'), new)
    if not (lo.tag == 'k' and hi is lo and lo.a[0] == 0):
        I.site(st, 'Vec::splice', [I.norm(st, args[0]), lo], call.fr)
    upd(I, st, call, args[0], f)
    return [(st, app('spliced_out'))]


@model('Vec::reverse', 'slice::reverse')
def vec_reverse(I, st, call, args):
    upd(I, st, call, args[0], lambda o: o if o.tag == 'seq' and not o.a else app('rev', o))
    return [(st, UNIT)]


@model('slice::rotate_right', 'slice::rotate_left')
def rotate(I, st, call, args):
    n = args[1]

    def f(o):
        ps = list(seqparts(o))
        if n.tag == 'app' and n.a[0] == 'len':
            x = list(seqparts(n.a[1]))
            m = len(x)
            if call.c['name'] == 'rotate_right' and m and ps[-m:] == x:
                return mkseq(x + ps[:-m])
            if call.c['name'] == 'rotate_left' and ps[:m] == x:
                return mkseq(ps[m:] + x)
        return app(call.c['name'], o, n)
    upd(I, st, call, args[0], f)
    return [(st, UNIT)]


@model('Vec::len', 'slice::len', 'String::len', 'str::len', 'HashMap::len', 'ExactSizeIterator::len', 'VecDeque::len', 'Iterator::count')
def seq_len(I, st, call, args):
    return [(st, length(seq_of(I, st, args[0])))]


@model('Vec::is_empty', 'slice::is_empty', 'String::is_empty', 'str::is_empty', 'HashMap::is_empty', 'VecDeque::is_empty')
def seq_is_empty(I, st, call, args):
    return [(st, is_empty(seq_of(I, st, args[0])))]


def at_end(n, i):
    """the position of the last element, when a number is known to be that"""
    if n.tag == 'seq' and len(n.a) > 1 and n.a[-1].tag == 'one' and i.tag == 'app' and (i is length(mkseq(list(n.a[:-1]))) or i.a[0] == 'Sub' and i.a[1] is length(n) and i.a[2].tag == 'k' and i.a[2].a[0] == 1):
        return app('last')
    return i


def lookup_seq(I, st, call, args, idx, mut):
    """first/last/get: fork on presence"""
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    while v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    idx = at_end(I.norm(st, v), idx)
    if mut:
        e = I.ref(root, path + (('i', idx),), True)
    else:
        e = index(v, idx)
    n = I.norm(st, v)
    if idx.tag == 'k' and idx.a[0] == 0 or idx.tag == 'app' and idx.a[0] == 'last':
        c = not_(is_empty(n))
    else:
        c = lt(idx, length(n))
    return [(s2, some(e) if b else NONE) for s2, b in boolsplit(I, st, c)]


@model('slice::first', 'slice::first_mut', 'VecDeque::front', 'VecDeque::front_mut')
def slice_first(I, st, call, args):
    return lookup_seq(I, st, call, args, k(0), call.c['name'].endswith('mut'))


@model('slice::last', 'slice::last_mut', 'VecDeque::back', 'VecDeque::back_mut')
def slice_last(I, st, call, args):
    return lookup_seq(I, st, call, args, app('last'), call.c['name'].endswith('mut'))


def range_of(r):
    """(lo, hi or None) of a range value"""
    if r.tag == 'agg' and r.a[0].startswith('std::ops::'):
        n = r.a[0].split('::')[-1]
        if n == 'RangeFrom':
            return r.a[3], None
        if n == 'RangeTo':
            return k(0), r.a[3]
        if n == 'Range':
            return r.a[3], r.a[4]
        if n == 'RangeFull':
            return k(0), None
    return None


def subrange(v, lo, hi, text):
    if lo.tag == 'k' and lo.a[0] == 0 and hi is None:
        return v
    if text:
        return app('substr', v, lo, hi if hi is not None else app('end'))
    if hi is None and lo.tag == 'k':
        return subslice(v, lo.a[0], 0, True)
    return app('range', v, lo, hi if hi is not None else app('end'))


@model('slice::get', 'slice::get_mut', 'VecDeque::get')
def slice_get(I, st, call, args):
    i = I.deref(st, args[1])
    rg = range_of(i)
    if rg is None:
        if i.tag == 'agg':
            return None
        return lookup_seq(I, st, call, args, i, call.c['name'].endswith('mut'))
    v = I.deref(st, args[0])
    n = I.norm(st, v)
    lo, hi = rg
    if hi is None and lo.tag == 'k' and lo.a[0] == 1:
        c = not_(is_empty(n))
    elif hi is None:
        c = not_(lt(length(n), lo))
    else:
        c = app('in_range', n, lo, hi)
    return [(s2, some(subrange(v, lo, hi, False)) if b else NONE) for s2, b in boolsplit(I, st, c)]


@model('str::get')
def str_get(I, st, call, args):
    rg = range_of(I.deref(st, args[1]))
    if rg is None:
        return None
    v = I.norm(st, args[0])
    r = subrange(v, rg[0], rg[1], True)
    return [(s2, some(r) if b else NONE) for s2, b in boolsplit(I, st, app('in_str_range', v, rg[0], rg[1] or app('end')))]


@model('Index::index', 'IndexMut::index_mut')
def index_index(I, st, call, args):
    t = strip_refs(call.selfty())
    i = I.deref(st, args[1])
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    while v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    rg = range_of(i)
    text = t[0] == 'str' or t[0] == 'adt' and t[1] == 'std::string::String'
    if t[0] == 'adt' and 'Map' in t[1]:
        I.site(st, 'map_index', [I.norm(st, v), I.norm(st, i)], call.fr)
        return [(st, app('mval', I.norm(st, v), I.norm(st, i)))]
    if rg is None and text:
        return None
    if rg is None:
        I.site(st, 'index', [I.norm(st, v), i], call.fr)
        i = at_end(I.norm(st, v), i)
        if call.c['name'] == 'index_mut':
            return [(st, I.ref(root, path + (('i', i),), True))]
        return [(st, index(v, i))]
    I.site(st, 'str_index' if text else 'slice_index', [I.norm(st, v), rg[0], rg[1] or app('end')], call.fr)
    return [(st, subrange(v if not text else I.norm(st, v), rg[0], rg[1], text))]


@model('slice::from_ref', 'slice::from_mut')
def slice_from_ref(I, st, call, args):
    return [(st, mkseq([mk('one', I.deref(st, args[0]))]))] if call.c['name'] == 'from_ref' else None


@model('slice::split_first', 'slice::split_last')
def split_first(I, st, call, args):
    v = I.deref(st, args[0])
    n = I.norm(st, v)
    out = []
    for s2, b in boolsplit(I, st, is_empty(n)):
        if b:
            out.append((s2, NONE))
        elif call.c['name'] == 'split_first':
            out.append((s2, some(tup(index(v, k(0)), subslice(v, 1, 0, True)))))
        else:
            out.append((s2, some(tup(index(v, app('last')), subslice(v, 0, 1, True)))))
    return out


@model('slice::split_at')
def split_at(I, st, call, args):
    v = I.deref(st, args[0])
    I.site(st, 'slice_index', [I.norm(st, v), args[1], app('end')], call.fr)
    return [(st, tup(app('range', v, k(0), args[1]), subrange(v, args[1], None, False)))]


@model('str::split_at')
def str_split_at(I, st, call, args):
    v = I.norm(st, args[0])
    I.site(st, 'str_index', [v, args[1], app('end')], call.fr)
    return [(st, tup(subrange(v, k(0), args[1], True), subrange(v, args[1], None, True)))]


@model('slice::contains')
def slice_contains(I, st, call, args):
    return [(st, app('has', I.norm(st, args[0]), I.norm(st, args[1])))]


@model('slice::starts_with')
def slice_starts(I, st, call, args):
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    return [(st, app('starts_with', a, b))]


@model('slice::join', 'Join::join', 'slice::concat')
def slice_join(I, st, call, args):
    v = I.norm(st, args[0])
    sep = I.norm(st, args[1]) if len(args) > 1 else k('')
    t = strip_refs(call.selfty() or ('other', ''))
    e = strip_refs(t[1]) if t[0] in ('slice', 'array') else t
    parts = list(v.a[3:]) if v.tag == 'agg' and v.a[0] == 'array' else [p.a[0] for p in v.a] if v.tag == 'seq' and all(p.tag == 'one' for p in v.a) else None
    if parts and (e == ('str',) or e[0] == 'adt' and e[1] == 'std::string::String'):
        return [(st, mkstr([x for i, p in enumerate(parts) for x in ([sep] if i else []) + [p]]))]
    return [(st, app('join', v, sep))]


@model('Iter::as_slice', 'IntoIter::as_slice')
def iter_as_slice(I, st, call, args):
    return [(st, rest(I, st, args[0]))]


# ------------------------------------------------------------------ text
@model('String::push_str', 'String::push', 'AddAssign::add_assign')
def push_str(I, st, call, args):
    if call.c['name'] == 'add_assign':
        t = strip_refs(call.selfty())
        if not (t[0] == 'adt' and t[1] in ('std::string::String', 'std::borrow::Cow')):
            upd(I, st, call, args[0], lambda o: app('Add', o, I.norm(st, args[1])))
            return [(st, UNIT)]
    x = I.norm(st, args[1])
    upd(I, st, call, args[0], lambda o: mkstr([o, x]))
    return [(st, UNIT)]


@model('Add::add')
def add_add(I, st, call, args):
    t = strip_refs(call.selfty())
    if t[0] == 'adt' and t[1] in ('std::string::String', 'std::borrow::Cow'):
        return [(st, mkstr([I.norm(st, args[0]), I.norm(st, args[1])]))]
    if t[0] == 'prim':
        return [(st, I.binop('Add', I.norm(st, args[0]), I.norm(st, args[1])))]
    return None


@model('methods::len_utf8')
def len_utf8(I, st, call, args):
    return [(st, app('len_utf8', I.norm(st, args[0])))]


@model('str::replace', 'str::replacen', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'Path::join', 'Path::file_name', 'Path::is_absolute',
       'Path::is_relative', 'Path::has_root', 'Path::to_str', 'Path::starts_with', 'Path::ends_with')
def str_fn(I, st, call, args):
    if call.c['name'] == 'join':
        return [(st, app('pjoin', I.norm(st, args[0]), I.norm(st, args[1])))]
    return [(st, app(key2(call.c['def']), I.norm(st, args[0]), *[pattern(I, st, a, call) for a in args[1:]]))]


@model('PathBuf::push')
def path_push(I, st, call, args):
    upd(I, st, call, args[0], lambda o: app('pjoin', o, I.norm(st, args[1])))
    return [(st, UNIT)]


def starts(st, v, c):
    """starting with a character: the same question as what the first character is"""
    cs = app('chars', v)
    out = []
    s2 = st.copy()
    if s2.set_variant(app('at', cs, k(0)), 'None') is not False:
        out.append((s2, FALSE))
    s3 = st.copy()
    if s3.set_variant(app('at', cs, k(0)), 'Some') is not False:
        out.append((s3, eq(app('elem', cs, k(0)), k(c, 'char'))))
    return out


@model('str::starts_with', 'str::ends_with', 'str::contains')
def str_pred(I, st, call, args):
    p = pattern(I, st, args[1], call)
    v = I.norm(st, args[0])
    if call.c['name'] == 'starts_with' and p.tag == 'k' and isinstance(p.a[0], str) and len(p.a[0]) == 1:
        return starts(st, v, p.a[0])
    return [(st, app('str::' + call.c['name'], v, p))]


@model('str::strip_prefix')
def str_strip(I, st, call, args):
    p = pattern(I, st, args[1], call)
    v = I.norm(st, args[0])
    if p.tag != 'k' or not isinstance(p.a[0], str) or len(p.a[0]) != 1 or p.a[0] == '/':
        return None
    # asking whether it starts with the character, and leaving it out
    out = []
    for s2, r in starts(st, v, p.a[0]):
        for s3, b in boolsplit(I, s2, r):
            out.append((s3, some(app('substr', v, k(len(p.a[0].encode())), app('end'))) if b else NONE))
    return out


@model('str::find', 'str::rfind')
def str_find(I, st, call, args):
    p = pattern(I, st, args[1], call)
    if p.tag != 'k':
        return None
    v = I.norm(st, args[0])
    r = app('str::' + call.c['name'], v, p)
    out = []
    for s2, b in boolsplit(I, st, app('str::contains', v, p)):
        if s2.set_variant(r, 'Some' if b else 'None') is not False:
            out.append((s2, some(proj(proj(r, ('v', 'Some')), ('f', '0'))) if b else NONE))
    return out


def pattern(I, st, a, call):
    v = I.norm(st, a)
    if v.tag in ('clo', 'fnv'):
        lam = I.pure_lambda(st, call, a, 1)
        if lam is not None:
            # |c| c == 'x'
            h = lam[0]
            b = lam[1]
            if b.tag == 'app' and b.a[0] == 'eq' and b.a[1] is h:
                return b.a[2]
            p = app('lam', h, b)
            cs = delimiters(p)
            return k(*cs) if cs is not None and len(cs) == 1 and '' not in cs else p
    if v.tag == 'k' and v.a[1] == 'char':
        c = v.a[0]
        return k(chr(c) if isinstance(c, int) else c)
    if v.tag == 'agg' and v.a[0] == 'array' and len(v.a) == 4:
        return pattern(I, st, v.a[3], call)
    return v


@model('str::split', 'str::chars', 'str::bytes', 'str::char_indices', 'Path::components', 'str::rsplit', 'str::split_terminator', 'str::splitn', 'str::lines', 'str::split_whitespace', 'Parse::into_owned')
def str_iter(I, st, call, args):
    n = call.c['name']
    xs = [I.norm(st, args[0])] + [pattern(I, st, a, call) for a in args[1:]]
    if n == 'into_owned' and xs[0].tag == 'iter':
        return [(st, xs[0])]
    return [(st, mk('iter', app(n if n != 'into_owned' else 'pairs', *xs), k(0), None))]


@model('form_urlencoded::parse')
def form_parse(I, st, call, args):
    v = I.norm(st, args[0])
    if v.tag == 'k' and v.a[0] == 'b""' or is_empty(v) is TRUE:
        v = k('')
    return [(st, mk('iter', app('form_pairs', v), k(0), None))]


@model('str::parse')
def str_parse(I, st, call, args):
    v = I.norm(st, args[0])
    t = call.targ(0)
    r = app('parse<%s>' % tstr(t), v)
    return [(st, r)]


@model('FromStr::from_str')
def from_str(I, st, call, args):
    v = I.norm(st, args[0])
    r = app('parse<%s>' % tstr(call.selfty()), v)
    return [(st, r)]


# ------------------------------------------------------------------ iterators
def to_iter(I, st, a):
    """iterator value for something iterable (by value or reference)"""
    v = I.deref(st, a)
    if v.tag == 'iter':
        return v
    if a.tag == 'ref' and a.a[2]:
        root, path = a.a[0], a.a[1]
        x = I.load(st, root, path)
        while x.tag == 'ref':
            root, path = x.a[0], x.a[1]
            x = I.load(st, root, path)
        return mk('iter', mk('mutseq', I.ref(root, path, True)), k(0), None)
    if v.tag == 'agg' and v.a[0] == 'std::ops::Range':
        return mk('iter', app('rangeseq', v.a[3], v.a[4]), k(0), None)
    if v.tag == 'agg' and v.a[0] == 'array':
        return mk('iter', mkseq([mk('one', x) for x in v.a[3:]]), k(0), None)
    if v.tag == 'agg' and v.a[0] == OPT:
        return mk('iter', mkseq([mk('one', x) for x in v.a[3:]]), k(0), None)
    return mk('iter', v, k(0), None)


@model('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Vec::iter', 'HashMap::iter', 'HashMap::iter_mut', 'HashMap::keys', 'HashMap::values', 'HashMap::into_keys', 'HashMap::into_values', 'HashMap::values_mut',
       'Vec::drain', 'HashMap::drain', 'Vec::into_iter', 'VecDeque::iter', 'VecDeque::drain')
def into_iter(I, st, call, args):
    n = call.c['name']
    a = args[0]
    v = I.deref(st, a)
    if v.tag == 'iter':
        return [(st, a)]
    t = strip_refs(call.selfty() or ('other', '')) if call.c.get('trait') else None
    if t and t[0] == 'adt' and t[1] == OPT:
        return opt_iter(I, st, call, args)
    if n == 'drain':
        if len(args) > 1:
            rg = range_of(I.deref(st, args[1]))
            if rg is None or not (rg[1] is None and rg[0].tag == 'k' and rg[0].a[0] == 0):
                return None
        e = app('emptymap') if 'HashMap' in call.c['def'] else EMPTYSEQ
        upd(I, st, call, a, lambda o: e)
        return [(st, mk('iter', v, k(0), None))]
    if n in ('into_iter', 'iter') and (t and t[0] == 'adt' and t[1].endswith('Map') or 'HashMap' in call.c['def']):
        I.maps.add(I.norm(st, v))
    if n in ('keys', 'values', 'into_keys', 'into_values'):
        return [(st, mk('iter', app('keys' if 'keys' in n else 'values', I.norm(st, v)), k(0), None))]
    if n == 'values_mut':
        return None
    if n == 'iter_mut' or n == 'into_iter':
        if n == 'iter_mut' and a.tag != 'ref':
            a = mk('ref', ('O', v), (), True)
        return [(st, to_iter(I, st, a))]
    return [(st, to_iter(I, st, v))]


@model('Iterator::by_ref')
def by_ref(I, st, call, args):
    return [(st, args[0])]


@model('Iterator::peekable', 'Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Iterator::into_iter')
def iter_same(I, st, call, args):
    v = I.deref(st, args[0])
    if v.tag != 'iter':
        v = to_iter(I, st, v)
    return [(st, v)]


def rest(I, st, a):
    """collection of the elements an iterator still yields; keeps references inside"""
    v = I.deref(st, a)
    if v.tag != 'iter':
        v = to_iter(I, st, v if a.tag != 'ref' else a)
    src, pos = v.a[0], v.a[1]
    if pos.tag == 'k':
        if pos.a[0] == 0:
            return src
        if src.tag == 'seq' and len(src.a) >= pos.a[0] and all(p.tag == 'one' for p in src.a[:pos.a[0]]):
            return mkseq(src.a[pos.a[0]:])
        return subslice(src, pos.a[0], 0, True)
    return app('skip', src, pos)


TUP2 = tup(k(0), k(1)).a[:2]


def pairs(src):
    """an iterator over pairs"""
    while src.tag == 'app' and src.a[0] in ('filter', 'skip_while', 'take_while', 'rev', 'skip', 'take'):
        src = src.a[1]
    return src.tag == 'app' and src.a[0] in ('form_pairs', 'enumerate', 'zip')


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::take_while', 'Iterator::skip_while', 'Iterator::map_while', 'Iterator::flat_map', 'Iterator::inspect', 'Iterator::scan')
def iter_stage(I, st, call, args):
    n = call.c['name']
    src = rest(I, st, args[0])
    lam = I.pure_lambda(st, call, args[-1], 1, I.norm(st, src)) if n in ('map', 'filter', 'take_while', 'skip_while', 'filter_map') else None
    if n == 'flat_map' and src.tag == 'seq' and all(p.tag == 'one' for p in src.a):
        # an optional list, run through
        lam = I.pure_lambda(st, call, args[-1], 1, I.norm(st, src))
        if lam is not None and (lam[1].tag == 'iter' and lam[1].a[1:] == (k(0), None) or lam[1] is lam[0]):
            h, b = lam[0], lam[1].a[0] if lam[1].tag == 'iter' else lam[1]
            return [(st, mk('iter', mkseq([mk('all', replace(b, {h: I.norm(st, p.a[0])})) for p in src.a]), k(0), None))]
        lam = None
    if lam is None:
        f = I.deref(st, args[-1])
        if f.tag in ('clo', 'fnv'):
            return [(st, mk('iter', app('stage', n, src, args[-1]), k(0), None))]
        return [(st, mk('iter', app(n, src, I.norm(st, f)), k(0), None))]
    h, b = lam
    if n == 'map' and (b is h or b.tag == 'agg' and len(b.a) == 5 and b.a[:2] == TUP2 and b.a[3] is mk('fld', h, '0') and b.a[4] is mk('fld', h, '1') and pairs(src)):
        return [(st, mk('iter', src, k(0), None))]
    return [(st, mk('iter', app(n, src, h, b), k(0), None))]


@model('Iterator::enumerate', 'Iterator::rev', 'Iterator::flatten', 'Iterator::cycle')
def iter_wrap(I, st, call, args):
    n = call.c['name']
    src = rest(I, st, args[0])
    if n == 'flatten':
        # an optional or single list, run through
        ts = strip_refs(call.selfty() or ('other', ''))
        inner = strip_refs(ts[2][-1]) if ts[0] == 'adt' and len(ts) > 2 and ts[2] else ('other', '')
        if src.tag == 'seq' and all(p.tag == 'one' for p in src.a) and (inner[0] == 'slice' or inner[0] == 'adt' and inner[1] in ('std::vec::Vec', 'std::collections::VecDeque', 'std::collections::HashMap')):
            return [(st, mk('iter', mkseq([mk('all', I.norm(st, p.a[0])) for p in src.a]), k(0), None))]
    if n == 'rev' and src.tag == 'seq' and all(p.tag == 'one' for p in src.a):
        return [(st, mk('iter', mkseq(reversed(src.a)), k(0), None))]
    if n == 'rev' and src.tag == 'app' and src.a[0] == 'rev':
        return [(st, mk('iter', src.a[1], k(0), None))]
    return [(st, mk('iter', app(n, src), k(0), None))]


@model('Iterator::skip', 'Iterator::take', 'Iterator::step_by')
def iter_skip(I, st, call, args):
    src = rest(I, st, args[0])
    n = args[1]
    if call.c['name'] == 'skip' and n.tag == 'k':
        return [(st, mk('iter', subslice(src, n.a[0], 0, True) if n.a[0] else src, k(0), None))]
    return [(st, mk('iter', app(call.c['name'], src, n), k(0), None))]


@model('Iterator::chain')
def iter_chain(I, st, call, args):
    a, b = rest(I, st, args[0]), rest(I, st, args[1])
    return [(st, mk('iter', mkseq(list(seqparts(a)) + list(seqparts(b))), k(0), None))]


@model('Iterator::sum')
def iter_sum(I, st, call, args):
    """the length of the text two texts have in common from their start"""
    v = I.norm(st, rest(I, st, args[0]))
    if v.tag == 'app' and v.a[0] == 'map' and len(v.a) == 4:
        t, h, b = v.a[1:]
        if t.tag == 'app' and t.a[0] == 'take_while' and len(t.a) == 4 and t.a[1].tag == 'app' and t.a[1].a[0] == 'zip':
            z, g, c = t.a[1:]
            x, y = z.a[1], z.a[2]
            g0, g1 = proj(g, ('f', '0')), proj(g, ('f', '1'))
            if all(q.tag == 'app' and q.a[0] == 'chars' for q in (x, y)) and c is eq(g0, g1) and b in (app('len_utf8', proj(h, ('f', '0'))), app('len_utf8', proj(h, ('f', '1')))):
                return [(st, app('common', x.a[1], y.a[1]))]
    return None


@model('String::split_off')
def string_split_off(I, st, call, args):
    o = I.norm(st, args[0])
    n = args[1]
    I.site(st, 'str_index', [o, n, app('end')], call.fr)
    upd(I, st, call, args[0], lambda o: subrange(o, k(0), n, True))
    return [(st, subrange(o, n, None, True))]


@model('Iterator::zip')
def iter_zip(I, st, call, args):
    return [(st, mk('iter', app('zip', rest(I, st, args[0]), rest(I, st, args[1])), k(0), None))]


@model('iter::once')
def iter_once(I, st, call, args):
    return [(st, mk('iter', mkseq([mk('one', args[0])]), k(0), None))]


@model('iter::empty')
def iter_empty(I, st, call, args):
    return [(st, mk('iter', EMPTYSEQ, k(0), None))]


@model('iter::repeat')
def iter_repeat(I, st, call, args):
    return None


def iter_place(I, st, a):
    if a.tag != 'ref':
        root, path = ('O', a), ()
    else:
        root, path = a.a[0], a.a[1]
    v = I.load(st, root, path)
    while v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    if v.tag != 'iter':
        v = mk('iter', v, k(0), None)
        I.store(st, root, path, v)
    return root, path, v


def succ(pos):
    if pos.tag == 'k':
        return k(pos.a[0] + 1)
    return app('Add', pos, k(1))


def advance(I, st, call, src, pos):
    """-> [(state, element or None)]; applies stages which run code of the crate"""
    if src.tag == 'app' and src.a[0] == 'stage':
        n, base, f = src.a[1], src.a[2], src.a[3]
        out = []
        for s2, e in advance(I, st, call, base, pos):
            if e is None:
                out.append((s2, None))
                continue
            if n == 'map':
                out += calls(I, s2, call, f, [e], 'stage')
            elif n == 'inspect':
                out += [(s3, e) for s3, _ in calls(I, s2, call, f, [e], 'stage')]
            elif n == 'filter':
                for s3, r in calls(I, s2, call, f, [e], 'stage'):
                    for s4, b in boolsplit(I, s3, r):
                        out.append((s4, e if b else app('later', e)))
            else:
                for s3, r in calls(I, s2, call, f, [e], 'stage'):
                    out.append((s3, app(n, e, I.norm(s3, r))))
        return out
    if src.tag == 'app' and src.a[0] == 'enumerate':
        return [(s2, None if e is None else tup(pos, e)) for s2, e in advance(I, st, call, src.a[1], pos)]
    if src.tag == 'app' and src.a[0] == 'rangeseq' and src.a[1].tag == 'k' and src.a[1].a[0] == 0:
        n = src.a[2]
        if n.tag == 'app' and n.a[0] == 'len':
            # the positions of a sequence
            return [(s2, None if e is None else pos) for s2, e in advance(I, st, call, n.a[1], pos)]
        return [(s2, pos if b else None) for s2, b in boolsplit(I, st, lt(pos, n))]
    P = at(src, pos)
    out = []
    for s2, x, p in cases(I, st, P, OPTV):
        if x == 'None':
            out.append((s2, None))
            continue
        good = True
        for c in elem_facts(src, pos):
            good = good and s2.assume(c, True)
        # the sequence is not empty if it yields something
        if good:
            s2.assume(is_empty(I.norm(s2, src)), False)
            out.append((s2, p))
        elif not good:
            pass
    return out


def elem_facts(src, pos):
    """conditions which hold for an element because of the filters it passed"""
    if src.tag == 'app' and src.a[0] == 'filter' and len(src.a) == 4:
        e = index(src, pos)
        yield replace(src.a[3], {src.a[2]: e})
        return
    if src.tag == 'app' and src.a[0] in ('sub', 'skip', 'rev', 'take', 'cloned'):
        base = src.a[1]
        if base.tag == 'app' and base.a[0] == 'filter' and len(base.a) == 4:
            yield replace(base.a[3], {base.a[2]: index(src, pos)})


@model('Iterator::next', 'DoubleEndedIterator::next_back')
def iter_next(I, st, call, args):
    root, path, it = iter_place(I, st, args[0])
    src, pos = it.a[0], it.a[1]
    if call.c['name'] == 'next_back':
        return None
    out = []
    ways = unfiltered(I, st, call, src, pos) or advance(I, st, call, src, pos)
    for s2, e in ways:
        if e is None:
            out.append((s2, NONE))
        else:
            I.store(s2, root, path, mk('iter', src, succ(pos), None))
            out.append((s2, AGAIN if e is AGAIN else some(e)))
    return out


AGAIN = mk('again')


def loop_head(body, bb):
    """the head of the loop which begins with this call"""
    loops = body.loops()
    for h in loops:
        b = h
        for _ in range(4):
            blk = body.blocks[b]
            if any(s['s'] == '=' and s['v']['r'] != 'ref' for s in blk['st']):
                break
            if b == bb:
                return h
            if blk['term']['t'] != 'goto':
                break
            b = blk['term']['to']
    return None


def unfiltered(I, st, call, src, pos, within=False):
    """a loop over filtered elements, as one over all of them which goes on to the next where the filter says no"""
    if I.unfilter is None or src.tag != 'app' or not within and loop_head(call.fr.body, call.bb) is None:
        return None
    p = I.lvs[pos]['init'] if pos.tag == 'lv' and pos in I.lvs else pos
    if p is not k(0):
        return None
    out = []
    if src.a[0] == 'filter' and len(src.a) == 4:
        I.unfilter.add(src)
        for s2, e in advance(I, st, call, src.a[1], pos):
            if e is None:
                out.append((s2, e))
            else:
                out += [(s3, e if b else AGAIN) for s3, b in boolsplit(I, s2, replace(src.a[3], {src.a[2]: e}))]
        return out
    if src.a[:2] == ('stage', 'filter'):
        I.unfilter.add(src)
        for s2, e in advance(I, st, call, src.a[2], pos):
            if e is None:
                out.append((s2, e))
            else:
                out += [(s4, e if b else AGAIN) for s3, r in calls(I, s2, call, src.a[3], [e], 'stage') for s4, b in boolsplit(I, s3, r)]
        return out
    return None


@model('Peekable::peek', 'Peekable::peek_mut')
def iter_peek(I, st, call, args):
    root, path, it = iter_place(I, st, args[0])
    src, pos = it.a[0], it.a[1]
    if src.tag == 'app' and src.a[0] == 'stage':
        return None
    return [(s2, NONE if e is None else some(e)) for s2, e in advance(I, st, call, src, pos)]


@model('Peekable::next_if', 'Peekable::next_if_eq')
def next_if(I, st, call, args):
    root, path, it = iter_place(I, st, args[0])
    src, pos = it.a[0], it.a[1]
    out = []
    for s2, e in advance(I, st, call, src, pos):
        if e is None:
            out.append((s2, NONE))
            continue
        rs = [(s2, eq(I.norm(s2, e), I.norm(s2, args[1])))] if call.c['name'] == 'next_if_eq' else calls(I, s2, call, args[1], [e])
        for s3, r in rs:
            for s4, b in boolsplit(I, s3, r):
                if b:
                    I.store(s4, root, path, mk('iter', src, succ(pos), None))
                out.append((s4, some(e) if b else NONE))
    return out


@model('Iterator::nth')
def iter_nth(I, st, call, args):
    root, path, it = iter_place(I, st, args[0])
    src, n = it.a[0], args[1]
    pos = I.binop('Add', it.a[1], n)
    out = []
    for s2, e in advance(I, st, call, src, pos):
        I.store(s2, root, path, mk('iter', src, succ(pos), None))
        out.append((s2, NONE if e is None else some(e)))
    return out


def iter_loop(I, st, call, it, acc, step, done):
    """Run `step(state, element, acc) -> [(state, 'next'|'stop', value)]` over an iterator to a fixpoint.
    -> [(state, value)] for both kinds of exit."""
    fid = I.getfid(call.fr.fid, (call.bb, 'iter'), 'iter')
    RI, RA = ('L', fid, 'it'), ('L', fid, 'acc')
    src = it.a[0]
    pos0 = it.a[1]
    out = []
    if src.tag == 'seq' and all(p.tag == 'one' for p in src.a) and len(src.a) <= 6 and pos0.tag == 'k':
        work = [(st, acc)]
        for p in src.a[pos0.a[0]:]:
            nxt = []
            for s2, a in work:
                for s3, how, v in step(s2.copy(), p.a[0], a):
                    if how == 'stop':
                        out.append((s3, v))
                    else:
                        nxt.append((s3, v))
            work = nxt
        return out + [(s2, done(s2, a)) for s2, a in work]
    if src.tag == 'seq' and pos0 is k(0) and len(src.a) >= 2 and src.a[-1].tag == 'all' and all(p.tag == 'one' for p in src.a[:-1]) and len(src.a) <= 4:
        # the first few by themselves, then the rest
        work = [(st, acc)]
        for p in src.a[:-1]:
            nxt = []
            for s2, a in work:
                for s3, how, v in step(s2.copy(), p.a[0], a):
                    if how == 'stop':
                        out.append((s3, v))
                    else:
                        nxt.append((s3, v))
            work = nxt
        for s2, a in work:
            out += iter_loop(I, s2, call, mk('iter', src.a[-1].a[0], k(0), None), a, step, done)
        return out
    st = st.copy()
    st.mem[RI] = it
    st.mem[RA] = acc
    key = I.loopkey((fid, 'iter'), st)
    W = st
    for n in range(12):
        backs, exits = [], []
        W1 = W.copy()
        for s2, e in unfiltered(I, W1, call, W.mem[RI].a[0], W.mem[RI].a[1], True) or advance(I, W1, call, W.mem[RI].a[0], W.mem[RI].a[1]):
            if e is None:
                exits.append((s2, done(s2, s2.mem[RA])))
                continue
            for s3, how, v in [(s2, 'next', s2.mem[RA])] if e is AGAIN else step(s2, e, s2.mem[RA]):
                if how == 'stop':
                    exits.append((s3, v))
                else:
                    cur = s3.mem[RI]
                    s3.mem[RI] = mk('iter', cur.a[0], succ(cur.a[1]), None)
                    s3.mem[RA] = v
                    backs.append(s3)
        W2, changed = I.widen(W, backs, key, st)
        if not changed:
            from .loopsum import summarise
            for s2, v in exits:
                s2.mem[RA] = v
                s2 = summarise(I, key, backs, s2)
                v = s2.mem.pop(RA)
                s2.mem.pop(RI, None)
                out.append((s2, v))
            return out
        W = W2
    from .interp import Budget
    raise Budget('iterator loop does not stabilise')


def the_iter(I, st, a):
    v = I.deref(st, a)
    if v.tag == 'iter':
        return v
    return to_iter(I, st, a)


def consume(I, st, a):
    """an iterator passed by reference is used up"""
    if a.tag == 'ref':
        v = I.deref(st, a)
        if v.tag == 'iter':
            root, path, it = iter_place(I, st, a)
            I.store(st, root, path, mk('iter', it.a[0], app('end_of', it.a[0]), None))


@model('Iterator::for_each', 'Iterator::try_for_each')
def for_each(I, st, call, args):
    it = the_iter(I, st, args[0])
    if call.c['name'] == 'try_for_each':
        return trying(I, st, call, it, UNIT, lambda s2, e, acc: calls(I, s2, call, args[1], [e]), call.targ(2))

    def step(s2, e, acc):
        return [(s3, 'next', UNIT) for s3, _ in calls(I, s2, call, args[1], [e])]
    return iter_loop(I, st, call, it, UNIT, step, lambda s2, a: UNIT)


def trying(I, st, call, it, acc, f, t):
    """a loop that stops at the first None or Err"""
    n = t[1].split('::')[-1] if t and t[0] == 'adt' else None
    if n not in ('Option', 'Result'):
        return None
    vs = OPTV if n == 'Option' else RESV

    def step(s2, e, a):
        out = []
        for s3, r in f(s2, e, a):
            for s4, x, p in cases(I, s3, r, vs):
                out.append((s4, 'next', p) if x == vs[0] else (s4, 'stop', bad(x, p)))
        return out
    return iter_loop(I, st, call, it, acc, step, lambda s2, a: wrap(vs[0], a))


@model('Iterator::try_fold')
def try_fold(I, st, call, args):
    it = the_iter(I, st, args[0])
    return trying(I, st, call, it, args[1], lambda s2, e, acc: calls(I, s2, call, args[2], [acc, e]), call.targ(3))


@model('Iterator::fold')
def fold(I, st, call, args):
    it = the_iter(I, st, args[0])

    def step(s2, e, acc):
        return [(s3, 'next', v) for s3, v in calls(I, s2, call, args[2], [acc, e])]
    return iter_loop(I, st, call, it, args[1], step, lambda s2, a: a)


@model('Iterator::all', 'Iterator::any')
def all_any(I, st, call, args):
    n = call.c['name']
    it = the_iter(I, st, args[0])
    lam = I.pure_lambda(st, call, args[1], 1, I.norm(st, rest(I, st, args[0])))
    if lam is not None and it.a[1].tag == 'k':
        src = I.norm(st, rest(I, st, args[0]))
        h, b = lam
        if n == 'any':
            return [(st, not_(every(src, h, not_(b))))]
        if b.tag == 'k' and b.a[0] is True:
            return [(st, TRUE)]
        return [(st, every(src, h, b))]

    def step(s2, e, acc):
        out = []
        for s3, r in calls(I, s2, call, args[1], [e]):
            for s4, b in boolsplit(I, s3, r):
                out.append((s4, 'stop', k(b)) if b == (n == 'any') else (s4, 'next', UNIT))
        return out
    return iter_loop(I, st, call, it, UNIT, step, lambda s2, a: k(n == 'all'))


def first_difference(I, st, call, args, it):
    """where two texts stop being alike: what zip(..).find(differs) finds"""
    src = I.norm(st, rest(I, st, args[0]))
    if not (src.tag == 'app' and src.a[0] == 'zip' and all(q.tag == 'app' and q.a[0] in ('chars', 'char_indices') for q in src.a[1:3])):
        return None
    lam = I.pure_lambda(st, call, args[1], 1, src)
    if lam is None:
        return None
    h, b = lam

    def ch(i):
        x = proj(h, ('f', str(i)))
        return proj(x, ('f', '1')) if src.a[1 + i].a[0] == 'char_indices' else x
    if b is not not_(eq(ch(0), ch(1))):
        return None
    x, y = src.a[1].a[1], src.a[2].a[1]
    c = app('common', x, y)
    out = []

    def known(s2, *facts):
        return s2 if all(s2.assume(f, t) for f, t in facts) else None
    s2 = known(st.copy(), (eq(c, length(x)), False), (eq(c, length(y)), False), (lt(c, length(x)), True), (lt(c, length(y)), True))
    if s2 is not None:
        vs = []
        for q in src.a[1:3]:
            e = app('char_at', q.a[1], c)
            vs.append(tup(c, e) if q.a[0] == 'char_indices' else e)
        out.append((s2, some(tup(*vs))))
    for facts in (((eq(c, length(x)), True),), ((eq(c, length(x)), False), (eq(c, length(y)), True))):
        s2 = known(st.copy(), (app('alike', x, y), True), *facts)
        if s2 is not None:
            out.append((s2, NONE))
    return out


@model('Ord::min', 'cmp::min')
def ord_min(I, st, call, args):
    a, b = I.norm(st, args[0]), I.norm(st, args[1])
    for x, y in ((a, b), (b, a)):
        # two texts, one of which is known to be the start of the other
        if x.tag == 'app' and x.a[0] == 'len' and y.tag == 'app' and y.a[0] == 'len':
            c = app('common', x.a[1], y.a[1])
            if st.facts.get(app('alike', *c.a[1:])) is True:
                return [(st, c)]
    return None


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def find(I, st, call, args):
    n = call.c['name']
    it = the_iter(I, st, args[0])
    t = call.selfty()
    if n == 'find' and it.a[1].tag == 'k' and t and t[0] == 'adt' and 'Map' not in t[1].split('::')[-1] and t[1].split('::')[-1] == 'Iter' and 'map' in t[1]:
        # the entry of a map under some key
        src = I.norm(st, rest(I, st, args[0]))
        lam = I.pure_lambda(st, call, args[1], 1, src)
        if lam is not None and lam[1].tag == 'app' and lam[1].a[0] == 'eq':
            h, own = lam[0], mk('fld', lam[0], '0')
            for x, key in (lam[1].a[1:], lam[1].a[:0:-1]):
                if x is own and h not in subterms(key):
                    return [(s2, some(tup(key, p)) if x == 'Some' else NONE) for s2, x, p in cases(I, st, mget(src, key), OPTV)]
    if n == 'find' and it.a[1] is k(0):
        r = first_difference(I, st, call, args, it)
        if r is not None:
            return r
    # running position, for position()
    def step(s2, e, acc):
        out = []
        for s3, r in calls(I, s2, call, args[1], [e]):
            if n == 'find_map':
                for s4, x, p in cases(I, s3, r, OPTV):
                    out.append((s4, 'stop', some(p)) if x == 'Some' else (s4, 'next', acc))
                continue
            for s4, b in boolsplit(I, s3, r):
                if not b:
                    out.append((s4, 'next', succ(acc)))
                else:
                    out.append((s4, 'stop', some(e if n == 'find' else acc)))
        return out
    return iter_loop(I, st, call, it, k(0), step, lambda s2, a: NONE)


@model('Iterator::last')
def iter_last(I, st, call, args):
    src = rest(I, st, args[0])
    n = I.norm(st, src)
    return [(s2, NONE if b else some(index(src, app('last')))) for s2, b in boolsplit(I, st, is_empty(n))]


@model('Iterator::collect', 'FromIterator::from_iter')
def collect(I, st, call, args):
    a = args[0]
    t = call.targ(1) if call.c['name'] == 'collect' else call.selfty()
    src = rest(I, st, a)
    if src.tag == 'app' and src.a[0] == 'stage':
        it = the_iter(I, st, a)
        if t and t[0] == 'adt' and t[1] in ('std::vec::Vec', 'std::boxed::Box', 'std::collections::VecDeque'):
            def step(s2, e, acc):
                if e.tag == 'app' and e.a[0] == 'later':
                    return [(s2, 'next', acc)]
                if e.tag == 'app' and e.a[0] in ('filter_map', 'flat_map', 'scan', 'map_while', 'take_while', 'skip_while'):
                    e = app('from', e)
                return [(s2, 'next', mkseq(list(seqparts(acc)) + [mk('one', e)]))]
            return iter_loop(I, st, call, it, EMPTYSEQ, step, lambda s2, a: a)
        return None
    consume(I, st, a)
    if t and t[0] == 'adt':
        n = t[1]
        if n in ('std::vec::Vec', 'std::boxed::Box', 'std::collections::VecDeque', 'std::sync::Arc'):
            return [(st, src)]
        if n == 'std::string::String':
            return [(st, app('concat', I.norm(st, src)))]
        if n in ('std::result::Result', OPT):
            return [(st, app('collect_' + n.split('::')[-1], I.norm(st, src)))]
        src = I.norm(st, src)
        return [(st, as_map(I, src) if 'Map' in n else app('collect', src))]
    return [(st, app('collect', I.norm(st, src)))]


# ------------------------------------------------------------------ maps
def as_map(I, rows):
    """the map made of some pairs: of equal keys the last is kept"""
    src = rows
    if src.tag == 'app' and src.a[0] == 'map' and src.a[3].tag == 'agg' and src.a[3].a[0] == 'tuple' and src.a[3].a[3:] == (mk('fld', src.a[2], '0'), mk('fld', src.a[2], '1')):
        src = src.a[1]
    if src in I.maps:
        return src
    return app('collect_map', rows)


@model('HashMap::get', 'HashMap::contains_key', 'HashMap::get_mut', 'BTreeMap::get', 'HashMap::get_key_value')
def map_get(I, st, call, args):
    n = call.c['name']
    if n == 'get_key_value':
        return None
    m = I.norm(st, args[0])
    key = I.norm(st, args[1])
    g = mget(m, key)
    if n == 'get':
        return [(st, g)]
    if n == 'contains_key':
        v = st.variant(g)
        return [(st, k(v == 'Some') if v else app('is_variant', g, 'Some'))]
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    while v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    return [(s2, some(I.ref(root, path + (('m', key),), True)) if x == 'Some' else NONE) for s2, x, p in cases(I, st, g, OPTV)]


def mget(m, key):
    if m.tag == 'app' and m.a[0] == 'emptymap':
        return NONE
    if m.tag == 'app' and m.a[0] == 'minsert':
        if m.a[2] is key:
            return some(m.a[3])
        if m.a[2].tag == 'k' and key.tag == 'k':
            return mget(m.a[1], key)
    if m.tag == 'app' and m.a[0] == 'mremove':
        if m.a[2] is key:
            return NONE
        if m.a[2].tag == 'k' and key.tag == 'k':
            return mget(m.a[1], key)
    return app('HashMap::get', m, key)


@model('HashMap::insert', 'BTreeMap::insert', 'HeaderMap::insert')
def map_insert(I, st, call, args):
    key = I.norm(st, args[1])
    x = args[2]
    g = []

    def f(o):
        g.append(mget(I.norm(st, o), key))
        if o.tag == 'app' and o.a[0] == 'mremove' and o.a[2] is key:
            o = o.a[1]
        return app('minsert', o, key, x)
    upd(I, st, call, args[0], f)
    return [(st, g[0])]


@model('HeaderMap::append')
def map_append(I, st, call, args):
    upd(I, st, call, args[0], lambda o: app('mappend', o, I.norm(st, args[1]), args[2]))
    return [(st, app('appended'))]


@model('HashMap::remove')
def map_remove(I, st, call, args):
    key = I.norm(st, args[1])
    g = []

    def f(o):
        g.append(mget(I.norm(st, o), key))
        return app('mremove', o, key)
    upd(I, st, call, args[0], f)
    return [(st, g[0])]


@model('HashMap::entry', 'BTreeMap::entry', 'HeaderMap::entry')
def map_entry(I, st, call, args):
    root, path = I.as_place(args[0])
    v = I.load(st, root, path)
    while v.tag == 'ref':
        root, path = v.a[0], v.a[1]
        v = I.load(st, root, path)
    key = I.norm(st, args[1])
    m = I.norm(st, v)
    ref = mk('ref', root, path, True)
    E = 'std::collections::hash_map::Entry'
    ent = agg('entry', None, ('map', 'key'), (ref, key))
    out = []
    for s2, x, p in cases(I, st, mget(m, key), OPTV):
        out.append((s2, agg(E, 'Occupied' if x == 'Some' else 'Vacant', ('0',), (ent,))))
    return out


def entry_parts(I, st, e):
    e = I.deref(st, e)
    if e.tag == 'agg' and e.a[1] in ('Occupied', 'Vacant'):
        ent, occ = e.a[3], e.a[1] == 'Occupied'
    else:
        ent, occ = e, None
    if ent.tag != 'agg' or ent.a[0] != 'entry':
        return None
    ref, key = ent.a[3], ent.a[4]
    return ref, key, occ


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def or_insert(I, st, call, args):
    p = entry_parts(I, st, args[0])
    if p is None:
        return None
    ref, key, occ = p
    root, path = ref.a[0], ref.a[1]
    r = I.ref(root, path + (('m', key),), True)
    if occ:
        return [(st, r)]
    n = call.c['name']
    if n == 'or_insert':
        news = [(st, args[1])]
    elif n == 'or_default':
        t = strip_refs(call.selfty() or ('other', '')) if call.c.get('trait') else call.targ(len(call.c.get('targs') or []) - 1)
        t = None
        for x in call.c.get('targs') or []:
            t = I.F.ty(x)
            if t[0] == 'adt' and t[1] == 'std::vec::Vec':
                break
        news = default_call(I, st, call, t)
    elif n == 'or_insert_with_key':
        news = calls(I, st, call, args[1], [key])
    else:
        news = calls(I, st, call, args[1], [])
    out = []
    for s2, v in news:
        upd(I, s2, call, ref, lambda o: app('minsert', o, key, v))
        out.append((s2, r))
    return out


@model('Entry::and_modify')
def and_modify(I, st, call, args):
    p = entry_parts(I, st, args[0])
    if p is None:
        return None
    ref, key, occ = p
    if not occ:
        return [(st, args[0])]
    r = I.ref(ref.a[0], ref.a[1] + (('m', key),), True)
    return [(s2, args[0]) for s2, _ in calls(I, st, call, args[1], [r])]


@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def occ_get(I, st, call, args):
    p = entry_parts(I, st, args[0])
    if p is None:
        return None
    return [(st, I.ref(p[0].a[0], p[0].a[1] + (('m', p[1]),), True))]


@model('OccupiedEntry::insert', 'VacantEntry::insert', 'OccupiedEntry::insert_entry', 'VacantEntry::insert_entry')
def occ_insert(I, st, call, args):
    p = entry_parts(I, st, args[0])
    if p is None:
        return None
    ref, key, _ = p
    o = []

    def f(old):
        o.append(app('mval', I.norm(st, old), key))
        return app('minsert', old, key, args[1])
    upd(I, st, call, ref, f)
    if key2(call.c['def']).startswith('Occ'):
        return [(st, o[0])]
    return [(st, I.ref(ref.a[0], ref.a[1] + (('m', key),), True))]


@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def ent_key(I, st, call, args):
    p = entry_parts(I, st, args[0])
    return None if p is None else [(st, p[1])]


# ------------------------------------------------------------------ http messages
def field_ref(name, mut):
    def m(I, st, call, args):
        root, path = I.as_place(args[0])
        v = I.load(st, root, path)
        while v.tag == 'ref':
            root, path = v.a[0], v.a[1]
            v = I.load(st, root, path)
        if mut:
            return [(st, I.ref(root, path + (('f', name),), True))]
        return [(st, proj(v, ('f', name)))]
    return m


for _t in ('Request', 'Response'):
    for _f in ('method', 'uri', 'headers', 'extensions', 'body', 'status', 'version'):
        MODELS['%s::%s' % (_t, _f)] = field_ref(_f, False)
        MODELS['%s::%s_mut' % (_t, _f)] = field_ref(_f, True)

HRES = ('status', 'headers', 'body', 'extensions', 'version')


@model('Response::new')
def http_response_new(I, st, call, args):
    return [(st, agg('http::Response', None, HRES, (k('http::StatusCode::OK', 'const'), app('emptymap'), args[0], app('noext'), app('v11'))))]


@model('Response::into_body', 'Request::into_body')
def into_body(I, st, call, args):
    return [(st, proj(I.deref(st, args[0]), ('f', 'body')))]


@model('Request::into_parts', 'Response::into_parts')
def into_parts(I, st, call, args):
    v = I.deref(st, args[0])
    ns = ('method', 'uri', 'headers', 'extensions', 'version') if 'equest' in key2(call.c['def']) else ('status', 'headers', 'extensions', 'version')
    return [(st, tup(agg('parts', None, ns, [proj(v, ('f', n)) for n in ns]), proj(v, ('f', 'body'))))]


@model('Request::from_parts', 'Response::from_parts')
def from_parts(I, st, call, args):
    p = I.deref(st, args[0])
    if 'Response' in key2(call.c['def']):
        vals = [proj(p, ('f', n)) if n != 'body' else args[1] for n in HRES]
        return [(st, agg('http::Response', None, HRES, vals))]
    # a request reassembled from all of its parts is that request
    ns = ('method', 'uri', 'headers', 'extensions', 'version')
    base = None
    for n in ns:
        x = proj(p, ('f', n))
        if x.tag == 'fld' and x.a[1] == n:
            base = x.a[0]
            break
    if base is not None:
        from .interp import put
        v = base
        for n in ns:
            v = put(v, (('f', n),), proj(p, ('f', n)))
        v = put(v, (('f', 'body'),), args[1])
        return [(st, v)]
    return [(st, agg('http::Request', None, ns + ('body',), [proj(p, ('f', n)) for n in ns] + [args[1]]))]


BLD = ('status', 'headers', 'fallible')
HTOKEN = re.compile(r"^[!#$%&'*+.^_`|~0-9a-z-]+$")
HVALUE = re.compile(r'^[\t\x20-\x7e]*$')


@model('Response::builder')
def response_builder(I, st, call, args):
    return [(st, agg('http::Builder', None, BLD, (k('http::StatusCode::OK', 'const'), app('emptymap'), FALSE)))]


def is_ty(t, name):
    t = strip_refs(t) if t else ('other', '')
    return t[0] == 'adt' and t[1].endswith(name)


@model('Builder::status', 'Builder::header', 'Builder::version', 'Builder::extension')
def builder_set(I, st, call, args):
    b = I.deref(st, args[0])
    if b.tag != 'agg' or b.a[0] != 'http::Builder':
        return None
    n = call.c['name']
    status, headers, fal = b.a[3:]
    if n == 'status':
        status = args[1]
        if not is_ty(call.targ(0), 'StatusCode') and not (status.tag == 'k' and isinstance(status.a[0], int) and 100 <= status.a[0] <= 999):
            fal = TRUE
        elif status.tag == 'k' and isinstance(status.a[0], int):
            status = k(status.a[0], 'hyper::StatusCode')
    elif n == 'header':
        headers = app('mappend', headers, I.norm(st, args[1]), I.norm(st, args[2]))
        key, val = I.norm(st, args[1]), I.norm(st, args[2])
        if not (is_ty(call.targ(0), 'HeaderName') or key.tag == 'k' and isinstance(key.a[0], str) and HTOKEN.match(key.a[0].lower())) or \
           not (is_ty(call.targ(1), 'HeaderValue') or val.tag == 'k' and isinstance(val.a[0], str) and HVALUE.match(val.a[0])):
            fal = TRUE
    return [(st, agg('http::Builder', None, BLD, (status, headers, fal)))]


@model('Builder::headers_mut')
def builder_headers_mut(I, st, call, args):
    root, path = I.as_place(args[0])
    b = I.load(st, root, path)
    if b.tag != 'agg' or b.a[0] != 'http::Builder':
        return None
    r = some(I.ref(root, path + (('f', 'headers'),), True))
    if b.a[5] is FALSE:
        return [(st, r)]
    return [(st, r), (st.copy(), NONE)]


@model('Builder::body')
def builder_body(I, st, call, args):
    b = I.deref(st, args[0])
    if b.tag != 'agg' or b.a[0] != 'http::Builder':
        return None
    status, headers, fal = b.a[3:]
    r = agg('http::Response', None, HRES, (status, headers, args[1], app('noext'), app('v11')))
    if fal is FALSE:
        return [(st, ok(r))]
    s2 = st.copy()
    s2.facts[app('builder_error')] = True
    st.facts[app('builder_error')] = False
    return [(st, ok(r)), (s2, err(app('http::Error')))]


@model('Body::empty')
def body_empty(I, st, call, args):
    return [(st, app('emptybody'))]


@model('future::ready', 'future::ok', 'future::err')
def future_ready(I, st, call, args):
    n = call.c['name']
    v = args[0]
    return [(st, app('future::ready', v if n == 'ready' else ok(v) if n == 'ok' else err(v)))]


@model('Extensions::insert')
def ext_insert(I, st, call, args):
    ty = call.targ(0)
    v = I.norm(st, args[1])
    old = []

    def f(o):
        old.append(I.norm(st, o))
        return app('ext_insert', o, k(tstr(ty)) if ty else k('?'), v)
    upd(I, st, call, args[0], f)
    I.event(st, 'call', 'Extensions::insert', UNIT, old[0], k(tstr(ty)) if ty else k('?'), v, loc=call.loc)
    return [(st, app('ext_old', old[0], k(tstr(ty)) if ty else k('?')))]


@model('io::_print', 'io::_eprint')
def io_print(I, st, call, args):
    I.event(st, 'print', I.norm(st, args[0]), loc=call.loc)
    return [(st, UNIT)]


@model('future::get_context')
def get_context(I, st, call, args):
    return [(st, s('cx'))]
