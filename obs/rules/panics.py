"""P14: nothing a client sends and nothing a handler returns makes the code that serves a request panic."""
import re
from ..base import *
from ..graph import graph, request_code, request_roots
from .effects import *

from ..models import range_of, HTOKEN as TOKEN, HVALUE as VALUE

# may fail on some text whatever is known of where the text is kept
CONVERT = {'parse', 'from_str', 'from_utf8', 'from_str_radix', 'from_slice', 'try_from', 'try_into', 'to_str'}
# text taken out of another text without changing its characters, or changed within ASCII
PARTS = {'elem', 'split', 'substr', 'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'strip_prefix', 'strip_suffix', 'filter', 'rsplit', 'splitn', 'split_once', 'rsplit_once',
         'to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase', 'disp', 'chars', 'rev', 'skip', 'take', 'truncated', 'sub', 'first', 'last', 'at', 'next', 'lines', 'split_whitespace', 'get'}
# text the HTTP library has checked to be ASCII (http::uri and HeaderValue::to_str refuse everything else)
ASCII = {'Uri::path', 'Uri::query', 'Uri::host', 'Uri::scheme_str', 'PathAndQuery::as_str', 'PathAndQuery::path', 'PathAndQuery::query', 'Authority::as_str', 'Authority::host', 'HeaderValue::to_str', 'Method::as_str',
         'HeaderName::as_str', 'Uri::path_and_query', 'Uri::authority', 'StatusCode::as_str'}


class Judge:
    """Decides one possible panic from what is known on the way to it"""

    def __init__(self, A, I, entry, fixed, exported):
        self.A, self.I, self.entry, self.fixed, self.exported = A, I, entry, fixed, exported

    # ---- facts
    def state(self, facts):
        s2 = State()
        s2.facts = dict(facts)
        return s2

    def truth(self, st, c):
        if c.tag == 'k':
            return c.a[0] if isinstance(c.a[0], bool) else None
        return self.A.truth(st, c)

    def facts(self, st):
        """what holds, as terms"""
        out = []
        for f, r in st.facts.items():
            if isinstance(r, bool):
                out.append(self.A.eta(f) if r else not_(self.A.eta(f)))
            elif f.tag == 'disc' and r[0] == 'is':
                out.append(app('is_variant', self.A.eta(f.a[0]), r[1]))
        return out

    def nonempty(self, st, v):
        if v.tag == 'seq' and any(p.tag == 'one' for p in v.a):
            return True
        if v.tag == 'str' and any(p.tag == 'k' and p.a[0] for p in v.a):
            return True
        if v.tag == 'k' and isinstance(v.a[0], str):
            return bool(v.a[0])
        if v.tag == 'app' and v.a[0] == 'split':
            return True
        x = self.truth(st, is_empty(v))
        if x is not None:
            return not x
        n = length(v)
        if self.truth(st, lt(k(0), n)) is True or self.truth(st, eq(n, k(0))) is False:
            return True
        for f in self.facts(st):
            if f.tag == 'app' and f.a[0] == 'is_variant' and f.a[2] == 'Some' and f.a[1].tag == 'app' and len(f.a[1].a) > 1 and f.a[1].a[1] is v and f.a[1].a[0] in ('at', 'first', 'last', 'slice::first', 'slice::last'):
                return True
            if f.tag == 'app' and f.a[0] in ('starts_with', 'ends_with', 'str::starts_with', 'str::ends_with', 'str::contains') and f.a[1] is v and f.a[2].tag == 'k' and f.a[2].a[0]:
                return True
            if f.tag == 'app' and f.a[0] == 'eq' and v in f.a[1:] and any(x.tag == 'k' and x.a[0] for x in f.a[1:]):
                return True
        return None

    def ascii(self, v):
        if v.tag == 'k':
            return isinstance(v.a[0], str) and v.a[0].isascii()
        if v.tag in ('str', 'seq'):
            return all(self.ascii(p.a[0] if p.tag in ('one', 'all') else p) for p in v.a)
        if v.tag in ('fld', 'as'):
            return self.ascii(v.a[0]) or v.tag == 'fld' and v.a[1] in ('uri', 'method')
        if v.tag == 'app' and isinstance(v.a[0], str):
            n = v.a[0].split('<')[0]
            if n in ASCII:
                return True
            if n.split('::')[-1] in PARTS and len(v.a) > 1 and isinstance(v.a[1], T):
                return self.ascii(v.a[1])
        return False

    def interval(self, st, v):
        """(least, greatest, facts used) of a length, from comparisons with constants"""
        lo, hi, used = 0, float('inf'), set()
        n = length(v)
        for f in self.facts(st):
            neg = f.tag == 'app' and f.a[0] == 'not'
            g = f.a[1] if neg else f
            if g.tag != 'app' or g.a[0] not in ('lt', 'eq') or n not in g.a[1:]:
                continue
            o = g.a[2] if g.a[1] is n else g.a[1]
            if o.tag != 'k' or not isinstance(o.a[0], int):
                continue
            c = o.a[0]
            used.add(f)
            if g.a[0] == 'eq':
                if not neg:
                    lo, hi = max(lo, c), min(hi, c)
                elif c == lo:
                    lo += 1
            elif g.a[1] is n:
                lo, hi = (max(lo, c), hi) if neg else (lo, min(hi, c - 1))
            else:
                lo, hi = (lo, min(hi, c)) if neg else (max(lo, c + 1), hi)
        return lo, hi, used

    def asked(self, st, *subjects, but=()):
        """is something asked of a value that is not understood here, such that it could settle the matter"""
        ls = set()
        for x in subjects:
            if x.tag != 'k':
                ls.add(x)
                ls.add(app('len', x))
                ls.add(app('chars', x))
        for f in self.facts(st):
            if f in but:
                continue
            g = f.a[1] if f.tag == 'app' and f.a[0] == 'not' else f
            if g.tag != 'app' or g.a[0] == 'is_empty' or g.a[0] == 'is_variant' and g.a[2] in ('None', 'Err'):
                continue
            h = g.a[1] if g.a[0] == 'is_variant' else g
            if h.tag == 'app' and any(a in ls for a in h.a[1:] if isinstance(a, T)):
                return True
            if h.tag == 'app' and any(isinstance(a, T) and a.tag == 'app' and any(b in ls for b in a.a[1:] if isinstance(b, T)) for a in h.a[1:]) and h.a[0] in ('eq', 'lt', 'le'):
                return True
        return False

    def only_fixed(self, *vs):
        """made only of text written down in the application's own code"""
        seen = False
        for v in vs:
            for x in deep(self.I, v):
                if x.tag == 's' and not str(x.a[0]).startswith('hole'):
                    if x not in self.fixed:
                        return False
                    seen = True
                elif x.tag in ('undef', 'join') or x.tag == 'app' and x.a[0] in ('await', 'callfn', 'changed_by', 'deep'):
                    return False
        return seen

    def from_content(self, v):
        """a number a client can choose: read from text, or announced by it"""
        return any(x.tag == 'app' and (x.a[0].split('<')[0].split('::')[-1] in ('parse', 'from_str_radix', 'from_str', 'to_digit', 'size_hint', 'content_length', 'lower', 'upper', 'exact', 'from_be_bytes', 'from_le_bytes')) for x in deep(self.I, v))

    def bounded(self, v, depth=0):
        """a number no larger than what is in memory: sizes, positions, constants and sums of them"""
        if v.tag == 'k':
            return isinstance(v.a[0], int) and abs(v.a[0]) < 2 ** 31
        if depth > 6:
            return False
        if v.tag == 'app':
            n = v.a[0].split('<')[0].split('::')[-1]
            if n in ('len', 'len_utf8', 'count', 'capacity'):
                return True
            if n in ('Add', 'add', 'Sub', 'sub', 'min', 'max', 'Div', 'Rem', 'saturating_sub'):
                return all(self.bounded(x, depth + 1) for x in v.a[1:] if isinstance(x, T))
            if n in ('Mul', 'mul'):
                return all(self.bounded(x, depth + 1) for x in v.a[1:] if isinstance(x, T)) and any(x.tag == 'k' for x in v.a[1:])
        if v.tag == 'fld' and v.a[0].tag == 'as' and v.a[0].a[1] == 'Some' and v.a[0].a[0].tag == 'app' and v.a[0].a[0].a[0].split('<')[0].split('::')[-1] in ('find', 'rfind', 'position', 'rposition'):
            return True
        if v.tag == 'lv':
            info = self.I.lvs.get(v)
            if info is None:
                return False
            if 'pos' in (info['at'][1] or ()):
                return True
            al = [self.A.eta(x) for x in info['alts']]
            if not self.bounded(info['init'], depth + 1):
                return False
            # a counter of the rounds of a loop over something in memory, or a sum of sizes
            return all(x is v or self.bounded(x, depth + 1) if not mentions(x, v) else self.step(x, v, depth) for x in al)
        if v.tag == 'fld' and v.a[1] == '0' and v.a[0].tag == 'app' and v.a[0].a[0].split('::')[-1] in ('AddWithOverflow', 'SubWithOverflow'):
            return self.bounded(app('Add', *v.a[0].a[1:]), depth)
        return False

    def step(self, x, v, depth):
        if x is v:
            return True
        if x.tag == 'app' and x.a[0] in ('Add', 'add'):
            return all(self.step(y, v, depth + 1) or not mentions(y, v) and self.bounded(y, depth + 1) for y in x.a[1:])
        return False

    def ge(self, st, a, b, depth=0):
        """a >= b"""
        if a is b or b.tag == 'k' and b.a[0] == 0:
            return True
        if a.tag == 'k' and b.tag == 'k':
            return a.a[0] >= b.a[0]
        if self.truth(st, lt(a, b)) is False or self.truth(st, eq(a, b)) is True or self.truth(st, lt(b, a)) is True:
            return True
        if b.tag == 'k' and b.a[0] == 1:
            if a.tag == 'app' and a.a[0] == 'len' and self.nonempty(st, a.a[1]):
                return True
            if self.truth(st, eq(a, k(0))) is False or self.truth(st, lt(k(0), a)) is True:
                return True
        if a.tag == 'app' and a.a[0] == 'len' and b.tag == 'app' and b.a[0] == 'len':
            for f in self.facts(st):
                if f.tag == 'app' and f.a[0] in ('starts_with', 'ends_with', 'str::starts_with', 'str::ends_with', 'str::contains') and f.a[1] is a.a[1] and f.a[2] is b.a[1]:
                    return True
        if depth < 3 and b.tag == 'app' and b.a[0].split('::')[-1] == 'min' and any(self.ge(st, a, y, depth + 1) for y in b.a[1:]):
            return True
        if depth < 3 and b.tag == 'app' and b.a[0] in ('Sub', 'sub', 'Div', 'saturating_sub') and self.ge(st, a, b.a[1], depth + 1):
            return True
        if depth < 3 and a.tag == 'app' and a.a[0].split('::')[-1] == 'max' and any(self.ge(st, y, b, depth + 1) for y in a.a[1:]):
            return True
        if (b.tag == 'lv' or b.tag == 'app' and b.a[0] == 'common') and a.tag == 'app' and a.a[0] == 'len' and self.prefix(b, a.a[1]):
            return True
        if self.found(b) is not None and a.tag == 'app' and a.a[0] == 'len' and self.found(b) is a.a[1]:
            return True
        if self.truth(st, lt(a, b)) is True:
            return False
        return None

    def found(self, x):
        """the value an index was searched in"""
        if x.tag == 'fld' and x.a[1] == '0' and x.a[0].tag == 'as' and x.a[0].a[0].tag == 'app':
            y = x.a[0].a[0]
            if y.a[0].split('<')[0] in ('str::find', 'str::rfind', 'memchr::memchr') and len(y.a) > 1:
                return y.a[1]
            if y.a[0].split('<')[0].split('::')[-1] in ('position', 'rposition', 'binary_search') and len(y.a) > 1:
                return y.a[1]
        if x.tag == 'lv':
            info = self.I.lvs.get(x)
            if info and 'pos' in (info['at'][1] or ()):
                return None
        return None

    def below(self, st, i, v):
        """i < length of v"""
        n = length(v)
        if i.tag == 'k' and n.tag == 'k':
            return i.a[0] < n.a[0]
        if self.truth(st, lt(i, n)) is True:
            return True
        if i.tag == 'k' and i.a[0] == 0:
            return self.nonempty(st, v)
        if v.tag == 'seq' and i.tag == 'k' and sum(p.tag == 'one' for p in v.a) > i.a[0]:
            return True
        if self.A.variant(st, app('at', v, i)) == 'Some':
            return True
        if self.found(i) is v:
            return True
        if i.tag == 'app' and i.a[0] in ('Sub', 'sub') and i.a[1] is n and i.a[2].tag == 'k' and i.a[2].a[0] >= 1:
            return self.ge(st, n, i.a[2])
        if i.tag == 'app' and i.a[0] in ('Rem', 'rem') and i.a[2] is n:
            return self.nonempty(st, v)
        if self.truth(st, lt(i, n)) is False:
            return False
        if i.tag == 'k' and isinstance(i.a[0], int):
            lo, hi, _ = self.interval(st, v)
            if lo > i.a[0]:
                return True
            if hi <= i.a[0]:
                return False
        if i.tag == 'k' and i.a[0] >= 1:
            for f in self.facts(st):
                if f.tag == 'app' and f.a[0] == 'eq' and n in f.a[1:]:
                    o = f.a[1] if f.a[2] is n else f.a[2]
                    if o.tag == 'k':
                        return o.a[0] > i.a[0]
                if f.tag == 'app' and f.a[0] == 'not' and f.a[1].tag == 'app' and f.a[1].a[0] == 'lt' and f.a[1].a[1] is n and f.a[1].a[2].tag == 'k' and f.a[1].a[2].a[0] > i.a[0]:
                    return True
                if f.tag == 'app' and f.a[0] == 'lt' and f.a[2] is n and f.a[1].tag == 'k' and f.a[1].a[0] >= i.a[0]:
                    return True
        return None

    def prefix(self, x, s_):
        """a loop variable holding the size of the characters of a text passed over so far"""
        I, A = self.I, self.A
        if x.tag == 'app' and x.a[0] == 'common':
            return s_ in x.a[1:]
        info = I.lvs.get(x)
        if info is None or info['loop'] not in I.iters or not (info['init'].tag == 'k' and info['init'].a[0] == 0):
            return False
        W, backs, S0 = I.iters[info['loop']]
        root, path = info['at']
        if A.eta(I.norm(W, I.load(W, root, path))) is not x:
            return False
        pos = None
        for b in backs:
            now = A.eta(I.norm(b, I.load(b, root, path)))
            if now is x:
                continue
            d = None
            for y in (now,) + tuple(now.a[1:] if now.tag == 'app' else ()):
                pass
            if now.tag == 'app' and now.a[0] in ('Add', 'add') and x in now.a[1:]:
                d = [y for y in now.a[1:] if y is not x]
                d = d[0] if len(d) == 1 else None
            if d is None or d.tag != 'app' or d.a[0] != 'len_utf8':
                return False
            c = d.a[1]
            cs = [c] + [y for f in self.facts(b) if f.tag == 'app' and f.a[0] == 'eq' and c in f.a[1:] for y in f.a[1:]]
            ok = False
            for c in cs:
                if c.tag == 'app' and c.a[0] == 'elem' and c.a[1].tag == 'app' and c.a[1].a[0] == 'chars' and c.a[1].a[1] is s_ and c.a[2].tag == 'lv' and I.lvs.get(c.a[2], {}).get('loop') == info['loop']:
                    pos = c.a[2]
                    pi = I.lvs[pos]
                    if pi['init'].tag == 'k' and pi['init'].a[0] == 0:
                        ok = True
                        break
            if not ok:
                return False
        if pos is None:
            return False
        # every round that moves on in the text counts the character passed
        pi = I.lvs[pos]
        for b in backs:
            now = A.eta(I.norm(b, I.load(b, root, path)))
            try:
                p2 = A.eta(I.norm(b, I.load(b, pi['at'][0], pi['at'][1][:-1])))
                p2 = p2.a[1] if p2.tag == 'iter' else p2
            except Exception:
                return False
            if (p2 is pos) != (now is x):
                return False
        return True

    def boundary(self, st, s_, i):
        """is i a position between characters of a text"""
        if i.tag == 'app' and i.a[0] in ('end', 'lo'):
            return True
        if self.ascii(s_):
            x = self.ge(st, length(s_), i)
            if x is None and i.tag == 'k':
                lo, hi, _ = self.interval(st, s_)
                x = True if lo >= i.a[0] else False if hi < i.a[0] else None
            if x is not None:
                return x
        if i.tag == 'k' and i.a[0] == 0 or i is length(s_):
            return True
        if s_.tag == 'k' and i.tag == 'k' and isinstance(s_.a[0], str):
            try:
                b = s_.a[0].encode()
                b[:i.a[0]].decode(), b[i.a[0]:].decode()
                return i.a[0] <= len(b)
            except UnicodeDecodeError:
                return False
        for f in self.facts(st):
            if f.tag != 'app':
                continue
            n = f.a[0].split('<')[0]
            if n.endswith('is_char_boundary') and f.a[1] is s_ and f.a[2] is i:
                return True
            if n == 'in_str_range' and f.a[1] is s_ and i in f.a[2:]:
                return True
            pre = None
            if n in ('starts_with', 'str::starts_with') and f.a[1] is s_:
                pre = f.a[2]
            elif n == 'eq' and s_ in f.a[1:]:
                pre = f.a[1] if f.a[2] is s_ else f.a[2]
            elif n == 'eq':
                for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                    if b.tag == 'k' and isinstance(b.a[0], str) and a.tag == 'app' and a.a[0] == 'elem' and a.a[1] is app('chars', s_) and a.a[2] is k(0):
                        pre = b
                    if b.tag == 'k' and isinstance(b.a[0], int) and b.a[0] < 128 and a.tag == 'app' and a.a[0] == 'elem' and a.a[2] is k(0) and a.a[1].tag == 'app' and a.a[1].a[0].split('::')[-1] in ('as_bytes', 'bytes') and a.a[1].a[1] is s_:
                        pre = k(chr(b.a[0]))
            elif n == 'is_variant' and f.a[2] == 'Some' and f.a[1].tag == 'app' and f.a[1].a[0] in ('str::strip_prefix',) and f.a[1].a[1] is s_:
                pre = f.a[1].a[2]
            if pre is not None:
                if i is length(pre):
                    return True
                if pre.tag == 'k' and isinstance(pre.a[0], str) and i.tag == 'k':
                    b = pre.a[0].encode()
                    try:
                        b[:i.a[0]].decode()
                        if i.a[0] <= len(b):
                            return True
                    except UnicodeDecodeError:
                        pass
            if n in ('ends_with', 'str::ends_with') and f.a[1] is s_ and i.tag == 'app' and i.a[0] in ('Sub', 'sub') and i.a[1] is length(s_) and i.a[2] is length(f.a[2]):
                return True
        if self.found(i) is s_:
            return True
        if i.tag == 'app' and i.a[0] in ('Add', 'add') and any(self.found(y) is s_ for y in i.a[1:]):
            o = [y for y in i.a[1:] if self.found(y) is not s_]
            pat = [y.a[0].a[0].a[2] for y in i.a[1:] if self.found(y) is s_ and len(y.a[0].a[0].a) > 2]
            if o and pat and (o[0] is length(pat[0]) or o[0].tag == 'k' and pat[0].tag == 'k' and isinstance(pat[0].a[0], str) and len(pat[0].a[0].encode()) == o[0].a[0]):
                return True
            return None
        if (i.tag == 'lv' or i.tag == 'app' and i.a[0] == 'common') and self.prefix(i, s_):
            return True
        if i.tag == 'k' and i.a[0] == 1 and s_.tag == 'app' and s_.a[0] == 'Uri::path' and self.nonempty(st, s_):
            return True     # a path that is not empty begins with a slash or is a star
        return None

    # ---- verdicts
    def site(self, kind, vals, facts):
        """(verdict, why) for a partial operation"""
        A = self.A
        st = self.state(facts)
        vals = [A.eta(v) for v in vals]
        if kind in ('partial:Vec::drain', 'partial:String::drain', 'partial:VecDeque::drain', 'partial:String::replace_range'):
            r = range_of(vals[1])
            if r is not None:
                kind, vals = 'str_index' if 'String' in kind else 'slice_index', [vals[0], r[0], r[1] or app('end')]
        v = self.decide(kind, vals, st)
        if v is None:
            if self.only_fixed(*vals):
                return True, ''
            un = any(unknown(x) for x in vals)
            # what compares a length with constants only is understood
            but = self.interval(st, vals[0])[2] if vals and (len(vals) < 2 or all(x.tag == 'k' or x.tag == 'app' and x.a[0] == 'end' for x in vals[1:])) else ()
            if kind == 'assert:bounds' and vals[1].tag == 'k' and vals[0].tag == 'app' and vals[0].a[0] == 'len':
                but = self.interval(st, vals[0].a[1])[2]
            if self.plain(kind) and not un and not self.asked(st, *vals, but=but) and not self.inner(vals):
                v = False
        return v, '%s(%s)' % (kind, ', '.join(show(x)[:120] for x in vals))

    def plain(self, kind):
        return kind in ('index', 'slice_index', 'str_index', 'map_index', 'Vec::remove', 'Vec::insert', 'Vec::splice', 'assert:overflow:Sub', 'assert:bounds', 'assert:div_zero', 'assert:rem_zero',
                        'partial:String::remove', 'partial:String::split_off', 'partial:String::truncate', 'partial:Vec::swap_remove', 'partial:Vec::split_off')

    def inner(self, vals):
        """only the private state of a type no program can name: what it may hold is not known"""
        return not self.exported and all(chain(v)[0] in (s('p0'), s('p1')) or v.tag == 'k' or v.tag == 'app' and v.a[0] == 'end' for v in vals)

    def decide(self, kind, vals, st):
        if kind == 'map_index':
            m, key = vals
            if self.truth(st, app('has_key', m, key)) or self.truth(st, app('contains_key', m, key)) or self.A.variant(st, app('HashMap::get', m, key)) == 'Some':
                return True
            for f in self.facts(st):
                if f.tag == 'app' and any(x is m for x in f.a[1:]) and any(x is key for x in f.a[1:]):
                    return True
            return None
        if kind in ('index', 'Vec::remove', 'partial:Vec::swap_remove'):
            return self.below(st, vals[1], vals[0])
        if kind in ('Vec::insert', 'partial:Vec::insert', 'partial:Vec::split_off', 'Vec::splice'):
            return self.ge(st, length(vals[0]), vals[1])
        if kind in ('slice_index', 'str_index'):
            v, lo, hi = vals
            end = hi.tag == 'app' and hi.a[0] == 'end'
            if kind == 'str_index':
                a, b = self.boundary(st, v, lo), self.boundary(st, v, hi)
            else:
                a = True if lo.tag == 'k' and lo.a[0] == 0 else self.ge(st, length(v), lo)
                b = True if end else self.ge(st, length(v), hi)
            c = True if end or lo.tag == 'k' and lo.a[0] == 0 else self.ge(st, hi, lo)
            if False in (a, b, c):
                return False
            return True if a and b and c else None
        if kind == 'partial:String::truncate':
            return True if self.ascii(vals[0]) else self.boundary(st, vals[0], vals[1])
        if kind.startswith('partial:String::') and kind.split('::')[-1] in ('split_off', 'insert', 'insert_str', 'remove'):
            a = self.boundary(st, vals[0], vals[1])
            if kind.endswith('remove') and a:
                return self.nonempty(st, vals[0]) if vals[1].tag == 'k' and vals[1].a[0] == 0 else None
            return a
        if kind.startswith('assert:overflow:'):
            op = kind.split(':')[-1]
            if op == 'Add':
                if all(self.bounded(v) for v in vals):
                    return True
                return False if any(self.from_content(v) for v in vals) and not self.asked(st, *vals) else None
            if op == 'Sub':
                return self.ge(st, vals[0], vals[1])
            if op == 'Mul':
                if all(self.bounded(v) for v in vals) and any(v.tag == 'k' for v in vals):
                    return True
                return False if any(self.from_content(v) for v in vals) and not self.asked(st, *vals) else None
            if op in ('Shl', 'Shr') and vals[-1].tag == 'k':
                return True
            return None
        if kind in ('assert:bounds',):
            n, i = vals
            if n.tag == 'k' and i.tag == 'k':
                return i.a[0] < n.a[0]
            if self.truth(st, lt(i, n)) is True:
                return True
            return self.below(st, i, n.a[1]) if n.tag == 'app' and n.a[0] == 'len' else None
        if kind in ('assert:div_zero', 'assert:rem_zero'):
            d = vals[-1]
            if d.tag == 'k':
                return d.a[0] != 0
            if d.tag == 'app' and d.a[0] == 'len':
                return self.nonempty(st, d.a[1])
            return True if self.truth(st, eq(d, k(0))) is False or self.truth(st, lt(k(0), d)) is True else None
        if kind.startswith('partial:'):
            n = kind[8:]
            if n in ('process::exit', 'process::abort', 'intrinsics::abort', 'panic::resume_unwind', 'panic::panic_any'):
                return False
            if n.endswith('from_static'):
                v = vals[0]
                if v.tag == 'k' and isinstance(v.a[0], str):
                    return bool((TOKEN if n.startswith('HeaderName') else VALUE).match(v.a[0])) if n.startswith('Header') else None
                # the argument is a &'static str: text of the program itself, unless memory is leaked for it
                return None if v.tag == 'undef' or any(x.tag == 'app' and 'leak' in x.a[0] for x in deep(self.I, v)) else True
            if n.split('::')[-1] in ('with_capacity', 'reserve', 'from_elem', 'repeat'):
                v = vals[-1]
                if self.bounded(v):
                    return True
                return False if self.from_content(v) and not self.asked(st, v) else None
            if n.split('::')[-1] in ('chunks', 'chunks_exact', 'rchunks', 'windows', 'step_by') and vals[-1].tag == 'k':
                return vals[-1].a[0] != 0
            if n.split('::')[-1] in ('from_digit', 'to_digit') and vals[-1].tag == 'k':
                return vals[-1].a[0] <= 36
            if n.endswith('rotate_left') or n.endswith('rotate_right'):
                return self.ge(st, length(vals[0]), vals[1])
            if n == 'Bytes::split_to' or n == 'Bytes::split_off' or n == 'Buf::advance':
                return self.ge(st, length(vals[0]), vals[1])
        return None

    def panic(self, what, vals, facts):
        """(verdict, why) for a panic some path reaches"""
        A = self.A
        st = self.state(facts)
        vals = [A.eta(v) for v in vals]
        if self.truth(st, FALSE) is True:
            return True, ''
        if what.startswith(('unwrap', 'expect')) and vals:
            v = vals[0]
            x = v
            while x.tag == 'app' and x.a[0].split('<')[0].split('::')[-1] in ('await', 'ok', 'map_err', 'ok_or', 'ok_or_else', 'as_ref', 'as_mut', 'cloned', 'copied') and len(x.a) > 1:
                x = x.a[1]
            if x.tag == 'app':
                n = x.a[0].split('<')[0]
                m = n.split('::')[-1]
                if m in ('lock', 'read', 'write', 'get_mut', 'into_inner') and n.split('::')[0] in ('Mutex', 'RwLock'):
                    return True, ''     # fails only after a panic elsewhere
                cs = x.a[1:]
                if cs and all(isinstance(c, T) and c.tag == 'k' for c in cs):
                    return self.constant(n, m, cs, x), 'conversion of %s' % show(x)[:150]
                if m in ('checked_add', 'checked_sub', 'checked_mul', 'duration_since', 'elapsed', 'checked_duration_since'):
                    return None, show(v)[:200]
            if self.only_fixed(v):
                return True, ''
            why = '%s: %s' % (what, show(v)[:200])
            if x.tag == 'app' and x.a[0].split('<')[0] == 'Deserialize::deserialize':
                return False, why   # a type chosen by the application may turn down whatever it is given
            if unknown(v) and not self.partly(v):
                return None, why
            subj = [a for a in (x.a[1:] if x.tag == 'app' else ()) if isinstance(a, T)]
            rest = {f: r for f, r in facts.items() if not (f.tag == 'disc' and (f.a[0] is v or A.eta(f.a[0]) is v or f.a[0] is x)) and not mentions(f, v)}
            if subj and self.asked(self.state(rest), *subj):
                return None, why
            conv = x.tag == 'app' and x.a[0].split('<')[0].split('::')[-1] in CONVERT
            if not conv and (self.inner([v]) or subj and self.inner(subj)):
                return None, why
            return False, why
        for f, r in facts.items():
            # what the program itself wrote down is not accepted by a conversion
            if f.tag == 'disc' and r in (('is', 'Err'), ('is', 'None')) and f.a[0].tag == 'app' and len(f.a[0].a) > 1 and self.only_fixed(f.a[0]):
                return True, ''
        if what.startswith('assert:'):
            return (None if any(unknown(v) for v in vals) else False), what
        return False, what

    def partly(self, v):
        """unknown only in the position reached in a loop"""
        return all(x.tag != 'undef' and not (x.tag in ('rep', 'join')) and not (x.tag == 'lv' and 'pos' not in (self.I.lvs.get(x, {}).get('at', (0, ()))[1] or ())) for x in subterms(v)) \
            and not any(x.tag == 'app' and x.a[0] in ('changed_by', 'choice', 'stage', 'deep', 'collect') for x in subterms(v))

    def constant(self, n, m, cs, x):
        """does a conversion of constants succeed"""
        c = cs[0].a[0]
        t = x.a[0]
        if 'HeaderValue' in t and isinstance(c, str):
            return bool(VALUE.match(c))
        if 'HeaderName' in t and isinstance(c, str):
            return bool(TOKEN.match(c.lower()))
        if 'StatusCode' in t and isinstance(c, int):
            return 100 <= c <= 999
        return None


def entries(A):
    """functions entered from outside this crate while a request is served"""
    if 'entries' in A.cache:
        return A.cache['entries']
    G = graph(A)
    code = request_code(A)
    called = set()
    for b in code:
        for s_ in G.sites[b]:
            r = s_.fn.get('res')
            for c in ([r] if r in A.F.bodies else [s_.fn['def']] if s_.fn['def'] in A.F.bodies else []):
                if c != b:
                    called.add(c)
    out = []
    for n in sorted(code):
        b = A.F.bodies[n]
        if b.kind in ('closure', 'coroutine'):
            continue
        if b.impl_trait is not None or b.j.get('exported') or n not in called or b.j.get('default_of'):
            out.append(n)
    A.cache['entries'] = out
    return out


def fixed_syms(A, n):
    b = A.F.bodies[n]
    out = set()
    for i, t in enumerate(b.j.get('inputs', [])):
        if "'static" in t and 'dyn' not in t:
            out.add(s('p%d' % i))
    return out


def exported_self(A, n):
    b = A.F.bodies[n]
    if b.j.get('impl_self') is None:
        return True
    t = strip_refs(A.F.ty(b.j['impl_self']))
    if t[0] == 'adt' and t[1] in A.F.adts:
        return any(x.j.get('exported') and x.impl_trait is None and x.j.get('impl_self') is not None and strip_refs(A.F.ty(x.j['impl_self']))[:2] == t[:2] for x in A.F.bodies.values())
    return True


def P14(A):
    G = graph(A)
    code = request_code(A)
    A.bodies |= code
    listen = A.method('App', 'listen')
    runs = []
    calls = {}      # function -> [(interp, facts, arguments, state)] of its calls
    again = {}      # the same for calls of a function by itself

    def hooks():
        def enter(I, st, target, args, loc):
            calls.setdefault(target, []).append((I, dict(st.facts), [I.norm(st, I.deref(st, a)) for a in args], st))

        def rec(I, st, fr, target, env, args, loc):
            again.setdefault(target, []).append((I, dict(st.facts), [I.norm(st, I.deref(st, a)) for a in args], st))
            return None
        return {'enter': enter, 'recursion': rec}
    recs = set()
    for n in ([listen] if listen else []) + entries(A):
        try:
            R = A.run(n, asynchronous=A.is_async(n), hooks=hooks())
        except Exception as e:
            A.und('runs of %s' % canon(n), A.span(n), 'stopped: %s %s' % (type(e).__name__, e))
            continue
        recs |= {r[0] for r in R.I.recursive}
        runs.append((n, R.I, set(), R))
    # what only a callback on an infeasible path would enter: on its own, from any arguments
    covered = set().union(*[I.seen_bodies for _, I, _, _ in runs]) if runs else set()
    for n in sorted(code - covered - recs):
        if n in A.F.bodies and A.F.bodies[n].kind not in ('closure', 'coroutine'):
            try:
                R = A.run(n, asynchronous=A.is_async(n), hooks=hooks())
            except Exception:
                continue
            recs |= {r[0] for r in R.I.recursive}
            runs.append((n, R.I, set(), R))
    # handlers the crate itself hands out: on any request, with anything captured
    covered = set().union(*[I.seen_bodies for _, I, _, _ in runs]) if runs else set()
    for n in sorted(code - covered):
        b = A.F.bodies.get(n)
        if b is None or b.kind != 'closure' or n in covered:
            continue
        p = n.rsplit('::', 1)[0]
        if p in code and p in covered and A.F.bodies[p].kind == 'closure':
            continue
        try:
            R = A.run(n, asynchronous=True, hooks=hooks())
        except Exception:
            continue
        covered |= R.I.seen_bodies
        recs |= {r[0] for r in R.I.recursive}
        runs.append((n, R.I, set(), R))
    broken = set()
    # functions that call themselves: from any state their callers can leave them in
    for h in sorted(recs):
        if h not in code:
            continue
        keep = first = None
        own = []
        base = list(calls.get(h, []))
        for _ in range(4):
            own = []

            def pre(I, st, syms):
                for i, a in enumerate(syms):
                    if keep is not None and i in keep:
                        st.assume(is_empty(I.norm(st, I.deref(st, a))), False)
            again[h] = []
            R = A.run(h, hooks=hooks(), pre=pre if keep is not None else None)
            own = again[h]
            cand = []
            b = A.F.bodies[h]
            for i in range(b.argc):
                t = strip_refs(A.F.ty(b.locals[i + 1][0]))
                if not (t[0] in ('slice', 'str') or t[0] == 'adt' and t[1].split('::')[-1] in ('Vec', 'String', 'VecDeque')):
                    continue
                J = Judge(A, R.I, h, set(), False)
                if all(Judge(A, I, h, set(), False).nonempty(J.state(f), A.eta(vals[i])) for I, f, vals, _ in base + own):
                    cand.append(i)
            if keep is not None and set(cand) >= set(keep):
                break
            if keep is None:
                # assume of every call what its callers outside guarantee, then check the calls it makes itself
                keep = first = [i for i in range(b.argc) if strip_refs(A.F.ty(b.locals[i + 1][0]))[0] in ('slice', 'str', 'adt') and
                        all(Judge(A, I, h, set(), False).nonempty(Judge(A, I, h, set(), False).state(f), A.eta(vals[i])) for I, f, vals, _ in base)]
            else:
                keep = [i for i in keep if i in cand]
        runs.append((h, R.I, set(), R))
        # what every caller outside guarantees, but a call of itself does not pass on
        lost = [i for i in (first or ()) if i not in (keep or ())]
        for I, f, vals, st in own:
            J = Judge(A, I, h, set(), False)
            for i in lost:
                v = A.eta(vals[i])
                if not J.nonempty(J.state(f), v) and not unknown(v) and not J.asked(J.state(f), v):
                    broken.add((h, i))
    seen = set()
    n_ok = {}
    verdicts = {}
    order = {True: 0, None: 1, False: 2}
    for n, I, _, R in runs:
        seen |= I.seen_bodies
        J = Judge(A, I, n, fixed_syms(A, n), exported_self(A, n))
        for kind, vals, facts, loc, body, st in I.sites:
            if body not in code:
                continue
            v, why = J.site(kind, list(vals), facts)
            if v is None and vals and any(n == h and A.eta(vals[0]) is s('p%d' % i) for h, i in broken):
                v = False
            key = (body, loc, kind)
            if key not in verdicts or order[v] > order[verdicts[key][0]]:
                verdicts[key] = (v, why, n)
        for st, what, loc, body, vals in I.panics:
            if body not in code:
                continue
            v, why = J.panic(what, list(vals), st.facts)
            key = (body, loc, what)
            if key not in verdicts or order[v] > order[verdicts[key][0]]:
                verdicts[key] = (v, why, n)
    for (body, loc, kind), (v, why, n) in sorted(verdicts.items()):
        what = '%s cannot panic' % canon(body)
        if v is True:
            A.ok('%s: %s' % (what, kind), loc)
        elif v is None:
            A.und('%s: %s' % (what, kind), loc, 'entered from %s: %s' % (canon(n), why))
        else:
            A.bad(what, loc, 'entered from %s: %s' % (canon(n), why), key=canon(body).replace('::{closure#0}', ''))
    # whatever was never entered symbolically
    A.ok('functions of request-serving code entered: %d of %d' % (len(seen & code), len(code)))
    for n in sorted(code - seen):
        b = A.F.bodies[n]
        for bl in b.blocks:
            if bl.get('cleanup'):
                continue
            t = bl['term']
            if t['t'] == 'assert' or t['t'] == 'call' and 'fn' in t['f'] and PANICKY.search(canon(t['f']['fn']['def'])):
                A.und('%s cannot panic' % canon(n), t.get('l', b.span), 'not entered by any analysed path')
                break
        else:
            A.ok('%s has no panicking operation' % canon(n), b.span)
    # a description that fails makes to_string panic
    for (tr, m), ps in G.impl_methods.items():
        if tr in ('std::fmt::Display',) and m == 'fmt':
            for p in ps:
                if p not in A.F.bodies:
                    continue
                R = A.run(p)
                for st, v in R.outs:
                    v = A.eta(R.I.norm(st, v))
                    A.check(False if is_err(v) else True, '%s never fails by itself' % canon(p), A.span(p), show(v)[:150])


PANICKY = re.compile(r'(panicking::|begin_panic|::(unwrap|expect|unwrap_err|expect_err|index|index_mut|remove|swap_remove|splice|split_at|split_off|drain)$)')
