"""Loads the compiler's facts about the crate and answers questions about types, impls and bodies."""
import json, re, ast, functools

LT = re.compile(r"'(?:[a-z_][a-zA-Z0-9_]*|_)\b ?")


def canon(path):
    """Path without generic arguments, impl blocks and the core/alloc split."""
    out, depth, i = [], 0, 0
    s = path
    if s.startswith('<'):
        return re.sub(r'\b(core|alloc)::', 'std::', s)
    s = re.sub(r'::<impl [^>]*(?:<[^>]*>)?[^>]*>', '', s) if '<impl' in s else s
    while i < len(s):
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = ''.join(out).replace('::::', '::')
    r = re.sub(r'::$', '', r)
    return re.sub(r'^(core|alloc)::', 'std::', r)


def key2(path):
    p = canon(path).split('::')
    return '::'.join(p[-2:])


class Body:
    def __init__(self, j):
        self.name = j['name']
        self.kind = j['kind']
        self.argc = j['argc']
        self.span = j['span']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.j = j
        self.inputs = j.get('inputs')
        self.output = j.get('output')
        self.pub = j.get('pub')
        self.impl_trait = j.get('impl_trait')
        self._loops = None

    def succs(self, i):
        t = self.blocks[i]['term']
        k = t['t']
        if k in ('goto', 'drop', 'assert', 'yield'):
            return [t['to']]
        if k == 'call':
            return [] if t['to'] is None else [t['to']]
        if k == 'switch':
            return [b for _, b in t['vals']] + [t['else']]
        return []

    def loops(self):
        """head -> set of blocks of the natural loop"""
        if self._loops is not None:
            return self._loops
        color, back, rpo = {}, [], []
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((n, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                color[n] = 2
                rpo.append(n)
                stack.pop()
        rpo.reverse()
        self.rpo = {b: i for i, b in enumerate(rpo)}
        preds = {}
        for n in rpo:
            for s in self.succs(n):
                preds.setdefault(s, []).append(n)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
        self._loops = loops
        return loops


class Facts:
    def __init__(self, path):
        f = json.load(open(path)) if isinstance(path, str) else path
        self.f = f
        self.types = f['types']
        self.bodies = {}
        for j in f['bodies']:
            self.bodies[j['name']] = Body(j)
        self.adts = {a['p']: a for a in f['adts']}
        self.impls = f['impls']
        self.statics = f['statics']
        self.unsafe = f['unsafe']
        self.missing = f['missing']
        self._ty = {}
        self.trait_impls = {}
        for i in self.impls:
            if i['trait']:
                self.trait_impls.setdefault(i['trait'], []).append(i)

    # ---- types as nested tuples
    def ty(self, tid):
        r = self._ty.get(tid)
        if r is None:
            r = self._ty[tid] = self._mkty(tid, 0)
        return r

    def _mkty(self, tid, depth):
        t = self.types[tid]
        k = t['k']
        if depth > 12:
            return ('other', LT.sub('', t['s']))
        sub = lambda xs: tuple(self._mkty(x, depth + 1) for x in xs)
        if k == 'adt':
            return ('adt', t['p'], sub(t['a']))
        if k == 'ref':
            return ('ref', t['m'], self._mkty(t['t'], depth + 1))
        if k == 'ptr':
            return ('ptr', t['m'], self._mkty(t['t'], depth + 1))
        if k == 'tuple':
            return ('tuple', sub(t['a']))
        if k in ('slice', 'array'):
            return (k, self._mkty(t['t'], depth + 1))
        if k == 'param':
            return ('param', t['n'])
        if k in ('closure', 'coroutine', 'fndef'):
            return (k, t['d'])
        if k == 'dyn':
            return ('dyn', tuple(t['t']))
        if k == 'str':
            return ('str',)
        if k == 'prim':
            return ('prim', t['s'])
        return ('other', LT.sub('', t['s']))

    def tys(self, tid):
        return LT.sub('', self.types[tid]['s'])


def subst(t, env):
    if not env:
        return t
    if t[0] == 'param':
        return env.get(t[1], t)
    if t[0] in ('adt',):
        return ('adt', t[1], tuple(subst(x, env) for x in t[2]))
    if t[0] in ('ref', 'ptr'):
        return (t[0], t[1], subst(t[2], env))
    if t[0] == 'tuple':
        return ('tuple', tuple(subst(x, env) for x in t[1]))
    if t[0] in ('slice', 'array'):
        return (t[0], subst(t[1], env))
    return t


def unify(pat, t, env):
    if pat[0] == 'param':
        if pat[1] in env:
            return env[pat[1]] == t
        env[pat[1]] = t
        return True
    if pat[0] != t[0]:
        return False
    if pat[0] == 'adt':
        if pat[1] != t[1]:
            return False
        return all(unify(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] in ('ref', 'ptr'):
        return pat[1] == t[1] and unify(pat[2], t[2], env)
    if pat[0] == 'tuple':
        return len(pat[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(pat[1], t[1]))
    if pat[0] in ('slice', 'array'):
        return unify(pat[1], t[1], env)
    return pat == t


def tstr(t):
    if t[0] == 'adt':
        return t[1] + ('<%s>' % ','.join(map(tstr, t[2])) if t[2] else '')
    if t[0] == 'ref':
        return '&' + ('mut ' if t[1] else '') + tstr(t[2])
    if t[0] == 'ptr':
        return '*' + tstr(t[2])
    if t[0] == 'tuple':
        return '(%s)' % ','.join(map(tstr, t[1]))
    if t[0] in ('slice', 'array'):
        return '[%s]' % tstr(t[1])
    if t[0] == 'str':
        return 'str'
    return str(t[1])


def strip_refs(t):
    while t[0] in ('ref', 'ptr'):
        t = t[2]
    return t


def parse_template(repr_):
    """The compiler's encoding of a format string -> list of literals and argument indexes."""
    m = re.search(r'b".*"', repr_, re.S)
    if not m:
        return None
    try:
        b = ast.literal_eval(m.group(0))
    except Exception:
        return None
    out, i, nxt = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + l].decode('utf8', 'replace'))
            i += l
        else:
            plain = n == 0xC0
            if n & 1:
                i += 4
            if n & 2:
                i += 2
            if n & 4:
                i += 2
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append((nxt, plain or n == 0xC8))
            nxt += 1
    return out
