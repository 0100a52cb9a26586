"""P21: programs that must not compile against the library, each with a twin that must; and what its public functions
let any other program do."""
import glob, os, re
from ..base import *
from ..build import VERIF, compile_all
from ..graph import graph

DIR = os.path.join(VERIF, 'witness')
# the program asks for something the library does not have: says nothing about the rules
RENAMED = {'E0432', 'E0433', 'E0425', 'E0412', 'E0407', 'E0404', 'E0405', 'E0437', 'E0576', 'E0603', 'E0583', '?', 'E0050', 'E0053', 'E0195', 'E0186', 'E0185', 'E0046', 'E0107', 'E0061', 'E0599', 'E0616', 'E0560'}


def programs():
    """{name: (source, expected codes, lines of the witness, what it is about)}; a name without a dot is a twin"""
    out = {}
    prelude = open(os.path.join(DIR, 'prelude.rs')).read().splitlines()
    for f in sorted(glob.glob(os.path.join(DIR, '*.rs'))):
        base = os.path.basename(f)[:-3]
        if base == 'prelude':
            continue
        lines = open(f).read().splitlines()
        about = lines[0][4:].strip()
        names = []
        for l in lines:
            m = re.search(r'//~ (\w+) (\S+)$', l)
            if m and (m[1], m[2]) not in names:
                names.append((m[1], m[2]))
        for name, codes in [(None, '')] + names:
            src = list(prelude)
            own = set()
            for l in lines:
                m = re.search(r'//~ (\w+) (\S+)$', l)
                if m and m[1] != name:
                    continue
                src.append(l)
                if m:
                    own.add(len(src))
            out[base + ('.' + name if name else '')] = ('\n'.join(src) + '\n', set(codes.split(',')), own, about)
    return out


def place(A, about):
    if '::' in about:
        m = A.method(*about.split('::'))
        return A.span(m) if m else ''
    for a in A.F.adts.values():
        if a['p'].split('::')[-1] == about:
            return a['span']
    return {'Handler': 'src/router/handler.rs', 'Middleware': 'src/middleware.rs'}.get(about, '')


def P21(A):
    if A.tag == 'release':
        # the same library; only the reading of its signatures is repeated
        return signatures(A)
    ps = programs()
    res = compile_all({n.replace('.', '-'): v[0] for n, v in ps.items()})
    for n, (src, codes, own, about) in sorted(ps.items()):
        errs = res[n.replace('.', '-')]
        w = place(A, about)
        if '.' not in n:
            text = 'a program that respects the rules compiles: %s' % n
            bad = [e for e in errs if e[0] not in RENAMED]
            if not errs:
                A.ok(text, w)
            elif bad and len(bad) == len(errs):
                A.bad(text, w, '; '.join('%s line %d: %s' % e for e in bad[:3]))
            else:
                A.und(text, w, '; '.join('%s line %d: %s' % e for e in errs[:3]))
            continue
        twin = res[n.split('.')[0]]
        text = 'a program that breaks the rules does not compile: %s' % n
        base = {(c, m) for c, _, m in twin}
        new = [e for e in errs if (e[0], e[2]) not in base]
        if not errs and not twin:
            A.bad(text, w, 'it compiles: %s' % '; '.join(src.splitlines()[i - 1].split('//~')[0].strip() for i in sorted(own)[:4]))
        elif twin:
            A.und(text, w, 'its twin does not compile: %s' % twin[0][2])
        elif any(c in codes for c, _, _ in new):
            A.ok(text, w)
        else:
            A.und(text, w, 'rejected for another reason: %s' % '; '.join('%s line %d: %s' % e for e in new[:3]))
    signatures(A)


# ------------------------------------------------------------------ what the public functions can do
def owned(text, names):
    """(by value, behind a reference) occurrences of types in the text of a type"""
    val, ref = set(), set()
    depth, until = 0, None      # inside a reference until the depth falls below `until`
    i = 0
    while i < len(text):
        c = text[i]
        if c == '&' or c == '*':
            if until is None:
                until = depth
        elif c in '<([':
            depth += 1
        elif c == '>' and text[i - 1] in '-=':
            pass
        elif c in '>)]':
            depth -= 1
            if until is not None and depth < until:
                until = None
        elif c == ',' and until is not None and depth <= until:
            until = None
        else:
            m = re.match(r'[A-Za-z_][\w:]*', text[i:])
            if m:
                w = m[0].rstrip(':')
                if w in names:
                    (val if until is None else ref).add(w)
                i += len(m[0])
                continue
        i += 1
    return val, ref


def carriers(A, root):
    """types that own a value of the type"""
    out = {root}
    while True:
        n = len(out)
        for p, a in A.F.adts.items():
            if p in out:
                continue
            for v in a['variants']:
                for f in v[1]:
                    t = A.F.ty(f[1])
                    if owned(tstr(t), out)[0]:
                        out.add(p)
        if len(out) == n:
            return out


def signatures(A):
    G = graph(A)
    F = A.F
    A.bodies |= {n for n, b in F.bodies.items() if 'output' in b.j and (b.j.get('exported') or b.impl_trait)}
    by = {}
    for p in F.adts:
        by.setdefault(p.split('::')[-1], p)
    for short in ('Context', 'EndpointExecutor'):
        root = by.get(short)
        if root is None:
            A.und('the type %s' % short, '', 'not found')
            continue
        own = carriers(A, root)
        n = 0
        for name, b in sorted(F.bodies.items()):
            if 'output' not in b.j or not (b.j.get('exported') or b.impl_trait):
                continue
            outv, _ = owned(b.j['output'], own)
            if not outv:
                continue
            n += 1
            inv, inr = set(), set()
            for t in b.j['inputs']:
                v, r = owned(t, own)
                inv |= v
                inr |= r
            text = 'no public function makes a second %s out of one it only borrows: %s' % (short, canon(name))
            if inv or not inr:
                A.ok(text, b.span)
            elif any('&mut' in t or re.search(r"&'\w+ mut ", t) for t in b.j['inputs'] if owned(t, own)[1]):
                A.und(text, b.span, '%s -> %s' % (', '.join(b.j['inputs']), b.j['output']))
            else:
                A.bad(text, b.span, '%s -> %s' % (', '.join(b.j['inputs']), b.j['output']))
        if not n:
            A.und('functions giving out a %s' % short, '', 'none found')
    # whoever continues the chain gives its executor away; whoever starts serving gives the application away
    for what, root, targets in (('continues the chain', by.get('EndpointExecutor'), lambda s_: s_.fn['def'].split('::')[-1] in ('call', 'handle') and (s_.fn.get('trait') or '').split('::')[-1] in ('Handler', 'Middleware')),
                                ('starts serving', by.get('App'), lambda s_: re.search(r'hyper::(server|Server)', s_.fn['def']) and s_.fn['def'].split('::')[-1] in ('bind', 'try_bind', 'from_tcp', 'builder'))):
        if root is None:
            continue
        direct = {n for n in F.bodies for s_ in G.sites[n] if targets(s_)}
        n = 0
        for name, b in sorted(F.bodies.items()):
            if 'output' not in b.j or not b.j.get('exported'):
                continue
            mine = [t for t in b.j['inputs'] if any(owned(t, {root}))]
            if not mine:
                continue
            reach = G.reach([name])
            if not reach & direct:
                continue
            n += 1
            text = 'what %s takes its %s by value: %s' % (what, root.split('::')[-1], canon(name))
            if any(owned(t, {root})[0] for t in mine):
                A.ok(text, b.span)
            else:
                A.bad(text, b.span, ', '.join(mine))
        if not n:
            A.und('a function that %s' % what, '', 'none found')
