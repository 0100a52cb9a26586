"""check.py <property> [--thorough]: analyse /repo's current source for one property."""
import importlib, json, os, sys, time, traceback
from . import build
from .base import Analysis
from .facts import Facts

VERIF = build.VERIF

RULES = {
    'P01': ['trie.P01', 'serve.dispatch', 'config.P01', 'lookup.P01'],
    'P02': ['serve.P02', 'lookup.P01'],
    'P03': ['serve.P03'],
    'P04': ['trie.P04', 'config.P04', 'lookup.P04'],
    'P05': ['trie.P05', 'lookup.P05', 'extract.P05'],
    'P06': ['trie.P06', 'config.P06'],
    'P07': ['trie.P07'],
    'P08': ['serve.P08'],
    'P09': ['serve.P09'],
    'P10': ['serve.P10'],
    'P11': ['effects.P11'],
    'P12': ['extract.P12'],
    'P13': ['extract.P13'],
    'P14': ['panics.P14'],
    'P15': ['files.P15'],
    'P16': ['files.P16'],
    'P17': ['respond.P17'],
    'P18': ['respond.P18'],
    'P19': ['effects.P19'],
    'P20': ['extract.P20'],
    'P21': ['witness.P21'],
    'P22': ['effects.P22'],
    'P23': ['trie.P23', 'lookup.P23'],
    'P24': ['extract.P24'],
    'P25': ['config.P25'],
    'P26': ['effects.P26'],
    'P27': ['config.P27'],
    'P28': ['extract.P28', 'serve.P28'],
    'P29': ['effects.P29'],
    'P30': ['extract.P30'],
    'P35': ['serve.P35'],
    'P36': ['config.P36'],
    'P37': ['files.P37'],
    'P38': ['trie.P38', 'lookup.P38'],
    'P39': ['trie.P39'],
}

ASSUME = [
    'rustc type-checks, borrow-checks and lowers the crate to MIR correctly',
    'std, hyper, http, serde, serde_json, url and async-trait behave as their documentation says (the models in obs/models.py)',
    'code of users of the crate (handlers, middleware, trait impls) is unknown but respects its types',
]


def known():
    """[(property, key)] of the listed findings; fixed entries suppress nothing"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property='):
                f = l[len('KNOWN-FINDING: property='):].split(' ', 1)
                key, _, text = f[1].partition(' | ')
                out.append((f[0], key.strip(), text.strip()))
    return out


def run_rule(name, A):
    mod, fn = name.split('.')
    m = importlib.import_module('obs.rules.' + mod)
    n = len(A.obl)
    try:
        getattr(m, fn)(A)
    except Exception as e:
        # shapes of code a rule was not written for decide nothing
        if os.environ.get('OBS_DEBUG'):
            raise
        A.und('rule %s' % name, '', 'stopped: %s: %s at %s' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()))


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        facts = build.facts()
    except build.BuildError as e:
        print('cannot analyse: %s' % e)
        return 2
    obl, bodies, paths, spans = {}, set(), 0, set()
    for tag, d in facts.items():
        F = Facts(d)
        A = Analysis(F, tag)
        A.tier = tier
        for r in RULES[pid]:
            run_rule(r, A)
        for o in A.obl:
            obl.setdefault(o[:3] + (o[4],), []).append((tag, o[3]))
        bodies |= A.bodies
        paths += A.paths
    bad = [(o, obl[o]) for o in obl if o[0] == 'bad']
    und = [(o, obl[o]) for o in obl if o[0] == 'undecided']
    oks = [o for o in obl if o[0] == 'ok']
    kn = [x for x in known() if x[0] == pid]
    new, old = [], []
    for o, w in bad:
        m = [x for x in kn if x[1] == o[3] and o[3]]
        (old if m else new).append((o, w))
    for p, key, text in kn:
        if any(o[3] == key for o, w in old):
            print('KNOWN-FINDING: property=%s %s | %s' % (pid, key, text))
    out_dir = os.environ.get('OBS_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(out_dir, exist_ok=True)
    replay = 'evidence/%s.replay.txt' % pid
    rp = os.path.join(out_dir, '%s.replay.txt' % pid)
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, 'w') as f:
            f.write('Rule %s broken; reproduce with: cd /verif && python3 check.py %s\n\n' % (', '.join(RULES[pid]), pid))
            for o, w in new:
                f.write('%s\n  required: %s\n  found:    %s\n  profiles: %s\n' % (o[2], o[1], w[0][1], ', '.join(sorted({x for x, _ in w}))))
    what = {}
    for o in oks:
        what.setdefault(o[1], []).append(o[2])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Dataflow over the MIR rustc produced for the current source, in the profiles %s: every path outcome of the analysed '
                           'functions is compared with what the property requires of it. Rules: %s. Obligations are distinct '
                           '(requirement, program point) pairs.' % (', '.join(facts), ', '.join(RULES[pid])),
            'obligations': len(obl), 'discharged': len(oks), 'undecided': len(und), 'known_findings': len(old),
            'path_outcomes': paths,
            'functions_analysed': len(bodies),
            'functions': sorted(bodies),
            'requirements': {w: len(v) for w, v in sorted(what.items())},
            'samples': ['%s: %s' % (v[0], w) for w, v in sorted(what.items())][:12],
            'undecided_list': ['%s: %s (%s)' % (o[2], o[1], w[0][1][:300]) for o, w in und][:40],
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(out_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d path outcomes, %.1f s' %
          (pid, len(obl), len(oks), len(und), len(new), len(bodies), paths, time.time() - t0))
    for o, w in und[:10]:
        print('  undecided: %s: %s (%s)' % (o[2], o[1], w[0][1][:200]))
    if new:
        for o, w in new[:20]:
            print('  %s: %s: %s' % (o[2], o[1], w[0][1][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0
