"""C11: a report describes one version of each build file."""
import itertools
import os

from sim import firmware as F
from sim import scenario as S
from .c02 import dest
from .common import *

RUNS = {'quick': 1900, 'thorough': 12000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run during which a rebuild replaces (by rename) the link map, ELF file or sdkconfig of the project or of the '
        'reference, each at its own seeded operation or source line, possibly back again; a delivered report must be byte-identical to the '
        'fault-free report of one combination of file versions; non-trivial: a replacement happened before the run ended; distinct by '
        '(options, replaced files and positions, which combination was reported)')
ASSUMES = ['the build replaces a file atomically (write to a new file and rename); a file overwritten in place while it is read cannot be read consistently '
           'by any reader', 'both versions have the same project_description.json']
PARTS = ('map', 'elf', 'sdk')


def gen(rng, w, i):
    lto = rng.random() < 0.3
    case = S.gen_case(rng, opts={'lto': lto} if rng.random() < 0.6 else None, kinds=S.KINDS + ['deps', 'symbols'])
    case['argv'] = [a for a in case['argv'] if a != '--debug']
    case['have'] = {}
    if rng.random() < 0.3:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    case['v1'] = {}
    for s, fw in case['fw'].items():
        r = rng.random()
        v = S.gen_variant(rng, fw) if r < 0.6 else F.gen(rng, {'target': fw['target'], 'proj': fw['proj'], 'lto': fw['lto']})
        if rng.random() < 0.3:
            v = dict(v, lto=not v['lto'])
        if rng.random() < 0.3:
            v = dict(v, crt=[c for c in v['crt'] if rng.random() < 0.5])
        case['v1'][s] = v
    g = go(dict(case, faults=[]), w, lines=True, cache=True)
    if g['code'] != 0:
        return
    for _ in range(8):
        fs = []
        sides = [rng.choice(sorted(case['fw']))] if rng.random() < 0.8 else sorted(case['fw'])
        for s in sides:
            parts = [p for p in PARTS if rng.random() < 0.5] or [rng.choice(PARTS[:2])]
            at = position(rng, g, s, lines=rng.random() < 0.3)
            for p in parts:
                if rng.random() < 0.4:
                    at = position(rng, g, s, lines='line' in at)
                fs.append(dict(at, do='swap', swap=f'{s}.{p}'))
        yield dict(case, faults=fs)


def position(rng, g, side, lines=False):
    if lines and g['lines']:
        return {'line': rng.randint(1, g['lines'])}
    ops = [(k, r, n) for k, r, n, _ in g['log'] if is_input(r)]
    if rng.random() < 0.7:
        ops = [o for o in ops if o[0] in ('open', 'stat')] or ops
    role = rng.choice(sorted({r for _, r, _ in ops}))
    k, r, n = rng.choice([o for o in ops if o[1] == role])
    return {'kind': k, 'role': r, 'nth': n}


def versions(case, pick):
    """The case with some files taken from the second version."""
    return [(f'{s}.{p}', S.paths(case, s)[p], S.emit(dict(case, fw=case['v1']), s)[S.paths(case, s)[p]]) for s, p in (x.split('.') for x in pick)]


def go(case, w, pick=(), cache=False, lines=False, swaps=False):
    files = S.files(case)
    for _, rel, data in versions(case, pick):
        files[rel] = data
    req = S.request(case, w.root, case['faults'] if swaps else (), lines=lines)
    if swaps:
        every = {f['swap'] for f in case['faults']}
        req['plan']['swaps'] = {n: [(os.path.join(w.root, rel), data)] for n, rel, data in versions(case, sorted(every))}
    return w.run(files, req, cache=cache)


def judge(case, w, st):
    lines = any('line' in f for f in case['faults'])
    res = go(case, w, swaps=True, lines=lines)
    names = sorted({f['swap'] for f in case['faults']})
    got = dest(res, case)
    match = None
    if res['code'] == 0:
        for k in range(len(names) + 1):
            for pick in itertools.combinations(names, k):
                g = go(case, w, pick, cache=True)
                if g['code'] == 0 and dest(g, case) == got:
                    match = pick
                    break
            if match is not None:
                break
    st.case((opts_sig(case), reach(res), tuple(names), match), bool(res['fired']), sample(case, res, {'reported': match}))
    if res['code'] != 0:
        st.count('failed run')
        return
    if match is None:
        g = go(case, w, (), cache=True)
        raise Violation('mixed-versions', f'{names} replaced at {reach(res)}: the report is that of no combination of versions; against the old ones: '
                        + first_diff(got or b'', dest(g, case) or b''))
    st.count('old' if not match else 'new' if len(match) == len(names) else 'old and new')
