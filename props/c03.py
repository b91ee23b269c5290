"""C03: read faults never change the reported numbers."""
import itertools

from sim import scenario as S
from .c02 import dest
from .common import *

RUNS = {'quick': 2400, 'thorough': 9000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run with 1-3 faults (errno, short count or early end of file) on chosen operations on chosen input files; a delivered report is '
        'compared byte for byte with the fault-free twin and with the twins in which the very same lookups find no file; non-trivial: a fault '
        'fired; distinct by (options, faults fired with file and operation number class, outcome)')
ASSUMES = ['an optional input whose lookup fails is treated like an absent one (documented behaviour: supplementary files are optional)']


def gen(rng, w, i):
    case = S.gen_case(rng)
    case['argv'] = [a for a in case['argv'] if a != '--debug']
    if rng.random() < 0.5:
        case['have'] = {}
    if rng.random() < 0.3:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    yield dict(case, faults=[])
    g = golden(case, w)
    if g['code'] != 0:
        return
    for _ in range(9):
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = pick_input_fault(rng, g)
            if not f:
                continue
            if f['kind'] == 'read' and rng.random() < 0.3:
                f.update(do='short', n=rng.choice([1, 2, 7, 51, 500]))
            elif f['kind'] == 'read' and f['role'][2:] in ('elf', 'pd', 'sdk') and rng.random() < 0.15:
                f.update(do='eof')          # the file shrinks while it is read
            if rng.random() < 0.3:
                f['persist'] = True
            fs.append(f)
        if fs:
            yield dict(case, faults=fs)


def lookups(res):
    """The lookups of optional files which met an error: faults that make the very same lookup find no file."""
    out = []
    for f in res['fired']:
        at, do, kind, role = f[0], f[2], f[3], f[4]
        if do == 'short' or role == 'chip':
            continue
        if kind not in ('open', 'stat'):
            # the open this read belongs to
            n = max([i for k, r, i, _ in res['log'][:at] if k == 'open' and r == role], default=1)
            kind = 'open'
        else:
            n = res['log'][at - 1][2]
        t = {'kind': kind, 'role': role, 'nth': n, 'do': 'ENOENT'}
        if t not in out:
            out.append(t)
    return out[:6]


def judge(case, w, st):
    g = golden(case, w)
    if g['code'] != 0 or not case['faults']:
        st.case((opts_sig(case), g['code']), False)
        return
    res = run(case, w, case['faults'])
    st.case((opts_sig(case), reach(res), res['code']), bool(res['fired']), sample(case, res))
    if res['code'] != 0:
        st.count('failed run')
        if not res['fired']:
            raise Violation('nondeterministic', 'no fault fired, yet the run failed')
        if all(f[2] == 'short' for f in res['fired']):
            raise Violation('short-read', f'short reads {reach(res)} made the run fail: {show(res["stderr"][-200:])}')
        return
    got, want = dest(res, case), dest(g, case)
    for f in res['fired']:
        if f[4] in ('a.map', 'b.map') and f[3] in ('open', 'read') and f[2] != 'short':
            raise Violation('map-fault-report', f'{f[2]} on {f[3]} of {f[4]}, yet a report was delivered with status 0')
    if got == want:
        st.count('full report')
        return
    # each optional lookup that was hit may look like the file is not there
    opt = lookups(res)
    for k in range(len(opt), 0, -1):
        for sub in itertools.combinations(opt, k):
            # the configuration is looked up once per side: as if it is not there at all
            fs = [x for t in sub for x in ([dict(t, kind=y, nth=1, persist=True) for y in ('stat', 'open')] if t['role'][2:] == 'sdk' else [t])]
            twin = run(case, w, fs, cache=True)
            if twin['code'] == 0 and dest(twin, case) == got:
                st.count('as if the lookup found no file')
                return
    raise Violation('changed-numbers', f'after {reach(res)} a report was delivered that is neither the full report nor the report of a run '
                                       f'whose lookup finds no such file: ' + first_diff(got or b'', want or b''))
