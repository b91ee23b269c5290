"""C02: exit status 0 means the whole report was delivered."""
from sim import model as M
from sim import report as R
from sim import scenario as S
from .common import *

RUNS = {'quick': 1800, 'thorough': 9000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run on a random firmware build with faults on the delivery of the report (mkdir, open, write, close of the '
        'output file; writes to stdout/stderr; short writes; disk filling up), short reads, interrupts or allocation failures; the bytes '
        'at the destination are compared with the fault-free twin run, the fault-free run with the reference model, and the two '
        'destinations with each other; non-trivial: a fault fired; distinct by (options, faults fired, outcome)')
ASSUMES = ['a write that reports fewer bytes than asked for is retried by the Python io layer, as on a real kernel']


def dest(res, case):
    if case.get('out'):
        e = out_of(res, case)
        return e[2] if e is not None and e[0] == 'f' else None
    return res['stdout']


def gen(rng, w, i):
    case = S.gen_case(rng)
    case['argv'] = [a for a in case['argv'] if a != '--debug']
    yield dict(case, faults=[])
    g = golden(case, w)
    if g['code'] != 0:
        return
    if case.get('out') and case.get('prior') is None and rng.random() < 0.3:
        # an older report of the same or nearly the same content is in the way
        d = dest(g, case)
        if d:
            t = d.decode('utf-8', 'replace')
            yield dict(case, faults=[], prior=['file', rng.choice([t[::-1], 'x' * len(t), t + 'rest of an older report\n', t[:-1] + 'X', 'X' + t[1:], t[:len(t) // 2]])])
    for _ in range(9):
        r = rng.random()
        dops = [(k, r2, n) for k, r2, n, _ in g['log'] if r2 in ('out', 'outdir', 'stdout', 'stderr')]
        if case.get('out'):
            main = [o for o in dops if o[1] in ('out', 'outdir')]
        else:
            main = [o for o in dops if o[1] == 'stdout']
        fs = []
        if r < 0.65 and (main or dops):
            k, r2, n = rng.choice(main if main and rng.random() < 0.85 else dops)
            f = {'kind': k, 'role': r2, 'nth': n, 'do': rng.choice(WRITE_ERR)}
            if k == 'write' and rng.random() < 0.5:
                f['do'] = 'partial'
                f['n'] = rng.choice([1, 7, 100, 1000, 4096])
                if rng.random() < 0.6:
                    fs.append({'kind': k, 'role': r2, 'nth': n + 1, 'do': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EPIPE']), 'persist': True})
            elif rng.random() < 0.4:
                f['persist'] = True
            fs.append(f)
        elif r < 0.8:
            f = pick_input_fault(rng, g, kinds=('read',))
            if f:
                f.update(do='short', n=rng.choice([1, 3, 16, 100]), persist=rng.random() < 0.5)
                fs.append(f)
        else:
            fs.append({'line': rng.randint(1, max(1, g['lines'])), 'do': rng.choice(['intr', 'mem'])})
        if fs:
            yield dict(case, faults=fs)


def judge(case, w, st):
    g = golden(case, w)
    if not case['faults']:
        o = R.options(case)
        st.case((opts_sig(case), 'clean', g['code']), True)
        try:
            exp = R.expected(case, o)
        except M.Refused:
            st.count('refused by definition')
            return
        ok_sort = o['sort'] in ('1', '-1', 'Total Size', 'Used [bytes]') or o['format'] not in ('table', 'csv') or o['archive_dependencies']
        if g['code'] != 0:
            if ok_sort:
                raise Violation('spurious-failure', f'fault-free run on good inputs fails with {g["code"]}: {show(g["stderr"][-300:])}')
            return
        try:
            d = dest(g, case)
            if d is None:
                raise R.Bad('no output file')
            R.parsed(d.decode(), o, exp)
        except (R.Bad, ValueError, KeyError, IndexError, TypeError) as e:
            raise Violation('not-a-report', f'fault-free run exits 0, but what it delivered is not a complete {o["format"]} report: {e}; '
                                            f'{show((d or b"")[-200:])}')
        if case.get('out'):
            # the same report goes to standard output without -o
            c2 = {k: v for k, v in case.items() if k not in ('out', 'prior')}
            c2['argv'] = [a for a in case['argv'] if a not in ('-o', '--output-file', '@o', '--force-terminal')]
            s = golden(c2, w)
            if s['stdout'] != w.norm(d):
                raise Violation('destinations-differ', 'output file and standard output differ: ' + first_diff(w.norm(d), s['stdout']))
            if g['stdout']:
                raise Violation('mixed', f'a run with -o printed {show(g["stdout"])} on standard output')
        st.count('clean delivery')
        return
    if g['code'] != 0:
        return
    res = run(case, w, case['faults'], lines=any('line' in f for f in case['faults']))
    st.case((opts_sig(case), reach(res), res['code']), bool(res['fired']), sample(case, res))
    d, want = dest(res, case), dest(g, case)
    if res['code'] == 0:
        if d != want:
            raise Violation('lost-report', f'exit status 0 after {reach(res)}, but the destination does not hold the complete report: '
                                           + ('missing' if d is None else first_diff(d, want or b'')))
        bad = [f for f in res['fired'] if f[3] == 'close' and f[4] == 'out']
        if bad:
            raise Violation('close-ignored', f'exit status 0 although closing the output file failed with {bad[0][2]}')
        st.count('survived' if res['fired'] else 'fault not reached')
    else:
        if not res['fired']:
            raise Violation('nondeterministic', f'no fault fired, yet the run failed with {res["code"]}: {show(res["stderr"][-200:])}')
        st.count('failed with nonzero status')
