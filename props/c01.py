"""C01: a failed run never touches the previous report."""
from sim import scenario as S
from .common import *

RUNS = {'quick': 1800, 'thorough': 9000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run of the command line with -o on a random firmware build and a fault set placed inside that run '
        '(positions taken from the operation and line log of its fault-free twin); non-trivial: a fault fired or the run failed; '
        'distinct by (options, prior state of the output path, faults fired with file and operation, outcome)')
STUBS = STUBS
ASSUMES = ['between opening the output for writing and closing it a crash or write error may leave a prefix of the complete new report '
           '(the tool writes in place); everything before that is required to be untouched',
           'instants inside finalizers are not interrupted']


def breakage(rng, case):
    r = rng.randrange(9)
    av = case['argv']
    if r == 0:
        av += ['--sort', rng.choice(['nosuchcolumn', '99', '-77', '0'])]
    elif r == 1:
        av += ['--archive-details', 'libnosuch.a']
    elif r == 2:
        case['argv'] = [a for a in av if a != '--archive-dependencies']
        i = case['argv'].index('--format')
        case['argv'][i + 1] = 'dot'
    elif r == 3:
        case['have']['a.map'] = False
    elif r == 4:
        case['dmg'] = {'a.map': [['trunc', rng.randrange(1, 4000)]]}
    elif r == 5:
        case['dmg'] = {'a.elf': [['trunc', rng.randrange(1, 3000)]]}
    elif r == 6:
        av += [rng.choice(['--format=bogus', '--bogus', 'extra_arg'])]
    elif r == 7 and 'b' in case['fw']:
        case['have']['b.map'] = False
    else:
        case['dmg'] = {'a.map': [['lset', rng.randrange(200), rng.choice(['.flash.text  zz 0x1', 'x', ' .text 0x10 0xzz a.o'])]]}


def gen(rng, w, i):
    case = S.gen_case(rng, out=True)
    if rng.random() < 0.3:
        breakage(rng, case)
    if rng.random() < 0.06:
        case['locale'] = rng.choice(['ascii', 'ascii', 'latin-1', 'cp1252', 'cp437'])
    yield dict(case, faults=[])
    g = golden(case, w)
    for _ in range(9):
        fs = []
        r = rng.random()
        mut = g['first_mut']
        lines_before = g['log'][mut][3] if mut is not None else g['lines']
        if r < 0.3:
            f = pick_input_fault(rng, g)
            if f:
                fs.append(f)
        elif r < 0.65:
            if lines_before:
                n = rng.randint(1, lines_before) if rng.random() < 0.6 else max(1, lines_before - rng.randrange(0, 120))
                fs.append({'line': n, 'do': rng.choice(['intr', 'mem', 'crash'])})
        elif r < 0.8:
            ops = [(k, r2, n) for k, r2, n, _ in g['log']]
            if ops:
                k, r2, n = rng.choice(ops)
                fs.append({'kind': k, 'role': r2, 'nth': n, 'do': rng.choice(['intr', 'mem', 'crash'])})
        else:
            ops = [(k, r2, n) for k, r2, n, _ in g['log'] if r2 in ('out', 'outdir')]
            if ops:
                k, r2, n = rng.choice(ops)
                fs.append({'kind': k, 'role': r2, 'nth': n, 'do': rng.choice(WRITE_ERR)})
        if fs and rng.random() < 0.15:
            f = pick_input_fault(rng, g)
            if f:
                fs.append(f)
        if fs:
            yield dict(case, faults=fs)


def judge(case, w, st):
    before = before_tree(case, w)
    res = run(case, w, case['faults'], lines=True)
    mut = res['first_mut']
    ok = res['code'] == 0
    o = case['out']
    st.case((opts_sig(case), case.get('prior') and case['prior'][0], reach(res), res['code']), bool(res['fired']) or not ok, sample(case, res))
    # order: nothing is done to the output before the inputs are read and the report is rendered
    if mut is not None:
        late = [e for e in res['log'][mut:] if is_input(e[1]) and e[0] in ('open', 'read')]
        if late:
            raise Violation('early-open', f'output path touched ({res["log"][mut][:2]}) before the last input was read: {late[0][:3]} came after it')
        if res['after_mut'] >= 3:
            raise Violation('early-open', f'output path touched ({res["log"][mut][:2]}) while the report was still being rendered '
                                          f'({res["after_mut"]} lines of the formatters ran afterwards)')
    if ok:
        st.count('succeeded')
        return
    hit = [f for f in res['fired'] if mut is not None and f[0] > mut]
    if res['tree'] == before:
        st.count('failed, untouched')
        return
    changed = sorted(k for k in set(res['tree']) | set(before) if res['tree'].get(k) != before.get(k))
    if not hit:
        raise Violation('clobbered', f'run failed with status {res["code"]} outside delivery, yet {changed} changed; stderr {show(res["stderr"][-200:])}')
    # delivery itself was hit
    first = hit[0]
    if first[0] == mut + 1 and first[2].startswith('E'):
        raise Violation('clobbered', f'{first[2]} on the first operation on the output path, yet {changed} changed')
    rest = [f for i, f in enumerate(case['faults']) if not _is_delivery(f, res, mut)]
    twin = run(case, w, rest, cache=True, lines=True)
    new = out_of(res, case)
    old = _old(before, case)
    if new == old:
        st.count('delivery hit, old report kept')
        return
    want = out_of(twin, case)
    if new is None:
        raise Violation('removed', f'previous output removed by a run that failed with status {res["code"]}')
    if new[0] != 'f' or want is None or not want[2].startswith(new[2]):
        raise Violation('garbage', f'output is neither the previous report nor a prefix of the new one: {show(new[2] if new[0] == "f" else b"")}')
    st.count('delivery hit, prefix of new report')


def _old(before, case):
    return out_of({'tree': before}, case)


def _is_delivery(f, res, mut):
    if 'line' in f:
        return f['line'] >= res['log'][mut][3]
    idx = next((i for i, e in enumerate(res['log']) if e[0] == f['kind'] and e[1] == f['role'] and e[2] == f['nth']), None)
    return idx is not None and idx >= mut
