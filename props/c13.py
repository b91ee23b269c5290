"""C13: an interrupt at any instant ends the run quietly."""
from sim import scenario as S
from .c01 import breakage
from .common import *

RUNS = {'quick': 2700, 'thorough': 15000}
LEVEL = 'exploration'
RULE = ('one case = one simulated command line run interrupted (KeyboardInterrupt) at a seeded source line of the package or at a seeded file or stream '
        'operation, on healthy, failing or faulted inputs; judged: exit status, standard error, output path, and that the run stops soon after; '
        'distinct by (options, kind of instant, file and operation, function-level position bucket, outcome)')
ASSUMES = ['instants inside finalizers (CPython prints and drops exceptions raised there) and inside third-party code that calls no seam are not '
           'interrupted', 'an interrupt while the message of a run that has failed already is printed is not judged', 'the interpreter start-up and exit are not part of producing the report']
AFTER = 400


def gen(rng, w, i):
    case = S.gen_case(rng)
    if rng.random() < 0.4:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    if rng.random() < 0.5:
        case['have'] = {}
    if rng.random() < 0.15:
        breakage(rng, case)
    base = []
    g = golden(case, w)
    if rng.random() < 0.15:
        f = pick_input_fault(rng, g)
        if f:
            base = [f]
            g = run(case, w, base, lines=True)
    for _ in range(9):
        r = rng.random()
        f = None
        if r < 0.3:
            if g['lines']:
                f = {'line': rng.randint(1, g['lines']), 'do': 'intr'}
        elif r < 0.5:
            # close to an operation, to the beginning or to the end
            near = [0, g['lines']] + [o[3] for o in g['log']]
            f = {'line': max(1, rng.choice(near) + rng.randint(-12, 12)), 'do': 'intr'}
        else:
            f = pick_op(rng, g)
        if f:
            yield dict(case, faults=base + [f])


def pick_op(rng, g):
    """One operation, the file first and the kind next, so that the many reads do not drown the rest."""
    ops = [(k, r, n) for k, r, n, _ in g['log']]
    if not ops:
        return None
    role = rng.choice(sorted({o[1] for o in ops}))
    kind = rng.choice(sorted({o[0] for o in ops if o[1] == role}))
    return {'kind': kind, 'role': role, 'nth': rng.choice([o[2] for o in ops if o[:2] == (kind, role)]), 'do': 'intr'}


def judge(case, w, st):
    before = before_tree(case, w)
    res = run(case, w, case['faults'], lines=True)
    hits = [f for f in res['fired'] if f[2] == 'intr']
    s = res['steps'][0]
    if not hits or s.get('flush'):
        st.case((opts_sig(case), 'none'), False)
        return
    at = hits[0]
    if at[4] == 'stderr' and run(case, w, [f for f in case['faults'] if f['do'] != 'intr'], cache=True, lines=True)['code'] != 0:
        st.case((opts_sig(case), 'diagnosing'), False)      # the run has failed already and its message is being printed
        return
    st.case((opts_sig(case), at[3], at[4], at[1] // 50, res['code']), True, sample(case, res))
    where = f'interrupt at line {at[1]} of the run' + (f' ({at[3]} of {at[4]})' if at[4] else '')
    text = res['stderr'].decode(errors='replace')
    if s['exc'] or 'Traceback' in text:
        raise Violation('traceback', f'{where}: uncaught {s["exc"]}: {text[-300:]!r}')
    if not run(case, w, [f for f in case['faults'] if f['do'] != 'intr'], cache=True, lines=True)['stderr'].startswith(res['stderr'].removesuffix(b'\nAborted.\n')):  # click's farewell outside _run()
        raise Violation('noise', f'{where}: not quiet, and nothing the run would have said anyway: {text[-300:]!r}')
    mut = res['first_mut']
    delivering = mut is not None and at[0] > mut
    rest = [f for f in case['faults'] if f['do'] != 'intr']
    if res['code'] == 0:
        twin = run(case, w, rest, cache=True, lines=True)
        if case.get('out'):
            done = any(e[0] == 'close' and e[1] == 'out' for e in res['log'][:at[0]])
        else:
            done = sum(1 for e in res['log'][:at[0]] if e[1] == 'stdout') >= sum(1 for e in twin['log'] if e[1] == 'stdout') and \
                not (at[3] == 'write' and at[4] == 'stdout')
        if not done:
            raise Violation('swallowed', f'{where}: the run goes on and exits with status 0')
        st.count('after delivery')
        return
    if res['code'] != 1:
        raise Violation('status', f'{where}: exit status {res["code"]} instead of 1; {text[-200:]!r}')
    later = [e for e in res['log'][at[0]:] if e[0] in ('open', 'read', 'wopen', 'mkdir') and (is_input(e[1]) or e[1] in ('out', 'outdir'))]
    if later:
        raise Violation('swallowed', f'{where}: the run goes on with {later[0][:3]}')
    if res['lines'] - at[1] > AFTER:
        raise Violation('swallowed', f'{where}: {res["lines"] - at[1]} more lines of the package run afterwards')
    changed = sorted(k for k in set(res['tree']) | set(before) if res['tree'].get(k) != before.get(k))
    if changed and not delivering:
        raise Violation('partial', f'{where}: {changed} changed although the report was not complete')
    if changed and case.get('out'):
        new, old = out_of(res, case), out_of({'tree': before}, case)
        if new != old:
            twin = run(case, w, rest, cache=True, lines=True)
            want = out_of(twin, case)
            if new is None or want is None or new[0] != 'f' or not want[2].startswith(new[2]):
                raise Violation('garbage', f'{where}: the output file is neither the previous nor a prefix of the new report')
        st.count('while delivering')
    st.count('quiet end')
