"""C05: a run writes nothing except its output file."""
import os

from sim import damage as D
from sim import scenario as S
from .c04 import api_of
from .common import *

RUNS = {'quick': 1600, 'thorough': 12000}
LEVEL = 'exploration'
RULE = ('one case = one simulated command line run or API history on a random firmware build, fault-free or with I/O errors, short writes, '
        'interrupts, allocation failures or process death at chosen operations or source lines; the scratch directory before and after and '
        'the interpreter audit trail of every mutating system call are judged; distinct by (options, prior output state, faults fired, outcome)')
ASSUMES = ['native libraries used by the package perform file operations through CPython calls that raise audit events; whatever they leave behind '
           'below the scratch directory is caught by the snapshot']

BY = ['o/other.txt', 'report.txt.tmp', 'report.txt~', 'o/report.txt.bak', 'a/other.map', 'a/cache.json', 'cwd/x', 'o/.report.txt.swp', 'a/report.csv',
      'a/.esp_idf_size']


def gen(rng, w, i):
    case = S.gen_case(rng)
    if rng.random() < 0.3:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    if rng.random() < 0.1:
        case['argv'].append('-q')
    case['bystanders'] = {p: 'bystander' for p in BY if rng.random() < 0.4 and not (case.get('prior') or [''])[0] == 'parentfile'}
    if not case.get('out') and rng.random() < 0.3:
        case['api'] = api_of(rng, case)
    yield dict(case, faults=[])
    g = go(case, w, (), cache=True)
    for _ in range(8):
        c = dict(case, faults=[])
        r = rng.random()
        if r < 0.2:
            c = D.gen_damage(rng, c)
        elif r < 0.4:
            f = pick_input_fault(rng, g)
            c['faults'] = [f] if f else []
        elif r < 0.75:
            ops = [(k, r2, n) for k, r2, n, _ in g['log']]
            own = [o for o in ops if o[1] in ('out', 'outdir')]
            if own and rng.random() < 0.7:
                ops = own
            if ops:
                k, r2, n = rng.choice(ops)
                c['faults'] = [{'kind': k, 'role': r2, 'nth': n, 'do': rng.choice(WRITE_ERR + ['intr', 'mem', 'crash'])}]
                if k == 'write' and rng.random() < 0.4:
                    c['faults'][0].update(do='partial', n=rng.choice([0, 1, 64]))
                if rng.random() < 0.3:
                    c['faults'][0]['persist'] = True
        else:
            c['faults'] = [{'line': rng.randint(1, max(1, g['lines'])), 'do': rng.choice(['intr', 'mem', 'crash'])}]
        if c['faults'] or c.get('dmg'):
            yield c


def go(case, w, faults, cache=False):
    kw = {}
    if case.get('api'):
        kw['steps'] = [{'api': case['api'], 'pool': False}]
    return run(case, w, faults, cache=cache, lines=True, **kw)


def judge(case, w, st):
    before = before_tree(case, w)
    res = go(case, w, case['faults'])
    st.case((opts_sig(case), bool(case.get('api')), case.get('prior') and case['prior'][0], reach(res), tuple(sorted(case.get('dmg') or ())), res['code']),
            True, sample(case, res))
    ok = set()
    if case.get('out'):
        o = case['out']
        ok.add(o)
        if case.get('prior') and case['prior'][0] == 'link':
            ok.add(os.path.join(os.path.dirname(o), 'real.txt'))
        d = os.path.dirname(o)
        while d:
            if d not in before:
                ok.add(d)
            d = os.path.dirname(d)
    for rel in sorted(set(before) | set(res['tree'])):
        if before.get(rel) != res['tree'].get(rel) and rel not in ok:
            a, b = before.get(rel), res['tree'].get(rel)
            what = 'created' if a is None else 'removed' if b is None else 'changed'
            raise Violation('other-file', f'{rel} {what} by a run with {"-o " + case["out"] if case.get("out") else "no -o"} (exit status {res["code"]}, '
                                          f'faults {reach(res)})')
    for ev, what in res['audit']:
        if what in ('out', 'outdir') and case.get('out') and ev in ('open', 'os.mkdir'):
            continue
        if what == '/dev/null':
            continue
        if ev == 'os.mkdir' and ((what.startswith('other:') and (before.get(what[6:]) or ('',))[0] == 'd') or w.root.startswith(what.rstrip('/') + '/')):
            continue        # creating a directory that exists has no effect (mkdir(parents=True) told that a parent is missing walks upwards)
        raise Violation('other-file', f'{ev} of {w.norm(what.encode()).decode()} by a run with {"-o " + case["out"] if case.get("out") else "no -o"} '
                                      f'(exit status {res["code"]}, faults {reach(res)})')
    st.count('clean, status %d' % res['code'])
