"""C10: every run terminates in bounded work."""
import re

from sim import damage as D
from sim import firmware as F
from sim import scenario as S
from .common import *

RUNS = {'quick': 1800, 'thorough': 20000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run on inputs damaged by a seeded sequence of edits (torn writes, bit rot, foreign and hostile content, numbers '
        'replaced by extremes) with faults on some reads, under a budget of executed package lines proportional to the input size, a CPU limit and '
        'an address-space limit; distinct by (options, damage kinds, outcome, order of magnitude of the work)')
ASSUMES = ['work is counted in source lines of the package; work inside library calls is bounded by the CPU and address-space limits',
           'limits are generous: 60000 lines + 60 lines per input byte (600 if lines were repeated many times), 30 s CPU, 2 GB of address space']
BASE, PER = 60000, 60
AS_MB = 2048
CPU = 30


def gen(rng, w, i):
    case = S.gen_case(rng, kinds=S.KINDS + ['symbols'])
    case['argv'] = [a for a in case['argv'] if a != '--debug']
    if rng.random() < 0.5:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    if rng.random() < 0.7:
        case['have'] = {}
    if rng.random() < 0.15:
        for fw in case['fw'].values():
            F.hostile_dwarf(rng, fw)
        yield dict(case, faults=[])
    for _ in range(10):
        c = D.gen_damage(rng, dict(case, faults=[]))
        if rng.random() < 0.15:
            c['faults'] = [{'kind': 'read', 'role': rng.choice(['a.map', 'a.elf', 'a.pd', 'a.sdk']), 'nth': rng.randint(1, 40),
                            'do': rng.choice(READ_ERR + ['short'] * 10), 'n': 1, 'persist': rng.random() < 0.7}]
        if c.get('dmg') or c['faults']:
            yield c


def judge(case, w, st):
    files = S.files(case)
    size = sum(len(d) for d in files.values() if isinstance(d, bytes))
    # sections are looked up in every region, so long lists of both multiply
    rep = any(o[0] == 'lrep' for ops in (case.get('dmg') or {}).values() for o in ops)
    budget = BASE + (PER * 10 if rep else PER) * size
    res = run(case, w, case['faults'], lines=True, budget=budget, as_mb=AS_MB, cpu_s=CPU, wall_s=120)
    dk = tuple((r, tuple(o[0] for o in ops)) for r, ops in sorted((case.get('dmg') or {}).items()))
    st.case((opts_sig(case), dk, res['code'], res['lines'].bit_length()), True, sample(case, res, {'lines': res['lines'], 'input_bytes': size}))
    st.count(f'lines per byte < {2 ** (int(res["lines"] / max(1, size)) + 1).bit_length()}')
    if res['code'] == 98:
        raise Violation('endless', f'more than {budget} package lines executed for {size} bytes of input; damage {dk}')
    if res['code'] == 96:
        raise Violation('endless', f'the run waits for ever, without using CPU time, on {size} bytes of input; damage {dk}')
    if res['code'] == 97:
        raise Violation('endless', f'more than {CPU} s of CPU time for {size} bytes of input; damage {dk}')
    if res['steps'][0]['exc'] == 'MemoryError' or b'MemoryError' in res['stderr']:
        raise Violation('memory', f'address space of {AS_MB} MB exhausted for {size} bytes of input; damage {dk}')
    st.count('ended, status %d' % res['code'])
