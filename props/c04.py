"""C04: every failing input ends in a clean, diagnosed failure."""
import copy

from sim import damage as D
from sim import firmware as F
from sim import report as R
from sim import scenario as S
from .common import *

RUNS = {'quick': 2200, 'thorough': 20000}
LEVEL = 'exploration'
RULE = ('one case = one simulated command line run or API call on a random firmware build with an errno on a chosen operation on a chosen '
        'input (one-off or persistent) and/or an input truncated, overwritten or damaged by a seeded sequence of edits; non-trivial: a fault '
        'fired or an input was damaged; distinct by (options, damage kinds, faults fired, outcome)')
ASSUMES = ['damage that leaves a parsable link map may yield a report with status 0', 'memory limits and running time are judged by C10',
           'interrupts are judged by C13']


def api_of(rng, case):
    ops = []
    for side in case['fw']:
        ops.append(['get', side, S.paths(case, side)['map'], rng.random() < 0.6, rng.choice([None, True, False, True]), rng.choice(['plain', 'plain', 'default'])])
    if 'b' in case['fw']:
        ops.append(['diff', 'd', 'a', 'b'])
        ops.append(['unify', 'd'])
    return ops


def gen(rng, w, i):
    case = S.gen_case(rng, kinds=S.KINDS + ['symbols'])
    if rng.random() < 0.4:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    if rng.random() < 0.5:
        case['have'] = {}
    if rng.random() < 0.3:
        case['api'] = api_of(rng, case)
    if rng.random() < 0.08:
        c = dict(case, fw=copy.deepcopy(case['fw']), have={}, faults=[])
        for fw in c['fw'].values():
            F.hostile_dwarf(rng, fw)
        c['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto', '--archive-dependencies')] + ['--lto', '--files']
        if c.get('api'):
            c['api'] = [o[:4] + [True] + o[5:] if o[0] == 'get' else o for o in c['api']]
        yield c
    g = None
    for n in range(10):
        r = rng.random()
        c = dict(case, faults=[])
        if r < 0.6:
            c = D.gen_damage(rng, c)
        if r >= 0.55:
            g = g or go(case, w, (), cache=True)
            fs = [pick_input_fault(rng, g) for _ in range(rng.choice([1, 1, 2]))]
            for f in fs:
                if f and rng.random() < 0.4:
                    f['persist'] = True
            c['faults'] = [f for f in fs if f]
        if any(k.endswith('.pd') for k in c.get('dmg') or ()):
            # a lone surrogate in a JSON string cannot be printed by --debug to a UTF-8 stream
            c['argv'] = [a for a in c['argv'] if a != '--debug']
        if c.get('dmg') or c['faults']:
            yield c


def go(case, w, faults, cache=False):
    kw = {}
    if case.get('api'):
        kw['steps'] = [{'api': case['api'], 'pool': False}]
    return run(case, w, faults, cache=cache, **kw)


def judge(case, w, st):
    res = go(case, w, case['faults'])
    dmg = case.get('dmg') or {}
    dk = tuple((r, tuple(o[0] for o in ops)) for r, ops in sorted(dmg.items()))
    text = R.ANSI.sub('', res['stderr'].decode(errors='replace'))
    err = next((x for x in text.splitlines() if x.startswith('ERROR')), '')
    st.case((opts_sig(case), bool(case.get('api')), dk, reach(res), res['code'], err[:24]), bool(res['fired'] or dmg), sample(case, res))
    where = f'{dk} {reach(res)}'
    if res['code'] in (97, 98):
        st.count('cpu limit (C10)')
        return
    mapfault = any(f[3] in ('open', 'read') and f[4] in ('a.map', 'b.map') for f in res['fired'])
    if case.get('api'):
        for op, (r, _) in zip(case['api'], res['steps'][0]['api']):
            if r[0] == 'exc' and not r[2]:
                raise Violation('api-exception', f'{op[0]}() raised {r[1]} ({r[3]}) instead of MemMapException, after {where}')
            st.count('api ' + r[0])
        if mapfault and all(r[0][0] == 'ok' for r in res['steps'][0]['api']):
            raise Violation('silent', f'an API call returned a map although its link map could not be read: {where}')
        return
    s = res['steps'][0]
    if s['exc'] or 'Traceback' in text:
        raise Violation('traceback', f'uncaught {s["exc"]} after {where}: {text.strip()[-300:]!r}')
    if res['code'] == 0:
        st.count('report from what is left')
        if mapfault:
            raise Violation('silent', f'status 0 although the link map could not be read: {where}')
        for side, use in (('a', True), ('b', '--diff' in case['argv'] and '--archive-dependencies' not in case['argv'])):
            if use and side in case['fw'] and dmg.get(f'{side}.map'):
                data = S.emit(case, side)[S.paths(case, side)['map']]
                heads = [x.rstrip() for x in data.decode(errors='replace').splitlines()]
                for h in ('Memory Configuration', 'Linker script and memory map'):
                    if not any(x.startswith(h) for x in heads):
                        raise Violation('silent', f'status 0 although the link map has no "{h}" part: {where}')
                at = next(k for k, x in enumerate(heads) if x.startswith('Memory Configuration'))
                if not any(x.startswith('Name') for x in heads[at:]):
                    raise Violation('silent', f'status 0 although there is no table below "Memory Configuration" in the link map: {where}')
        return
    if res['code'] != 1:
        raise Violation('status', f'exit status {res["code"]} instead of 1 after {where}: {text[-200:]!r}')
    if not err:
        raise Violation('undiagnosed', f'exit status 1 without a message beginning with ERROR after {where}: {text[-200:]!r}')
    st.count('diagnosed failure')
