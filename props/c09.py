"""C09: comparison and unification obey their definitions in any history."""
import pickle
import random

from sim import api as A
from sim import firmware as F
from sim import model as M
from sim import scenario as S
from .common import *

RUNS = {'quick': 2400, 'thorough': 15000}
LEVEL = 'exploration'
RULE = ('one case = one history of 3-12 API calls (get, diff, unify, in-place changes by the caller, drop) over a shared pool of memory maps of random '
        'builds, with I/O faults on some inputs and interrupts at some source lines; after every call the whole pool is compared with the '
        'reference model applied to the same history; distinct by (call sequence, faults fired)')
ASSUMES = ['the maps returned by get() are taken as they are (their numbers are judged by C12)',
           'a map whose unification was interrupted is not judged further']


def gen(rng, w, i):
    n = rng.choice([1, 2, 2, 3])
    fw = {s: F.gen(rng, {'small': True} if rng.random() < 0.6 else None) for s in 'abc'[:n]}
    if n > 1 and rng.random() < 0.6:
        fw['b'] = S.gen_variant(rng, fw['a'])
    case = {'fw': fw, 'have': {}, 'argv': ['@a']}
    for s in fw:
        if rng.random() < 0.2:
            case['have'][f'{s}.elf'] = False
    for _ in range(4):
        ops, maps, plain = [], [], []
        for k in range(rng.randint(3, 12)):
            r = rng.random()
            if len(maps) < 2 and r < 0.7 or r < 0.2 or not maps:
                v = f'm{k}'
                ops.append(['get', v, S.paths(case, rng.choice(sorted(fw)))['map'], rng.random() < 0.8, rng.choice([None, True, False]),
                            rng.choice(['plain', 'objs'])])
                maps.append(v)
                plain.append(v)
            elif r < 0.6:
                v = f'd{k}'
                if rng.random() < 0.2:
                    v = rng.choice(maps)
                ops.append(['diff', v, rng.choice(maps), rng.choice(maps)])
                if v not in maps:
                    maps.append(v)
                if v in plain:
                    plain.remove(v)
            elif r < 0.75:
                ops.append(['unify', rng.choice(maps)])
            elif r < 0.88:
                ops.append(['poke', rng.choice(maps), rng.randrange(1000)])
            elif plain:
                ops.append([rng.choice(['unused', 'flash']), rng.choice(plain)])
        faults = []
        r = rng.random()
        if r < 0.35:
            g = run_ops(case, ops, (), w)
            f = pick_input_fault(rng, g)
            if f:
                faults.append(f)
        elif r < 0.6:
            g = run_ops(case, ops, (), w)
            marks = [0] + g['steps'][0]['marks']
            spans = [(a, b, o[0]) for a, b, o in zip(marks, marks[1:], ops) if b > a]
            some = [x for x in spans if x[2] == 'diff'] if rng.random() < 0.6 else spans
            if some:
                a, b, _ = rng.choice(some)
                faults.append({'line': rng.randint(a + 1, b), 'do': rng.choice(['intr', 'intr', 'gc'])})
        yield dict(case, ops=ops, faults=faults)


def run_ops(case, ops, faults, w):
    return w.run(S.files(case), S.request(case, w.root, faults, steps=[{'api': ops}], lines=True))


def where(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f'{path}/{k} must not be there'
        for k in b:
            if k not in a:
                return f'{path}/{k} is missing'
        for k in a:
            r = where(a[k], b[k], f'{path}/{k}')
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return f'{path} is {a!r} instead of {b!r}'
    return None


def judge(case, w, st):
    res = run_ops(case, case['ops'], case['faults'], w)
    st.case((tuple(tuple(o[:1]) + tuple(x for x in o[1:4] if isinstance(x, str)) for o in case['ops']), reach(res)), len(case['ops']) > 1,
            {'ops': case['ops'], 'faults': case['faults']})
    want = {}
    for op, (r, blob) in zip(case['ops'], res['steps'][0]['api']):
        pool = pickle.loads(blob)
        k = op[0]
        if r[0] == 'exc' and k != 'get':      # how get() fails is C04
            raise Violation('exception', f'{op} raised {r[1]}: {r[3]}')
        if r[0] == 'ok':
            if k == 'get':
                want[op[1]] = pickle.loads(pickle.dumps(pool[op[1]]))
            elif k == 'diff':
                want[op[1]] = M.clone(M.diff(want[op[2]], want[op[3]]))
            elif k == 'unify':
                M.unify(want[op[1]])
            elif k == 'unused':
                M.remove_unused(want[op[1]])
            elif k == 'flash':
                M.ignore_flash(want[op[1]])
            elif k == 'poke':
                A._poke(want[op[1]], op[2])
            st.count(k)
        elif r[0] == 'intr':
            st.count('interrupted ' + k)
            if k not in ('get', 'diff'):
                for p in (pool, want):
                    p.pop(op[1], None)
                _check(pool, want, op)
                return
        _check(pool, want, op)
    st.count('maps judged', len(want))


def _check(pool, want, op):
    if pool.keys() != want.keys():
        raise Violation('pool', f'after {op}: maps {sorted(pool)} instead of {sorted(want)}')
    for v in want:
        d = where(pool[v], want[v])
        if d:
            who = 'its result' if v == op[1] else f'the unrelated map {v}' if v not in op[1:] else f'its argument {v}'
            raise Violation('definition', f'after {op}: in {who}, {d}')
