"""C08: concurrent API callers do not interfere."""
import pickle

from sim import scenario as S
from sim import firmware as F
from .common import *

RUNS = {'quick': 330, 'thorough': 9000}
LEVEL = 'exploration'
RULE = ('one case = 2-4 threads of one process, each with its own history of get/diff/unify calls on maps of its own, run under the seeded baton '
        'scheduler that may switch threads at every source line of the package and every file operation (and decides who waits for a lock), some '
        'with I/O faults on their own files; every value returned is compared with the same thread running alone; non-trivial: at least two '
        'switches; distinct by (thread programs, switch sequence, outcomes)')
STUBS = STUBS + ['thread scheduler (one thread runs at a time; the seeded schedule decides who)', 'threading.Lock/RLock created by the package and its logger']
ASSUMES = ['switches happen at package source lines and at file operations, not inside a single bytecode or inside third-party code']
LAST = {}


def prog(rng, case, side):
    ops, have = [], []
    for n in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.6 or not have:
            v = f'm{n}'
            ops.append(['get', v, S.paths(case, side)['map'], rng.random() < 0.7, rng.choice([None, True, False]), rng.choice(['plain', 'default', 'objs'])])
            have.append(v)
        elif r < 0.8:
            v = f'd{n}'
            ops.append(['diff', v, rng.choice(have), rng.choice(have)])
            have.append(v)
        else:
            ops.append([rng.choice(['unify', 'unused', 'flash']), rng.choice(have)])
    if rng.random() < 0.3 and len(have) > 0:
        ops.append(['unify', rng.choice(have)])
    return ops


def gen(rng, w, i):
    n = rng.choice([2, 2, 2, 3, 4])
    opts = {'small': True}
    if rng.random() < 0.5:
        opts['target'] = rng.choice(F.TARGETS)
    fw = {s: F.gen(rng, opts) for s in 'abcd'[:n]}
    if rng.random() < 0.4:
        fw['b'] = S.gen_variant(rng, fw['a'])
    case = {'fw': fw, 'have': {}, 'argv': ['@a']}
    for s in fw:
        for k in ('elf', 'pd', 'sdk'):
            if rng.random() < 0.12:
                case['have'][f'{s}.{k}'] = False
        if rng.random() < 0.1:
            case.setdefault('dmg', {})[f'{s}.map'] = [['trunc', rng.randrange(6000)]]
    sides = sorted(fw)
    if rng.random() < 0.25:
        sides = ['a'] * n
    for _ in range(3):
        progs = [prog(rng, case, s) for s in sides]
        if rng.random() < 0.4:
            # the same calls in every thread
            progs = [[[o[0], o[1], S.paths(case, s)['map']] + o[3:] if o[0] == 'get' else o for o in progs[0]] for s in sides]
        faults = []
        if len(set(sides)) == n and rng.random() < 0.4:
            g = alone(case, progs[-1], [], w)
            f = pick_fault(rng, g, sides[-1])
            if f:
                faults.append(f)
        for _ in range(3):
            yield dict(case, threads=progs, sched=rng.getrandbits(32), rate=rng.choice([0.0005, 0.003, 0.02, 0.1, 0.5]), faults=faults)


def pick_fault(rng, g, side):
    ops = [(k, r, n) for k, r, n, _ in g['log'] if k in INPUT_KINDS and r.startswith(side + '.')]
    if not ops:
        return None
    role = rng.choice(sorted({r for _, r, _ in ops}))
    k, r, n = rng.choice([o for o in ops if o[1] == role])
    return {'kind': k, 'role': r, 'nth': n, 'do': rng.choice(READ_ERR), 'persist': rng.random() < 0.3}


def alone(case, ops, faults, w):
    return w.run(S.files(case), S.request(case, w.root, faults, steps=[{'api': ops}]), cache=True)


def judge(case, w, st):
    step = {k: case[k] for k in ('threads', 'sched', 'rate', 'schedule') if k in case}
    res = w.run(S.files(case), S.request(case, w.root, case['faults'], steps=[step], lines=True, simlocks=True))
    r = res['steps'][0]
    st.case((repr(case['threads']), tuple(r['switches'])), len(r['switches']) > 2,
            {'threads': case['threads'], 'switches': len(r['switches']), 'points': r['points'], 'faults': case['faults']})
    st.count('thread switches', len(r['switches']))
    st.count('scheduling points', r['points'])
    LAST['schedule'] = [list(x) for x in r['switches']]
    for t, ops in enumerate(case['threads']):
        want = alone(case, ops, case['faults'], w)['steps'][0]['api']
        got = r['api'][t]
        for k, op in enumerate(ops):
            a = got[k] if got is not None and k < len(got) else (('nothing',), None)
            b = want[k]
            if a[0] != b[0]:
                raise Violation('interference', f'thread {t} call {k} {op}: {a[0]!r} instead of {b[0]!r} under a schedule with {len(r["switches"])} switches')
            if a[1] != b[1] and (a[1] is None or pickle.loads(a[1]) != pickle.loads(b[1])):
                raise Violation('interference', f'thread {t} call {k} {op}: another memory map than alone, under a schedule with {len(r["switches"])} switches')
        st.count('thread results compared')


def shrinks(case):
    if 'schedule' not in case and LAST.get('schedule'):
        yield dict(case, schedule=LAST['schedule'])
    for t, ops in enumerate(case['threads']):
        for j in range(len(ops)):
            if len(ops) > 1:
                yield dict(case, threads=case['threads'][:t] + [ops[:j] + ops[j + 1:]] + case['threads'][t + 1:])
