"""C06: failures leave no residue - the next run is unaffected."""
import pickle

from sim import firmware as F
from sim import scenario as S
from .common import *

RUNS = {'quick': 900, 'thorough': 12000}
LEVEL = 'exploration'
RULE = ('one case = one history of 2-6 command line runs and API calls (own options, destinations and faults each: errno, short I/O, full disk, '
        'interrupt, allocation failure, process death; rebuilds between steps) in one process or several over the same directory; every fault-free step is compared '
        'with the same step as the first thing a fresh process does on fresh files; distinct by (step kinds and options, faults fired, outcomes)')
ASSUMES = ['a MapFile or Elf object handed to several get() calls is used with the same use_dwarf value',
           'messages printed by API calls are not part of their result']


def _argv_pool(rng, base):
    fmt = rng.choice(['table', 'csv', 'json2', 'raw', 'tree', 'dot'])
    av = ['@a' if 'b' not in base['fw'] or rng.random() < 0.7 else '@b', '--format', fmt]
    k = rng.choice(S.KINDS)
    if k == 'deps' or fmt == 'dot':
        av.append('--archive-dependencies')
        if rng.random() < 0.4:
            av.append('--dep-symbols')
    elif k == 'archives':
        av.append('--archives')
    elif k == 'files':
        av.append('--files')
    elif k == 'symbols':
        av += ['--archive-details', rng.choice(base['fw']['a']['archives'] + ['(exe)']).rsplit('/', 1)[-1]]
    if 'b' in base['fw'] and rng.random() < 0.4:
        av += ['--diff', '@b' if av[0] == '@a' else '@a']
    for o, p in (('--unify', 0.2), ('--no-abbrev', 0.25), ('--show-unused', 0.2), ('--use-flash-size', 0.2), ('--show-unchanged', 0.3),
                 ('--sort-diff', 0.1), ('--sort-reverse', 0.15), ('--no-color', 0.15), ('--force-terminal', 0.2), ('--debug', 0.12), ('-q', 0.12),
                 ('--lto', 0.15)):
        if rng.random() < p:
            av.append(o)
    if rng.random() < 0.15:
        av += ['--sort', rng.choice(['1', '2', '-1', 'nosuch', '99'])]
    if rng.random() < 0.15:
        av += ['-F', rng.choice(['*main*', 'lib*', '*'])]
    if rng.random() < 0.5:
        av += ['-o', '@o']
    if rng.random() < 0.05:
        av += ['--bogus']
    return av


def api_step(rng, base):
    ops = []
    have = []
    for n in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.5 or not have:
            side = rng.choice(sorted(base['fw']))
            v = f'm{n}'
            ops.append(['get', v, S.paths(base, side)['map'], rng.random() < 0.7, rng.choice([None, True, False]), rng.choice(['plain', 'default', 'objs', 'objs'])])
            have.append(v)
        elif r < 0.7:
            v = f'd{n}'
            ops.append(['diff', v, rng.choice(have), rng.choice(have)])
        elif r < 0.85:
            ops.append(['unify', rng.choice(have)])
        else:
            ops.append([rng.choice(['unused', 'flash']), rng.choice(have)])
    if rng.random() < 0.5:
        ops += [[o[0], o[1] + 'x'] + o[2:] if o[0] in ('get', 'diff') else o for o in ops if o[0] == 'get']
    return ops


def mk(rng, base):
    if rng.random() < 0.25:
        return {'api': api_step(rng, base)}
    return {'argv': _argv_pool(rng, base)}


def gen_reuse(rng, w):
    """One process keeps Elf (and MapFile) objects over calls that fail or are interrupted."""
    fw = {'a': F.gen(rng, {'lto': True} if rng.random() < 0.6 else None)}
    case = {'fw': fw, 'have': {}, 'argv': ['@a']}
    for k in ('pd', 'sdk'):
        if rng.random() < 0.1:
            case['have'][f'a.{k}'] = False
    how = rng.choice(['elf', 'elf', 'objs'])
    dw = rng.choice([True, True, None, False])
    ops = []
    for n in range(rng.randint(2, 5)):
        ops.append(['get', f'm{n}', S.paths(case, 'a')['map'], rng.random() < 0.7, dw if how == 'objs' else rng.choice([True, True, None, False]), how])
    g = run_reuse(case, ops, (), w)
    marks = [0] + g['steps'][0]['marks']
    for _ in range(5):
        if how == 'elf' and rng.random() < 0.6:
            k = rng.randrange(len(ops) - 1) if rng.random() < 0.4 else 0
            fs = [{'line': rng.randint(marks[k] + 1, max(marks[k] + 1, marks[k + 1])), 'do': rng.choice(['intr', 'mem'])}]
        else:
            fs = [pick_input_fault(rng, g)]
        yield dict(case, ops=ops, faults=[f for f in fs if f])


def run_reuse(case, ops, faults, w):
    return w.run(S.files(case), S.request(case, w.root, faults, steps=[{'api': ops}], lines=True), cache=not faults)


def judge_reuse(case, w, st):
    ops = case['ops']
    res = run_reuse(case, ops, case['faults'], w)
    s = res['steps'][0]
    st.case(('reuse', tuple(map(repr, ops)), reach(res), tuple(r[0][0] for r in s['api'])), bool(res['fired']), {'ops': ops, 'faults': case['faults']})
    for k, op in enumerate(ops):
        if k and s['hits'][k] == s['hits'][k - 1] and s['hits'][k] == len(case['faults']):
            g = run_reuse(case, [op[:5] + ['plain']], (), w)['steps'][0]['api'][0]
            r, blob = s['api'][k]
            if r != g[0] or (r[0] == 'ok' and pickle.loads(blob)[op[1]] != pickle.loads(g[1])[op[1]]):
                raise Violation('residue', f'get() number {k} on the same objects after {reach(res)} in an earlier call: {r!r} instead of {g[0]!r}, or another map')
            st.count('clean call on reused objects')


def gen(rng, w, i):
    if rng.random() < 0.25:
        yield from gen_reuse(rng, w)
        return
    base = S.gen_case(rng, out=True, diff=rng.random() < 0.6, extras=False)
    base.pop('cwd', None)
    base['argv'] = ['@a']
    # a process with settings of its own, which the runs have to leave alone
    base['umask'] = rng.choice([0o022, 0o002, 0o027, 0o077])
    if rng.random() < 0.2:
        base['reclimit'] = rng.choice([900, 3000])
    if base['prior'] and base['prior'][0] == 'dir':
        base['prior'] = None
    if rng.random() < 0.3:
        base['dmg'] = {'b.map': [['trunc', rng.randrange(4000)]]} if 'b' in base['fw'] else {}
    for _ in range(3):
        steps = [mk(rng, base) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.4:
            # the very same step again after everything else
            steps.append(dict(steps[rng.randrange(len(steps))]))
        elif rng.random() < 0.3:
            steps.append(dict(steps[0]))
        for s in steps[:-1]:
            if rng.random() < 0.7:
                g = alone(base, s, w)
                r = rng.random()
                f = None
                if r < 0.35:
                    f = pick_input_fault(rng, g)
                elif r < 0.7:
                    if g['lines']:
                        f = {'line': rng.randint(1, g['lines']), 'do': rng.choice(['intr', 'mem', 'intr', 'mem', 'crash'])}
                else:
                    ops = [(k, r2, n) for k, r2, n, _ in g['log'] if not is_input(r2)]
                    if ops:
                        k, r2, n = rng.choice(ops)
                        f = {'kind': k, 'role': r2, 'nth': n, 'do': rng.choice(WRITE_ERR + ['intr', 'mem'])}
                        if k == 'write' and rng.random() < 0.4:
                            f.update(do='partial', n=rng.choice([0, 1, 100]))
                        if rng.random() < 0.3:
                            f['persist'] = True
                if f:
                    s['faults'] = [f]
        c = dict(base)
        if rng.random() < 0.4:
            # a rebuild (or a clean) between two steps
            c['v1'] = {s: S.gen_variant(rng, fw) if rng.random() < 0.6 else F.gen(rng, {'target': fw['target'], 'proj': fw['proj'], 'lto': fw['lto']})
                       for s, fw in base['fw'].items()}
            for s in steps[1:]:
                if rng.random() < 0.5:
                    s['rebuild'] = [[rng.choice(sorted(base['fw'])) + '.' + rng.choice(['map', 'elf', 'sdk', 'pd']), rng.choice([0, 1, 1, 1, None])]
                                    for _ in range(rng.choice([1, 2, 4]))]
        mode = rng.random()
        for p, s in zip(steps, steps[1:]):
            # what a failed write leaves in the interpreter's own stream buffers is not the tool's
            if any(f.get('role') in ('stdout', 'stderr') for f in p.get('faults', [])):
                s['new'] = True
            if mode < 0.2 or (mode < 0.4 and rng.random() < 0.5):
                s['new'] = True
        yield dict(c, steps=steps)


def rebuilt(case, s, now):
    """What the rebuild in front of step s changes on disk, given the build files that are there now; updates `now`."""
    put = {}
    for name, ver in s.get('rebuild', []):
        side, part = name.split('.')
        rel = S.paths(case, side)[part]
        data = None
        if ver is not None:
            data = S.emit(case if ver == 0 else dict(case, fw=case['v1'], have={}, dmg={}), side).get(rel)
        if data is None:
            if rel not in now:
                continue
            now.pop(rel, None)
        else:
            now[rel] = data
        put[rel] = data
    return put


def resolve(case, w, s):
    out = {'faults': s.get('faults', [])}
    if s.get('put'):
        out['put'] = s['put']
    if 'api' in s:
        out['api'] = s['api']
    else:
        out['argv'] = S.argv(dict(case, cwd=''), w.root, s['argv'])
    return out


def alone(case, s, w, files=None):
    s = {k: v for k, v in s.items() if k not in ('faults', 'new', 'put', 'rebuild')}
    return w.run(S.files(case) if files is None else files, S.request(case, w.root, (), steps=[resolve(case, w, s)], lines=True, fds=True), cache=True)


def result(case, s, r, tree, w):
    if 'api' in s:
        return [(a, b and pickle.loads(b)) for a, b in r['api']]
    e = None
    if '@o' in s['argv']:
        e = out_of({'tree': tree}, case)
        e = w.norm(e[2]) if e is not None and e[0] == 'f' else e
    return [r['exit'], r['exc'], r['stdout'], r['stderr'], e]


def judge(case, w, st):
    if 'ops' in case:
        judge_reuse(case, w, st)
        return
    steps = case['steps']
    i = 0
    first = True
    log = []
    outs = []
    files = S.files(case)
    now = {rel: d for rel, d in files.items() if any(rel in S.paths(case, x).values() for x in case['fw'])}
    disk = []
    new = []
    for s in steps:
        put = rebuilt(case, s, now)
        new.append(dict(s, put=put))
        d = {rel: x for rel, x in files.items() if not any(rel in S.paths(case, y).values() for y in case['fw'])}
        d.update(now)
        disk.append(d)
    steps = new
    while i < len(steps):
        j = i + 1
        while j < len(steps) and not steps[j].get('new'):
            j += 1
        group = steps[i:j]
        res = w.run(S.files(case), S.request(case, w.root, (), steps=[resolve(case, w, s) for s in group], lines=True, fds=True, snap_steps=True),
                    keep=not first)
        first = False
        done = res['steps']
        log += [f[2:] for f in res['fired']]
        for k, s in enumerate(group):
            if k >= len(done):
                break
            outs.append((s, done[k], disk[i + k]))
        if len(done) < len(group):
            # the process died in this step; the next step starts a new process
            st.count('process death')
            i += len(done) + 1
        else:
            i = j
    st.case((tuple(('api' if 'api' in s else tuple(a for a in s['argv'] if a[0] != '@'), bool(s.get('new')), tuple(map(tuple, s.get('rebuild', ())))) for s in steps), tuple(log)), True,
            {'steps': [s.get('argv') or s['api'] for s in steps], 'fired': log})
    hist = []
    for s, r, d in outs:
        if r.get('fds') and not any(f.get('role') in ('stdout', 'stderr') for f in s.get('faults', [])):  # rich opens /dev/null on EPIPE
            raise Violation('descriptor-leak', f'{r["fds"]} descriptor(s) stay open after {brief(s)}, history {hist}')
        if r.get('settings') and not any('line' in f for f in s.get('faults', [])):
            raise Violation('settings', f'{", ".join(r["settings"])} of the process changed for good by {brief(s)}, history {hist}')
        if not s.get('faults') and hist:
            g = alone(case, s, w, d)
            want = result(case, s, g['steps'][0], g['tree'], w)
            got = result(case, s, r, r['tree'], w)
            if not ('api' in s) and want[0] != 0:
                # a run that fails does not define the output path
                want[4] = got[4] = None
            if got != want:
                raise Violation('residue', f'after {hist} the fault-free step {brief(s)} differs from a fresh process: ' + diff(got, want))
            st.count('clean step after history')
        hist.append((brief(s), [f['do'] for f in s.get('faults', [])]))


def brief(s):
    return ' '.join(s['argv']) if 'argv' in s else 'API ' + ' '.join(o[0] for o in s['api'])


def diff(got, want):
    names = ['exit status', 'exception', 'stdout', 'stderr', 'output file']
    if len(got) == 5 and len(want) == 5 and isinstance(got[0], int):
        for n, a, b in zip(names, got, want):
            if a != b:
                return f'{n}: ' + (first_diff(a, b) if isinstance(a, bytes) and isinstance(b, bytes) else f'{a!r} instead of {b!r}')
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            if a[0] != b[0]:
                return f'API call {k}: {a[0]!r} instead of {b[0]!r}'
            return f'API call {k}: another map'
    return f'{len(got)} results instead of {len(want)}'


def shrinks(case):
    if 'ops' in case:
        return
    for k, s in enumerate(case['steps']):
        if 'api' in s:
            for j in range(len(s['api'])):
                yield dict(case, steps=case['steps'][:k] + [dict(s, api=s['api'][:j] + s['api'][j + 1:])] + case['steps'][k + 1:])
        if s.get('faults'):
            yield dict(case, steps=case['steps'][:k] + [{x: y for x, y in s.items() if x != 'faults'}] + case['steps'][k + 1:])
        if s.get('rebuild'):
            yield dict(case, steps=case['steps'][:k] + [{x: y for x, y in s.items() if x != 'rebuild'}] + case['steps'][k + 1:])
        if s.get('new'):
            yield dict(case, steps=case['steps'][:k] + [{x: y for x, y in s.items() if x != 'new'}] + case['steps'][k + 1:])
