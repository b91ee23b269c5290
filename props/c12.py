"""C12: every delivered report accounts for every byte exactly once."""
import itertools
import os
import pickle

from sim import firmware as F
from sim import model as M
from sim import report as R
from sim import scenario as S
from .c02 import dest
from .c06 import _argv_pool, api_step
from .c09 import where
from .common import *

RUNS = {'quick': 2000, 'thorough': 20000}
LEVEL = 'exploration'
RULE = ('one case = one simulated history: earlier runs and API calls in the same process (some failing), rebuilds between them, then one run or a '
        'sequence of API calls on a random build whose optional inputs exist, are absent, or cannot be read, with short reads; the report (all '
        'kinds and formats) or the maps are parsed and compared with the reference model of the firmware description; distinct by '
        '(options, history, faults fired, optional inputs, outcome)')
ASSUMES = ['the reference model (sim/model.py) defines the numbers; it is computed from the firmware description, not from the emitted files',
           'the quirks listed in DESIGN.md are part of the model: padding belongs to the preceding input section and is not counted as archive size, '
           'input sections behind the last ELF symbol have no symbol entry',
           'requests the tool refuses deliver no report and are not judged']


def strip(av, flags=('--debug',), valued=('-F',)):
    out, i = [], 0
    while i < len(av):
        if av[i] in valued:
            i += 2
            continue
        if av[i] not in flags:
            out.append(av[i])
        i += 1
    return out


def gen(rng, w, i):
    case = S.gen_case(rng)
    case['argv'] = strip(case['argv'])
    if rng.random() < 0.25:
        case['argv'] = [a for a in case['argv'] if a not in ('--no-lto', '--lto')] + ['--lto']
    for s in case['fw']:
        for k in ('pd', 'elf', 'sdk'):
            if rng.random() < 0.15:
                case['have'][f'{s}.{k}'] = False
    if 'b' in case['fw'] and rng.random() < 0.5:
        case['have'] = {}
    yield dict(case, mode='cli', hist=[], faults=[])
    for n in range(4):
        c = dict(case, hist=[], faults=[])
        c['mode'] = 'api' if rng.random() < 0.35 else 'cli'
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                h = {'api': api_step(rng, case)} if rng.random() < 0.3 else {'argv': _argv_pool(rng, case)}
                h['argv' if 'argv' in h else 'api'] = [a for a in h.get('argv', h.get('api')) if a not in ('-o', '@o')]
                if rng.random() < 0.3:
                    h['faults'] = [{'line': rng.randint(1, 3000), 'do': rng.choice(['intr', 'mem'])}]
                c['hist'].append(h)
            if rng.random() < 0.5:
                # the earlier runs saw another version of the build
                c['v0'] = {s: S.gen_variant(rng, fw) if rng.random() < 0.6 else F.gen(rng, {'target': fw['target'], 'proj': fw['proj'], 'lto': fw['lto']})
                           for s, fw in case['fw'].items()}
        if c['mode'] == 'api':
            c['ops'] = ops(rng, case)
        if rng.random() < 0.6:
            g = go(dict(c, hist=[]), w)
            for _ in range(rng.choice([1, 1, 2])):
                r = [x for x in {e[1] for e in g['log']} if x[-4:] in ('.elf', 'a.pd', 'b.pd', '.sdk')]
                if rng.random() < 0.7 and r:
                    role = rng.choice(sorted(r))
                    kind = rng.choice(sorted({e[0] for e in g['log'] if e[1] == role and e[0] in INPUT_KINDS} or {'open'}))
                    c['faults'].append({'kind': kind, 'role': role, 'nth': 1, 'persist': True, 'do': rng.choice(READ_ERR)})
                else:
                    f = pick_input_fault(rng, g, kinds=('read',))
                    if f:
                        f.update(do='short', n=rng.choice([1, 3, 100]), persist=rng.random() < 0.5)
                        c['faults'].append(f)
        c['faults'].sort(key=lambda f: f['do'] == 'short')     # an unreadable file stays unreadable
        yield c


def ops(rng, case):
    out, have, plain = [], [], []
    for k in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.55 or not have:
            v = f'm{k}'
            out.append(['get', v, S.paths(case, rng.choice(sorted(case['fw'])))['map'], rng.random() < 0.75, rng.choice([None, True, False]),
                        rng.choice(['plain', 'plain', 'default', 'objs'])])
            have.append(v)
            plain.append(v)
        elif r < 0.8:
            v = f'd{k}'
            out.append(['diff', v, rng.choice(have), rng.choice(have)])
            have.append(v)
        elif r < 0.9:
            out.append(['unify', rng.choice(have)])
        else:
            out.append([rng.choice(['unused', 'flash']), rng.choice(plain)])
    return out


def go(case, w):
    steps = []
    for h in case['hist']:
        s = {'faults': h.get('faults', [])}
        if 'api' in h:
            s['api'] = h['api']
        else:
            s['argv'] = S.argv(dict(case, cwd=''), w.root, h['argv']) if case.get('paths') != 'abs' and not case.get('cwd') else S.argv(case, w.root, h['argv'])
        steps.append(s)
    last = {'faults': case['faults']}
    if case['mode'] == 'api':
        last['api'] = case['ops']
    else:
        last['argv'] = S.argv(case, w.root)
    files = S.files(case)
    if case.get('v0') and case['hist']:
        last['put'] = {}
        for side in case['fw']:
            new, old = S.emit(case, side), S.emit(dict(case, fw=case['v0']), side)
            for rel in new:
                if new[rel] is not None and old.get(rel) != new[rel] and old.get(rel) is not None:
                    files[rel] = old[rel]
                    last['put'][rel] = new[rel]
    steps.append(last)
    return w.run(files, S.request(case, w.root, (), steps=steps, lines=any(f.get('line') for h in case['hist'] for f in h.get('faults', []))))


def envs(case, side, hit, root):
    """The ways the optional inputs of one side may have been seen."""
    base = R.env(case, side, root)
    h = [k for k in ('pd', 'elf', 'sdk') if f'{side}.{k}' in hit]
    out = []
    for n in range(len(h) + 1):
        for sub in itertools.combinations(h, n):
            e = dict(base, **{k: False for k in sub})
            e['elf'] = e['elf'] and e['pd']
            if e not in out:
                out.append(e)
    return out


def judge(case, w, st):
    res = go(case, w)
    hard = {f[4] for f in res['fired'] if f[2] != 'short'} if not case['hist'] else {f['role'] for f in case['faults'] if f['do'] != 'short'}
    sig = (case['mode'], opts_sig(case) if case['mode'] == 'cli' else tuple(o[0] for o in case['ops']),
           tuple('api' if 'api' in h else h['argv'][3:4] for h in case['hist']), bool(case.get('v0')), reach(res), tuple(sorted(case['have'])))
    if len(res['steps']) <= len(case['hist']):
        raise Violation('died', 'the process ended within the history')
    if case['mode'] == 'api':
        st.case(sig, True, {'ops': case['ops'], 'faults': case['faults'], 'hist': case['hist']})
        judge_api(case, w, st, res, hard)
        return
    r = res['steps'][-1]
    st.case(sig + (r['exit'],), True, sample(case, res, {'hist': [h.get('argv') or h['api'] for h in case['hist']]}))
    if r['exit'] != 0:
        st.count('no report')
        return
    o = R.options(case)
    text = dest(dict(res, stdout=r['stdout']), case)
    if text is None:
        return          # C02
    text = w.norm(text).decode('utf-8', 'replace')
    first, judged = None, 0
    for ea in envs(case, 'a', hard, '$ROOT'):
        for eb in envs(case, 'b', hard, '$ROOT') if 'b' in case['fw'] else [None]:
            try:
                exp = R.expected(case, o, ea, eb)
            except M.Refused:
                continue
            judged += 1
            try:
                c = R.compare(R.parsed(text, o, exp), exp[1])
            except R.Bad as e:
                c = f'unintelligible report: {e}'
            except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                c = f'unintelligible report: {type(e).__name__} {e}'
            if c is None:
                st.count(f'{exp[0]} {o["format"]}{" diff" if o["diff"] else ""}')
                return
            first = first or f'{exp[0]} report ({o["format"]}): {c}'
    if not judged:
        st.count('not defined')
        return
    raise Violation('numbers', f'{first}; faults {sorted(hard)}, after {len(case["hist"])} earlier steps')


def judge_api(case, w, st, res, hard):
    sides = {S.paths(case, s)['map']: s for s in case['fw']}
    want = {}                       # name -> list of acceptable maps
    for op, (r, blob) in zip(case['ops'], res['steps'][-1]['api']):
        pool = pickle.loads(blob)
        k = op[0]
        if r[0] != 'ok':
            st.count('no map')
            continue
        if k == 'get':
            s = sides[op[2]]
            load, dw = (op[3], op[4]) if op[5] != 'default' else (True, None)
            path = os.path.join(w.root, op[2])
            cands = []
            for e in envs(case, s, hard, w.root):
                use = bool(e['sdk'] and case['fw'][s]['lto']) if dw is None else dw
                try:
                    cands.append(M.memmap(case['fw'][s], e['elf'], e['pd'], load, use, path))
                except M.Refused:
                    pass
            if not cands:
                return
            want[op[1]] = cands
        elif k == 'diff':
            want[op[1]] = [M.clone(M.diff(a, b)) for a in want[op[2]] for b in want[op[3]]]
        else:
            for m in want[op[1]]:
                {'unify': M.unify, 'unused': M.remove_unused, 'flash': M.ignore_flash}[k](m)
        bad = [where(pool[op[1]], m) for m in want[op[1]]]
        if all(bad):
            raise Violation('numbers', f'{op}: {bad[0]}; faults {sorted(hard)}, after {len(case["hist"])} earlier steps')
        want[op[1]] = [m for m, b in zip(want[op[1]], bad) if not b]
        st.count('map after ' + k)
