"""Seeded exploration: scenarios of one property are generated from (VERIF_SEED, property, index), judged in parallel
workers, violations are minimised and written as replay files, and the evidence file is produced from what was counted."""
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import prng, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, cls, text):
        super().__init__(text)
        self.cls = cls
        self.text = text


class Stats:
    def __init__(self):
        self.n = {}
        self.sigs = set()
        self.samples = []
        self.evals = 0
        self.nontrivial = 0

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def case(self, sig, nontrivial=True, sample=None):
        self.evals += 1
        if nontrivial:
            self.sigs.add(hashlib.sha256(repr(sig).encode()).digest()[:8])
            if sample is not None and len(self.samples) < 3:
                self.samples.append(sample)


def scratch_base():
    d = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='vsim-', dir=d)


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: ') and f'property={pid} ' in line:
                kv = dict(w.split('=', 1) for w in line.split() if '=' in w)
                out.append((kv.get('class', ''), kv.get('match', ''), line[len('known: '):]))
    return out


def judge_safe(prop, case, w, st=None):
    """Violation or None; harness errors propagate."""
    try:
        prop.judge(case, w, st or Stats())
    except Violation as v:
        return v
    return None


def minimise(prop, case, v, w, budget=160, seconds=90):
    end = time.monotonic() + seconds
    tries = [0]

    def holds(c):
        if tries[0] >= budget or time.monotonic() > end:
            return None
        tries[0] += 1
        try:
            x = judge_safe(prop, c, w)
        except Exception:
            return None
        return x if x is not None and x.cls == v.cls else None

    best = json.loads(json.dumps(case))
    changed = True
    while changed and tries[0] < budget and time.monotonic() < end:
        changed = False
        for cand in shrinks(best, prop):
            x = holds(cand)
            if x is not None:
                best, v, changed = cand, x, True
                break
    return best, v, tries[0]


def _list_shrinks(lst):
    n = len(lst)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k :]
        k //= 2


def shrinks(case, prop):
    """Smaller scenarios, coarse first."""
    if hasattr(prop, 'shrinks'):
        yield from prop.shrinks(case)
    for key in ('faults', 'steps', 'ops', 'script', 'schedule', 'threads'):
        if isinstance(case.get(key), list) and case[key]:
            for s in _list_shrinks(case[key]):
                if s or key in ('faults', 'schedule'):
                    yield dict(case, **{key: s})
    for key in ('dmg',):
        for role, ops in (case.get(key) or {}).items():
            for s in _list_shrinks(ops):
                yield dict(case, **{key: dict(case[key], **{role: s})})
    av = case.get('argv')
    if av:
        i = 1
        while i < len(av):
            n = 2 if av[i] in ('--format', '--diff', '--sort', '-F', '-o', '--output-file', '--archive-details') else 1
            if av[i] not in ('-o', '--output-file', '--format'):
                c = dict(case, argv=av[:i] + av[i + n :])
                if av[i] == '--diff' and 'b' in case['fw']:
                    c['fw'] = {'a': case['fw']['a']}
                yield c
            i += n
    for side, fw in case.get('fw', {}).items():
        for key in ('sections', 'crt', 'regions', 'rom_syms'):
            for s in _list_shrinks(fw[key]):
                if s or key != 'regions':
                    yield dict(case, fw=dict(case['fw'], **{side: dict(fw, **{key: s})}))
        for i, sec in enumerate(fw['sections']):
            for s in _list_shrinks(sec['items']):
                ns = fw['sections'][:i] + [dict(sec, items=s)] + fw['sections'][i + 1 :]
                yield dict(case, fw=dict(case['fw'], **{side: dict(fw, sections=ns)}))


def write_replay(pid, case, v, seed, index, note):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': pid, 'class': v.cls, 'violation': v.text, 'seed': seed, 'index': index, 'minimiser': note, 'case': case}
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f'{pid}-{v.cls}-{h}.json')
    with open(p, 'w') as f:
        json.dump(body, f, indent=1)
    return p


def worker(prop, pid, seed, wi, nw, total, base, deadline, rfd_out, only=None):
    st = Stats()
    w = world.World(base, wi)
    out = {'violations': [], 'error': None, 'done': 0, 'digests': []}
    known = load_known(pid)
    seen_known = set()
    trace = hashlib.sha256()
    try:
        world.preload()
        idx = only if only is not None else range(wi, total, nw)
        for i in idx:
            if time.monotonic() > deadline:
                out['timeout'] = True
                break
            rng = prng.stream(seed, pid, i)
            h = hashlib.sha256()
            w.begin()
            for case in prop.gen(rng, w, i):
                h.update(json.dumps(case, sort_keys=True).encode())
                v = judge_safe(prop, case, w, st)
                h.update((v.cls if v else 'ok').encode())
                if v is None:
                    continue
                k = next((k for k in known if k[0] == v.cls and (not k[1] or k[1] in v.text)), None)
                if k is not None:
                    seen_known.add(k[2])
                    continue
                small, v2, tries = minimise(prop, case, v, w)
                p = write_replay(pid, small, v2, seed, i, f'{tries} candidate scenarios tried')
                out['violations'].append((i, v2.cls, v2.text, p))
                break
            h.update(w.events.digest())
            out['digests'].append((i, h.hexdigest()[:16]))
            out['done'] += 1
            if out['violations']:
                break
    except BaseException:
        out['error'] = traceback.format_exc()
    out.update(stats=st.n, sigs=st.sigs, samples=st.samples, evals=st.evals, runs=w.runs, lines=w.lines, ops=w.ops,
               faults=w.fault_counts, known=seen_known)
    try:
        w.close()
    except Exception:
        pass
    data = pickle.dumps(out, 4)
    v = memoryview(data)
    while v:
        v = v[os.write(rfd_out, v[:65536]):]
    os.close(rfd_out)


def explore(prop, pid, seed, tier, nw=None, total=None, digests=False):
    t0 = time.monotonic()
    nw = nw or int(os.environ.get('VERIF_WORKERS', '8'))
    total = total or int(os.environ.get('VERIF_RUNS', '0')) or prop.RUNS[tier]
    limit = {'quick': 420, 'thorough': 3000}[tier]
    base = scratch_base()
    procs = []
    import select

    try:
        for wi in range(nw):
            r, wfd = os.pipe()
            pid_ = os.fork()
            if pid_ == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    worker(prop, pid, seed, wi, nw, total, base, t0 + limit, wfd)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(wfd)
            procs.append([pid_, r, []])
        open_fds = {p[1]: p for p in procs}
        hard = t0 + limit + 420
        while open_fds:
            ready, _, _ = select.select(list(open_fds), [], [], max(0.1, hard - time.monotonic()))
            if not ready:
                raise world.HarnessError('workers did not finish')
            for fd in ready:
                c = os.read(fd, 1 << 20)
                if c:
                    open_fds[fd][2].append(c)
                else:
                    os.close(fd)
                    del open_fds[fd]
        results = []
        for p in procs:
            os.waitpid(p[0], 0)
            data = b''.join(p[2])
            if not data:
                raise world.HarnessError('a worker died')
            results.append(pickle.loads(data))
    finally:
        for p in procs:
            try:
                os.killpg(p[0], signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(base, ignore_errors=True)
    wall = time.monotonic() - t0
    merged = {'stats': {}, 'faults': {}, 'sigs': set(), 'samples': [], 'violations': [], 'known': set(), 'errors': [], 'digests': []}
    for k in ('evals', 'runs', 'lines', 'ops', 'done'):
        merged[k] = sum(r[k] for r in results)
    for r in results:
        for a in ('stats', 'faults'):
            for k, n in r[a].items():
                merged[a][k] = merged[a].get(k, 0) + n
        merged['sigs'] |= r['sigs']
        merged['samples'] += r['samples'][:1]
        merged['violations'] += r['violations']
        merged['known'] |= r['known']
        merged['digests'] += r['digests']
        if r['error']:
            merged['errors'].append(r['error'])
    merged['digests'].sort()
    merged['violations'].sort()
    merged['wall'] = wall
    return merged


def evidence(prop, pid, seed, tier, m):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    hours = max(m['wall'], 1e-3) / 3600
    cov = {
        'evaluations': m['evals'],
        'distinct_nontrivial': len(m['sigs']),
        'rule': prop.RULE,
        'samples': m['samples'][:4] or [{'note': 'no case completed'}],
        'simulated_processes': m['runs'],
        'seeds': m['done'],
        'simulated_processes_per_hour': int(m['runs'] / hours),
        'seeds_per_hour': int(m['done'] / hours),
        'simulated_time': {'package_lines_stepped': m['lines'], 'seam_operations': m['ops'],
                           'note': 'the package reads no clock; simulated time is counted in package source lines executed under the line '
                                   'scheduler and in operations at the seams'},
        'faults_injected': dict(sorted(m['faults'].items())),
        'probes': dict(sorted(m['stats'].items())),
        'real_code': 'all of esp_idf_size from /repo (CLI entry point, parsers, formatters), rich, rich_click, click, PyYAML, esp_pylib, '
                     'CPython io/json/pathlib on a scratch file system',
        'stubbed': prop.STUBS,
        'event_log_digest': hashlib.sha256(repr(m['digests']).encode()).hexdigest()[:16],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.LEVEL, 'coverage': cov, 'assumptions': prop.ASSUMES,
          'wall_s': round(m['wall'], 2), 'violations': len(m['violations'])}
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(p + '.tmp', p)


STUBS = ['kernel file-system calls (real calls on a scratch directory, failed, shortened or cut by the fault plan)',
         'stdout/stderr (byte sinks that can fail)', 'process death and interrupts (delivered at chosen operations or lines)']


def main(prop, pid, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--index', type=int)
    ap.add_argument('--digests', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if a.replay:
        with open(a.replay) as f:
            body = json.load(f)
        base = scratch_base()
        try:
            world.preload()
            w = world.World(base, 0)
            v = judge_safe(prop, body['case'], w)
            w.close()
        finally:
            shutil.rmtree(base, ignore_errors=True)
        if v is None:
            print(f'replay of {a.replay}: property {pid} holds')
            return 0
        print(f'{v.cls}: {v.text}')
        print(f'VIOLATION property={pid} replay={os.path.abspath(a.replay)}')
        return 1
    m = explore(prop, pid, seed, tier, a.workers, a.runs)
    for e in m['errors']:
        print('HARNESS ERROR\n' + e, file=sys.stderr)
    evidence(prop, pid, seed, tier, m)
    if a.digests:
        for d in m['digests']:
            print(*d)
    for k in sorted(m['known']):
        print('KNOWN-FINDING: ' + k)
    print(f'{pid}: {m["done"]} seeds, {m["evals"]} scenarios judged, {m["runs"]} simulated processes, {len(m["sigs"])} distinct, '
          f'faults {sum(m["faults"].values())}, {m["wall"]:.1f} s')
    print('probes: ' + json.dumps(dict(sorted(m['stats'].items()))))
    print('faults: ' + json.dumps(dict(sorted(m['faults'].items()))))
    if m['violations']:
        for i, cls, text, p in m['violations'][:5]:
            print(f'seed {seed} index {i}: {cls}: {text}'[:1500])
            print(f'VIOLATION property={pid} replay={p}')
        return 1
    if m['errors']:
        return 2
    return 0
