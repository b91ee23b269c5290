"""Histories of API calls inside a simulated process, sequential or by several threads under the seeded scheduler."""
import os
import pickle
import random
import sys
import threading
import time
import traceback

_real_sleep = time.sleep
_real_lock = threading.Lock
_real_rlock = threading.RLock
_alloc = threading._allocate_lock


def call(pool, op, root):
    """Run one operation; returns ('ok', None) | ('exc', type name, is MemMapException, text)."""
    from esp_idf_size import mapfile, memorymap

    def path(p):
        return os.path.join(root, p)

    k = op[0]
    try:
        if k == 'get':
            _, var, p, ls, dw = op[:5]
            how = op[5] if len(op) > 5 else 'plain'
            if how == 'plain':
                pool[var] = memorymap.get(path(p), load_symbols=ls, use_dwarf=dw)
            elif how == 'default':
                pool[var] = memorymap.get(path(p))
            elif how == 'elf':
                # an Elf object kept and used again by later calls
                key = '.objs ' + p
                if pool.get(key) is None:
                    pool[key] = memorymap.get_elf(path(p))
                pool[var] = memorymap.get(path(p), ls, dw, None, pool[key])
            else:
                # explicit MapFile and Elf objects, kept and used again by later calls
                key = '.objs ' + p + str(dw)
                if key not in pool:
                    pool[key] = (mapfile.MapFile(path(p)), memorymap.get_elf(path(p)))
                m, e = pool[key]
                pool[var] = memorymap.get(path(p), ls, dw, m, e)
        elif k == 'diff':
            pool[op[1]] = memorymap.diff(pool[op[2]], pool[op[3]])
        elif k == 'unify':
            memorymap.unify(pool[op[1]])
        elif k == 'unused':
            memorymap.remove_unused(pool[op[1]])
        elif k == 'flash':
            memorymap.ignore_flash_size(pool[op[1]])
        elif k == 'poke':
            # the caller changes its own map in place, at every level
            _poke(pool[op[1]], op[2])
        elif k == 'drop':
            pool.pop(op[1], None)
        else:
            raise AssertionError(k)
    except KeyError as e:
        if e.args and isinstance(e.args[0], str) and e.args[0] in (op[1:4]):
            return ('skip', None)
        return ('exc', 'KeyError', False, _where(e))
    except memorymap.MemMapException as e:
        return ('exc', 'MemMapException', True, str(e))
    except mapfile.MapFileException as e:
        # documented for the MapFile constructor, not for get()
        return ('exc', 'MapFileException', k == 'get' and op[5:6] == ['objs'] and '.objs ' + op[2] + str(op[4]) not in pool, str(e))
    except (SystemExit, Exception) as e:
        return ('exc', type(e).__name__, False, _where(e))
    return ('ok', None)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return f'{e} at {os.path.basename(tb[-1].filename)}:{tb[-1].name}' if tb else str(e)


def _poke(m, n):
    rng = random.Random(n)
    m['image_size'] += rng.randint(1, 9)
    for t in m['memory_types'].values():
        t['size'] += rng.randint(1, 9)
        t['used'] += 1
        for s in t['sections'].values():
            s['size'] += rng.randint(1, 9)
            for a in s['archives'].values():
                a['size'] += 3
                for o in a['object_files'].values():
                    o['size'] += 2
                    for y in o['symbols'].values():
                        y['size'] += 1
        t['sections']['.poked'] = {'abbrev_name': '.poked', 'size': 1, 'size_diff': 0, 'archives': {}}


def plain(v):
    """A copy made of built-in containers only, whatever the package builds its maps from."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    return v


def public(pool):
    return {k: plain(v) for k, v in pool.items() if not k.startswith('.objs')}


def run(sim, step):
    if 'threads' in step:
        return run_threads(sim, step)
    pool = {}
    out = []
    marks = []
    hits = []
    sim.active = True
    try:
        for op in step['api']:
            try:
                r = call(pool, op, sim.root)
            except KeyboardInterrupt:
                r = ('intr', None)
            marks.append(sim.lines)
            hits.append(len(sim.fired))
            out.append((r, pickle.dumps(public(pool), 4) if step.get('pool', True) else None))
    finally:
        sim.active = False
    pool.clear()
    return {'exit': 0, 'api': out, 'marks': marks, 'hits': hits}


# ------------------------------------------------------------------------------------------------ threads


class SimLock:
    """threading.Lock whose waiting is decided by the scheduler."""

    def __init__(self, sched=None):
        self._owner = None
        self._count = 0

    reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = threading.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking or s is None:
                return False
            s.block(self)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


class Sched:
    """Only the thread holding the baton runs; at every package line and seam operation the seeded schedule may pass it on."""

    current = None

    def __init__(self, n, seed, rate, schedule=None):
        self.n = n
        self.rng = random.Random(seed)
        self.rate = rate
        self.batons = [_alloc() for _ in range(n)]
        for b in self.batons:
            b.acquire()
        self.alive = set(range(n))
        self.blocked = {}
        self.cur = 0
        self.points = 0
        self.switches = []
        self.ids = {}
        self.fixed = None if schedule is None else dict((int(a), int(b)) for a, b in schedule)
        self.done = _alloc()
        self.done.acquire()
        self.dead = False

    def me(self):
        return self.ids.get(threading.get_ident())

    def choose(self, others):
        """The schedule's decision at this point: a thread, or None to go on."""
        if self.fixed is not None:
            t = self.fixed.get(self.points)
            return t if t in others else None
        return self.rng.choice(others)

    def line(self):
        me = self.me()
        if me is None or me != self.cur:
            return
        self.points += 1
        if self.fixed is not None:
            if self.points not in self.fixed:
                return
        elif self.rng.random() >= self.rate:
            return
        others = sorted(self.ready() - {me})
        if not others:
            return
        t = self.choose(others)
        if t is not None:
            self.switch(me, t)

    def ready(self):
        return {t for t in self.alive if t not in self.blocked or not self.blocked[t].locked()}

    def switch(self, me, t):
        self.switches.append((self.points, t))
        self.cur = t
        self.batons[t].release()
        self.batons[me].acquire()
        self.blocked.pop(me, None)

    def block(self, lock):
        me = self.me()
        if me is None:
            raise RuntimeError('lock contended outside the scheduler')
        self.blocked[me] = lock
        r = sorted(self.ready() - {me})
        if not r:
            self.dead = True
            raise RuntimeError('deadlock')
        self.points += 1
        t = self.choose(r)
        self.switch(me, r[0] if t is None else t)

    def start(self):
        t = self.choose(sorted(self.alive))
        self.cur = 0 if t is None else t
        self.switches.append((0, self.cur))
        self.batons[self.cur].release()

    def finish(self, me):
        self.points += 1
        self.alive.discard(me)
        self.blocked.pop(me, None)
        r = sorted(self.ready())
        if not r:
            self.done.release()
            return
        t = self.choose(r)
        t = r[0] if t is None else t
        self.switches.append((self.points, t))
        self.cur = t
        self.batons[t].release()


def run_threads(sim, step):
    s = Sched(len(step['threads']), step['sched'], step.get('rate', 0.02), step.get('schedule'))
    results = [None] * s.n

    def body(i, ops):
        s.ids[threading.get_ident()] = i
        s.batons[i].acquire()
        pool = {}
        out = []
        try:
            for op in ops:
                r = call(pool, op, sim.root)
                out.append((r, pickle.dumps(public(pool), 4)))
        except BaseException as e:
            out.append((('exc', type(e).__name__, False, _where(e)), None))
        results[i] = out
        pool.clear()
        s.finish(i)

    sim_locks = threading.Lock, threading.RLock
    threading.Lock, threading.RLock = _real_lock, _real_rlock  # the threads themselves are the simulator's
    ts = [threading.Thread(target=body, args=(i, ops), daemon=True) for i, ops in enumerate(step['threads'])]
    Sched.current = s
    for t in ts:
        t.start()
    while len(s.ids) < s.n:
        _real_sleep(0.0002)
    threading.Lock, threading.RLock = sim_locks
    sim.sched = s
    sim.active = True
    s.start()
    s.done.acquire()
    sim.active = False
    sim.sched = None
    return {'exit': 0, 'api': results, 'switches': s.switches, 'points': s.points}
