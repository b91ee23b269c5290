"""Simulated processes: each one is a forked child of a preloaded interpreter, behind the seams of seam.py, in a
scratch directory that is rebuilt for every run.  `World.run(request)` returns what a user could observe."""
import errno
import gc
import hashlib
import io
import os
import pickle
import resource
import runpy
import select
import shutil
import signal
import stat
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import seam

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'esp_idf_size')
BASE_ENV = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'COLUMNS': '80', 'LINES': '24'}
CODES = None
WALL = 240
CPU = 90


class HarnessError(Exception):
    pass


def preload():
    """Import the package and everything it needs into this process; children are forked from it."""
    import collections  # noqa
    from . import api  # noqa
    import fnmatch  # noqa
    import json  # noqa

    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-pycache', str(os.getpid()))
    for k in list(os.environ):
        if k not in ('TMPDIR',) and not k.startswith(('VERIF_', 'PYTHON')):
            del os.environ[k]
    os.environ.update(BASE_ENV)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import rich.console, rich.table, rich.tree, rich.markdown, rich_click, yaml, websockets.sync.client  # noqa
    import datetime, locale, threading, uuid, copy, tempfile as _t, glob, subprocess as _s, random  # noqa
    import esp_idf_size.main  # noqa

    if not os.path.samefile(os.path.dirname(esp_idf_size.main.__file__), PKG):
        raise HarnessError('package imported from ' + esp_idf_size.main.__file__)
    _warm()
    for m in ('rich.highlighter', 'rich.markup', 'rich.json', 'rich.box', 'rich.text', 'rich.panel', 'rich._null_file', 'rich.traceback',
              'rich._emoji_replace', 'rich._unicode_data', 'esp_pylib.logger', 'esp_pylib.excepthook', 'pygments', 'encodings.cp1252',
              'encodings.latin_1', 'encodings.ascii', 'encodings.idna', 'csv', 'linecache', 'ast'):
        try:
            __import__(m)
        except ImportError:
            pass
    gc.collect()
    global CODES
    CODES = seam.prepare(seam.codes(PKG))
    gc.freeze()


def _warm():
    """Throw-away runs in forked children tell which modules and regular expressions the libraries load lazily; they are loaded
    here, once.  No code of the package runs in this process."""
    import re

    from . import firmware as F, prng, scenario as S

    base = tempfile.mkdtemp(prefix='vsim-warm-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    mods, pats = set(), set()
    try:
        for n, extra in enumerate((['--help'], ['--format', 'table', '--debug', '-F', '*'], ['--format', 'json2', '--diff', '@b'], ['--format', 'tree', '-q', '--files'],
                                   ['--format', 'csv', '--archives', '-o', 'x'], ['--bogus'], ['--sort', 'zz'])):
            case = {'fw': {'a': F.gen(prng.stream(0, 'warm', n)), 'b': F.gen(prng.stream(0, 'warm', n))}, 'have': {}, 'argv': ['@a'] + extra}
            for rel, data in S.files(case).items():
                f = os.path.join(base, rel)
                os.makedirs(f if data is None else os.path.dirname(f), exist_ok=True)
                if data is not None:
                    with open(f, 'wb') as fd:
                        fd.write(data)
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    # the package may hang or grow, which is for the checks to find
                    resource.setrlimit(resource.RLIMIT_CPU, (5, 6))
                    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(30)
                    os.chdir(base)
                    sys.argv = ['x'] + S.argv(dict(case, paths='abs'), base)
                    sys.stdout, sys.stderr = io.TextIOWrapper(io.BytesIO()), io.TextIOWrapper(io.BytesIO())
                    old = set(sys.modules)
                    try:
                        runpy.run_module('esp_idf_size', run_name='__main__', alter_sys=True)
                    except BaseException:
                        pass
                    got = [sorted(set(sys.modules) - old), [(k[1], k[2]) for k in re._cache if k[0] is str]]
                    with os.fdopen(wfd, 'wb') as fd:
                        pickle.dump(got, fd)
                except BaseException:
                    pass
                finally:
                    os._exit(0)
            os.close(wfd)
            with os.fdopen(r, 'rb') as fd:
                data = fd.read()
            os.waitpid(pid, 0)
            if data:
                m, p = pickle.loads(data)
                mods.update(m)
                pats.update(p)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for m in sorted(mods):
        if not m.startswith('esp_idf_size'):
            try:
                __import__(m)
            except Exception:
                pass
    for p, f in sorted(pats):
        try:
            re.compile(p, f)
        except Exception:
            pass


# ----------------------------------------------------------------------------------------------- child side


def _cli(sim, step, last=True):
    """One command line invocation up to and including what the interpreter does at exit."""
    sys.argv = [os.path.join(PKG, '__main__.py')] + list(step['argv'])
    r = {'exit': 0, 'exc': None}
    sim.active = True
    try:
        try:
            runpy.run_module('esp_idf_size', run_name='__main__', alter_sys=True)
        except SystemExit as e:
            c = e.code
            if c is None:
                c = 0
            elif not isinstance(c, int):
                print(c, file=sys.stderr)
                c = 1
            r['exit'] = c & 0xFF
        except BaseException as e:
            r['exc'] = type(e).__name__
            r['exit'] = 130 if isinstance(e, KeyboardInterrupt) else 1
            try:
                sys.excepthook(*sys.exc_info())
            except BaseException:
                sim.sinks['stderr'] += b'Error in sys.excepthook'
        while last and EXIT:
            f, a, k = EXIT.pop()
            try:
                f(*a, **k)
            except SystemExit:
                pass
            except BaseException:
                traceback.print_exc()
        try:
            if sys.stdout is not None and not sys.stdout.closed:
                sys.stdout.flush()
        except BaseException as e:
            r['exit'] = 120
            r['flush'] = type(e).__name__
    finally:
        sim.active = False
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    return r


def _patch_ws(mode):
    import websockets.sync.client as c

    class Conn:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def send(self, *a, **k):
            if mode == 'die':
                raise ConnectionResetError(errno.ECONNRESET, 'connection reset by simulated IDE')

        def recv(self, *a, **k):
            raise TimeoutError('simulated')

        def close(self, *a, **k):
            pass

    def connect(*a, **k):
        if mode == 'refuse':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'refused by simulated IDE')
        if mode == 'hangup':
            raise EOFError('closed during handshake')
        return Conn()

    c.connect = connect
    for n, m in list(sys.modules.items()):
        if n.startswith('esp_pylib') and getattr(m, 'connect', None) is not None:
            m.connect = connect


def _patch_clock(off):
    import datetime

    real = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns', 'localtime', 'gmtime',
                                          'strftime', 'ctime')}
    time.time = lambda: real['time']() + off
    time.time_ns = lambda: real['time_ns']() + off * 10 ** 9
    time.monotonic = lambda: real['monotonic']() + abs(off)
    time.monotonic_ns = lambda: real['monotonic_ns']() + abs(off) * 10 ** 9
    time.perf_counter = lambda: real['perf_counter']() + abs(off)
    time.localtime = lambda t=None: real['localtime'](time.time() if t is None else t)
    time.gmtime = lambda t=None: real['gmtime'](time.time() if t is None else t)
    time.strftime = lambda f, t=None: real['strftime'](f, time.localtime() if t is None else t)
    time.ctime = lambda t=None: real['ctime'](time.time() if t is None else t)

    class dt(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    class date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    datetime.datetime, datetime.date = dt, date


def _reimport(req):
    import locale

    enc = req.get('locale')
    if enc:
        locale.getpreferredencoding = lambda do_setlocale=True: enc
        locale.getencoding = lambda: enc
    for n in [n for n in sys.modules if n == 'esp_idf_size' or n.startswith(('esp_idf_size.', 'esp_pylib'))]:
        del sys.modules[n]
    if req.get('ws'):
        _patch_ws(req['ws'])
    if req.get('simlocks'):
        import threading

        from . import api

        threading.Lock, threading.RLock = api.SimLock, api.SimRLock
    import esp_idf_size.main  # noqa


def _patch_identity(n):
    """Process and host identity and every source of randomness: functions of n alone."""
    import platform
    import random
    import socket

    random.seed(n)
    rng = random.Random(n + 1)
    os.urandom = rng.randbytes
    os.getpid = lambda: 4000 + n
    os.getppid = lambda: 3000 + n
    os.cpu_count = lambda: 1 + n % 7
    socket.gethostname = platform.node = lambda: f'host{n}'
    time.sleep = lambda seconds: None       # simulated time passes at once

    def kill(pid, sig):
        if pid != os.getpid():
            raise ProcessLookupError(errno.ESRCH, 'No such process')
        signal.raise_signal(sig)

    os.kill = os.killpg = kill


def _watch_env(seen):
    cls = type(os.environ)
    get = cls.__getitem__

    def getitem(self, key):
        if type(key) in (str, bytes):
            seen.add(os.fsdecode(key))
        return get(self, key)

    cls.__getitem__ = getitem


class _TtyIn(io.StringIO):
    def isatty(self):
        return True


EXIT = []


def _patch_atexit():
    """What is to be done when the interpreter exits is done at the end of the simulated process."""
    import atexit

    def register(f, *a, **k):
        EXIT.append((f, a, k))
        return f

    def unregister(f):
        EXIT[:] = [x for x in EXIT if x[0] != f]

    atexit.register, atexit.unregister = register, unregister


def _settings():
    """Settings of the whole process that a run has no business to change for good."""
    u = os.umask(0o022)
    os.umask(u)
    return {'working directory': os.getcwd(), 'environment': dict(os.environ), 'umask': u, 'recursion limit': sys.getrecursionlimit(),
            'signal handlers': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)],
            'blocked signals': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))}


def _child(req, wfd):
    root = req['root']
    os.environ.clear()
    os.environ.update(BASE_ENV)
    os.environ.update(req.get('env', {}))
    os.umask(req.get('umask', 0o022))
    if req.get('reclimit'):
        sys.setrecursionlimit(req['reclimit'])
    _patch_identity(req.get('rand', 0))
    _patch_atexit()
    if req.get('stdin'):
        sys.stdin = sys.__stdin__ = _TtyIn()
    gc.disable()  # collections happen at seeded points only
    gc.collect()
    os.chdir(os.path.join(root, req.get('cwd', '')))
    cpu = req.get('cpu_s', CPU)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if req.get('as_mb'):
        resource.setrlimit(resource.RLIMIT_AS, (req['as_mb'] << 20, req['as_mb'] << 20))
    roles = {os.path.join(root, p): r for p, r in req['roles'].items()}
    out = os.path.normpath(os.path.join(root, req['out'])) if req.get('out') else None
    sim = seam.Sim(req.get('plan', {}), root, roles, out, PKG)
    sim.locale = req.get('locale')
    sim.listing = req.get('listing')
    if hasattr(time, 'tzset'):
        time.tzset()
    if req.get('clock'):
        _patch_clock(req['clock'])
    sim.install()
    seen_env = set()
    if req.get('watch_env'):
        _watch_env(seen_env)
    reimported = bool(req.get('reimport') or req.get('watch_env') or req.get('locale') or req.get('ws') or req.get('simlocks') or req.get('clock'))
    if reimported:
        _reimport(req)
    sim.streams(req.get('encoding', 'utf-8'), tty=req.get('tty', False))
    if req.get('lines'):
        if reimported:
            gc.unfreeze()
        sim.watch_lines(seam.prepare(seam.codes(PKG)) if reimported else CODES)
    res = {'steps': [], 'env_read': seen_env}
    sent = []

    def send(code=None):
        if sent:
            return
        sent.append(1)
        res.update(code=code, log=sim.log, fired=sim.fired, lines=sim.lines, first_mut=sim.first_mut,
                   after_mut=sim.render_after_mut, audit=sim.audit_mut, stdout=bytes(sim.sinks['stdout']),
                   stderr=bytes(sim.sinks['stderr']), kinds=sim.kinds_hit)
        data = pickle.dumps(res, 4)
        view = memoryview(data)
        while view:
            n = seam._R['write'](wfd, view[:65536])
            view = view[n:]

    def leave(code):
        # the process ends at once: no exit handlers, nothing flushed
        sim.active = False
        res['steps'].append({'exit': code & 0xFF, 'exc': None, 'stdout': bytes(sim.sinks['stdout']), 'stderr': bytes(sim.sinks['stderr']),
                             'log': (0, len(sim.log)), 'api': [], 'tree': snapshot(root) if req.get('snap_steps') else None})
        send(code & 0xFF)
        seam._R['_exit'](0)

    os._exit = leave
    sim.on_die = send
    sim.res = res
    try:
        fds0 = set(os.listdir('/proc/self/fd'))
        set0 = _settings() if req.get('fds') else None
        total = 0
        for step in req['steps']:
            a, b = len(sim.sinks['stdout']), len(sim.sinks['stderr'])
            n0 = len(sim.log)
            for rel, data in step.get('put', {}).items():
                # a rebuild between two steps: the file is replaced by another version (or removed)
                real = os.path.join(root, rel)
                if data is None:
                    if os.path.lexists(real):
                        seam._R['unlink'](real)
                    continue
                os.makedirs(os.path.dirname(real), exist_ok=True)
                seam.put(real, data)
            if 'faults' in step:
                sim.begin(step['faults'])
            if 'argv' in step:
                r = _cli(sim, step, step is req['steps'][-1])
            else:
                from . import api
                r = api.run(sim, step)
            r['stdout'] = bytes(sim.sinks['stdout'][a:])
            r['stderr'] = bytes(sim.sinks['stderr'][b:])
            r['log'] = (n0, len(sim.log))
            total += sim.lines
            res['steps'].append(r)
            if req.get('fds'):
                gc.collect()
                r['fds'] = sorted(set(os.listdir('/proc/self/fd')) - fds0)
                r['fds'] = len([f for f in r['fds'] if os.path.exists('/proc/self/fd/' + f)])
                r['settings'] = [k for k, v in _settings().items() if v != set0[k]]
            if req.get('snap_steps'):
                r['tree'] = snapshot(root)
        send(res['steps'][-1].get('exit', 0) if res['steps'] else 0)
    except BaseException:
        sim.active = False
        res['harness'] = traceback.format_exc()
        send(-1)


def spawn(req):
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            err = os.dup(2)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            os.close(null)
            _child(req, wfd)
        except BaseException:
            seam._R['write'](err, traceback.format_exc().encode())
        finally:
            seam._R['_exit'](0)
    os.close(wfd)
    buf = []
    end = time.monotonic() + req.get('wall_s', WALL)
    dead = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            dead = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            continue
        c = os.read(rfd, 1 << 20)
        if not c:
            break
        buf.append(c)
    os.close(rfd)
    _, status, used = os.wait4(pid, 0)
    if dead and req.get('wall_s') and used.ru_utime + used.ru_stime < 5:
        # neither running nor done: it waits for something that never comes
        return {'steps': [], 'code': 96, 'log': [], 'fired': [('', 0, 'wall', '', '')], 'lines': 0, 'first_mut': None, 'after_mut': 0,
                'audit': [], 'stdout': b'', 'stderr': b'', 'kinds': {}, 'cpu': True}
    if dead:
        raise HarnessError('simulated process exceeded the wall clock limit')
    data = b''.join(buf)
    if not data:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (signal.SIGXCPU, signal.SIGKILL):
            return {'steps': [], 'code': 97, 'log': [], 'fired': [('', 0, 'cpu', '', '')], 'lines': 0, 'first_mut': None, 'after_mut': 0,
                    'audit': [], 'stdout': b'', 'stderr': b'', 'kinds': {}, 'cpu': True}
        raise HarnessError(f'simulated process died, status {status}')
    res = pickle.loads(data)
    if 'harness' in res:
        raise HarnessError(res['harness'])
    return res


def zygote_main():
    """Server for another hash seed: length-prefixed pickled requests on stdin."""
    preload()
    i, o = os.dup(0), os.dup(1)
    os.dup2(os.open('/dev/null', os.O_RDWR), 0)
    os.dup2(2, 1)

    def rd(n):
        b = b''
        while len(b) < n:
            c = os.read(i, n - len(b))
            if not c:
                os._exit(0)
            b += c
        return b

    while True:
        n = struct.unpack('<Q', rd(8))[0]
        req = pickle.loads(rd(n))
        try:
            out = spawn(req)
        except HarnessError as e:
            out = {'harness': str(e)}
        data = pickle.dumps(out, 4)
        os.write(o, struct.pack('<Q', len(data)))
        v = memoryview(data)
        while v:
            k = os.write(o, v[:65536])
            v = v[k:]


class Zygote:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
        self.p = subprocess.Popen([sys.executable, '-m', 'sim.zygote'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env, bufsize=0)

    def _rd(self, n):
        b = b''
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise HarnessError('zygote died')
            b += c
        return b

    def run(self, req):
        data = pickle.dumps(req, 4)
        v = memoryview(struct.pack('<Q', len(data)) + data)
        while v:
            v = v[self.p.stdin.write(v):]
        n = struct.unpack('<Q', self._rd(8))[0]
        res = pickle.loads(self._rd(n))
        if 'harness' in res:
            raise HarnessError(res['harness'])
        return res

    def close(self):
        self.p.kill()
        self.p.wait()


# ----------------------------------------------------------------------------------------------- scratch


def snapshot(root):
    """Everything below root: path -> ('d', mode) | ('f', mode, bytes) | ('l', target)."""
    out = {}
    todo = ['']
    while todo:
        d = todo.pop()
        for n in os.listdir(os.path.join(root, d)):
            rel = os.path.join(d, n)
            p = os.path.join(root, rel)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ('l', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ('d', stat.S_IMODE(st.st_mode))
                todo.append(rel)
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    out[rel] = ('f', stat.S_IMODE(st.st_mode), f.read())
            else:
                out[rel] = ('x', st.st_mode)
    return out


class World:
    """Scratch directory and simulated processes of one worker."""

    def __init__(self, base, index):
        self.root = os.path.join(base, f'{index:02d}')
        os.makedirs(self.root, exist_ok=True)
        self.cache = {}
        self.runs = 0
        self.lines = 0
        self.ops = 0
        self.fault_counts = {}
        self.zygotes = {}
        self.begin()

    def begin(self):
        """A new seed: nothing is carried over from the previous one."""
        self.cache.clear()
        self.events = hashlib.sha256()

    def close(self):
        for z in self.zygotes.values():
            z.close()
        shutil.rmtree(self.root, ignore_errors=True)

    def build(self, files, salt=0):
        """Rebuild the scratch directory: {relpath: bytes | None (directory) | ('l', target)}."""
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for rel, data in files.items():
            p = os.path.join(self.root, rel)
            if data is None:
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(data, tuple):
                os.symlink(data[1], p)
            else:
                with open(p, 'wb') as f:
                    f.write(data)
                t = seam.mtime(rel, data, salt)
                os.utime(p, (t, t))

    def norm(self, b):
        return b.replace(self.root.encode(), b'$ROOT')

    def run(self, files, req, cache=False, keep=False):
        """Run one simulated process on a fresh copy of `files`."""
        key = None
        if cache:
            key = hashlib.sha256(pickle.dumps((sorted(files.items(), key=lambda x: x[0]), sorted(req.items(), key=lambda x: x[0])), 4)).digest()
            if key in self.cache:
                return self.cache[key]
        if not keep:
            self.build(files, req.get('mt', 0))
        req = dict(req, root=self.root)
        zs = req.get('hashseed')
        if zs is None:
            res = spawn(req)
        else:
            if zs not in self.zygotes:
                self.zygotes[zs] = Zygote(zs)
            res = self.zygotes[zs].run(req)
        res['tree'] = snapshot(self.root)
        self.runs += 1
        self.lines += res['lines']
        self.ops += len(res['log'])
        for k, n in res['kinds'].items():
            self.fault_counts[k] = self.fault_counts.get(k, 0) + n
        res['stdout'] = self.norm(res['stdout'])
        res['stderr'] = self.norm(res['stderr'])
        for s in res['steps']:
            s['stdout'] = self.norm(s['stdout'])
            s['stderr'] = self.norm(s['stderr'])
        self.events.update(repr((res['code'], res['log'], res['fired'], res['lines'], sorted(res['audit']), res['stdout'], res['stderr'],
                                 [(x.get('switches'), x.get('exit')) for x in res['steps']])).replace(self.root, '$ROOT').encode())
        for rel, e in sorted(res['tree'].items()):
            self.events.update(self.norm(repr((rel, e)).encode()))
        if key is not None:
            if len(self.cache) > 400:
                self.cache.clear()
            self.cache[key] = res
        return res
