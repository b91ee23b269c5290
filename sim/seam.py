"""The seams: every file-system call, standard stream, interrupt, allocation failure, process death, clock and
IDE channel of a simulated process goes through one `Sim` object, which follows the fault plan of the scenario.

Runs inside the forked child only; nothing here is ever installed in the exploring process."""
import builtins
import errno
import gc
import io
import os
import signal
import sys
import threading
import time
import types
import zlib

_R = {  # the real functions, captured before anything is patched
    n: getattr(os, n)
    for n in ('open', 'read', 'write', 'close', 'stat', 'lstat', 'mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir',
              'listdir', 'scandir', 'link', 'symlink', 'chmod', 'truncate', 'ftruncate', 'utime', 'getcwd', '_exit', 'access',
              'fsync', 'readlink', 'makedirs', 'dup', 'dup2', 'isatty')
}
_open = io.open
_time = time.time

ERR = {n: getattr(errno, n) for n in ('EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOSPC', 'EDQUOT', 'EROFS', 'EISDIR', 'ENOTDIR',
                                      'ESTALE', 'ELOOP', 'EPIPE', 'EPERM', 'ENAMETOOLONG', 'ETIMEDOUT', 'EBADF', 'EINTR', 'ENXIO',
                                      'EFBIG', 'ENOMEM')}
MUTATING = {'mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'link', 'symlink', 'chmod', 'truncate', 'utime', 'wopen'}


def mtime(rel, data, salt=0):
    """The simulated time of the last change of a file: a function of its name and content alone."""
    return 1600000000 + zlib.crc32(f'{rel} {salt} '.encode() + data[:64] + b'%d' % len(data)) % 20000000


def put(real, data):
    """The build system replaces a file: sometimes within the resolution of the file system's clock."""
    t = 1600000000 + zlib.crc32(data) % 20000000
    if t % 3 == 0:
        try:
            t = _R['stat'](real).st_mtime
        except OSError:
            pass
    with _open(real + '.new', 'wb') as fd:
        fd.write(data)
    _R['utime'](real + '.new', (t, t))
    _R['replace'](real + '.new', real)


def codes(pkg):
    """Code objects of the package that live in this process (call before gc.freeze)."""
    seen = set()
    todo = [o.__code__ for o in gc.get_objects() if isinstance(o, types.FunctionType)]
    out = []
    while todo:
        c = todo.pop()
        if id(c) in seen or not c.co_filename.startswith(pkg + '/'):
            continue
        seen.add(id(c))
        out.append(c)
        todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    if not out:
        raise RuntimeError('no code of the package found')
    return out


def prepare(all_codes):
    """Ask for line events of the package (they go nowhere until a callback is registered)."""
    mon = sys.monitoring
    if mon.get_tool(4) is None:
        mon.use_tool_id(4, 'sim')
    render, fin = {}, set()
    for c in all_codes:
        render[c] = os.path.basename(c.co_filename).startswith('format_') and c.co_name != '__del__'
        if c.co_name == '__del__':
            fin.add(c)
        mon.set_local_events(4, c, mon.events.LINE)
    return render, fin


class Sim:
    def __init__(self, plan, root, roles, out_path, pkg):
        self.plan = plan
        self.root = root
        self.roles = roles
        self.out_path = out_path
        self.pkg = pkg
        self.chip_dir = os.path.join(pkg, 'chip_info')
        self.faults = list(plan.get('faults', ()))
        self.log = []
        self.counts = {}
        self.fired = []
        self.sinks = {'stdout': bytearray(), 'stderr': bytearray()}
        self.lines = 0
        self.line_faults = self.by_line()
        self.budget = plan.get('budget', 0)
        self.line_mods = None
        self.first_mut = None
        self.render_after_mut = 0
        self.audit_mut = []
        self.on_die = None
        self.sched = None
        self.active = False
        self.locale = None
        self.full = {}
        self.opens = {}
        self.open_no = 0
        self.swaps = plan.get('swaps', {})
        self.kinds_hit = {}
        self.tty = False
        self.listing = None
        self.std = {1: 'stdout', 2: 'stderr'}  # file descriptors that lead to a simulated stream

    def by_line(self):
        out = {}
        for f in self.faults:
            if 'line' in f:
                out.setdefault(f['line'], []).append(f)
        return out

    def begin(self, faults):
        """A new step of the history: operations are counted and broken afresh."""
        self.faults = list(faults)
        self.counts = {}
        self.line_faults.clear()
        self.line_faults.update(self.by_line())
        self.lines = 0
        self.first_mut = None

    # ------------------------------------------------------------------ roles
    def role(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = os.path.join(_R['getcwd'](), p)
        p = os.path.normpath(p)
        r = self.roles.get(p)
        if r is not None:
            return r
        if self.out_path and (self.out_path == p or self.out_path.startswith(p + '/')):
            return 'out' if self.out_path == p else 'outdir'
        if p.startswith(self.root + '/') or p == self.root:
            return 'other:' + p[len(self.root) + 1:]
        if p.startswith(self.chip_dir + '/'):
            return 'chip'
        return None

    # ------------------------------------------------------------------ one operation
    def op(self, kind, role, path=None):
        """Count, log and possibly break one operation.  Returns the fault that modifies it, or None."""
        if not self.active:
            return None
        if self.sched is not None and role[:4] not in ('stdo', 'stde'):
            self.sched.line()
        key = (kind, role)
        n = self.counts.get(key, 0) + 1
        self.counts[key] = n
        self.log.append((kind, role, n, self.lines))
        if role in ('out', 'outdir') and kind in MUTATING and self.first_mut is None:
            self.first_mut = len(self.log) - 1
        hit = None
        for f in self.faults:
            if f.get('kind') == kind and f.get('role') == role and (f['nth'] == n or (f.get('persist') and n >= f['nth'])):
                if f['do'] == 'swap':
                    self.fire(f, path)
                    continue
                hit = f
                break
        if hit is None:
            return None
        return self.fire(hit, path)

    def fire(self, f, path=None):
        do = f['do']
        self.fired.append((len(self.log), self.lines, do, f.get('kind', 'line'), f.get('role', '')))
        self.kinds_hit[do] = self.kinds_hit.get(do, 0) + 1
        if do == 'intr':
            return self.interrupt()
        if do == 'mem':
            raise MemoryError('simulated allocation failure')
        if do == 'crash':
            self.die(137)
        if do == 'gc':
            gc.collect()
            return None
        if do == 'swap':
            for real, new in self.swaps.get(f['swap'], ()):
                if new is None:
                    try:
                        _R['unlink'](real)
                    except OSError:
                        pass
                else:
                    put(real, new)
            return None
        if do in ('short', 'partial', 'eof'):
            return f
        raise OSError(ERR[do], os.strerror(ERR[do]), path)

    def interrupt(self):
        """SIGINT, as the disposition of the moment handles it."""
        if threading.current_thread() is not threading.main_thread():
            raise KeyboardInterrupt
        h = signal.getsignal(signal.SIGINT)
        if signal.SIGINT in signal.pthread_sigmask(signal.SIG_BLOCK, ()):
            signal.raise_signal(signal.SIGINT)      # stays pending until it is unblocked
        elif h == signal.SIG_DFL:
            self.die(130)
        elif callable(h):
            h(signal.SIGINT, sys._getframe(1))
        return None

    def die(self, code):
        self.active = False
        self.on_die(code)
        _R['_exit'](0)

    # ------------------------------------------------------------------ files
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        role = self.role(file) if self.active else None
        if type(file) is int and file in self.std and self.active and set(mode) & set('wa'):
            raw = Sink(self, self.std[file], file)
            buf = raw if buffering == 0 else io.BufferedWriter(raw, buffering if buffering > 1 else 8192)
            return buf if 'b' in mode else io.TextIOWrapper(buf, io.text_encoding(encoding or self.locale), errors, newline, buffering == 1)
        if role is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if 'b' in mode and (encoding is not None or errors is not None or newline is not None):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rmode = ''.join(c for c in mode if c not in 'btU')
        raw = SimRaw(self, role, file, rmode, closefd, opener)
        try:
            updating = '+' in mode
            if buffering == 0:
                if 'b' not in mode:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            size = buffering if buffering > 1 else 8192
            if updating:
                buf = io.BufferedRandom(raw, size)
            elif rmode[0] in 'wax':
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if 'b' in mode:
                return buf
            if encoding in (None, 'locale') and self.locale:
                encoding = self.locale
            text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    # ------------------------------------------------------------------ installation
    def wrap(self, kind, real, npath=1):
        sim = self

        def call(*a, **k):
            for p in list(a[:npath]) + [v for q, v in k.items() if q in ('path', 'src', 'dst')]:
                r = sim.role(p)
                if r is not None:
                    sim.op(kind, r, p)
            r = real(*a, **k)
            if sim.listing and kind == 'list':
                return Listing(r, sim.listing) if real is _R['scandir'] else _order(r, sim.listing)
            return r

        return call

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        r = self.role(path) if dir_fd is None else None
        if r is not None:
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            self.op('wopen' if w else 'open', r, path)
            fd = _R['open'](path, flags, mode)
            self.opens[fd] = r
            return fd
        if dir_fd is None:
            return _R['open'](path, flags, mode)
        return _R['open'](path, flags, mode, dir_fd=dir_fd)

    def os_read(self, fd, n):
        r = self.opens.get(fd)
        if r is not None:
            f = self.op('read', r)
            if f is not None:
                n = 0 if f['do'] == 'eof' else max(1, min(n, f.get('n', 1)))
        return _R['read'](fd, n)

    def os_write(self, fd, data):
        if fd in self.std and self.active:
            return Sink(self, self.std[fd], fd).write(data)
        r = self.opens.get(fd)
        if r is not None:
            f = self.op('write', r)
            if f is not None:
                data = bytes(data)[: max(0, f.get('n', 0))] or b''
                if not data:
                    raise OSError(ERR[f.get('err', 'ENOSPC')], os.strerror(ERR[f.get('err', 'ENOSPC')]))
        return _R['write'](fd, data)

    def os_close(self, fd):
        self.opens.pop(fd, None)
        if self.active:
            self.std.pop(fd, None)
        return _R['close'](fd)

    def os_dup(self, fd):
        n = _R['dup'](fd)
        for t in (self.std, self.opens):
            t.pop(n, None)
            if fd in t:
                t[n] = t[fd]
        return n

    def os_dup2(self, fd, fd2, inheritable=True):
        n = _R['dup2'](fd, fd2, inheritable)
        if fd != fd2:
            for t in (self.std, self.opens):
                t.pop(fd2, None)
                if fd in t:
                    t[fd2] = t[fd]
        return n

    def os_isatty(self, fd):
        return self.tty if fd in self.std else _R['isatty'](fd)

    def install(self):
        builtins.open = io.open = self.open
        os.open, os.read, os.write, os.close = self.os_open, self.os_read, self.os_write, self.os_close
        os.dup, os.dup2, os.isatty = self.os_dup, self.os_dup2, self.os_isatty
        for n in ('stat', 'lstat', 'access', 'listdir', 'scandir', 'readlink'):
            setattr(os, n, self.wrap('stat' if n in ('stat', 'lstat', 'access', 'readlink') else 'list', _R[n]))
        for n in ('mkdir', 'unlink', 'remove', 'rmdir', 'chmod', 'truncate', 'utime'):
            setattr(os, n, self.wrap(n, _R[n]))
        for n in ('rename', 'replace', 'link', 'symlink'):
            setattr(os, n, self.wrap(n, _R[n], 2))
        sys.addaudithook(self.audit)

    def streams(self, encoding='utf-8', tty=False):
        out = []
        self.tty = tty
        for n in ('stdout', 'stderr'):
            t = io.TextIOWrapper(io.BufferedWriter(Sink(self, n, 1 if n == 'stdout' else 2)), encoding,
                                 'strict' if n == 'stdout' else 'backslashreplace', line_buffering=n == 'stderr',
                                 write_through=False)
            t.mode = 'w'
            out.append(t)
        sys.stdout, sys.stderr = out
        sys.__stdout__, sys.__stderr__ = out
        return out

    def audit(self, ev, args):
        if not self.active:
            return
        try:
            if ev == 'open':
                path, mode, flags = args
                if isinstance(path, int) or path is None:
                    return
                w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else 0
                if isinstance(mode, str) and set(mode) & set('wax+'):
                    w = 1
                if w:
                    self.audit_mut.append(('open', self.show(path)))
            elif ev in ('os.mkdir', 'os.remove', 'os.rmdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'os.setxattr',
                        'os.removexattr', 'os.mkfifo', 'os.mknod', 'sqlite3.connect'):
                self.audit_mut.append((ev, self.show(args[0])))
            elif ev in ('os.rename', 'os.link', 'os.symlink'):
                self.audit_mut.append((ev, self.show(args[0]) + ' -> ' + self.show(args[1])))
            elif ev in ('os.system', 'os.exec', 'os.posix_spawn', 'subprocess.Popen', 'os.fork', 'os.forkpty', 'os.kill'):
                self.audit_mut.append((ev, ''))
        except Exception:  # never disturb the code under test
            pass

    def show(self, p):
        try:
            if isinstance(p, int):
                return 'fd'
            r = self.role(p)
            return r if r is not None else os.path.normpath(os.path.join(_R['getcwd'](), os.fsdecode(os.fspath(p))))
        except Exception:
            return repr(p)

    # ------------------------------------------------------------------ lines of the package
    def watch_lines(self, prepared):
        mon = sys.monitoring
        render, fin = prepared
        faults = self.line_faults
        budget = self.budget
        pending = []

        def cb(code, line):
            if not self.active:
                return
            self.lines = n = self.lines + 1
            if self.first_mut is not None and render[code]:
                self.render_after_mut += 1
            if n in faults:
                pending.extend(faults[n])
            while pending and code not in fin:
                self.fire(pending.pop(0))
            if budget and n > budget:
                self.fired.append((len(self.log), n, 'budget', 'line', ''))
                self.die(98)
            if self.sched is not None:
                self.sched.line()

        mon.register_callback(4, mon.events.LINE, cb)


def _order(names, how):
    key = (lambda x: getattr(x, 'name', x))
    return sorted(names, key=key, reverse=how == 'down')


class Listing:
    """os.scandir() in the order the simulated directory keeps its entries."""

    def __init__(self, it, how):
        self._it = iter(_order(it, how))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class SimRaw(io.FileIO):
    """Raw file on the scratch file system whose operations follow the fault plan."""

    def __init__(self, sim, role, file, mode, closefd, opener):
        self._sim = sim
        self._role = role
        w = bool(set(mode) & set('wax+'))
        if opener is None:
            sim.op('wopen' if w else 'open', role, file)
        super().__init__(file, mode, closefd, opener)

    def readinto(self, b):
        f = self._sim.op('read', self._role)
        if f is not None:
            if f['do'] == 'eof':
                return 0
            n = max(1, min(len(b), f.get('n', 1)))
            data = super().read(n)
            memoryview(b).cast('B')[: len(data)] = data
            return len(data)
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        f = self._sim.op('read', self._role)
        if f is not None:
            size = 0 if f['do'] == 'eof' else max(1, min(size, f.get('n', 1)))
        return super().read(size)

    def readall(self):
        out = []
        while True:
            c = self.read(65536)
            if not c:
                return b''.join(out)
            out.append(c)

    def write(self, b):
        f = self._sim.op('write', self._role)
        if f is not None:
            n = f.get('n', 0)
            if n <= 0:
                raise OSError(ERR[f.get('err', 'ENOSPC')], os.strerror(ERR[f.get('err', 'ENOSPC')]))
            return super().write(bytes(b)[:n])
        return super().write(b)

    def close(self):
        if self.closed:
            return super().close()
        w = self.writable()
        super().close()
        if w:
            self._sim.op('close', self._role)


class Sink(io.RawIOBase):
    """Standard output or error of the simulated process."""

    def __init__(self, sim, name, fd):
        self._sim = sim
        self._name = name
        self._fd = fd

    @property
    def name(self):
        return f'<{self._name}>'

    def writable(self):
        return True

    def isatty(self):
        return self._sim.tty

    def fileno(self):
        return self._fd

    def write(self, b):
        data = bytes(b)
        name = self._sim.std.get(self._fd)
        if name is None:
            return _R['write'](self._fd, data)  # redirected by the code under test
        f = self._sim.op('write', name)
        if f is not None:
            n = f.get('n', 0)
            if n <= 0:
                raise OSError(ERR[f.get('err', 'ENOSPC')], os.strerror(ERR[f.get('err', 'ENOSPC')]))
            data = data[:n]
        self._sim.sinks[name] += data
        return len(data)
