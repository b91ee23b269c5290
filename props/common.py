import json
import os

from sim import scenario as S
from sim.explore import Violation, STUBS  # noqa: F401

READ_ERR = ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ESTALE', 'EISDIR', 'ENOMEM', 'ETIMEDOUT', 'ELOOP', 'EPERM', 'ENOTDIR']
WRITE_ERR = ['ENOSPC', 'EIO', 'EDQUOT', 'EACCES', 'EROFS', 'EISDIR', 'EPERM', 'ENAMETOOLONG', 'EMFILE', 'EFBIG', 'ENOTDIR', 'ELOOP', 'EPIPE',
             'ENOENT', 'ETIMEDOUT', 'ESTALE', 'ENXIO', 'EBADF', 'ENOMEM']
INPUT_KINDS = ('open', 'read', 'stat', 'list')
MUT = ('mkdir', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'link', 'symlink', 'chmod', 'truncate', 'utime', 'wopen')


def is_input(role):
    return role[:2] in ('a.', 'b.') or role == 'chip'


def run(case, w, faults=(), cache=False, files=None, **kw):
    return w.run(files if files is not None else S.files(case), S.request(case, w.root, faults, **kw), cache=cache)


def golden(case, w, **kw):
    kw.setdefault('lines', True)
    return run(case, w, (), cache=True, **kw)


def out_of(res, case):
    """State of the output path after a run: None (absent) or the tree entry, following a symlink."""
    o = case['out']
    e = res['tree'].get(o)
    if e is not None and e[0] == 'l':
        e = res['tree'].get(os.path.join(os.path.dirname(o), e[1]))
    return e


def before_tree(case, w):
    """Snapshot of the scratch directory before the run."""
    from sim import world

    w.build(S.files(case))
    return world.snapshot(w.root)


def reach(res):
    """Where each fault that fired landed, for signatures."""
    return tuple((f[2], f[3], f[4]) for f in res['fired'])


def opts_sig(case):
    return tuple(a for a in case['argv'] if a.startswith('-')) + (case['argv'][case['argv'].index('--format') + 1] if '--format' in case['argv'] else '',)


def pick_input_fault(rng, g, errs=READ_ERR, kinds=INPUT_KINDS):
    ops = [(k, r, n) for k, r, n, _ in g['log'] if k in kinds and is_input(r)]
    if not ops:
        return None
    # choose the file first, so that the many ELF reads do not drown the rest
    role = rng.choice(sorted({r for _, r, _ in ops}))
    k, r, n = rng.choice([o for o in ops if o[1] == role])
    return {'kind': k, 'role': r, 'nth': n, 'do': rng.choice(errs)}


def sample(case, res, extra=None):
    s = {'argv': case.get('argv'), 'faults': case.get('faults'), 'have': case.get('have'), 'target': case['fw']['a']['target'] if case.get('fw') else None,
         'exit': res.get('code') if res else None, 'stderr': res['stderr'].decode(errors='replace')[-160:] if res else None}
    if extra:
        s.update(extra)
    return s


def show(b, n=300):
    return repr(b[:n])


def first_diff(a, b):
    n = min(len(a), len(b))
    i = next((i for i in range(n) if a[i] != b[i]), n)
    return f'byte {i}: {a[max(0, i - 40):i + 60]!r} instead of {b[max(0, i - 40):i + 60]!r} (lengths {len(a)}, {len(b)})'
