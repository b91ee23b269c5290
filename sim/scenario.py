"""Scenarios: plain JSON descriptions of what is on disk and what is run, and their materialisation."""
import os

from . import firmware as F

KINDS = ['summary', 'archives', 'files', 'symbols', 'deps']


def target_name(case, side):
    fw = case['fw'][side]
    return case.get('stem', {}).get(side) or fw['proj']


def paths(case, side):
    n = target_name(case, side)
    return {'map': f'{side}/{n}.map', 'elf': f'{side}/{n}.elf', 'pd': f'{side}/project_description.json', 'sdk': f'{side}/config/sdkconfig.json'}


def damage(data, ops):
    for op in ops:
        k = op[0]
        if k == 'trunc':
            data = data[: op[1]]
        elif k == 'cutend':
            data = data[: max(0, len(data) - op[1])]
        elif k == 'flip' and data:
            b = bytearray(data)
            b[op[1] % len(b)] ^= op[2] or 1
            data = bytes(b)
        elif k == 'put':
            b = bytearray(data)
            raw = bytes.fromhex(op[2])
            b[op[1] : op[1] + len(raw)] = raw
            data = bytes(b)
        elif k == 'ins':
            data = data[: op[1]] + bytes.fromhex(op[2]) + data[op[1] :]
        elif k == 'del':
            data = data[: op[1]] + data[op[1] + op[2] :]
        elif k == 'zero':
            n = min(op[2], max(0, len(data) - op[1]))
            data = data[: op[1]] + b'\0' * n + data[op[1] + n :]
        elif k in ('ldel', 'ldup', 'lswap', 'lset', 'lnum', 'lrep', 'lword', 'llong'):
            ls = data.split(b'\n')
            i = op[1] % len(ls)
            if k == 'ldel':
                del ls[i]
            elif k == 'ldup':
                ls.insert(i, ls[i])
            elif k == 'lrep':
                # the lines from i on, op[3] of them, op[2] times
                ls[i:i + op[3]] = ls[i:i + op[3]] * op[2]
            elif k == 'lswap':
                j = op[2] % len(ls)
                ls[i], ls[j] = ls[j], ls[i]
            elif k == 'lset':
                ls[i] = op[2].encode()
            elif k == 'llong':
                # a very long line
                ls.insert(i, (op[2] + op[3] * op[4] + op[5]).encode())
            elif k == 'lword':
                import re

                m = list(re.finditer(rb'\S+', ls[i]))
                if m:
                    q = m[op[2] % len(m)]
                    a, z = q.start(), q.end()
                    ls[i] = {'drop': ls[i][:a] + ls[i][z:], 'dup': ls[i][:z] + b' ' + ls[i][a:], 'end': ls[i][:a],
                             'half': ls[i][:(a + z) // 2] + ls[i][z:], 'join': ls[i][:z] + ls[i][z:].lstrip()}[op[3]]
            else:
                # replace the n-th number in the line
                import re

                m = list(re.finditer(rb'0x[0-9a-fA-F]+', ls[i]))
                if m:
                    q = m[op[2] % len(m)]
                    ls[i] = ls[i][: q.start()] + op[3].encode() + ls[i][q.end() :]
            data = b'\n'.join(ls)
        elif k == 'replace':
            data = bytes.fromhex(op[1])
        elif k == 'sub':
            data = data.replace(op[1].encode(), op[2].encode(), op[3] if len(op) > 3 else -1)
    return data


def emit(case, side):
    """relpath -> bytes of the files of one build."""
    fw = case['fw'][side]
    p = paths(case, side)
    have = case.get('have', {})
    dmg = case.get('dmg', {})
    out = {}
    src = {'map': lambda: F.emit_map(fw), 'elf': lambda: F.emit_elf(fw),
           'pd': lambda: F.emit_proj_desc(fw, app_elf=target_name(case, side) + '.elf'), 'sdk': lambda: F.emit_sdkconfig(fw)}
    for k, rel in p.items():
        if not have.get(f'{side}.{k}', True):
            continue
        data = src[k]()
        if dmg.get(f'{side}.{k}'):
            data = damage(data, dmg[f'{side}.{k}'])
        out[rel] = data
    out.setdefault(f'{side}', None)
    return out


def files(case):
    out = {'cwd': None}
    for side in case['fw']:
        out.update(emit(case, side))
    prior = case.get('prior')
    if case.get('out') and prior is not None:
        k = prior[0]
        o = case['out']
        if k == 'file':
            out[o] = prior[1].encode()
        elif k == 'empty':
            out[o] = b''
        elif k == 'dir':
            out[o] = None
        elif k == 'parent':
            out[os.path.dirname(o)] = None
        elif k == 'link':
            out[os.path.join(os.path.dirname(o), 'real.txt')] = prior[1].encode()
            out[o] = ('l', 'real.txt')
        elif k == 'parentfile':
            out[os.path.dirname(o)] = prior[1].encode()
    for rel, txt in case.get('bystanders', {}).items():
        out.setdefault(rel, txt.encode())
    return out


def roles(case):
    out = {}
    for side in case['fw']:
        for k, rel in paths(case, side).items():
            out[rel] = f'{side}.{k}'
    return out


def argv(case, root, args=None):
    """Resolve @a/@b/@o in the argument list."""
    rel = case.get('paths', 'rel') == 'rel'
    cwd = case.get('cwd', '')
    out = []
    for a in case['argv'] if args is None else args:
        if a in ('@a', '@b'):
            a = paths(case, a[1])['map']
        elif a == '@o':
            a = case['out']
        else:
            out.append(a)
            continue
        out.append(os.path.relpath(a, cwd or '.') if rel else os.path.join(root, a))
    return out


def request(case, root, faults=(), **kw):
    req = {'steps': [{'argv': argv(case, root)}], 'roles': roles(case), 'out': case.get('out'), 'cwd': case.get('cwd', ''),
           'plan': {'faults': list(faults)}, 'env': dict(case.get('env', {}))}
    if kw.get('budget'):
        req['plan']['budget'] = kw.pop('budget')
    if kw.get('swaps'):
        req['plan']['swaps'] = kw.pop('swaps')
    for k in ('umask', 'reclimit'):
        if k in case:
            req[k] = case[k]
    if case.get('locale'):
        req['locale'] = case['locale']
    req.update(kw)
    return req


# ------------------------------------------------------------------------------------------------ random cases


def gen_build(rng, opts=None, have=None):
    fw = F.gen(rng, opts)
    return fw


def gen_variant(rng, fw):
    """Another build of the same project: some sizes, symbols and sections changed."""
    import copy

    v = copy.deepcopy(fw)
    for s in v['sections']:
        for it in s['items']:
            if it['k'] == 'isec' and it['size'] and rng.random() < 0.4:
                if rng.random() < 0.3:
                    it['syms'] = []
                end = max([y['off'] + y['size'] for y in it['syms']], default=0)
                d = min(it['size'] - end, rng.choice([1, 4, 8, 16]))
                it['size'] -= d
                if it.get('relax'):
                    it['relax'] -= d
        if rng.random() < 0.1 and s['items']:
            s['items'].pop(rng.randrange(len(s['items'])))
    return v


def gen_case(rng, out=None, diff=None, kinds=KINDS, formats=None, opts=None, extras=True):
    """A healthy scenario: builds, options, destination."""
    case = {'fw': {'a': F.gen(rng, opts)}, 'have': {}, 'argv': ['@a'], 'paths': rng.choice(['rel', 'rel', 'abs'])}
    kind = rng.choice(kinds)
    dense = rng.random() < 0.15             # many options at once
    fmt = rng.choice(formats or ['table', 'csv', 'json2', 'raw', 'tree', 'dot'])
    if fmt == 'dot':
        kind = 'deps'
    av = case['argv']
    av += ['--format', fmt if rng.random() < 0.9 else 'text' if fmt == 'table' else fmt.upper()]
    want_diff = diff if diff is not None else rng.random() < 0.3
    if want_diff:
        case['fw']['b'] = F.gen(rng, opts) if rng.random() < 0.5 else _variant_ok(rng, case['fw']['a'])
        av += ['--diff', '@b']
    if kind == 'archives':
        av.append('--archives')
    elif kind == 'files':
        av.append('--files')
    elif kind == 'symbols':
        arch = rng.choice(case['fw']['a']['archives'] + ['(exe)'])
        av += ['--archive-details', os.path.basename(arch)]
    elif kind == 'deps':
        av.append('--archive-dependencies')
        if rng.random() < (0.7 if dense else 0.4):
            av.append('--dep-symbols')
        if rng.random() < (0.7 if dense else 0.3):
            av.append('--dep-reverse')
    if extras:
        for o, p in (('--unify', 0.2), ('--no-abbrev', 0.2), ('--show-unused', 0.2), ('--use-flash-size', 0.2), ('--show-unchanged', 0.3),
                     ('--sort-diff', 0.1), ('--sort-reverse', 0.15), ('--no-color', 0.1), ('--force-terminal', 0.1), ('--debug', 0.08)):
            if rng.random() < (0.5 if dense else p):
                av.append(o)
        if rng.random() < 0.15:
            av += ['--lto'] if rng.random() < 0.7 else ['--no-lto']
        if rng.random() < 0.15:
            by = 'Used [bytes]' if kind == 'summary' else 'Total Size'
            av += ['--sort', rng.choice(['1', '2', '-1', '3', '1', '2', '-1', by])]
        if rng.random() < 0.15:
            av += ['-F', rng.choice(['*main*', 'lib*', '*', '*.o*'])]
    if rng.random() < 0.2:
        case['have']['a.elf'] = False
    if rng.random() < 0.1:
        case['have']['a.pd'] = False
    if rng.random() < 0.2:
        case['have']['a.sdk'] = False
    if out if out is not None else rng.random() < 0.6:
        set_out(rng, case)
    if rng.random() < 0.2:
        case['cwd'] = 'cwd'
    return case


def _variant_ok(rng, fw):
    return gen_variant(rng, fw)


def set_out(rng, case):
    case['out'] = rng.choice(['o/report.txt', 'report.txt', 'o/deep/er/report.txt', 'a/report.txt'])
    case['argv'] += [rng.choice(['-o', '--output-file']), '@o']
    r = rng.random()
    if r < 0.55:
        case['prior'] = ['file', 'previous report ' * rng.choice([1, 7, 900])]
    elif r < 0.62:
        case['prior'] = ['empty']
    elif r < 0.7 and '/' in case['out']:
        case['prior'] = ['parent']
    elif r < 0.76:
        case['prior'] = ['link', 'linked previous report']
    else:
        case['prior'] = None
