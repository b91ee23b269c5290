"""What a report says, as a normalised structure (parsed), and what it must say (from the reference model)."""
import collections
import csv
import io
import json
import os
import re

from . import model as M
from . import scenario as S

ANSI = re.compile(r'\x1b\[[0-9;]*[A-Za-z]')


def options(case):
    """Model options from the argument list of a case."""
    o = dict(M.DEFAULTS, sort='1', filter=[], debug=False, quiet=False)
    av = case['argv']
    i = 1
    flags = {'--archives': 'archives', '--archive-dependencies': 'archive_dependencies', '--dep-symbols': 'dep_symbols',
             '--dep-reverse': 'dep_reverse', '--files': 'files', '--no-abbrev': 'no_abbrev', '--unify': 'unify',
             '--show-unused': 'show_unused', '--show-unchanged': 'show_unchanged', '--use-flash-size': 'use_flash_size', '--debug': 'debug',
             '-q': 'quiet', '--quiet': 'quiet'}
    while i < len(av):
        a = av[i]
        if a in flags:
            o[flags[a]] = True
        elif a in ('--format', '--diff', '--archive-details', '--sort', '-o', '--output-file', '-F'):
            v = av[i + 1]
            i += 1
            if a == '-F':
                o['filter'].append(v)
            elif a == '--diff':
                o['diff'] = True
            elif a in ('-o', '--output-file'):
                o['out'] = True
            else:
                if a == '--format':
                    v = {'text': 'table'}.get(v.lower(), v.lower())
                o[{'--format': 'format', '--archive-details': 'archive_details', '--sort': 'sort'}[a]] = v
        elif a == '--lto':
            o['lto'] = True
        elif a == '--no-lto':
            o['lto'] = False
        i += 1
    return o


def env(case, side, root='$ROOT'):
    h = case.get('have', {})
    pd = h.get(f'{side}.pd', True)
    return {'pd': pd, 'elf': pd and h.get(f'{side}.elf', True), 'sdk': h.get(f'{side}.sdk', True),
            'path': os.path.join(root, S.paths(case, side)['map'])}


# ------------------------------------------------------------------------------------------------ expected


def expected(case, o=None, env_a=None, env_b=None):
    """(kind, structure); raises model.Refused when the tool must refuse."""
    o = o or options(case)
    kind = M.kind_of(o)
    a = case['fw']['a']
    ea = env_a or env(case, 'a')
    ref = None
    if o['diff'] and not o['archive_dependencies']:
        ref = (case['fw']['b'], env_b or env(case, 'b'))
    eff = dict(o, diff=ref is not None)
    if o['unify']:
        eff['no_abbrev'] = False
    m = M.pipeline((a, ea), ref, eff)
    f = o['format']
    if kind == 'raw':
        return kind, m
    if kind == 'deps':
        d = M.deps(a, ea, m, eff)
        if f in ('raw', 'json2'):
            return kind, _deps_norm(d)
        return kind, _deps_rows(d, eff)
    if kind == 'tree':
        return kind, _tree(m, eff)
    if kind == 'summary':
        if f == 'json2':
            return kind, M.json_summary(m, eff)
        return kind, _summary_rows(m, eff)
    s = M.summary(m, kind, eff)
    if f == 'json2':
        return kind, s
    return kind, _rows(s, eff)


def cell(n, d, on):
    return (n, d) if on else (n,)


def _name(full, info, o):
    return full if o['no_abbrev'] else info['abbrev_name']


def _rows(s, o):
    out = collections.Counter()
    for full, e in s.items():
        cols = collections.Counter()
        for t, tv in e['memory_types'].items():
            cols[(t, '') + cell(tv['size'], tv['size_diff'], o['diff'])] += 1
            for sn, sv in tv['sections'].items():
                cols[(t, _name(sn, sv, o)) + cell(sv['size'], sv['size_diff'], o['diff'])] += 1
        out[(_name(full, e, o), cell(e['size'], e['size_diff'], o['diff']), frozenset(cols.items()))] += 1
    return out


def _keep(d, o):
    return not o['diff'] or o['show_unchanged'] or bool(d)


def _pct(used, size):
    return used / size * 100 if size else 0


def _summary_rows(m, o):
    out = {}
    for t, v in m['memory_types'].items():
        if not _keep(v['used_diff'], o):
            continue
        ref_size = v['size'] - v['size_diff']
        has = bool(v['size'])
        row = [cell(v['used'], v['used_diff'], o['diff'])]
        if has:
            p = _pct(v['used'], v['size'])
            row.append(cell(p, p - _pct(v['used'] - v['used_diff'], ref_size), o['diff']))
            row.append(cell(v['size'] - v['used'], v['size_diff'] - v['used_diff'], o['diff']))
            row.append(cell(v['size'], v['size_diff'], o['diff']))
        secs = []
        for sn, sv in v['sections'].items():
            if not _keep(sv['size_diff'], o):
                continue
            r = [cell(sv['size'], sv['size_diff'], o['diff'])]
            if has:
                p = _pct(sv['size'], v['size'])
                r.append(cell(p, p - _pct(sv['size'] - sv['size_diff'], ref_size), o['diff']))
            secs.append((_name(sn, sv, o), r))
        out[t] = (row, sorted(secs))
    return out


def _tree(m, o):
    def node(name, info, subs):
        return (name, cell(info['size'], info['size_diff'], o['diff']), subs)

    out = []
    for t, v in m['memory_types'].items():
        if not _keep(v['used_diff'], o):
            continue
        head = cell(v['used'], v['used_diff'], o['diff'])
        if v['size']:
            head += cell(v['size'], v['size_diff'], o['diff'])
        secs = []
        for sn, sv in v['sections'].items():
            if not _keep(sv['size_diff'], o):
                continue
            ars = []
            for an, av in sv['archives'].items():
                if not _keep(av['size_diff'], o) or (o['archive_details'] and av['abbrev_name'] != o['archive_details']):
                    continue
                obs = []
                for on, ov in av['object_files'].items():
                    if (o['archives'] and not o['archive_details']) or not _keep(ov['size_diff'], o):
                        continue
                    sys_ = []
                    for yn, yv in ov['symbols'].items():
                        if (o['files'] and not o['archive_details'] and not o['archives']) or not _keep(yv['size_diff'], o):
                            continue
                        sys_.append(node(yn, yv, []))
                    obs.append(node(_name(on, ov, o), ov, sys_))
                ars.append(node(_name(an, av, o), av, obs))
            secs.append(node(_name(sn, sv, o), sv, ars))
        out.append((t, head, secs))
    return canon(out)


def canon(tree):
    return tuple(sorted((n, c, canon(s)) for n, c, s in tree))


def _deps_norm(d):
    return {k: dict(v, archives={a: dict(i, symbols=sorted(i['symbols'])) for a, i in v['archives'].items()}) for k, v in d.items()}


def _deps_rows(d, o):
    if o['format'] == 'dot':
        nodes, edges = {}, []
        for k, v in d.items():
            nodes[k] = (_name(k, v, o), v['size'])
            for a, i in v['archives'].items():
                nodes[a] = (_name(a, i, o), i['size'])
                e = (a, k) if o['dep_reverse'] else (k, a)
                edges.append(e + (tuple(sorted(i['symbols'])) if o['dep_symbols'] else (),))
        return nodes, sorted(edges)
    out = []
    for k, v in d.items():
        subs = tuple(sorted((_name(a, i, o), i['size'], tuple(sorted(i['symbols'])) if o['dep_symbols'] else ())
                            for a, i in v['archives'].items()))
        out.append((_name(k, v, o), v['size'], subs))
    return sorted(out)


# ------------------------------------------------------------------------------------------------ parsed


class Bad(Exception):
    """The report cannot be understood."""


def _num(s):
    try:
        return int(s)
    except ValueError:
        return float(s)


def _cell(s, on):
    w = s.split()
    if len(w) != (2 if on else 1):
        raise Bad(f'cell {s!r}')
    return tuple(_num(x) for x in w)


def _matrix(text, fmt):
    if fmt == 'csv':
        rows = [r for r in csv.reader(io.StringIO(text)) if r]
        if not rows:
            raise Bad('empty CSV')
        n = len(rows[0])
        if any(len(r) != n for r in rows):
            raise Bad('ragged CSV')
        return [c.strip() for c in rows[0]], [[c for c in r] for r in rows[1:]]
    head, rows = None, []
    for line in text.splitlines():
        if line.startswith('┃'):
            head = [c.strip() for c in line.strip('┃').split('┃')]
        elif line.startswith('│'):
            rows.append([c[1:-1].rstrip() if i == 0 else c.strip() for i, c in enumerate(line[1:-1].split('│'))])
    if head is None:
        raise Bad('no table')
    if any(len(r) != len(head) for r in rows):
        raise Bad('ragged table')
    if not text.rstrip().endswith('┘'):
        raise Bad('table not closed')
    return head, rows


def _dict_no_dup(pairs):
    out = {}
    for k, v in pairs:
        if k in out:
            raise Bad(f'duplicate key {k!r}')
        out[k] = v
    return out


def parsed(text, o, exp):
    """Normalised structure of a report; `exp` supplies the kind and type names needed to interpret it."""
    kind, want = exp
    f = o['format']
    o = dict(o, diff=o['diff'] and not o['archive_dependencies'])
    text = ANSI.sub('', text)
    if f in ('raw', 'json2'):
        try:
            d = json.loads(text, object_pairs_hook=_dict_no_dup)
        except ValueError as e:
            raise Bad(f'not JSON: {e}')
        if kind == 'deps':
            return _deps_norm(d)
        if kind == 'summary':
            lay = {}
            for t in d['layout']:
                if t['name'] in lay:
                    raise Bad('duplicate type')
                lay[t['name']] = t
            d['layout'] = lay
        return d
    if f == 'tree':
        return _parse_tree(text, kind, o)
    if f == 'dot':
        return _parse_dot(text, o)
    head, rows = _matrix(text, f)
    if kind == 'summary':
        out, cur = {}, None
        for r in rows:
            nm = r[0]
            cells = [x for x in r[1:] if x.strip()]
            vals = [_cell(x, o['diff']) for x in cells]
            is_type = nm.strip() in want if f == 'csv' else not nm.startswith('   ')
            if is_type:
                cur = nm.strip()
                if cur in out:
                    raise Bad('type twice')
                out[cur] = (vals, [])
            else:
                if cur is None:
                    raise Bad('section without type')
                out[cur][1].append((nm.strip(), vals))
        return {k: (a, sorted(b)) for k, (a, b) in out.items()}
    if kind == 'deps':
        out = []
        for r in rows:
            if r[0].strip():
                out.append([r[0].strip(), int(r[1]), []])
            if r[2].strip():
                syms = [x.strip() for x in r[4].split('\n')] if o['dep_symbols'] else []
                out[-1][2].append([r[2].strip(), int(r[3]), syms])
            elif o['dep_symbols']:
                out[-1][2][-1][2].append(r[4].strip())
        return sorted((n, s, tuple(sorted((a, b, tuple(sorted(c))) for a, b, c in subs))) for n, s, subs in out)
    # archives, files, symbols
    types = set(exp_types(want))
    out = collections.Counter()
    for r in rows:
        cols = collections.Counter()
        cur = None
        for h, c in zip(head[2:], r[2:]):
            v = _cell(c, o['diff'])
            if h in types:
                cur = h
                cols[(h, '') + v] += 1
            else:
                cols[(cur, h) + v] += 1
        out[(r[0].strip(), _cell(r[1], o['diff']), frozenset(cols.items()))] += 1
    return out


def exp_types(want):
    for _n, _c, cols in want:
        for (t, _s, *_x), _k in cols:
            yield t


_GUIDE = re.compile(r'^((?:(?:│   |    |├── |└── ))*)')


def _parse_tree(text, kind, o):
    lines = text.splitlines()
    if not lines:
        raise Bad('empty tree')
    root = []
    stack = [root]
    for line in lines[1:]:
        g = _GUIDE.match(line).group(1)
        d = len(g) // 4
        if d < 1 or d > len(stack):
            raise Bad(f'tree line {line!r}')
        body = line[len(g):]
        node = [body, []]
        del stack[d:]
        stack[d - 1].append(node)
        stack.append(node[1])
    if kind == 'deps':
        out = []
        for b, subs in root:
            n, s = b.rsplit(' ', 1)
            out.append((n, int(s), tuple(sorted((x.rsplit(' ', 1)[0], int(x.rsplit(' ', 1)[1]), tuple(sorted(y[0] for y in ys)))
                                                for x, ys in subs))))
        return sorted(out)

    def conv(nodes, depth):
        out = []
        for b, subs in nodes:
            if depth == 0 and ' / ' in b:
                left, right = b.split(' / ')
                cells = tuple(_num(x) for x in right.split())
                b = left
            else:
                cells = ()
            w = b.rsplit(None, 2 if o['diff'] else 1)
            out.append((w[0], tuple(_num(x) for x in w[1:]) + cells, conv(subs, depth + 1)))
        return tuple(sorted(out))

    return conv(root, 0)


def _parse_dot(text, o):
    t = text.strip()
    if not t.startswith('strict digraph {') or not t.endswith('}'):
        raise Bad('not a digraph')
    body = t[len('strict digraph {'):-1]
    nodes, edges = {}, []
    for m in re.finditer(r'"([^"]*)" \[shape=(\w+), label="([^"]*) \((\d+)\)", style=filled, fillcolor="(\w+)"\]|"([^"]*)" -> "([^"]*)"(?: \[label="([^"]*)"\])?', body):
        if m.group(2):
            nodes[m.group(1)] = (m.group(3), int(m.group(4)))
        else:
            edges.append((m.group(6), m.group(7), tuple(sorted(m.group(8).split('\n'))) if m.group(8) is not None else ()))
    return nodes, sorted(edges)


# ------------------------------------------------------------------------------------------------ comparison


def compare(got, want, path=''):
    """First difference, or None.  Floats (percentages) are compared as displayed, to a hundredth."""
    if isinstance(want, (float, int)) and isinstance(got, (float, int)) and not isinstance(want, bool):
        if isinstance(want, float) or isinstance(got, float):
            return None if abs(got - want) < 0.011 else f'{path}: {got} instead of {want}'
        return None if got == want else f'{path}: {got} instead of {want}'
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return f'{path}/{k}: missing, expected {str(want[k])[:120]}'
        for k in got:
            if k not in want:
                return f'{path}/{k}: unexpected {str(got[k])[:120]}'
        for k in want:
            r = compare(got[k], want[k], f'{path}/{k}')
            if r:
                return r
        return None
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(got) != len(want):
            extra = [x for x in got if x not in want][:2]
            miss = [x for x in want if x not in got][:2]
            return f'{path}: {len(got)} entries instead of {len(want)}; unexpected {str(extra)[:200]}; missing {str(miss)[:200]}'
        for i, (g, x) in enumerate(zip(got, want)):
            r = compare(g, x, f'{path}[{i}]')
            if r:
                return r
        return None
    return None if got == want else f'{path}: {str(got)[:200]} instead of {str(want)[:200]}'
