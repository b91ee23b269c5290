"""Executable reference model: what the package must report about a generated firmware.

Derived from the firmware description (never from the emitted files) and from the definitions in
the package documentation.  Shares no code with the package; the memory map tree has the public
shape of memorymap.get()."""
import copy
import os

from . import firmware as F

LEVELS = ('sections', 'archives', 'object_files', 'symbols')


class Refused(Exception):
    """The tool must refuse this request with a diagnostic."""


# ------------------------------------------------------------------------------------------------
# memory regions and types


def split_regions(fw):
    """Pieces of the linker memory regions, each inside one chip memory type, in map order."""
    types = F.chip(fw['target'])

    def at(addr):
        for t in types:
            for base in (t['primary'], t['secondary']):
                if base and base <= addr < base + t['length']:
                    return t, base + t['length']
        return None, None

    out = []
    for r in fw['regions']:
        lo, hi = r['origin'], r['origin'] + r['length']
        while True:
            t, end = at(lo)
            if t is None:
                if lo == hi:
                    for q in out:
                        if q['hi'] == hi:
                            out.append({'lo': lo, 'hi': hi, 'type': q['type'], 'name': r['name']})
                            break
                break
            cut = min(hi, end)
            out.append({'lo': lo, 'hi': cut, 'type': t, 'name': r['name']})
            lo = cut
            if lo == hi:
                break
    return out


def type_sizes(fw, pieces):
    sizes, seen = {}, {}
    for t in F.chip(fw['target']):
        sizes[t['name']] = 0
        seen[t['name']] = []
    for p in pieces:
        nm = p['type']['name']
        shift = abs(p['type']['primary'] - p['type']['secondary']) if p['type']['secondary'] else 0
        alias = any(abs(q['lo'] - p['lo']) == shift and q['hi'] - q['lo'] == p['hi'] - p['lo'] for q in seen[nm])
        if not alias:
            sizes[nm] += p['hi'] - p['lo']
        seen[nm].append(p)
    return sizes


# ------------------------------------------------------------------------------------------------
# sections


def _by_name(name):
    return (
        name.endswith(('.text', '.data', '.bss', '.rodata', 'noinit', '.vectors'))
        or '.flash' in name
        or '.eh_frame' in name
    )


def dwarf_owner(fw):
    """Address -> (archive, object file) of symbols with debug info inside a component."""
    if not fw['dwarf']:
        return {}
    comps = sorted(F.components(fw).values(), key=lambda c: -len(c['dir']))
    out = {}
    for path, syms in F.dwarf_units(fw):
        own = next((c for c in comps if path.startswith(c['dir'])), None)
        for addr, size, name, typ in syms:
            if own is not None:
                out[addr] = (own['archive'], os.path.basename(path))
            else:
                out.pop(addr, None)
    return out


def placed(fw, elf, pd, use_dwarf):
    """Kept output sections: list of {name, lo, size, isecs: [{name, lo, size, fill, archive, obj}]}."""
    headers = None
    if elf:
        headers = {o['name'] for o in F.layout(fw) if o['alloc'] and o['size']} or None
    owner = {}
    sym_at = {}
    if use_dwarf and elf and pd:
        owner = dwarf_owner(fw)
        for addr, size, name, typ, _cu, _a in F.lto_symbols(fw):
            sym_at[addr] = (size, name)
    out = []
    for o in F.layout(fw):
        nm = o['name']
        if not o['size'] or nm.endswith(('dummy', 'reserved_for_iram', 'noload')):
            continue
        if headers is not None:
            if nm not in headers:
                continue
        elif not _by_name(nm):
            continue
        isecs = []
        for pos, it in o['items']:
            if it['k'] == 'isec':
                isecs.append({'name': it['name'], 'lo': pos, 'size': it['size'], 'fill': 0, 'archive': it['archive'],
                              'obj': it['obj']})
            elif it['k'] == 'ghost':
                isecs.append({'name': it['name'], 'lo': pos, 'size': 0, 'fill': 0, 'archive': it['archive'], 'obj': it['obj']})
            elif it['k'] in ('fill', 'bytes') and isecs:
                # padding belongs to the last input section with content
                for s in reversed(isecs):
                    if s['size']:
                        s['fill'] += it['size']
                        break
        if owner:
            new = []
            for s in isecs:
                if s['archive'] != '(exe)' or not s['size']:
                    new.append(s)
                    continue
                pos, end, parts = s['lo'], s['lo'] + s['size'], []
                for addr in sorted(a for a in owner if s['lo'] <= a < end):
                    if addr > pos:
                        parts.append(dict(s, lo=pos, size=addr - pos, fill=0))
                    size, name = sym_at[addr]
                    parts.append({'name': name, 'lo': addr, 'size': size, 'fill': 0, 'archive': owner[addr][0],
                                  'obj': owner[addr][1]})
                    pos = addr + size
                if pos < end:
                    parts.append(dict(s, lo=pos, size=end - pos, fill=0))
                parts[-1]['fill'] = s['fill']
                new += parts
            isecs = new
        out.append({'name': nm, 'lo': o['address'], 'size': o['size'], 'isecs': [s for s in isecs if s['size']]})
    return out


def add_symbols(fw, osecs, elf, load):
    isecs = [s for o in osecs for s in o['isecs']]
    for s in isecs:
        s['syms'] = []
    if not load:
        return
    if not elf:
        for s in isecs:
            s['syms'] = [(s['name'], s['lo'], s['size'])]
        return
    isecs.sort(key=lambda s: s['lo'])
    syms = [(a, z, n + ('()' if t == 'func' else '')) for a, z, n, t, _c, _a in F.lto_symbols(fw)]
    syms += [(r['value'], r['size'], r['name'] + '()') for r in fw['rom_syms'] if r['size']]
    syms.sort(key=lambda x: x[0])
    if not isecs:
        return
    last = None
    for a, z, n in syms:
        if a >= isecs[-1]['lo'] + isecs[-1]['size']:
            raise Refused('symbol outside every input section')
        for i, s in enumerate(isecs):
            if a < s['lo'] + s['size']:
                if a + z > s['lo'] + s['size']:
                    raise Refused('symbol does not fit')
                if a >= s['lo']:
                    s['syms'].append((n, a, z))
                last = i
                break
    # Input sections in front of the last symbol's one that have no symbol are shown by their own name.
    for s in isecs[: last or 0]:
        if not s['syms']:
            s['syms'] = [(s['name'], s['lo'], s['size'])]


def abbrev(name):
    return '.' + name.split('.')[-1]


def _cut(o, at):
    a = {'name': o['name'], 'lo': o['lo'], 'size': at - o['lo'], 'isecs': []}
    b = {'name': o['name'], 'lo': at, 'size': o['lo'] + o['size'] - at, 'isecs': []}
    for s in o['isecs']:
        end = s['lo'] + s['size'] + s['fill']
        if end <= at:
            a['isecs'].append(s)
        elif s['lo'] > at:
            b['isecs'].append(s)
        else:
            n1 = min(at - s['lo'], s['size'])
            s1 = dict(s, size=n1, fill=at - s['lo'] - n1, syms=[])
            s2 = dict(s, lo=at, size=s['size'] - n1, fill=s['fill'] - s1['fill'], syms=[])
            for n, x, z in s['syms']:
                if x + z <= at:
                    s1['syms'].append((n, x, z))
                elif x > at:
                    s2['syms'].append((n, x, z))
                else:
                    s1['syms'].append((n, x, at - x))
                    s2['syms'].append((n, at, z - (at - x)))
            a['isecs'].append(s1)
            b['isecs'].append(s2)
    return a, b


EXT_NAMES = ('External RAM', 'SPI DRAM')
EXT_SECS = ('.ext_ram.bss', '.ext_ram_noinit')


def memmap(fw, elf=True, pd=True, load_symbols=True, use_dwarf=False, path=''):
    if fw['target_style'] == 'none' and not pd:
        raise Refused('target unknown')
    types = F.chip(fw['target'])
    pieces = split_regions(fw)
    out = {}
    sizes = type_sizes(fw, pieces)
    for t in types:
        out[t['name']] = {'size': sizes[t['name']], 'size_diff': 0, 'used': 0, 'used_diff': 0, 'sections': {}}
    osecs = placed(fw, elf, pd, use_dwarf)
    img = 0
    have_headers = elf and any(o['alloc'] and o['size'] for o in F.layout(fw))
    if have_headers:
        img = sum(o['size'] for o in F.layout(fw) if o['alloc'] and not o['nobits'])
    else:
        img = sum(o['size'] for o in osecs if not o['name'].endswith(('.bss', 'noinit')))
    add_symbols(fw, osecs, elf, load_symbols)
    todo = []
    for o in osecs:
        while True:
            home = next((p for p in pieces if p['lo'] <= o['lo'] < p['hi']), None)
            if home is None or o['lo'] + o['size'] <= home['hi']:
                todo.append(o)
                break
            a, o = _cut(o, home['hi'])
            todo.append(a)
    ext = next((t['name'] for t in types if t['name'] in EXT_NAMES), None)
    ordered = sorted(pieces, key=lambda p: p['lo'])
    for o in todo:
        name = o['name']
        if ext and name.startswith(EXT_SECS):
            home = ext
        else:
            home, prev = None, None
            for p in ordered:
                if p['lo'] <= o['lo'] < p['hi']:
                    home = p['type']['name']
                    break
                if p['lo'] > o['lo'] and prev is not None:
                    home, name = prev['type']['name'], name + '_overflow'
                    break
                prev = p
        if home is None:
            continue
        t = out[home]
        t['used'] += o['size']
        sec = t['sections'].setdefault(name, {'abbrev_name': abbrev(name), 'size': 0, 'size_diff': 0, 'archives': {}})
        sec['size'] += o['size']
        for s in o['isecs']:
            ar = sec['archives'].setdefault(s['archive'], {'abbrev_name': os.path.basename(s['archive']), 'size': 0,
                                                           'size_diff': 0, 'object_files': {}})
            ob = ar['object_files'].setdefault(s['obj'], {'abbrev_name': os.path.basename(s['obj']), 'size': 0,
                                                          'size_diff': 0, 'symbols': {}})
            ar['size'] += s['size']
            ob['size'] += s['size']
            for n, _x, z in s['syms']:
                sy = ob['symbols'].setdefault(n, {'abbrev_name': n, 'size': 0, 'size_diff': 0})
                sy['size'] += z
    return {'version': '1.0', 'target': fw['target'], 'target_diff': '', 'image_size': img, 'image_size_diff': 0,
            'project_path': path, 'project_path_diff': '', 'memory_types': out}


# ------------------------------------------------------------------------------------------------
# operations on maps


def remove_unused(m):
    m['memory_types'] = {k: v for k, v in m['memory_types'].items() if v['used']}
    for v in m['memory_types'].values():
        v['sections'] = {k: s for k, s in v['sections'].items() if s['archives']}
        v['used'] = sum(s['size'] for s in v['sections'].values())


def ignore_flash(m):
    for k, v in m['memory_types'].items():
        if 'flash' in k.lower():
            v['size'] = 0


def _pair(cur, ref, level):
    """Union of two dictionaries of nodes."""
    out = {}
    for k in list(cur) + [k for k in ref if k not in cur]:
        c, r = cur.get(k), ref.get(k)
        node = {}
        base = c if c is not None else r
        if level >= 0:
            node['abbrev_name'] = base['abbrev_name']
        keys = ('size', 'used') if level < 0 else ('size',)
        for q in keys:
            node[q] = c[q] if c is not None else 0
            node[q + '_diff'] = (c[q] if c is not None else 0) - (r[q] if r is not None else 0)
        if level + 1 < len(LEVELS):
            sub = LEVELS[level + 1]
            node[sub] = _pair(c[sub] if c is not None else {}, r[sub] if r is not None else {}, level + 1)
        out[k] = node
    return out


def diff(cur, ref):
    return {'version': cur['version'], 'target': cur['target'], 'target_diff': ref['target'], 'image_size': cur['image_size'],
            'image_size_diff': cur['image_size'] - ref['image_size'], 'project_path': cur['project_path'],
            'project_path_diff': ref['project_path'], 'memory_types': _pair(cur['memory_types'], ref['memory_types'], -1)}


def _uni(nodes, level):
    groups = {}
    for n in nodes.values():
        groups.setdefault(n['abbrev_name'], []).append(n)
    out = {}
    for k, g in groups.items():
        node = {'abbrev_name': k, 'size': sum(n['size'] for n in g), 'size_diff': sum(n['size_diff'] for n in g)}
        if level + 1 < len(LEVELS):
            sub = LEVELS[level + 1]
            merged = {}
            for i, n in enumerate(g):
                for kk, c in n[sub].items():
                    merged[(i, kk)] = c
            node[sub] = _uni(merged, level + 1)
        out[k] = node
    return out


def unify(m):
    for v in m['memory_types'].values():
        v['sections'] = _uni(v['sections'], 0)


def clone(m):
    return copy.deepcopy(m)


# ------------------------------------------------------------------------------------------------
# reports

DEFAULTS = dict(archives=False, archive_dependencies=False, dep_symbols=False, dep_reverse=False, archive_details=None,
                files=False, diff=False, no_abbrev=False, unify=False, show_unused=False, show_unchanged=False,
                use_flash_size=False, lto=None, format='table')


def kind_of(o):
    if o['format'] == 'raw':
        return 'deps' if o['archive_dependencies'] else 'raw'
    if o['format'] == 'dot':
        if not o['archive_dependencies']:
            raise Refused('dot needs dependencies')
        return 'deps'
    if o['format'] == 'tree':
        return 'deps' if o['archive_dependencies'] else 'tree'
    if o['archives']:
        return 'archives'
    if o['archive_details']:
        return 'symbols'
    if o['archive_dependencies']:
        return 'deps'
    if o['files']:
        return 'files'
    return 'summary'


def pipeline(cur, ref, o):
    """cur/ref: (fw, dict(elf, pd, sdk, path)).  Memory map as shown by the command line."""
    load = bool(o['archive_details']) or o['format'] == 'raw'

    def dwarf(fw, env):
        if o['lto'] is None:
            # without the sdkconfig nothing is known about LTO
            return bool(env['sdk'] and fw['lto'])
        return bool(o['lto'] and (o['archive_details'] or o['archives'] or o['files'] or o['format'] == 'raw'))

    def one(fw, env):
        m = memmap(fw, env['elf'], env['pd'], load, dwarf(fw, env), env['path'])
        if not o['show_unused']:
            remove_unused(m)
        if not o['use_flash_size']:
            ignore_flash(m)
        return m

    m = one(*cur)
    if ref is not None and not o['archive_dependencies']:
        m = diff(m, one(*ref))
    if o['unify']:
        unify(m)
    return m


def summary(m, kind, o):
    out = {}
    blank = {t: {'size': 0, 'size_diff': 0, 'sections': {s: {'size': 0, 'size_diff': 0, 'abbrev_name': i['abbrev_name']}
                                                         for s, i in v['sections'].items()}}
             for t, v in m['memory_types'].items()}
    found = False
    for t, tv in m['memory_types'].items():
        for s, sv in tv['sections'].items():
            for a, av in sv['archives'].items():
                rows = []
                if kind == 'archives':
                    rows = [(a, av['abbrev_name'], av)]
                elif kind == 'files':
                    rows = [((ov['abbrev_name'] if o['unify'] else a + ':' + on), ov['abbrev_name'], ov)
                            for on, ov in av['object_files'].items()]
                elif av['abbrev_name'] == o['archive_details']:
                    rows = [((yv['abbrev_name'] if o['unify'] else ':'.join([a, on, yn])), yn, yv)
                            for on, ov in av['object_files'].items() for yn, yv in ov['symbols'].items()]
                for full, ab, node in rows:
                    found = True
                    e = out.setdefault(full, {'abbrev_name': ab, 'size': 0, 'size_diff': 0, 'memory_types': copy.deepcopy(blank)})
                    for k in ('size', 'size_diff'):
                        e[k] += node[k]
                        e['memory_types'][t][k] += node[k]
                        e['memory_types'][t]['sections'][s][k] += node[k]
    if kind == 'symbols' and not found:
        raise Refused('archive not found')
    if o['diff'] and not o['show_unchanged']:
        out = {k: v for k, v in out.items() if v['size_diff']}
    return out


def json_summary(m, o):
    lay = {}
    for t, v in m['memory_types'].items():
        parts = {}
        for s, i in v['sections'].items():
            n = s if (o['no_abbrev'] and not o['unify']) else i['abbrev_name']
            parts.setdefault(n, {'size': 0})['size'] += i['size']
        lay[t] = {'name': t, 'total': v['size'], 'used': v['used'], 'free': v['size'] - v['used'] if v['size'] else 0,
                  'parts': parts}
    return {'version': '1.2', 'total_size': m['image_size'], 'layout': lay}


def deps(fw, env, m, o):
    if not fw['crt_present'] or not fw['crt']:
        raise Refused('no cross reference table')
    arch = summary(m, 'archives', dict(o, diff=False))
    if not env['elf']:
        raise Refused('dependencies need an ELF file')
    known = {n for _a, _z, n, _t, _c, _ar in F.lto_symbols(fw)}
    crt = {}
    for sym, d, refs in fw['crt']:
        crt[sym] = (d[0], [r[0] for r in refs])
    out = {}
    for sym, (d, refs) in crt.items():
        if sym not in known or d not in arch:
            continue
        users = {r for r in refs if r in arch and r != d}
        for u in users:
            left, right = (d, u) if o['dep_reverse'] else (u, d)
            e = out.setdefault(left, {'abbrev_name': os.path.basename(left), 'size': arch[left]['size'], 'archives': {}})
            f = e['archives'].setdefault(right, {'abbrev_name': os.path.basename(right), 'size': arch[right]['size'], 'symbols': []})
            f['symbols'].append(sym)
    return out
