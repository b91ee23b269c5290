"""Seeded damage of input files: torn and lost writes, bit rot, foreign content, hostile structure."""
import re

from . import scenario as S

NUMS = ['0x0', '0x', '0xffffffffffffffff', '-0x10', '0xzz', '0x1', '0x40000000', '0x3ffffff0', '0xffffffff', '12', '1e9', '',
        '0x10000000000000000', '0x7fffffff', '0x20000', '0x' + 'f' * 5000, '9' * 5000, '0x3fc88000', '\u0661', '0_1', '0x_', '0b1', '010']
LINES = ['', ' ', 'x', '.flash.text  zz 0x1', ' .text 0x10 0xzz a.o', ' *fill*', ' *fill* 0x0 0x4', '.dram0.bss', '.iram0.text 0x40080000',
         'Memory Configuration', 'Name  Origin  Length  Attributes', 'Linker script and memory map', 'Cross Reference Table', 'Symbol  File',
         'OUTPUT(x elf32)', 'END GROUP', 'LOAD x', '*default* 0x0 0xffffffff', 'a b c d e f', ' .text', ' .text\t0x40080000', '\t0x10', '(', ' ()',
         ' .text 0x40080000 0x10 lib(a.o', ' .text 0x40080000 0x10', '[bold] .x 0x0 0x10 y[/bold].o', '[/]', 'IDF_TARGET_ESP99 = 0x0',
         'IDF_TARGET_ = 0x0', 'IDF_TARGET_../../x = 0x0', '                0x40080000 0x10 (size before relaxing)',
         '                0x40080000 sym = .', '  0x10  (size before relaxing)', ' .bss           0x3ffffffffffffff0     0x100 a.o',
         'neg 0x0 -0x10', 'seg 0x40000000 0x1000000000 xrw', 'iram0_0_seg 0x40080000 0x20000 xr', ' SHORT', ' BYTE 0x1', '  0x40080000 LONG', '  0x40080000 0x2 BYTE', ' QUAD QUAD QUAD QUAD',
         '                0x40080000        0x4 LONG', '  0xzz 0x4 LONG 0x1', '  0x40080000 zz SHORT 0x1', '  0x40080000 0x8 QUAD 0x0 x',
         'TARGET(x)', 'OUTPUT', 'START GROUP', '-0x1', '.x -0x1 -0x1', ' .y -0x1 0x10 z.o', '/DISCARD/', 'Discarded input sections',
         'Archive member included to satisfy reference by file (symbol)', ' *fill* 0x40080000 -0x4', ' *(.text)', '.z 0x0 0x0',
         '.iram0.text 0x40080000 0x20000 load address 0x0']
JSON = [b'', b'{', b'[]', b'null', b'0', b'"x"', b'{}', b'\xff\xfe', b'[' * 100000, b'{"a":' * 30000, b'true', b'NaN', b'{"a": 1e999}', b'\x00',
        b'{"target": 5}', b'{"target": []}', b'{"target": "esp99"}', b'{"target": "../../etc/passwd"}', b'{"target": null}', b'{"target": ""}',
        b'{"app_elf": 7, "target": "esp32"}', b'{"app_elf": "", "target": "esp32"}', b'{"app_elf": ".", "target": "esp32"}',
        b'{"app_elf": "\\u0000", "target": "esp32"}', b'{"app_elf": "nosuch.elf"}', b'{"app_elf": null}', b'{"app_elf": ["x"]}',
        b'{"target": "\\ud800"}', b'{"app_elf": "\\ud800.elf"}',
        b'{"build_component_info": [], "target": "esp32", "app_elf": "x"}', b'{"build_component_info": 3}', b'{"build_component_info": {"a": 3}}',
        b'{"build_component_info": {"a": {}}}', b'{"build_component_info": {"a": {"dir": 3, "file": 5}}}',
        b'{"COMPILER_LTO_LINKTIME": true}', b'{"COMPILER_LTO_LINKTIME": "x"}', b'{"COMPILER_LTO_LINKTIME": []}', b'[{"a": 1}]',
        b'9' * 5000, b'{"x": ' + b'9' * 5000 + b'}']
FOREIGN = [b'', b'\x00' * 64, b'\x7fELF', b'\x7fELF' + b'\xff' * 60, b'\xff\xfe\x00', b'not a map\n', b'\x89PNG\r\n', b'{}', b'Memory Configuration\n',
           b'Memory Configuration\n\nName\n', b'Memory Configuration\n\nName\n\nLinker script and memory map\n',
           b'Memory Configuration\n\nName Origin Length Attributes\n\nLinker script and memory map\nIDF_TARGET_ESP32 = 0x0\n',
           b'\xef\xbb\xbfMemory Configuration\n', b'\n' * 1000, b'\x7fELF\x01\x01\x01' + b'\x00' * 9]
ELF_WORDS = ['00000000', 'ffffffff', '01000000', '7fffffff', '00000080', '34000000', 'feffffff', '10000000', '00000100', '0000ff7f', '80808080',
             'ffffffffffffffff', '8080808080808080808080808080808080', '00' * 40, 'ff' * 40]


# very long lines: (prefix, fragment, suffix)
LONG = [('LOAD ', '/a', ''), ('LOAD ', 'a', '.o'), ('LOAD ', '/', 'x'), (' .text.', 'x', ' 0x40080000 0x10 a.o'), (' .text 0x40080000 0x10 ', '(', ''),
        (' .text 0x40080000 0x10 ', 'a/', 'lib.a(b.o)'), (' .text 0x40080000 0x10 ', ' ', ''), (' .text 0x40080000 0x', 'f', ' a.o'),
        (' .text 0x', 'f', ' 0x10 a.o'), ('.flash.text 0x42000020 0x', 'f', ''), ('.', 'x.', ' 0x42000020 0x10'), (' *fill* 0x40080000 0x', '9', ''),
        ('', ' ', ''), ('', '\t', 'x'), ('', 'IDF_TARGET_', ''), ('IDF_TARGET_', 'A', ' ='), ('', 'x', ''), ('', 'project_elf_src_', '.c.ob'),
        ('seg 0x40000000 0x', 'f', ' xrw'), ('', 'a ', ''), ('', '[', ']'), ('', '[/', ''), ('sym', 'x', ' lib.a(b.o)'), (' 0x10 0x', '7', ' LONG 0x0'),
        ('', '0', ''), ('-', '-', ' = .'), ('', '= ', ''), ('', '.', ''), ('(', 'size ', ')')]


def gen_ops(rng, data, kind):
    """Damage operations for one file of `kind` ('map', 'elf', 'pd', 'sdk') whose healthy content is `data`."""
    n = len(data)
    r = rng.random()
    if kind in ('pd', 'sdk'):
        if r < 0.5:
            return [['replace', rng.choice(JSON).hex()]]
        if r < 0.65:
            return [['trunc', rng.randrange(n + 1)]]
        if r < 0.75:
            return [['flip', rng.randrange(max(1, n)), rng.choice([1, 2, 4, 16, 32, 128, 255])]]
        # change the type of one value
        t = data.decode()
        m = [x for x in re.finditer(r':\s*("(?:[^"\\]|\\.)*"|true|false|null|-?\d+|\[|\{)', t)]
        if m:
            q = rng.choice(m)
            if q.group(1) not in ('[', '{'):
                pos = len(t[: q.start(1)].encode())
                return [['del', pos, len(q.group(1).encode())], ['ins', pos, rng.choice([b'null', b'7', b'[]', b'{}', b'""', b'true', b'"\\u0000"', b'"x"',
                                                                                     b'-1', b'[null]', b'{"a": null}', b'1.5']).hex()]]
        return [['trunc', rng.randrange(n + 1)]]
    if kind == 'elf':
        if r < 0.2:
            return [['trunc', rng.randrange(n + 1) if rng.random() < 0.7 else rng.randrange(min(n, 200) + 1)]]
        if r < 0.25:
            return [['replace', rng.choice(FOREIGN).hex()]]
        ops = []
        anchors = [0, 0]
        # where the section headers, debug data and string tables are
        shoff = int.from_bytes(data[32:36], 'little') if n > 52 else 0
        anchors += [shoff] * 3
        cnt = max(0, (n - shoff) // 40) if shoff else 0
        for i in range(cnt):
            o = int.from_bytes(data[shoff + 40 * i + 16:shoff + 40 * i + 20], 'little')
            anchors.append(o)
        if rng.random() < 0.3 and n > 52:
            # one field of the ELF header, of a section header or of a symbol
            for _ in range(rng.choice([1, 1, 2])):
                q = rng.random()
                if q < 0.15 or not cnt:
                    p, size = rng.choice([(4, 1), (5, 1), (6, 1), (16, 2), (18, 2), (20, 4), (32, 4), (40, 2), (46, 2), (48, 2), (50, 2)])
                elif q < 0.8:
                    p, size = shoff + 40 * rng.randrange(cnt) + 4 * rng.choice([0, 1, 3, 4, 5, 6, 7, 8, 9, 9]), 4
                else:
                    s = shoff + 40 * rng.randrange(cnt)
                    p = int.from_bytes(data[s + 16:s + 20], 'little') + 16 * rng.randrange(1 + int.from_bytes(data[s + 20:s + 24], 'little') // 16)
                    k = rng.choice([(0, 4), (4, 4), (8, 4), (12, 1), (13, 1), (14, 2)])
                    p, size = p + k[0], k[1]
                old = int.from_bytes(data[p:p + size], 'little')
                v = rng.choice([0, 0, 0, 1, 2, 3, 8, 16, 40, 255, (1 << 8 * size) - 1, 1 << (8 * size - 1), old + 1, old - 1, old * 2, old // 2,
                                rng.getrandbits(8 * size)]) % (1 << 8 * size)
                ops.append(['put', p, v.to_bytes(size, 'little').hex()])
            return ops
        for _ in range(rng.choice([1, 1, 1, 2, 4, 8])):
            base = rng.choice(anchors)
            span = rng.choice([16, 64, 400, n])
            p = min(n - 1, max(0, base + rng.randrange(span))) if n else 0
            q = rng.random()
            if q < 0.45:
                ops.append(['flip', p, rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])])
            elif q < 0.75:
                ops.append(['put', p & ~3 if rng.random() < 0.7 else p, rng.choice(ELF_WORDS)])
            elif q < 0.85:
                ops.append(['zero', p, rng.choice([4, 16, 40, 512])])
            elif q < 0.93:
                ops.append(['del', p, rng.choice([1, 4, 40])])
            elif q < 0.99:
                ops.append(['ins', p, rng.choice(ELF_WORDS)])
            else:
                ops.append(['ins', p, rng.choice(['80', 'ff', '01', '00']) * rng.choice([500, 8000])])
        return ops
    nl = data.count(b'\n') + 1
    if r < 0.18:
        return [['trunc', rng.randrange(n + 1)]]
    if r < 0.24:
        return [['replace', rng.choice(FOREIGN).hex()]]
    if r < 0.27:
        return [['cutend', rng.randrange(60)]]
    lines = data.split(b'\n')
    numbered = [i for i, x in enumerate(lines) if b'0x' in x] or [0]
    heads = [i for i, x in enumerate(lines) if x[:1] not in (b' ', b'\t', b'')] or [0]
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        q = rng.random()
        i = rng.choice(numbered) if q < 0.6 and rng.random() < 0.7 else rng.choice(heads) if rng.random() < 0.5 else rng.randrange(nl)
        if q < 0.4:
            v = rng.choice(NUMS) if rng.random() < 0.6 else hex(rng.getrandbits(rng.choice([4, 8, 16, 20, 31, 32, 33, 64])))
            ops.append(['lnum', i, rng.randrange(3), v])
        elif q < 0.5:
            ops.append(['ldel', i])
        elif q < 0.6:
            ops.append(['ldup', i])
        elif q < 0.7:
            ops.append(['lswap', i, rng.randrange(nl)])
        elif q < 0.78:
            ops.append(['lset', i, rng.choice(LINES)])
        elif q < 0.85:
            # a word lost, doubled, cut, or the rest of the line lost
            words = [j for j, x in enumerate(lines) if any(k in x for k in (b'BYTE', b'SHORT', b'LONG', b'QUAD', b'fill', b'(size', b'LOAD', b'='))]
            if words and rng.random() < 0.4:
                i = rng.choice(words)
            ops.append(['lword', i, rng.randrange(6), rng.choice(['drop', 'drop', 'dup', 'end', 'end', 'half', 'join'])])
        elif q < 0.92:
            ops.append(['flip', rng.randrange(max(1, n)), rng.choice([1, 2, 4, 16, 32, 64, 128])])
        elif q < 0.935:
            a, b, c = rng.choice(LONG)
            ops.append(['llong', i, a, b, rng.choice([30, 300, 5000, 20000]), c])
        elif q < 0.955:
            ops.append(['lrep', i, rng.choice([2, 40, 300, 1500]), rng.choice([1, 1, 2, 3, 8])])
        elif q < 0.985:
            # an odd name where the numbers are wrong, too
            m = [(j, x) for j, x in enumerate(lines[:-1]) if x.startswith((b' .', b'.')) and b'0x' not in x and b'0x' in lines[j + 1]]
            if m:
                j, x = rng.choice(m)
                a = lines[j + 1].split()[0]
                if a.startswith(b'0x') and len(a) > 2:
                    name = rng.choice(['.[/]', '.text.[/x]', '.text.[red', '.x[/bold]', '.text.:bug:', '.text.{x}', '.text.%s', '.\u6f22[/]'])
                    ops.append(['lset', j, (' ' if x[:1] == b' ' else '') + name])
                    ops.append(['lnum', j + 1, 0, hex(max(0, int(a, 16) + rng.choice([-1, 1, 2, 4, 0x100])))])
        else:
            ops.append(['zero', rng.randrange(max(1, n)), rng.choice([1, 16, 512, 4096])])
    return ops


def gen_damage(rng, case, sides=None, kinds=('map', 'map', 'map', 'elf', 'elf', 'pd', 'sdk')):
    """Adds damage of one or two files to a copy of the case."""
    dmg = {}
    healthy = dict(case, dmg={})
    for _ in range(rng.choice([1, 1, 1, 2])):
        side = rng.choice(sides or sorted(case['fw']))
        k = rng.choice(kinds)
        rel = S.paths(case, side)[k]
        data = S.emit(healthy, side).get(rel)
        if data is None:
            continue
        dmg[f'{side}.{k}'] = gen_ops(rng, data, k)
    return dict(case, dmg=dmg)
