"""C07: the report depends only on the inputs and options."""
import os
import random
import re

from sim import report as R
from sim import scenario as S
from .c02 import dest
from .common import *

RUNS = {'quick': 1500, 'thorough': 9000}
LEVEL = 'exploration'
RULE = ('one case = one simulated run in a seeded environment (hash seed, terminal and colour variables, locale encoding, working directory, clock, file times, '
        'IDE channel absent/refusing/dying/working, umask-neutral variables), optionally with short reads; the report is compared with the run '
        'of the same inputs and options in the reference environment; distinct by (options, environment dimensions varied, outcome)')
STUBS = STUBS + ['IDE notification channel (a websocket object that refuses, hangs up, dies or works)', 'clock (offset)', 'locale encoding']
ASSUMES = ['colour variables and --force-terminal may add terminal control sequences on standard output, nowhere else',
           'in a locale without box drawing characters tables and trees may use other frame characters; their words and numbers stay the same']
SEEDS = [1, 77, 4242, 9, 31337, 5]
ENV = [('COLUMNS', ['1', '20', '400', 'x', '0']), ('LINES', ['1', '500']), ('NO_COLOR', ['1', '']), ('FORCE_COLOR', ['1', '3', '']),
       ('TERM', ['dumb', 'xterm-256color', 'unknown', '']), ('TTY_COMPATIBLE', ['1', '0']), ('TTY_INTERACTIVE', ['1']), ('COLORTERM', ['truecolor']),
       ('TZ', ['Asia/Tokyo', 'America/New_York', 'bogus']), ('HOME', ['/', '/nonexistent/x']), ('LANG', ['C', 'de_DE.UTF-8', 'tr_TR.UTF-8', '']),
       ('LC_ALL', ['C', 'POSIX', '']), ('LC_NUMERIC', ['de_DE.UTF-8']), ('IDF_PATH', ['/nonexistent/idf']), ('JUPYTER_COLUMNS', ['33']),
       ('ESP_IDF_SIZE_FORCE_TERMINAL', ['1']), ('USER', ['nobody', '']), ('TMPDIR', ['/nonexistent']), ('UNICODE_VERSION', ['9.0.0']),
       ('IDF_TARGET', ['esp8266', '']), ('PYTHONOPTIMIZE', ['2']), ('CI', ['true']), ('BUILD_DIR', ['/elsewhere'])]
LOCALES = ['ascii', 'latin-1', 'cp1252', 'cp437', 'utf-8', 'cp932', 'koi8-r', 'cp1250']
VALUES = ['1', '0', '', 'x', 'true', '7', '-1', '/nonexistent', 'json2', 'C', 'esp32', 'a b', 'no', '4096', 'bytes', 'kB', 'abbrev', 'size', 'DEBUG']
# what the shipped code and its libraries consult (the IDE channel is varied through 'ws', the theme belongs to the help text)
KNOWN = {k for k, _ in ENV} | {'ESP_IDE_WS', 'LANGUAGE', 'LC_MESSAGES', 'LC_CTYPE', 'RICH_CLICK_THEME'}
COLOUR = {'FORCE_COLOR', 'NO_COLOR', 'TERM', 'TTY_COMPATIBLE', 'TTY_INTERACTIVE', 'COLORTERM', 'ESP_IDF_SIZE_FORCE_TERMINAL'}


def gen(rng, w, i):
    case = S.gen_case(rng, opts={'unicode': True} if rng.random() < 0.5 else None)
    case['argv'] = [a for a in case['argv'] if a != '--debug']
    case['paths'] = 'abs'
    if rng.random() < 0.3 and case['fw']['a']['unicode']:
        case['stem'] = {'a': rng.choice(['größe', '温度計', 'měření'])}
    for _ in range(7):
        v = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            r = rng.random()
            if r < 0.3:
                v['hashseed'] = rng.choice(SEEDS)
            elif r < 0.6:
                v.setdefault('env', {})
                for _ in range(rng.choice([1, 2, 4])):
                    k, vals = rng.choice(ENV)
                    v['env'][k] = rng.choice(vals)
            elif r < 0.72:
                v['cwd'] = rng.choice(['cwd', 'a', ''])
            elif r < 0.75:
                v['mt'] = rng.randrange(1, 9)
            elif r < 0.8:
                v['clock'] = rng.choice([-10 ** 9, 10 ** 9, 86400, -3600, 5])
            elif r < 0.83:
                v['tty'] = True
            elif r < 0.84:
                v[rng.choice(['stdin', 'rand'])] = rng.randrange(1, 50)
            elif r < 0.85:
                v['umask'] = rng.choice([0, 0o077, 0o027])
            elif r < 0.87:
                v['listing'] = rng.choice(['up', 'down'])
            elif r < 0.93:
                v['ws'] = rng.choice(['refuse', 'hangup', 'die', 'ok'])
            elif case.get('out'):
                v['locale'] = rng.choice(LOCALES)
        yield dict(case, vary=v, faults=[])
    # whatever variables this run consults beyond the ones listed here
    if i % 3 == 0:
        yield dict(case, vary={'asked': rng.randrange(10 ** 6)}, faults=[])


def go(case, w, v):
    kw = {k: v[k] for k in ('hashseed', 'clock', 'mt', 'rand', 'stdin', 'umask', 'ws', 'locale', 'tty', 'listing') if k in v}
    env = dict(v.get('env', {}))
    if 'ws' in v:
        env['ESP_IDE_WS'] = env.get('ESP_IDE_WS', 'ws://127.0.0.1:9')
    if 'ESP_IDF_SIZE_FORCE_TERMINAL' in env or v.get('reimport'):
        kw['reimport'] = True
    c = dict(case, env=env)
    if 'cwd' in v:
        c['cwd'] = v['cwd']
    return run(c, w, (), cache=not v, **kw)


def strip(b):
    return R.ANSI.sub('', b.decode(errors='replace')).encode()


WORD = re.compile(r'[0-9A-Za-z_\\]+')


def words(t):
    return WORD.findall(re.sub('[\u2500-\u259f]', ' ', t))


def judge(case, w, st):
    v = case['vary']
    g = go(case, w, {})
    if 'asked' in v:
        asked = sorted(n for n in run(case, w, (), watch_env=True)['env_read'] - KNOWN if not n.endswith('_COMPLETE'))
        st.count('runs whose environment lookups were watched')
        rng = random.Random(v['asked'])
        for name in asked:
            for val in rng.sample(VALUES, 4):
                st.count('unlisted variable varied')
                judge(dict(case, vary={'env': {name: val}, 'reimport': True}), w, st)
        st.case((opts_sig(case), 'asked', g['code'], tuple(asked)), bool(asked), sample(case, g, {'vary': v}))
        return
    res = go(case, w, v)
    dims = tuple(sorted(v)) + tuple(sorted(v.get('env', ())))
    st.case((opts_sig(case), dims, res['code']), bool(v), sample(case, res, {'vary': v}))
    for d in sorted(v):
        st.count('varied ' + d)
    what = f'environment {v}'
    if res['code'] != g['code']:
        raise Violation('status', f'{what}: exit status {res["code"]} instead of {g["code"]}: {show(res["stderr"][-300:])}')
    if g['code'] != 0:
        return
    got, want = dest(res, case), dest(g, case)
    if got is None or want is None:
        raise Violation('missing', f'{what}: no output file')
    if not case.get('out'):
        if v.get('tty') or (set(v.get('env', ())) & COLOUR) or '--force-terminal' in case['argv']:
            got, want = strip(got), strip(want)
    else:
        enc = v.get('locale')
        if enc and enc != 'utf-8':
            try:
                t = got.decode(enc)
            except UnicodeError as e:
                raise Violation('encoding', f'{what}: the output file is not {enc} text: {e}')
            ref = want.decode()
            fmt = R.options(case)['format']
            if '\x1b' in t:
                raise Violation('control', f'{what}: terminal control sequences in the output file')
            a, b = t, ref.encode(enc, 'backslashreplace').decode(enc)
            if fmt in ('table', 'tree'):
                a = words(t)
                b = words(re.sub('[\u2500-\u259f]', ' ', ref).encode(enc, 'backslashreplace').decode(enc))
            if a != b:
                k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation('environment', f'{what}: report differs at {k}: {a[max(0, k - 10):k + 30]!r} instead of {b[max(0, k - 10):k + 30]!r}')
            return
        if b'\x1b' in got:
            raise Violation('control', f'{what}: terminal control sequences in the output file')
    if got != want:
        raise Violation('environment', f'{what}: another report: ' + first_diff(w.norm(got), w.norm(want)))


def shrinks(case):
    v = case['vary']
    for k in list(v):
        yield dict(case, vary={x: y for x, y in v.items() if x != k})
    for k in v.get('env', ()):
        yield dict(case, vary=dict(v, env={x: y for x, y in v['env'].items() if x != k}))
