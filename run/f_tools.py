"""The programs: sequences of runs in a directory of files, validated against
ToolsTrace.  A history is a list of steps; each is executed in a directory of
its own inside the scratch directory."""
import concurrent.futures as cf
import math
import os
import re
import shutil
import subprocess
import tempfile

import geom
from core import CheckError, Coords, Ids, MAXTROUBLE, NCPU, exact, num, prog_env, quick, rng, scratch

NAN = float('nan')
FU = 1 << 22


class Dec:
    """numbers known by their 15 significant digits"""

    def __init__(self):
        self.t = {}

    def of(self, v):
        k = '%.15g' % v
        return self.t.setdefault(k, len(self.t) + 1)


class Hist:
    def __init__(self, tid, enc):
        self.id = tid
        self.enc = enc          # Coords or Dec
        self.steps = []
        self.cmds = []          # readable account
        self.events = None
        self.skipped = False
        self.ids = {}           # texts
        self.kinds = {}         # file -> kind

    def tid(self, s):
        return self.ids.setdefault(s, len(self.ids) + 1)

    def put(self, name, lines, kind='grid', last=True, special=None):
        """lines: texts without newline; last: final newline; special: 'missing' or 'dir'"""
        text = ''.join(x + '\n' for x in lines)
        if not last and text.endswith('\n'):
            text = text[:-1]
        self.kinds[name] = kind
        self.steps.append(('put', name, text, kind, special))
        self.cmds.append('put %s (%s%s) %r' % (name, kind, ' ' + special if special else '', text[:600]))

    def run(self, op, argv, stdin=None, **w):
        """w: fields of the event; extra runs in w['also'] as {field: argv}"""
        self.steps.append(('run', op, argv, stdin, w))
        self.cmds.append(' '.join(argv) + (' < ' + stdin if stdin else ''))


# ------------------------------------------------------------- encoding
def ntok(h, s, mul=1, out=False):
    """a token: number, NaN, word"""
    if out:
        if s == 'NaN':
            return [0]
        if not re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', s):
            return [2]
    try:
        v = float(s)
    except ValueError:
        return [2]
    if v != v:
        return [0]
    if v in (math.inf, -math.inf):
        return [3]
    if isinstance(h.enc, Dec):
        return [1, h.enc.of(v)]
    # (the encoding of the node coordinates has one offset for x and y here)
    a = exact(v, h.enc.mul, h.enc.ox) if mul == 1 else exact(v, mul, 0)
    return [3] if a is None else [1, a]


def line_rec(h, text, kind, out=False):
    """text includes the newline, if any"""
    t = text[:-1] if text.endswith('\n') else text
    o = {}
    if kind in ('grid', 'set', 'gridmask', 'gridpts', 'gridpts8'):
        m = re.match(r'##\s*([-+]?\d+)\s*x\s*([-+]?\d+)', t) if not out else re.fullmatch(r'## (\d+) x (\d+)', t)
        o['h'] = [int(m.group(1)), int(m.group(2))] if m else []
    if kind == 'poly':
        m = re.fullmatch(r'## (\d+)', t)
        o['h'] = [int(m.group(1))] if m else []
    if kind in ('grid', 'poly', 'gridmask', 'gridpts', 'gridpts8', 'pts', 'pts8', 'polyij', 'data'):
        w = t.split()
        o['v'] = [ntok(h, x, out=out, mul=8 if kind == 'pts8' else 1) for x in w[:3]]
        if out and t != ' '.join(w):
            o['v'] = [[2]]
    if kind == 'polyij':
        m = re.fullmatch(r'## (\d+)', t)
        o['h'] = [int(m.group(1))] if m else []
        w = t.split()
        o['v'] = [[1, int(x)] if re.fullmatch(r'\d+', x) else [2] for x in w[:3]]
    if kind in ('mask', 'gridmask'):
        o['m'] = int(t) if t in ('0', '1') else -1
    if kind in ('set', 'pts', 'pts8'):
        o['x'] = h.tid(text)
    if kind in ('pts', 'pts8'):
        m = re.match(r'\s*\S+\s+\S+\s*([^\n]*)', t)
        o['r'] = h.tid('r' + (m.group(1) if m else ''))
    return o


def split(text):
    return re.findall(r'[^\n]*\n|[^\n]+$', text)


def file_rec(h, text, kind, out=False, nhead=None):
    L = split(text)
    if kind in ('gridpts', 'gridpts8'):
        m = re.match(r'##\s*(\d+)\s*x\s*(\d+)', L[0])
        n = 1 + int(m.group(1)) * int(m.group(2))
        return {'e': 1, 'L': [line_rec(h, x, 'grid', out) for x in L[:n]] + [line_rec(h, x, kind[4:], out) for x in L[n:]]}
    return {'e': 1, 'L': [line_rec(h, x, kind, out) for x in L]}


def rint(v, mul):
    w = v * mul
    lim = (1 << 31) - 2
    return lim if not math.isfinite(w) or abs(w) > lim else int(round(w))


def figures(h, err):
    """the figures of getnodes -v"""
    N = r'([-+\d.eainf]+)'
    pat = [r'maximum deviation from orthogonality = %s deg, in cell \((-?\d+),(-?\d+)\)' % N, r'mean deviation from orthogonality = %s deg' % N,
           r'maximum aspect ratio = %s, in cell \((-?\d+),(-?\d+)\)' % N, r'mean aspect ratio = %s' % N, r'mean cell size = %s x %s' % (N, N)]
    m = [re.search('## ' + p, err) for p in pat]
    if not all(m):
        return {'p': 1, **dict.fromkeys(('mdo', 'i', 'j', 'ado', 'mar', 'k', 'l', 'aar', 'adx', 'ady', 'hx', 'hy'), -1)}

    def q(s, mul=1000):
        v = float(s) * mul
        return int(round(v)) if math.isfinite(v) and abs(v) < 1e9 else -1

    def half(s):
        v = abs(float(s))
        return math.ceil(10.0 ** (math.floor(math.log10(v)) - 2) / 2 * 1000 * h.enc.mul) if v > 0 and math.isfinite(v) else 0
    return {'p': 1, 'mdo': min(q(m[0][1]), 200000), 'i': int(m[0][2]), 'j': int(m[0][3]), 'ado': min(q(m[1][1]), 200000),
            'mar': min(q(m[2][1]), 120000), 'k': int(m[2][2]), 'l': int(m[2][3]), 'aar': min(q(m[3][1]), 120000),
            'adx': q(m[4][1], 1000 * h.enc.mul), 'ady': q(m[4][2], 1000 * h.enc.mul),
            'hx': half(m[4][1]), 'hy': half(m[4][2])}


def answer_rec(h, text, rev):
    m = re.match(r'(\S+) (\S+) (.*)\n$', text)
    if m:
        a, b = ntok(h, m.group(1), out=True), ntok(h, m.group(2), out=True)
        rest = h.tid('r' + m.group(3))
        if a == [0] and b == [0]:
            return {'k': 'nan', 'r': rest}
        if a[0] in (1, 3) and b[0] in (1, 3):
            u, v = float(m.group(1)), float(m.group(2))
            return {'k': 'num', 'r': rest, 'fi': rint(u, FU), 'fj': rint(v, FU),
                    'x': a[1] if a[0] == 1 and rev else 1 << 30, 'y': b[1] if b[0] == 1 and rev else 1 << 30}
    return {'k': 'text', 'x': h.tid(text)}


# ------------------------------------------------------------- execution
def execute(b, h):
    """runs the steps of a history; h.raw gets one record per step"""
    d = tempfile.mkdtemp(prefix='ws-', dir=scratch())
    h.raw = []
    files = {}
    try:
        for st in h.steps:
            if st[0] == 'put':
                _, name, text, kind, special = st
                p = os.path.join(d, name)
                if special == 'dir':
                    os.makedirs(p)
                elif special != 'missing':
                    with open(p, 'w', newline='') as f:
                        f.write(text)
                    files[name] = text
                h.raw.append(None)
                continue
            _, op, argv, stdin, w = st
            gone = stdin and not stdin.startswith('text:') and not os.path.exists(os.path.join(d, stdin))
            if gone or w.get('need') and w['need'] not in files:
                h.raw.append('skip')
                continue
            res = {'main': one(b, d, argv, stdin, w.get('env'))}
            for k, a in w.get('also', {}).items():
                res[k] = one(b, d, a, stdin)
            if w.get('solo'):
                res['solo'] = [one(b, d, argv_, None) for argv_ in solo_files(d, argv, w)]
                for k in range(len(w['solo'])):
                    os.unlink(os.path.join(d, '_solo%d' % k))
            for k, name in w.get('written', {}).items():
                p = os.path.join(d, name)
                try:
                    with open(p, errors='replace', newline='') as f:
                        res[k] = (0, f.read(), '')
                    os.unlink(p)
                except OSError:
                    res[k] = (1, '', 'missing')
            # nothing else changed
            same = 1
            left = set(os.listdir(d))
            for name, text in files.items():
                try:
                    with open(os.path.join(d, name), errors='replace', newline='') as f:
                        same &= int(f.read() == text)
                except OSError:
                    same = 0
                left.discard(name)
            if any(not os.path.isdir(os.path.join(d, x)) for x in left):
                same = 0
            res['same'] = same
            if w.get('d') and res['main'][0] == 0:
                with open(os.path.join(d, w['d']), 'w', newline='') as f:
                    f.write(res['main'][1])
                files[w['d']] = res['main'][1]
            h.raw.append(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def solo_files(d, argv, w):
    for k, text in enumerate(w['solo']):
        with open(os.path.join(d, '_solo%d' % k), 'w', newline='') as f:
            f.write(text)
        a = list(argv)
        a[a.index('-o') + 1] = '_solo%d' % k
        yield a


def one(b, d, argv, stdin, env=None):
    if argv[0] in b.failed:
        raise CheckError('%s cannot be built:\n%s' % (argv[0], b.failed[argv[0]]))
    fin = open(os.path.join(d, stdin)) if stdin and not stdin.startswith('text:') else None
    try:
        kw = {'input': stdin[5:]} if stdin and stdin.startswith('text:') else {'stdin': fin or subprocess.DEVNULL}
        if 'input' in kw:
            kw['input'] = kw['input'].encode()
        p = subprocess.run([os.path.join(b.dir, argv[0])] + argv[1:], capture_output=True, env={**prog_env(), **(env or {})}, cwd=d, timeout=20, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'
    finally:
        if fin:
            fin.close()


def outcome(r):
    """1 answered, 0 refused with an error, 2 anything else"""
    rc, out, err = r
    if 'AddressSanitizer' in err or rc == 99 or rc < 0:
        return 2
    if rc == 0:
        return 1
    return 0 if err.strip() else 2         # with a message of any wording


LIBKIND = {}


def encode(h):
    out = []
    for st, res in zip(h.steps, h.raw):
        if st[0] == 'put':
            _, name, text, kind, special = st
            out.append({'op': 'put', 'f': name,
                        'c': {'e': 0, 'L': []} if special == 'missing' else {'e': 1, 'L': []} if special == 'dir' else file_rec(h, text, kind)})
            continue
        if res == 'skip':
            break
        _, op, argv, stdin, w = st
        e = {'op': op, 'same': res['same']}
        e.update({k: v for k, v in w.items() if k not in ('also', 'written', 'solo', 'need', 'fig')})
        main = res['main']
        e['ok'] = outcome(main)
        ok = e['ok'] == 1
        if op in ('getnodes', 'subgrid', 'insertgrid'):
            e['out'] = file_rec(h, main[1], 'grid', out=True)['L'] if ok else []
            for k in ('ox', 'oy'):
                if k in res:
                    e[k] = file_rec(h, res[k][1], 'grid', out=True)['L'] if ok else []
                    if ok and outcome(res[k]) != 1:
                        e['ok'] = 2
                else:
                    e[k] = []
            e.setdefault('d', '')
            if op == 'getnodes':
                e['fig'] = figures(h, main[2]) if ok and w['o'] != 'CE' and ('-v' in argv or argv[0] == 'getstats') and isinstance(h.enc, Coords) and w.get('fig') else {'p': 0}
        elif op == 'setbathy':
            e['out'] = file_rec(h, main[1], 'set')['L'] if ok else []
        elif op == 'getbound':
            e['out'] = file_rec(h, main[1], 'poly', out=True)['L'] if ok else []
            for k in ('oij', 'oc', 'ocij'):
                e[k] = file_rec(h, res[k][1], 'polyij' if 'ij' in k else 'poly', out=True)['L'] if ok else []
                if ok and outcome(res[k]) != 1:
                    e['ok'] = 2
        elif op == 'gridbathy':
            e['out'] = [[0] if x == 'NaN\n' else [1, int(round(float(x) * 100))] if re.fullmatch(r'-?\d+\.\d\d\n', x) and len(x) < 14 else [2] for x in split(main[1])] if ok else []
            e.pop('env', None)
        elif op == 'xy2ij':
            L = split(main[1])
            e['out'] = [answer_rec(h, x, w['rev']) for x in L]
            m = [re.search(p + r': (\d+)', main[2]) for p in ('total mappings', '##   successful', 'unsuccessful')]
            e.update(zip(('total', 'good', 'bad'), [int(x.group(1)) for x in m] if all(m) and w['v'] else (-1 - 98 * w['v'],) * 3))
            if w['v'] and not all(m):
                e['total'] = 1 << 30 if ok else -1
            solo = 1
            for k, (ln, r) in enumerate(zip(w.get('solo', []), res.get('solo', []))):
                n = w['soloat'][k]
                if n < len(L):
                    solo &= int(r[0] == 0 and r[1] == L[n])
                elif n == len(L) and not ok:
                    solo &= int(outcome(r) == 0 and r[1] == '')
            e['solo'] = solo
            e.pop('soloat', None)
            e.pop('v', None)
        elif op == 'libbad':
            q = re.findall(r'"q":(\d)', main[1])
            e = {'op': 'bad', 'same': e['same'], 'ok': 0 if main[0] == 0 and q and q[-1] == '1' else 2}
        elif op in ('libread', 'libmask'):
            lib_enc(h, e, main, res, w)
        out.append(e)
    return {'ev': out}


def lib_enc(h, e, main, res, w):
    """one driver run: the reader's event, then the writer's"""
    import json
    ev = []
    for ln in main[1].split('\n'):
        try:
            ev.append(json.loads(ln))
        except ValueError:
            pass
    ev = [x for x in ev if 'op' in x]
    e.update(n=[], nx=0, ny=0, out=[]) if e['op'] == 'libread' else e.update(mask=[])
    if main[0] != 0 or not ev:
        e['ok'] = 2
        return
    if ev[0]['q']:
        e['ok'] = 0
        return
    e['ok'] = 1
    if e['op'] == 'libmask':
        e['mask'] = ev[0]['mask']
        return
    g = ev[0]['st'][0][1]
    e.update(nx=g['nx'], ny=g['ny'], n=[libnode(h, num(a), num(b)) for a, b in g['n']])
    if 'out' in res and res['out'][0] == 0:
        e['out'] = file_rec(h, res['out'][1], 'grid', out=True)['L']


def libnode(h, x, y):
    a, b = ntok(h, repr(x)), ntok(h, repr(y))
    if a == [0] and b == [0]:
        return [0, 0, 0]
    return [1, a[1], b[1]] if a[0] == 1 and b[0] == 1 else [3, 0, 0]


# ------------------------------------------------------------- texts
def fnum(r, v):
    """a spelling of the number v that reads back as v"""
    if v != v:
        return r.choice(['NaN', 'nan'])
    if v == int(v) and abs(v) < 1e15 and r.random() < 0.6:
        s = '%d' % int(v)
        k = r.randrange(8)
        return s + '.0' if k == 0 else s + '.' if k == 1 else '%+d' % int(v) if k == 2 else s
    s = repr(v)
    k = r.randrange(8)
    if k == 0:
        return '%.17e' % v
    if k == 1:
        return ('%.17E' % v)
    if k == 2:
        s = re.sub(r'^(-?)0\.', r'\1.', s)
    if k == 3 and s[0] != '-':
        s = '00' + s
    return s


BLANK = ['NaN NaN', 'NaN NaN', 'NaN NaN', 'nan nan', '', '# 1 2', 'NaN', '#', 'abc', 'NaN 3', '4 NaN', '-nan nan', '  ', '7', 'x y', '-', '5 abc', '## 1 1']


def grid_text(r, nx, ny, vals, plain=False):
    """vals: list of (x, y) or None"""
    hd = '## %d x %d' % (nx, ny) if plain else r.choice(['## %d x %d'] * 5 + ['## %d x %d ', '##  %d  x  %d', '## %d x %d grid', '##%d x %d', '## %dx%d']) % (nx, ny)
    crlf = not plain and r.random() < 0.04
    L = [hd + '\r' if crlf else hd]
    for p in vals:
        if p is None:
            L.append('NaN NaN\r' if crlf else 'NaN NaN' if plain else r.choice(BLANK) if r.random() < 0.97 else '#' + ' 3 4 5 -' * r.choice([10, 40, 200, 1000]))
        else:
            sep = ' ' if plain else r.choice([' '] * 6 + ['\t', '   '])
            pre = '' if plain else r.choice([''] * 6 + [' ', '\t'])
            post = '' if plain else r.choice([''] * 6 + [' ', ' # note', ' 17', '\t-'])
            if not plain and (crlf or r.random() < 0.02):
                post += '\r'
            if not plain and r.random() < 0.02:
                post = ' ' + 'note 1 2 ' * r.choice([8, 20, 60, 120, 460, 1000])
            L.append(pre + fnum(r, p[0]) + sep + fnum(r, p[1]) + post)
    return L


def any_vals(r, n, p_empty, dec):
    out = []
    for _ in range(n):
        if r.random() < p_empty:
            out.append(None)
        elif dec:
            f = lambda: r.choice([r.uniform(-1, 1), r.uniform(-1, 1) * 10.0 ** r.randint(-200, 200), r.uniform(-1, 1) * 10.0 ** r.choice([-320, -310, -308, -300, 300, 308]), 0.0, -0.0, float(r.randint(-99, 99)), 1 / 3, 1e15 + 0.3, 123456789.123456789])
            out.append((f(), f()))
        else:
            out.append((float(r.randint(-400, 400)), float(r.randint(-400, 400))))
    return out


BIG = False         # generate long files instead of short ones


def dims(r, a, b):
    """sizes: up to a x b, or a long or big grid"""
    return geom.large_dims(r) if BIG else (r.randint(1, a), r.randint(1, b))


def large(f, k):
    """history k of generator f, with long files"""
    global BIG
    BIG = True
    try:
        return f('L%d' % k)
    finally:
        BIG = False


def type_size(r, t, small=False):
    if BIG:
        nx, ny = geom.large_dims(r)
        return {'CO': (nx + 1, ny + 1), 'DD': (2 * nx + 1, 2 * ny + 1)}.get(t, (nx, ny))
    a = lambda: r.choice([1, 2, 2, 3, 3, 4, 5] if small else [1, 2, 3, 3, 4, 5, 6, 8])
    nx, ny = a(), a()
    if t == 'CO':
        nx, ny = max(2, nx), max(2, ny)
    if t == 'DD':
        nx, ny = 2 * min(nx, 5) + 1, 2 * min(ny, 5) + 1
    return nx, ny


TN = {'DD': ['DD', 'dd', 'Dd'], 'CO': ['CO', 'co'], 'CE': ['CE', 'ce'], 'NO': []}


def gridarg(r, name):
    """(argument, stdin file)"""
    k = r.random()
    return (name, None) if k < 0.6 else (r.choice(['-', 'stdin']), name)


# ------------------------------------------------------------- G18
def g18(k):
    r = rng('G18', k)
    dec = r.random() < 0.6
    h = Hist('G18-%s' % k, Dec() if dec else Coords(1))
    t = r.choice(['NO', 'CO', 'DD', 'CE'])
    nx, ny = type_size(r, t)
    L = grid_text(r, nx, ny, any_vals(r, nx * ny, r.choice([0, 0, 0.1, 0.3, 0.9]), dec))
    for _ in range(r.choice([0, 0, 0, 1, 3])):
        L.append(r.choice(['9 9', 'trailing', '', '## 3 x 3']))
    h.put('g', L, last=r.random() < 0.8)
    arg, fin = gridarg(r, 'g')
    lib = r.random()
    if lib < 0.3:
        c = r.choice(['xy', 'x', 'y'])
        h.run('libread', ['gudrv'], 'text:trace 0\ngread 0 %s g\ngwrite 0 gw %s\n' % (t, c), g='g', i=t, c=c, written={'out': 'gw'})
        if r.random() < 0.5:
            return h
    if t == 'NO':
        h.run('subgrid', ['subgrid', arg], fin, g='g', i1=-9, i2=999, j1=-9, j2=999, d='a',
              also={'ox': ['subgrid', arg, '-x'], 'oy': ['subgrid', '-y', arg]})
        h.run('subgrid', ['subgrid', 'a'], None, need='a', g='a', i1=-9, i2=999, j1=-9, j2=999)
    else:
        n = r.choice(TN[t])
        o = ['-i', n, '-o', n] if t != 'DD' or r.random() < 0.5 else []
        v = r.choice([[], [], ['-v']])
        if t == 'CE' or True:
            h.run('getnodes', ['getnodes', arg] + o + v, fin, g='g', i=t, o=t, mf='', p=0, d='a',
                  also={'ox': ['getnodes', arg, '-x'] + o, 'oy': ['getnodes'] + o + [arg, '-y']})
        h.run('getnodes', ['getnodes', 'a'] + o, None, need='a', g='a', i=t, o=t, mf='', p=0,
              also={'ox': ['getnodes', '-x', 'a'] + o} if r.random() < 0.5 else {})
    return h


# ------------------------------------------------------------- grids for conversions
def corner_grid(r, nx, ny, unit, region=None, cells=None):
    """values of the corner nodes of a simply connected grid"""
    while not BIG:
        g = geom.grid_points(r, nx, ny, unit=unit)
        if g:
            break
    if BIG:
        g = None, geom.large_points(r, nx, ny, unit)
    cells = cells or (geom.large_cells if BIG else geom.random_simple)(r, nx, ny)
    pat = geom.nodes_of(cells, nx, ny)
    return [[(float(g[1][j][i][0]), float(g[1][j][i][1])) if pat[j][i] else None for i in range(nx + 1)] for j in range(ny + 1)], cells, g[1]


def stray(r, co, cells, pts):
    """nodes of no cell, somewhere among the cells"""
    if r.random() < 0.5:
        return
    ny, nx = len(co) - 1, len(co[0]) - 1
    for j in range(ny + 1):
        for i in range(nx + 1):
            if co[j][i] is None and r.random() < 0.6:
                a, b = r.choice(sorted(cells))
                co[j][i] = tuple(float((pts[b][a][c] + pts[b + 1][a + 1][c]) // 2 + r.randint(-8, 8)) for c in (0, 1))
                if any((a, b) not in cells and 0 <= a < nx and 0 <= b < ny and None not in (co[b][a], co[b][a + 1], co[b + 1][a], co[b + 1][a + 1])
                       for a in (i - 1, i) for b in (j - 1, j)):
                    co[j][i] = None


def dd_of(r, co, nx, ny, noise=True):
    """double density nodes around corners"""
    out = []
    for j in range(2 * ny + 1):
        for i in range(2 * nx + 1):
            q = {(a, b) for a in (i // 2, (i + 1) // 2) for b in (j // 2, (j + 1) // 2)}
            q = [co[b][a] for a, b in sorted(q)]
            if None in q:
                out.append(None if not noise or r.random() < 0.7 or len(q) == 1 else (1.0, 2.0))
            elif noise and len(q) > 1 and r.random() < 0.1:
                out.append(None)
            else:
                out.append((sum(p[0] for p in q) / len(q), sum(p[1] for p in q) / len(q)))
    return out


def flat(co):
    return [p for row in co for p in row]


def mask_lines(r, n, p=None):
    p = r.choice([0, 0.2, 0.5, 0.9]) if p is None else p
    return [str(int(r.random() >= p)) for _ in range(n)]


def gconv(k, t=None, masked=False):
    """chains of conversions and masks by getnodes"""
    r = rng('Gconv', k, t, masked)
    h = Hist('Gconv-%s' % k, Coords(1))
    t = t or r.choice(['DD', 'CO', 'CE', 'DD', 'CO'])
    nx, ny = dims(r, 5, 5)
    if t == 'CE':
        nn = (nx, ny)
        vals = any_vals(r, nx * ny, r.choice([0, 0.1, 0.3, 0.6]), False)
        vals = [None if p is None else (p[0] * 64, p[1] * 64) for p in vals]
    else:
        co, cells, _ = corner_grid(r, nx, ny, 64)
        nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
        vals = flat(co) if t == 'CO' else dd_of(r, co, nx, ny)
    o = r.choice(['DD', 'CO', 'CE'])
    L = grid_text(r, nn[0], nn[1], vals, plain=r.random() < 0.3)
    mf = ''
    arg, fin = gridarg(r, 'g')
    argv = ['getnodes', arg, '-i', r.choice(TN[t]), '-o', r.choice(TN[o])]
    if t == 'DD' and r.random() < 0.5:
        argv[2:4] = []
    if o == 'DD' and r.random() < 0.5:
        argv[-2:] = []
    if masked and o == 'CO' and r.random() < 0.8:
        o = r.choice(['DD', 'CE'])
        argv = ['getnodes', arg, '-i', t, '-o', o]
    if (masked or r.random() < 0.5) and o != 'CO' or r.random() < 0.05:
        ncell = nx * ny if t != 'CE' or o == 'CE' else nn[0] * nn[1]
        # (cells of the result: the same number whatever the type)
        m = mask_lines(r, ncell)
        if r.random() < 0.3:
            m += [r.choice(['0', '1', 'x'])] * r.choice([1, 3])
        if fin and r.random() < 0.5:
            mf = '-'
            h.put('g', L + m, 'gridmask', last=r.random() < 0.7)
        else:
            mf = 'm'
            h.put('g', L)
            h.put('m', m, 'mask', last=r.random() < 0.6)
        argv += ['-m', '-' if mf == '-' else 'm']
    else:
        h.put('g', L, last=r.random() < 0.8)
    if r.random() < 0.3:
        argv.append('-v')
    also = {}
    if r.random() < 0.4:
        also = {'ox': argv + ['-x'], 'oy': argv + ['-y']}
    h.run('getnodes', argv, fin, g='g', i=t, o=o, mf=mf, p=0, d='a', also=also)
    # the result converted again, where the coordinates stay whole numbers
    if t == 'DD' and o == 'CO' and mf == '':
        o2 = r.choice(['DD', 'CE'])
        h.run('getnodes', ['getnodes', 'a', '-i', 'co', '-o', o2], None, need='a', g='a', i='CO', o=o2, mf='', p=0, d='b')
    elif o == 'DD':
        o2 = r.choice(['CO', 'CE'])
        if t == 'CO' or o2 == 'CE':
            h.run('getnodes', ['getnodes', 'a', '-o', o2], None, need='a', g='a', i='DD', o=o2, mf='', p=0, d='b')
    return h


def gmask(k):
    """mask files: values, lengths, last line"""
    r = rng('Gmask', k)
    h = Hist('Gmask-%s' % k, Dec())
    t = r.choice(['DD', 'DD', 'CE', 'CO'])
    nx, ny = dims(r, 5, 5)
    nn = (nx, ny) if t == 'CE' else (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
    h.put('g', grid_text(r, nn[0], nn[1], any_vals(r, nn[0] * nn[1], r.choice([0, 0.05, 0.2, 0.4]), True)))
    m = mask_lines(r, nx * ny)
    bad = r.random()
    if bad < 0.12:
        m = m[:-1]
    elif bad < 0.35:
        m[r.randrange(len(m))] = r.choice(['2', '', ' 1', '1 ', '01', '-1', '1.0', 'NaN', '#', '0\r', '10', 'true'])
    elif bad < 0.45:
        m += ['7']
    special = 'missing' if r.random() < 0.04 else None
    h.put('m', m, 'mask', last=r.random() < 0.5, special=special)
    h.run('getnodes', ['getnodes', 'g', '-i', t, '-o', t, '-m', 'm'] + r.choice([[], ['-v']]), None, g='g', i=t, o=t, mf='m', p=0)
    h.run('libmask', ['gudrv'], 'text:trace 0\nmaskfile m %d %d\n' % (nx, ny), g='m', nx=nx, ny=ny)
    return h


# ------------------------------------------------------------- G19
def rng_arg(r, n):
    lo = r.choice([-2, -1, 0, 0, 0, 1, n // 2, n - 1, n, r.randint(0, n)])
    hi = r.choice([-1, 0, n // 2, n - 1, n - 1, n, n + 5, r.randint(0, n), max(lo, 0) + r.randint(0, 3)])
    return lo, hi


def g19p(k):
    r = rng('G19p', k)
    dec = r.random() < 0.5
    h = Hist('G19p-%s' % k, Dec() if dec else Coords(1))
    nx, ny = dims(r, 7, 7)
    h.put('g', grid_text(r, nx, ny, any_vals(r, nx * ny, r.choice([0, 0.2, 0.5]), dec)))
    src, d = 'g', 'abcd'
    for q in range(r.randint(1, 4)):
        arg, fin = gridarg(r, src)
        argv = ['subgrid', arg]
        i1 = j1 = -99
        i2 = j2 = 9999
        if r.random() < 0.8:
            i1, i2 = rng_arg(r, nx)
            argv += ['-i', '%d:%d' % (i1, i2)]
        if r.random() < 0.8:
            j1, j2 = rng_arg(r, ny)
            argv += ['-j', '%d:%d' % (j1, j2)]
        if r.random() < 0.3:
            argv.append('-v')
        empty = max(i1, 0) > min(i2, nx - 1) or max(j1, 0) > min(j2, ny - 1)
        also = {'ox': argv + ['-x'], 'oy': argv + ['-y']} if r.random() < 0.3 else {}
        h.run('subgrid', argv, fin, g=src, i1=i1, i2=i2, j1=j1, j2=j2, d=d[q], also=also)
        if not empty and r.random() < 0.7:
            src = d[q]
            nx, ny = min(i2, nx - 1) - max(i1, 0) + 1, min(j2, ny - 1) - max(j1, 0) + 1
    return h


# ------------------------------------------------------------- G20
def g20(k):
    r = rng('G20', k)
    h = Hist('G20-%s' % k, Coords(1))
    sz = {}
    for n in 'gb':
        nx, ny = dims(r, 6, 6)
        sz[n] = (nx, ny)
        h.put(n, grid_text(r, nx, ny, any_vals(r, nx * ny, r.choice([0, 0.2, 0.5]), False), plain=r.random() < 0.5))
    a = 'g'
    for q in range(r.randint(1, 3)):
        bb = r.choice(['b', 'b', 'g'])
        (nx1, ny1), (nx2, ny2) = sz[a], sz[bb]
        off = lambda n1, n2: r.choice([0, 0, 1, n1 - 1, n1, n1 + 2, n1 - n2, -1, -n2, -n2 - 2, -1, r.randint(-n2, n1)])
        i0, j0 = off(nx1, nx2), off(ny1, ny2)
        t = r.choice(['NO', 'NO', 'CO', 'DD', 'CE'])
        m = r.randrange(2)
        opt = (['-m'] if m else []) + (['-i', r.choice(TN[t])] if t != 'NO' else []) + r.choice([[], [], ['-v']])
        fin = None
        fa, fb = a, bb
        if r.random() < 0.2 and a != bb:
            if r.random() < 0.5:
                fa, fin = '-', a
            else:
                fb, fin = r.choice(['-', 'stdin']), bb
        pos = [fa, fb, str(i0), str(j0)]
        argv = ['insertgrid'] + (opt + pos if r.random() < 0.5 else pos + opt)
        if t == 'CO' and min(max(nx1, i0 + nx2) - min(0, i0), max(ny1, j0 + ny2) - min(0, j0)) < 2:
            continue
        d = 'rst'[q]
        h.run('insertgrid', argv, fin, a=a, b=bb, i0=i0, j0=j0, m=m, t=t, d=d)
        nx3, ny3 = max(nx1, i0 + nx2) - min(0, i0), max(ny1, j0 + ny2) - min(0, j0)
        if t == 'DD' and (nx3 % 2 == 0 or ny3 % 2 == 0):
            continue
        if nx3 * ny3 < 150 and not BIG:
            a = d
            sz[d] = (nx3, ny3)
    if not any(s[0] == 'run' for s in h.steps):
        h.run('insertgrid', ['insertgrid', 'g', 'b', '0', '0'], None, a='g', b='b', i0=0, j0=0, m=0, t='NO', d='r')
    return h


# ------------------------------------------------------------- G21
def wild(r):
    """a line of text, to be carried through unchanged"""
    s = r.choice(['100% sure', '%d %s %5.2f', '%%', '\\n \\t', 'caf\u00e9', '"quoted"', "it's", 'a\tb', ' lead', 'trail  ', '\r', '#%n', '50%\t%x', '$HOME', 'x' * 200, 'long ' * 400])
    return s + r.choice(['', ' %d' % r.randrange(1000)])


def g21(k):
    r = rng('G21', k)
    h = Hist('G21-%s' % k, Coords(1))
    nx, ny = geom.large_dims(r) if BIG else (r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4, 6]))
    off = r.choice([0, 0, 0, 1, 3])
    hdr = r.random() < 0.7
    L = [(wild(r) if r.random() < 0.4 else r.choice(['# comment', '', '## 9 x 9', 'x']) + ' %d' % q) for q in range(off)]
    if hdr:
        hd = r.random()
        L.append('## %d x %d' % (nx, ny) if hd > 0.08 else r.choice(['# 3 x 3', '## 3', '', '## 0 x 4', '## 3 x -1', '## 65536 x 65536']))
    n = nx * ny
    if r.random() < 0.1:
        n = max(0, n - r.choice([1, 1, 2, n]))
    for q in range(n):
        L.append(wild(r) if r.random() < 0.1 else r.choice(['%d.5' % q, '%d' % q, 'NaN', '', '-9999', '  %d' % q, 'text %d' % q, '%d %d' % (q, q)]))
    if n == nx * ny:
        for q in range(r.choice([0, 0, 1, 3])):
            L.append(wild(r) if r.random() < 0.4 else r.choice(['after %d' % q, 'after %d' % q, '', ' ', 'NaN']))
    h.put('g', L, 'set', last=r.random() < 0.8, special='missing' if r.random() < 0.02 else None)
    for q in range(r.randint(1, 3)):
        arg, fin = gridarg(r, 'g') if h.steps[0][4] is None else ('g', None)
        i1 = j1 = -9999
        i2 = j2 = 9999
        argv = ['setbathy', arg]
        if r.random() < 0.8:
            i1, i2 = rng_arg(r, nx)
            argv += ['-i', '%d:%d' % (i1, i2)]
        if r.random() < 0.8:
            j1, j2 = rng_arg(r, ny)
            argv += ['-j', '%d:%d' % (j1, j2)]
        dx = dy = -1
        if not hdr:
            if r.random() < 0.93:
                dx, dy = nx, ny
                argv += ['-d', '%dx%d' % (nx, ny)]
        if off:
            argv += ['-o', '%d' % off]
        z = r.choice(['17.5', '-3', 'NaN', '0', 'land', '1e-3', 'a b', '5%', '100%d', '%s', '\\n', '00012.500', 'x' * 300])
        noz = r.random() < 0.05
        if not noz:
            argv += ['-z', z]
        if r.random() < 0.2:
            argv.append('-v')
        h.run('setbathy', argv, fin, g='g', i1=i1, i2=i2, j1=j1, j2=j2, nx=dx, ny=dy, off=off, z=0 if noz else h.tid(z + '\n'))
    return h


# ------------------------------------------------------------- getbound
def gbound(k):
    r = rng('Gbound', k)
    h = Hist('Gbound-%s' % k, Coords(1))
    nx, ny = dims(r, 7, 6)
    t = r.choice(['DD', 'CO'])
    co, cells, _ = corner_grid(r, nx, ny, 2)
    if r.random() < 0.03:
        co = [[None] * (nx + 1) for _ in range(ny + 1)]
    nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
    h.put('g', grid_text(r, nn[0], nn[1], flat(co) if t == 'CO' else dd_of(r, co, nx, ny), plain=r.random() < 0.5))
    arg, fin = gridarg(r, 'g')
    a = ['getbound', arg] + (['-i', r.choice(TN[t])] if t == 'CO' or r.random() < 0.5 else [])
    h.run('getbound', a + r.choice([[], [], ['-v']]), fin, g='g', i=t,
          also={'oij': a + ['-r'], 'oc': a + ['-c'], 'ocij': ['getbound', '-c', '-r'] + a[1:]})
    return h


# ------------------------------------------------------------- G22
NOPOINT = ['# header', '', '\r', '# note\r', 'abc 1 2', '5', '3 abc', '#1 2 3', ' ', '-', 'x', '\t', '1,2 3', '# 100% of 5', '%s %d', '%d %d %d', '\\n', '5 %', 'x' * 3000]


def rest_of(r):
    return r.choice(['', '', ' 5', ' a b', '\t7', '  # tail', ' 1.50 text, more', ' ', ' 30% %s', ' %d', '\r', ' 3 a\r', ' \\t', ' caf\u00e9', ' ' + 'y' * 2000, ' a  b   c'])


def g22(k):
    r = rng('G22', k)
    # coordinates of few or of many digits
    mul, off = r.choice([(1, 0), (1, 0), (512, 0), (512, 123456 * 512), (512, -987654 * 512)])
    h = Hist('G22-%s' % k, Coords(mul, off, off))
    nx, ny = dims(r, 6, 5)
    t = r.choice(['DD', 'CO'])
    kd = r.random() < 0.35
    cells = None
    if kd and r.random() < 0.6:
        p = r.choice([0.2, 0.4])
        cells = geom.closure({(i, j) for i in range(nx) for j in range(ny) if r.random() >= p}, nx, ny) or {(0, 0)}
    if BIG:
        off, mul, cells = 0, 1, None
        h = Hist(h.id, Coords(1))
    co, cells, pts = corner_grid(r, nx, ny, 64, cells=cells)
    stray(r, co, cells, pts)
    nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
    G = [None if p is None else ((p[0] + off) / mul, (p[1] + off) / mul) for p in (flat(co) if t == 'CO' else dd_of(r, co, nx, ny))]
    G = grid_text(r, nn[0], nn[1], G, plain=r.random() < 0.5)
    rev = int(r.random() < 0.35)
    force = int(r.random() < 0.6)
    xs = [p[0] for row in pts for p in row]
    ys = [p[1] for row in pts for p in row]
    L = []
    pout = r.choice([0, 0.05, 0.2, 0.6]) if not force else r.choice([0.1, 0.3, 0.7])
    for _ in range(r.choice([10, 20, 50]) if BIG else r.choice([1, 2, 3, 6, 12, 20]) if r.random() < 0.985 else r.choice([1000, 1001, 1030, 2050])):
        if r.random() < 0.15:
            L.append(r.choice(NOPOINT))
            continue
        i, j = r.choice(sorted(cells))
        if rev:
            if r.random() < pout:
                I, J = r.randint(-9, 8 * nx + 9), r.randint(-9, 8 * ny + 9)
            else:
                I, J = 8 * i + r.randint(0, 8), 8 * j + r.randint(0, 8)
            x, y = I / 8, J / 8
        else:
            u, v = (r.randint(1, 7), r.randint(1, 7)) if r.random() < 0.7 else (r.randint(0, 8), r.choice([0, 8]))
            q = [pts[j][i], pts[j][i + 1], pts[j + 1][i + 1], pts[j + 1][i]]
            w = [(8 - u) * (8 - v), u * (8 - v), u * v, (8 - u) * v]
            x, y = sum(a * p[0] for a, p in zip(w, q)) // 64, sum(a * p[1] for a, p in zip(w, q)) // 64
            if r.random() < pout:
                x, y = r.randint(min(xs) - 70, max(xs) + 70), r.randint(min(ys) - 70, max(ys) + 70)
        if not rev:
            x, y = (x + off) / mul, (y + off) / mul
        if r.random() < 0.03 and (force or pout):
            x = NAN
        L.append(r.choice([''] * 5 + [' ', '\t']) + fnum(r, float(x)) + r.choice([' '] * 4 + ['\t', '  ']) + fnum(r, float(y)) + rest_of(r))
    kind = 'pts8' if rev else 'pts'
    opt = (['-i', r.choice(TN[t])] if t == 'CO' or r.random() < 0.5 else []) + (['-r'] if rev else []) + (['-f'] if force else []) + (['-k'] if kd else [])
    vb = int(r.random() < 0.4)
    opt += ['-v'] if vb else []
    how = r.random()
    lastnl = r.random() < 0.8
    fin = None
    solo, at = [], []
    for n in r.sample(range(len(L)), min(len(L), 2)):
        solo.append(L[n] + ('\n' if n < len(L) - 1 or lastnl else ''))
        at.append(n)
    if how < 0.2:
        h.put('g', G + L, 'grid' + kind, last=lastnl)
        argv, fin, pf, solo, at = ['xy2ij'] + opt + ['-g', '-', '-o', '-'], 'g', '-', [], []
    else:
        h.put('g', G)
        h.put('p', L, kind, last=lastnl)
        if how < 0.4:
            argv, fin, pf, solo, at = ['xy2ij', '-g', 'g', '-o', r.choice(['-', 'stdin'])] + opt, 'p', 'p', [], []
        elif how < 0.5:
            argv, fin, pf, solo, at = ['xy2ij', '-o', 'p', '-g', r.choice(['-', 'stdin'])] + opt, 'g', 'p', [], []
        else:
            argv, pf = ['xy2ij', '-g', 'g', '-o', 'p'] + opt, 'p'
    h.run('xy2ij', argv, fin, g='g', i=t, t=int(kd), rev=rev, force=force, pf=pf, v=vb, solo=solo, soloat=at)
    return h


# ------------------------------------------------------------- G26
def g26(k):
    r = rng('G26', k)
    h = Hist('G26-%s' % k, Coords(1))
    t = r.choice(['CO', 'CE', 'CE', 'DD'])
    nx, ny = r.randint(2, 6), r.randint(2, 7)
    if BIG:
        nx, ny = r.choice([(r.randint(100, 300), r.randint(2, 5)), (r.randint(2, 5), r.randint(60, 200))])
    if t == 'DD':
        nx, ny = nx | 1, ny | 1
    wrap = lambda x: x - 360 if x > 180 else x
    kind = r.randrange(3)
    vals = []
    cols = []
    for i in range(nx):
        x = r.randint(-180, 170)
        y = r.randint(-60, 0)
        c = []
        total = 0
        ndrop = 0
        for j in range(ny):
            c.append((float(x), float(y)))
            if kind == 0:
                d = r.randint(-40, 60)
            elif kind == 1:
                d = r.randint(0, 45)
            else:
                d = r.choice([0, 5, 90, 170, 179, 180])
            nx_ = x + d
            if nx_ > 180:
                if ndrop:
                    nx_ = x
                else:
                    ndrop = 1
                    nx_ -= 360
            if nx_ < -180:
                nx_ = x
            # never rise by more than 180 between neighbours
            if nx_ - x > 180:
                nx_ = x
            x = nx_
            y = max(-90, min(90, y + r.choice([5, 10, -10, 30, 90, 91, 120, -100])))
        cols.append(c)
    if kind == 2:       # equal longitudes in a row, or a seam
        for i in range(1, nx):
            if r.random() < 0.5:
                cols[i] = [(p[0], q[1]) for p, q in zip(cols[i - 1], cols[i])]
    pe = r.choice([0, 0, 0.1, 0.25])
    for j in range(ny):
        for i in range(nx):
            vals.append(None if r.random() < pe else cols[i][j])
    L = grid_text(r, nx, ny, vals)
    h.put('g', L)
    argv = ['getnodes', 'g', '-i', t, '-o', t, '-p']
    h.run('getnodes', argv, None, g='g', i=t, o=t, mf='', p=1, turn=360, also={'ox': argv + ['-x'], 'oy': argv + ['-y']} if r.random() < 0.3 else {})
    return h


# ------------------------------------------------------------- G24
def g24(k):
    """figures: sheared, stretched, disturbed and right-angled grids"""
    r = rng('G24', k)
    s = r.choice([0, 0, 0, 3, 7, -4])
    h = Hist('G24-%s' % k, Coords(2.0 ** s))
    nx, ny = r.randint(1, 6), r.randint(1, 5)
    t = r.choice(['DD', 'CO'])
    o = r.choice(['DD', 'CO'])
    kind = r.randrange(6)
    unit = 4
    while True:
        if kind == 0:       # rectangular, with one or a few cells off
            xs, ys = [0], [0]
            for _ in range(nx):
                xs.append(xs[-1] + r.randint(1, 40))
            for _ in range(ny):
                ys.append(ys[-1] + r.randint(1, 40))
            pts = [[(x, y) for x in xs] for y in ys]
        elif kind == 1:     # any affine image
            a, b, c, d = (r.randint(-30, 30) for _ in range(4))
            pts = [[(a * i + b * j, c * i + d * j) for i in range(nx + 1)] for j in range(ny + 1)]
        elif kind == 2:     # jittered
            q = r.choice([6, 20, 40])
            pts = [[(q * i + r.randint(-q // 3, q // 3), q * j + r.randint(-q // 3, q // 3)) for i in range(nx + 1)] for j in range(ny + 1)]
        else:
            g = geom.grid_points(r, nx, ny, unit=1)
            if g is None:
                continue
            pts = g[1]
            if max(abs(v) for row in pts for p in row for v in p) > 300:
                continue
        if kind == 0 and r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                i, j = r.randint(0, nx), r.randint(0, ny)
                pts[j][i] = (pts[j][i][0] + r.randint(-3, 3), pts[j][i][1] + r.randint(-3, 3))
        if r.random() < 0.3:
            pts = [[(-y, x) for x, y in row] for row in pts]
        sub = lambda p, q: (p[0] - q[0], p[1] - q[1])
        ok = True
        for j in range(ny):
            for i in range(nx):
                q = [pts[j][i], pts[j][i + 1], pts[j + 1][i + 1], pts[j + 1][i]]
                ok &= all(q[m] != q[(m + 1) % 4] for m in range(4))
                u = tuple(q[0][m] + q[1][m] - q[2][m] - q[3][m] for m in (0, 1))
                v = tuple(q[0][m] + q[3][m] - q[1][m] - q[2][m] for m in (0, 1))
                if u == (0, 0) or v == (0, 0):
                    ok = False
                else:
                    ok &= 1 / 99 < math.hypot(*u) / math.hypot(*v) < 99
        if ok and (t == o or t == 'DD' or geom.well_formed(pts)):
            break
        kind = r.randrange(6)
    cells = geom.random_simple(r, nx, ny) if r.random() < 0.6 or t == 'CO' and o == 'DD' else \
        geom.closure({(i, j) for i in range(nx) for j in range(ny) if r.random() < 0.6}, nx, ny) or {(0, 0)}
    pat = geom.nodes_of(cells, nx, ny)
    f = unit * 2.0 ** -s
    co = [[(pts[j][i][0] * f, pts[j][i][1] * f) if pat[j][i] else None for i in range(nx + 1)] for j in range(ny + 1)]
    nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
    h.put('g', grid_text(r, nn[0], nn[1], flat(co) if t == 'CO' else dd_of(r, co, nx, ny, noise=False), plain=r.random() < 0.5))
    arg, fin = gridarg(r, 'g')
    argv = ['getnodes', arg, '-i', t, '-o', o, '-v']
    mf = ''
    if o == 'DD' and r.random() < 0.3:
        mf = 'm'
        h.put('m', mask_lines(r, nx * ny, 0.2), 'mask')
        argv += ['-m', 'm']
    if r.random() < 0.3:        # a client of the library that computes them more than once
        argv = ['getstats'] + [x for x in argv[1:] if x != '-v'] + ['-s', str(r.randrange(16))]
    h.run('getnodes', argv, fin, g='g', i=t, o=o, mf=mf, p=0, fig=1)
    return h


# ------------------------------------------------------------- G25
def g25(k):
    """gridbathy with stand-in interpolation"""
    r = rng('G25', k)
    h = Hist('G25-%s' % k, Coords(1))
    nx, ny = r.randint(1, 5), r.randint(1, 4)
    t = r.choice(['DD', 'CO'])
    a = r.choice([0, 1, 2, 3, 4, 4])
    x = int(r.random() < 0.35)
    n = r.choice([1, 2, 3, 3, 4, 5, 7, 10])
    unit = 64 if x else 4
    while True:
        g = geom.grid_points(r, nx, ny, unit=unit)
        if g and max(abs(v) for row in g[1] for p in row for v in p) <= (600 if not x else 8000):
            break
    pts = g[1]
    cells = geom.random_simple(r, nx, ny)
    pat = geom.nodes_of(cells, nx, ny)
    if r.random() < 0.02:
        pat = [[False] * (nx + 1) for _ in range(ny + 1)]
        cells = set()
    co = [[(float(pts[j][i][0]), float(pts[j][i][1])) if pat[j][i] else None for i in range(nx + 1)] for j in range(ny + 1)]
    nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
    h.put('g', grid_text(r, nn[0], nn[1], flat(co) if t == 'CO' else dd_of(r, co, nx, ny), plain=r.random() < 0.5))
    xs = [p[0] for row in pts for p in row]
    ys = [p[1] for row in pts for p in row]
    span = max(max(xs) - min(xs), max(ys) - min(ys)) + unit

    def image(i, j, u, v):
        q = [pts[j][i], pts[j][i + 1], pts[j + 1][i + 1], pts[j + 1][i]]
        w = [(8 - u) * (8 - v), u * (8 - v), u * v, (8 - u) * v]
        return [sum(m * p[c] for m, p in zip(w, q)) for c in (0, 1)]

    L, hints = [], []
    nd = r.choice([0, 1, 2, 3, 3, 4, 5, 8, 12]) if r.random() < 0.3 else r.choice([3, 4, 6, 10, 16])
    for _ in range(nd):
        if r.random() < 0.15:
            L.append(r.choice(['# note', '', '1 2', 'x 1 2', '3 4 z', '# 1 2 3']))
        if cells and r.random() < 0.8:
            i, j = r.choice(sorted(cells))
            u, v = r.randint(1, 7), r.randint(1, 7)
            X, Y = (c // 64 for c in image(i, j, u, v))
            hints.append([1, 8 * i + u, 8 * j + v])
            if a == 4:
                q = [pts[j][i], pts[j][i + 1], pts[j + 1][i + 1], pts[j + 1][i]]
                if not strictly_in(q, (X, Y)):
                    hints.pop()
                    continue
        else:
            X, Y = (r.choice([max(xs) + span, min(xs) - span]), r.randint(min(ys), max(ys))) if r.random() < 0.5 else (r.randint(min(xs), max(xs)), r.choice([max(ys) + span, min(ys) - span]))
            if not x and a != 4:
                X, Y = r.randint(-600, 600), r.randint(-600, 600)
            hints.append([0])
        z = r.choice([r.randint(-60, 60), r.randint(0, 9), -9])
        if a == 4 and r.random() < 0.2:
            z *= 50
        if a == 4 and not L and r.random() < 0.3:
            z = r.choice([16777217, -16777217, 16777219, 8388609, 123457])
        L.append(fnum(r, float(X)) + ' ' + fnum(r, float(Y)) + r.choice([' ', '\t']) + fnum(r, float(z)) + r.choice(['', '', ' 5', ' #']))
    h.put('d', L, 'data', last=r.random() < 0.8)
    argv = []
    if a or r.random() < 0.3:
        argv.append(['-a', str(a)])
    bad = r.random()
    it = t
    if t == 'CO' or r.random() < 0.4:
        if bad < 0.02:
            it = 'CE'
        argv.append(['-i', r.choice(TN[it])])
    rr, lo, hi = 0, 0, 0
    if r.random() < 0.45:
        rr = 1
        lo = r.randint(-900, 900)
        hi = lo + r.choice([1, 20, 200, 1500])
        if 0.02 < bad < 0.04:
            hi = lo - r.choice([0, 5])
        argv.append(['-r', str(lo), str(hi)])
    c = []
    if r.random() < 0.35:
        c = [r.randrange(nx), r.randrange(ny)]
        if r.random() < 0.25:
            c = r.choice([[-1, 0], [0, -1], [nx, 0], [0, ny], [nx + 3, ny - 1], [-5, -5]])
        argv.append(['-c', str(c[0]), str(c[1])])
    if 0.04 < bad < 0.06:
        n = r.choice([0, -1, 11, 100])
    if n != 3 or r.random() < 0.3:
        argv.append(['-n', str(n)])
    if x:
        argv.append(['-x'])
    if r.random() < 0.2:
        argv.append(['-v'])
    aa = a
    if 0.06 < bad < 0.08:
        aa = r.choice([-1, 5, 9])
        argv = [o for o in argv if o[0] != '-a'] + [['-a', str(aa)]]
    mf = ''
    if r.random() < 0.35:
        mf = 'm'
        m = mask_lines(r, nx * ny)
        if r.random() < 0.1:
            m = m[:-1] or ['']
        h.put('m', m, 'mask', last=r.random() < 0.6)
        argv.append(['-m', 'm'])
    lim, env = [], {}
    if a != 4 and n > 0 and r.random() < 0.4:
        u = 8 * n if x else 4 * n * n
        top = [p[0] + 3 * p[1] for row in pts for p in row] if not x else [0, nx + 3 * ny]
        T = r.randint(min(top) * u, max(top) * u)
        lim = [T]
        env = {'GU_STUB_NAN': repr((T + 0.5) / u)}
    ga, da, fin = 'g', 'd', None
    k2 = r.random()
    if k2 < 0.2:
        ga, fin = r.choice(['-', 'stdin']), 'g'
    elif k2 < 0.4:
        da, fin = r.choice(['-', 'stdin']), 'd'
    argv += [['-b', da], ['-g', ga]]
    r.shuffle(argv)
    h.run('gridbathy', ['gridbathy'] + sum(argv, []), fin, g='g', b='d', i=it, a=aa, n=n, x=x, r=rr, lo=lo, hi=hi, c=c, mf=mf, lim=lim, hints=hints if x and a != 4 else [], env=env)
    return h


def strictly_in(q, p):
    s = [(q[(k + 1) % 4][0] - q[k][0]) * (p[1] - q[k][1]) - (q[(k + 1) % 4][1] - q[k][1]) * (p[0] - q[k][0]) for k in range(4)]
    return min(s) > 0 or max(s) < 0


# ------------------------------------------------------------- G27
def spoil_grid(r, L, nx, ny, t):
    """(lines, last, special) of a spoiled grid file; some stay readable"""
    k = r.randrange(9)
    L = list(L)
    if k == 0:
        return L, True, 'missing'
    if k == 1:
        return L, True, 'dir'
    if k == 2:
        return [], True, None
    if k == 3:
        L[0] = r.choice(['# %d x %d', '%d x %d', '## %d %d', '## x %d %d', 'grid %d x %d', '##', '', '## %d', '## %d by %d'])
        L[0] = L[0] % ((nx, ny)[:L[0].count('%d')])
        return L, True, None
    if k == 4:
        L[0] = '## %d x %d' % r.choice([(0, ny), (nx, 0), (-nx, ny), (nx, -ny), (-nx, -ny), (0, 0)])
        return L, True, None
    if k == 5:
        L[0] = '## %d x %d' % r.choice([(65536, 65536), (46341, 46341), (100000, 21475), (65536, 32768)])
        return L, True, None
    if k == 6:
        return L[:r.randrange(len(L))], r.random() < 0.7, None
    if k == 7 and t == 'DD':
        a, b = r.choice([(nx + 1, ny), (nx, ny + 1), (nx - 1, ny), (nx - 1, ny - 1)])
        L[0] = '## %d x %d' % (a, b)
        L += ['1 2'] * (a * b)
        return L, True, None
    return L, False, None       # only the final newline is missing: good


def g27(k):
    r = rng('G27', k)
    h = Hist('G27-%s' % k, Coords(1))
    for _ in range(2):
        bad_run(r, h)
    return h


def bad_run(r, h):
    n = len(h.steps)
    g, b2, m, p = 'g%d' % n, 'b%d' % n, 'm%d' % n, 'p%d' % n
    prog = r.choice(['getnodes', 'getbound', 'subgrid', 'insertgrid', 'xy2ij', 'setbathy', 'args', 'args', 'lib', 'lib'])
    t = r.choice(['DD', 'CO', 'CE']) if prog in ('getnodes', 'lib') else r.choice(['DD', 'CO'])
    nx, ny = r.randint(1, 4), r.randint(1, 4)
    co, cells, pts = corner_grid(r, nx, ny, 64)
    if t == 'CE':
        nn, vals = (nx, ny), [(64.0 * q, 32.0 * q) for q in range(nx * ny)]
    else:
        nn = (nx + 1, ny + 1) if t == 'CO' else (2 * nx + 1, 2 * ny + 1)
        vals = flat(co) if t == 'CO' else dd_of(r, co, nx, ny)
    L = grid_text(r, nn[0], nn[1], vals)
    sp, last, special = spoil_grid(r, L, nn[0], nn[1], t) if r.random() < 0.85 else (L, True, None)
    if prog == 'args':
        h.put(g, L)
        h.put(p, ['1 1'], 'pts')
        bad_args(r, h, g, p, t, n)
        return
    h.put(g, sp, last=last, special=special)
    arg, fin = gridarg(r, g) if special is None else (g, None)
    v = r.choice([[], [], ['-v']])
    if prog == 'lib':
        h.run('libread', ['gudrv'], 'text:trace 0\ngread 0 %s %s\n' % (t, g) + ('gwrite 0 gw xy\n'), g=g, i=t, c='xy', written={'out': 'gw'})
    elif prog == 'getnodes':
        h.run('getnodes', ['getnodes', arg, '-i', t, '-o', t] + v, fin, g=g, i=t, o=t, mf='', p=0)
    elif prog == 'getbound':
        a = ['getbound', arg, '-i', t]
        h.run('getbound', a, fin, g=g, i=t, also={'oij': a + ['-r'], 'oc': a + ['-c'], 'ocij': a + ['-c', '-r']})
    elif prog == 'subgrid':
        i1, i2 = rng_arg(r, nn[0])
        h.run('subgrid', ['subgrid', arg, '-i', '%d:%d' % (i1, i2)] + v, fin, g=g, i1=i1, i2=i2, j1=-99, j2=9999)
    elif prog == 'insertgrid':
        h.put(b2, ['## 2 x 2', '1 2', '3 4', 'NaN NaN', '5 6'])
        x, y, xf, yf = (g, b2, arg, b2) if r.random() < 0.5 else (b2, g, b2, arg)
        tt = r.choice(['NO', 'CO'])
        h.run('insertgrid', ['insertgrid', xf, yf, '1', '1'] + (['-i', 'CO'] if tt == 'CO' else []), fin, a=x, b=y, i0=1, j0=1, m=0, t=tt)
    elif prog == 'xy2ij':
        good = r.random() < 0.6
        h.put(p, ['# no points'], 'pts', special=None if good else 'missing')
        h.run('xy2ij', ['xy2ij', '-g', arg, '-o', p, '-i', t] + v, fin, g=g, i=t, t=0, rev=0, force=0, pf=p, v=0)
    else:
        s, last, special = spoil_grid(r, ['## %d x %d' % (nx, ny)] + ['%d' % q for q in range(nx * ny)], nx, ny, 'CO')
        h.put(b2, s, 'set', last=last, special=special)
        h.run('setbathy', ['setbathy', b2, '-i', '0:1', '-z', '5'], None, g=b2, i1=0, i2=1, j1=-99, j2=9999, nx=-1, ny=-1, off=0, z=h.tid('5\n'))


def bad_args(r, h, g, p, t, n):
    bt = r.choice(['XX', 'D', 'DDD', 'corner', '0', '', 'none', 'co '])
    c = [['getnodes', g, '-i', bt], ['getnodes', g, '-i', t, '-o', bt], ['getnodes', g, '-i'], ['getnodes', g, '-o'], ['getnodes', g, '-m'],
         ['getbound', g, '-i', bt], ['getbound', g, '-i', r.choice(['CE', 'ce'])], ['getbound', g, '-i'],
         ['insertgrid', g, g, '0', '0', '-i', bt], ['insertgrid', g, g, '0', '0', '-i'],
         ['xy2ij', '-g', g, '-o', p, '-i', bt], ['xy2ij', '-g', g, '-o', p, '-i', 'ce'], ['xy2ij', '-g', g, '-o', p, '-i'],
         ['subgrid', g, '-i'], ['subgrid', g, '-j'], ['setbathy', g, '-z'], ['setbathy', g, '-i'], ['setbathy', g, '-z', '1', '-j'], ['setbathy', g],
         ['setbathy', g, '-z', '1', '-d'], ['setbathy', g, '-z', '1', '-o'],
         ['subgrid', g, '-i', '99:100'], ['subgrid', g, '-j', '-7:-2'], ['subgrid', g, '-i', '2:1'],
         ['getnodes', g, '-i', t, '-o', t, '-m', 'nosuchfile']]
    if r.random() < 0.3:
        # unknown map type through the library, with the user's error handler
        h.run('libbad', ['gudrv'], 'text:trace 0\ngnew 0 CO 2 2 0 0 1 0 0 1 1 1\n%s\n' % r.choice(['mbuild 0 0 2', 'mbuild 0 0 7', 'mbuild 0 0 17', 'gmask 0 1 1 1', 'gsub 1 0 5 9 0 0', 'gread 1 CO nosuchfile', 'gread 1 DD .']))
        return
    h.run('bad', r.choice(c), None)


GEN = ('CONSTANTS MaxX = %d\nMaxY = %d\nMaxOff = %d\nAsTypes = {%s}\nFull = %s\nRuns = %d\nINIT GInit\nNEXT GNext\nVIEW View\n'
       'INVARIANTS InsertLaw SubLaw\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')


def from_spec(b, chk, cases, only=None):
    """pipelines of insertgrid and subgrid generated from Grid, run; cases:
    sizes, offsets, types, all patterns, runs, random walks (or 0), histories"""
    hists = []
    for mx, my, mo, types, full, runs, walks, limit in cases:
        name = 'pipelines %dx%d offsets %d %s %d runs' % (mx, my, mo, '+'.join(types), runs)
        cfg = GEN % (mx, my, mo, ', '.join('"%s"' % t for t in types), str(full).upper(), runs)
        keep = lambda h: len(h) > 2 and (only is None or h[-1][0] in only)
        for q, hs in enumerate(chk.generated(name, 'ToolGen', cfg, limit, simulate=(walks, runs + 3) if walks else None, keep=keep)):
            r = rng('toolgen', name, q)
            h = Hist('%s-%d' % (name, q), Coords(1))
            for c in hs:
                if c[0] == 'file':
                    h.put(c[1], grid_text(r, c[2], c[3], [[float(n[1]), float(n[2])] if n[0] else None for n in c[4]], plain=True))
                elif c[0] == 'insert':
                    _, a, bb, i0, j0, m, t, d = c
                    argv = ['insertgrid'] + (['-m'] if m else []) + (['-i', r.choice(TN[t])] if t != 'NO' else []) + [a, bb, str(i0), str(j0)]
                    h.run('insertgrid', argv, None, a=a, b=bb, i0=i0, j0=j0, m=m, t=t, d=d)
                else:
                    _, a, i1, i2, j1, j2, d = c
                    h.run('subgrid', ['subgrid', a, '-i', '%d:%d' % (i1, i2), '-j', '%d:%d' % (j1, j2)], None, g=a, i1=i1, i2=i2, j1=j1, j2=j2, d=d, also={})
            hists.append(h)
    campaign(b, chk, 'generated pipelines', hists)


def campaign(b, chk, name, hists):
    trouble = []

    def run(h):
        if len(trouble) >= MAXTROUBLE:
            h.skipped = True
            return
        execute(b, h)
        if any(isinstance(x, dict) and x['main'][0] == -999 for x in h.raw):
            trouble.append(h)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, hists))
    chk.validate(name, 'ToolsTrace', 'ToolsTrace.cfg', hists, encode, lambda h: execute(b, h))
