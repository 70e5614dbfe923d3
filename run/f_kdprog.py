"""The kd program: runs over files of coordinates, validated against
KdProgTrace."""
import concurrent.futures as cf
import math
import re

from core import MAXTROUBLE, NCPU, exact, rng
from f_tools import Hist, execute, outcome, split

RAD = 6371.0
BAD = (1 << 30) - 1


def spell(r, v, unit):
    """the number v / unit"""
    x = v * 15.0 if unit < 1 else v / unit
    c = r.randrange(8)
    if x == int(x) and c < 5:
        return '%d' % x
    return ('%.4e' if len('%.10g' % abs(x)) < 6 else '%.10e') % x if c == 5 else '%+.4f' % x if c == 6 else repr(x)


def token(s, mul):
    m = re.match(r'[-+]?(nan|inf)', s, re.I)
    if m:
        return [0]
    m = re.match(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?', s)
    if not m:
        return [2]
    a = exact(float(m.group(0)) / 15, 1) if mul < 1 else exact(float(m.group(0)), mul)
    return [1, BAD if a is None else a]


def tokens(text):
    return [w for w in re.split('[ ,;\t]+', text) if w]


def g29(k):
    r = rng('G29', k)
    g = int(r.random() < 0.4)
    h = Hist('G29-%d' % k, None)
    d = 2 if g else r.choice([1, 2, 2, 3, 3, 4]) if r.random() < 0.9 else r.choice([5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33, 64, 65, 100, 150, 200, 255, 256])
    if g:
        mul = 1 / 15
        num = lambda: (r.randint(-24, 24), r.randint(-6, 6))
    else:
        mul = r.choice([1, 1, 8])
        m = r.choice([2, 10, 60, 300, 2000 if d < 3 else 1500])
        if d > 4:
            mul, m = 1 if d > 20 else mul, min(m, int(3000 / math.sqrt(d)))
        num = lambda: tuple(r.randint(-m, m) for _ in range(d))
    n = r.choice([0, 1, 2, 3, 8, 20, 40] if r.random() < 0.97 else [1023, 1024, 1025, 1100])
    if n > 100 and not g:
        mul, d = 1, max(d, 2)
        num = lambda: tuple(r.randint(-900, 900) for _ in range(d))
    pts = []
    L = []
    for _ in range(n):
        c = r.random()
        p = num() if c < 0.8 or not pts else r.choice(pts)
        if c < 0.08:
            L.append(r.choice(['# 1 2 3 4', '#', '# ' + '1 ' * 1500, '', 'x', 'a 1 2 3', '1 b 2 3' if d > 1 else 'b', '# 5', ' ', ',', '-']))
        if 0.08 < c < 0.12:
            q = [spell(r, v, mul) for v in num()]
            q[r.randrange(d)] = r.choice(['nan', 'NaN', 'inf', '-inf'])
            L.append(' '.join(q))
        if 0.12 < c < 0.15 and d > 1:
            L.append(' '.join(spell(r, v, mul) for v in num()[:-1]))
        sep = r.choice([' '] * 5 + [',', ';', '\t', ', ', ' ; ', '  '])
        L.append(('' if r.random() < 0.9 else r.choice([' ', '\t', ','])) + sep.join(spell(r, v, mul) for v in p) + ('' if r.random() < 0.8 else r.choice([' 7', '\r', ' # note\r', ' # note', ',', ' ', ' a b', '\t' + 'x' * r.choice([20, 300, 900, 3000])])))
        pts.append(p)
    h.put('p', L, 'grid', last=r.random() < 0.85)
    h.g, h.d, h.mul = g, d, mul
    for _ in range(r.choice([1, 2, 3])):
        p = num() if not pts or r.random() < 0.6 else r.choice(pts)
        if r.random() < 0.3 and not g:
            p = tuple(v + r.choice([-1, 0, 1]) for v in p)
        a = [['-g'] if g else ['-n', '%d' % d]]
        c = r.random()
        fin = None
        if c < 0.6:
            a.append(['-i', 'p'])
        else:
            fin = 'p'
            if c < 0.9:
                a.append(['-i', r.choice(['-', 'stdin'])])
        a.append(['-p'] + [spell(r, v, mul) for v in p])
        rg, R, Rs = 0, 0, 0
        if r.random() < 0.6:
            rg = 1
            if g:
                # between the lengths chords can have (in 1/10000 of the radius)
                R = r.choice([100, 1500, 3000, 4500, 6200, 9000, 11000, 13000, 15500, 18000, 19500, 20500])
                Rs = '%.3f' % (R * RAD / 10000)
            else:
                ds = [sum((x - y) ** 2 for x, y in zip(q, p)) for q in pts[:60]]
                ds = [4 * x for x in ds if math.isqrt(4 * x) ** 2 == 4 * x]
                R = math.isqrt(r.choice(ds)) + r.choice([0, 0, 0, 1, -1]) if ds and r.random() < 0.6 else r.choice([0, r.randint(0, 4 * m)])
                R = min(max(R, 0), 20000)
                Rs = repr(R / 2 / mul)
            if r.random() < 0.03:
                R, Rs = 20500 if g else 46340, r.choice(['inf', '1e300'])
            a.append(['-r', Rs])
        st = int(r.random() < 0.5)
        if st:
            a.append(['-s'])
        if r.random() < 0.5:
            a.append(['-o'])
        r.shuffle(a)
        argv = ['kd'] + [x for w in a for x in w]
        bad = 0
        if r.random() < 0.08:
            c = r.randrange(5)
            bad = 1
            if c == 0:
                argv = ['kd', '-i', 'p', '-p'] + [spell(r, v, mul) for v in p]
            elif c == 1:
                argv = ['kd', '-n', '%d' % r.choice([0, -1, 257, 100000]), '-i', 'p', '-p'] + [spell(r, v, mul) for v in p]
            elif c == 2:
                argv = ['kd'] + (['-g'] if g else ['-n', '%d' % d]) + ['-i', 'p', '-p'] + [spell(r, v, mul) for v in list(p) + [1]][r.choice([0, 2]):][:d + 1]
            elif c == 3:
                argv = ['kd'] + (['-g'] if g else ['-n', '%d' % d]) + ['-i', r.choice(['nofile', './none/p']), '-p'] + [spell(r, v, mul) for v in p]
            else:
                argv = ['kd'] + (['-g'] if g else ['-n', '%d' % d]) + r.choice([['-i'], ['-p'], ['-i', 'p', '-p'], ['-i', 'p', '-p', '1', '-r'], ['-n']])
            fin = None
        h.run('bad' if bad else 'kd', argv, fin, p=list(p), range=rg, R=R, sorted=st, Rs='%.3g' % float(Rs))
    return h


def printed(h, w, text):
    """the answer as printed"""
    o = {'size': -1, 'mode': 'bad', 'at': [], 'count': -1, 'R': -1, 'rows': []}
    L = split(text)
    x = [s.rstrip('\n') for s in L]
    if not x or not x[0].startswith('  src = '):
        return o
    m = re.fullmatch(r'    (\d+) points', x[1]) if len(x) > 1 else None
    if not m:
        return o
    o['size'] = int(m.group(1))
    if len(x) == 3 and x[2] == '  nothing to do, exiting':
        o['mode'] = 'none'
        return o
    m = re.fullmatch(r'  location = \((.*)\)', x[2]) if len(x) > 2 else None
    if not m:
        return o
    for s in m.group(1).split(', '):
        t = token(s, h.mul)
        o['at'].append(t[1] if t[0] == 1 else BAD)
    if len(x) < 4:
        return o
    rows = x[4:]
    m = re.fullmatch(r'  nodes within r < (\S+?)(km)?:', x[3])
    if x[3] == '  the nearest node:':
        mode = 'nearest'
    elif m and bool(m.group(2)) == bool(h.g):
        mode = 'range'
        o['R'] = w['R'] if m.group(1) == w['Rs'] else -1
        m = re.fullmatch(r' *(\d+) points found:', rows[0]) if rows else None
        if not m:
            return o
        o['count'] = int(m.group(1))
        rows = rows[1:]
        if o['count'] == 0 and not rows:
            o['mode'] = mode
            return o
    else:
        return o
    if not rows or rows[0].split() != ['X', 'Y', 'ID', 'DIST']:
        return o
    for s in rows[1:]:
        o['rows'].append(row(h, s.split()))
    o['mode'] = mode
    return o


def row(h, v):
    if len(v) != h.d + 2 or not re.fullmatch(r'\d+', v[-2]) or not re.fullmatch(r'\d+\.\d{3}', v[-1]):
        return [[-1] + [0] * h.d, 0, 1]
    c = []
    for s in v[:h.d]:
        t = token(s, h.mul)
        c.append(t[1] if t[0] == 1 else BAD)
    q = float(v[-1])
    if h.g:
        return [[int(v[-2])] + c, round(min(q / RAD, 9.0) * 10000)]
    q *= h.mul
    m = 64 if q < 700 else 8 if q < 5000 else 1
    return [[int(v[-2])] + c, round(min(q, 40000) * m), m]


def encode(h):
    out = []
    for st, res in zip(h.steps, h.raw):
        if st[0] == 'put':
            out.append({'op': 'load', 'd': h.d, 'L': [{'c': int(s.startswith('#')), 'v': [token(t, h.mul) for t in tokens(s.rstrip('\n'))[:h.d + 1]]} for s in split(st[2])]})
            continue
        _, op, argv, stdin, w = st
        e = {'op': op, 'same': res['same'], 'ok': outcome(res['main'])}
        if op == 'kd':
            e.update(g=h.g, p=w['p'], range=w['range'], R=w['R'], sorted=w['sorted'], o=printed(h, w, res['main'][1]))
        out.append(e)
    return {'ev': out}


def campaign(b, chk, name, hists):
    trouble = []

    def run(h):
        if len(trouble) >= MAXTROUBLE:
            h.skipped = True
            return
        execute(b, h)
        if any(isinstance(x, dict) and x['main'][0] == -999 for x in h.raw):
            trouble.append(h)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, hists))
    chk.validate(name, 'KdProgTrace', 'KdProgTrace.cfg', hists, encode, lambda h: execute(b, h))
