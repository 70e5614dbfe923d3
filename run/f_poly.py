"""Polylines: histories of calls validated against PolyTrace."""
import itertools
import math
import re

import geom
from core import Rerun, Script, cmd, drive, exact, num, quick, rng


class W:
    def __init__(self, r, scale=0, off=(0, 0), dec=False):
        self.r = r
        self.off = off
        self.cmds = []
        self.what = []
        self.dec = dec          # coordinates known by their 15 significant digits
        self.ids = {}
        if scale:
            self.cmds.append('scale %d' % scale)

    def add(self, c, **w):
        self.cmds.append(c)
        self.what.append(w)

    def P(self, p):
        return [float(p[0] + self.off[0]), float(p[1] + self.off[1])] if not self.dec else list(p)

    def E(self, p):
        return list(p) if not self.dec else [dec15(p[0], self.ids), dec15(p[1], self.ids)]

    def new(self, r, pts):
        self.add(cmd('pnew', r, len(pts), [self.P(p) for p in pts]), op='new', r=r, p=[self.E(p) for p in pts])

    def script(self, tid):
        return Script(tid, self.cmds, what=self.what, off=self.off, dec=self.dec, ids=self.ids)


def dec15(v, ids):
    """a number by its 15 significant digits"""
    k = '%.15g' % v
    if k == '-0':
        k = '-0'
    return ids.setdefault(k, len(ids) + 1)


def enc1(v, o, s):
    if s.meta['dec']:
        return dec15(v, s.meta['ids'])
    a = exact(v, 1, o)
    return (1 << 30) - 1 if a is None else a


def lines(ls, s):
    """file lines -> records"""
    out = []
    for t in ls:
        w = t.split()
        if t.startswith('#'):
            if t.startswith('## ') and len(w) == 2 and w[1].isdigit() and t == '## ' + w[1]:
                out.append(['h', int(w[1])])
            else:
                out.append(['c'])
        elif not w:
            out.append(['c'])
        else:
            try:
                x, y = float(w[0]), float(w[1])
                if x != x or y != y:
                    out.append(['n'])
                    continue
                out.append(['p', enc1(x, s.meta['off'][0], s), enc1(y, s.meta['off'][1], s)])
            except (ValueError, IndexError):
                out.append(['x'])
    return out


def encode(s):
    off = s.meta['off']
    out = []
    for w, e in zip(s.meta['what'], s.events):
        o = dict(w)
        o['q'] = e['q']
        if e['op'] in ('crash', 'hang'):
            out.append({'op': e['op'], 'q': 1, 'what': e['what'], 'cmd': e['cmd'][:200]})
            break
        if e['q']:
            o['msg'] = e.get('msg', '')
        if 'st' in e:
            st = []
            for r, p in e['st']:
                pts = [[enc1(num(a), off[0], s), enc1(num(b), off[1], s)] for a, b in p['p']]
                # the box of points known by their digits only is not compared
                box = [] if s.meta['dec'] or p['n'] == 0 else [enc1(num(v), off[k // 2], s) for k, v in enumerate(p['e'])]
                st.append([r, pts, box])
            o['st'] = st
        op = o['op']
        if op in ('inside', 'find', 'isclosed', 'read'):
            o['ret'] = e.get('ret', -1)
        elif op == 'insidemany':
            o['res'] = e['res']
        elif op == 'area':
            a = exact(num(e['area']), 2)
            o['a2'] = (1 << 30) - 1 if a is None else a
        elif op == 'fcat':
            o['lines'] = lines(e['lines'], s)
        elif op == 'fput':
            o['lines'] = lines([t.rstrip('\n') for t in re.findall('[^\n]*\n|[^\n]+$', bytes.fromhex(o.pop('hex')).decode())], s)
        out.append(o)
    return {'ev': out}


# ------------------------------------------------------------ point lists
def some_points(r, n, m=None):
    m = m or r.choice([1, 2, 4, 20, 500])
    k = r.randrange(5)
    if k == 0:
        return [(r.randint(-m, m), 0) for _ in range(n)]
    if k == 1:      # walk
        p = [0, 0]
        out = []
        for _ in range(n):
            p = [p[0] + r.randint(-2, 2), p[1] + r.randint(-2, 2)]
            out.append(tuple(p))
        return out
    if k == 2 and n:      # with repetitions
        out = []
        while len(out) < n:
            out += [(r.randint(-m, m), r.randint(-m, m))] * r.choice([1, 1, 2, 3])
        return out[:n]
    return [(r.randint(-m, m), r.randint(-m, m)) for _ in range(n)]


def edit(w, live, n, maxlen):
    """one random edit; live: register -> length (upper bound known exactly)"""
    r = w.r
    free = [x for x in range(8) if x not in live]
    if not live:
        op = 'new'
    else:
        op = r.choice(['new', 'add', 'add', 'addat', 'addat', 'append', 'append', 'delete', 'delete', 'reverse', 'close', 'clear', 'copy', 'copy', 'free', 'thin', 'despike', 'find', 'isclosed'])
    if op in ('new', 'copy') and not free:
        op = 'free'
    a = r.choice(sorted(live)) if live else None
    pt = lambda: (r.randint(-4, 4), r.randint(-4, 4)) if r.random() < 0.7 else (r.randint(-900, 900), r.randint(-900, 900))
    if op == 'new':
        d = r.choice(free)
        pts = some_points(r, r.choice([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17]), m=r.choice([2, 5, 50]))
        w.new(d, pts)
        live[d] = pts
    elif op == 'add':
        p = pt()
        w.add(cmd('padd', a, w.P(p)), op='add', r=a, p=list(p))
        live[a] = live[a] + [p]
    elif op == 'addat':
        L = len(live[a])
        k = r.choice([-1, -7, 0, 0, L // 2, max(L - 1, 0), L, L + 1, L + 9, r.randint(0, L)])
        p = pt()
        w.add(cmd('paddat', a, k, w.P(p)), op='addat', r=a, k=k, p=list(p))
        if k >= 0:
            live[a] = live[a][:k] + [p] + live[a][k:]
    elif op == 'append':
        b = r.choice(sorted(live))
        if len(live[a]) + len(live[b]) > maxlen:
            return
        w.add(cmd('pappend', a, b), op='append', r=a, s=b)
        live[a] = live[a] + live[b]
    elif op == 'delete':
        if live[a]:
            k = r.choice([0, len(live[a]) - 1, r.randrange(len(live[a]))])
            w.add(cmd('pdel', a, k), op='delete', r=a, k=k)
            live[a] = live[a][:k] + live[a][k + 1:]
    elif op == 'reverse':
        w.add(cmd('prev', a), op='reverse', r=a)
        live[a] = live[a][::-1]
    elif op == 'close':
        w.add(cmd('pclose', a), op='close', r=a)
        L = live[a]
        if L and not (len(L) > 1 and L[0] == L[-1]):
            live[a] = L + [L[0]]
    elif op == 'clear':
        w.add(cmd('pclear', a), op='clear', r=a)
        live[a] = []
    elif op == 'copy':
        d = r.choice(free)
        w.add(cmd('pcopy', d, a), op='copy', r=d, s=a)
        live[d] = list(live[a])
    elif op == 'free':
        w.add(cmd('pfree', a), op='free', r=a)
        del live[a]
    elif op == 'thin':
        eps = r.choice([0, 0, 1, 2, 5, 40])
        w.add(cmd('pthin', a, float(eps)), op='thin', r=a, eps=eps)
        L = live[a]
        if len(L) > 1:
            o = [L[0]]
            for p in L[1:]:
                if abs(p[0] - o[-1][0]) > eps or abs(p[1] - o[-1][1]) > eps:
                    o.append(p)
            live[a] = o
    elif op == 'despike':
        eps = r.choice([1, 2, 5, 5, 10, 13, 100, 2000])
        w.add(cmd('pdespike', a, float(eps)), op='despike', r=a, eps=eps)
        L = live[a]
        if len(L) > 1:
            o = [L[0]]
            for p in L[1:]:
                if (p[0] - o[-1][0]) ** 2 + (p[1] - o[-1][1]) ** 2 < eps * eps:
                    o.append(p)
            live[a] = o
    elif op == 'find':
        p = r.choice(live[a]) if live[a] and r.random() < 0.7 else pt()
        w.add(cmd('pfind', a, w.P(p)), op='find', r=a, p=list(p))
    elif op == 'isclosed':
        eps = r.choice([0, 0, 1, 3])
        w.add(cmd('pisclosed', a, float(eps)), op='isclosed', r=a, eps=eps)


def units(r):
    return r.choice([0, 0, 0, 0, -40, -7, 12, 60, -200, 170]), r.choice([(0, 0)] * 4 + [(1 << 30, -(1 << 31)), (-(1 << 37), 1 << 36), (1000000, 7000000)])


def g16(k):
    r = rng('G16', k)
    sc, off = units(r)
    w = W(r, sc, off)
    live = {}
    for _ in range(r.randint(8, quick(30, 50))):
        edit(w, live, k, 120)
        if live and r.random() < 0.03:
            a = r.choice(sorted(live))
            p = r.choice([(math.nan, 1.0), (2.0, math.nan), (math.nan, math.nan)])
            if r.random() < 0.6:
                w.add(cmd('padd', a, p), op='addnan', r=a)
            else:
                w.add(cmd('paddat', a, len(live[a]) + r.choice([0, 0, 1, 7]), p), op='addnan', r=a)
    return w.script('G16-%d' % k)


def g16_grow(k):
    """long polylines grown point by point, past every storage size"""
    r = rng('G16g', k)
    w = W(r)
    live = {0: [], 1: []}
    w.new(0, [])
    n1 = r.randint(0, 70)
    pts = some_points(r, n1)
    w.new(1, pts)
    live[1] = pts
    for _ in range(r.randint(5, 30)):
        edit(w, live, k, 600)
    return w.script('G16g-%d' % k)


def walk_of(cells, nx, ny):
    """boundary nodes of a pinch-free or pinched region, by sides"""
    nxt = {}
    for i, j in cells:
        for a, b, c in [((i, j), (i + 1, j), (i, j - 1)), ((i + 1, j), (i + 1, j + 1), (i + 1, j)), ((i + 1, j + 1), (i, j + 1), (i, j + 1)), ((i, j + 1), (i, j), (i - 1, j))]:
            if c not in cells:
                nxt.setdefault(a, []).append(b)
    # only for regions without pinches
    s = min(nxt)
    out = [s]
    while True:
        n = nxt[out[-1]][0]
        if n == s:
            return out
        out.append(n)


def simple_polygon(r):
    """a simple polygon with points in between its corners"""
    if r.random() < 0.5:
        nx, ny = r.randint(1, 6), r.randint(1, 6)
        cells = geom.random_simple(r, nx, ny)
        w = walk_of(cells, nx, ny)
        k, g = geom.grid_points(r, nx, ny, unit=1)
        if k == 'polar':
            pass
        return [g[j][i] for i, j in w]
    # star-shaped around the origin
    n = r.randint(3, 9)
    g = r.choice([1, 2, 3, 4, 6])
    m = r.choice([2, 3, 6, 30])
    pts = {}
    for _ in range(4 * n):
        p = (r.randint(-m, m), r.randint(-m, m))
        if p != (0, 0):
            d = math.gcd(p[0], p[1])
            pts[(p[0] // d, p[1] // d)] = (p[0] * g, p[1] * g)
        if len(pts) == n:
            break
    v = sorted(pts.values(), key=lambda p: math.atan2(p[1], p[0]))
    for a, b in zip(v, v[1:] + v[:1]):
        if a[0] * b[1] - a[1] * b[0] <= 0:      # gap of half a turn or more
            return [(0, 0), (g, 0), (2 * g, 0), (2 * g, 3 * g), (g, g), (0, g)]
    out = []
    for a, b in zip(v, v[1:] + v[:1]):
        out.append(a)
        d = math.gcd(abs(b[0] - a[0]), abs(b[1] - a[1]))
        c = sorted(r.sample(range(1, d), min(d - 1, r.choice([0, 0, 1, 2, 5])))) if d > 1 else []
        out += [(a[0] + (b[0] - a[0]) // d * t, a[1] + (b[1] - a[1]) // d * t) for t in c]
    return out


def decorate(r, w):
    """start vertex, direction, repetitions, explicit closing"""
    k = r.randrange(len(w))
    w = w[k:] + w[:k]
    if r.random() < 0.5:
        w = w[::-1]
    if r.random() < 0.4:
        out = []
        for p in w:
            out += [p] * r.choice([1, 1, 1, 2, 3])
        w = out
    if r.random() < 0.7 and w[0] != w[-1]:
        w = w + [w[0]] * r.choice([1, 1, 1, 2])
    return w


def g06(k):
    r = rng('G06', k)
    sc, off = units(r)
    w = W(r, sc, off)
    p = decorate(r, simple_polygon(r))
    w.new(0, p)
    eps = r.choice([0.0, 1e-15, 1e-12, 1e-10])
    w.add(cmd('pcompact', 0, eps), op='compact', r=0)
    xs, ys = [a for a, b in p], [b for a, b in p]
    lattice(w, 0, min(xs) - 1, max(xs) + 1, min(ys) - 1, max(ys) + 1, 8)
    if r.random() < 0.3:
        w.add(cmd('pcompact', 0, eps), op='compact', r=0)
    if r.random() < 0.4:
        w.add(cmd('pcopy', 1, 0), op='copy', r=1, s=0)
        w.add(cmd('pappend', 0, 1), op='append', r=0, s=1)
        w.add(cmd('paddat', 1, 0, w.P((3, 4))), op='addat', r=1, k=0, p=[3, 4])
    return w.script('G06-%d' % k)


def lattice(w, r, x0, x1, y0, y1, n):
    dx, dy = max(1, (x1 - x0) // n), max(1, (y1 - y0) // n)
    nx, ny = (x1 - x0) // dx + 1, (y1 - y0) // dy + 1
    w.add(cmd('pinmany', r, w.P((x0, y0)), float(dx), float(dy), nx, ny), op='insidemany', r=r, x0=x0, y0=y0, dx=dx, dy=dy, nx=nx, ny=ny)


def g15(k):
    r = rng('G15', k)
    sc, off = units(r)
    w = W(r, sc, off)
    c = r.randrange(5)
    if c == 0:
        p = decorate(r, simple_polygon(r))
    elif c == 4:            # long and thin: many digits in one coordinate
        m = 1 << r.choice([10, 20, 25, 26, 26])
        flip = r.random() < 0.5
        F = (lambda q: q[::-1]) if flip else (lambda q: q)
        p = decorate(r, [F((r.randint(-m, m), r.randint(0, 3))) for _ in range(r.randint(3, 6))])
        w.new(0, p)
        for _ in range(20):
            a = r.randrange(len(p))
            u, v = F(p[a]), F(p[(a + 1) % len(p)])
            if u[1] != v[1] and r.random() < 0.9:
                y = r.randint(min(u[1], v[1]), max(u[1], v[1]))
                q = (u[0] + (v[0] - u[0]) * (y - u[1]) // (v[1] - u[1]) + r.choice([-1, 0, 0, 1, 2, 5]), y)
            else:
                q = (u[0] + r.choice([-1, 0, 1]), u[1] + r.choice([0, 0, 1]))
            q = F(q)
            w.add(cmd('pin', 0, w.P(q)), op='inside', r=0, p=list(q))
        return w.script('G15-%d' % k)
    elif c == 1:
        m = r.choice([1, 2, 3])
        p = [(2 * r.randint(-m, m), 2 * r.randint(-m, m)) for _ in range(r.randint(0, 9))]
        p = decorate(r, p) if p else p
    elif c == 2:
        m = r.choice([5, 20, 300])
        p = [(r.randint(-m, m), r.randint(-m, m)) for _ in range(r.randint(1, 12))]
        p = decorate(r, p)
    else:           # level and upright sides, zigzags at one level
        p = []
        x, y = 0, 0
        for _ in range(r.randint(2, 12)):
            if r.random() < 0.5:
                x += r.choice([-4, -2, 2, 4])
            else:
                y = r.choice([0, 0, 2, -2, 4])
            p.append((x, y))
        p = decorate(r, p)
    w.new(0, p)
    xs, ys = [a for a, b in p] or [0], [b for a, b in p] or [0]
    lattice(w, 0, min(xs) - 1, max(xs) + 1, min(ys) - 1, max(ys) + 1, 11)
    if p:
        for _ in range(8):      # vertices, points of sides, level with vertices
            a = r.randrange(len(p))
            u, v = p[a], p[(a + 1) % len(p)]
            q = r.choice([u, ((u[0] + v[0]) // 2, (u[1] + v[1]) // 2), (r.randint(min(xs) - 3, max(xs) + 3), u[1]), (u[0], r.randint(min(ys) - 3, max(ys) + 3))])
            w.add(cmd('pin', 0, w.P(q)), op='inside', r=0, p=list(q))
    # a changed polygon is judged by its new box
    if p and r.random() < 0.5:
        kk = r.randrange(len(p))
        w.add(cmd('pdel', 0, kk), op='delete', r=0, k=kk)
        lattice(w, 0, min(xs) - 1, max(xs) + 1, min(ys) - 1, max(ys) + 1, 6)
        q = (max(xs) + 3, max(ys) + 2)
        w.add(cmd('padd', 0, w.P(q)), op='add', r=0, p=list(q))
        lattice(w, 0, min(xs) - 1, max(xs) + 4, min(ys) - 1, max(ys) + 4, 6)
    return w.script('G15-%d' % k)


def g15_all(n, m=3, lo=None):
    """every polygon with n vertices on a lattice of m x m"""
    out = []
    lat = [(2 * i, 2 * j) for j in range(m) for i in range(m)]
    for t, v in enumerate(itertools.product(lat, repeat=n)):
        w = W(rng('G15a', n, t))
        w.new(0, v)
        lattice(w, 0, -1, 2 * m - 1, -1, 2 * m - 1, 2 * m)
        out.append(w.script('G15a-%d-%d' % (n, t)))
    return out


def g17(k):
    r = rng('G17', k)
    w = W(r, r.choice([0, 0, -30, 15]), r.choice([(0, 0), (0, 0), (1 << 20, -(1 << 21))]))
    thin = r.random() < 0.2
    if thin:
        w = W(r, r.choice([0, 0, -30, 15]), (0, 0))
    for q in range(r.randint(1, 3)):
        p = decorate(r, simple_polygon(r)) if r.random() < 0.6 else some_points(r, r.randint(0, 9))
        if thin:
            # long: many digits in one coordinate
            p = [(r.randint(-(1 << 24), 1 << 24), r.randint(0, 3)) for _ in range(r.randint(3, 6))]
            if r.random() < 0.5:
                p = [c[::-1] for c in p]
        w.new(q, p)
        w.add(cmd('parea', q), op='area', r=q)
        if r.random() < 0.5:
            w.add(cmd('prev', q), op='reverse', r=q)
            w.add(cmd('parea', q), op='area', r=q)
        if r.random() < 0.5:
            w.add(cmd('pclose', q), op='close', r=q)
            w.add(cmd('parea', q), op='area', r=q)
    return w.script('G17-%d' % k)


def g17_io(k):
    """several polylines in a stream, written and read"""
    r = rng('G17io', k)
    dec = r.random() < 0.5
    w = W(r, off=(0, 0) if dec or r.random() < 0.5 else (1 << 30, -(1 << 40)), dec=dec)
    tag = 'p%d' % k

    def coord():
        if not dec:
            return r.randint(-5000, 5000)
        return r.choice([r.uniform(-1, 1), r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300), float(r.randint(-99, 99)) / 7, 0.0, 5e-324, 1.7e308,
                         123456789.123456789, 1e15 / 3, 9007199254740993.0, 1e22 / 3])
    n = r.randint(1, 4)
    for q in range(n):
        m = r.choice([1, 2, 3, 7, 20]) if r.random() < 0.9 else 0
        w.new(q, [(coord(), coord()) for _ in range(m)])
    names = ['%sa' % tag]
    if r.random() < 0.5:
        # a file of one's own
        text = ''
        for _ in range(r.randint(0, 12)):
            c = r.randrange(10)
            if c < 5:
                sp = r.choice([' ', '  ', '\t'])
                text += r.choice(['', ' ', '\t']) + w_num(r, coord(), w, 0) + sp + w_num(r, coord(), w, 1) + r.choice(['', '', '\r', ' 7', ' text\r', ' text', '  ', ' 3 4' * r.choice([1, 20, 45, 400]), ' ' * 1900]) + '\n'
            elif c == 9 and r.random() < 0.3:
                text += r.choice(['# ' + '1 2 ' * 400, 'nan 1', '2 NaN', 'NaN NaN', '#' * 1500 + ' 1 2', ' ' * 200 + '1', ' ' * 1800]) + '\n'
            else:
                text += r.choice(['# comment', '#', '## 3', '# 1 2', '# x\r', '\r', '', ' ', '\t ', 'junk', '5', '5 x', 'x 5']) + '\n'
        if text[-2:-1] not in ('', '\n') and r.random() < 0.2:
            text = text[:-1]        # no newline at the end
        w.add('fput %sb %s' % (tag, text.encode().hex()), op='fput', name=tag + 'b', hex=text.encode().hex())
        names.append(tag + 'b')
    order = [r.randrange(n) for _ in range(r.randint(1, 5))]
    w.add('fopen 0 %sa w' % tag, op='fopen', h=0, name=tag + 'a', w=1)
    for q in order:
        w.add('pwrite %d 0' % q, op='write', r=q, h=0)
    w.add('fclose 0', op='fclose', h=0)
    w.add('fcat %sa' % tag, op='fcat', name=tag + 'a')
    nr = 10
    for name in names:
        w.add('fopen 1 %s r' % name, op='fopen', h=1, name=name, w=0)
        for t in range(r.randint(1, len(order) + 2)):
            if r.random() < 0.8:
                w.new(nr, [])
                nr += 1
            w.add('pread %d 1' % (nr - 1 if nr > 10 and r.random() < 0.9 else 0), op='read', r=0, h=1)
            w.what[-1]['r'] = int(w.cmds[-1].split()[1])
        w.add('fclose 1', op='fclose', h=1)
    for name in names:
        w.add('frm ' + name, op='skip')
    return w.script('G17io-%d' % k)


def w_num(r, v, w, ax):
    if w.dec:
        return r.choice(['%.17g', '%.15g', '%e']) % v
    return r.choice(['%d', '%d.0', '+%d' if v + w.off[ax] >= 0 else '%d']) % (v + w.off[ax])


def encode_all(s):
    t = encode(s)
    t['ev'] = [e for e in t['ev'] if e['op'] != 'skip']
    return t


def large_polygon(r):
    """hundreds of vertices"""
    k = r.randrange(4)
    if k < 3:
        nx, ny = geom.large_dims(r)
        if k == 2:
            nx, ny = r.choice([(r.randint(300, 700), 1), (1, r.randint(300, 700))])
        cells = geom.large_cells(r, nx, ny)
        g = geom.large_points(r, nx, ny, unit=r.choice([1, 4]))
        return [g[j][i] for i, j in walk_of(cells, nx, ny)]
    n = r.randint(200, 900)     # a saw
    p = [(2 * i, r.randint(1, 9) * (i % 2)) for i in range(n)] + [(2 * n, 30), (0, 30)]
    if r.random() < 0.5:
        p = [q[::-1] for q in p]
    return p


def large(prop, k):
    """calls of a property on long polylines"""
    r = rng('large', prop, k)
    sc, off = units(r)
    if prop == 'G17':
        sc, off = 0, r.choice([(0, 0), (1 << 20, -(1 << 21))])
    w = W(r, sc, off)
    p = decorate(r, large_polygon(r))
    w.new(0, p)
    xs, ys = [a for a, b in p], [b for a, b in p]
    if prop == 'G06':
        w.add(cmd('pcompact', 0, r.choice([0.0, 1e-12])), op='compact', r=0)
        lattice(w, 0, min(xs) - 1, max(xs) + 1, min(ys) - 1, max(ys) + 1, 4)
    elif prop == 'G15':
        lattice(w, 0, min(xs) - 1, max(xs) + 1, min(ys) - 1, max(ys) + 1, 6)
        for _ in range(12):
            a = r.choice([r.randrange(len(p)), len(p) - 1, len(p) - 2])
            u, v = p[a], p[(a + 1) % len(p)]
            q = r.choice([u, ((u[0] + v[0]) // 2, (u[1] + v[1]) // 2), (r.randint(min(xs) - 3, max(xs) + 3), u[1]), (u[0] + r.choice([-1, 1]), u[1])])
            w.add(cmd('pin', 0, w.P(q)), op='inside', r=0, p=list(q))
    elif prop == 'G16':
        live = {0: p}
        for _ in range(r.randint(3, 8)):
            edit(w, live, k, 4000)
    else:
        w.add(cmd('parea', 0), op='area', r=0)
        tag = 'l%d' % k
        n = r.choice([1, 2])
        w.add('fopen 0 %s w' % tag, op='fopen', h=0, name=tag, w=1)
        for _ in range(n):
            w.add('pwrite 0 0', op='write', r=0, h=0)
        w.add('fclose 0', op='fclose', h=0)
        w.add('fcat ' + tag, op='fcat', name=tag)
        w.add('fopen 1 %s r' % tag, op='fopen', h=1, name=tag, w=0)
        for q in range(n + 1):
            w.new(1 + q, [])
            w.add('pread %d 1' % (1 + q), op='read', r=1 + q, h=1)
        w.add('fclose 1', op='fclose', h=1)
        w.add('frm ' + tag, op='skip')
    return w.script('%sL-%d' % (prop, k))


GEN = ('CONSTANTS Coord = {%s}\nMaxLen = %d\nMaxOps = %d\nINIT GInit\nNEXT GNext\nVIEW View\n'
       'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')


def from_spec(b, chk, name, coord, maxlen, maxops, limit, simulate=None):
    """histories generated from Poly, run in the code"""
    hs = chk.generated(name, 'PolyGen', GEN % (', '.join(map(str, coord)), maxlen, maxops), limit, simulate)
    scripts = []
    for n, h in enumerate(hs):
        r = rng('polygen', name, n)
        w = W(r, *units(r))
        live = set()
        for c in h:
            op, a = c[0], c[1]
            if op == 'new':
                w.new(a, [])
            elif op == 'add':
                w.add(cmd('padd', a, w.P(c[2])), op='add', r=a, p=c[2])
            elif op == 'addat':
                w.add(cmd('paddat', a, c[2], w.P(c[3])), op='addat', r=a, k=c[2], p=c[3])
            elif op == 'append':
                w.add(cmd('pappend', a, c[2]), op='append', r=a, s=c[2])
            elif op == 'delete':
                w.add(cmd('pdel', a, c[2]), op='delete', r=a, k=c[2])
            elif op == 'copy':
                w.add(cmd('pcopy', a, c[2]), op='copy', r=a, s=c[2])
            elif op in ('thin', 'despike'):
                w.add(cmd('p' + op, a, float(c[2])), op=op, r=a, eps=c[2])
            else:
                w.add(cmd({'reverse': 'prev'}.get(op, 'p' + op), a), op=op, r=a)
            if op in ('new', 'copy'):
                live.add(a)
            elif op == 'free':
                live.discard(a)
        for a in sorted(live):
            p = [r.choice(coord), r.choice(coord)]
            w.add(cmd('pfind', a, w.P(p)), op='find', r=a, p=p)
            w.add(cmd('pisclosed', a, 0.0), op='isclosed', r=a, eps=0)
        scripts.append(w.script('%s-%d' % (name, n)))
    campaign(b, chk, 'generated ' + name, scripts)


SGEN = ('CONSTANTS MaxLines = %d\nMaxReads = %d\nMaxWrites = %d\nINIT GInit\nNEXT GNext\nVIEW View\n'
        'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')


def streams_from_spec(b, chk, ml, mr, mw, limit):
    """files and readings generated from Poly, run in the code"""
    name = 'streams of %d lines, %d readings, %d writings' % (ml, mr, mw)
    scripts = []
    for n, h in enumerate(chk.generated(name, 'StreamGen', SGEN % (ml, mr, mw), limit)):
        r = rng('streamgen', name, n)
        w = W(r)
        nm = 's%d' % n
        opened = set()
        for c in h:
            op = c[0]
            if op == 'new':
                w.new(c[1], c[2])
            elif op == 'fput':
                text = ''
                for ln in c[2]:
                    text += {'p': '%d %d' % tuple(ln[1:]) + r.choice(['', '', '', ' 5 6' * 300]) if ln[0] == 'p' else '', 'h': '## %d' % ln[1] if ln[0] == 'h' else '',
                             'c': r.choice(['#', '# 1 2', '', ' ', '\t', '#x', '#' + ' 7 8' * 400]), 'x': r.choice(['x', '1', '1 x', 'y 2', '- -', ' x'])}[ln[0]] + '\n'
                if text[-2:-1] not in ('', '\n') and r.random() < 0.3:
                    text = text[:-1]
                w.add('fput %s %s' % (nm, text.encode().hex() or '-'), op='fput', name=nm, hex=text.encode().hex())
            elif op == 'fopen':
                w.add('fopen %d %s %s' % (c[1], nm, 'rw'[c[3]]), op='fopen', h=c[1], name=nm, w=c[3])
                opened.add(c[1])
            elif op == 'fclose':
                w.add('fclose %d' % c[1], op='fclose', h=c[1])
                opened.discard(c[1])
            elif op == 'write':
                w.add('pwrite %d %d' % (c[1], c[2]), op='write', r=c[1], h=c[2])
            elif op == 'read':
                w.add('pread %d %d' % (c[1], c[2]), op='read', r=c[1], h=c[2])
        for x in sorted(opened):
            w.add('fclose %d' % x, op='fclose', h=x)
        if 'fput' in [c[0] for c in h] or 'write' in [c[0] for c in h]:
            w.add('fcat ' + nm, op='fcat', name=nm)
            w.add('frm ' + nm, op='skip')
        scripts.append(w.script('%s-%d' % (name, n)))
    drive(b, scripts)
    chk.validate('generated ' + name, 'PolyTrace', 'PolyTrace.cfg', scripts, encode_all, Rerun(b))


def campaign(b, chk, name, scripts):
    drive(b, scripts)
    chk.validate(name, 'PolyTrace', 'PolyTrace.cfg', scripts, encode_all, Rerun(b))
