"""Maps, boundaries and averagers: histories validated against GridMapTrace."""
import math

import geom
from core import Rerun, Script, cmd, drive, exact, isnum, num, quick, rng

NAN = float('nan')
FU = 1 << 22


class World:
    """Builds one script: grids, maps, queries; remembers what is needed to
    encode the events."""

    def __init__(self, r, off=None):
        self.r = r
        self.cmds = []
        self.what = []          # per command: encoding information
        self.grids = {}         # reg -> dict(nx, ny, pts, pat, cells, scale, mx, my)
        self.off = off or (0, 0)
        self.cur = 0

    def add(self, c, **w):
        self.cmds.append(c)
        self.what.append(w)

    def scale(self, k):
        if k != self.cur:
            self.cmds.append('scale %d' % k)
            self.what.append(None)
            self.cur = k

    def P(self, p):
        return [float(p[0] + self.off[0]), float(p[1] + self.off[1])]

    def grid(self, reg, nx, ny, cells, pts, scale=0, cls=None, mx=1, my=1):
        pat = geom.nodes_of(cells, nx, ny)
        self.scale(scale)
        v = []
        n = []
        for j in range(ny + 1):
            for i in range(nx + 1):
                if pat[j][i]:
                    v += self.P(pts[j][i])
                    n.append([1, pts[j][i][0], pts[j][i][1]])
                else:
                    v += [NAN, NAN]
                    n.append([0, 0, 0])
        span = 0
        for j in range(ny):
            for i in range(nx):
                c = [pts[j][i], pts[j][i + 1], pts[j + 1][i + 1], pts[j + 1][i]]
                span = max(span, max(p[0] for p in c) - min(p[0] for p in c), max(p[1] for p in c) - min(p[1] for p in c))
        self.grids[reg] = dict(nx=nx, ny=ny, cells=cells, pts=pts, pat=pat, scale=scale, mx=mx, my=my, span=min(span, 30000))
        w = dict(op='new' if cls is None else 'mirror', r=reg, nx=nx + 1, ny=ny + 1, n=n)
        if cls is not None:
            w.update(s=cls, mx=mx, my=my)
        self.add(cmd(self.r.choice(['gnew', 'gnew2']), reg, 'CO', nx + 1, ny + 1, v), **w)

    def build(self, m, reg, t):
        self.scale(self.grids[reg]['scale'])
        if self.r.random() < 0.3:
            self.add('gsetmap %d %d' % (reg, t), op='check')
            self.add('mbuild %d %d -1' % (m, reg), op='build', m=m, r=reg, t=t)
        else:
            self.add('mbuild %d %d %d' % (m, reg, t), op='build', m=m, r=reg, t=t)

    def ask(self, m, reg, p, kind, hint=None):
        """p in whole numbers, or with non-finite entries"""
        self.scale(self.grids[reg]['scale'])
        if not all(isnum(float(c)) for c in p):
            self.add(cmd('xy2ij' if kind == 'ij' else 'xy2fij', m, [float(c) for c in p]), op='nowhere')
        elif kind == 'ij':
            self.add(cmd('xy2ij', m, self.P(p)), op='ij', m=m, p=list(p))
        else:
            self.add(cmd('xy2fij', m, self.P(p)), op='fij', m=m, p=list(p), span=self.grids[reg].get('span', 0),
                     hint=[1, hint[0], hint[1]] if hint else [0, 0, 0])

    def fwd(self, m, reg, I, J):
        """fractional indices I/8, J/8 (or a non-number)"""
        self.scale(self.grids[reg]['scale'])
        g = self.grids[reg]
        if isinstance(I, float) or isinstance(J, float):
            fi, fj = float(I) / 8, float(J) / 8
            if fi != fi or fj != fj:
                self.add(cmd('fij2xy', m, fi, fj), op='xynan', m=m)
            else:
                cl = lambda v: -80 if v == -math.inf else 80000 if v == math.inf else int(v)
                self.add(cmd('fij2xy', m, fi, fj), op='xyout', m=m, fi=cl(I), fj=cl(J))
        elif 0 <= I <= 8 * g['nx'] and 0 <= J <= 8 * g['ny']:
            self.add(cmd('fij2xy', m, I / 8, J / 8), op='xy', m=m, fi=I, fj=J)
        else:
            self.add(cmd('fij2xy', m, I / 8, J / 8), op='xyout', m=m, fi=I, fj=J)

    def image(self, reg, I, J):
        """whole-number image of (I/8, J/8) or None"""
        g = self.grids[reg]
        a, b = min(I // 8, g['nx'] - 1), min(J // 8, g['ny'] - 1)
        u, v = I - 8 * a, J - 8 * b
        w = [((8 - u) * (8 - v), a, b), (u * (8 - v), a + 1, b), (u * v, a + 1, b + 1), ((8 - u) * v, a, b + 1)]
        x = y = 0
        for k, i, j in w:
            if k:
                if not g['pat'][j][i]:
                    return None
                x += k * g['pts'][j][i][0]
                y += k * g['pts'][j][i][1]
        assert x % 64 == 0 and y % 64 == 0
        return x // 64, y // 64

    def pos(self, reg, I, J):
        """where (I/8, J/8) would be, had the cell its nodes"""
        g = self.grids[reg]
        a, b = min(I // 8, g['nx'] - 1), min(J // 8, g['ny'] - 1)
        u, v = I - 8 * a, J - 8 * b
        q = [g['pts'][b][a], g['pts'][b][a + 1], g['pts'][b + 1][a + 1], g['pts'][b + 1][a]]
        w = [(8 - u) * (8 - v), u * (8 - v), u * v, (8 - u) * v]
        return tuple(sum(k * p[c] for k, p in zip(w, q)) // 64 for c in (0, 1))

    def script(self, tid):
        return Script(tid, self.cmds, what=[w for w in self.what if w is not None], off=self.off)


def nodes_enc(e, off):
    st = []
    for r, g in e['st']:
        n = []
        for a, b in g['n']:
            x, y = num(a), num(b)
            if x != x and y != y:
                n.append([0, 0, 0])
            else:
                a, b = exact(x, 1, off[0]), exact(y, 1, off[1])
                n.append([3, 0, 0] if a is None or b is None else [1, a, b])
        st.append([r, n])
    return st


def rnd(v, mul, lim=(1 << 31) - 2):
    w = v * mul
    return int(round(w)) if abs(w) < lim else (lim if w > 0 else -lim)


def encode(s):
    off = s.meta['off']
    out = []
    for w, e in zip(s.meta['what'], s.events):
        o = dict(w)
        o['q'] = e['q']
        if e['op'] in ('crash', 'hang'):
            out.append({'op': e['op'], 'q': 1, 'what': e['what'], 'cmd': e['cmd'][:200]})
            break
        if e['q']:
            o['msg'] = e.get('msg', '')
            out.append(o)
            continue
        op = o['op']
        if op in ('new', 'mirror', 'build', 'check', 'mfree'):
            o['st'] = nodes_enc(e, off)
            if op == 'build':
                o.update(c1=e['c1'], c2=e['c2'])
        elif op == 'ij':
            o.update(ret=e['ret'], i=e['i'], j=e['j'])
        elif op == 'fij':
            fi, fj = num(e['fi']), num(e['fj'])
            nan = int(fi != fi and fj != fj)
            o.update(ret=e['ret'], nan=nan, fi=0, fj=0, back=e['ret1'], ex=0, ey=0)
            if e['ret']:
                dx, dy = num(e['dx']), num(e['dy'])
                lim = (1 << 31) - 2
                o.update(fi=rnd(fi, FU) if isnum(fi) else -lim, fj=rnd(fj, FU) if isnum(fj) else -lim,
                         ex=rnd(dx, 1 << 20) if isnum(dx) else lim, ey=rnd(dy, 1 << 20) if isnum(dy) else lim)
        elif op == 'nowhere':
            o['ret'] = e['ret']
            if 'fi' in e and not (num(e['fi']) != num(e['fi']) and num(e['fj']) != num(e['fj'])):
                o['ret'] = 9
        elif op in ('xy', 'xyout', 'xynan'):
            x, y = num(e['x']), num(e['y'])
            if x != x and y != y:
                nd = [0, 0, 0]
            elif not (isnum(x) and isnum(y)):
                nd = [2, 0, 0]
            elif op == 'xy':
                a, b = exact(x, 1, off[0]), exact(y, 1, off[1])
                nd = [3, 0, 0] if a is None or b is None else [1, a, b]
            else:
                nd = [1, rnd(x - off[0], 1024), rnd(y - off[1], 1024)]
            o.update(ret=e['ret'], nd=nd)
        elif op == 'boundij':
            o.update(bound_enc(s, w, e, off))
        elif op == 'bound':
            # physical polygon: remembered for the index one
            s.meta.setdefault('phys', {})[w['r']] = poly_of(e, w['p'], off)
            o = None
        elif op == 'aadd':
            o['same'] = e['same']
        elif op == 'aget':
            z = num(e['z'])
            if z == z and isnum(z) and abs(z) * o.get('zs', 1) < 1 << 30:
                z *= o.pop('zs', 1)
                lo = int(round((z - math.floor(z)) * 1024))
                o['v'] = [1, math.floor(z) + lo // 1024, lo % 1024]
            else:
                o['v'] = [0, 0, 0] if z != z else [2, 0, 0]
            o.pop('zs', None)
            o['same'] = int(num(e['x']) == o['p'][0] + off[0] and num(e['y']) == o['p'][1] + off[1])
        if o is not None:
            out.append(o)
    return {'ev': out}


def poly_of(e, p, off):
    for r, q in e['st']:
        if r == p:
            return [[3, 3] if None in (exact(num(a), 1, off[0]), exact(num(b), 1, off[1])) else
                    [exact(num(a), 1, off[0]), exact(num(b), 1, off[1])] for a, b in q['p']]
    return [[4, 4]]


def bound_enc(s, w, e, off):
    q = [x[1] for x in e['st']][0]
    ij = [[int(num(a)) if num(a) == int(num(a)) else -5, int(num(b)) if num(b) == int(num(b)) else -5] for a, b in q['p']]
    g = w['g']
    ok = all(0 <= a < g[0] and 0 <= b < g[1] for a, b in ij)
    return {'w': ij if ok else [[-1, -1]], 'nodes': s.meta.get('phys', {}).get(w['r'], [[5, 5]]), 'g': list(g)}


# ---------------------------------------------------------------- points
def points(r, w, reg, n):
    """points in and around grid reg, with hints where they are images"""
    g = w.grids[reg]
    cells = sorted(g['cells'])
    xs = [p[0] for row in g['pts'] for p in row]
    ys = [p[1] for row in g['pts'] for p in row]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    out = []
    for _ in range(n):
        k = r.randrange(12)
        if k < 3:               # inside a valid cell
            i, j = r.choice(cells)
            I, J = 8 * i + r.randint(1, 7), 8 * j + r.randint(1, 7)
            out.append((w.image(reg, I, J), (I, J)))
        elif k == 3:            # on a side of a valid cell
            i, j = r.choice(cells)
            I, J = r.choice([(8 * i + r.randint(0, 8), 8 * j + r.choice([0, 8])), (8 * i + r.choice([0, 8]), 8 * j + r.randint(0, 8))])
            out.append((w.image(reg, I, J), (I, J)))
        elif k == 4:            # a node
            i, j = r.choice(cells)
            I, J = 8 * (i + r.randrange(2)), 8 * (j + r.randrange(2))
            out.append((w.image(reg, I, J), (I, J)))
        elif k in (5, 6):       # near a side, off it
            i, j = r.choice(cells)
            I, J = r.choice([(8 * i + r.randint(0, 8), 8 * j + r.choice([0, 8])), (8 * i + r.choice([0, 8]), 8 * j + r.randint(0, 8))])
            p = w.image(reg, I, J)
            d = r.choice([1, 1, 2, 5])
            out.append(((p[0] + r.choice([-d, 0, d]), p[1] + r.choice([-d, 0, d])), None))
        elif k == 7:            # position of an absent cell or node
            i, j = r.randrange(g['nx']), r.randrange(g['ny'])
            u, v = r.randint(0, 8), r.randint(0, 8)
            q = [g['pts'][j][i], g['pts'][j][i + 1], g['pts'][j + 1][i + 1], g['pts'][j + 1][i]]
            ww = [(8 - u) * (8 - v), u * (8 - v), u * v, (8 - u) * v]
            out.append(((sum(a * p[0] for a, p in zip(ww, q)) // 64, sum(a * p[1] for a, p in zip(ww, q)) // 64), None))
        elif k in (8, 9):       # anywhere
            out.append(((r.randint(x0 - 3, x1 + 3), r.randint(y0 - 3, y1 + 3)), None))
        elif k == 10:           # level with a node, around
            i, j = r.randrange(g['nx'] + 1), r.randrange(g['ny'] + 1)
            p = g['pts'][j][i]
            out.append(((p[0], r.randint(y0 - 9, y1 + 9)) if r.random() < 0.5 else (r.randint(x0 - 9, x1 + 9), p[1]), None))
        else:                   # far outside
            out.append(((r.choice([x0 - 700, x1 + 700, r.randint(x0, x1)]), r.choice([y0 - 700, y1 + 700, r.randint(y0, y1)])), None))
    return out


def mask_any(r, nx, ny):
    p = r.choice([0.1, 0.3, 0.5, 0.8])
    c = geom.closure({(i, j) for i in range(nx) for j in range(ny) if r.random() >= p}, nx, ny)
    return c or {(0, 0)}


def setup(r, big=False, anymask=False, kind=None):
    w = World(r, off=r.choice([(0, 0)] * 5 + [(2 ** 30, -2 ** 29), (-2 ** 34, 2 ** 34)]))
    while True:
        nx, ny = r.randint(1, 7 if not big else 14), r.randint(1, 7 if not big else 14)
        gp = geom.grid_points(r, nx, ny, kind=kind)
        if gp:
            break
    cells = mask_any(r, nx, ny) if anymask else geom.random_simple(r, nx, ny)
    w.grid(0, nx, ny, cells, gp[1])
    return w


def setup_large(r, anymask=False, t=1):
    """a grid of hundreds of cells"""
    w = World(r, off=r.choice([(0, 0)] * 5 + [(2 ** 30, -2 ** 29)]))
    nx, ny = geom.large_dims(r, long=t == 0)
    c = geom.large_cells(r, nx, ny, not anymask)
    w.grid(0, nx, ny, c, geom.large_points(r, nx, ny))
    return w


def large(prop, k):
    """the questions of a property, on a grid of hundreds of cells"""
    r = rng('large', prop, k)
    t = {'G07': 0, 'G08': 1, 'G05': 0, 'G23': 0}.get(prop, r.randrange(2))
    # indices to 22 binary digits have to stay below 512
    w = setup_large(r, anymask=prop == 'G08', t=0 if prop in ('G05', 'G07') else 1)
    g = w.grids[0]
    nx, ny = g['nx'], g['ny']
    if prop == 'G05':
        w.add('pbound 0 0', op='bound', r=0, p=0)
        w.add('pboundij 1 0', op='boundij', r=0, g=(nx + 1, ny + 1))
        return w.script('G05L-%d' % k)
    w.build(0, 0, t)
    q = points(r, w, 0, 12)
    for i, j in [(nx - 1, ny - 1), (0, ny - 1), (nx - 1, 0)]:
        if (i, j) in g['cells']:
            q.append((w.image(0, 8 * i + 3, 8 * j + 5), (8 * i + 3, 8 * j + 5)))
    if prop in ('G07', 'G08', 'G10', 'G11'):
        if prop == 'G11':
            w.build(1, 0, r.randrange(2))
            if r.random() < 0.5:
                w.add('mfree 1', op='mfree', m=1)
                w.build(1, 0, t)
        for p, h in q:
            w.ask(0, 0, p, 'ij' if prop in ('G07', 'G08') else 'fij', h)
            if prop == 'G11':
                w.ask(1, 0, p, 'fij', h)
    elif prop == 'G09':
        for _ in range(30):
            w.fwd(0, 0, r.choice([8 * r.randint(0, nx), r.randint(0, 8 * nx), 8 * nx, -1, 8 * nx + 1]),
                  r.choice([8 * r.randint(0, ny), r.randint(0, 8 * ny), 8 * ny, -1, 8 * ny + 1]))
    elif prop == 'G23':
        cells = sorted(g['cells'])
        some = r.sample(cells, min(len(cells), 6)) + [cells[-1]]
        w.add('anew 0 0', op='anew', a=0, m=0)
        pts = [list(w.image(0, 8 * c[0] + r.randint(1, 7), 8 * c[1] + r.randint(1, 7))) + [r.randint(-1000, 1000), 1] for c in some for _ in range(3)]
        w.add(cmd('aadd', 0, len(pts), [[float(p[0] + w.off[0]), float(p[1] + w.off[1]), float(p[2])] for p in pts]), op='aadd', a=0, pts=pts)
        for c in some:
            p = w.image(0, 8 * c[0] + 3, 8 * c[1] + 3)
            w.add(cmd('aget', 0, w.P(p)), op='aget', a=0, p=list(p), zs=1)
    return w.script('%sL-%d' % (prop, k))


def huge(k, t):
    """mapping of more nodes than 16 bits can number"""
    r = rng('hugemap', k, t)
    w = World(r, off=(0, 0))
    nx, ny = [(r.randint(33000, 33300), 1), (r.randint(255, 300), r.randint(257, 300)), (1, r.randint(33000, 33300))][k % 3]
    u = 1 if max(nx, ny) > 1000 else 64
    a, b = r.choice([(1, 1), (-1, 1), (1, -1)])
    pts = [[(a * u * (i - nx // 2), b * u * (j - ny // 2)) for i in range(nx + 1)] for j in range(ny + 1)]
    full = [(i, j) for i in range(nx) for j in range(ny)]
    cells = set(full) - set(r.sample(full, r.choice([0, 3, 3000]) if t == 1 else 0))
    w.grid(0, nx, ny, geom.closure(cells, nx, ny), pts)
    w.build(0, 0, t)
    for c in [(nx - 1, ny - 1), (0, ny - 1), (nx - 1, 0)] + r.sample(full, 6):
        p = pts[c[1]][c[0]], pts[c[1] + 1][c[0] + 1]
        w.ask(0, 0, tuple(r.randint(min(p[0][d], p[1][d]), max(p[0][d], p[1][d])) for d in (0, 1)), 'ij')
    w.ask(0, 0, (a * u * (nx - nx // 2) + a, 0), 'ij')
    return w.script('huge%d-%d' % (t, k))


def g07(k):
    r = rng('G07', k)
    w = setup(r, big=r.random() < 0.2)
    w.build(0, 0, 0)
    for p, h in points(r, w, 0, 24):
        w.ask(0, 0, p, 'ij')
    if r.random() < 0.3:
        w.ask(0, 0, r.choice([(NAN, 0), (0, NAN), (math.inf, 1), (1, -math.inf), (math.inf, -math.inf)]), r.choice(['ij', 'fij']))
    return w.script('G07-%d' % k)


def g07_scan(k):
    """every point of a lattice over a grid of a few cells"""
    r = rng('G07s', k)
    w = World(r)
    nx, ny = r.randint(1, 5), r.randint(1, 4)
    kind, g = geom.grid_points(r, nx, ny)
    cells = geom.random_simple(r, nx, ny)
    w.grid(0, nx, ny, cells, g)
    w.build(0, 0, 0)
    xs = [p[0] for row in g for p in row]
    ys = [p[1] for row in g for p in row]
    sx, sy = max(1, (max(xs) - min(xs)) // 16), max(1, (max(ys) - min(ys)) // 12)
    for y in range(min(ys) - sy, max(ys) + sy + 1, sy):
        for x in range(min(xs) - sx, max(xs) + sx + 1, sx):
            w.ask(0, 0, (x, y), 'ij')
    return w.script('G07s-%d' % k)


def maze(prop, k):
    """corridors winding around each other: cells, gaps and nodes"""
    r = rng('maze', prop, k)
    w = World(r)
    nx, ny = r.randint(6, 14), r.randint(6, 14)
    kind, g = geom.grid_points(r, nx, ny) or ('', geom.large_points(r, nx, ny))
    cells = geom.maze(r, nx, ny, thin=r.randrange(5))
    w.grid(0, nx, ny, cells, g)
    if prop == 'G05':
        w.add('pbound 0 0', op='bound', r=0, p=0)
        w.add('pboundij 1 0', op='boundij', r=0, g=(nx + 1, ny + 1))
        return w.script('G05m-%d' % k)
    w.build(0, 0, 0)
    for _ in range(36):
        i, j = 8 * r.randrange(nx), 8 * r.randrange(ny)
        a, b = r.choice([(4, 4), (4, 4), (0, 0), (4, 0), (0, 4)])
        w.ask(0, 0, w.pos(0, i + a, j + b), 'ij' if prop == 'G07' else 'fij')
    return w.script('%sm-%d' % (prop, k))


def g07_all(nx, ny, t=0):
    """every simply connected arrangement: the middles of all cells"""
    out = []
    for m in range(1, 1 << (nx * ny)):
        cells = {(q % nx, q // nx) for q in range(nx * ny) if m >> q & 1}
        if not geom.simple(cells, nx, ny):
            continue
        r = rng('G07a', nx, ny, m)
        w = World(r)
        c = r.choice([(64, 0, 0, 64), (64, 0, 16, 64), (0, 64, 64, 0), (-64, 32, 0, 64)])
        w.grid(0, nx, ny, cells, [[(c[0] * i + c[1] * j, c[2] * i + c[3] * j) for i in range(nx + 1)] for j in range(ny + 1)])
        w.build(0, 0, t)
        for j in range(ny):
            for i in range(nx):
                w.ask(0, 0, w.pos(0, 8 * i + 4, 8 * j + 4), 'ij')
        out.append(w.script('G07a-%d-%d-%d' % (nx, ny, m)))
    return out


def g08(k):
    r = rng('G08', k)
    w = setup(r, big=r.random() < 0.2, anymask=r.random() < 0.7, kind=r.choice([None, None, 'lin', 'stretch']))
    w.build(0, 0, 1)
    for p, h in points(r, w, 0, 20):
        w.ask(0, 0, p, 'ij')
        if r.random() < 0.2:
            w.ask(0, 0, p, 'fij', h)
    if r.random() < 0.3:
        w.ask(0, 0, r.choice([(NAN, 0), (0, NAN), (math.inf, 1), (1, -math.inf), (math.inf, -math.inf)]), r.choice(['ij', 'fij']))
    return w.script('G08-%d' % k)


def g09(k):
    r = rng('G09', k)
    t = r.randrange(2)
    w = setup(r, anymask=t == 1)
    w.build(0, 0, t)
    g = w.grids[0]
    nx, ny = g['nx'], g['ny']
    for _ in range(30):
        c = r.randrange(10)
        I = r.choice([8 * r.randint(0, nx), r.randint(0, 8 * nx), 8 * nx])
        J = r.choice([8 * r.randint(0, ny), r.randint(0, 8 * ny), 8 * ny])
        if c == 0:
            I = r.choice([-1, -8, 8 * nx + 1, 8 * nx + 13, -800, 8000])
        elif c == 1:
            J = r.choice([-1, -8, 8 * ny + 1, 8 * ny + 13, -800, 8000])
        elif c == 2:
            I, J = r.choice([-1, 8 * nx + 1, -800]), r.choice([-1, 8 * ny + 1, 8000])
        elif c == 3 and r.random() < 0.4:
            I = r.choice([NAN, math.inf, -math.inf])
        elif c == 4 and r.random() < 0.4:
            J = r.choice([NAN, math.inf, -math.inf])
        w.fwd(0, 0, I, J)
    return w.script('G09-%d' % k)


def slim(r):
    """a grid of long narrow cells whose opposite sides are nearly parallel, and
    the points at half indices of its cells"""
    w = World(r)
    nx, ny = r.randint(1, 4), r.randint(1, 2)
    H = r.choice([1 << 18, 1 << 19, 1 << 20, 3 << 17, 410000])
    n = r.choice([1, 1, 3])
    wd, st, odd = 8, 4, [4, 4, 0, 8]
    if r.random() < 0.4:
        # less nearly parallel; every eighth of a cell
        H, n, wd, st, odd = r.choice([1 << 20, 3 << 18]), r.choice([2, 4, 8]), 64, 64, [1, 4, 5, 6, 7, 7]
    g = [[(wd * i, H * j + st * r.randint(-n, n)) for i in range(nx + 1)] for j in range(ny + 1)]
    if r.random() < 0.5:
        g = [[(p[0], -p[1]) for p in row] for row in g]
    if r.random() < 0.5:
        g = [[(p[1], p[0]) for p in row] for row in g]
    if r.random() < 0.5:
        g = [[g[j][i] for j in range(ny + 1)] for i in range(nx + 1)]
        nx, ny = ny, nx
    w.grid(0, nx, ny, {(i, j) for i in range(nx) for j in range(ny)}, g)
    pts = []
    for _ in range(8):
        I, J = 8 * r.randrange(nx) + r.choice(odd), 8 * r.randrange(ny) + r.choice(odd)
        pts.append((w.image(0, I, J), (I, J)))
    return w, pts


def g10(k):
    r = rng('G10', k)
    if r.random() < 0.12:
        w, pts = slim(r)
        w.build(0, 0, 0)
        for p, h in pts:
            w.ask(0, 0, p, 'fij', h)
        return w.script('G10-%d' % k)
    w = setup(r, anymask=False)
    t = r.choice([0, 0, 1])
    w.build(0, 0, t)
    for p, h in points(r, w, 0, 14):
        if r.random() < 0.5:
            w.ask(0, 0, p, 'ij')
        w.ask(0, 0, p, 'fij', h)
        if r.random() < 0.2:
            w.ask(0, 0, p, 'ij')
    if r.random() < 0.2:
        w.ask(0, 0, (NAN, 3), 'fij')
    return w.script('G10-%d' % k)


def g11(k):
    """one grid, its mirrors and scaled copies, several maps of either type,
    the same questions in different orders"""
    r = rng('G11', k)
    w = World(r)
    while True:
        nx, ny = r.randint(1, 5), r.randint(1, 5)
        kind, g = geom.grid_points(r, nx, ny)
        break
    cells = geom.random_simple(r, nx, ny)
    w.grid(0, nx, ny, cells, g)
    regs = [0]
    for reg in range(1, r.randint(2, 5)):
        mx, my = r.choice([(1, 1), (1, 1), (-1, 1), (1, -1), (-1, -1)])
        sc = r.choice([0, -60, -40, -24, -10, -3, 5, 20, 60, 200, -200])
        w.grid(reg, nx, ny, cells, [[(mx * x, my * y) for x, y in row] for row in g], scale=sc, cls=0, mx=mx, my=my)
        regs.append(reg)
    maps = {}
    nm = 0
    q = points(r, w, 0, 7)
    churn = r.random() < 0.4
    for _ in range(quick(40, 60)):
        c = r.randrange(10)
        if not maps or (c == 0 and nm < 20):
            reg = r.choice(regs)
            w.build(nm, reg, r.choice([0, 0, 1]))
            maps[nm] = reg
            nm += 1
        elif c == 1 and (len(maps) > 1 or churn):
            m = r.choice(sorted(maps))
            w.scale(w.grids[maps[m]]['scale'])
            w.add('mfree %d' % m, op='mfree', m=m)
            reg = maps.pop(m)
            if churn and nm < 20:       # another map in its place, asked at once
                reg = r.choice(regs)
                w.build(nm, reg, r.choice([0, 0, 1]))
                maps[nm] = reg
                nm += 1
                for p, h in r.sample(q, min(3, len(q))):
                    gg = w.grids[reg]
                    w.ask(nm - 1, reg, (p[0] * gg['mx'], p[1] * gg['my']), r.choice(['ij', 'fij']), h)
        elif c == 2:
            m = r.choice(sorted(maps))
            if r.random() < 0.5:
                w.fwd(m, maps[m], r.randint(0, 8 * nx), r.randint(0, 8 * ny))
            else:
                w.fwd(m, maps[m], r.choice([-5, 8 * nx + 9]), r.randint(0, 8 * ny))
        else:
            m = r.choice(sorted(maps))
            p, h = r.choice(q)
            gg = w.grids[maps[m]]
            w.ask(m, maps[m], (p[0] * gg['mx'], p[1] * gg['my']), r.choice(['ij', 'fij', 'fij']), h)
    # the state of all grids, in the scale of each: those of other scales must have kept theirs
    return w.script('G11-%d' % k)


def g05(k, cells=None, nx=None, ny=None):
    r = rng('G05', k)
    w = World(r)
    if cells is None:
        nx, ny = r.randint(1, 10), r.randint(1, 10)
        if r.random() < 0.6:
            cells = geom.random_simple(r, nx, ny)
        else:
            cells = random_pinched(r, nx, ny)
        if r.random() < 0.02:
            cells = set()
    kind, g = geom.grid_points(r, nx, ny)
    w.grid(0, nx, ny, cells, g)
    w.add('pbound 0 0', op='bound', r=0, p=0)
    w.add('pboundij 1 0', op='boundij', r=0, g=(nx + 1, ny + 1))
    return w.script('G05-%s' % k)


def random_pinched(r, nx, ny):
    """connected through sides, no holes, parts may touch at corners"""
    c = {(i, j) for i in range(nx) for j in range(ny)}
    target = r.randint(1, nx * ny)
    for _ in range(120):
        if len(c) <= target:
            break
        d = c - {r.choice(sorted(c))}
        if d and geom.closure(d, nx, ny) == d and geom.connected(d) and geom.hole_free(d, nx, ny):
            c = d
    return c


def g05_all(nx, ny):
    """every simply connected arrangement of nx x ny cells"""
    out = []
    for bits in range(1 << (nx * ny)):
        c = {(b % nx, b // nx) for b in range(nx * ny) if bits >> b & 1}
        if geom.closure(c, nx, ny) == c and geom.connected(c) and geom.hole_free(c, nx, ny):
            out.append(g05('all%dx%d-%d' % (nx, ny, bits), c, nx, ny))
    return out


def g23(k):
    r = rng('G23', k)
    w = setup(r)
    t = r.choice([0, 0, 1]) if r.random() < 0.7 else 0
    g = w.grids[0]
    if t == 1:
        # the kd-tree search finds all points of rectangular grids
        w = World(r)
        nx, ny = r.randint(1, 6), r.randint(1, 6)
        _, gp = geom.grid_points(r, nx, ny, kind='stretch')
        w.grid(0, nx, ny, mask_any(r, nx, ny), gp)
        g = w.grids[0]
    w.build(0, 0, t)
    cells = sorted(g['cells'])
    some = r.sample(cells, min(len(cells), r.randint(1, 4)))
    off = w.off

    def inside(c):
        return w.image(0, 8 * c[0] + r.randint(1, 7), 8 * c[1] + r.randint(1, 7))

    def outside():
        xs = [p[0] for row in g['pts'] for p in row]
        ys = [p[1] for row in g['pts'] for p in row]
        return r.choice([(min(xs) - r.randint(1, 99), r.choice(ys)), (r.choice(xs), max(ys) + r.randint(1, 99))])
    na = 0
    live = []
    # values of few or of many digits; in whole numbers or quarters
    zs = r.choice([1, 1, 4])
    zr = r.choice([1000, 1000, 20000000])
    total = 0
    for _ in range(r.randint(5, 16)):
        c = r.randrange(6)
        if not live or (c == 0 and na < 3):
            w.add('anew %d 0' % na, op='anew', a=na, m=0)
            live.append(na)
            na += 1
        elif c in (1, 2):
            a = r.choice(live)
            n = r.choice([0, 1, 2, 3, 7])
            if zr > 1000 and total + n > 40:
                n = 0
            total += n
            pts = []
            for _ in range(n):
                p = inside(r.choice(some)) if r.random() < 0.85 else outside()
                pts.append([p[0], p[1], r.randint(-zr, zr), 1])
            w.add(cmd('aadd', a, n, [[float(p[0] + off[0]), float(p[1] + off[1]), p[2] / zs] for p in pts]), op='aadd', a=a, pts=pts)
            if zr <= 1000 and r.random() < 0.03:
                n = r.choice([1000, 32768, 40000, 65535, 70000])
                p = inside(r.choice(some)) + (r.randint(-99, 99), n)
                w.add(cmd('aaddn', a, n, float(p[0] + off[0]), float(p[1] + off[1]), p[2] / zs), op='aadd', a=a, pts=[list(p)])
        elif c == 3 and len(live) > 1:
            a = live.pop(r.randrange(len(live)))
            w.add('afree %d' % a, op='afree', a=a)
        else:
            a = r.choice(live)
            p = inside(r.choice(some if r.random() < 0.8 else cells)) if r.random() < 0.9 else outside()
            w.add(cmd('aget', a, w.P(p)), op='aget', a=a, p=list(p), zs=zs)
    for a in live:
        for c in some:
            p = inside(c)
            w.add(cmd('aget', a, w.P(p)), op='aget', a=a, p=list(p), zs=zs)
    return w.script('G23-%d' % k)


GEN = ('CONSTANTS CX = %d\nCY = %d\nKinds = {%s}\nMaxMaps = %d\nMaxAvs = %d\nMaxOps = %d\nDepth = %d\n'
       'INIT GInit\nNEXT GNext\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')


def from_spec(b, chk, cases, only=None):
    """histories generated from GridMap, run in the code; cases: cells, kinds
    of questions, maps, averagers, calls, calls told apart, histories"""
    scripts = []
    for cx, cy, kinds, mm, ma, n, depth, limit in cases:
        name = 'transitions %dx%d %s maps=%d averagers=%d to %d calls' % (cx, cy, '+'.join(kinds), mm, ma, n)
        cfg = GEN % (cx, cy, ', '.join('"%s"' % k for k in kinds), mm, ma, n, depth)
        at = lambda i, j: (64 * (2 * i + j), 64 * (3 * j - i))
        for q, h in enumerate(chk.generated(name, 'MapGen', cfg, limit, keep=only and (lambda h: h[-1][0] in only))):
            r = rng('mapgen', name, q)
            w = World(r, None if any(c[0] == 'mirror' for c in h) else r.choice([(0, 0), (0, 0), (1 << 30, -(1 << 33))]))
            over = {}
            g = [[at(i, j) for i in range(cx + 1)] for j in range(cy + 1)]
            for c in h:
                op = c[0]
                if op == 'grid':
                    cells = {(k % cx, k // cx) for k, v in enumerate(c[1]) if v}
                    w.grid(0, cx, cy, cells, g, scale=r.choice([0, 0, -30, 17]) if w.off == (0, 0) else 0)
                elif op == 'mirror':
                    w.grid(1, cx, cy, cells, [[(c[1] * x, c[2] * y) for x, y in row] for row in g], scale=r.choice([0, -40, 20, 3]), cls=0, mx=c[1], my=c[2])
                elif op == 'build':
                    w.build(c[1], c[2], c[3])
                    over[c[1]] = c[2]
                elif op == 'mfree':
                    w.scale(w.grids[over[c[1]]]['scale'])
                    w.add('mfree %d' % c[1], op='mfree', m=c[1])
                elif op in ('ij', 'fij'):
                    p = c[2]
                    inside = 0 <= p[2] <= 8 * cx and 0 <= p[3] <= 8 * cy
                    w.ask(c[1], over[c[1]], p[:2], op, p[2:] if inside and w.image(0, p[2], p[3]) else None)
                elif op == 'xy':
                    w.fwd(c[1], over[c[1]], c[2][2], c[2][3])
                elif op == 'anew':
                    w.add('anew %d %d' % (c[1], c[2]), op='anew', a=c[1], m=c[2])
                    over[-1 - c[1]] = over[c[2]]
                elif op == 'aadd':
                    w.scale(w.grids[over[-1 - c[1]]]['scale'])
                    w.add(cmd('aadd', c[1], 1, w.P(c[2]), float(c[3])), op='aadd', a=c[1], pts=[c[2][:2] + [c[3], 1]])
                elif op == 'aget':
                    w.scale(w.grids[over[-1 - c[1]]]['scale'])
                    w.add(cmd('aget', c[1], w.P(c[2])), op='aget', a=c[1], p=c[2][:2])
                elif op == 'afree':
                    w.add('afree %d' % c[1], op='afree', a=c[1])
            scripts.append(w.script('%s-%d' % (name, q)))
    campaign(b, chk, 'generated histories', scripts)


def campaign(b, chk, name, scripts):
    drive(b, scripts)
    chk.validate(name, 'GridMapTrace', 'GridMapTrace.cfg', scripts, encode, Rerun(b))
