"""Generators of cell arrangements and grid geometries (whole numbers)."""
import math


# ------------------------------------------------------------ arrangements
def closure(cells, nx, ny):
    """cells that have all corners when the corners of the given ones exist"""
    nodes = {(i + a, j + b) for i, j in cells for a in (0, 1) for b in (0, 1)}
    return {(i, j) for i in range(nx) for j in range(ny)
            if all((i + a, j + b) in nodes for a in (0, 1) for b in (0, 1))}


def connected(cells, diag=False):
    if not cells:
        return True
    s = {next(iter(cells))}
    st = list(s)
    while st:
        i, j = st.pop()
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                if (a, b) == (0, 0) or (not diag and a and b):
                    continue
                q = (i + a, j + b)
                if q in cells and q not in s:
                    s.add(q)
                    st.append(q)
    return len(s) == len(cells)


def hole_free(cells, nx, ny):
    out = {(i, j) for i in range(-1, nx + 1) for j in range(-1, ny + 1)} - set(cells)
    # background connectivity through corners would leave pinched pockets open: use sides and corners
    return connected(out, diag=True)


def pinches(cells, nx, ny):
    n = 0
    for i in range(nx + 1):
        for j in range(ny + 1):
            q = [(i - 1, j - 1) in cells, (i, j - 1) in cells, (i - 1, j) in cells, (i, j) in cells]
            if q in ([True, False, False, True], [False, True, True, False]):
                n += 1
    return n


def simple(cells, nx, ny):
    """one simply connected region without cells touching only at a corner"""
    return bool(cells) and connected(cells) and hole_free(cells, nx, ny) and not pinches(cells, nx, ny)


def maze(r, nx, ny, thin=None, steps=12):
    """a simply connected arrangement grown cell by cell: corridors that wind
    around each other, often with nodes that are neighbours without sharing a cell"""
    if thin is None:
        thin = r.randrange(3)
    c = {(r.randrange(nx), r.randrange(ny))}
    ring = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]

    def node(i, j):
        return (i, j) in c or (i - 1, j) in c or (i, j - 1) in c or (i - 1, j - 1) in c

    def closes(i, j):
        for q in [(i + a, j + b) for a in (-1, 0, 1) for b in (-1, 0, 1)]:
            if 0 <= q[0] < nx and 0 <= q[1] < ny and q not in c \
                    and node(*q) and node(q[0] + 1, q[1]) and node(q[0], q[1] + 1) and node(q[0] + 1, q[1] + 1):
                return True
        return False
    target = r.choice([1.0, 1.0, 1.0, r.random()]) * nx * ny
    for _ in range(nx * ny * steps):
        if len(c) >= target:
            break
        i, j = r.randrange(nx), r.randrange(ny)
        if (i, j) in c:
            continue
        v = [(i + a, j + b) in c for a, b in ring]
        sides = v[0] + v[2] + v[4] + v[6]
        if not sides or thin and sides != 1 or sum(not v[m] and v[(m + 1) % 8] for m in range(8)) != 1:
            continue
        if any(v[m] and not v[m - 1] and not v[(m + 1) % 8] for m in (1, 3, 5, 7)):
            continue
        c.add((i, j))
        if closes(i, j):
            c.discard((i, j))
    return c


def random_simple(r, nx, ny, tries=200):
    """a random simply connected arrangement (closed, no pinch)"""
    if min(nx, ny) >= 5 and r.random() < 0.35:
        return maze(r, nx, ny)
    kind = r.randrange(7)
    full = {(i, j) for i in range(nx) for j in range(ny)}
    if kind == 0:
        return full
    if kind == 1 and nx >= 3 and ny >= 3:       # spiral
        c = spiral(nx, ny)
        if r.random() < 0.5:
            c = {(nx - 1 - i, j) for i, j in c}
        if r.random() < 0.5:
            c = {(i, ny - 1 - j) for i, j in c}
        c = closure(c, nx, ny)
        if simple(c, nx, ny):
            return c
    if kind == 2 and nx >= 3 and ny >= 2:       # comb: slots one cell wide
        c = set(full)
        vert = r.random() < 0.5
        n, m = (nx, ny) if vert else (ny, nx)
        for k in range(1, n - 1, 2):
            if r.random() < 0.8 and m >= 2:
                d = r.randint(1, m - 1)
                top = r.random() < 0.5
                for q in (range(d) if top else range(m - d, m)):
                    c.discard((k, q) if vert else (q, k))
        c = closure(c, nx, ny)
        if simple(c, nx, ny):
            return c
    # growth or erosion keeping the property
    if kind in (3, 4):
        c = {(r.randrange(nx), r.randrange(ny))}
        target = r.randint(1, nx * ny)
        for _ in range(tries * 3):
            if len(c) >= target:
                break
            i, j = r.choice(sorted(c))
            a, b = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
            q = (i + a, j + b)
            if 0 <= q[0] < nx and 0 <= q[1] < ny and q not in c:
                d = closure(c | {q}, nx, ny)
                if simple(d, nx, ny):
                    c = d
        return c
    c = set(full)
    target = r.randint(1, nx * ny)
    for _ in range(tries):
        if len(c) <= target:
            break
        q = r.choice(sorted(c))
        d = c - {q}
        if d and closure(d, nx, ny) == d and simple(d, nx, ny):
            c = d
    return c


def spiral(nx, ny):
    """a corridor one cell wide with walls one cell wide"""
    c = set()
    i, j, di, dj = 0, 0, 1, 0
    c.add((0, 0))
    turns = 0
    while turns < 2:
        q = (i + di, j + dj)
        q2 = (i + 2 * di, j + 2 * dj)
        ok = 0 <= q[0] < nx and 0 <= q[1] < ny and q not in c and q2 not in c
        if ok:
            # leave one cell between the arms
            side = [(q[0] + dj, q[1] - di), (q[0] - dj, q[1] + di)]
            ok = not any(s in c and s != (i, j) for s in side)
        if ok:
            i, j = q
            c.add(q)
            turns = 0
        else:
            di, dj = -dj, di
            turns += 1
    return c


def nodes_of(cells, nx, ny):
    """presence of nodes (nx+1 by ny+1) for a set of cells"""
    pat = [[False] * (nx + 1) for _ in range(ny + 1)]
    for i, j in cells:
        for a in (0, 1):
            for b in (0, 1):
                pat[j + b][i + a] = True
    return pat


# ------------------------------------------------------------ geometry
def convex(q):
    """orientation of a strictly convex quadrilateral, 0 otherwise"""
    s = []
    for k in range(4):
        (x0, y0), (x1, y1), (x2, y2) = q[k], q[(k + 1) % 4], q[(k + 2) % 4]
        s.append((x1 - x0) * (y2 - y1) - (y1 - y0) * (x2 - x1))
    return 1 if min(s) > 0 else -1 if max(s) < 0 else 0


def well_formed(g):
    """all cells strictly convex and of one orientation"""
    o = None
    for j in range(len(g) - 1):
        for i in range(len(g[0]) - 1):
            c = convex([g[j][i], g[j][i + 1], g[j + 1][i + 1], g[j + 1][i]])
            if c == 0 or (o is not None and c != o):
                return False
            o = c
    return True


LINEAR = [(1, 0, 0, 1), (2, 0, 0, 1), (1, 0, 0, 3), (1, 1, 0, 1), (2, 1, 1, 2), (3, -2, 2, 3), (1, -1, 1, 1), (5, 1, -2, 3), (1, 3, 0, 1)]


def grid_points(r, nx, ny, unit=64, kind=None):
    """(ny+1) x (nx+1) node positions: multiples of unit, forming an injective
    grid of strictly convex cells.  Returns (kind, points)."""
    for _ in range(200):
        k = kind if kind is not None else r.choice(['lin', 'lin', 'jit', 'jit', 'jit', 'polar', 'trap', 'stretch', 'shear'])
        n, m = nx + 1, ny + 1
        if k == 'lin':
            a, b, c, d = r.choice(LINEAR)
            g = [[(a * i + b * j, c * i + d * j) for i in range(n)] for j in range(m)]
        elif k == 'jit':
            a, b, c, d = r.choice(LINEAR)
            q = r.choice([6, 8, 12])
            am = r.choice([1, 1, 2, q // 4])
            g = [[(q * (a * i + b * j) + r.randint(-am, am), q * (c * i + d * j) + r.randint(-am, am)) for i in range(n)] for j in range(m)]
        elif k == 'polar':
            r0 = r.choice([4, 8, 16])
            dr = r.choice([4, 7])
            th = min(5.5, r.choice([0.2, 0.5, 1.0]) * nx)
            R = lambda j: r0 + dr * j
            g = [[(round(R(j) * math.cos(th * i / nx)), round(R(j) * math.sin(th * i / nx))) for i in range(n)] for j in range(m)]
        elif k == 'trap':
            a = r.randint(m, m + 6)
            g = [[(i * (a + j) * 2, 3 * j) for i in range(n)] for j in range(m)] if r.random() < 0.5 else \
                [[(3 * i, j * (n + 6 - i) * 2) for i in range(n)] for j in range(m)]
        elif k == 'stretch':
            xs = [0]
            ys = [0]
            for _ in range(n):
                xs.append(xs[-1] + r.choice([1, 1, 2, 5, 9]))
            for _ in range(m):
                ys.append(ys[-1] + r.choice([1, 1, 2, 5, 9]))
            g = [[(xs[i], ys[j]) for i in range(n)] for j in range(m)]
        else:   # sheared by a curve
            f = [r.randint(-3, 3) for _ in range(max(n, m) + 1)]
            g = [[(4 * i + f[j], 3 * j) for i in range(n)] for j in range(m)]
        t = r.choice(['id', 'id', 'rot', 'mx', 'my', 'tr'])
        if t == 'rot':
            g = [[(-y, x) for x, y in row] for row in g]
        elif t == 'mx':
            g = [[(-x, y) for x, y in row] for row in g]
        elif t == 'my':
            g = [[(x, -y) for x, y in row] for row in g]
        elif t == 'tr':
            g = [[(y, x) for x, y in row] for row in g]
        if not well_formed(g):
            continue
        if k == 'polar':
            # no overlap: total angle below 2 pi and radii increasing
            pass
        xs = [p[0] for row in g for p in row]
        ys = [p[1] for row in g for p in row]
        ox, oy = (min(xs) + max(xs)) // 2, (min(ys) + max(ys)) // 2
        g = [[((x - ox) * unit, (y - oy) * unit) for x, y in row] for row in g]
        ext = max(max(abs(p[0]), abs(p[1])) for row in g for p in row)
        if ext > 8000:
            if kind is not None:
                return None
            continue
        return k, g
    return None


# ------------------------------------------------------------ large grids
def large_dims(r, long=False):
    """cells of a long or a big grid"""
    n = r.randint
    return r.choice([(n(60, 200), n(1, 3)), (n(1, 3), n(60, 200)), (n(14, 30), n(14, 30))] + ([(n(600, 1300), 1), (1, n(600, 1300))] if long else []))


def large_points(r, nx, ny, unit=64):
    at = r.choice(['lin', 'lin', 'jit', 'curve', 'stretch'])
    if at == 'lin':
        g = [[(i, j) for i in range(nx + 1)] for j in range(ny + 1)]
        if min(nx, ny) < 4:
            s = r.choice([0, 1, 2])
            g = [[(x + s * y, y) if nx > ny else (x, y + s * x) for x, y in row] for row in g]
    elif at == 'jit' and max(nx, ny) <= 110:
        g = [[(4 * i + r.randint(-1, 1), 4 * j + r.randint(-1, 1)) for i in range(nx + 1)] for j in range(ny + 1)]
        if not well_formed(g):
            g = [[(i, j) for i in range(nx + 1)] for j in range(ny + 1)]
    elif at == 'curve':
        f = [r.randint(0, 2) for _ in range(max(nx, ny) + 1)]
        g = [[(2 * i + f[j], 2 * j) if ny > nx else (2 * i, 2 * j + f[i]) for i in range(nx + 1)] for j in range(ny + 1)]
    else:
        xs, ys = [0], [0]
        for _ in range(nx):
            xs.append(xs[-1] + r.choice([1, 1, 1, 2]))
        for _ in range(ny):
            ys.append(ys[-1] + r.choice([1, 1, 1, 2]))
        g = [[(xs[i], ys[j]) for i in range(nx + 1)] for j in range(ny + 1)]
    a, b = r.choice([(1, 1), (1, 1), (-1, 1), (1, -1)])
    g = [[(a * x, b * y) for x, y in row] for row in g]
    if r.random() < 0.3:
        g = [[(y, x) for x, y in row] for row in g]
    ox, oy = (g[0][0][0] + g[-1][-1][0]) // 2, (g[0][0][1] + g[-1][-1][1]) // 2
    return [[((x - ox) * unit, (y - oy) * unit) for x, y in row] for row in g]


def large_cells(r, nx, ny, regular=True):
    full = {(i, j) for i in range(nx) for j in range(ny)}
    k = r.randrange(4)
    if not regular and k:
        p = r.choice([0.005, 0.03, 0.2])
        return closure({q for q in sorted(full) if r.random() >= p}, nx, ny) or {(0, 0)}
    if k == 1:
        return maze(r, nx, ny) if min(nx, ny) > 1 else random_simple(r, nx, ny, tries=30)
    if k == 2 and min(nx, ny) > 1:      # a comb
        c = set(full)
        vert = nx > ny or nx == ny and r.random() < 0.5
        m = ny if vert else nx
        for s in range(1, (nx if vert else ny) - 1, 2):
            d = r.randint(1, m - 1)
            for q in (range(d) if r.random() < 0.5 else range(m - d, m)):
                c.discard((s, q) if vert else (q, s))
        c = closure(c, nx, ny)
        if simple(c, nx, ny):
            return c
    return full
