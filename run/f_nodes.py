"""Grid objects: histories of calls, validated against GridNodesTrace."""
import re

import geom
from core import Rerun, Coords, Ids, Script, cmd, drive, num, quick, rng

NAN = float('nan')


# ---------------------------------------------------------------- encoding
def enc_state(e, enc):
    st = []
    for r, g in e['st']:
        n = [enc.node(num(a), num(b)) for a, b in g['n']]
        st.append([r, {'nx': g['nx'], 'ny': g['ny'], 'c1': g['c1'], 'c2': g['c2'], 'm': g['m'], 'n': n}])
    return st


def encode(s):
    """driver events of a script -> events of GridNodesTrace"""
    enc = s.meta.get('enc') or Coords()
    if isinstance(enc, Ids):
        enc = Ids()
    out = []
    cmds = [c for c in s.cmds if not c.startswith(('scale', '#'))]
    for c, e in zip(cmds, s.events):
        if e['op'] in ('crash', 'hang'):
            out.append({'op': e['op'], 'q': 1, 'what': e['what'], 'cmd': e['cmd'][:200]})
            break
        w = c.split()
        op = w[0]
        o = {'q': e['q']}
        if op in ('gnew', 'gnew2'):
            v = [num2(x) for x in w[5:]]
            o.update(op='new', r=int(w[1]), t=w[2], nx=int(w[3]), ny=int(w[4]),
                     n=[enc.node(v[2 * k], v[2 * k + 1]) for k in range(len(v) // 2)])
        elif op == 'gempty':
            o.update(op='empty', r=int(w[1]), t=w[2], nx=int(w[3]), ny=int(w[4]))
        elif op == 'gpoint':
            o.update(op='point', r=int(w[1]), nd=enc.node(num2(w[2]), num2(w[3])))
        elif op == 'gvalid':
            m = re.search(r'(-?\d+) valid cells', e['err'])
            o.update(op='valid', r=int(w[1]), cells=int(m.group(1)) if m else -1)
        elif op == 'gstats':
            o.update(op='stats', r=int(w[1]))
        elif op == 'gcopy':
            o.update(op='copy', r=int(w[1]), s=int(w[2]))
        elif op == 'gtrans':
            o.update(op='trans', r=int(w[1]), s=int(w[2]), t=w[3])
        elif op == 'gsub':
            o.update(op='sub', r=int(w[1]), s=int(w[2]), i1=int(w[3]), i2=int(w[4]), j1=int(w[5]), j2=int(w[6]))
        elif op == 'gmask':
            o.update(op='mask', r=int(w[1]), mask0=[int(x) for x in w[4:]], mask=e['mask'])
        elif op == 'gsetmap':
            o.update(op='setmap', r=int(w[1]), m=int(w[2]))
        elif op == 'gfree':
            o.update(op='free', r=int(w[1]))
        elif op in ('gwrite', 'gcheck', 'mbuild', 'mfree'):
            o.update(op='keep')
        else:
            raise ValueError(op)
        o['st'] = enc_state(e, enc)
        out.append(o)
    return {'ev': out}


def num2(w):
    return NAN if w == 'nan' else float.fromhex(w) if 'x' in w else float(w)


# ---------------------------------------------------------------- generation
def size(r, t, big=8):
    a = lambda: r.choice([1, 2, 2, 3, 3, 4, 5, 6, big])
    nx, ny = a(), a()
    if t == 'CO':
        nx, ny = max(nx, 2), max(ny, 2)
    if t == 'DD':
        nx, ny = 2 * nx + 1, 2 * ny + 1
        if nx * ny > 150:
            nx = min(nx, 9)
    return nx, ny


def pattern(r, nx, ny):
    """presence of nodes, in several styles"""
    k = r.randrange(7)
    p = r.choice([0, 0.03, 0.1, 0.2, 0.35, 0.6, 0.9])
    if k == 0:
        return [[True] * nx for _ in range(ny)]
    if k in (1, 2, 3):
        return [[r.random() >= p for _ in range(nx)] for _ in range(ny)]
    if k == 4:      # half plane
        a, b, c = r.randint(-3, 3), r.randint(-3, 3), r.randint(-6, 6)
        return [[a * i + b * j + c >= 0 for i in range(nx)] for j in range(ny)]
    if k == 5:      # rectangles kept
        m = [[False] * nx for _ in range(ny)]
        for _ in range(r.randint(1, 4)):
            a, b = r.randrange(nx), r.randrange(ny)
            for j in range(b, min(ny, b + r.randint(1, 4))):
                for i in range(a, min(nx, a + r.randint(1, 4))):
                    m[j][i] = True
        return m
    m = [[True] * nx for _ in range(ny)]    # rectangles removed
    for _ in range(r.randint(1, 4)):
        a, b = r.randrange(nx), r.randrange(ny)
        for j in range(b, min(ny, b + r.randint(1, 3))):
            for i in range(a, min(nx, a + r.randint(1, 3))):
                m[j][i] = False
    return m


def geometry(r, nx, ny, unit=16):
    """whole-number coordinates, multiples of unit"""
    k = r.randrange(3)
    if k == 0:      # any
        return [[(unit * r.randint(-300, 300), unit * r.randint(-300, 300)) for i in range(nx)] for j in range(ny)]
    if k == 1:      # bilinear in the indices
        a = [r.randint(-9, 9) for _ in range(8)]
        f = lambda i, j: (unit * (a[0] + a[1] * i + a[2] * j + a[3] * i * j), unit * (a[4] + a[5] * i + a[6] * j + a[7] * i * j))
        return [[f(i, j) for i in range(nx)] for j in range(ny)]
    a, b, c, d = r.choice([(1, 0, 0, 1), (2, 1, -1, 2), (0, 1, 1, 0), (-1, 0, 0, 1), (3, 1, 1, 2)])
    return [[(unit * (8 * (a * i + b * j) + r.randint(-1, 1)), unit * (8 * (c * i + d * j) + r.randint(-1, 1))) for i in range(nx)] for j in range(ny)]


def coords(r, nx, ny, pat, enc, arbitrary=False):
    """coordinates in the units of the code, and the encoding to use"""
    if arbitrary:
        out = []
        for j in range(ny):
            for i in range(nx):
                if not pat[j][i]:
                    out += [NAN, NAN]
                else:
                    for _ in range(2):
                        out.append(r.choice([r.uniform(-1, 1), r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300), 0.0, -0.0,
                                             float(r.randint(-9, 9)), 5e-324, 1.7e308]))
        return out
    g = geometry(r, nx, ny)
    out = []
    for j in range(ny):
        for i in range(nx):
            if pat[j][i]:
                out += [(g[j][i][0] + enc.ox) / enc.mul, (g[j][i][1] + enc.oy) / enc.mul]
            else:
                out += [NAN, NAN]
    return out


def enc_of(r):
    """scaled whole numbers, possibly far from the origin"""
    mul = r.choice([1, 1, 1024, 2.0 ** -20])
    o = r.choice([0, 0, 2 ** 31, 2 ** 40]) if r.random() < 0.7 else 0
    return Coords(mul, o, -o if r.random() < 0.5 else 0)


def mappable(r, reg, enc, nx=None, ny=None):
    """a corner grid the default mapping supports: simply connected, regular"""
    nx, ny = nx or r.randint(1, 6), ny or r.randint(1, 6)
    cells = geom.random_simple(r, nx, ny)
    pat = geom.nodes_of(cells, nx, ny)
    _, g = geom.grid_points(r, nx, ny, unit=16)
    v = []
    for j in range(ny + 1):
        for i in range(nx + 1):
            v += [(g[j][i][0] + enc.ox) / enc.mul, (g[j][i][1] + enc.oy) / enc.mul] if pat[j][i] else [NAN, NAN]
    return cmd(r.choice(['gnew', 'gnew2']), reg, 'CO', nx + 1, ny + 1, v), nx + 1, ny + 1


def newgrid(r, reg, t, enc, arbitrary=False, sz=None, pat=None):
    nx, ny = sz or size(r, t)
    pat = pat or pattern(r, nx, ny)
    return cmd(r.choice(['gnew', 'gnew2']), reg, t, nx, ny, coords(r, nx, ny, pat, enc, arbitrary)), nx, ny


def g01(k):
    r = rng('G01', k)
    arb = r.random() < 0.5
    enc = Ids() if arb else enc_of(r)
    t = r.choice(['CO', 'CO', 'DD', 'DD', 'DD', 'CE', 'NO'])
    c, nx, ny = newgrid(r, 0, t, enc, arb)
    cmds = [c]
    if r.random() < 0.3:
        cmds.append(cmd('gcopy', 1, 0))
    cmds.append('gvalid 0')
    if r.random() < 0.4:
        cmds.append('gvalid 0')
    if t == 'DD':
        cmds += ['gmask 0 %d %d %s' % (nx // 2, ny // 2, ' '.join('1' for _ in range((nx // 2) * (ny // 2))))] if r.random() < 0.3 else []
    if t in ('CO', 'DD') and r.random() < 0.5:
        cmds += ['gcopy 2 0', 'gvalid 2']
    return Script('G01-%d' % k, cmds, enc=enc)


def g01_small(k):
    """every presence pattern of a small corner grid (3x3), then of a double density one (3x3)"""
    t = 'CO' if k < 512 else 'DD'
    bits = k % 512
    r = rng('G01s', k)
    pat = [[bool(bits >> (3 * j + i) & 1) for i in range(3)] for j in range(3)]
    enc = Coords()
    c, _, _ = newgrid(r, 0, t, enc, sz=(3, 3), pat=pat)
    return Script('G01s-%d' % k, [c, 'gvalid 0', 'gvalid 0'], enc=enc)


def g02(k):
    r = rng('G02', k)
    enc = enc_of(r)
    t = r.choice(['DD', 'DD', 'CO', 'CO', 'CO', 'CE', 'NO'])
    if t == 'CO' and r.random() < 0.4:
        c, nx, ny = mappable(r, 0, enc)
        cmds = [c] + (['gsetmap 0 0'] if r.random() < 0.3 else [])
    else:
        c, nx, ny = newgrid(r, 0, t, enc)
        cmds = [c]
        if t in ('CO', 'DD') or r.random() < 0.5:
            cmds.append('gsetmap 0 1')
    if r.random() < 0.3:
        cmds.append('gvalid 0')
    dst = {'DD': ['CO', 'CE', 'DD', 'NO'], 'CO': ['DD', 'CE', 'DD', 'CE', 'CO', 'NO'], 'CE': ['CE', 'NO'], 'NO': ['NO']}[t]
    t1 = r.choice(dst)
    cmds.append('gtrans 1 0 %s' % t1)
    if t == 'CO' and t1 == 'DD':
        cmds += ['gtrans 2 1 CO', 'gtrans 3 1 CE', 'gvalid 1']
    if t == 'DD' and t1 == 'CO':
        cmds += ['gtrans 2 1 %s' % r.choice(['DD', 'CE'])]
    if r.random() < 0.3:
        cmds.append('gvalid 0')
    return Script('G02-%d' % k, cmds, enc=enc)


def g03(k):
    r = rng('G03', k)
    enc = enc_of(r)
    c, nx, ny = newgrid(r, 0, 'CE', enc, sz=(r.choice([1, 2, 3, 4, 5, 7]), r.choice([1, 2, 3, 4, 5, 7])))
    cmds = [c, 'gsetmap 0 1']
    if r.random() < 0.3:
        cmds.append('gmask 0 %d %d %s' % (nx, ny, ' '.join(str(int(r.random() < 0.7)) for _ in range(nx * ny))))
    for n, t in enumerate(r.sample(['CO', 'DD'], 2)):
        cmds.append('gtrans %d 0 %s' % (n + 1, t))
    if r.random() < 0.5:
        cmds.append('gtrans 3 %d %s' % (1 + r.randrange(2), 'CE'))
    return Script('G03-%d' % k, cmds, enc=enc)


def g03_back(k):
    """corners bilinear in the indices -> centres -> corners"""
    r = rng('G03b', k)
    enc = enc_of(r)
    nx, ny = r.choice([3, 4, 5, 6]), r.choice([3, 4, 5])
    a = [r.randint(-9, 9) for _ in range(8)]
    v = []
    pat = pattern(r, nx, ny) if r.random() < 0.6 else [[True] * nx for _ in range(ny)]
    for j in range(ny):
        for i in range(nx):
            v += [(16 * (a[0] + a[1] * i + a[2] * j + a[3] * i * j) + enc.ox) / enc.mul,
                  (16 * (a[4] + a[5] * i + a[6] * j + a[7] * i * j) + enc.oy) / enc.mul] if pat[j][i] else [NAN, NAN]
    return Script('G03b-%d' % k, [cmd('gnew', 0, 'CO', nx, ny, v), 'gsetmap 0 1', 'gtrans 1 0 CE', 'gtrans 2 1 CO', 'gtrans 3 1 DD', 'gtrans 4 2 CE'], enc=enc)


def g04(k):
    r = rng('G04', k)
    arb = r.random() < 0.3
    enc = Ids() if arb else enc_of(r)
    t = r.choice(['DD', 'DD', 'DD', 'CE', 'CO'])
    c, nx, ny = newgrid(r, 0, t, enc, arb)
    cmds = [c]
    if r.random() < 0.2:
        cmds.append('gvalid 0')
    mx, my = {'DD': (nx // 2, ny // 2), 'CE': (nx, ny), 'CO': (nx - 1, ny - 1)}[t]
    for _ in range(r.choice([1, 1, 2])):
        p = r.choice([0, 0.2, 0.5, 0.8, 1])
        cmds.append('gmask 0 %d %d %s' % (mx, my, ' '.join(str(int(r.random() >= p)) for _ in range(mx * my))))
    if not arb and t != 'CO' and r.random() < 0.3 and not (t == 'CE' and min(nx, ny) == 1 and False):
        cmds.append('gtrans 1 0 %s' % ('CE' if t == 'DD' else 'CE'))
    return Script('G04-%d' % k, cmds, enc=enc)


def g19(k):
    r = rng('G19', k)
    arb = r.random() < 0.6
    enc = Ids() if arb else enc_of(r)
    t = r.choice(['CO', 'DD', 'CE', 'NO'])
    c, nx, ny = newgrid(r, 0, t, enc, arb)
    cmds = [c]
    if r.random() < 0.3:
        cmds.append('gsetmap 0 1')
    if r.random() < 0.3 and (t != 'DD' or nx % 2 and ny % 2) and (t != 'CE' or min(nx, ny) > 1):
        cmds.append('gvalid 0')
    for q in range(r.randint(1, 4)):
        lo = lambda n: r.choice([-2147483647, -3, -1, 0, 0, 1, n // 2, n - 1, r.randint(0, n)])
        hi = lambda n: r.choice([2147483647, n + 3, n, n - 1, n - 1, n // 2, r.randint(0, n)])
        i1, i2, j1, j2 = lo(nx), hi(nx), lo(ny), hi(ny)
        cmds.append('gsub %d %d %d %d %d %d' % (q + 1, 0, i1, i2, j1, j2))
        if max(i1, 0) > min(i2, nx - 1) or max(j1, 0) > min(j2, ny - 1):
            break
    else:
        w, v = min(i2, nx - 1) - max(i1, 0), min(j2, ny - 1) - max(j1, 0)
        if t == 'CO' and not arb and w > 0 and v > 0 and r.random() < 0.5:
            cmds += ['gsetmap %d 1' % (q + 1), 'gtrans 9 %d CE' % (q + 1)]
        elif t == 'DD' and w % 2 == 0 and v % 2 == 0 and max(i1, 0) % 2 == 0 and max(j1, 0) % 2 == 0 and r.random() < 0.5:
            cmds += ['gtrans 9 %d CO' % (q + 1)]
        elif r.random() < 0.5 and (t != 'DD' or (min(i2, nx - 1) - max(i1, 0)) % 2 == 0 and (min(j2, ny - 1) - max(j1, 0)) % 2 == 0):
            q1 = q + 1
            cmds += ['gvalid 0', 'gsub 9 %d 0 0 0 0' % q1] if r.random() < .5 else ['gfree 0', 'gvalid %d' % q1, 'gcopy 9 %d' % q1]
    return Script('G19-%d' % k, cmds, enc=enc)


def g28(k):
    """random histories over several objects"""
    r = rng('G28', k)
    enc = enc_of(r)
    live = {}       # reg -> (t, nx, ny)
    cmds = []
    nmap = 0
    maps = set()
    for _ in range(r.randint(6, quick(14, 22))):
        free = [x for x in range(6) if x not in live]
        op = r.choice(['new', 'empty', 'copy', 'copy', 'trans', 'trans', 'sub', 'sub', 'mask', 'valid', 'stats', 'setmap', 'free', 'free', 'write', 'mbuild'])
        src = r.choice(sorted(live)) if live else None
        if op in ('new',) and free or not live:
            d = r.choice(free)
            t = r.choice(['CO', 'DD', 'CE', 'CO', 'DD', 'NO'])
            c, nx, ny = newgrid(r, d, t, enc, sz=None if t != 'DD' else (2 * r.randint(1, 3) + 1, 2 * r.randint(1, 3) + 1))
            live[d] = (t, nx, ny)
            cmds.append(c)
            if r.random() < 0.5:
                cmds.append('gsetmap %d 1' % d)
        elif op == 'empty' and free:
            d = r.choice(free)
            nx, ny = r.randint(2, 3), r.randint(2, 3)
            t = r.choice(['CO', 'CE', 'NO'])
            cmds.append('gempty %d %s %d %d' % (d, t, nx, ny))
            n = nx * ny + r.choice([0, 0, 1, 3])
            g = geometry(r, n, 1)[0]
            for q in range(n):
                x, y = ((g[q][0] + enc.ox) / enc.mul, (g[q][1] + enc.oy) / enc.mul) if r.random() < 0.85 else (NAN, NAN)
                cmds.append(cmd('gpoint', d, x, y))
            live[d] = (t, nx, ny)
        elif op == 'copy' and free:
            d = r.choice(free)
            cmds.append('gcopy %d %d' % (d, src))
            live[d] = live[src]
        elif op == 'trans' and free:
            t, nx, ny = live[src][:3]
            d = r.choice(free)
            u = r.choice({'CO': ['CO', 'CE', 'DD', 'NO'], 'DD': ['CO', 'CE', 'DD', 'NO'], 'CE': ['CO', 'CE', 'DD'], 'NO': ['NO']}[t])
            if u == 'NO':
                u2, sz = t, (nx, ny)
            elif u == t:
                u2, sz = t, (nx, ny)
            else:
                u2 = u
                sz = {('DD', 'CO'): (nx // 2 + 1, ny // 2 + 1), ('DD', 'CE'): (nx // 2, ny // 2), ('CO', 'CE'): (nx - 1, ny - 1),
                      ('CO', 'DD'): (2 * nx - 1, 2 * ny - 1), ('CE', 'CO'): (nx + 1, ny + 1), ('CE', 'DD'): (2 * nx + 1, 2 * ny + 1)}[(t, u)]
            if t == 'CO' and u2 != t:
                cmds.append('gsetmap %d 1' % src)
            if min(sz) < 1 or sz[0] * sz[1] > 160 or (t == 'CO' and min(nx, ny) < 2):
                continue
            # one conversion of arbitrary coordinates keeps whole numbers; chains lose two bits a time
            if live[src][0:1] and len(live[src]) > 3 and live[src][3] > 1 and u2 != t:
                continue
            depth = (live[src][3] if len(live[src]) > 3 else 0) + (u2 != t)
            cmds.append('gtrans %d %d %s' % (d, src, u))
            live[d] = (u2,) + sz + (depth,)
        elif op == 'sub' and free:
            t, nx, ny = live[src][:3]
            if t == 'DD':
                a, b = 2 * r.randrange((nx + 1) // 2), 2 * r.randrange((ny + 1) // 2)
                c, e = 2 * r.randrange(a // 2, (nx + 1) // 2), 2 * r.randrange(b // 2, (ny + 1) // 2)
                if c == a or e == b:
                    continue
            elif t == 'CO':
                if nx < 2 or ny < 2:
                    continue
                a, b = r.randrange(nx - 1), r.randrange(ny - 1)
                c, e = r.randrange(a + 1, nx), r.randrange(b + 1, ny)
            else:
                a, b = r.randrange(nx), r.randrange(ny)
                c, e = r.randrange(a, nx), r.randrange(b, ny)
            d = r.choice(free)
            cmds.append('gsub %d %d %d %d %d %d' % (d, src, a, c, b, e))
            live[d] = (t, c - a + 1, e - b + 1) + live[src][3:]
        elif op == 'mask':
            t, nx, ny = live[src][:3]
            if t in ('DD', 'CE'):
                mx, my = (nx // 2, ny // 2) if t == 'DD' else (nx, ny)
                cmds.append('gmask %d %d %d %s' % (src, mx, my, ' '.join(str(int(r.random() < 0.7)) for _ in range(mx * my))))
        elif op == 'valid':
            cmds.append('gvalid %d' % src)
        elif op == 'stats' and live[src][0] in ('CO', 'DD'):
            cmds.append('gstats %d' % src)
        elif op == 'setmap':
            cmds.append('gsetmap %d %d' % (src, r.randrange(2)))
        elif op == 'free':
            cmds.append('gfree %d' % src)
            del live[src]
        elif op == 'mbuild' and live[src][0] == 'CO' and nmap < 8:
            cmds += ['mbuild %d %d 1' % (nmap, src)] + (['mfree %d' % nmap] if r.random() < 0.5 else [])
            nmap += 1
        elif op == 'write':
            cmds.append('gwrite %d /dev/null %s' % (src, r.choice(['xy', 'x', 'y'])))
    return Script('G28-%d' % k, cmds, enc=enc)


def large_size(r, t, huge=False):
    """long or big grids"""
    n = lambda a, b: r.randint(a, b)
    nx, ny = r.choice([(n(100, 420), n(2, 3)), (n(2, 3), n(100, 420)), (n(25, 45), n(25, 40)), (n(1000, 1100), 2), (2, n(1000, 1100))])
    if huge:
        nx, ny = r.choice([(n(33000, 34000), 1), (1, n(33000, 34000))])
    if t == 'DD':
        nx, ny = [2 * (max(v // 2, 1)) + 1 for v in (nx, ny)]
    return nx, ny


def large_pattern(r, nx, ny):
    k = r.randrange(4)
    p = r.choice([0.002, 0.01, 0.05, 0.3])
    m = [[True] * nx for _ in range(ny)]
    if k == 1:
        m = [[r.random() >= p for _ in range(nx)] for _ in range(ny)]
    elif k >= 2:    # few gaps, at the far ends as well
        for _ in range(r.choice([1, 3, 20])):
            i, j = r.choice([0, nx - 1, r.randrange(nx), r.randrange(nx)]), r.choice([0, ny - 1, r.randrange(ny), r.randrange(ny)])
            m[j][i] = False
    return m


def large(prop, k):
    """the calls of a property on a grid of hundreds or thousands of nodes"""
    r = rng('large', prop, k)
    huge = k % 16 == 15
    enc = enc_of(r)
    t = {'G01': ['CO', 'DD'], 'G02': ['CO', 'DD'], 'G03': ['CE'], 'G04': ['DD', 'CE'], 'G19': ['CO', 'DD', 'CE', 'NO'], 'G28': ['CO', 'DD', 'CE']}[prop]
    if huge:
        t = [x for x in t if x in ('CE', 'NO')]
        huge = bool(t)
    t = r.choice(t or ['CO', 'DD'])
    nx, ny = large_size(r, t, huge)
    c, _, _ = newgrid(r, 0, t, enc, sz=(nx, ny), pat=large_pattern(r, nx, ny))
    mx, my = {'DD': (nx // 2, ny // 2), 'CE': (nx, ny), 'CO': (nx - 1, ny - 1), 'NO': (nx, ny)}[t]
    p = r.choice([0, 0.01, 0.3])
    mask = 'gmask 0 %d %d %s' % (mx, my, ' '.join(str(int(r.random() >= p)) for _ in range(mx * my)))
    cut = lambda n: r.choice([(0, n - 1), (n // 2, n - 1), (0, n // 2), tuple(sorted((r.randrange(n), r.randrange(n))))])
    sub = lambda: 'gsub 1 0 %d %d %d %d' % (cut(nx) + cut(ny))
    if prop == 'G01':
        return Script('G01L-%d' % k, [c, 'gvalid 0'] + (['gvalid 0'] if r.random() < .3 else []), enc=enc)
    if prop == 'G02':
        return Script('G02L-%d' % k, [c, 'gsetmap 0 1', 'gtrans 1 0 %s' % r.choice({'DD': ['CO', 'CE'], 'CO': ['DD', 'CE']}[t])], enc=enc)
    if prop == 'G03':
        if min(nx, ny) == 1:
            return Script('G03L-%d' % k, [c, 'gcopy 1 0', 'gtrans 2 0 CE'], enc=enc)
        return Script('G03L-%d' % k, [c, 'gtrans 1 0 %s' % r.choice(['CO', 'CO', 'DD'])], enc=enc)
    if prop == 'G04':
        return Script('G04L-%d' % k, [c, mask], enc=enc)
    if prop == 'G19':
        return Script('G19L-%d' % k, [c, sub()], enc=enc)
    ops = [mask] if t in ('DD', 'CE') and r.random() < 0.3 else []
    ops += r.choice([['gcopy 1 0', 'gfree 0'], ['gcopy 1 0', 'gvalid 0'] if t != 'CE' else ['gcopy 1 0'], [sub(), 'gfree 0']])
    return Script('G28L-%d' % k, [c] + ops, enc=enc)


GEN = ('CONSTANTS T = "%s"\nNX = %d\nNY = %d\nMaxOps = %d\nReg = {0, 1}\nINIT GInit\nNEXT GNext\nVIEW View\n'
       'ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n')


def from_spec(b, chk, cases, only=None):
    """histories generated from GridNodes, run in the code; cases: type and
    size of the first grid, calls, histories; only: the last call"""
    scripts = []
    for t, nx, ny, n, limit in cases:
        name = 'transitions %s %dx%d to %d calls' % (t, nx, ny, n)
        for q, h in enumerate(chk.generated(name, 'GridGen', GEN % (t, nx, ny, n), limit, keep=only and (lambda h: h[-1][0] in only))):
            enc = enc_of(rng('gridgen', name, q))
            cmds = []
            for c in h:
                if c[0] == 'new':
                    v = []
                    for nd in c[5]:
                        v += [(nd[1] + enc.ox) / enc.mul, (nd[2] + enc.oy) / enc.mul] if nd[0] == 1 else [NAN, NAN]
                    cmds.append(cmd('gnew', c[1], c[2], c[3], c[4], v))
                elif c[0] == 'sub':
                    cmds.append(cmd('gsub', c[1], c[2], c[3:]))
                else:
                    cmds.append(cmd('g' + c[0], c[1:]))
            scripts.append(Script('%s-%d' % (name, q), cmds, enc=enc))
    campaign(b, chk, 'generated histories', scripts)


def campaign(b, chk, name, scripts):
    drive(b, scripts)
    chk.validate(name, 'GridNodesTrace', 'GridNodesTrace.cfg', scripts, encode, Rerun(b))
