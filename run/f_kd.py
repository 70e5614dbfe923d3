"""kd-trees: histories of calls validated against KdTreeTrace."""
import itertools
import math

from core import Rerun, Script, cmd, drive, exact, isnum, num, quick, rng

NAN = float('nan')
INF = float('inf')
BAD = (1 << 30) - 1


class W:
    def __init__(self, r):
        self.r = r
        self.cmds = []
        self.what = []
        self.trees = {}         # k -> dict(d, pts: set, n, m)
        if r.random() < 0.25:
            self.cmds.append('scale %d' % r.choice([-60, -20, 7, 100]))
        self.off = [r.choice([0, 0, 0, 1 << 30, -(1 << 36)]) if r.random() < 0.4 else 0 for _ in range(64)]
        self.bigid = {}
        self.nk = 0

    def add(self, c, **w):
        self.cmds.append(c)
        self.what.append(w)

    def C(self, p):
        return [float(v) + self.off[k] if isinstance(v, int) else v for k, v in enumerate(p)]

    def new(self, d, style=None):
        k = self.nk
        self.nk += 1
        r = self.r
        m = r.choice([1, 2, 4, 10, 100, 5000])
        if d > 5:
            m = min(m, int(7500 / math.sqrt(d)))
        self.trees[k] = dict(d=d, pts=set(), n=0, m=m, style=style or r.choice(['any', 'any', 'line', 'lattice', 'one', 'sorted', 'clusters']), dir=[r.randint(-2, 2) for _ in range(d)], c=0)
        self.add('knew %d %d' % (k, d), op='new', k=k, d=d)
        return k

    def point(self, k):
        t, r = self.trees[k], self.r
        d, m = t['d'], t['m']
        lim = 5000 if d <= 2 else 3000 if d <= 5 else int(7500 / math.sqrt(d))
        s = t['style']
        if s == 'line':
            a = r.randint(-m, m)
            p = [a * v for v in t['dir']]
        elif s == 'lattice':
            q = max(1, m // 3)
            p = [q * r.randint(-3, 3) for _ in range(d)]
        elif s == 'one':
            p = [t['dir'][0]] * d if r.random() < 0.8 else [r.randint(-1, 1) for _ in range(d)]
        elif s == 'sorted':
            t['c'] += 1
            p = [(t['c'] if r.random() < 0.9 else r.randint(0, t['c'])) * (v or 1) for v in t['dir']]
        elif s == 'clusters':
            c = r.randint(0, 3)
            p = [c * m * (1 if k % 2 else -1) // 4 + r.randint(-2, 2) for k in range(d)]
        else:
            p = [r.randint(-m, m) for _ in range(d)]
        return [max(-lim, min(lim, v)) for v in p]

    def bad(self, p):
        r = self.r
        p = list(p)
        for _ in range(r.randint(1, len(p))):
            p[r.randrange(len(p))] = r.choice([NAN, INF, -INF])
        return p

    def ident(self):
        r = self.r
        c = r.randrange(12)
        if c == 0:
            v = r.choice([(1 << 31) - 1, 1 << 31, (1 << 32) + 7, (1 << 63) + 5, 3000000000])
            return v
        return r.randint(0, 3) if c < 2 else r.randint(0, 99) if c < 5 else r.randint(0, 10 ** 6)

    def insert(self, k, n, batch, badp=0.08):
        t, r = self.trees[k], self.r
        pts = []
        enc = []
        dup = r.choice([0, 0.2])
        for a in range(n):
            for _ in range(50):
                p = self.point(k)
                i = t['n'] + a if batch else self.ident()
                if (i, *p) not in t['pts'] or r.random() < dup:
                    break
            else:
                if not batch:
                    i = 10 ** 7 + self.r.randint(0, 10 ** 7)
                elif (i, *p) in t['pts']:
                    p = [v + 1 for v in p]
                    if (i, *p) in t['pts']:
                        return
            if r.random() < badp:
                p = self.bad(p)
            ok = all(isinstance(v, int) for v in p)
            if ok:
                t['pts'].add((i, *p))
            pts.append((i, p))
            enc.append([int(ok)] + ([] if batch else [idenc(i)]) + [v if ok else 0 for v in p])
        if batch:
            rnd = r.randrange(2)
            self.add(cmd('kbatch', k, n, rnd, [self.C(p) for _, p in pts]), op='batch', k=k, ps=enc)
        else:
            self.add(cmd('kins', k, n, [[i] + self.C(p) for i, p in pts]), op='insert', k=k, ps=enc)
        t['n'] += sum(e[0] for e in enc)

    def query(self, k):
        t, r = self.trees[k], self.r
        if t['pts'] and r.random() < 0.4:
            p = list(r.choice(sorted(t['pts']))[1:])
            if r.random() < 0.5:
                for _ in range(r.randint(1, 2)):
                    p[r.randrange(len(p))] += r.choice([-3, -1, 1, 2, t['m'] // 2])
            return p
        if r.random() < 0.2:
            return [v * r.choice([1, 2]) for v in self.point(k)]
        return self.point(k)

    def near(self, k):
        p = self.query(k)
        self.add(cmd('knear', k, self.C(p)), op='nearest', k=k, p=p)

    def range(self, k):
        t, r = self.trees[k], self.r
        p = self.query(k)
        c = r.randrange(7)
        if c == 0:
            R = 0
        elif c in (1, 2) and t['pts']:
            # a node exactly at the distance, if there is one at a whole one
            ds = [sum((a - b) ** 2 for a, b in zip(q[1:], p)) for q in list(sorted(t['pts']))[:60]]
            ds = [4 * d for d in ds if math.isqrt(4 * d) ** 2 == 4 * d]
            R = math.isqrt(r.choice(ds)) if ds else r.randint(0, 9)
            R += r.choice([0, 0, 0, -1, 1])
            R = max(R, 0)
        elif c == 3:
            R = 2 * r.randint(0, 3 * t['m'])
        elif c == 4:
            R = 20000
        else:
            R = r.randint(0, 2 * t['m'])
        R = min(R, 20000)
        o = r.randrange(2)
        if r.random() < 0.03:       # everything
            R = 46340
        self.add(cmd('krange', k, o, R / 2 if R < 46340 else INF, self.C(p)), op='range', k=k, p=p, R=R, ordered=o)

    def dump(self, k):
        self.add('kdump %d' % k, op='dump', k=k)

    def free(self, k):
        self.add('kfree %d' % k, op='free', k=k)
        del self.trees[k]

    def script(self, tid):
        return Script(tid, self.cmds, what=self.what, off=self.off)


def idenc(i):
    """ids as TLC numbers; large ones by a number of their own"""
    if i < 1 << 29:
        return i
    return -1 - {(1 << 31) - 1: 0, 1 << 31: 1, (1 << 32) + 7: 2, (1 << 63) + 5: 3, 3000000000: 4}.get(i, 99)


def ex(v, o):
    a = exact(v, 1, o) if isnum(v) else None
    return BAD if a is None else a


def encode(s):
    off = s.meta['off']
    out = []
    for w, e in zip(s.meta['what'], s.events):
        o = dict(w)
        o['q'] = e['q']
        if e['op'] in ('crash', 'hang'):
            out.append({'op': e['op'], 'q': 1, 'what': e['what'], 'cmd': e['cmd'][:200]})
            break
        op = o['op']
        if op in ('insert', 'batch'):
            o['size'] = e['size']
        elif op == 'dump':
            d = len(e['mm']) // 2
            o['size'] = e['size']
            o['mm'] = [ex(num(v), off[k % d]) for k, v in enumerate(e['mm'])]
            o['nodes'] = [[idenc(n[0])] + [ex(num(v), off[k]) for k, v in enumerate(n[1:])] for n in e['nodes']]
        elif op == 'nearest':
            o['none'] = e['none']
            o['nd'] = [idenc(e['oid'])] + [ex(num(v), off[k]) for k, v in enumerate(e['c'])]
        elif op == 'range':
            o.update(size=e['size'], size2=e['size2'], extra=e['extra'])
            o['res'] = [[n[0], [idenc(n[1])] + [ex(num(v), off[k]) for k, v in enumerate(n[3:])], sqd(num(n[2]))] for n in e['res']]
        out.append(o)
    return {'ev': out}


def sqd(d):
    if not isnum(d) or d < 0 or d > 46000:
        return -1
    q = round(d * d)
    return q if abs(d * d - q) < 1e-4 else -1


def history(r, w, ks, n, ops):
    for _ in range(n):
        k = r.choice(ks)
        op = r.choice(ops)
        if op == 'ins':
            w.insert(k, r.choice([1, 1, 2, 5, 20]), False)
        elif op == 'batch':
            w.insert(k, r.choice([0, 1, 2, 7, 30]), True)
        else:
            getattr(w, op)(k)


def dims(r):
    return r.choice([1, 2, 2, 2, 3, 4, 5]) if r.random() < 0.9 else r.choice([6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64])


def shell(r):
    """nodes at nearly the same distance from a point, and points near it"""
    w = W(r)
    d = r.choice([2, 2, 3])
    k = w.new(d, style='any')
    t = w.trees[k]
    R = r.choice([4000, 4900]) if d == 2 else r.choice([2000, 2900])
    ps = []
    walls = r.random() < 0.6
    for _ in range(r.randint(10, 60)):
        if walls:
            p = [r.choice([r.randint(-R, R), r.randint(-30, 30), r.randint(-3, 3)]) for _ in range(d)]
            p[r.randrange(d)] = r.choice([-R, R])
            ps.append(p)
            continue
        v = [r.gauss(0, 1) for _ in range(d)]
        n = math.sqrt(sum(c * c for c in v)) or 1
        q = R * (1 + r.choice([0, 0, 1e-3]))
        ps.append([round(q * c / n) for c in v])
    pts = [(i, p) for i, p in enumerate(ps)]
    t['n'] = len(pts)
    t['pts'] |= {(i, *p) for i, p in pts}
    w.add(cmd('kbatch', k, len(pts), r.randrange(2), [w.C(p) for _, p in pts]), op='batch', k=k, ps=[[1] + p for _, p in pts])
    for _ in range(25):
        p = [r.choice([0, 0, r.randint(-2, 2)]) if r.random() < 0.8 else r.randint(-40, 40) for _ in range(d)]
        w.add(cmd('knear', k, w.C(p)), op='nearest', k=k, p=p)
    return w


def g12(k):
    r = rng('G12', k)
    if k % 12 == 5:
        return shell(r).script('G12-%d' % k)
    w = W(r)
    ks = [w.new(dims(r)) for _ in range(r.randint(1, 2))]
    if r.random() < 0.15:
        w.near(ks[0])
    history(r, w, ks, r.randint(4, 14), ['ins', 'batch', 'near', 'near', 'near'])
    for q in ks:
        for _ in range(r.choice([3, 8])):
            w.near(q)
    return w.script('G12-%d' % k)


def g13(k):
    r = rng('G13', k)
    w = W(r)
    ks = [w.new(dims(r)) for _ in range(r.randint(1, 2))]
    if r.random() < 0.15:
        w.range(ks[0])
    history(r, w, ks, r.randint(4, 12), ['ins', 'batch', 'range', 'range', 'range'])
    for q in ks:
        for _ in range(5):
            w.range(q)
    return w.script('G13-%d' % k)


def g14(k):
    r = rng('G14', k)
    w = W(r)
    ks = [w.new(dims(r)) for _ in range(r.randint(1, 3))]
    if r.random() < 0.15:
        w.dump(ks[0])
    for _ in range(r.randint(3, 14)):
        q = r.choice(ks)
        op = r.choice(['ins', 'ins', 'batch', 'batch', 'dump', 'near', 'range'])
        if op == 'ins':
            w.insert(q, r.choice([1, 1, 2, 5, 20]), False, badp=r.choice([0, 0.1, 0.5]))
        elif op == 'batch':
            w.insert(q, r.choice([0, 1, 2, 7, 30]), True, badp=r.choice([0, 0.1, 0.5]))
        else:
            getattr(w, op)(q)
    for q in ks:
        w.dump(q)
        if r.random() < 0.5:
            w.free(q)
    return w.script('G14-%d' % k)


def big(k):
    """trees larger than the first storage sizes"""
    r = rng('Kbig', k)
    w = W(r)
    t = w.new(r.choice([1, 2, 3]), style=r.choice(['any', 'lattice', 'clusters', 'line']))
    w.trees[t]['m'] = r.choice([20, 100, 5000])
    n = 0
    target = r.choice([1023, 1024, 1025, 1030, 2047, 2049, 2300])
    mode = r.choice(['ins', 'ins', 'mix', 'batch'])
    while n < target:
        c = min(target - n, r.choice([1, 300, 700, 1024, 1500]))
        w.insert(t, c, mode == 'batch' or (mode == 'mix' and r.random() < 0.5), badp=0.02)
        n += c
        if r.random() < 0.3:
            w.near(t)
    w.insert(t, r.choice([1, 3]), False)
    w.dump(t)
    for _ in range(5):
        w.near(t)
        w.range(t)
    return w.script('Kbig-%d' % k)


def huge(kind, k):
    """tens of thousands of nodes"""
    r = rng('Khuge', kind, k)
    w = W(r)
    t = w.new(r.choice([2, 3]), style=r.choice(['any', 'lattice', 'clusters']))
    w.trees[t]['m'] = 5000
    w.insert(t, r.choice([33000, 40000, 66000]) if kind != 'dump' else 33000, True, badp=0.001)
    w.insert(t, 3, False)
    for _ in range(4):
        if kind == 'dump':
            w.insert(t, 2, True)
        elif kind == 'near':
            w.near(t)
        else:
            p = w.query(t)
            R = r.choice([0, 100, 1000])
            w.add(cmd('krange', t, 1, R / 2, w.C(p)), op='range', k=t, p=p, R=R, ordered=1)
    if kind == 'dump':
        w.dump(t)
    return w.script('Khuge-%s-%d' % (kind, k))


GEN = 'CONSTANTS D = %d\nM = %d\nN = %d\nB = %d\nINIT GInit\nNEXT GNext\nVIEW View\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'


def from_spec(b, chk, kind, cases):
    """insertion histories generated from KdTree, run in the code; cases:
    dimension, lattice points per axis, nodes, largest batch, histories"""
    scripts = []
    for d, m, n, bt, limit in cases:
        name = 'insertions D=%d M=%d N=%d B=%d' % (d, m, n, bt)
        for q, h in enumerate(chk.generated(name, 'KdGen', GEN % (d, m, n, bt), limit)):
            r = rng('kdgen', name, q)
            w = W(r)
            w.off = [0] * 64
            w.add('knew 0 %d' % d, op='new', k=0, d=d)
            for op, ps in h:
                if op == 'ins':
                    w.add(cmd('kins', 0, len(ps), [[p[1]] + w.C(p[2:]) for p in ps]), op='insert', k=0, ps=ps)
                else:
                    pts = [p[1:] if p[0] else w.bad(p[1:]) for p in ps]
                    w.add(cmd('kbatch', 0, len(ps), r.randrange(2), [w.C(p) for p in pts]), op='batch', k=0,
                          ps=[[p[0]] + (p[1:] if p[0] else [0] * d) for p in ps])
                if kind == 'dump':
                    w.dump(0)
            qs = list(itertools.product(range(-1, 2 * m), repeat=d))
            if kind == 'near':
                for p in r.sample(qs, min(len(qs), 10)):
                    w.add(cmd('knear', 0, w.C(p)), op='nearest', k=0, p=list(p))
            elif kind == 'range':
                for p in r.sample(qs, min(len(qs), 10)):
                    R, o = r.randint(0, 4 * m), r.randrange(2)
                    w.add(cmd('krange', 0, o, R / 2, w.C(p)), op='range', k=0, p=list(p), R=R, ordered=o)
            scripts.append(w.script('%s-%d' % (name, q)))
    campaign(b, chk, 'generated insertions', scripts)


def campaign(b, chk, name, scripts):
    drive(b, scripts)
    chk.validate(name, 'KdTreeTrace', 'KdTreeTrace.cfg', scripts, encode, Rerun(b))
