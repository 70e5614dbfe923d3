"""What library calls hold: histories of all kinds validated against
StorageTrace."""
import f_kd
import f_map
import f_nodes
import f_poly
from core import Rerun, Script, cmd, drive, quick, rng

MAKE = {'gnew': 'G', 'gnew2': 'G', 'gempty': 'G', 'gread': 'G', 'gcopy': 'G', 'gtrans': 'G', 'gsub': 'G', 'mbuild': 'M', 'anew': 'A',
        'pnew': 'P', 'pcopy': 'P', 'pbound': 'P', 'pboundij': 'P', 'knew': 'K'}
DROP = {'gfree': 'G', 'mfree': 'M', 'afree': 'A', 'pfree': 'P', 'kfree': 'K'}
NONE = ('maskfile', 'gcheck', 'fput', 'fcat', 'frm')
OTHER = {'xy2ij': 'M', 'xy2fij': 'M', 'fij2xy': 'M'}
FREE = {'G': 'gfree', 'M': 'mfree', 'A': 'afree', 'P': 'pfree', 'K': 'kfree', 'F': 'fclose'}


def step(c):
    """what a command is about"""
    w = c.lstrip('?').split(' ', 3)
    if w[0] in NONE:
        return 'none', '-', 0
    r = int(w[1])
    if w[0] in MAKE:
        return 'make', MAKE[w[0]], r
    if w[0] in DROP:
        return 'drop', DROP[w[0]], r
    if w[0] in ('fopen', 'fclose'):
        return w[0][1:], 'F', r
    return 'use', OTHER.get(w[0]) or w[0][0].upper(), r


def encode(s):
    out = []
    real = [c for c in s.cmds if not c.startswith(('scale', '#'))]
    for c, e in zip(real, s.events):
        if e['op'] in ('crash', 'hang'):
            out.append({'op': e['op'], 'k': '-', 'r': 0, 'm': 0, 'f': 0})
            break
        if e['q']:
            break       # nothing is said about what an error leaves behind
        op, k, r = step(c)
        out.append({'op': op, 'k': k, 'r': r, 'm': e['lm'], 'f': e['lf']})
    return {'ev': out}


def ended(s, r):
    """the history s, with everything destroyed at its end"""
    live = {}
    cmds = list(s.cmds)
    for c in cmds:
        if c.startswith(('scale', '#')):
            continue
        op, k, n = step(c)
        if op in ('make', 'open'):
            live[k, n] = 1
        elif op in ('drop', 'close'):
            live.pop((k, n), None)
    first = [o for o in live if o[0] == 'A']
    then = [o for o in live if o[0] == 'M']
    rest = [o for o in live if o[0] not in 'AM']
    for part in (first, then, rest):
        r.shuffle(part)
        cmds += ['?%s %d' % (FREE[k], n) for k, n in part]
    return Script(s.id, cmds)


def again(s, r):
    """queries and other calls that keep nothing, several times over"""
    out = []
    for c in s.cmds:
        out.append(c)
        w = c.split(' ', 2)[0]
        if w in ('gvalid', 'gstats', 'xy2ij', 'xy2fij', 'fij2xy', 'knear', 'krange', 'pin', 'pfind', 'gwrite', 'aget') and r.random() < 0.3:
            out += [c] * r.randint(1, 3)
        if w == 'krange':
            p = c.split(' ')
            out += ['kpart %s %s %d %s' % (p[1], p[2], r.choice([0, 0, 1, 2, 5, 100]), ' '.join(p[3:]))] * r.choice([1, 1, 2])
    return Script(s.id, out)


def g30(f, k):
    s = f(k)
    r = rng('g30', s.id)
    return ended(again(s, r) if r.random() < 0.7 else s, r)


def files(k):
    """grids and masks from files and back"""
    r = rng('storefiles', k)
    cmds = []
    n = 0
    for q in range(r.randint(1, 4)):
        t = r.choice(['CO', 'CO', 'DD', 'CE', 'NO'])
        nx, ny = r.choice([(1, 1), (1, 5), (5, 1), (3, 3), (3, 5), (7, 3), (r.choice([1, 3, 9]), r.choice([1, 3, 9]))])
        name = 'g30-%d-%d' % (k, q)
        hole = r.choice([0, 0.2, 1])
        L = ['## %d x %d' % (nx, ny)] + ['NaN NaN' if r.random() < hole else '%d %d' % (i, 2 * j) for j in range(ny) for i in range(nx)]
        cmds.append('fput %s %s' % (name, ('\n'.join(L) + '\n').encode().hex()))
        for _ in range(r.choice([1, 1, 2, 3])):
            cmds.append('gread %d %s %s' % (n, t, name))
            n += 1
        cmds += ['gwrite %d %s %s' % (r.randrange(n), name, r.choice(['xy', 'x', 'y'])) for _ in range(r.randint(0, 3))]
        if r.random() < 0.5:
            mask = [r.choice('01') if hole < 1 else r.choice(['0', '1']) for _ in range(nx * ny)]
            cmds.append('fput %s %s' % (name, ('\n'.join(mask) + '\n').encode().hex()))
            cmds += ['maskfile %s %d %d' % (name, nx, ny)] * r.choice([1, 2])
        cmds.append('frm ' + name)
    return Script('files-%d' % k, cmds)


GEN = {'files': [files],
       'grids': [f_nodes.g01, f_nodes.g02, f_nodes.g03, f_nodes.g03_back, f_nodes.g04, f_nodes.g19, f_nodes.g28],
       'maps': [f_map.g07, f_map.g08, f_map.g09, f_map.g10, f_map.g11, f_map.g23],
       'boundaries': [f_map.g05],
       'polylines': [f_poly.g06, f_poly.g15, f_poly.g16, f_poly.g16_grow, f_poly.g17, f_poly.g17_io],
       'trees': [f_kd.g12, f_kd.g13, f_kd.g14]}


def campaign(b, chk, name, scripts):
    drive(b, scripts)
    chk.validate(name, 'StorageTrace', 'StorageTrace.cfg', scripts, encode, Rerun(b))


def run(b, chk):
    for name, fs in GEN.items():
        n = quick(1200, 15000) // len(fs)
        campaign(b, chk, name, [g30(f, k) for f in fs for k in range(n)])
    campaign(b, chk, 'large', [g30(lambda k, p=p: f_map.large(p, k), k) for p in ('G07', 'G10') for k in range(quick(10, 150))] +
             [g30(lambda k: f_poly.large('G16', k), k) for k in range(quick(10, 150))] +
             [g30(lambda k, p=p: f_nodes.large(p, k), k) for p in ('G02', 'G28') for k in range(quick(10, 150))] +
             [g30(f_kd.big, k) for k in range(quick(5, 40))])
