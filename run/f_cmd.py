"""Command lines: argument lists of every program, run and validated against
CommandTrace."""
import concurrent.futures as cf
import os
import re
import shutil
import tempfile

from core import NCPU, quick, rng, scratch
from f_tools import one, outcome

FLAGS = {'getnodes': 'pxyv', 'getbound': 'crv', 'subgrid': 'xyv', 'setbathy': 'v', 'insertgrid': 'mv', 'xy2ij': 'fkrv', 'gridbathy': 'xv'}
TYPED = {'getnodes': ('i', 'o'), 'getbound': 'i', 'insertgrid': 'i', 'xy2ij': 'i', 'gridbathy': 'i'}
ALL3 = ('getnodes', 'insertgrid')
NEEDED = {'setbathy': 'z', 'xy2ij': 'go', 'gridbathy': 'bg'}
NOPS = {'getnodes': 1, 'getbound': 1, 'subgrid': 1, 'setbathy': 1, 'insertgrid': 4, 'xy2ij': 0, 'gridbathy': 0}


class Run:
    def __init__(self, tid, p, argv, job, files):
        self.id = tid
        self.p = p
        self.argv = argv
        self.job = job          # (settings, operands) meant, or None
        self.files = files
        self.cmds = [' '.join([p] + argv)] + ['%s: %r' % f for f in sorted(files.items())]
        self.events = None
        self.skipped = False


def typ(r, p):
    return r.choice([str.upper, str.lower, str.title])(r.choice(['DD', 'CO', 'CE'] if p in ALL3 else ['DD', 'CO']))


def value(r, p, o):
    """values of an option"""
    if o in TYPED.get(p, ''):
        return [typ(r, p)]
    return {'m': lambda: [r.choice(['m2', 'm4', 'm5'])],
            'j': lambda: [r.choice(['1:3', '0:0', '2', '2:', '-3:2', '0:9'])],
            'i': lambda: [r.choice(['1:3', '0:0', '2', '2:', '-3:2', '0:9'])],
            'd': lambda: [r.choice(['5x5', '4x6', '1x1'])],
            'o': lambda: ['p'] if p == 'xy2ij' else [r.choice(['0', '1', '2'])],
            'z': lambda: [r.choice(['-5', '7.25', 'NaN', '-v', 'g', '%d%s'])],
            'g': lambda: ['g'],
            'a': lambda: [r.choice('01234')],
            'b': lambda: ['b'],
            'n': lambda: [r.choice('123')],
            'c': lambda: [r.choice('01'), r.choice('01')],
            'r': lambda: r.choice([['-3', '5'], ['0', '2'], ['-9.5', '-1']])}[o]()


VALUED = {'getnodes': 'iom', 'getbound': 'i', 'subgrid': 'ij', 'setbathy': 'ijdoz', 'insertgrid': 'i', 'xy2ij': 'goi', 'gridbathy': 'bgainmcr'}


def texts(r):
    def grid(hole):
        return '## 5 x 5\n' + ''.join('NaN NaN\n' if (i, j) in hole else '%g %g\n' % (i + 0.25 * j, j) for j in range(5) for i in range(5))
    full = grid(())
    return {'g': r.choice([full, grid({(4, 4), (3, 4), (4, 3)}), full]), 's': '## 2 x 2\nNaN NaN\n2.5 1.5\nNaN NaN\n2.5 2.5\n',
            'f': '## 5 x 5\n' + ''.join('%d\n' % k for k in range(27)),
            'p': '# note\n0.5 0.75 a\n1.25 1.5\n' + r.choice(['', '9 9 far\n']) + '0.75 0.25 b c\n',
            'b': ''.join('%g %g %g\n' % (0.4 * i + 0.3, 0.4 * j + 0.3, (7 * i * i + 3 * i * j * j) % 11 - 6) for i in range(9) for j in range(9)),
            'm2': '1\n0\n' * 2, 'm4': '1\n1\n0\n1\n' * 4, 'm5': '0\n1\n1\n1\n1\n' * 5}


def command(k):
    r = rng('command', k)
    p = list(FLAGS)[k % 7]
    settings = {}
    groups = []
    # the points per edge are seen where the interpolation ends within cells
    cut = p == 'gridbathy' and r.random() < 0.4
    opts = [o for o in VALUED[p] if o in NEEDED.get(p, '') or r.random() < (0.85 if cut and o in 'an' else 0.4)]
    for o in opts:
        n = 2 if r.random() < 0.15 else 1
        for _ in range(n):
            v = value(r, p, o)
            # "2" sets only one end of a range
            groups.append((o, v if n == 1 or o not in 'ij' or o in TYPED.get(p, '') else [r.choice(['1:3', '0:0', '-3:2', '0:9'])]))
    for o in FLAGS[p]:
        if r.random() < 0.35:
            groups += [(o, [])] * r.choice([1, 1, 1, 2])
    r.shuffle(groups)
    ops = {'getnodes': [r.choice('gg-')], 'getbound': [r.choice('gg-')], 'subgrid': [r.choice('gg-')], 'setbathy': ['f'],
           'insertgrid': [r.choice(['g', 'g', '-']), 's', r.choice(['0', '2', '-1', '5']), r.choice(['0', '1', '-2', '6'])]}.get(p, [])
    at = sorted(r.choice([0, 0, len(groups), r.randint(0, len(groups))]) for _ in ops)
    seq = []
    for q in range(len(groups) + 1):
        seq += [[w] for w, a in zip(ops, at) if a == q]
        if q < len(groups):
            o, v = groups[q]
            seq.append(['-' + o] + v)
    for o, v in groups:
        if o == 'v':
            continue
        key = 'ct' if o in 'xy' and p != 'gridbathy' else o
        settings[key] = [x.upper() for x in v] if o in TYPED.get(p, '') else v if v else [o]
    job = (settings, ops)
    m = r.random()
    if m < 0.45:
        what = r.choice(['unknown', 'help', 'drop', 'novalue', 'type', 'extra', 'alone'])
        if what == 'unknown':
            seq.insert(r.randint(0, len(seq)), [r.choice(['-q', '-w', '-Z', '-u', '-l'])])
        elif what == 'help' and p != 'setbathy':
            seq.insert(r.randint(0, len(seq)), ['-h'])
        elif what == 'drop':
            if ops:
                gone = r.choice(ops)
                seq.remove([gone])
            else:
                gone = r.choice(NEEDED[p])
                seq = [s for s in seq if s[0] != '-' + gone]
            job = None
        elif what == 'novalue':
            o = r.choice(VALUED[p])
            v = value(r, p, o)
            seq.append(['-' + o] + v[:len(v) - 1])
        elif what == 'type' and p in TYPED:
            seq.insert(r.randint(0, len(seq)), ['-' + r.choice(TYPED[p]), r.choice(['XX', '', 'D', 'DDD', 'CO ', 'no', 'cell', '-v', 'g'] + ([] if p in ALL3 or p == 'gridbathy' else ['CE', 'ce']))])
        elif what == 'extra' and p in ('insertgrid', 'xy2ij'):
            seq.insert(len(seq) if p == 'insertgrid' else r.randint(0, len(seq)), ['9'])
        elif what == 'alone':
            seq = [['-v']] if r.random() < 0.7 or p in ('setbathy', 'gridbathy') else []
            job = None
    return Run('command-%d' % k, p, [x for s in seq for x in s], job, texts(r))


def canonical(p, job):
    s, ops = job
    a = []
    for k in sorted(s):
        a += ['-' + s[k][0]] if k == 'ct' or k in FLAGS[p] and not (p == 'gridbathy' and k != 'x') else ['-' + k] + s[k]
    return [p] + ops + a if p != 'insertgrid' else [p] + a + ops


def execute(b, h):
    d = tempfile.mkdtemp(prefix='cl-', dir=scratch())
    env = {'GU_STUB_NAN': '7.2'}        # interpolators of the stub end here
    try:
        for n, t in h.files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        h.got = one(b, d, [h.p] + h.argv, 'g', env)
        h.ref = one(b, d, canonical(h.p, h.job), 'g', env) if h.job else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def lex(a):
    return ['o', a[1]] if len(a) > 1 and a[0] == '-' and not a[1].isdigit() else ['w', [a, a.upper()]]


def encode(h):
    ev = [{'op': 'arg', 't': lex(a), 'w': [a, a.upper()]} for a in h.argv]
    k, out = outcome(h.got), h.got[1]
    job = h.ref is not None and outcome(h.ref) == k and h.ref[1] == out
    told = k == 1 and out.strip() != '' and not re.search(r'^## \d+ x \d+$', out, re.M) and not job
    s, ops = h.job or ({}, [])
    ev.append({'op': 'ran', 'told': int(told), 'refused': int(k == 0 and out == ''), 'job': int(job and k != 2),
               'set': [[a, v] for a, v in sorted(s.items())], 'ops': ops, 'out': out[:300], 'err': h.got[2][:300]})
    return {'cfg': {'p': h.p}, 'ev': ev}


def campaign(b, chk, name, runs):
    def run(h):
        execute(b, h)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, runs))
    chk.validate(name, 'CommandTrace', 'CommandTrace.cfg', runs, encode, lambda h: execute(b, h))


def run(b, chk):
    for p in FLAGS:
        if p in quick(('getnodes', 'xy2ij', 'gridbathy', 'insertgrid'), tuple(FLAGS)):
            chk.model('CommandMC ' + p, 'CommandMC', 'CONSTANTS P = "%s"\nLongest = %d\nINIT MInit\nNEXT MNext\nCHECK_DEADLOCK FALSE\nINVARIANTS SetLaw TypeLaw OpsLaw JobLaw\n' % (p, quick(4, 6)))
    campaign(b, chk, 'command lines', [command(k) for k in range(quick(2800, 35000))])
