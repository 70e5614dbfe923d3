"""Infrastructure shared by all checks: building /repo, running the driver,
running TLC, evidence and reporting.  A check is a list of jobs; every job is
a TLC run over a specification in /verif/spec, either of a model (all
behaviours of the specification within small constants) or of traces recorded
from the code built from /repo's current working tree."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('GU_REPO', '/repo')
SRC = os.path.join(REPO, 'gridutils')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'
NCPU = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class Rejected(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='guv-')
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None and os.path.basename(_scratch).startswith('guv-'):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def quick(a, b):
    """a in the quick tier, b in the thorough one"""
    return b if TIER == 'thorough' else a


def rng(*key):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, key))))


# ---------------------------------------------------------------- build
class Build:
    pass


def build():
    """Compiles every source file of /repo/gridutils; objects with a main are
    programs, the others the library."""
    b = Build()
    b.failed = {}
    b.dir = os.path.join(scratch(), 'build')
    os.makedirs(b.dir, exist_ok=True)
    inc = os.path.join(b.dir, 'inc')
    os.makedirs(inc, exist_ok=True)
    if not os.path.exists(os.path.join(SRC, 'gridutilsconfig.h')):
        with open(os.path.join(inc, 'gridutilsconfig.h'), 'w') as f:
            f.write('/* empty */\n')
    flags = ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-w', '-D_GNU_SOURCE',
             '-I' + SRC, '-I' + os.path.join(VERIF, 'harness', 'stubs'), '-I' + inc]
    srcs = sorted(glob.glob(os.path.join(SRC, '*.c')))
    if not srcs:
        raise CheckError('no sources in ' + SRC)
    extra = [os.path.join(VERIF, 'harness', f) for f in ('gudrv.c', 'getstats.c')] + sorted(glob.glob(os.path.join(VERIF, 'harness', 'stubs', '*.c')))

    def comp(s):
        o = os.path.join(b.dir, os.path.basename(s)[:-2] + '.o')
        r = subprocess.run(['gcc'] + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode and os.path.basename(s) == 'gridbathy.c':
            # it needs libraries that are absent here; the project's own build leaves it out
            b.failed['gridbathy'] = r.stderr[-2000:]
            return None, False
        if r.returncode:
            raise CheckError('compilation of %s failed:\n%s' % (s, r.stderr[-2000:]))
        m = subprocess.run(['nm', o], capture_output=True, text=True).stdout
        return o, bool(re.search(r' T main$', m, re.M))

    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = [x for x in ex.map(comp, srcs) if x[0]]
        eobjs = list(ex.map(comp, extra))
    lib = [o for o, m in objs if not m]
    stubs = [o for o, m in eobjs if not m]
    jobs = [(o, os.path.join(b.dir, os.path.basename(o)[:-2])) for o, m in objs + eobjs if m]

    def link(j):
        o, out = j
        # the driver counts what is allocated and open
        w = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'fopen', 'fclose'))] if os.path.basename(out) == 'gudrv' else []
        r = subprocess.run(['gcc', '-fsanitize=address', o] + w + lib + stubs + ['-lm', '-o', out], capture_output=True, text=True)
        if r.returncode and os.path.basename(out) == 'gridbathy':
            b.failed['gridbathy'] = r.stderr[-2000:]
        elif r.returncode:
            raise CheckError('linking %s failed:\n%s' % (out, r.stderr[-2000:]))

    def kd(_):
        # built as its usage is: from one file
        r = subprocess.run(['gcc', '-fsanitize=address', '-DSTANDALONE'] + flags + [os.path.join(SRC, 'kdtree.c'), '-lm', '-o', os.path.join(b.dir, 'kd')],
                           capture_output=True, text=True)
        if r.returncode:
            b.failed['kd'] = r.stderr[-2000:]

    with cf.ThreadPoolExecutor(NCPU) as ex:
        k = ex.submit(kd, 0)
        list(ex.map(link, jobs))
        k.result()
    return b


def prog_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('VERIF_', 'ASAN', 'JAVA', 'MALLOC'))}
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=4000'
    e['LC_ALL'] = 'C'
    return e


# ---------------------------------------------------------------- driver
class Rerun:
    def __init__(self, b):
        self.b = b

    def __call__(self, s):
        s.skipped = False
        drive(self.b, [s])


class Script:
    """One history: a list of driver commands, and what is needed to encode
    the events they give."""

    def __init__(self, tid, cmds, **meta):
        self.id = tid
        self.cmds = cmds
        self.meta = meta
        self.events = None
        self.skipped = False
        self.before = []
        self.reuse = None       # whether freed storage is given out again at once


def fmt(v):
    if isinstance(v, str):
        return v
    if isinstance(v, float):
        return 'nan' if v != v else v.hex()
    return str(v)


def cmd(*a):
    out = []

    def add(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                add(y)
        else:
            out.append(fmt(x))
    add(a)
    return ' '.join(out)


MAXTROUBLE = 3      # crashes or hangs after which the rest of a campaign is left out


def _drive(b, scripts, wd, trouble, reuse):
    """Runs scripts one after another in one process; restarts after a crash."""
    todo = list(scripts)
    while todo:
        if len(trouble) >= MAXTROUBLE:
            for s in todo:
                s.skipped = True
            return
        for k, s in enumerate(todo):
            s.before = todo[:k]
            s.reuse = reuse
        env = prog_env()
        if reuse:
            env['ASAN_OPTIONS'] += ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0'
        text = ''.join('trace %d\n%s\n' % (k, '\n'.join(s.cmds)) for k, s in enumerate(todo))
        p = subprocess.Popen([os.path.join(b.dir, 'gudrv')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env, cwd=wd, text=True, errors='replace')
        try:
            out, err = p.communicate(text, timeout=1500)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError('driver did not finish')
        cur = -1
        ended = False
        for line in out.split('\n'):
            if not line:
                continue
            try:
                e = json.loads(line)
            except ValueError:
                if p.returncode == 0:
                    raise CheckError('bad driver output: ' + line[:200])
                continue
            if 'trace' in e:
                cur = int(e['trace'])
                todo[cur].events = []
            elif 'end' in e:
                ended = True
            else:
                todo[cur].events.append(e)
        if ended and p.returncode == 0:
            return
        if p.returncode == 3:
            raise CheckError('driver: ' + err[-500:])
        if cur < 0:
            raise CheckError('driver failed at start: ' + err[-500:])
        s = todo[cur]
        trouble.append(s)
        n = len(s.events)
        real = [c for c in s.cmds if not c.startswith(('scale', '#'))]
        m = re.search(r'SUMMARY: (.*)', err)
        s.events.append({'op': 'hang' if p.returncode == -14 else 'crash', 'q': 0,
                         'cmd': real[n][:300] if n < len(real) else '?',
                         'what': m.group(1)[:200] if m else 'exit status %d' % p.returncode})
        todo = todo[cur + 1:]


def drive(b, scripts):
    """Every other part in a process that gives out freed storage again at
    once (new objects take the addresses of old ones); the others keep it out
    of use, so that any access to it is noticed."""
    if not scripts:
        return
    n = min(NCPU, len(scripts))
    parts = [(scripts[k::n], k % 2 == 1 if scripts[k].reuse is None else scripts[k].reuse) for k in range(n)]
    wd = os.path.join(scratch(), 'wd')
    os.makedirs(wd, exist_ok=True)
    trouble = []
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda p: _drive(b, p[0], wd, trouble, p[1]), parts))


def drive_after(b, s, before):
    """Runs a script again, in one process after the ones it was run after."""
    wd = os.path.join(scratch(), 'wd')
    _drive(b, list(before) + [s], wd, [], bool(s.reuse))


# ---------------------------------------------------------------- encoding
INEXACT = 1 << 29


def num(s):
    """driver number -> float"""
    if s == 'nan':
        return float('nan')
    if s == 'inf':
        return float('inf')
    if s == '-inf':
        return float('-inf')
    return float.fromhex(s)


def isnum(v):
    return v == v and v not in (float('inf'), float('-inf'))


def exact(v, mul=1, off=0):
    """float -> int if it is exactly one (times mul, minus off), else None"""
    if not isnum(v):
        return None
    w = v * mul
    if w != int(w):
        return None
    w = int(w) - off
    return w if abs(w) < INEXACT else None


class Coords:
    """Exact encoding of coordinates as integers: value * mul - offset."""

    def __init__(self, mul=1, ox=0, oy=0):
        self.mul, self.ox, self.oy = mul, ox, oy

    def node(self, x, y):
        if x != x and y != y:
            return [0, 0, 0]
        if x != x or y != y:
            return [2, 0, 0]
        a, c = exact(x, self.mul, self.ox), exact(y, self.mul, self.oy)
        if a is None or c is None:
            return [3, 0, 0]
        return [1, a, c]


class Ids:
    """Encoding of arbitrary doubles by identity (bit pattern)."""

    def __init__(self):
        self.t = {}

    def of(self, v):
        k = struct.pack('<d', v)
        if k not in self.t:
            self.t[k] = len(self.t) + 1
        return self.t[k]

    def node(self, x, y):
        if x != x and y != y:
            return [0, 0, 0]
        if x != x or y != y:
            return [2, 0, 0]
        return [1, self.of(x), self.of(y)]


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


_tlcn = 0


def tlc(module, cfg, env=None, workers=None, timeout=800, heap='4g', extra=()):
    """Runs TLC on spec/<module>.tla with configuration text or file cfg."""
    global _tlcn
    _tlcn += 1
    d = tempfile.mkdtemp(prefix='tlc%d-' % _tlcn, dir=scratch())
    if '\n' in cfg:
        cfgf = os.path.join(d, module + '.cfg')
        with open(cfgf, 'w') as f:
            f.write(cfg)
    else:
        cfgf = os.path.join(SPEC, cfg)
    e = {k: v for k, v in os.environ.items() if not k.startswith('JAVA')}
    e.update(env or {})
    e['TLA_LIBRARY'] = SPEC
    argv = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC',
            '-config', cfgf, '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'meta'),
            '-noGenerateSpecTE', '-lncheck', 'final', *extra, os.path.join(SPEC, module + '.tla')]
    t = time.time()
    try:
        p = subprocess.run(argv, capture_output=True, text=True, errors='replace', env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(d, ignore_errors=True)
        raise CheckError('TLC on %s did not finish in %d s' % (module, timeout))
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', p.stdout)
    r.generated, r.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    r.err = p.stderr
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_trace(module, cfg, traces, env=None, timeout=800, heap='6g'):
    """Checks traces (lists of encoded events) against a trace specification.
    Returns (result, None) if all are accepted, else (result, (trace, event))."""
    f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', dir=scratch(), delete=False)
    for k, t in enumerate(traces):
        f.write(json.dumps({'id': k, 'cfg': t.get('cfg', {}), 'ev': t['ev']}, separators=(',', ':')) + '\n')
    f.close()
    e = dict(env or {})
    e['TRACES'] = f.name
    r = tlc(module, cfg, env=e, timeout=timeout, heap=heap)
    os.unlink(f.name)
    want = sum(len(t['ev']) + 1 for t in traces)
    if r.rc == 0 and 'No error has been found' in r.out:
        if r.distinct != want:
            raise CheckError('%s: %d distinct states, expected %d' % (module, r.distinct, want))
        return r, None
    if 'Deadlock reached' in r.out:
        st = re.findall(r'tid \|?->? ?=? ?(\d+)', r.out) or re.findall(r'tid = (\d+)', r.out)
        ls = re.findall(r'/\\ l = (\d+)', r.out)
        st = re.findall(r'/\\ tid = (\d+)', r.out)
        if not st or not ls:
            raise CheckError('cannot read the TLC trace:\n' + r.out[-3000:])
        return r, (int(st[-1]) - 1, int(ls[-1]) - 1)
    if 'The behavior up to this point is' in r.out and 'OutOfMemory' not in r.out + r.err:
        # an event the specification has no meaning for (say, a size far out
        # of range): not a step either
        st = re.findall(r'/\\ tid = (\d+)', r.out)
        ls = re.findall(r'/\\ l = (\d+)', r.out)
        if st and ls:
            r.noise = r.out[:600]
            return r, (int(st[-1]) - 1, int(ls[-1]) - 1)
    raise CheckError('TLC failed on %s (rc %d):\n%s\n%s' % (module, r.rc, r.out[-3000:], r.err[-500:]))


def behaviours(module, cfg, simulate=None, timeout=600):
    """Histories of calls generated by TLC from a specification: one for every
    transition of its state graph (behind a shortest way to it), or those of
    random walks (simulate: number of them, depth).  Histories that others
    start with are left out: they are run as part of those."""
    extra = ()
    if simulate:
        extra = ('-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(SEED))
    r = tlc(module, cfg, workers=1, timeout=timeout, extra=extra)
    if r.rc != 0:
        raise CheckError('%s fails (rc %d):\n%s\n%s' % (module, r.rc, r.out[-3000:], r.err[-500:]))
    hs = set()
    for line in r.out.split('\n'):
        if line.startswith('"['):
            hs.add(json.loads(line))
    pre = set()
    out = []
    for t in sorted(hs, key=lambda t: (-len(json.loads(t)), t)):
        h = json.loads(t)
        if t in pre:
            continue
        for k in range(1, len(h)):
            pre.add(json.dumps(h[:k], separators=(',', ':')))
        out.append(h)
    r.total = len(hs)
    return r, out


# ---------------------------------------------------------------- checks
def readable(encode, s):
    """the trace of a script; one that makes no sense to the encoder (output
    of a shape nothing specified has) is a single event of no specification"""
    try:
        return encode(s)
    except (ValueError, KeyError, IndexError, TypeError, AttributeError, OverflowError, ZeroDivisionError) as e:
        if os.environ.get('GU_RAISE'):
            raise
        return {'ev': [{'op': 'unreadable', 'why': repr(e)[:300]}], 'cfg': getattr(s, 'cfg', {})}


class Check:
    """Collects what a run covered."""

    def __init__(self, pid):
        self.pid = pid
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.parts = {}
        self.ops = {}
        self.violations = []
        self.assumptions = []

    def outdir(self):
        d = os.path.join(VERIF, 'out')
        os.makedirs(d, exist_ok=True)
        return d

    def model(self, name, module, cfg, **kw):
        """Exhaustive exploration of a model; an error here is an error of the
        specification, not of the code."""
        r = tlc(module, cfg, **kw)
        if r.rc != 0 or 'No error has been found' not in r.out:
            raise CheckError('model %s fails (rc %d):\n%s\n%s' % (name, r.rc, r.out[-4000:], r.err[-500:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.parts['model ' + name] = {'states': r.distinct, 'transitions': r.generated, 'wall_s': round(r.wall, 1)}

    def generated(self, name, module, cfg, limit, simulate=None, keep=None):
        """Histories of a specification to be run in the code: a sample of
        them if there are more than limit."""
        r, hs = behaviours(module, cfg, simulate)
        if simulate is None:
            self.states += r.distinct
            self.transitions += r.generated
        if keep:
            hs = [h for h in hs if keep(h)]
        n = len(hs)
        if n > limit:
            hs = rng('generated', name).sample(hs, limit)
        self.parts['behaviours ' + name] = {'states': r.distinct, 'transitions': r.total, 'histories': n, 'run': len(hs), 'wall_s': round(r.wall, 1)}
        return hs

    def validate(self, name, module, cfg, scripts, encode, rerun, env=None, limit=1):
        """encode(script) -> {'ev': [...], 'cfg': {...}}.  rerun(script)
        executes a script again (a rejection must repeat)."""
        traces = []
        n00 = len(scripts)
        scripts = [s for s in scripts if not s.skipped]
        for s in scripts:
            traces.append(readable(encode, s))
            for e in traces[-1]['ev']:
                self.ops[e['op']] = self.ops.get(e['op'], 0) + 1
        if not scripts:
            raise CheckError('no traces for ' + name)
        found = 0
        nst = ntr = 0
        wall = 0.0
        n0 = len(scripts)
        while traces:
            r, bad = tlc_trace(module, cfg, traces, env=env)
            wall += r.wall
            if bad is None:
                nst += r.distinct
                ntr += r.generated
                break
            ti, ei = bad
            s = scripts[ti]
            # a rejection is reported only if it repeats
            before = list(getattr(s, 'before', []))
            rerun(s)
            t2 = readable(encode, s)
            r2, bad2 = tlc_trace(module, cfg, [t2], env=env)
            if bad2 is None and before:
                # what happens may depend on what the process did before
                drive_after(rerun.b, s, before)
                t2 = readable(encode, s)
                r2, bad2 = tlc_trace(module, cfg, [t2], env=env)
                if bad2 is not None:
                    s.after = [x.cmds for x in before]
            if bad2 is None:
                raise CheckError('rejection of trace %s did not repeat' % s.id)
            self.report(name, module, s, t2, bad2[1])
            found += 1
            if found >= limit:
                break
            # the rest is still checked
            del traces[ti]
            del scripts[ti]
        if n00 > n0 and not found:
            raise CheckError('%s: scripts left out, but nothing rejected' % name)
        self.states += nst
        self.transitions += ntr
        self.traces += len(traces)
        self.events += sum(len(t['ev']) for t in traces)
        self.parts['traces ' + name] = {'traces': n0, 'events': sum(len(t['ev']) for t in traces), 'states': nst, 'wall_s': round(wall, 1)}
        if traces:
            k = rng('sample', name).randrange(len(traces))
            ev = []
            for e in traces[k]['ev'][:6]:
                if len(json.dumps(ev)) + len(json.dumps(e)) > 100000:
                    break
                ev.append(e)
            self.samples.append({'part': name, 'trace': scripts[k].id, 'script': [c[:2000] for c in scripts[k].cmds[:12]] if hasattr(scripts[k], 'cmds') else None,
                                 'events': ev})

    def report(self, name, module, s, t, ei):
        fn = os.path.join(self.outdir(), '%s-%d.json' % (self.pid, len(self.violations) + 1))
        ev = t['ev'][ei] if ei < len(t['ev']) else None
        with open(fn, 'w') as f:
            json.dump({'property': self.pid, 'part': name, 'spec': module, 'trace': s.id, 'seed': SEED, 'tier': TIER,
                       'rejected_event_index': ei, 'rejected_event': ev, 'script': getattr(s, 'cmds', None), 'run_after': getattr(s, 'after', []),
                       'events': t['ev'], 'cfg': t.get('cfg', {}),
                       'raw_event': (s.events[ei] if s.events and ei < len(s.events) else None)}, f, indent=1)
        self.violations.append((fn, 'trace %s of %s: event %d (%s) is not a step of %s' % (s.id, name, ei, ev and ev.get('op'), module)))

    def finish(self):
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'events_validated': self.events, 'events_by_action': self.ops,
                           'parts': self.parts, 'samples': self.samples[:6]},
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - T0, 2), 'violations': len(self.violations)}
        # keep samples of a readable size
        for s in ev['coverage']['samples']:
            if len(json.dumps(s)) > 6000:
                s['events'] = [json.dumps(e)[:700] for e in s['events'][:4]]
                if s.get('script'):
                    s['script'] = [c[:300] for c in s['script'][:8]]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for fn, what in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, fn))
            print('  ' + what)
        return 1 if self.violations else 0
