"""Runs a check: deals its cases to worker processes, collects what the monitors saw, writes evidence, reports violations.

A check is a module ionmon.checks.cXX with
  FAMILIES   [(name, function(ctx), cases in a quick run)]
  THOROUGH   factor from quick to thorough case counts (default 12)
  RULE       how cases are made and what makes one distinct and non-trivial
  MIN        {counter: least value} of a complete quick run, below which the run counts as no evidence (exit 2)
  KNOWN      [(finding id, function() -> description of the failure or None)] probes of listed findings
  ASSUMPTIONS
  begin      called once in each process before its first case (optional)
"""
import hashlib
import heapq
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import time
import traceback

HOME = os.environ.get('IONMON_HOME', '/verif')
SCRATCH = os.environ.get('IONMON_SCRATCH') or '/tmp'
REPO = os.environ.get('IONMON_REPO', '/repo')
WORKERS = int(os.environ.get('IONMON_WORKERS', '8'))
CASE_LIMIT = 40.0
ALONE_LIMIT = 150.0
SOFT = {'quick': 240.0, 'thorough': 700.0}


class Hang(BaseException):
    pass


class Ctx(object):
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.counters = {}
        self.hashes = set()
        self.samples = {}
        self.maxima = {}
        self.lines = set()
        self.verbose = False
        self.notes = []
        self.rng = None
        self.i = 0
        self.family = None

    def n(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def stats(self, prefix, d):
        for k, v in d.items():
            self.n(prefix + k, v)

    def max(self, name, v):
        if v > self.maxima.get(name, -1):
            self.maxima[name] = v

    def distinct(self, *key):
        """Records a distinct, non-trivial case."""
        self.hashes.add(hash64(repr((self.family,) + key)))

    def sample(self, text):
        s = self.samples.setdefault(self.family, [])
        if len(s) < 2:
            s.append(text if len(text) <= 600 else text[:600] + '...')

    def wants_sample(self):
        return len(self.samples.get(self.family, ())) < 2

    def note(self, text):
        """Details for the replay file of this case."""
        if len(self.notes) < 40:
            self.notes.append(text if len(text) <= 4000 else text[:4000] + '...')

    def fail(self, message):
        from .observe import Violation
        raise Violation(message)


def hash64(s):
    return int.from_bytes(hashlib.blake2b(s.encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')


def load(prop):
    return importlib.import_module('ionmon.checks.' + prop.lower())


def schedule(module, tier):
    """All (family name, function, index), the families interleaved in proportion to their size."""
    factor = 1 if tier == 'quick' else getattr(module, 'THOROUGH', 12)
    scale = float(os.environ.get('IONMON_SCALE', '1'))
    only = os.environ.get('IONMON_FAMILY')
    heap = []
    for k, (name, func, count) in enumerate(module.FAMILIES):
        if only and name != only:
            continue
        count = max(1, int(count * factor * scale))
        heapq.heappush(heap, (0.5 / count, k, 0, count, name, func))
    while heap:
        _, k, i, count, name, func = heapq.heappop(heap)
        yield name, func, i
        if i + 1 < count:
            heapq.heappush(heap, ((i + 1.5) / count, k, i + 1, count, name, func))


def run_case(ctx, name, func, i, limit):
    """Runs one case.  Returns None or (kind, message)."""
    from .observe import Violation
    ctx.family = name
    ctx.i = i
    ctx.notes = []
    ctx.rng = random.Random('%s/%s/%d/%d' % (ctx.prop, name, ctx.seed, i))

    def on_alarm(signum, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 5.0)
    try:
        try:
            func(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Hang:
        return 'hang', 'no result after %d s\n%s' % (limit, ''.join(traceback.format_exc()[-3000:]))
    except MemoryError:
        return 'memory', 'out of memory'
    except Violation as e:
        return 'violation', str(e)
    except RecursionError:
        return 'violation', 'unexpected RecursionError\n' + traceback.format_exc()[-2500:]
    except Exception:
        return 'violation', 'unexpected exception\n' + traceback.format_exc()[-4000:]


def tracer(ctx):
    root = os.path.join(REPO, 'amazon') + os.sep
    n = len(root)
    lines = ctx.lines

    def local(frame, event, arg):
        if event == 'line':
            lines.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local(frame, 'line', arg)
        return None
    return trace


def limit_memory(gb):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2 ** 30), int(gb * 2 ** 30)))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


def worker(prop, tier, seed, w, count, out):
    limit_memory(3.5)
    sys.setrecursionlimit(4000)
    module = load(prop)
    getattr(module, 'begin', int)()
    ctx = Ctx(prop, seed, tier)
    deadline = time.time() + float(os.environ.get('IONMON_SOFT', SOFT[tier]))
    stop = os.path.join(SCRATCH, 'stop')
    cur = os.open(os.path.join(SCRATCH, 'current.%d' % w), os.O_RDWR | os.O_CREAT)
    failures = []
    cases = {}
    truncated = False
    base = lines0 = 0
    trace = tracer(ctx)
    try:
        for k, (name, func, i) in enumerate(schedule(module, tier)):
            if k % count != w:
                continue
            if time.time() > deadline:
                truncated = True
                break
            if (k // count) % 8 == 0 and os.path.exists(stop):
                break
            os.pwrite(cur, ('%-60s' % ('%s %d' % (name, i))).encode(), 0)
            traced = (i // count) % 128 == 0 and getattr(module, 'TRACE', True)
            if traced:
                sys.settrace(trace)
            try:
                r = run_case(ctx, name, func, i, CASE_LIMIT)
            finally:
                if traced:
                    sys.settrace(None)
            cases[name] = cases.get(name, 0) + 1
            if r:
                failures.append({'family': name, 'index': i, 'kind': r[0], 'message': r[1], 'notes': ctx.notes})
                if r[0] == 'violation':
                    open(stop, 'w').close()
                    break
                if len(failures) >= 3:
                    break
    finally:
        sys.settrace(None)
        os.pwrite(cur, ('%-60s' % 'done').encode(), 0)
    with open(out + '.hashes', 'wb') as f:
        f.write(b''.join([h.to_bytes(8, 'big') for h in ctx.hashes]))
    with open(out, 'w') as f:
        json.dump({'counters': ctx.counters, 'maxima': ctx.maxima, 'samples': ctx.samples, 'failures': failures, 'cases': cases,
                   'truncated': truncated, 'lines': sorted([list(x) for x in ctx.lines])}, f)


def single(prop, tier, seed, family, index, limit, out):
    """Runs one case alone (a replay, or to settle a hang)."""
    limit_memory(8)
    sys.setrecursionlimit(4000)
    module = load(prop)
    getattr(module, 'begin', int)()
    ctx = Ctx(prop, seed, tier)
    ctx.verbose = True
    func = [f for n, f, _ in module.FAMILIES if n == family][0]
    r = run_case(ctx, family, func, index, limit)
    with open(out, 'w') as f:
        json.dump({'result': r, 'notes': ctx.notes}, f)


def spawn(args, **kw):
    return subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'ionmon.runner'] + [str(a) for a in args], **kw)


def run_single(prop, tier, seed, family, index, limit=ALONE_LIMIT):
    out = os.path.join(SCRATCH, 'single.json')
    if os.path.exists(out):
        os.remove(out)
    p = spawn(['--single', prop, tier, seed, family, index, limit, out])
    try:
        p.wait(timeout=limit + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return ['hang', 'no result after %d s, and no reaction to an interrupt' % limit], []
    try:
        with open(out) as f:
            d = json.load(f)
        return d['result'], d['notes']
    except (IOError, ValueError):
        return ['crash', 'the process died with status %r' % p.returncode], []


def write_replay(prop, tier, seed, f):
    d = os.path.join(HOME, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (prop, f['family'], seed, f['index']))
    with open(path, 'w') as fp:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'family': f['family'], 'index': f['index'], 'message': f['message'],
                   'notes': f['notes'], 'how': 'bin/check %s %s --replay %s' % (prop, tier, path)}, fp, indent=1)
    return path


def known_findings(prop):
    try:
        with open(os.path.join(HOME, 'known_findings.json')) as f:
            return dict((e['id'], e) for e in json.load(f)['known'] if e['property'] == prop)
    except IOError:
        return {}


def main(argv):
    if argv and argv[0] == '--worker':
        return worker(argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), argv[6])
    if argv and argv[0] == '--single':
        return single(argv[1], argv[2], int(argv[3]), argv[4], int(argv[5]), float(argv[6]), argv[7])
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 and argv[1] in ('quick', 'thorough') else os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            d = json.load(f)
        r, notes = run_single(prop, d['tier'], d['seed'], d['family'], d['index'])
        print('\n'.join(notes))
        print(r[0] + ': ' + r[1] if r else 'the case passes')
        return 1 if r else 0
    start = time.time()
    module = load(prop)
    procs = []
    outs = []
    for w in range(WORKERS):
        out = os.path.join(SCRATCH, 'worker.%d.json' % w)
        outs.append(out)
        procs.append(spawn(['--worker', prop, tier, seed, w, WORKERS, out]))
    hard = time.time() + float(os.environ.get('IONMON_SOFT', SOFT[tier])) + 90
    dead = []
    for w, p in enumerate(procs):
        try:
            p.wait(timeout=max(1.0, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode != 0 or not os.path.exists(outs[w]):
            dead.append(w)
    counters, maxima, samples, cases, failures, hashes = {}, {}, {}, {}, [], set()
    lines = set()
    truncated = False
    for w, out in enumerate(outs):
        if w in dead:
            continue
        with open(out) as f:
            d = json.load(f)
        for k, v in d['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in d['maxima'].items():
            maxima[k] = max(v, maxima.get(k, v))
        for k, v in d['samples'].items():
            samples.setdefault(k, []).extend(v)
        truncated = truncated or d['truncated']
        failures += d['failures']
        lines.update(tuple(x) for x in d['lines'])
        with open(out + '.hashes', 'rb') as f:
            b = f.read()
        hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
    broken = []
    for w in dead:
        # A worker that died or never reacted: settle its last case alone.
        try:
            with open(os.path.join(SCRATCH, 'current.%d' % w)) as f:
                cur = f.read().split()
        except IOError:
            cur = []
        if len(cur) == 2:
            failures.append({'family': cur[0], 'index': int(cur[1]), 'kind': 'crash', 'notes': [],
                             'message': 'the worker process died or never returned'})
        else:
            broken.append('worker %d died (status %r)' % (w, procs[w].returncode))
    violations = [f for f in failures if f['kind'] == 'violation']
    if not violations:
        for f in failures[:4]:
            # Hangs, memory exhaustion and crashes count only when they happen again in a process of their own.
            r, notes = run_single(prop, tier, seed, f['family'], f['index'])
            if r:
                f['message'] = '%s (again when run alone: %s)' % (f['message'], r[1])
                f['notes'] = f['notes'] or notes
                violations.append(f)
            else:
                print('inconclusive: %s %d: %s; it passes alone' % (f['family'], f['index'], f['message'][:200]))
    findings = known_findings(prop)
    known = 0
    for fid, probe in getattr(module, 'KNOWN', ()):
        what = probe()
        if what:
            if fid in findings:
                known += 1
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, fid, findings[fid]['what']))
            else:
                violations.append({'family': 'probe-' + fid, 'index': 0, 'message': what, 'notes': []})
    total = sum(cases.values())
    if not violations:
        low = []
        if total == 0:
            low.append('no case ran')
        if not os.environ.get('IONMON_FAMILY'):
            for k, v in getattr(module, 'MIN', {}).items():
                if counters.get(k, 0) < v * (0.02 if truncated else 1) * min(1, float(os.environ.get('IONMON_SCALE', '1'))):
                    low.append('%s is %d, expected at least %d' % (k, counters.get(k, 0), v))
        broken += low
    wall = time.time() - start
    flat = []
    for k in sorted(samples):
        for s in samples[k][:2]:
            flat.append('%s: %s' % (k, s))
    by_file = {}
    for f, l in lines:
        by_file[os.path.basename(f)] = by_file.get(os.path.basename(f), 0) + 1
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(hashes),
            'rule': module.RULE,
            'samples': flat[:24] or ['(no case completed)'],
            'cases_by_family': cases,
            'observed': dict(sorted(counters.items())),
            'maxima': maxima,
            'library_lines_reached_in_traced_cases': by_file,
            'stopped_by_time_budget': truncated,
            'known_findings_still_present': known,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
    tmp = os.path.join(HOME, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(HOME, 'evidence', prop + '.json'))
    print('%s %s seed=%d: %d cases, %d distinct, %.1f s%s' % (prop, tier, seed, total, len(hashes), wall,
                                                             ', stopped by the time budget' if truncated else ''))
    for f in violations[:3]:
        path = write_replay(prop, tier, seed, f)
        print(ascii(f['message'])[1:-1][:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if broken:
        print('NO EVIDENCE: ' + '; '.join(broken))
        return 2
    return 0


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code or 0)
