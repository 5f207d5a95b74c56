"""Runs the analysis tasks of one property, compares what they report with the known
findings, prints the verdict and writes the evidence."""
import json, os, resource, signal, sys, time, traceback, importlib, multiprocessing, multiprocessing.connection, collections
from . import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class AnchorError(Exception):
    """something the rule is about is not in the program"""

class Result:
    def __init__(self):
        self.oks = collections.Counter()
        self.bads = []          # (rule, file, line, func, msg, path)
        self.unds = []          # (rule, msg)
        self.samples = []
        self.stats = collections.Counter()
        self.functions = set()
        self.error = None
        self.spent = False
        self.broken = 0        # tasks the analysis could not finish
    def ok(self, rule, n=1, sample=None):
        self.oks[rule] += n
        if sample is not None and len(self.samples) < 12:
            self.samples.append('%s: %s' % (rule, sample))
    def bad(self, rule, file, line, func, msg, exact=True, path=()):
        if exact:
            self.bads.append((rule, file or '?', line or 0, func or '?', msg, tuple(str(x) for x in path)))
        else:
            self.und(rule, '%s:%s: %s: %s' % (file, line, func, msg))
    def und(self, rule, msg):
        self.unds.append((rule, msg))
    def check(self, rule, cond, f, msg, line=None, exact=True, path=(), sample=None):
        """cond: True holds, False violated, None undecided"""
        if cond is True:
            self.ok(rule, sample=sample)
        elif cond is False:
            self.bad(rule, f.file, line or f.line, f.name, msg, exact, path)
        else:
            self.und(rule, '%s: %s' % (f.name, msg))
        return cond
    def finding(self, rule, F, prefix=''):
        self.bad(rule, F.file, F.line, F.func, prefix + F.msg, F.exact, F.path)
    def absorb(self, I):
        """statistics of an interpreter run"""
        for k, v in I.stats.items():
            self.stats[k] += len(v) if isinstance(v, set) else v
        self.stats['partitions'] += I.nstates
        self.stats['abstract steps'] += I.steps
        self.functions |= I.stats['functions']
    def merge(self, o):
        self.oks.update(o.oks)
        self.bads += o.bads
        self.unds += o.unds
        self.stats.update(o.stats)
        self.functions |= o.functions
        for s in o.samples:
            if len(self.samples) < 24:
                self.samples.append(s)
        self.error = self.error or o.error
        self.broken += o.broken

class OutOfTime(BaseException):
    pass

LIMIT = float(os.environ.get('HSA_LIMIT', '800'))
_DEADLINE = None
_TASK_LIMIT = LIMIT
def _alarm(*a):
    raise OutOfTime()

def _run(t):
    label, fn, args = t
    R = Result()
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    scen = sys.modules.get('hsa.scen')
    if scen:
        scen.SEEN.clear()
    try:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(_TASK_LIMIT, _DEADLINE - t0)))
        fn(R, *args)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except OutOfTime:
        R.broken += 1
        R.und('analysis', '%s: not finished in time' % label)
    except AnchorError as e:
        R.error = 'anchor: %s: %s' % (label, e)
    except build.BuildError as e:
        R.error = 'build: %s' % e
    except MemoryError:
        R.broken += 1
        R.spent = True
        R.und('analysis', '%s: out of memory' % label)
    except Exception:
        # a construct the analysis does not understand decides nothing
        R.broken += 1
        R.und('analysis', 'task %s: %s' % (label, traceback.format_exc() if os.environ.get('HSA_TRACE') else ' | '.join(traceback.format_exc().strip().split('\n')[-5:])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if (R.unds or R.broken or os.environ.get('HSA_FORCE')) and not R.bads and not R.error and not R.spent and getattr(sys.modules[fn.__module__], 'CONCRETE', False):
        try:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, min(REFUTE, _DEADLINE - REFUTE - time.time())))
            refute(R, label, fn, args)
        except (OutOfTime, MemoryError):
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    R.stats['tasks'] += 1
    if os.environ.get('HSA_TIMES'):
        sys.stderr.write('%6.2f %s\n' % (time.time() - t0, label))
    return label, R

REFUTE = float(os.environ.get('HSA_REFUTE', '40'))
def refute(R, label, fn, args):
    """the general case is not settled: the same analysis for particular sizes, where loops are unrolled instead of
    summarised; only what is definitely wrong there is kept"""
    from . import scen
    try:
        for fix in scen.picks(R.functions):
            scen.FIX.clear()
            scen.FIX.update(fix)
            r = Result()
            try:
                fn(r, *args)
            except (AnchorError, build.BuildError):
                return
            except Exception as e:
                if os.environ.get('HSA_TRACE'):
                    traceback.print_exc()
            R.stats['particular sizes'] += 1
            if os.environ.get('HSA_TRACE'):
                sys.stderr.write('%s %r: %d und %d bad %d ok\n' % (label, fix, len(r.unds), len(r.bads), sum(r.oks.values())))
            R.stats.update({k: v for k, v in r.stats.items() if k in ('abstract steps', 'partitions')})
            if r.bads:
                R.bads += [b[:4] + (b[4] + ' (%s)' % ', '.join('%s %d' % x for x in sorted(fix.items())),) + b[5:] for b in r.bads]
                return
    finally:
        scen.FIX.clear()

def main(prop):
    sys.setrecursionlimit(200000)
    global _DEADLINE
    t0 = time.time()
    _DEADLINE = t0 + LIMIT
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('hsa.props.' + prop.lower())
    EV = os.environ.get('HSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(EV, exist_ok=True)
    out = os.path.join(EV, prop + '.json')
    build.scratch()
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(tier)
        tasks = mod.tasks(tier)
    except (build.BuildError, AnchorError) as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    only = os.environ.get('HSA_ONLY')
    if only:
        tasks = [t for t in tasks if only in t[0]]
    R = Result()
    global _TASK_LIMIT
    _TASK_LIMIT = LIMIT if tier == 'thorough' else min(LIMIT, float(os.environ.get('HSA_TASK_LIMIT', '240')))
    if os.environ.get('HSA_SERIAL'):
        rs = [_run(t) for t in tasks]
    else:
        rs = parallel(tasks, 8)
    errs = []
    for l, r in rs:
        R.merge(r)
        if r.error:
            errs.append(r.error)
    known = load_known(prop)
    new, seenk = [], set()
    dedup = set()
    for b in R.bads:
        k = key(b)
        if k in known:
            seenk.add(k)
        elif (b[0], b[1], b[2], b[3], b[4]) not in dedup:
            dedup.add((b[0], b[1], b[2], b[3], b[4]))
            new.append(b)
    minimum = getattr(mod, 'MINIMUM', {})
    if R.broken and not sum(R.oks.values()) and not R.bads:
        errs.append('nothing could be analysed: %s: %s' % R.unds[0])
    if not only and not R.broken:
        for rule, n in minimum.items():
            got = R.oks[rule] + sum(1 for b in R.bads if b[0] == rule) + sum(1 for u in R.unds if u[0] == rule)
            if got < n:
                errs.append('rule %r applied to %d instances, at least %d expected' % (rule, got, n))
    nob = sum(R.oks.values())
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'other'),
          'coverage': {
              'explanation': (mod.__doc__ or '').strip(),
              'obligations': nob + len(R.bads) + len(R.unds), 'discharged': nob,
              'rules': {k: v for k, v in sorted(R.oks.items())},
              'undecided': ['%s: %s' % u for u in R.unds[:40]],
              'known_findings': sorted(seenk),
              'analysed': {k: int(v) for k, v in sorted(R.stats.items())},
              'functions_analysed': sorted(R.functions)[:200],
              'samples': R.samples,
              'checker_cmd': './check %s' % prop,
              'trusted_base': ['clang 18 front end (C to LLVM IR at -O0, mem2reg)', 'the abstract interpreter in /verif/hsa', 'the contracts of external functions in /verif/hsa'] + list(getattr(mod, 'TRUSTED', [])),
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(out, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k in sorted(seenk):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if errs and not new:
        for e in errs[:5]:
            print('ERROR property=%s %s' % (prop, e))
        return 2
    for u in R.unds:
        if u[0] == 'analysis':
            print('NOTE undecided: %s' % u[1][:600])
    if os.environ.get('HSA_VERBOSE'):
        for u in R.unds:
            print('undecided: %s: %s' % u)
    if new:
        rp = os.path.relpath(os.path.join(EV, prop + '.violation.txt'), HERE)
        with open(os.path.join(HERE, rp), 'w') as f:
            for b in new:
                f.write('%s:%s: in %s\n  rule: %s\n  %s\n' % (b[1], b[2], b[3], b[0], b[4]))
                f.write('  key: %s\n' % key(b))
                for p in b[5]:
                    f.write('    via %s\n' % p)
                f.write('\n')
        for b in new[:12]:
            print('%s:%s: %s: %s: %s' % (b[1], b[2], b[3], b[0], b[4]))
        if len(new) > 12:
            print('... and %d more, see %s' % (len(new) - 12, rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    vt = os.path.join(EV, prop + '.violation.txt')
    if os.path.exists(vt):
        os.unlink(vt)
    print('OK property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs' % (prop, ev['coverage']['obligations'], nob, len(R.unds), time.time() - t0))
    return 0

MEMORY = 3 << 30          # of one worker; one that needs more decides nothing

def _worker(tasks, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (ValueError, OSError):
        pass
    while True:
        i = conn.recv()
        if i is None:
            return
        conn.send((i, _run(tasks[i])))

def _lost(label, why):
    R = Result()
    R.broken = 1
    R.und('analysis', '%s: %s' % (label, why))
    return label, R

def parallel(tasks, n):
    """runs the tasks in forked workers; a task whose worker dies or does not answer in time is undecided"""
    ctx = multiprocessing.get_context('fork')
    todo = list(range(len(tasks) - 1, -1, -1))
    out = [None] * len(tasks)
    busy = {}                                   # connection -> [process, task, since]
    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(tasks, b), daemon=True)
        p.start()
        b.close()
        busy[a] = [p, None, 0]
        give(a)
    def give(c):
        w = busy[c]
        if todo:
            w[1], w[2] = todo.pop(), time.time()
            c.send(w[1])
        else:
            w[1] = None
            try:
                c.send(None)
            except OSError:
                pass
            del busy[c]
            w[0].join(5)
    def drop(c, why):
        w = busy.pop(c)
        out[w[1]] = _lost(tasks[w[1]][0], why)
        w[0].kill()
        w[0].join(5)
        if todo:
            start()
    for i in range(min(n, len(tasks))):
        start()
    while busy:
        for c in multiprocessing.connection.wait(list(busy), 5):
            try:
                i, r = c.recv()
            except (EOFError, OSError):
                drop(c, 'the worker ended')
                continue
            out[i] = r
            if r[1].spent:                      # a worker that ran out of memory is replaced
                w = busy.pop(c)
                w[0].kill()
                w[0].join(5)
                if todo:
                    start()
            else:
                give(c)
        now = time.time()
        for c in list(busy):
            if busy[c][1] is not None and now > min(busy[c][2] + _TASK_LIMIT, _DEADLINE) + 10:
                drop(c, 'not finished in time')
    return out

def key(b):
    """identity of a finding: the rule, the function and the construct, not the line"""
    return '%s|%s|%s' % (b[0], b[3], b[4])

def load_known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: property=%s ' % prop):
                rest = l[len('known: property=%s ' % prop):]
                k, _, text = rest.partition(' :: ')
                r[k.strip()] = text or k
    return r
