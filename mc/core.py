"""Runner: shards an enumeration over processes, gathers coverage, reports.

A check module defines
    ID, TITLE, LEVEL          strings
    ASSUMPTIONS               list of strings
    shards(tier) -> list      picklable shard descriptors (together: the whole space)
    run_shard(shard, ctx)     enumerate; ctx.case(...)/ctx.state/ctx.trans/ctx.fail
    replay(case, ctx)         optional: re-run one recorded case
"""
import hashlib
import importlib
import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback

from mc import sched

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    """The code under test did not finish a case (raised from SIGALRM)."""


class Stop(BaseException):
    """Enough violations were found; leave the enumeration."""


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode('utf-8', 'surrogatepass')
    return hashlib.blake2b(obj, digest_size=8).digest()


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx(object):
    """What a shard reports to."""
    MAX_NEW = 3      # new violations per shard before it stops

    def __init__(self, known, flag=None, tier='quick'):
        self.known = known
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.counters = {}
        self.flag = flag
        self.trail = None       # where to note each case before it is run

    # -- coverage -------------------------------------------------------
    def state(self, key):
        """Record one reached state; True if it was new in this shard."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def trans(self, n=1):
        self.transitions += n

    def ran(self, n=1):
        self.executions += n
        if self.flag is not None and self.flag[0]:
            raise Stop()

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    # -- verdicts -------------------------------------------------------
    def fail(self, signature, message, case):
        """A violation.  `signature` identifies the failing input/history/site."""
        for k in self.known:
            if k['signature'] == signature:
                self.known_hits[signature] = k['what']
                return
        self.violations.append({'signature': signature, 'message': message, 'case': case})
        if len(self.violations) >= self.MAX_NEW:
            if self.flag is not None:
                self.flag[0] = 1
            raise Stop()

    def guard(self, seconds=30):
        """Arm the watchdog for one case."""
        signal.setitimer(signal.ITIMER_REAL, seconds)

    def unguard(self):
        signal.setitimer(signal.ITIMER_REAL, 0)

    def attempt(self, fn, signature, case, seconds=30, allow=()):
        """Run fn under the watchdog.  Returns (ok, value).  An exception not in
        `allow`, or no answer within `seconds`, is a violation."""
        if self.trail is not None:
            self.trail(signature, case)
        try:
            self.guard(seconds)
            try:
                v = fn()
            finally:
                self.unguard()
            return True, v
        except CaseTimeout:
            self.fail(signature + ':hang', 'no answer within %ss' % seconds, case)
        except sched.Deadlock as e:
            self.fail(signature + ':hang', 'would block for ever: %s' % e, case)
        except allow:
            raise
        except Exception as e:
            self.fail(signature + ':raise',
                      'raised %s: %s\n%s' % (type(e).__name__, e, short_tb(e)), case)
        return False, None


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)[-4:]
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                       for f in reversed(tb))


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#'):
                    continue
                if line.startswith('fixed:'):
                    continue
                d = json.loads(line)
                if d.get('property') == pid:
                    out.append(d)
    return out


def run_check(pid, tier, replay=None):
    t0 = time.time()
    mod = importlib.import_module('mc.checks.' + pid.lower())
    from mc import env
    known = load_known(pid)
    signal.signal(signal.SIGALRM, _alarm)
    import gc
    env.load()
    gc.collect()
    gc.freeze()

    if replay:
        with open(replay) as f:
            rec = json.load(f)
        ctx = Ctx(known, tier=tier)
        try:
            mod.replay(rec['case'], ctx)
        except Stop:
            pass
        for v in ctx.violations:
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            print('  ' + v['message'])
        if not ctx.violations:
            print('replay: no violation')
        return 1 if ctx.violations else 0

    shards = list(mod.shards(tier))
    results = fan_out(mod, shards, known, tier)

    states = set()
    tot = dict(transitions=0, executions=0)
    samples, violations, known_hits, counters = [], [], {}, {}
    for r in results:
        states |= r['states']
        tot['transitions'] += r['transitions']
        tot['executions'] += r['executions']
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        known_hits.update(r['known_hits'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
    stopped = any(r['stopped'] for r in results)

    if mod.LEVEL in ('exploration', 'fault_enumeration'):
        cov = {'evaluations': tot['executions'], 'distinct_nontrivial': len(states),
               'rule': getattr(mod, 'RULE', ''), 'transitions': tot['transitions']}
    else:
        cov = {'states': len(states), 'transitions': tot['transitions'],
               'traces_validated_against_impl': tot['executions']}
    cov.update({
        'samples': samples[:6] or ['(none)'],
        'exhaustive': not stopped and not violations,
        'shards': len(shards),
    })
    cov['bounds'] = mod.bounds(tier) if hasattr(mod, 'bounds') else getattr(mod, 'BOUNDS', '')
    for k, v in counters.items():
        cov.setdefault(k, v)
    ev = {
        'property': pid, 'tier': tier, 'seed': env.SEED, 'level': mod.LEVEL,
        'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s tier=%s states=%d transitions=%d executions=%d exhaustive=%s wall=%.1fs'
          % (pid, tier, len(states), tot['transitions'], tot['executions'],
             cov['exhaustive'], ev['wall_s']))
    for k, v in sorted(counters.items()):
        print('  %s=%s' % (k, v))
    for sig in sorted(known_hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, known_hits[sig]))
    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = set()
        for n, v in enumerate(violations):
            if v['signature'] in seen or len(seen) >= 5:
                continue
            seen.add(v['signature'])
            path = os.path.join(HERE, 'replays', '%s-%s.json' % (pid, h64(v['signature']).hex()))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  signature: %s' % v['signature'])
            print('  ' + v['message'][:1500].replace('\n', '\n  '))
        return 1
    return 0


def fan_out(mod, shards, known, tier):
    """Run the shards on forked workers that pull indices from a pipe."""
    import mmap
    n = min(int(os.environ.get('VERIF_JOBS', '0')) or len(os.sched_getaffinity(0)),
            len(shards), 8)
    n = max(n, 1)
    flag = mmap.mmap(-1, 16)
    at = mmap.mmap(-1, 4 * n)       # the shard each worker is in
    scratch = os.environ['VERIF_SCRATCH']
    # shared work counter: lock-free through a pipe holding the shard indices
    rfd, wfd = os.pipe()
    feeder = os.fork()
    if feeder == 0:
        os.close(rfd)
        try:
            for i in range(len(shards)):
                os.write(wfd, struct.pack('<I', i))
        except BaseException:
            pass
        os._exit(0)
    os.close(wfd)
    kids = {}
    sys.stdout.flush()
    for w in range(n):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                err = os.open(os.path.join(scratch, 'err.%d' % w),
                              os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                nul = os.open(os.devnull, os.O_WRONLY)
                os.dup2(nul, 1)
                os.dup2(err, 2)
                home = os.path.join(scratch, 'w%d' % w)
                os.makedirs(home, exist_ok=True)
                _child(mod, shards, known, tier, rfd, flag,
                       os.path.join(scratch, 'result.%d' % w), home, at, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        kids[pid] = w
    os.close(rfd)
    bad = []
    while kids:
        pid, st = os.wait()
        if pid == feeder:
            continue
        if pid in kids:
            w = kids.pop(pid)
            if st != 0:
                bad.append((w, st))
    results = []
    for w in range(n):
        p = os.path.join(scratch, 'result.%d' % w)
        if os.path.exists(p):
            with open(p, 'rb') as f:
                while True:
                    try:
                        results.append(pickle.load(f))
                    except EOFError:
                        break
    for w, st in bad[:2]:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASHES:
            v = crashed(mod, shards, known, tier, struct.unpack('<I', at[4 * w:4 * w + 4])[0], scratch)
            if v is not None:
                results.append({'shard': -1, 'states': set(), 'transitions': 0, 'executions': 1, 'samples': [],
                                'violations': [v], 'known_hits': {}, 'counters': {}, 'stopped': True})
                break
    if bad and not any(r['violations'] for r in results):
        print('check error: shard workers failed: %s' % bad, file=sys.stderr)
        for w, _ in bad[:2]:
            with open(os.path.join(scratch, 'err.%d' % w), errors='replace') as f:
                sys.stderr.write('\n'.join(l for l in f.read().split('\n')
                                           if '/s]' not in l)[-1500:])
        sys.exit(2)
    return results


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def crashed(mod, shards, known, tier, i, scratch):
    """The code under test ended the interpreter in shard i: run the shard again, noting each case beforehand."""
    note = os.path.join(scratch, 'trail')
    pid = os.fork()
    if pid == 0:
        try:
            import mmap
            fd = os.open(note, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            home = os.path.join(scratch, 'again')
            os.makedirs(home, exist_ok=True)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            r, wr = os.pipe()
            os.write(wr, struct.pack('<I', i))
            os.close(wr)

            def trail(signature, case):
                b = json.dumps({'signature': signature, 'case': case}, default=str).encode()
                os.pwrite(fd, struct.pack('<I', len(b)) + b, 0)
            _child(mod, shards, known, tier, r, mmap.mmap(-1, 16), note + '.out', home, mmap.mmap(-1, 4), 0, trail)
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if not os.WIFSIGNALED(st) or os.WTERMSIG(st) not in CRASHES:
        return None
    with open(note, 'rb') as f:
        b = f.read()
    d = {'signature': 'shard', 'case': {'shard': i}}
    if b:
        d = json.loads(b[4:4 + struct.unpack('<I', b[:4])[0]].decode())
    d['signature'] += ':crash'
    d['message'] = 'the interpreter ended with signal %d in %s' % (os.WTERMSIG(st), json.dumps(d['case'])[:1000])
    return d


def _child(mod, shards, known, tier, rfd, flag, outpath, home, at, w, trail=None):
    import random
    from mc import env
    env.load()
    # per-worker HOME and scratch: nephosem empties <home>/tmp
    os.environ['HOME'] = home
    os.environ['TMPDIR'] = home
    import tempfile
    tempfile.tempdir = home
    import nephosem
    nephosem.tmpdir = os.path.join(home, 'tmp')
    os.makedirs(nephosem.tmpdir, exist_ok=True)
    os.chdir(home)
    env.WORK = home
    with open(outpath, 'wb') as out:
        while not flag[0]:
            b = os.read(rfd, 4)
            if len(b) < 4:
                break
            i = struct.unpack('<I', b)[0]
            at[4 * w:4 * w + 4] = b
            ctx = Ctx(known, flag, tier)
            ctx.work = home
            ctx.trail = trail
            random.seed(env.SEED)
            stopped = False
            try:
                mod.run_shard(shards[i], ctx)
            except Stop:
                stopped = True
            except (OSError, MemoryError):
                raise
            except Exception as e:
                # what the code under test handed back could not be interpreted
                # (wrong type or shape); never happens on a conforming tree
                ctx.violations.append({
                    'signature': 'uninterpretable:' + type(e).__name__,
                    'message': 'result could not be interpreted: %s: %s\n%s'
                               % (type(e).__name__, e, short_tb(e)),
                    'case': {'shard': i}})
                flag[0] = 1
            if flag[0]:
                stopped = True
            pickle.dump({
                'shard': i, 'states': ctx.states, 'transitions': ctx.transitions,
                'executions': ctx.executions, 'samples': ctx.samples,
                'violations': ctx.violations, 'known_hits': ctx.known_hits,
                'counters': ctx.counters, 'stopped': stopped}, out)
            out.flush()
