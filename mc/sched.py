"""A controlled multiprocessing layer.

install() replaces multiprocessing's entry points (Process, Manager, Queue,
cpu_count, ...) before the code under test is imported.  What they do then
depends on the active *Sim*:

  no Sim    -> plain sequential stand-in: a worker runs, in fork-like isolation
               (deep copies), at the moment its parent would block on it.
  Sim       -> every worker is a real forked process, every queue operation of
               every process is a scheduling point, exactly one process runs at
               a time, and a chooser picks who goes next.  Faults (killing a
               worker at a scheduling point) are extra choices.

Explorer enumerates all choices depth first, pruning at global states already
visited.  Processes are deterministic functions of what they received through
the queues, so (what the master saw, what every worker received, the queue
contents) identifies a global state.
"""
import collections
import copy
import hashlib
import os
import pickle
import queue as _queue
import signal
import socket
import struct
import sys
import time
import traceback

import multiprocessing
import multiprocessing.context
import multiprocessing.managers

ACTIVE = None      # the Sim of the running execution (in the exec process)
CHILD = None       # in a forked simulated worker: its channel to the scheduler
CPUS = 8
_real_getpid = os.getpid


class Deadlock(BaseException):
    """No process can take a step and the parent has not finished."""


class Prune(BaseException):
    """The execution reached a state explored before."""


class NotIndependent(BaseException):
    """The code uses a queue in a way the partial-order reduction did not expect."""


# ---------------------------------------------------------------- channel --
def _send(sock, obj):
    b = pickle.dumps(obj, -1)
    sock.sendall(struct.pack('<I', len(b)) + b)


def _recv(sock):
    hdr = b''
    while len(hdr) < 4:
        c = sock.recv(4 - len(hdr))
        if not c:
            return None
        hdr += c
    n = struct.unpack('<I', hdr)[0]
    buf = bytearray()
    while len(buf) < n:
        c = sock.recv(n - len(buf))
        if not c:
            return None
        buf += c
    return pickle.loads(bytes(buf))


# ------------------------------------------------------------------ queues --
class SimQueue(object):
    """Queue proxy, valid in the parent and in the simulated workers."""

    def __init__(self, maxsize=0):
        self._sim = ACTIVE
        self._maxsize = maxsize if maxsize and maxsize > 0 else 0
        if ACTIVE is not None:
            self._qid = len(ACTIVE.queues)
            ACTIVE.queues.append(collections.deque())
        else:
            self._items = collections.deque()     # sequential stand-in
            self._qid = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- operations
    def _op(self, kind, *args):
        if CHILD is not None:
            _send(CHILD, (kind, self._qid, self._maxsize) + args)
            r = _recv(CHILD)
            if r is None:
                os._exit(70)
        elif self._sim is not None:
            r = self._sim.master_op(kind, self._qid, self._maxsize, *args)
        else:
            r = self._seq(kind, *args)
        if r[0] == 'empty':
            raise _queue.Empty()
        if r[0] == 'full':
            raise _queue.Full()
        return r[1]

    def _seq(self, kind, *args):
        if kind == 'put':
            self._items.append(args[0])
            return ('ok', None)
        if kind == 'get':
            if not self._items:
                run_pending()
            if not self._items:
                if args[0]:
                    raise Deadlock('get on an empty queue')
                return ('empty', None)
            return ('ok', self._items.popleft())
        if kind == 'qsize':
            run_pending()
            return ('ok', len(self._items))
        raise AssertionError(kind)

    def put(self, obj, block=True, timeout=None):
        # pickled like a manager proxy would: no sharing with the sender
        self._op('put', pickle.dumps(obj, -1), bool(block and timeout is None))

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        return pickle.loads(self._op('get', bool(block and timeout is None)))

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return self._op('qsize')

    def empty(self):
        return self._op('qsize') == 0

    def full(self):
        return bool(self._maxsize) and self._op('qsize') >= self._maxsize

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def task_done(self):
        pass


class SimManager(object):
    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    JoinableQueue = Queue

    def list(self, *a):
        return list(*a)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def start(self, *a, **k):
        pass

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# --------------------------------------------------------------- processes --
_pending = []       # sequential stand-in: started, not yet run


def run_pending():
    while _pending:
        _pending.pop(0)._run_inline()


class SimProcess(object):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs or {})
        self.daemon = daemon
        SimProcess._count += 1
        self.name = name or 'SimProcess-%d' % SimProcess._count
        self._sim = ACTIVE
        self._code = None
        self._started = False
        self._rec = None
        self.error = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        self._started = True
        if self._sim is None:
            # fork semantics: the worker works on a snapshot
            snap = None
            if type(self).run is SimProcess.run:
                snap = (self._target, self._args, self._kwargs)
                try:
                    snap = copy.deepcopy(snap)
                except Exception:
                    pass
            self._snap = snap
            _pending.append(self)
        else:
            self._rec = self._sim.spawn(self)

    def _run_inline(self):
        try:
            if self._snap is not None:
                t, a, k = self._snap
                if t:
                    t(*a, **k)
            else:
                self.run()
            self._code = 0
        except Exception as e:
            self.error = e
            self._code = 1
            global LAST_ERROR
            LAST_ERROR = e
        except SystemExit as e:
            self._code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)

    def _flush(self):
        if self._sim is None and self in _pending:
            _pending.remove(self)
            self._run_inline()

    def join(self, timeout=None):
        if self._sim is None:
            self._flush()
        else:
            self._sim.master_op('join', self._rec.index, timeout)

    @property
    def exitcode(self):
        if self._sim is None:
            self._flush()
            return self._code
        if not self._started:
            return None
        return self._sim.master_op('exitcode', self._rec.index)[1]

    def is_alive(self):
        if not self._started:
            return False
        if self._sim is None:
            self._flush()
            return False
        return self._sim.master_op('exitcode', self._rec.index)[1] is None

    @property
    def pid(self):
        return self._rec.pid if self._rec else None

    ident = pid

    @property
    def sentinel(self):
        return -1

    def terminate(self):
        if self._sim is not None and self._rec is not None:
            self._sim.kill(self._rec)
        elif self in _pending:
            _pending.remove(self)
            self._code = -15

    kill = terminate

    def close(self):
        pass


LAST_ERROR = None


class _Rec(object):
    """Scheduler-side record of one simulated worker."""
    __slots__ = ('index', 'pid', 'sock', 'pending', 'exit', 'hist', 'nput', 'killed', 'parked',
                 'joined')


class Sim(object):
    def __init__(self, chooser, faults=0, reduce=True, files=None, fails=0):
        self.chooser = chooser      # (enabled, fingerprint) -> index
        self.files = files          # root: the workers' file operations below it are scheduling points
        self.fails = fails          # so many of these file operations may fail
        self.failed = []
        self.reduce = reduce
        self.uses = {}              # queue -> who put / got / peeked
        self.reduced = set()        # (queue, op) treated as independent of the workers
        self.faults = faults
        self.procs = []
        self.queues = []
        self.mhist = []
        self.killed = []
        self.trace = []
        self.steps = 0

    # -- lifecycle
    def __enter__(self):
        global ACTIVE
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
        for p in self.procs:
            if p.exit is None:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
                p.exit = -9
            p.sock.close()
        return False

    def spawn(self, proc):
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            global CHILD, ACTIVE
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                a.close()
                for q in self.procs:
                    q.sock.close()
                CHILD = b
                if self.files:
                    from mc import fsched
                    fsched.attach(b, self.files, 50000 + len(self.procs))
                try:
                    proc.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except BaseException:
                    code = 1
            finally:
                os._exit(code)
        b.close()
        r = _Rec()
        r.index, r.pid, r.sock = len(self.procs), pid, a
        r.pending, r.exit, r.hist, r.nput, r.killed, r.parked = None, None, [], 0, False, False
        r.joined = False
        self.procs.append(r)
        self.mhist.append('spawn')
        return r

    # -- stepping
    def settle(self):
        for p in self.procs:
            if p.exit is None and not p.parked:
                m = _recv(p.sock)
                if m is None:
                    _, st = os.waitpid(p.pid, 0)
                    p.exit = os.waitstatus_to_exitcode(st)
                    p.parked = True
                else:
                    p.pending = m
                    p.parked = True

    def kill(self, p):
        if p.exit is None:
            os.kill(p.pid, signal.SIGKILL)
            os.waitpid(p.pid, 0)
            p.exit = -9
            p.parked = True
            p.pending = None

    def fingerprint(self, mop):
        """Identifies the global state up to renaming of the (identical) workers."""
        if mop[0] in ('join', 'exitcode'):
            at, what = mop[1], (mop[0],)
        else:
            at, what = None, mop[:2]
        ws = sorted(repr((p.hist, p.exit, p.joined, p.index == at)) for p in self.procs)
        fs = None
        if self.files:
            from mc import fsched
            fs = fsched.tree(self.files), self.fails
        return repr((what, self.mhist, ws, [[e[0] for e in q] for q in self.queues], self.faults, fs))

    def _note(self, qid, op, who):
        """Record who does what with a queue, and check that the independence
        assumed by an earlier reduction still holds."""
        if op[0] == 'file':
            return
        u = self.uses.setdefault(qid, {'put': set(), 'get': set(), 'peek': set()})
        kind = op[0]
        if kind == 'qsize' or (kind == 'get' and not op[3]) or (kind == 'put' and not op[4]) \
                or (kind == 'put' and op[2]):
            u['peek'].add(who)
        if kind in u:
            u[kind].add(who)
        if who != 'm':
            if (qid, 'put') in self.reduced and (who in u['put'] or who in u['peek']):
                raise NotIndependent()
            if (qid, 'get') in self.reduced and (who in u['get'] or who in u['peek']):
                raise NotIndependent()

    def _independent(self, kind, args, mop):
        """Is the parent's next step independent of everything the workers can do?
        Then it is taken at once (a singleton persistent set)."""
        if not self.reduce:
            return False
        if kind == 'join':
            return args[1] is None and self.procs[args[0]].exit is not None
        if kind == 'exitcode':
            return self.procs[args[0]].exit is not None
        if kind in ('put', 'get') and not (kind == 'put' and (mop[2] or not mop[4])) \
                and not (kind == 'get' and (not mop[3] or not self.queues[mop[1]])):
            u = self.uses.get(mop[1], {})
            if u and any(w != 'm' for w in u[kind] | u['peek']):
                return False
            self.reduced.add((mop[1], kind))
            return True
        return False

    def _enabled_q(self, op):
        kind, qid, maxsize = op[0], op[1], op[2]
        if kind == 'get':
            return bool(self.queues[qid]) or not op[3]
        if kind == 'put':
            return not maxsize or len(self.queues[qid]) < maxsize or not op[4]
        return True

    def _do_q(self, op, who):
        """Perform a queue operation; returns (reply, history item)."""
        kind, qid, maxsize = op[0], op[1], op[2]
        self._note(qid, op, 'm' if who is None else who.index)
        if kind == 'file':
            return 'go', ('f',) + op[1:]
        q = self.queues[qid]
        if kind == 'get':
            if not q:
                return ('empty', None), ('g', qid, None)
            ident, payload = q.popleft()
            return ('ok', payload), ('g', qid, ident)
        if kind == 'put':
            if maxsize and len(q) >= maxsize:
                return ('full', None), ('p', qid, 'full')
            if who is None:
                ident = hashlib.blake2b(op[3], digest_size=6).hexdigest()
            else:
                who.nput += 1
                ident = hashlib.blake2b(repr((who.hist, who.nput)).encode(),
                                        digest_size=6).hexdigest()
            q.append((ident, op[3]))
            return ('ok', None), ('p', qid)
        if kind == 'qsize':
            return ('ok', len(q)), ('s', qid, len(q))
        raise AssertionError(kind)

    def master_op(self, kind, *args):
        mop = (kind,) + args
        while True:
            self.settle()
            if self._independent(kind, args, mop):
                self.trace.append('m:%s' % kind)
                break
            enabled = []
            if kind == 'join':
                p = self.procs[args[0]]
                if p.exit is not None or args[1] is not None:
                    enabled.append(('m', kind))
            elif kind == 'exitcode':
                enabled.append(('m', kind))
            elif self._enabled_q(mop):
                enabled.append(('m', kind))
            for p in self.procs:
                if p.exit is None and self._enabled_q(p.pending):
                    enabled.append(('w%d' % p.index, p.pending[0]))
                    if self.fails and p.pending[0] == 'file' and p.pending[1] not in ('stat', 'opened'):
                        enabled.append(('f%d' % p.index, 'fail'))
            if self.faults:
                for p in self.procs:
                    if p.exit is None:
                        enabled.append(('k%d' % p.index, 'kill'))
            if not [e for e in enabled if e[1] not in ('kill', 'fail')]:
                raise Deadlock('%s; workers: %s' % (
                    kind, [(p.exit, p.pending and p.pending[0]) for p in self.procs]))
            c = self.chooser(enabled, self.fingerprint(mop)) if len(enabled) > 1 else 0
            who, what = enabled[c]
            p = self.procs[int(who[1:])] if who != 'm' else None
            self.trace.append('%s:%s' % (who, what) if p is None or p.pending is None or p.pending[0] != 'file'
                              else '%s:%s(%s %s)' % ((who, what) + p.pending[1:3]))
            self.steps += 1
            if who == 'm':
                break
            if who[0] == 'k':
                self.faults -= 1
                self.killed.append(p.index)
                p.killed = True
                self.kill(p)
            elif who[0] == 'f':
                self.fails -= 1
                self.failed.append(p.pending[1:3])
                p.hist.append(('F',) + p.pending[1:])
                p.pending, p.parked = None, False
                _send(p.sock, 'fail')
            else:
                reply, item = self._do_q(p.pending, p)
                p.hist.append(item)
                p.pending = None
                p.parked = False
                try:
                    _send(p.sock, reply)
                except OSError:
                    pass
        if kind == 'join':
            self.mhist.append('j')
            self.procs[args[0]].joined = True
            return None
        if kind == 'exitcode':
            v = self.procs[args[0]].exit
            self.mhist.append(('x', v))
            return ('ok', v)
        reply, item = self._do_q(mop, None)
        self.mhist.append(item)
        return reply


# ---------------------------------------------------------------- explorer --
class Explorer(object):
    """Depth-first enumeration of all schedules, pruned at visited states."""

    def __init__(self, faults=0, max_execs=None, files=None, fails=0):
        self.faults = faults
        self.files, self.fails = files, fails
        self.visited = set()
        self.edges = 0
        self.execs = 0
        self.complete = 0
        self.pruned = 0
        self.max_execs = max_execs
        self.truncated = False
        self.reduce = True

    def run(self, execute, judge):
        try:
            self._run(execute, judge)
        except NotIndependent:
            self.reduce = False
            self.visited.clear()
            self.edges = 0
            self._run(execute, judge)

    def _run(self, execute, judge):
        """execute() performs one run under the active Sim and returns a value;
        judge(sim, outcome, value) is called for every complete run, outcome in
        {'ok', 'raise', 'deadlock'}."""
        from mc.core import h64
        work = [[]]
        while work:
            prefix = work.pop()
            choices = []

            def chooser(enabled, fp):
                i = len(choices)
                if i < len(prefix):
                    choices.append(prefix[i])
                    return prefix[i]
                k = h64(fp)
                if k in self.visited:
                    raise Prune()
                self.visited.add(k)
                self.edges += len(enabled)
                for alt in range(len(enabled) - 1, 0, -1):
                    work.append(choices + [alt])
                choices.append(0)
                return 0

            self.execs += 1
            with Sim(chooser, self.faults, self.reduce, self.files, self.fails) as sim:
                try:
                    outcome, value = 'ok', execute()
                except Prune:
                    self.pruned += 1
                    continue
                except Deadlock as e:
                    outcome, value = 'deadlock', e
                except Exception as e:
                    outcome, value = 'raise', e
            self.complete += 1
            judge(sim, choices, outcome, value)
            if self.max_execs and self.execs >= self.max_execs and work:
                self.truncated = True
                break


def replay_schedule(choices, faults, execute, files=None, fails=0):
    it = list(choices)

    def chooser(enabled, fp):
        return it.pop(0) if it else 0
    with Sim(chooser, faults, True, files, fails) as sim:
        try:
            return sim, 'ok', execute()
        except Deadlock as e:
            return sim, 'deadlock', e
        except Exception as e:
            return sim, 'raise', e


# ----------------------------------------------------------------- install --
class _Ctx(object):
    Process = SimProcess

    @staticmethod
    def Manager():
        return SimManager()

    @staticmethod
    def Queue(maxsize=0):
        return SimQueue(maxsize)

    JoinableQueue = SimpleQueue = Queue

    @staticmethod
    def cpu_count():
        return CPUS

    @staticmethod
    def get_start_method(*a, **k):
        return 'fork'


def install(cpus=8):
    global CPUS
    CPUS = cpus
    # libraries that subclass the real classes are loaded first
    import numpy, pandas, scipy.sparse, networkx, sklearn.metrics.pairwise, tqdm  # noqa
    import matplotlib.pyplot  # noqa
    m = multiprocessing
    m.Process = SimProcess
    m.Manager = lambda *a, **k: SimManager()
    m.Queue = lambda maxsize=0: SimQueue(maxsize)
    m.JoinableQueue = m.Queue
    m.SimpleQueue = lambda: SimQueue()
    m.cpu_count = lambda: CPUS
    m.get_context = lambda method=None: _Ctx()
