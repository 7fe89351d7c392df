"""C02: a worker that fails is never mistaken for a finished one.

Every schedule, with every placement of one (thorough: up to two) worker deaths at a
scheduling point, and with every placement of an unreadable corpus file.  The run must
raise, or give the complete answer; it must not hang or give a partial answer.
"""
import os

from mc import env, corp, fsched, sched
from mc.checks import c01

ID = 'C02'
LEVEL = 'fault_enumeration'
RULE = ('one case = one schedule of the workers queue operations together with the placement of the '
        'fault (SIGKILL of a worker at a queue operation, or a corpus file that is missing / not '
        'decodable / a directory, or one of the file operations of the workers or of the whole run fails); non-trivial = distinct global states reached')
ASSUMPTIONS = [
    'a worker dies before or after a queue operation, never half way through one; it can die before each of '
    'its file operations and after opening a file for writing',
    'queues survive the death of a worker (they live in the manager process)',
]
BOUNDS = ('quick: (workers,files) in {(1,2),(2,2)}, one death; unreadable file: missing, '
          'undecodable, directory at each position; one death at a file operation or one failing file operation for '
          '(2,2), one failing file operation of a whole run with the workers in turn; thorough: (2,3),(3,2), two deaths for (2,2)')


def shards(tier):
    out = []
    for k in c01.KINDS:
        out.append(('kill', k, 2, 2, 1))
        out.append(('kill', k, 1, 2, 1))
        out.append(('kill', k, 2, 1, 1))
        out.append(('bad', k, 2, 1, 'missing', 0))
        out.append(('bad', k, 3, 1, 'undecodable', 0))
        for bad in ('missing', 'undecodable', 'directory'):
            for pos in range(2):
                out.append(('bad', k, 2, 2, bad, pos))
        out.append(('killf', k, 2, 2, 1))
        out.append(('failf', k, 2, 2, 1))
        out.append(('failall', k, 2, 2))
        if tier == 'thorough':
            out.append(('killf', k, 3, 2, 1))
            out.append(('failf', k, 3, 2, 1))
            out.append(('failf', k, 2, 2, 2))
            out.append(('failall', k, 3, 3))
            out.append(('kill', k, 2, 3, 1))
            out.append(('kill', k, 3, 2, 1))
            out.append(('kill', k, 2, 2, 2))
            for bad in ('missing', 'undecodable', 'directory'):
                for pos in range(3):
                    out.append(('bad', k, 2, 3, bad, pos))
                    out.append(('bad', k, 1, 3, bad, pos))
                for pos in range(2):
                    out.append(('bad', k, 3, 2, bad, pos))
    out.sort(key=lambda s: (-(s[2] * s[3]), s[0] not in ('killf', 'failf')))
    return out


def spoil(job, bad, pos):
    p = job.fnames[pos]
    os.remove(p)
    if bad == 'undecodable':
        with open(p, 'wb') as f:
            f.write(b'caf\xe9\tN\tcaf\xe9\n')
    elif bad == 'directory':
        os.makedirs(p)


def failing(job, work, n):
    """The whole run in one process whose n-th file operation fails."""
    corp.clear(os.path.join(work, 'handlertmp'))
    r = fsched.Run(job.execute, work)
    try:
        while r.result is None and n > 0:
            n -= r.pending[0] not in ('stat', 'opened')
            if n:
                r.step()
        op = r.pending
        if r.result is None:
            r.step('fail')
            r.steps()
    finally:
        r.kill()
    return op, r.result, len(r.trace)


def fail_all(shard, ctx):
    kind = shard[1]
    job = c01.Job(kind, shard[2], shard[3], ctx.work)
    n = 0
    while True:
        n += 1
        case = {'shard': list(shard), 'n': n}
        op, (outcome, value), steps = failing(job, ctx.work, n)
        ctx.ran()
        ctx.state((shard, n, op))
        ctx.trans(steps)
        if outcome == 'hang':
            ctx.fail('failall:%s:hang' % kind, 'the run does not end when %s fails' % (op,), case)
        elif outcome == 'ok':
            d = job.diff(value)
            if d:
                ctx.fail('failall:%s:partial' % kind, 'the file operation %s failed and the run returned a wrong '
                         'result: %s' % (op, d), case)
            ctx.count('complete_answers')
        else:
            ctx.count('errors_reported')
        if op is None:
            break


def run_shard(shard, ctx):
    from mc.core import CaseTimeout
    if shard[0] == 'failall':
        return fail_all(shard, ctx)
    what, kind, w, f = shard[:4]
    job = c01.Job(kind, w, f, ctx.work)
    faults = 0
    if what == 'bad':
        spoil(job, shard[4], shard[5])
    elif what != 'failf':
        faults = shard[4]
    name = '%s:%s' % (what, ':'.join(map(str, shard[1:])))
    ex = sched.Explorer(faults=faults, files=ctx.work if what in ('killf', 'failf') else None,
                        fails=shard[4] if what == 'failf' else 0)

    def execute():
        ctx.ran()
        corp.clear(os.path.join(ctx.work, 'handlertmp'))
        ctx.guard(40)
        try:
            return job.execute()
        finally:
            ctx.unguard()

    def judge(sim, choices, outcome, value):
        case = {'shard': list(shard), 'schedule': choices, 'trace': sim.trace}
        if outcome == 'deadlock':
            ctx.fail('%s:%s:hang' % (what, kind), '%s: the run never returns (%s); schedule %s'
                     % (name, value, ' '.join(sim.trace)), case)
            ctx.count('deadlocks')
        elif outcome == 'ok':
            d = job.diff(value)
            if what == 'bad':
                ctx.fail('bad:%s:silent' % kind, '%s: file %s unreadable but the run returned %s; '
                         'schedule %s' % (name, job.fnames[shard[5]], str(value)[:300],
                                          ' '.join(sim.trace)), case)
            elif d:
                ctx.fail('kill:%s:partial' % kind, '%s: worker(s) %s died, %s failed and the run returned a '
                         'partial result: %s; schedule %s'
                         % (name, sim.killed, sim.failed, d, ' '.join(sim.trace)), case)
            ctx.count('complete_answers')
        else:
            ctx.count('errors_reported')
        if ex.complete == 1:
            ctx.sample({'config': name, 'schedule': ' '.join(sim.trace),
                        'outcome': outcome, 'value': str(value)[:200]})

    try:
        ex.run(execute, judge)
    except CaseTimeout:
        ctx.fail('%s:%s:timeout' % (what, kind), '%s: a process never reached the next queue '
                 'operation' % name, {'shard': list(shard)})
    finally:
        for k in ex.visited:
            ctx.states.add(c01._mix(name, k))
        ctx.trans(ex.edges)
        ctx.count('complete_schedules', ex.complete)


def replay(case, ctx):
    ctx.work = os.path.join(env.SCRATCH, 'replay')
    os.makedirs(ctx.work, exist_ok=True)
    sh = case['shard']
    job = c01.Job(sh[1], sh[2], sh[3], ctx.work)
    if sh[0] == 'bad':
        spoil(job, sh[4], sh[5])
    if sh[0] == 'failall':
        op, (outcome, value), _ = failing(job, ctx.work, case['n'])
        print(op, outcome, value)
        if outcome == 'hang' or outcome == 'ok' and job.diff(value):
            ctx.fail('replay', str((op, outcome, value)), case)
        return
    sim, outcome, value = sched.replay_schedule(
        case.get('schedule', []), sh[4] if sh[0] in ('kill', 'killf') else 0, job.execute,
        files=ctx.work if sh[0] in ('killf', 'failf') else None, fails=sh[4] if sh[0] == 'failf' else 0)
    print('schedule:', ' '.join(sim.trace))
    print('outcome:', outcome, value)
    bad = outcome == 'deadlock' or (outcome == 'ok' and (sh[0] == 'bad' or job.diff(value)))
    if bad:
        ctx.fail('replay', str((outcome, value)), case)
