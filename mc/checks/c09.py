"""
C09: every schedule (up to a bound of deviations) of application threads that hand over snapshots or tasks, the two workers
that deliver them, and flush/shutdown, for every assignment of outcomes to the deliveries.
"""
import itertools

from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse

import deep.push  # noqa: F401
from deep.api.deep import Deep
from deep.api.resource import Resource
from deep.api.tracepoint.eventsnapshot import EventSnapshot, StackFrame
from deep.api.tracepoint.tracepoint_config import TracePointConfig
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService
from deep.grpc import GRPCService
from deep.push import PushService
from deep.task import TaskHandler
from mc import env, sched
from mc.core import Violation
from mc.sched import Explorer

MODULES = ['deep.task', 'deep.push.push_service']
BOUNDS = {
    'quick': 'schedules with at most 1 deviation for all outcomes of up to 3 deliveries, and at most 2 (or 3) for chosen ones; '
             'up to 3 application threads, 2 workers; 7 shapes of submit/flush/open/shutdown; deliveries that take up to 10000 s, and '
             'crowds of up to some hundred of them',
    'thorough': 'as quick with one deviation more',
}
RULE = ('a schedule is the sequence of choices at scheduling points: accesses of shared state in deep.task and '
        'deep.push.push_service, lock operations, thread start/join, network calls; bounded number of deviations')

SLOW = 10_000    # seconds; nobody gives up waiting before
OUTCOMES = ['ok', 'fail', 'base', 'slow', 'slow-fail', 'convert', 'convert-base']


class Interrupted(BaseException):
    pass


class Bomb:
    """A frame of a snapshot that notes the thread that converts it, and can fail."""

    def __init__(self, scenario, i):
        self.__dict__.update(_scenario=scenario, _i=i)

    def __getattr__(self, name):
        scenario, i = self._scenario, self._i
        scenario.converted[i].add(scenario.me())
        outcome = scenario.kinds[i]
        if outcome.startswith('convert'):
            scenario.log.append(('end', i))
            if outcome == 'convert':
                raise ValueError('cannot convert')
            raise Interrupted('cannot convert')
        return getattr(scenario.frame, name)


class Scenario:
    def __init__(self, spec):
        self.spec = spec
        self.mode, self.shape, self.kinds = spec
        self.name = 'C09 %s/%s %s' % spec
        self.log = []
        n = len(self.kinds)
        self.sends = [0] * n
        self.converted = [set() for _ in range(n)]
        self.senders = [set() for _ in range(n)]
        self.futures = {}
        self.problems = []
        self.run = None
        self.frame = StackFrame('f.py', 'f.py', 'm', 1, [], 'C')
        env.net.handler = self.net
        self.deep = None
        if self.shape == 'deep':
            self.deep = Deep(ConfigService({'IN_APP_EXCLUDE': ['/x'], 'APP_ROOT': '/app', 'PLUGINS': [], 'POLL_TIMER': 1000,
                                            'NO_TRACE': True}, tracepoints=TracepointConfigService()))
            self.tasks_ = self.deep.task_handler
            self.push = self.deep.push
        else:
            self.tasks_ = TaskHandler()
            config = ConfigService({'IN_APP_EXCLUDE': ['/x'], 'APP_ROOT': '/app'}, tracepoints=TracepointConfigService())
            self.grpc = GRPCService(config)
            self.grpc.start()
            self.push = PushService(self.grpc, self.tasks_)
        self.snapshots = []
        for i in range(n):
            s = EventSnapshot(TracePointConfig('tp%d' % i, 'f.py', 1, {}, [], []), env.START_NS, Resource({}),
                              [Bomb(self, i)], {})
            s._id = i + 1
            self.snapshots.append(s)

    def me(self):
        _, task = sched.current()
        return task.number if task is not None else -1

    def state(self):
        return len(self.log), tuple(self.sends)

    def outcome(self, i):
        self.senders[i].add(self.me())
        self.sends[i] += 1
        kind = self.kinds[i]
        self.log.append(('start', i))
        sched.point('net')
        if kind.startswith('slow'):
            sched.sleep(SLOW)
        self.log.append(('end', i))
        if kind == 'fail' or kind == 'slow-fail':
            raise ValueError('failed')
        if kind == 'base':
            raise Interrupted('failed')

    def net(self, method, data, metadata):
        if 'oll' in method.rsplit('/', 2)[-2]:
            return PollResponse(ts_nanos=1, response_type=ResponseType.NO_CHANGE).SerializeToString()
        self.outcome(int.from_bytes(Snapshot.FromString(data).ID, 'big') - 1)
        return SnapshotResponse().SerializeToString()

    # --- what the application does

    def submit(self, i, closed=False):
        self.log.append(('submit', i))
        try:
            if self.mode == 'task':
                self.futures[i] = self.tasks_.submit_task(self.outcome, i)
            else:
                self.push.push_snapshot(self.snapshots[i])
        except BaseException as e:
            if isinstance(e, sched.Kill):
                raise
            self.log.append(('refused', i))
        else:
            self.log.append(('accepted', i))

    def flush(self, f=0):
        self.log.append(('flush', f))
        try:
            (self.deep.shutdown if self.deep else self.tasks_.flush)()
        except BaseException as e:
            if isinstance(e, sched.Kill):
                raise
            self.problems.append(('flush-fails', 'flush raised %r' % (e,)))
        self.log.append(('flushed', f))
        for i, future in list(self.futures.items()):
            before = self.log.index(('flush', f))
            if ('accepted', i) in self.log[:before] and not future.done():
                self.problems.append(('flush-early', 'flush returned before task %d is done' % i))

    def reopen(self):
        self.log.append(('open', 0))
        self.tasks_.open()

    def tasks(self, run):
        n = len(self.kinds)
        every = list(range(n))
        if self.shape == 'seq':
            def app():
                for i in every:
                    self.submit(i)
                self.flush()
            return [('app', app)]
        if self.shape == 'late':
            def app():
                for i in every[:-1]:
                    self.submit(i)
                self.flush()
                self.submit(n - 1)
            return [('app', app)]
        if self.shape == 'reopen':
            def app():
                self.submit(0)
                self.flush()
                self.reopen()
                for i in every[1:]:
                    self.submit(i)
                self.flush(1)
            return [('app', app)]
        if self.shape == 'nested':
            # a task that hands over more work
            inner = self.outcome

            def outcome(i):
                if i == 0:
                    for j in every[1:]:
                        self.submit(j)
                inner(i)
            self.outcome = outcome
            return [('app', lambda: (self.submit(0), self.flush()))]
        if self.shape == 'par':
            return [('app', lambda: [self.submit(i) for i in every]), ('stop', self.flush)]
        if self.shape == 'flush2':
            return [('app', lambda: ([self.submit(i) for i in every], self.flush())), ('stop', lambda: self.flush(1))]
        if self.shape == 'two':
            return [('app1', lambda: [self.submit(i) for i in every[::2]]),
                    ('app2', lambda: [self.submit(i) for i in every[1::2]]), ('stop', self.flush)]
        if self.shape == 'deep':
            def app():
                self.deep.start()
                self.started = True
                for i in every:
                    self.submit(i)
            self.started = False

            def stop():
                sched.wait_until(lambda: self.started)
                self.flush()
            return [('app', app), ('stop', stop)]
        raise ValueError(self.shape)

    # --- oracle

    def judge(self, run, status):
        log = self.log
        if status != 'finished':
            raise Violation('not-settled', 'the run ended as: %s, log %s' % (status, log), self.spec)
        for key, detail in self.problems:
            raise Violation(key, '%s, log %s' % (detail, log), self.spec)
        for t in run.tasks:
            if t.error is not None:
                raise Violation('thread-error', 'error in thread %s: %r, log %s' % (t.name, t.error, log), self.spec)
        mains = {t.number for t in run.tasks if t.main} | {-1}
        for i, kind in enumerate(self.kinds):
            accepted = ('accepted', i) in log
            if not accepted and ('refused', i) not in log:
                raise Violation('stuck', 'submission %d did not return, log %s' % (i, log), self.spec)
            wanted = 1 if accepted and not (self.mode == 'push' and kind.startswith('convert')) else 0
            if self.sends[i] != wanted:
                raise Violation('not-once', 'delivery %d (%s, %s) was sent %d times, expected %d, log %s' % (
                    i, kind, 'accepted' if accepted else 'refused', self.sends[i], wanted, log), self.spec)
            if self.senders[i] & mains:
                raise Violation('app-thread', 'delivery %d was done by the application thread, log %s' % (i, log), self.spec)
            if self.converted[i] & mains:
                raise Violation('app-thread-convert', 'snapshot %d was converted by the application thread, log %s' % (i, log),
                                self.spec)
            submit = log.index(('submit', i))
            end = log.index(('accepted', i)) if accepted else log.index(('refused', i))
            # flush closes, open opens
            if not accepted and not any(w == 'flush' for w, _ in log[:end]):
                raise Violation('refused-open', 'delivery %d was refused before closing, log %s' % (i, log), self.spec)
            if not accepted and self.shape == 'reopen' and log.index(('open', 0)) < submit \
                    and ('flush', 1) not in log[:end]:
                raise Violation('refused-open', 'delivery %d was refused after open, log %s' % (i, log), self.spec)
            if accepted and self.mode == 'task':
                closed = [w for w, _ in log[:submit] if w in ('flush', 'flushed', 'open')]
                if closed and closed[-1] == 'flushed':
                    raise Violation('accepted-closed', 'task %d was accepted after closing, log %s' % (i, log), self.spec)
            if accepted:
                for f in (0, 1):
                    if ('flush', f) in log and log.index(('flush', f)) > end and self.shape != 'nested':
                        if ('end', i) not in log[:log.index(('flushed', f))]:
                            raise Violation('flush-early', 'flush returned before delivery %d has ended, log %s' % (i, log),
                                            self.spec)


def specs(tier):
    deep_ = 1 if tier == 'thorough' else 0
    task_kinds = [k for k in OUTCOMES if not k.startswith('convert')]
    # all outcomes
    for mode, kinds in (('task', task_kinds), ('push', OUTCOMES)):
        for n in (1, 2, 3):
            for combo in itertools.product(kinds, repeat=n):
                if n == 3 and tier != 'thorough' and (mode == 'push' or 'base' in combo):
                    continue
                for shape in ('seq', 'par') if n < 3 else ('seq',):
                    bound = 1 if n == 3 or (n == 2 and mode == 'push') else 2
                    yield (mode, shape, combo), bound + deep_ + (mode == 'task' and shape == 'seq' and n == 2)
    chosen = [('ok', 'fail'), ('slow', 'ok'), ('fail', 'slow'), ('slow', 'slow-fail')]
    for combo in chosen:
        for shape in ('par', 'late', 'flush2', 'reopen', 'nested', 'seq'):
            yield ('task', shape, combo), 2 + deep_
        yield ('push', 'par', combo), 2 + deep_
        yield ('push', 'deep', combo), 1 + deep_
    for combo in [('ok', 'fail', 'ok'), ('slow', 'slow', 'fail'), ('slow', 'ok', 'slow', 'fail')]:
        yield ('task', 'two', combo), 2 + deep_
        yield ('task', 'late', combo), 1 + deep_
        yield ('push', 'two', combo), 1 + deep_
        yield ('push', 'late', combo), 1 + deep_
        yield ('push', 'reopen', combo), 1 + deep_
        yield ('task', 'nested', combo), 1 + deep_
    # many tasks are pending at the same time
    for n in (40, 300, 700):
        for mode in ('task', 'push'):
            for shape in ('seq', 'late', 'two'):
                yield (mode, shape, ('slow', 'slow') + ('ok', 'fail') * (n // 2 - 1)), 0
    yield ('task', 'par', ('ok',)), 3 + deep_
    yield ('task', 'late', ('fail',)), 3 + deep_


def units(tier):
    return sched.batches(specs(tier), {0: 1, 1: 8}, {2: 2, 3: 8, 4: 24})


def run_unit(unit, rec, tier):
    todo, part, parts = unit
    sched.instrument(MODULES)
    for spec, bound in todo:
        Explorer(lambda: Scenario(spec), bound, {}, part, parts)(rec)
