"""
C12: every history of poll answers and register/unregister calls, and every schedule (up to a bound of deviations) of the
threads that apply them. The reference is the last configuration of the service plus what is registered in code.
"""
import itertools

from deepproto.proto.poll.v1.poll_pb2 import ResponseType

from mc import env, sched, world
from mc.agent import tp
from mc.core import Violation
from mc.sched import Explorer
from mc.world import World, no_change, point_tp, update

world.no_builtin_plugins()

MODULES = ['deep.config.tracepoint_config', 'deep.processor.trigger_handler']
BOUNDS = {
    'quick': 'all histories of up to 3 poll answers of 12 kinds (4 of 5 kinds) with the real timer, '
             'of 3 answers of 9 kinds with equal or missing hashes, of 5 kinds with 7 courses of the time of the service, 210 tracepoints, 120 registrations, histories of 120 answers, all pairs of answers x '
             '3 register histories with at most 1 deviation, chosen ones with 2 (or 2 preemptions and 1 other choice); 2 workers, up to 3 application threads',
    'thorough': 'histories of up to 5 answers, one deviation more',
}
RULE = ('a history is the sequence of poll answers and register/unregister calls; a schedule is the sequence of choices at '
        'scheduling points (accesses of shared state in the config, task, poll and handler modules, locks, thread start/join)')


class RpcError(Exception):
    pass


class Interrupted(BaseException):
    pass


CONFIGS = {
    'A': [point_tp('id-1', 'one.py', 'A1'), point_tp('id-2', 'two.py', 'A2')],
    'B': [point_tp('id-3', 'one.py', 'B3')],
    'C': [point_tp('id-1', 'two.py', 'C1')],          # an id of A, changed
    'D': [point_tp('id-1', 'one.py', 'A1'), point_tp('id-4', 'one.py', 'D4')],   # keeps a tracepoint of A
    'E': [],
}
# many tracepoints, of which 140 are at the places that are looked at
MANY = [point_tp('id-%d' % i, ('one.py', 'two.py', 'other-%d.py' % i)[i % 3], 'L%d' % i) for i in range(210)]
CONFIGS['L'] = MANY
CONFIGS['M'] = MANY[::-1][:150]
SEEN = {'L': [i for i in range(210) if i % 3 != 2], 'M': [i for i in range(60, 210) if i % 3 != 2]}
REGISTERED = {'r': ('one.py', 'R1'), 's': ('two.py', 'S1'), 't': ('one.py', 'T1')}
FAILURES = ['rpc', 'base', 'garbage', 'unknown', 'stop', 'badtext', 'noresponse']
# configurations that the service sends with one and the same hash (=), or without one (0)
HASHES = {'=': 'hash-fixed', '0': ''}
ANSWERS = ['A', 'B', 'C', 'E', 'same', 'same+', 'rpc', 'base', 'garbage', 'unknown', 'badtp', 'D']


def hash_of(kind):
    return HASHES[kind[1]] if len(kind) == 2 else 'hash-' + kind


# the times that the service sends: its clock can be set back, or differ from ours
TIMES = {'equal': lambda i: 1, 'none': lambda i: 0, 'back': lambda i: 10 ** 18 - i * 10 ** 9, 'forth': lambda i: 10 ** 18 + i,
         'zigzag': lambda i: 10 ** 18 + (-1) ** i * 10 ** 12, 'late': lambda i: (1 << 63) - 1 - i % 2,
         'first': lambda i: 5 if i else 2 * 10 ** 18}


def answer(kind, ts=1):
    """The answer of the service; raises for a failed call."""
    if kind[0] in CONFIGS:
        return update(CONFIGS[kind[0]], hash_of(kind), ts)
    if kind == 'same':
        return no_change(ts=ts)
    if kind == 'same+':
        # only says that nothing has changed
        return no_change(CONFIGS['B'], 'hash-other', ts)
    if kind == 'rpc':
        raise RpcError('unavailable')
    if kind == 'base':
        raise Interrupted('interrupted')
    if kind == 'garbage':
        return b'\xff\xff\xffnot a message'
    if kind == 'unknown':
        return world.response(7, CONFIGS['B'], 'hash-unknown', ts)
    if kind == 'badtp':
        # one of the tracepoints makes no sense, the others are good
        return update([tp('bad', 'one.py', -1, {'stage': 'nope', 'span': 'nope', 'fire_count': 'x'}), *CONFIGS['B']],
                      'hash-badtp', ts)
    raise ValueError(kind)


def marks_of(kind):
    if kind[0] in SEEN:
        return ['L%d' % i for i in SEEN[kind[0]]]
    return [t['watches'][0].replace("'", '') for t in CONFIGS['B' if kind == 'badtp' else kind[0]]]


class Scenario:
    def __init__(self, spec):
        self.spec = spec
        self.shape, self.answers, self.ops, self.times = spec if len(spec) == 4 else (*spec, 'equal')
        self.name = 'C12 %s' % (spec,)
        self.problems = []
        self.good = [None]            # hash of the good configuration, after each answer
        self.installed = []
        self.registered = {}
        self.world = World({'POLL_TIMER': 10} if self.shape == 'timer' else {}, self.service)
        self.started = False
        self.ended = 0
        self.answered = 0

    def state(self):
        return self.answered, tuple(sorted(self.registered))

    def service(self, number, request):
        kind = self.answers[number] if number < len(self.answers) else 'same'
        expected = self.good[-1]
        if (request.current_hash or None) != (expected or None):
            self.problems.append(('reported-hash', 'poll %d reports the hash %r, the last configuration received is %r' % (
                number, request.current_hash, expected)))
        if kind[0] in CONFIGS or kind == 'badtp':
            self.good.append(hash_of(kind))
            self.installed = marks_of(kind)
        self.answered += 1
        return answer(kind, TIMES[self.times](number))

    def poll(self):
        try:
            self.world.deep.poll.poll()
        except sched.Kill:
            raise
        except BaseException:
            pass

    def op(self, name):
        key = name[0]
        if key == 'm':
            # many at once
            for i in range(120):
                REGISTERED.setdefault('m%d' % i, (('one.py', 'two.py')[i % 2], 'm%d' % i))
                if name == 'm':
                    file, mark = REGISTERED['m%d' % i]
                    self.registered['m%d' % i] = self.world.deep.register_tracepoint(
                        file, world.host.PAUSED_LINE, dict(world.ALWAYS), ["'%s'" % mark])
                elif i % 7:
                    self.registered.pop('m%d' % i).unregister()
        elif len(name) == 1:
            file, mark = REGISTERED[key]
            handle = self.world.deep.register_tracepoint(file, world.host.PAUSED_LINE,
                                                         dict(world.ALWAYS), ["'%s'" % mark])
            self.registered[key] = handle
        else:
            self.registered.pop(key).unregister()

    def expected(self):
        return sorted(self.installed + [REGISTERED[k][1] for k in self.registered])

    def start(self):
        run = sched.current()[0]
        if self.shape == 'par':
            # start is sequential, what follows is not
            run.quiet = True
            self.world.deep.start()
            sched.settle()
            run.quiet = False
        else:
            self.world.deep.start()
        self.started = True

    def tasks(self, run):
        ops = self.ops
        if self.shape == 'timer':
            # the first poll is done at start, the others by the timer
            def main():
                self.start()
                for i in range(1, len(self.answers) + 1):
                    for name in ops[i - 1] if i <= len(ops) else ():
                        self.op(name)
                    sched.sleep(10 if i > 1 else 10.5)
                    sched.settle()
                    if len(self.world.polls) < i + 1:
                        self.problems.append(('polling-stops', '%d polls after %d intervals' % (len(self.world.polls), i)))
                    self.check('settled %d' % i)
            return [('main', main)]

        # the answers are fetched one after the other, while other threads register
        def poller():
            self.start()
            for _ in range(len(self.answers) - 1):
                self.poll()

        def app(names):
            sched.wait_until(lambda: self.started)
            for name in names:
                self.op(name)
        if self.shape == 'one':
            return [('poll', lambda: (poller(), [self.op(n) for part in ops for n in part]))]
        return [('poll', poller)] + [('app%d' % i, lambda part=part: app(part)) for i, part in enumerate(ops)]

    def check(self, when):
        marks = self.world.marks()
        if marks != self.expected():
            raise Violation('installed', '%s: in force %s, expected %s' % (when, marks, self.expected()), self.spec)

    def judge(self, run, status):
        if status != 'finished':
            raise Violation('not-settled', 'the run ended as: %s' % status, self.spec)
        for t in run.tasks:
            if t.error is not None:
                if isinstance(t.error, Violation):
                    raise t.error
                raise Violation('thread-error', 'error in thread %s: %r' % (t.name, t.error), self.spec)
        for key, detail in self.problems:
            raise Violation(key, detail, self.spec)
        if self.answered < len(self.answers):
            raise Violation('polling-stops', 'only %d of %d polls' % (self.answered, len(self.answers)), self.spec)
        self.check('at the end')
        # the hash of the next poll
        run, sched.RUN = sched.RUN, None
        try:
            self.poll()
        finally:
            sched.RUN = run
        for key, detail in self.problems:
            raise Violation(key, detail, self.spec)
        self.check('after no change')


def specs(tier):
    more = 1 if tier == 'thorough' else 0
    # histories, driven by the real timer
    for n in range(1, 5 + more):
        for answers in itertools.product(ANSWERS if n < 4 else ['A', 'B', 'same', 'rpc', 'garbage'], repeat=n):
            yield ('timer', answers, (('r',), ('s', 'r-'))[:n % 3]), 0
    for n in (2, 3):
        for answers in itertools.product(['A=', 'B=', 'C=', 'A0', 'B0', 'E=', 'A', 'same', 'rpc'], repeat=n):
            if any(len(a) == 2 for a in answers):
                yield ('timer', answers, (('r',), ('s', 'r-'))[:n % 3]), 0
    for times in TIMES:
        for n in (2, 3):
            for answers in itertools.product(['A', 'B', 'D', 'same', 'rpc'], repeat=n):
                yield ('timer', answers, (('r',), ('s', 'r-'))[:n % 3], times), 0
    # many tracepoints, and long histories
    for answers in itertools.product(['L', 'M', 'A', 'same'], repeat=2):
        for ops in ((), (('m',),), (('m',), ('m-',)), (('m', 'm-'),)):
            yield ('timer', answers, ops), 0
    for kind in FAILURES[:3] + ['unknown', 'same', 'same+', 'badtp', 'A', 'E']:
        for n in (10, 40, 120):
            yield ('timer', ('A',) + (kind,) * n + ('B',), (('r',), ('s', 'r-'))), 0
            yield ('timer', ('A',) + (kind, 'B') * (n // 2) + ('same',), (('r',), ('s', 'r-'))), 0
    # schedules
    registers = [((),), (('r',),), (('r', 'r-'),), (('r', 's', 'r-'),)]
    for answers in itertools.product(['A', 'B', 'D', 'E', 'same+', 'rpc'], repeat=2):
        for ops in registers[:3 + more]:
            yield ('par', answers, ops), 1 + more
    for answers in [('A', 'B', 'C'), ('A', 'B', 'A'), ('A', 'rpc', 'B'), ('A', 'E', 'same+'), ('E', 'A', 'garbage'),
                    ('A', 'unknown', 'B'), ('B', 'base', 'A')]:
        for ops in registers[:3]:
            yield ('par', answers, ops), 1 + more
        yield ('one', answers, registers[3]), 1 + more
    for answers in [('A',), ('A', 'B')]:
        yield ('par', answers, (('r',), ('s',))), 1 + more
        yield ('par', answers, (('r', 'r-'), ('s',))), 1 + more
    for spec in [('par', ('A', 'B', 'C'), ((),)), ('par', ('A', 'B'), (('r',),)), ('par', ('A',), (('r', 'r-'),)),
                 ('par', ('A', 'B'), ((),))]:
        yield spec, (2 + more, 1)
    for spec in [('par', ('A',), (('r',), ('s',))), ('par', ('A', 'B'), (('r', 'r-'),)), ('par', ('A', 'E', 'D'), (('r',),))]:
        yield spec, 2 + more


def units(tier):
    return sched.batches(specs(tier), {0: 60, 1: 3}, {2: 8, (2, 1): 24, 3: 48, (3, 1): 96})


def run_unit(unit, rec, tier):
    todo, part, parts = unit
    sched.instrument(MODULES)
    for spec, bound in todo:
        Explorer(lambda: Scenario(spec), bound, {'points': 1_000_000} if bound == 0 else {}, part, parts)(rec)
