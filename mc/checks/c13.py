"""
C13: every history of register/unregister calls (several registrations on one location), service updates and restarts, with the
collected data compared to a multiset model; schedules of threads that register and unregister at the same time.
"""
import itertools

from deep.api.resource import Resource
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition

from mc import env, plugins, sched, world
from mc.agent import SyncTasks
from mc.core import Violation
from mc.host import PAUSED_LINE
from mc.sched import Explorer
from mc.world import World, no_change, point_tp, update

world.no_builtin_plugins()

MODULES = ['deep.config.tracepoint_config', 'deep.api.deep', 'deep.processor.trigger_handler']
BOUNDS = {
    'quick': 'all histories of up to 5 operations over 7 kinds of registration (4 on one line), 2 service configurations, '
             'unregister of any handle (also again), hits and restart; all histories of 6 start, stop, register, unregister x 7 kinds of answers of the service; 12 concurrent scenarios with up to 3 threads and 2 '
             'deviations',
    'thorough': 'all histories of up to 6 operations, 3 deviations',
}
RULE = 'a history is the sequence of operations; every history is judged at its end, so every prefix is judged as well'

ALWAYS = dict(world.ALWAYS)
ONCE = {'fire_count': '1', 'fire_period': '0', 'frame_type': 'no_frame'}


def metric(name, label):
    return MetricDefinition(name=name, metric_type='COUNTER', labels=[LabelExpression('k', label, None)],
                            expression='5', namespace='ns', help_str='help', unit='unit')


# kind -> (file, args, watches, metrics); e: the same as a
KINDS = {
    'a': ('one.py', ALWAYS, ["'wa'"], []),
    'e': ('one.py', ALWAYS, ["'wa'"], []),
    'b': ('one.py', dict(ALWAYS, log_msg='log of b'), ["'wb'", 'v + 1'], []),
    'm': ('one.py', ALWAYS, [], [('metric_m', 'lm'), ('metric_m2', 'lm2')]),
    'c': ('two.py', ALWAYS, ["'wc'"], [('metric_c', 'lc')]),
    'o': ('one.py', ONCE, ["'wo'"], []),
    'n': ('two.py', None, None, None),
}
SERVICE = {
    'U': [point_tp('s-1', 'one.py', 'ws1'), point_tp('s-2', 'two.py', 'ws2')],
    'V': [point_tp('s-1', 'one.py', 'wa')],
}
SERVICE_MARKS = {'U': {'one.py': ['ws1'], 'two.py': ['ws2']}, 'V': {'one.py': ['wa'], 'two.py': []}, None: {}}


class Model:
    """What is registered: each registration is one tracepoint."""

    def __init__(self):
        self.service = None
        self.live = []
        self.handles = []

    def register(self, kind):
        reg = {'kind': kind, 'left': 1 if kind in 'on' else None}
        self.live.append(reg)
        self.handles.append(reg)

    def unregister(self, i):
        reg = self.handles[i]
        self.live = [r for r in self.live if r is not reg]

    def hit(self, file):
        out = []
        for mark in SERVICE_MARKS[self.service].get(file, ()):
            out.append((('watch', "'%s'" % mark, mark),))
        effects = []
        for reg in self.live:
            target, args, watches, metrics = KINDS[reg['kind']]
            if target != file:
                continue
            if reg['left'] == 0:
                continue
            if reg['left']:
                reg['left'] -= 1
            signature = [('watch', w, {'v + 1': '4'}.get(w, w.replace("'", ''))) for w in watches or ()]
            if args and 'log_msg' in args:
                effects.append(('log', '[deep] ' + args['log_msg']))
            for name, label in metrics or ():
                effects.append(('metric', 'counter', name, (('k', label),), 'ns', 'help', 'unit', 5.0))
            out.append(tuple(signature))
        return sorted(out), sorted(effects, key=repr)


class Histories:
    """Runs histories of operations on an agent whose tasks are done when they are submitted."""

    def __init__(self):
        self.sink = plugins.Sink()
        self.world = World()
        self.world.config.set_task_handler(SyncTasks())
        self.world.config.resource = Resource({'res': 'agent'})
        self.world.config.plugins = [plugins.Metrics(self.sink), plugins.Logger(self.sink)]
        self.handles = []
        self.given = []
        self.model = Model()

    def op(self, op):
        deep, model = self.world.deep, self.model
        if op in KINDS:
            file, args, watches, metrics = KINDS[op]
            if args is None:
                self.handles.append(deep.register_tracepoint(file, PAUSED_LINE))
            else:
                args = dict(args)
                self.handles.append(deep.register_tracepoint(file, PAUSED_LINE, args, list(watches),
                                                             [metric(*m) for m in metrics]))
            model.register(op)
        elif op[0] == '-':
            self.handles[int(op[1:])].unregister()
            model.unregister(int(op[1:]))
        elif op in SERVICE:
            from mc.agent import triggers
            self.world.config.tracepoints.update_new_config(1, 'h' + op, triggers(SERVICE[op]))
            model.service = op
        elif op == 'hit':
            return self.hit()
        return None

    def hit(self):
        out = []
        for file in world.FILES:
            self.sink.take()
            env.clock.now_ns += 10_000_000_000
            snapshots = self.snapshots(file)
            effects = []
            for call in self.sink.take():
                if call[0] == 'log':
                    effects.append(('log', call[3]))
                else:
                    kind, name, labels, namespace, help_string, unit, value = call[2:]
                    effects.append(('metric', kind, name, tuple(sorted(labels.items())), namespace, help_string, unit, value))
            got = (sorted(tuple(('watch', w.expression, self.value(s, w)) for w in s.watches) for s in snapshots),
                   sorted(effects, key=repr))
            want = self.model.hit(file)
            out.append((file, got, want))
            for s in snapshots:
                self.args(s)
        return out

    @staticmethod
    def value(snapshot, watch):
        if watch.result is None:
            return None
        return snapshot.var_lookup[watch.result.vid].value

    @staticmethod
    def args(snapshot):
        """The args of the snapshot are those given with its watches."""
        watches = tuple(w.expression for w in snapshot.watches)
        wanted = [args for _, args, given, _ in KINDS.values() if tuple(given or ()) == watches]
        wanted += [t['args'] for tps in SERVICE.values() for t in tps if tuple(t['watches']) == watches]
        for args in wanted:
            if all(snapshot.tracepoint.args.get(k) == v for k, v in (args or {}).items()):
                return
        raise Violation('args', 'a snapshot with the watches %s has the args %s' % (watches, snapshot.tracepoint.args))

    def snapshots(self, file):
        out = []
        push = self.world.deep.push
        push.push_snapshot = out.append
        self.world.hit(file, [('v', 3)])
        return out


def check(history, results):
    for file, got, want in results:
        if got != want:
            raise Violation('active', 'history %s: hit of %s: got %s, expected %s' % (list(history), file, got, want), history)


def enabled(history, restricted=False):
    n = sum(1 for op in history if op in KINDS)
    ops = list(KINDS) if not restricted else ['a', 'e', 'b', 'o']
    return ops + ['-%d' % i for i in range(n)] + (['U', 'V'] if not restricted else ['U']) + ['hit']


def run_history(history, rec):
    env.clock.reset()
    env.net.reset()
    h = Histories()
    for op in history:
        try:
            results = h.op(op)
        except Violation:
            raise
        except BaseException as e:
            raise Violation('op-fails', 'history %s: %s raised %r' % (list(history), op, e), history)
        rec.step()
        if results:
            check(history, results)
    check(history, h.hit())
    rec.state((h.model.service, [(r['kind'], r['left']) for r in h.model.live], len(h.handles)))
    rec.trace(lambda: 'history %s: %d tracepoints registered, service %s' % (list(history), len(h.model.live),
                                                                          h.model.service))


# --- schedules

class Scenario:
    """Threads that register and unregister at the same time."""

    def __init__(self, spec):
        self.spec = spec
        self.name = 'C13 %s' % (spec,)
        self.threads = spec
        self.world = World({}, self.service)
        self.handles = {}
        self.expected = []
        self.errors = []
        self.updates = 0
        self.started = False

    def service(self, number, request):
        return update(SERVICE['U'], 'hU') if number % 2 == 0 else update(SERVICE['V'], 'hV')

    def state(self):
        return len(self.handles)

    def op(self, i, op):
        try:
            if op[0] == '+':
                file, args, watches, metrics = KINDS[op[1]]
                self.handles[op[1:]] = self.world.deep.register_tracepoint(file, PAUSED_LINE, dict(args), list(watches), [])
            elif op[0] == '-':
                sched.wait_until(lambda: op[1:] in self.handles)
                self.handles[op[1:]].unregister()
            elif op == 'poll':
                self.world.deep.poll.poll()
        except sched.Kill:
            raise
        except BaseException as e:
            self.errors.append((op, e))

    def tasks(self, run):
        def thread(i, ops):
            if i == 0:
                run.quiet = True
                self.world.deep.start()
                sched.settle()
                run.quiet = False
                self.started = True
            sched.wait_until(lambda: self.started)
            for op in ops:
                self.op(i, op)
        return [('t%d' % i, lambda i=i, ops=ops: thread(i, ops)) for i, ops in enumerate(self.threads)]

    def judge(self, run, status):
        if status != 'finished':
            raise Violation('not-settled', 'the run ended as: %s' % status, self.spec)
        for t in run.tasks:
            if t.error is not None:
                raise Violation('thread-error', 'error in thread %s: %r' % (t.name, t.error), self.spec)
        if self.errors:
            raise Violation('op-fails', 'errors %s' % self.errors, self.spec)
        removed = {op[1:] for ops in self.threads for op in ops if op[0] == '-'}
        live = [op[1:] for ops in self.threads for op in ops if op[0] == '+' and op[1:] not in removed]
        want = [KINDS[k[0]][2][0].replace("'", '') for k in live]
        want += [m for ms in SERVICE_MARKS['U' if len(self.world.polls) % 2 == 1 else 'V'].values() for m in ms]
        got = self.world.marks()
        if got != sorted(want):
            raise Violation('active', 'in force %s, expected %s' % (got, sorted(want)), self.spec)


SCHEDULES = [
    ((('+a1', '-a1'), ('+a2',)), 2), ((('+a1',), ('+a2',)), 2), ((('+a1', '-a1'), ('+e1', '-e1')), 2),
    ((('+a1', '-a1'), ('-a1',)), 2), ((('+a1', '+e2', '-a1'), ('poll',)), 1), ((('+a1', '-a1', '-a1'), ('+c1',)), 1),
    ((('+a1',), ('+a2', '-a2'), ('poll',)), 1), ((('+a1', '+a2'), ('-a1',), ('-a2',)), 1),
    ((('poll', 'poll'), ('+a1', '-a1')), 1), ((('+a1', '+a2', '-a1'), ('-a2', '+a3')), 1),
    ((('+o1',), ('+o2', '-o1')), 1), ((('+a1', '-a1'), ('poll', '+a2')), 1),
]


def units(tier):
    depth = 5 if tier != 'thorough' else 6
    yield ('histories', (), 1)
    for a in enabled(()):
        for b in enabled((a,)):
            yield ('histories', (a, b), depth)
    more = 1 if tier == 'thorough' else 0
    for unit in sched.batches([(s, b + more) for s, b in SCHEDULES], {1: 1}, {2: 6, 3: 24}):
        yield ('schedules', unit)
    for mode in MODES:
        yield 'restart', mode


def explore(history, depth, rec):
    run_history(history, rec)
    if len(history) < depth:
        # the longest histories are about what shares a location
        for op in enabled(history, restricted=len(history) >= 3):
            explore(history + (op,), depth, rec)


def run_unit(unit, rec, tier):
    if unit[0] == 'histories':
        explore(unit[1], unit[2], rec)
    elif unit[0] == 'restart':
        restarts(unit[1], rec, 7 if tier == 'thorough' else 6)
    else:
        todo, part, parts = unit[1]
        sched.instrument(MODULES)
        for spec, bound in todo:
            Explorer(lambda: Scenario(spec), bound, {}, part, parts)(rec)


RESTART_OPS = ['start', 'stop', '+', '-0', '-1']
MODES = {'update': 'U*', 'once': 'U', 'never': '', 'failing': 'F*', 'once, then failing': 'UF*', 'changes': 'UV*', 'removed': 'UE*'}


class Unavailable(Exception):
    pass


def restart_histories(depth):
    for n in range(1, depth + 1):
        for ops in itertools.product(RESTART_OPS, repeat=n):
            # only what makes a difference: handles are used after they are made, and starts and stops take turns
            made = 0
            running = False
            for op in ops:
                if op == '+':
                    made += 1
                elif op[0] == '-' and int(op[1]) >= made:
                    break
                elif op in ('start', 'stop'):
                    if running == (op == 'start'):
                        break
                    running = op == 'start'
            else:
                yield ops if running else ops + ('start',)


def restarts(mode, rec, depth):
    """Registrations before the start, between and after restarts, with the answers of the service to each poll."""
    script = MODES[mode]

    def kind_of(n):
        if n < len(script) and script[n] != '*':
            return script[n]
        return script[-2] if script.endswith('*') else 'same'

    for history in restart_histories(depth):
        env.clock.reset()
        env.net.reset()
        state = {'service': [], 'hash': None, 'wrong': None}

        def service(number, request):
            if (request.current_hash or None) != state['hash']:
                state['wrong'] = 'poll %d reports the hash %r, expected %r' % (number, request.current_hash, state['hash'])
            kind = kind_of(number)
            if kind == 'F':
                raise Unavailable()
            if kind == 'same':
                return no_change()
            state['service'], state['hash'] = {'U': ['ws1', 'ws2'], 'V': ['ws1'], 'E': []}[kind], 'h' + kind
            return update(SERVICE['U'][:len(state['service'])], 'h' + kind)
        w = World({}, service)
        handles = []
        live = []

        def main():
            for op in history:
                if op == 'start':
                    w.deep.start()
                elif op == 'stop':
                    w.deep.shutdown()
                elif op == '+':
                    mark = 'registered%d' % len(handles)
                    handles.append(w.deep.register_tracepoint('one.py', PAUSED_LINE, dict(ALWAYS), ["'%s'" % mark], []))
                    live.append((len(handles) - 1, mark))
                else:
                    handles[int(op[1])].unregister()
                    live[:] = [entry for entry in live if entry[0] != int(op[1])]
                sched.settle()
            return w.marks_with('v')
        got = world.in_run(main)
        want = sorted([mark for _, mark in live] + state['service'])
        rec.step(len(history))
        rec.trace(lambda: 'restart history %s %s' % (mode, history))
        rec.state((mode, tuple(want), len(w.polls)))
        if state['wrong']:
            raise Violation('hash', state['wrong'], (mode, history))
        if got != want:
            raise Violation('active', 'service %s, history %s: in force %s, expected %s' % (mode, history, got, want), history)
