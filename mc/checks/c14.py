"""
C14: every history of start/shutdown calls (with trace functions set by the application before, between and after), every
assignment of failures to polls, deliveries, plugins and start, and schedules of shutdown with deliveries, polls and hits.
"""
import itertools
import sys
import threading

from deep.api.plugin import Plugin

from mc import env, host, sched, world
from mc.core import Violation
from mc.host import PAUSED_LINE
from mc.sched import Explorer
from mc.world import World, no_change

world.no_builtin_plugins()

MODULES = ['deep.api.deep', 'deep.utils', 'deep.task', 'deep.processor.trigger_handler']
BOUNDS = {
    'quick': 'all histories of 4 operations of 9 kinds x 4 kinds of earlier hooks x tracing on/off, all histories of 5 operations '
             'of 6 kinds; all assignments of failures (3 polls, 5 deliveries, 11 plugin sets, 4 start failures) in 4 histories; '
             'schedules with at most 1 deviation in 12 scenarios, 2 in chosen ones; of 2 to 3 threads that start, stop at the same time; '
             'up to some hundred plugins, hits, restarts and threads, deliveries of up to 20000 s',
    'thorough': 'histories of 6 operations, one deviation more',
}
RULE = 'a history is the sequence of operations with the configuration and the failures; judged after each operation'
FILE = 'one.py'


class Interrupted(BaseException):
    pass


class RpcError(Exception):
    pass


def hook_a(frame, event, arg):
    return None


def hook_b(frame, event, arg):
    return hook_b


def hook_c(frame, event, arg):
    return None


HOOKS = {'A': hook_a, 'B': hook_b, '0': None, 'C': hook_c}
SHUTDOWNS = []
BUILT = []


class Base(Plugin):
    error = None

    def __init__(self, config=None):
        super().__init__('plugin-' + type(self).__name__, config)
        BUILT.append(type(self).__name__)

    def shutdown(self):
        SHUTDOWNS.append(type(self).__name__)
        if self.error is not None:
            raise self.error


class P1(Base):
    pass


class P2(Base):
    pass


class Bad(Base):
    error = ValueError('shutdown fails')


class Worse(Base):
    error = Interrupted('shutdown fails')


class Exit(Base):
    error = SystemExit(3)


class Lost(Base):
    @property
    def shutdown(self):
        raise ValueError('no shutdown')


class LostBase(Base):
    @property
    def shutdown(self):
        raise Interrupted('no shutdown')


class Duck:
    """A plugin that only has what the loader needs."""

    name = 'duck'

    def __init__(self, config=None):
        BUILT.append('Duck')

    def is_active(self):
        return True

    def order(self):
        return 0


SILENT = ('Lost', 'LostBase', 'Duck')    # these cannot be shut down


def plugin_names(names):
    return ['mc.checks.c14.' + n for n in names]


def noop():
    return 1


class Scenario:
    """A history: config (dict) and ops."""

    def __init__(self, spec):
        self.spec = spec
        self.config, self.ops = dict(spec[0]), spec[1]
        self.name = 'C14 %s' % (spec,)
        del SHUTDOWNS[:]
        del BUILT[:]
        c = self.config
        values = {'POLL_TIMER': 10, 'PLUGINS': plugin_names(c.get('plugins', ()))}
        if 'no_trace' in c:
            values['NO_TRACE'] = c['no_trace']
        else:
            values['NO_TRACE'] = None
            self.remove = True
        if c.get('start') == 'url':
            def url():
                raise ValueError('no url')
            values['SERVICE_URL'] = url
        elif c.get('start') == 'url-base':
            def url():
                raise Interrupted('no url')
            values['SERVICE_URL'] = url
        elif c.get('start') == 'timer':
            def timer():
                raise Interrupted('no timer')
            values['POLL_TIMER'] = timer
        elif c.get('start') == 'plugins':
            values['PLUGINS'] = 5
        if values['NO_TRACE'] is None:
            values['NO_TRACE'] = False
        self.world = None
        try:
            self.world = World(values, self.service)
        except BaseException:
            # it cannot even be created
            pass
        self.tracing = not (str(values['NO_TRACE']).lower() in ('true', 'yes', 'y', 't', '1'))
        self.errors = []
        self.stopped_at = None
        self.after_stop = []
        self.n_sent = 0
        self.app_threads = []
        if self.world:
            self.world.on_send = self.on_send
        self.running = False
        self.installed = None      # (sys, threading) hooks found at start
        self.replaced = False      # the application has replaced the hook of the agent
        self.expected = 0
        self.stops = 0

    def state(self):
        return self.running, len(SHUTDOWNS), self.n_sent

    # --- the service

    def service(self, number, request):
        if self.stopped_at is not None:
            self.after_stop.append('poll')
        poll = self.config.get('poll')
        if poll == 'rpc':
            raise RpcError('unavailable')
        if poll == 'base':
            raise Interrupted('poll')
        if poll == 'slow':
            sched.sleep(25)
        return no_change()

    def on_send(self, snapshot):
        if self.stopped_at is not None:
            self.after_stop.append('send')
        send = self.config.get('send')
        n = self.n_sent
        self.n_sent += 1
        if send == 'mix':
            send = ('rpc', None, 'base', 'slow')[n % 4]
        if send == 'slow':
            sched.sleep(25)
        if send == 'glacial':
            sched.sleep(20_000)
        if send == 'rpc':
            raise RpcError('unavailable')
        if send == 'base':
            raise Interrupted('send')
        self.done = n

    # --- operations

    def fail(self, key, detail):
        raise Violation(key, '%s | config %s ops %s' % (detail, self.config, self.ops), self.spec)

    def hooks(self):
        return sys.gettrace(), threading.gettrace()

    def in_thread(self, fn):
        result = []

        def run():
            before = sys.gettrace()
            fn()
            result.append((before, sys.gettrace()))
        t = threading.Thread(target=run, name='other')
        t.start()
        t.join()
        return result[0] if result else None

    def op(self, op):
        deep = self.world.deep
        if op == 'start':
            before = self.hooks()
            polls, built = len(self.world.polls), len(BUILT)
            was = self.running
            failed = False
            self.stopped_at = None
            try:
                deep.start()
            except (sched.Kill, Violation):
                raise
            except BaseException as e:
                failed = True
                if 'start' not in self.config:
                    self.fail('start-fails', 'start raised %r' % (e,))
            if 'start' in self.config:
                # does not have to start: but if it did not, nothing is left behind
                if failed:
                    if self.hooks() != before:
                        self.fail('start-leaves-hooks', 'the failed start left the hooks %s' % (self.hooks(),))
                    return
                self.installed = self.installed if was else before
                self.running = True
                return
            sched.settle()
            if was:
                if self.hooks() != before:
                    self.fail('restart-hooks', 'a repeated start changed the hooks to %s' % (self.hooks(),))
                if len(BUILT) != built or len(self.world.polls) != polls:
                    self.fail('restart', 'a repeated start has loaded plugins or polled')
                return
            self.running, self.installed, self.replaced = True, before, False
            if not self.tracing:
                if self.hooks() != before:
                    self.fail('no-trace', 'hooks after start with tracing disabled: %s' % (self.hooks(),))
            elif self.hooks()[0] in HOOKS.values() or self.hooks()[1] in HOOKS.values():
                self.fail('not-installed', 'hooks after start: %s' % (self.hooks(),))
        elif op in ('stop', 'xstop'):
            before = self.hooks()
            shutdowns = len(SHUTDOWNS)
            was = self.running
            if op == 'stop':
                self.stop(deep)
            else:
                other = self.in_thread(lambda: self.stop(deep))
                if other is None:
                    self.fail('stop-fails', 'shutdown in another thread failed')
            if not was:
                if self.hooks() != before:
                    self.fail('stop-hooks', 'shutdown without start changed the hooks to %s' % (self.hooks(),))
                if len(SHUTDOWNS) != shutdowns:
                    self.fail('stop-plugins', 'shutdown without start did shut plugins down')
                return
            self.running = False
            self.stops += 1
            self.stopped_at = env.clock.now_ns
            if op == 'xstop':
                # other threads put the hook back on the next event
                noop()
                noop()
            now = self.hooks()
            wanted = self.installed if self.tracing else before
            if not self.tracing and now != before:
                self.fail('no-trace', 'hooks after shutdown with tracing disabled: %s, before %s' % (now, before))
            if now[1] is not wanted[1]:
                self.fail('restore-threading', 'threading hook after shutdown is %s, before start it was %s' % (
                    now[1], wanted[1]))
            if now[0] is not wanted[0] and not (op == 'xstop' and self.replaced):
                self.fail('restore-sys', 'trace function after shutdown is %s, before start it was %s' % (now[0], wanted[0]))
            if sorted(SHUTDOWNS[shutdowns:]) != sorted(p for p in self.config.get('plugins', ()) if p not in SILENT):
                self.fail('plugins', 'plugins shut down: %s of %s' % (SHUTDOWNS[shutdowns:], self.config.get('plugins')))
            if deep.started:
                self.fail('started', 'still started')
            sched.settle()
            tasks = sched.current()[0].tasks
            alive = [n for n in {n for _, _, n in self.world.polls} if n >= 0 and not tasks[n].main and not tasks[n].done]
            if alive:
                self.fail('polling', 'the thread that polls is alive after shutdown')
            self.check_threads()
        elif op[0] == 'h' and op != 'hit':
            # the application sets its own hooks
            if self.running:
                self.replaced = True
            sys.settrace(HOOKS[op[1]])
            threading.settrace(HOOKS[op[2]])
        elif op == 'hit':
            sched.settle()
            if self.running and self.tracing and not self.replaced:
                self.expected += 1
            host.paused([('v', 1)], lambda frame: None, filename=FILE)
        elif op == 'thread':
            # an application thread that lives on
            self.app_thread()
        elif op == 'wait':
            sched.sleep(10.5)
        elif op == 'settle':
            sched.settle()
        else:
            raise ValueError(op)

    def stop(self, deep):
        try:
            deep.shutdown()
        except (sched.Kill, Violation):
            raise
        except BaseException as e:
            self.errors.append(('stop-fails', 'shutdown raised %r' % (e,)))
        self.stopped_at = env.clock.now_ns
        # what was accepted is delivered
        if self.n_sent < self.expected:
            self.errors.append(('drain', '%d of %d snapshots are delivered at the end of shutdown' % (
                self.n_sent, self.expected)))

    def app_thread(self):
        state = {'go': False, 'hits': 0, 'end': False, 'traced': self.running and self.tracing and not self.replaced,
                 'hook': threading.gettrace()}

        def run():
            while not state['end']:
                sched.wait_until(lambda: state['go'])
                state['go'] = False
                noop()
                host.paused([('v', 1)], lambda frame: None, filename=FILE)
                state['now'] = sys.gettrace()
                state['hits'] += 1
        t = threading.Thread(target=run, name='app')
        t.start()
        self.app_threads.append(state)
        if state['traced']:
            self.expected += 1
        self.go(state)

    @staticmethod
    def go(state):
        hits = state['hits']
        state['go'] = True
        sched.wait_until(lambda: state['hits'] > hits)

    def check_threads(self):
        for state in self.app_threads:
            if state['traced']:
                self.go(state)
                state['traced'] = False
                if state['now'] is not None and state['now'] is not self.installed[1]:
                    self.fail('restore-thread', 'the trace function of a thread after shutdown is %s' % (state['now'],))

    def register(self):
        self.world.deep.register_tracepoint(FILE, PAUSED_LINE, dict(world.ALWAYS), ["'reg'"])
        sched.settle()

    def main(self):
        self.register()
        prior = self.config.get('prior', '00')
        sys.settrace(HOOKS[prior[0]])
        threading.settrace(HOOKS[prior[1]])
        try:
            for op in self.ops:
                self.op(op)
                if self.errors:
                    self.fail(*self.errors[0])
            # nothing happens any more
            if not self.running:
                n = len(self.world.polls), self.world.sent[:]
                sched.sleep(35)
                host.paused([('v', 1)], lambda frame: None, filename=FILE)
                for state in self.app_threads:
                    self.go(state)
                sched.settle()
                if (len(self.world.polls), self.world.sent) != n:
                    self.fail('after-stop', 'after shutdown: %d polls, sent %s; before: %s' % (
                        len(self.world.polls), self.world.sent, n))
            else:
                sched.settle()
            if len(self.world.sent) != self.expected and self.config.get('send') != 'slow':
                self.fail('collected', '%d hits were delivered, expected %d' % (len(self.world.sent), self.expected))
        finally:
            sys.settrace(None)
            threading.settrace(None)

    def tasks(self, run):
        if self.world is None:
            return [('main', noop)]
        return [('main', self.main)]

    def judge(self, run, status):
        threading.settrace(None)
        for t in run.tasks:
            if t.main and isinstance(t.error, Violation):
                raise t.error
        if status != 'finished':
            self.fail('not-settled', 'the run ended as %s' % status)
        for t in run.tasks:
            if t.error is not None and t.name != 'other':
                self.fail('thread-error', 'error in thread %s: %r' % (t.name, t.error))


class Concurrent(Scenario):
    """Application threads that hit tracepoints, while the main one stops the agent."""

    def tasks(self, run):
        hits = self.config.get('hits', 2)
        self.accepted = 0

        def app():
            sched.wait_until(lambda: self.ready)
            for _ in range(hits):
                self.world.hit(FILE)

        def main():
            run.quiet = True
            self.register()
            sys.settrace(HOOKS[self.config.get('prior', '00')[0]])
            try:
                self.op('start')
                push = self.world.deep.push
                submit = push.push_snapshot

                def count(snapshot):
                    submit(snapshot)
                    self.accepted += 1
                push.push_snapshot = count
                run.quiet = False
                self.ready = True
                for op in self.ops:
                    self.op(op)
                run.quiet = True
                sched.sleep(35)
                sched.settle()
            finally:
                sys.settrace(None)
        self.ready = False
        return [('main', main)] + [('app%d' % i, app) for i in range(self.config.get('apps', 1))]

    def judge(self, run, status):
        super().judge(run, status)
        if self.errors:
            self.fail(*self.errors[0])
        if self.after_stop:
            self.fail('after-stop', 'after shutdown the agent did: %s' % self.after_stop)
        ids = [i for i, _, _ in self.world.sent]
        if len(set(ids)) != len(ids):
            self.fail('twice', 'sent twice: %s' % (self.world.sent,))
        if len(ids) < self.accepted:
            self.fail('lost', '%d accepted, %d sent' % (self.accepted, len(ids)))


class Together(Scenario):
    """Several threads start the agent at the same time, and later stop it at the same time: as if one of them did."""

    def meet(self, deep, what, n):
        state = {'go': False, 'ended': 0}
        hooks = []

        def one():
            sched.wait_until(lambda: state['go'])
            try:
                getattr(deep, what)()
            except (sched.Kill, Violation):
                raise
            except BaseException as e:
                self.errors.append((what + '-fails', '%s raised %r' % (what, e)))
            noop()
            noop()
            hooks.append(sys.gettrace())
            state['ended'] += 1
        for _ in range(n - 1):
            threading.Thread(target=one, name='other').start()
        state['go'] = True
        one()
        sched.wait_until(lambda: state['ended'] == n)
        return hooks

    def pollers(self):
        tasks = sched.current()[0].tasks
        return {n for _, _, n in self.world.polls if n >= 0 and not tasks[n].main and not tasks[n].done}

    def main(self):
        run = sched.current()[0]
        run.quiet = True
        self.register()
        prior = self.config.get('prior', '00')
        sys.settrace(HOOKS[prior[0]])
        threading.settrace(HOOKS[prior[1]])
        before = self.hooks()
        plugins = list(self.config.get('plugins', ()))
        deep = self.world.deep
        try:
            for op in self.ops:
                del BUILT[:], SHUTDOWNS[:]
                shared, polls = op != 'stops', len(self.world.polls)
                run.quiet = not shared
                if shared:
                    self.meet(deep, 'start', self.config.get('n', 2))
                    run.quiet = True
                else:
                    deep.start()
                sched.settle()
                if BUILT != plugins:
                    self.fail('started-twice', 'plugins %s were loaded by starts at the same time' % BUILT)
                if len(self.world.polls) != polls + 1:
                    self.fail('started-twice', '%d polls after starts at the same time' % (len(self.world.polls) - polls))
                if self.hooks()[1] is before[1]:
                    self.fail('not-installed', 'hooks after start: %s' % (self.hooks(),))
                sched.sleep(10.5)
                sched.settle()
                if len(self.world.polls) != polls + 2:
                    self.fail('polls-twice', '%d polls after one interval' % (len(self.world.polls) - polls))
                self.expected += 1
                in_thread = []

                def hit():
                    host.paused([('v', 1)], lambda frame: None, filename=FILE)
                    in_thread.append(1)
                threading.Thread(target=hit, name='other').start()
                sched.wait_until(lambda: in_thread)
                if op == 'starts':
                    deep.shutdown()
                else:
                    run.quiet = False
                    self.meet(deep, 'shutdown', self.config.get('n', 2))
                    run.quiet = True
                noop()
                noop()
                if sorted(SHUTDOWNS) != sorted(plugins):
                    self.fail('plugins', 'shutdowns at the same time did shut down %s' % SHUTDOWNS)
                if threading.gettrace() is not before[1]:
                    self.fail('restore-threading', 'the threading hook is %s, it was %s' % (threading.gettrace(), before[1]))
                if sys.gettrace() is not None and sys.gettrace() is not before[0]:
                    self.fail('restore-sys', 'the trace function is %s, it was %s' % (sys.gettrace(), before[0]))
                sys.settrace(HOOKS[prior[0]])
                n = len(self.world.polls)
                sched.settle()
                if self.errors:
                    self.fail(*self.errors[0])
                if len(self.world.sent) != self.expected:
                    self.fail('collected', '%d hits were delivered, expected %d' % (len(self.world.sent), self.expected))
                if self.pollers():
                    self.fail('polling', 'the thread that polls is alive after shutdown')
                sched.sleep(25)
                if len(self.world.polls) != n:
                    self.fail('after-stop', '%d polls after shutdown' % (len(self.world.polls) - n))
        finally:
            sys.settrace(None)
            threading.settrace(None)


# --- what is explored

OPS9 = ['start', 'stop', 'xstop', 'hAB', 'h00', 'hB0', 'hit', 'thread', 'wait']
OPS6 = ['start', 'stop', 'hAB', 'h0C', 'hit', 'thread']
PLUGINS = [(), ('P1',), ('Bad',), ('P1', 'Bad', 'P2'), ('Bad', 'Worse', 'P1'), ('Worse', 'P1', 'Exit', 'P2'),
           ('Exit', 'Bad'), ('Worse', 'Exit', 'Bad', 'P2', 'P1'), ('Lost',),
           ('P1', 'Duck', 'P2'), ('Bad', 'LostBase', 'P1')]
NO_TRACE = [True, 'true', 'True', 'YES', '1', 'y', False, 'false', 'no', '0']
FAULT_OPS = [('start', 'hit', 'hit', 'stop', 'hit', 'stop'),
             ('start', 'start', 'hit', 'wait', 'thread', 'stop', 'start', 'hit', 'stop'),
             ('start', 'thread', 'hit', 'hit', 'hit', 'xstop', 'thread', 'start', 'hit', 'xstop'),
             ('start', 'wait', 'hit', 'wait', 'hit', 'hit', 'hit', 'stop', 'stop')]


def interesting(ops):
    return 'start' in ops and ops[0] not in ('stop', 'xstop', 'hit', 'thread', 'wait')


def key(**kw):
    return tuple(sorted(kw.items()))


def histories(tier):
    depth = 6 if tier == 'thorough' else 5
    for prior in ('00', 'A0', '0B', 'AB'):
        for no_trace in (False, True):
            for ops in itertools.product(OPS9, repeat=4 if prior in ('00', 'AB') else 3):
                if interesting(ops):
                    yield key(prior=prior, no_trace=no_trace, plugins=('P1',)), ops
    for ops in itertools.product(OPS6, repeat=depth):
        if interesting(ops) and 'stop' in ops:
            yield key(prior='AB', plugins=('P1',)), ops
    for no_trace in NO_TRACE:
        for prior in ('00', 'AB'):
            for ops in [('start', 'hit', 'stop'), ('start', 'hBA', 'hit', 'stop', 'hit'), ('start', 'start', 'stop', 'stop'),
                        ('start', 'thread', 'stop', 'start', 'stop')]:
                yield key(prior=prior, no_trace=no_trace), ops
    for ops in [('stop',), ('stop', 'start', 'stop'), ('stop', 'stop', 'start', 'hit', 'stop'), ('hAB', 'stop', 'start')]:
        yield key(prior='AB'), ops


def faults(tier):
    for ops in FAULT_OPS:
        for poll in (None, 'rpc', 'base', 'slow'):
            for send in (None, 'rpc', 'base', 'slow', 'mix'):
                for plugins in PLUGINS:
                    if poll and send and len(plugins) > 3 and tier != 'thorough':
                        continue
                    yield key(prior='AB' if len(plugins) % 2 else '00', poll=poll, send=send, plugins=plugins), ops
    # many of each, and sends that take hours
    many = ('P1', 'Bad', 'P2', 'Worse', 'Exit')
    for n in (2, 4, 7, 13, 26, 52):
        for send in (None, 'rpc', 'mix', 'slow'):
            yield key(prior='AB', plugins=many * n), ('start', 'hit', 'stop', 'start', 'hit', 'xstop')
            yield key(prior='AB', plugins=many[:2], send=send), ('start',) + ('hit',) * n * 5 + ('stop',)
            yield key(prior='A0', plugins=many[:1], send=send), ('start', 'hit', 'stop') * n
            yield key(prior='0B', plugins=many[:1], send=send), ('start',) * n + ('hit',) + ('stop',) * n + ('start', 'hit', 'xstop')
            yield key(prior='AB', plugins=many[:1], send=send), ('start',) + ('thread',) * n + ('hit', 'stop', 'hit')
    for hits in (1, 2, 3, 5):
        yield key(prior='AB', plugins=many, send='glacial'), ('start',) + ('hit',) * hits + ('stop', 'start', 'hit', 'stop')
        yield key(prior='A0', plugins=many, send='glacial'), ('start', 'wait') + ('hit',) * hits + ('xstop', 'wait')
    for start in ('url', 'url-base', 'timer', 'plugins'):
        for plugins in ((), ('P1', 'Bad')):
            yield key(prior='AB', start=start, plugins=plugins), ('start', 'stop', 'start', 'stop')


def schedules(tier):
    more = 1 if tier == 'thorough' else 0
    for send in (None, 'rpc', 'slow', 'mix'):
        for poll in (None, 'base'):
            yield (key(send=send, poll=poll, plugins=('P1', 'Bad'), prior='A0'), ('stop',)), 1 + more
    for ops in [('xstop',), ('wait', 'stop'), ('stop', 'stop'), ('stop', 'start', 'stop')]:
        yield (key(hits=1, prior='A0'), ops), 1 + more
    yield (key(hits=1, apps=2, send='mix'), ('stop',)), 1 + more
    yield (key(hits=1), ('stop',)), 2 + more


def together(tier):
    more = 1 if tier == 'thorough' else 0
    for prior in ('00', 'AB'):
        for ops in (('starts',), ('stops',), ('both', 'both')):
            yield (key(prior=prior, plugins=('P1', 'P2')), ops), 1 + more
    yield (key(prior='AB', plugins=('P1', 'Bad'), n=3), ('both',)), 1 + more
    yield (key(prior='AB', plugins=('P1',)), ('starts',)), 2 + more
    yield (key(prior='AB', plugins=('P1',)), ('stops',)), 2 + more


def units(tier):
    batch = []
    for kind, specs in (('history', histories(tier)), ('history', faults(tier))):
        for spec in specs:
            batch.append(spec)
            if len(batch) == 120:
                yield kind, batch
                batch = []
    yield 'history', batch
    for unit in sched.batches(schedules(tier), {1: 1}, {2: 8, 3: 32}):
        yield 'schedule', unit
    for unit in sched.batches(together(tier), {1: 1}, {2: 8, 3: 32}):
        yield 'together', unit


def run_unit(unit, rec, tier):
    if unit[0] == 'history':
        sched.clear()
        for spec in unit[1]:
            Explorer(lambda: Scenario(spec), 0)(rec)
            rec.state(spec)
    else:
        todo, part, parts = unit[1]
        sched.instrument(MODULES)
        for spec, bound in todo:
            kind = Together if unit[0] == 'together' else Concurrent
            Explorer(lambda: kind(spec), bound, {'timers': 0 if kind is Together else 1}, part, parts)(rec)
