"""
C15: programs with span and capture tracepoints on their lines and functions are executed under the real trace hook, while a
monitor on the same hook judges every opening and completion; the threads of such programs are interleaved at every event.
"""
import _thread
import itertools
import sys
import threading

from mc import core, env, host, otelspans, plugins, sched, world
from mc.agent import Agent, tp
from mc.core import Violation
from mc.sched import Explorer

FILE = '/app-root-of-the-check/host.py'
NUMBER = itertools.count()
OTEL = False      # also use the processor for opentelemetry, with its SDK


def new_file():
    """A file for each execution, as frames of the last ones can be finalised at any time."""
    return '/app-root-of-the-check/%d/host.py' % next(NUMBER)


BOUNDS = {
    'quick': 'all programs of the grammar (2840) and 15 hand written ones x 3 sets of span/capture tracepoints on all lines and '
             'functions; 140 programs and the hand written ones x every single tracepoint of 4 kinds; 35 programs x pairs of them '
             'and (with the hand written) x removing the configuration before each event; 2-3 threads (16 scenarios) at every event with 2 deviations, and in the '
             'code of the agent with 1-2 deviations; threads that end with pending work; recursion of up to 260 invocations; spans of opentelemetry for 140 programs and the hand written',
    'thorough': 'as quick with 21300 programs, pairs for 700 programs, 3 deviations',
}
RULE = 'a trace is an execution of a program (and a schedule), a step is an event of it'
FREE = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}
UNWIND = ('RETURN_VALUE', 'RETURN_CONST', 'YIELD_VALUE', 'RETURN_GENERATOR')
SIMPLE = (str, int, float, bool, type(None))

HAND = dict(host.HAND)
HAND['abandoned'] = '''
def gen(n):
    try:
        for i in range(n):
            yield i
    finally:
        n = 0
def use(n):
    g = gen(n)
    a = next(g)
    b = next(g)
    return a + b
def throwing():
    g = gen(3)
    next(g)
    try:
        g.throw(KeyError('thrown'))
    except KeyError:
        pass
    g = gen(3)
    next(g)
    g.close()
    return g
def main():
    out = [use(3), next(throwing(), 'closed')]
    return out
'''
HAND['handlers'] = '''
class Cm:
    def __enter__(self):
        return self
    def __exit__(self, *args):
        try: boom('exit')
        except KeyError: pass
        return False
def boom(a):
    raise KeyError(a)
def again():
    raise
def nested(a):
    try:
        boom(a)
    except KeyError:
        try:
            boom('inner')
        except KeyError:
            a += 1
        raise
def final(a):
    try:
        boom(a)
    finally:
        a += 1
        b = a
def helper(a):
    try:
        boom(a)
    except KeyError:
        b = again()
def managed(a):
    with Cm():
        with Cm() as c:
            boom(a)
    return a
def from_other(a):
    try:
        boom(a)
    except KeyError as e:
        raise ValueError(a) from e
def late(a):
    try:
        boom(a)
    except KeyError:
        a = helped(a)
    return a
def helped(a):
    try:
        again()
    except KeyError as e:
        with Cm():
            a = a + 1
    return a
def main():
    out = []
    for fn in (nested, final, helper, managed, from_other, late):
        try:
            out.append(fn(5))
        except Exception as e:
            out.append(repr(e))
    return out
'''
HAND['iterators'] = '''
class Count:
    def __init__(self, n):
        self.n = n
    def __iter__(self):
        return self
    def __next__(self):
        if self.n == 0:
            raise StopIteration
        self.n -= 1
        return self.n
def loop(n):
    out = 0
    for i in Count(n):
        out += i
    out += 1
    return out
def one_line(n):
    for i in Count(n): n = i
    return [j for j in Count(2)], n, sum(Count(3))
def delegate(n):
    got = yield from Count(n)
    yield from Count(1)
    return got
def manual(n):
    c = Count(n)
    next(c)
    n = next(c, 'none')
    return next(c)
def unpack(n):
    a, b = Count(2)
    return [*Count(n), a, b]
def main():
    out = [loop(2), one_line(1), list(delegate(2)), unpack(1)]
    try:
        manual(1)
    except StopIteration as e:
        out.append('stopped')
    return out
'''
HAND['deep'] = '''
def down(n):
    if n == 0:
        raise ValueError('bottom')
    try:
        return down(n - 1)
    except ValueError:
        if n == 2:
            return n
        raise
def same(n):
    return n if n == 0 else same(n - 1) + same(n - 1)
def main():
    return [down(4), same(2), down(2)]
'''
HAND['calls-in-lines'] = '''
def add(a, b): return a + b
def boom(a): raise KeyError(a)
def safe(a):
    try: boom(a)
    except KeyError as e: return e.args
    return None
def line(a):
    x = add(add(a, 1), add(2, 3)); y = [add(i, x) for i in range(2)]
    for i in y: x = add(x, i)
    while x > 10: x = x - 10
    z = safe(x) or add(x, 1)
    return z if y else x
def main():
    return [line(1), line(20)]
'''


def describe(value):
    return type(value).__name__, str(value) if type(value) in SIMPLE else \
        'Size: %d' % len(value) if type(value) in (list, tuple, dict, set) else None


def describe_error(error):
    try:
        return type(error).__name__, str(error)
    except BaseException:
        return type(error).__name__, None


class Token:
    """Identifies a thread (threading reuses its objects and the idents)."""

    def __init__(self):
        _, task = sched.current()
        self.name = task.name if task is not None else 'thread'


_local = threading.local()


def me():
    if not hasattr(_local, 'token'):
        _local.token = Token()
    return _local.token


class Monitor:
    """Records the events of all threads, and what the agent opens and completes in each."""

    def __init__(self, tps, handler=None):
        self.file = new_file()
        use = [plugins.Spans(self, name='S1'), plugins.Spans(self, name='S2')]
        self.expected = ['S1', 'S2']
        if OTEL:
            use.append(otelspans.plugin(self))
            self.expected.insert(0, otelspans.NAME)
        self.agent = Agent(use)
        self.agent.push.hook = self.pushed
        self.agent.install(tps)
        self.tps = tps
        self.places = {}
        for t in tps:
            name = t['args'].get('method_name')
            self.places.setdefault(('call', name) if name else ('line', t['line']), []).append(t)
        self.local = threading.local()
        self.info = []           # one for each event: description of the result
        self.threads = []        # the thread of the event
        self.opened = {}         # (processor, number) -> (tp id, event, thread)
        self.span_events = {}    # (tp id, event) -> [processor]
        self.closed = []         # ((processor, number), event, thread)
        self.snapshots = []      # (tp id, opening event, event, thread, capture)
        self.problems = []
        self.ends = {}
        self.rec = core.Rec()
        self.point = None
        self.recorder = host.Recorder(self.agent.handler.trace_call, {self.file}, self.before, self.after)

    def problem(self, key, detail):
        self.problems.append((key, detail))

    # the sink of the spans
    def add(self, what, processor, number, *args):
        at = getattr(self.local, 'event', None)
        thread = me()
        if what == 'open':
            self.opened[processor, number] = (args[0], at, thread)
            self.span_events.setdefault((args[0], at), []).append(processor)
        else:
            self.closed.append(((processor, number), at, thread))

    def pushed(self, snapshot):
        self.agent.push.snapshots.clear()
        at = getattr(self.local, 'event', None)
        start, captures = None, []
        for w in snapshot.watches:
            if w.expression == '__event__()':
                start = snapshot.var_lookup[w.result.vid].value
            else:
                captures.append(self.captured(snapshot, w))
        self.snapshots.append((snapshot.tracepoint.id, start, at, me(), captures))

    @staticmethod
    def captured(snapshot, w):
        if w.result is None or w.result.vid not in snapshot.var_lookup:
            return w.expression, None, w.error, None
        v = snapshot.var_lookup[w.result.vid]
        child = None
        if v.type == 'tuple' and len(v.children) == 3:
            c = snapshot.var_lookup.get(v.children[1].vid)
            child = c and (c.type, c.value)
        return w.expression, v.type, v.value, child

    def event_number(self):
        return getattr(self.local, 'event', None)

    def before(self, e, frame, arg):
        env.clock.now_ns += 1_000
        self.local.event = e.index
        self.threads.append(me())
        op = frame.f_code.co_code[frame.f_lasti]
        kind = None
        if e.event == 'return':
            kind = 'value' if host.dis.opname[op] in UNWIND else 'unwind'
            self.info.append((kind, describe(arg), host.dis.opname[op]))
        elif e.event == 'exception':
            self.info.append(('error', describe_error(arg[1])))
        else:
            self.info.append(('begin', host.dis.opname[op]))
        if self.point:
            self.point('event')

    def after(self, e, frame, arg):
        self.local.event = None

    # judge

    def due(self, e):
        """The tracepoints that open something at this event."""
        key = ('call', e.function) if e.event == 'call' else ('line', e.line) if e.event == 'line' else None
        return self.places.get(key, ()) if e.forwarded else ()

    def judge(self, error, config_until=None):
        if self.recorder.raised:
            raise Violation('raised', 'the trace function raised %s' % (self.recorder.raised,))
        events = self.recorder.events
        by_frame = {}
        for e in events:
            by_frame.setdefault(e.frame_no, []).append(e)
        opened, closed = dict(self.span_events), {}
        for key, at, thread in self.closed:
            closed.setdefault(key, []).append((at, thread))
        completions = []
        for key, (tp_id, start, thread) in self.opened.items():
            completions.append((tp_id, start, thread, [(at, th, None) for at, th in closed.pop(key, ())]))
        if closed:
            raise Violation('closed-unknown', '%s' % closed)
        snapshots = {}
        for tp_id, start, at, thread, captures in self.snapshots:
            snapshots.setdefault((tp_id, int(start)), []).append((at, thread, captures))
        for e in events:
            for t in self.due(e):
                key = (t['id'], e.index)
                if config_until is not None and e.index >= config_until:
                    continue
                if 'span' in t['args']:
                    if sorted(opened.pop(key, [])) != self.expected:
                        raise Violation('not-opened', 'no spans for %s at %r' % (t['id'], e))
                else:
                    completions.append((t['id'], e.index, self.threads[e.index], snapshots.pop(key, [])))
        if opened or snapshots:
            raise Violation('not-due', 'opened at other events: %s' % list({**opened, **snapshots})[:3])
        for tp_id, start, thread, done in completions:
            self.judge_one(tp_id, events[start], thread, done, by_frame, error)

    def judge_one(self, tp_id, e, thread, done, by_frame, error):
        events = self.recorder.events
        what = '%s opened at %r' % (tp_id, e)
        mine = by_frame[e.frame_no]
        ended = [x for x in mine if x.event == 'return' and x.index > e.index and x is mine[-1]]
        if len(done) != 1:
            raise Violation('not-once', '%s is completed %d times (invocation %s)' % (
                what, len(done), 'ended at %r' % ended if ended else 'did not end'))
        at, by, captures = done[0]
        if by is not thread:
            raise Violation('other-thread', '%s is completed by thread %s, opened by %s' % (what, by.name, thread.name))
        if at is None:
            raise Violation('no-event', '%s is completed outside of an event' % what)
        end = events[at]
        if at <= e.index:
            raise Violation('too-early', '%s is completed at %r' % (what, end))
        if end.frame_no != e.frame_no:
            after = ended and at > ended[0].index
            raise Violation('too-late' if after else 'other-invocation', '%s is completed at %r' % (what, end))
        following = [x for x in mine if x.index > at]
        unwinds = end.event == 'exception' and (not following or following[0].event == 'return' and
                                                self.info[following[0].index][0] == 'unwind')
        if e.event == 'call' and not (end.event == 'return' or unwinds):
            raise Violation('too-early', '%s is completed at %r, the invocation is not at its end' % (what, end))
        if captures is None:
            return
        info = self.info[at]
        if end.event in ('line', 'call'):
            if captures:
                raise Violation('captured', '%s is completed at %r and captured %s' % (what, end, captures))
            return
        if len(captures) != 1:
            raise Violation('captured', '%s is completed at %r and captured %s' % (what, end, captures))
        expression, kind, value, child = captures[0]
        if info[0] == 'value':
            want, got = info[1], (kind, value)
            if want[0] != got[0] or want[1] is not None and want[1] != got[1]:
                raise Violation('captured', '%s is completed at %r, captured %s, but %s is returned' % (
                    what, end, captures[0], want))
            return
        want = info[1] if info[0] == 'error' else self.escaping(end, error)
        if self.with_line(e, end) and (kind, value) == ('NoneType', 'None'):
            self.rec.violation('captured-with-line', '%s is completed at %r, captured %s' % (what, end, captures[0]))
            return
        if want is not None and child != want and (kind, value) != want:
            raise Violation('captured', '%s is completed at %r, captured %s, but %s is raised' % (
                what, end, captures[0], want))

    def with_line(self, e, end):
        """Is it the line of a 'with', that is executed again to give the exception to it, which then leaves the invocation."""
        return e.event == 'line' and self.info[e.index] == ('begin', 'PUSH_EXC_INFO') and self.info[end.index][0] == 'unwind'

    def escaping(self, end, error):
        """The exception that leaves the invocation at this event, if we can see it."""
        thread = self.threads[end.index]
        for x in self.recorder.events[end.index + 1:]:
            if self.threads[x.index] is thread:
                if x.event == 'exception' and x.frame_no != end.frame_no:
                    return self.info[x.index][1]
                return None
        error = self.ends.get(thread, error)
        return describe_error(error) if error is not None else None


def with_event(monitor, source):
    ns = host.load(source, monitor.file)
    ns['__event__'] = monitor.event_number
    return ns


def execute(tps, source, rec, case, config_until=None):
    if 'import threading' in source:
        return world.in_run(lambda: execute_here(tps, source, rec, case, config_until))
    return execute_here(tps, source, rec, case, config_until)


def execute_here(tps, source, rec, case, config_until):
    env.clock.reset()
    monitor = Monitor(tps)
    monitor.rec = rec
    ns = with_event(monitor, source)
    if config_until is not None:
        begin = monitor.before

        def before(e, frame, arg):
            begin(e, frame, arg)
            if e.index == config_until:
                monitor.agent.install([])
        monitor.recorder.before = before
    threading.settrace(monitor.recorder)
    try:
        _, error = monitor.recorder.run(ns['main'])
    finally:
        threading.settrace(None)
    rec.step(len(monitor.recorder.events))
    rec.maximum('events', len(monitor.recorder.events))
    try:
        monitor.judge(error, config_until)
    except Violation as v:
        raise Violation(v.key, v.detail, case)
    rec.state(tuple((e.event, e.line, e.frame_no) for e in monitor.recorder.events))
    rec.count('openings', len(monitor.opened) + len(monitor.snapshots))
    rec.trace(lambda: dict(case, events=len(monitor.recorder.events), openings=len(monitor.opened) + len(monitor.snapshots)))
    return monitor


KINDS = ['line-span', 'line-capture', 'method-span', 'method-capture']


def make(kind, place):
    """A tracepoint of the kind at a line or function."""
    if kind == 'line-span':
        return tp('%s@%s' % (kind, place), 'host.py', place, {**FREE, 'span': 'line', 'snapshot': 'no_collect'})
    if kind == 'line-capture':
        return tp('%s@%s' % (kind, place), 'host.py', place, {**FREE, 'stage': 'line_capture'}, ['__event__()'])
    if kind == 'method-span':
        return tp('%s@%s' % (kind, place), 'host.py', 0, {**FREE, 'span': 'method', 'method_name': place,
                                                          'snapshot': 'no_collect'})
    return tp('%s@%s' % (kind, place), 'host.py', 0, {**FREE, 'stage': 'method_capture', 'method_name': place},
              ['__event__()'])


def places(source):
    functions = host.functions(source)
    lines = sorted({n for name, ls in functions.items() if name != '<module>' for n in ls})
    return lines, sorted(n for n in functions if n != '<module>')


def all_of(source, kinds):
    lines, names = places(source)
    return [make(k, p) for k in kinds for p in (lines if k.startswith('line') else names)]


SETS = {'spans': ['line-span', 'method-span'], 'captures': ['line-capture', 'method-capture'], 'all': KINDS}


def sets_unit(source, rec):
    for name, kinds in SETS.items():
        execute(all_of(source, kinds), source, rec, {'set': name, 'program': source})


DEEP = '''
def down(n):
    if n == 0:
        return bottom(n)
    a = down(n - 1)
    return a + 1
def bottom(n):
    return n
def fails(n):
    if n == 0:
        raise ValueError('bottom')
    return fails(n - 1)
def gen(n):
    yield n
    if n > 0:
        yield from gen(n - 1)
def main():
    out = [down(DEPTH)]
    try:
        fails(DEPTH)
    except ValueError as e:
        out.append(str(e))
    out.append(sum(gen(DEPTH // 4)))
    return out
'''
DEPTHS = (10, 31, 33, 63, 65, 100, 130, 260, 400)


def otel_unit(source, rec):
    """All spans with the processor for opentelemetry."""
    global OTEL
    OTEL = otelspans.setup()
    try:
        if OTEL:
            for kinds in (['line-span'], ['method-span'], ['line-span', 'method-span']):
                execute(all_of(source, kinds), source, rec, {'set': 'opentelemetry', 'program': source})
                if otelspans.current():
                    raise Violation('otel-current', 'a span of a tracepoint is still the current span of the thread',
                                    {'program': source})
    finally:
        OTEL = False


def reached(source):
    """The places the program gets to, and the number of events."""
    return world.in_run(lambda: reached_here(source)) if 'import threading' in source else reached_here(source)


def reached_here(source):
    monitor = Monitor([])
    ns = with_event(monitor, source)
    threading.settrace(monitor.recorder)
    try:
        monitor.recorder.run(ns['main'])
    finally:
        threading.settrace(None)
    events = monitor.recorder.events
    lines = sorted({e.line for e in events if e.event == 'line'})
    names = sorted({e.function for e in events if e.event == 'call'})
    return lines, names, len(events)


def alone_unit(source, rec, pairs):
    """Every tracepoint alone, and in pairs."""
    lines, names, n = reached(source)
    tps = [make(k, p) for k in KINDS for p in (lines if k.startswith('line') else names)]
    for t in tps:
        execute([t], source, rec, {'tracepoint': t['id'], 'program': source})
    if pairs:
        for a, b in itertools.combinations(tps, 2):
            execute([a, b], source, rec, {'tracepoints': [a['id'], b['id']], 'program': source})


def removal_unit(source, rec):
    """The configuration is removed while work is pending."""
    n = reached(source)[2]
    tps = all_of(source, KINDS)
    for until in range(1, n):
        execute(tps, source, rec, {'removed before event': until, 'program': source}, until)


# --- threads

THREADS = '''
def rec(n, tag):
    if n == 0:
        return tag
    return rec(n - 1, tag) + n
def fail(n, tag):
    try:
        return bad(tag)
    except KeyError as e:
        return e.args[0]
def bad(tag):
    raise KeyError(tag)
def unwound(n, tag):
    out = tag
    bad(tag)
    return out
def gen(tag):
    yield tag
    yield tag + 1
def each(n, tag):
    total = 0
    for v in gen(tag):
        total += v
    return total
'''
PROGRAMS = {'rec': ('rec', 1), 'rec2': ('rec', 2), 'fail': ('fail', 0), 'unwound': ('unwound', 0), 'each': ('each', 0)}


class Scenario:
    """Threads of the host, under the real trace hook. They can be switched at each event."""

    def __init__(self, spec):
        self.programs, self.kinds = spec
        self.spec = spec
        self.name = 'C15 %s' % (spec,)
        env.clock.reset()
        self.monitor = Monitor(all_of(THREADS, SETS[self.kinds]))
        self.monitor.point = sched.point
        self.ns = with_event(self.monitor, THREADS)

    def state(self):
        return len(self.monitor.recorder.events), len(self.monitor.closed), len(self.monitor.snapshots)

    def tasks(self, run):
        def thread(i, name):
            fn, n = PROGRAMS[name]
            error = None
            sys.settrace(self.monitor.recorder)
            try:
                self.ns[fn](n, 1000 * (i + 1))
            except sched.Kill:
                raise
            except Exception as e:
                error = e
            finally:
                sys.settrace(None)
            self.monitor.ends[me()] = error
        return [('t%d' % i, lambda i=i, name=name: thread(i, name)) for i, name in enumerate(self.programs)]

    def judge(self, run, status):
        if status != 'finished':
            raise Violation('not-finished', 'the run ended as: %s' % status, self.spec)
        for t in run.tasks:
            if t.error is not None:
                raise Violation('thread-error', 'error in thread %s: %r' % (t.name, t.error), self.spec)
        try:
            self.monitor.judge(None)
        except Violation as v:
            raise Violation(v.key, v.detail, self.spec)


class Direct:
    """Threads that hand their events to the agent directly, so that they can be switched in the code of the agent."""

    def __init__(self, spec):
        self.threads, self.kinds = spec
        self.spec = spec
        self.name = 'C15 direct %s' % (spec,)
        env.clock.reset()
        ns = {'__name__': 'x', '__builtins__': __builtins__}
        lines = ['def %s(n, tag, go):' % 'direct', '    go("call")', '    go("line")', '    inner = go(n)', '    go("line")',
                 '    go("return", tag + n)', '    return tag + n']
        tps = [make(k, p) for k in SETS[self.kinds] for p in ((3,) if k.startswith('line') else ('direct',))]
        self.monitor = Monitor(tps)
        exec(compile('\n'.join(lines), self.monitor.file, 'exec'), ns)
        self.fn = ns['direct']
        self.fn.__globals__['__event__'] = self.monitor.event_number
        self.recorder = self.monitor.recorder

    def state(self):
        return len(self.recorder.events), len(self.monitor.closed), len(self.monitor.snapshots)

    def call(self, n, tag):
        def go(event, arg=None):
            if isinstance(event, int):
                return self.call(event - 1, tag) if event > 0 else None
            self.recorder(sys._getframe(1), event, arg)
        return self.fn(n, tag, go)

    def tasks(self, run):
        def thread(i, calls):
            for n in calls:
                self.call(n, 1000 * (i + 1))
        return [('t%d' % i, lambda i=i, calls=calls: thread(i, calls)) for i, calls in enumerate(self.threads)]

    judge = Scenario.judge


def _direct_info(self, e, frame, arg):
    env.clock.now_ns += 1_000
    self.local.event = e.index
    self.threads.append(me())
    self.info.append(('value', describe(arg), 'RETURN_VALUE') if e.event == 'return' else None)


class DirectScenario(Direct):
    def __init__(self, spec):
        super().__init__(spec)
        self.recorder.before = lambda e, frame, arg: _direct_info(self.monitor, e, frame, arg)


SCHEDULES = [
    ((('rec', 'rec'), 'spans'), 2), ((('rec', 'rec'), 'captures'), 2), ((('rec2', 'rec'), 'all'), 1),
    ((('fail', 'fail'), 'all'), 1), ((('unwound', 'rec'), 'all'), 2), ((('each', 'each'), 'all'), 1),
    ((('unwound', 'unwound'), 'captures'), 2), ((('each', 'fail'), 'captures'), 1), ((('rec', 'fail', 'each'), 'all'), 1),
    ((('rec', 'rec', 'rec'), 'spans'), 1),
]
DIRECT = [
    ((((0,), (0,)), 'spans'), 2), ((((0,), (0,)), 'captures'), 1), ((((1,), (1,)), 'all'), 1), ((((0, 0), (1,)), 'spans'), 1),
    ((((0,), (0,), (0,)), 'spans'), 1), ((((1, 0), (0,)), 'captures'), 1),
]
MODULES = ['deep.thread_local', 'deep.processor.trigger_handler', 'deep.processor.context.callback_context',
           'deep.processor.context.span_action', 'deep.processor.context.snapshot_action',
           'deep.processor.context.trigger_context']

LOST = '''
def leaf(n):
    x = n
    stop()
    return x
def outer(n):
    y = leaf(n)
    return y
def main(n, lose):
    if lose == 1:
        return outer(n)
    if lose == 2:
        z = outer(n); stop()
        return z
    return leaf(n)
'''


def lost_unit(kinds, rec):
    """
    Threads that end with pending work (the host stopped tracing), before others (that use the same thread idents) begin.

    What was opened by a thread that is gone must never be completed by another.
    """
    for plan in itertools.product((0, 1, 2, 3), repeat=3):
        for agents in (1, 2):
            lost_run(kinds, plan, agents, rec)


def lost_run(kinds, plan, agents, rec):
    env.clock.reset()
    tps = all_of(LOST, SETS[kinds])
    monitors = [Monitor(tps) for _ in range(agents)]
    idents = []

    def work(i, lose, monitor):
        ns = with_event(monitor, LOST)
        ns['stop'] = (lambda: [sys.settrace(None), setattr(sys._getframe(1), 'f_trace', None)]) if lose else (lambda: None)
        idents.append(threading.get_ident())
        me().name = 'host-%d' % i
        sys.settrace(monitor.recorder)
        try:
            ns['main'](i + 1, lose % 3)
        finally:
            sys.settrace(None)
            done.release()
    done = _thread.allocate_lock()
    done.acquire()
    for i, lose in enumerate(plan):
        # not a threading.Thread, as those are controlled
        _thread.start_new_thread(work, (i, lose, monitors[i % agents]))
        done.acquire()
        case = {'plan': plan, 'agents': agents, 'set': kinds}
        for m in monitors:
            rec.step(len(m.recorder.events))
            seen = {}
            for key, at, thread in m.closed:
                tp_id, start, opener = m.opened[key]
                if opener is not thread:
                    raise Violation('other-thread', '%s of thread %s is completed by thread %s' % (
                        tp_id, opener.name, thread.name), case)
                seen[key] = seen.get(key, 0) + 1
            for tp_id, start, at, thread, captures in m.snapshots:
                if start == 'None':
                    continue
                if m.threads[int(start)] is not thread:
                    raise Violation('other-thread', '%s of thread %s is completed by thread %s' % (
                        tp_id, m.threads[int(start)].name, thread.name), case)
                seen[tp_id, start] = seen.get((tp_id, start), 0) + 1
            if any(n != 1 for n in seen.values()):
                raise Violation('not-once', 'completed more than once: %s' % seen, case)
            # what the threads that were traced to their end opened is completed
            for key, (tp_id, start, opener) in m.opened.items():
                if plan[int(opener.name.rsplit('-', 1)[1])] == 0 and key not in seen:
                    raise Violation('not-once', '%s of thread %s is not completed' % (tp_id, opener.name), case)
    rec.state((kinds, plan, agents, len(set(idents))))
    rec.trace(lambda: {'plan': plan, 'agents': agents, 'thread idents': len(set(idents))})


def units(tier):
    sources = list(host.programs(tier))
    for part in host.chunks(sources, 64):
        yield ('sets', part)
    yield ('sets', list(HAND.values()))
    small = list(host.programs(tier, 'medium' if tier == 'thorough' else 'small'))
    every = 1 if tier == 'thorough' else 4
    for part in host.chunks(small[::every], 16):
        yield ('alone', part, True)
    for part in host.chunks(small, 16):
        yield ('alone', part, False)
    for source in HAND.values():
        yield ('alone', [source], tier == 'thorough')
    for part in host.chunks(list(host.programs(tier, 'small'))[::every] + list(HAND.values()), 24):
        yield ('removal', part)
    for part in host.chunks(list(host.programs(tier, 'small')) + list(HAND.values()), 32):
        yield ('otel', part)
    for kinds in SETS:
        yield ('lost', kinds)
    for depth in DEPTHS[:None if tier == 'thorough' else -1]:
        for kind in KINDS:
            yield ('deep', depth, [kind])
        yield ('deep', depth, KINDS[::2] if depth > 130 else KINDS)
    more = 1 if tier == 'thorough' else 0
    for unit in sched.batches([(s, b + more) for s, b in SCHEDULES], {1: 1}, {2: 4, 3: 16}):
        yield ('schedules', unit)
    for unit in sched.batches([(s, b + more) for s, b in DIRECT], {1: 1}, {2: 6, 3: 16}):
        yield ('direct', unit)


def run_unit(unit, rec, tier):
    if unit[0] == 'sets':
        for source in unit[1]:
            sets_unit(source, rec)
    elif unit[0] == 'alone':
        for source in unit[1]:
            alone_unit(source, rec, unit[2])
    elif unit[0] == 'removal':
        for source in unit[1]:
            removal_unit(source, rec)
    elif unit[0] == 'otel':
        for source in unit[1]:
            otel_unit(source, rec)
    elif unit[0] == 'deep':
        source = DEEP.replace('DEPTH', str(unit[1]))
        execute(all_of(source, unit[2]), source, rec, {'deep': unit[1], 'kinds': unit[2]})
    elif unit[0] == 'lost':
        lost_unit(unit[1], rec)
    else:
        todo, part, parts = unit[1]
        if unit[0] == 'direct':
            sched.instrument(MODULES)
        for spec, bound in todo:
            Explorer((lambda: Scenario(spec)) if unit[0] == 'schedules' else (lambda: DirectScenario(spec)), bound, {},
                     part, parts)(rec)
