"""
C04: every history of hit times (on and next to the boundaries) for every configuration of the limits, and all schedules of
threads that reach the tracepoint at the same time. The reference is the statement: which collections are permitted.
"""
import itertools

from deep.api.tracepoint.trigger import build_trigger
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition

from mc import env, host, plugins, sched
from mc.agent import Agent, SyncTasks, tp
from mc.core import Violation
from mc.host import PAUSED_LINE
from mc.sched import Explorer

MODULES_LIMITS = ['deep.api.tracepoint.trigger', 'deep.api.tracepoint.tracepoint_config', 'deep.processor.context.action_context']
MODULES_ALL = MODULES_LIMITS + ['deep.processor.context.trigger_context', 'deep.processor.trigger_handler',
                                'deep.processor.context.snapshot_action', 'deep.processor.context.log_action',
                                'deep.processor.context.metric_action', 'deep.processor.context.span_action',
                                'deep.processor.context.action_results', 'deep.processor.context.callback_context']
BOUNDS = {
    'quick': 'hits: all sequences of 4 hit times over 7 steps (0, 1 ns, half the period, the period - 1 ns, the period, the '
             'period + 1 ns, 5 periods) x 13 fire counts x 11 periods x 8 kinds of action; window: all sequences of 3 hits '
             'over 9 times x 22 windows; condition: all sequences of 4 hits x 3 truth values x 2 steps; long histories of 7 fire counts (to 1001 hits) x 7 periods (to a year); updates: all '
             'sequences of 5 over 6 operations; schedules: 29 scenarios of 2-3 threads with 2 deviations in the code of the limits and 1 '
             'deviation in the code of the actions (and for all but one of those with 3 threads)',
    'thorough': 'sequences of 5 hits, 6 operations, 3 deviations',
}
RULE = 'a history is the sequence of hit times, results of the condition and updates; a step is a hit'
MS = 1_000_000
ABSENT = object()

COUNTS = [ABSENT, '1', '2', '3', '-1', '0', 'abc', '', '1.5', '-2', None, 2, '1000000000000000000000']
PERIODS = [ABSENT, '0', '1', '250', '1000', 'abc', '', '2.5', '-5', None, 3]


def number(value, default):
    if value is ABSENT or value is None:
        return default
    try:
        return int(value)
    except ValueError:
        return default


class Limits:
    """The reference: the limits of one action and what it collected."""

    def __init__(self, args):
        self.count = number(args.get('fire_count', ABSENT), 1)
        self.period = max(0, number(args.get('fire_period', ABSENT), 1000)) * MS
        self.start = number(args.get('window_start', ABSENT), 0)
        self.end = number(args.get('window_end', ABSENT), 0)
        self.fired = []

    def within(self, ts):
        return (self.start == 0 or self.start <= ts) and (self.end == 0 or ts <= self.end)

    def allowed(self, ts):
        if self.count != -1 and len(self.fired) >= self.count:
            return False
        return self.within(ts) and all(abs(ts - at) >= self.period for at in self.fired)

    def hit(self, ts, condition=True):
        if condition and self.allowed(ts):
            self.fired.append(ts)
            return True
        return False


# --- histories

KINDS = {
    'snapshot': {},
    'log': {'snapshot': 'no_collect', 'log_msg': 'a log'},
    'log+snapshot': {'log_msg': 'a log'},
    'metric': {'snapshot': 'no_collect'},
    'span': {'snapshot': 'no_collect', 'span': 'line'},
    'capture': {'stage': 'line_capture'},
    'method': {'method_name': 'paused_fn'},
    'method-end': {'method_name': 'paused_fn', 'stage': 'method_end'},
}


METRIC = {'name': 'metric', 'type': 'COUNTER', 'expression': '1 + 1', 'namespace': 'space', 'help': 'some help', 'unit': 'ms',
          'labels': [('fixed', 'text', None), ('computed', None, '1 + 2')]}
WATCHES = ('1 + 1', 'missing')


class Bed:
    """An agent with a tracepoint of every kind at the same place (and one more, that has its own limits)."""

    def __init__(self, args, condition=None, in_code=False, kinds=KINDS, full=False):
        self.sink = plugins.Sink()
        self.agent = Agent([plugins.Logger(self.sink), plugins.Metrics(self.sink), plugins.Spans(self.sink)])
        self.agent.push.hook = lambda s: self.sink.add('snapshot', s.tracepoint.id)
        self.args = {k: v for k, v in args.items() if v is not ABSENT}
        if condition:
            self.args['condition'] = condition
        self.in_code = in_code
        self.metric, self.watches = (METRIC, WATCHES) if full else ({'name': 'metric', 'type': 'COUNTER'}, ())
        self.kinds = list(kinds)
        self.agent.tracepoints.set_task_handler(SyncTasks())
        self.number = 0
        self.send(self.config())
        self.reset()

    def send(self, config):
        self.number += 1
        self.agent.tracepoints.update_new_config(self.number, 'hash-%d' % self.number, config)

    def reset(self):
        self.limits = {kind: Limits(self.args) for kind in self.kinds}
        self.limits['neighbour'] = Limits({'fire_count': '2', 'fire_period': '0'})

    def tracepoints(self, change=None):
        tps = []
        for kind in self.kinds:
            args = dict(self.args, frame_type='no_frame', **KINDS[kind])
            if kind == change:
                args['target'] = 'changed'
            tps.append((kind, args, [self.metric] if kind == 'metric' else []))
        tps.append(('neighbour', {'fire_count': '2', 'fire_period': '0', 'frame_type': 'no_frame'}, []))
        return tps

    def config(self, without=(), more=False):
        tps = [t for t in self.tracepoints() if t[0] not in without]
        if more:
            tps.append(('extra', {'frame_type': 'no_frame', 'fire_count': '0'}, []))
        if self.in_code:
            return [build_trigger(kind, 'paused.py', PAUSED_LINE, args, list(self.watches), [definition(m) for m in metrics])
                    for kind, args, metrics in tps]
        from mc.agent import triggers
        return triggers([tp(kind, 'paused.py', PAUSED_LINE, args, self.watches, metrics) for kind, args, metrics in tps])

    def hit(self, ts, values=()):
        """The kinds that collected at this hit."""
        env.clock.now_ns = ts
        self.sink.take()

        def at(frame):
            handler = self.agent.handler
            for event in ('call', 'line', 'return'):
                handler.trace_call(frame, event, None)
        host.paused(list(values), at)
        out = []
        for call in self.sink.take():
            if call[0] == 'snapshot':
                out.append(call[1])
            elif call[0] == 'log':
                if call[1] == 'log':
                    out.append('log')
            elif call[0] == 'metric':
                out.append('metric')
            elif call[0] == 'open':
                out.append('span')
        return sorted(out)

    def check(self, ts, condition, case, values=(), without=()):
        got = self.hit(ts, values)
        want = sorted(kind for kind, limits in self.limits.items()
                      if kind not in without and limits.hit(ts, condition or kind == 'neighbour'))
        if got != want:
            extra = [k for k in got if got.count(k) > want.count(k)]
            raise Violation('too-many' if extra else 'too-few', 'at %d ns %s collected, expected %s: %s' % (
                ts - env.START_NS, got, want, case), case)


def definition(metric):
    return MetricDefinition(metric['name'], metric['type'], [LabelExpression(*label) for label in metric.get('labels', ())],
                            metric.get('expression'), metric.get('namespace'), metric.get('help'), metric.get('unit'))


def steps_for(period):
    period = period or MS
    return [0, 1, period // 2, period - 1, period, period + 1, 5 * period]


def hits(count, period, length, rec):
    args = {'fire_count': count, 'fire_period': period}
    in_code = any(v is not ABSENT and not isinstance(v, str) for v in args.values())
    bed = Bed(args, None, in_code)
    steps = steps_for(bed.limits['snapshot'].period)
    for history in itertools.product(steps, repeat=length - 1):
        # the times are the same for all of them, so that the counts begin again with a new config
        bed.send([])
        bed.send(bed.config())
        bed.reset()
        at = env.START_NS
        case = {'fire_count': repr(count) if count is not ABSENT else 'absent', 'steps': history,
                'fire_period': repr(period) if period is not ABSENT else 'absent'}
        for step in (0,) + history:
            at += step
            bed.check(at, True, case)
            rec.step()
        rec.state((count is ABSENT or count, period is ABSENT or period, len(bed.limits['snapshot'].fired),
                   at - bed.limits['snapshot'].fired[-1] if bed.limits['snapshot'].fired else None))
        rec.trace(lambda: case)


WINDOWS = [(ABSENT, ABSENT), ('0', '0'), ('S', ABSENT), (ABSENT, 'E'), ('S', 'E'), ('S', '0'), ('0', 'E'), ('E', 'S'),
           ('S', 'S'), ('abc', 'E'), ('S', 'abc'), ('abc', ''), ('', 'E'), ('1.5', 'E'), ('S', '1'), ('1', ABSENT),
           (ABSENT, '1'), ('1', 'E'), (None, 'E'), ('S', None), (1, 10 ** 30), (10 ** 30, 0)]


def windows(index, rec):
    start, end = env.START_NS + 10_000 * MS, env.START_NS + 15_000 * MS
    times = sorted(t + d for t in (start, end) for d in (-1, 0, 1)) + [start - 5_000 * MS, end + 5_000 * MS, start + 2_500 * MS]
    texts = {'S': str(start), 'E': str(end)}
    first, last = (texts.get(v, v) if isinstance(v, str) else v for v in WINDOWS[index])
    in_code = any(v is not ABSENT and not isinstance(v, str) for v in (first, last))
    for count, period in (('-1', '0'), ('2', '0'), ('-1', ABSENT)):
        for history in itertools.combinations_with_replacement(sorted(times), 3):
            bed = Bed({'fire_count': count, 'fire_period': period, 'window_start': first, 'window_end': last}, None, in_code)
            case = {'window': repr((first, last)), 'fire_count': count, 'hits': [t - start for t in history]}
            for ts in history:
                bed.check(ts, True, case)
                rec.step()
            rec.state((index, count, [bed.limits['snapshot'].within(t) for t in history]))
            rec.trace(lambda: case)


class Stop(BaseException):
    pass


def raising():
    raise Stop()


def conditions(count, period, thorough, rec):
    period_ns = Limits({'fire_period': period}).period or MS
    steps = (0, period_ns - 1, period_ns) if thorough else (period_ns - 1, period_ns)
    for history in itertools.product([(s, c) for s in steps for c in 'tfx'], repeat=4):
        bed = Bed({'fire_count': count, 'fire_period': period}, 'cond()', False, ('snapshot', 'log', 'capture'))
        at = env.START_NS
        case = {'fire_count': count, 'fire_period': period, 'history': history}
        for step, truth in history:
            at += step
            cond = {'t': lambda: True, 'f': lambda: False, 'x': raising}[truth]
            bed.check(at, truth == 't', case, [('cond', cond)])
            rec.step()
        rec.state((count, period, [c for _, c in history], len(bed.limits['snapshot'].fired)))
        rec.trace(lambda: case)


OPS = ['hit', 'wait', 'same', 'more', 'less', 'none']


def updates(count, first, length, rec):
    """
    Configuration updates between the hits.

    A tracepoint that stays installed is not given a new budget by an update that changes others.
    """
    kinds = ('snapshot', 'log', 'span', 'method', 'metric')
    for rest in itertools.product(OPS, repeat=length - 1):
        history = (first,) + rest
        if 'hit' not in history:
            continue
        bed = Bed({'fire_count': count, 'fire_period': '250'}, None, bool(history.count('hit') % 2), kinds, True)
        at = env.START_NS
        without = ()
        case = {'fire_count': count, 'history': history}
        for op in history + ('hit', 'wait', 'hit'):
            if op == 'wait':
                at += 250 * MS
            elif op == 'hit':
                at += 1
                bed.check(at, True, case, (), without)
            else:
                gone = {'same': (), 'more': (), 'less': ('snapshot', 'span'), 'none': kinds + ('neighbour',)}[op]
                for kind in gone:
                    # installed again, it is a new one
                    bed.limits[kind] = Limits(bed.args if kind != 'neighbour' else {'fire_count': '2', 'fire_period': '0'})
                without = gone
                bed.send(bed.config(gone, op == 'more'))
            rec.step()
        rec.state((count, history))
        rec.trace(lambda: case)


def many(count, period, rec):
    """Long histories: up to the count and further, with hits that are too early or rejected in between."""
    step = Limits({'fire_period': period}).period
    for early, rejected in itertools.product((False, True), repeat=2):
        bed = Bed({'fire_count': str(count), 'fire_period': period}, 'cond()' if rejected else None, False,
                  tuple(KINDS) if count < 500 else ('snapshot', 'log'))
        at = env.START_NS
        case = {'fire_count': count, 'fire_period': period, 'early': early, 'rejected': rejected, 'hits': 'many'}
        for _ in range((count if count != -1 else 600) + 3):
            bed.check(at, True, case, [('cond', lambda: True)])
            rec.step()
            if early and step:
                bed.check(at + step - 1, True, case, [('cond', lambda: True)])
            at += step or 1
            if rejected:
                bed.check(at, False, case, [('cond', lambda: False)])
                at += step
        rec.state((count, period, early, rejected))
        rec.trace(lambda: case)


# --- schedules

class Scenario:
    """
    Threads that reach the tracepoint at the same time.

    A thread is a sequence of: a number n (n ns pass), h (a hit), t/f/x (a hit with that result of the condition), u (an update
    with the same tracepoint), m (an update with more tracepoints).
    """

    def __init__(self, spec):
        self.kind, self.args, self.threads, event = (spec + ('line',))[:4]
        self.event = event
        self.spec = spec
        self.name = 'C04 %s' % (spec,)
        sink = self.sink = plugins.Sink()
        self.agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink)])
        self.collected = []
        self.hits = []
        self.agent.push.hook = lambda s: self.collected.append(s.ts_nanos)
        env.clock.now_ns = env.START_NS
        if any(op in 'tfx' for ops in self.threads for op in ops if isinstance(op, str)):
            self.args = dict(self.args, condition='cond()')
        self.agent.tracepoints.set_task_handler(SyncTasks())
        self.send(())

    def send(self, more):
        self.agent.tracepoints.update_new_config(1, 'hash-%s' % (more,), self.config(more))

    def config(self, more):
        from mc.agent import triggers
        args = dict(self.args, frame_type='no_frame', **KINDS[self.kind])
        metrics = [{'name': 'metric', 'type': 'COUNTER'}] if self.kind == 'metric' else []
        tps = [tp('t', 'paused.py', PAUSED_LINE, args, (), metrics)]
        tps += [tp(name, 'paused.py', PAUSED_LINE, {'snapshot': 'no_collect', 'log_msg': 'other', 'fire_count': '-1'})
                for name in more]
        return triggers(tps)

    def state(self):
        return len(self.hits), len(self.collected), len(self.sink.calls)

    def hit(self, truth):
        def cond():
            sched.point('condition')
            if truth == 'x':
                raise Stop()
            return truth == 't'

        def at(frame):
            handler = self.agent.handler
            before = env.clock.now_ns
            handler.trace_call(frame, self.event, None)
            self.hits.append((before, env.clock.now_ns, truth in 'th'))
            handler.trace_call(frame, 'return', None)
        host.paused([('cond', cond)], at)

    def tasks(self, run):
        def thread(ops):
            for op in ops:
                if isinstance(op, int):
                    env.clock.now_ns += op
                elif op == 'u':
                    self.send(())
                elif op == 'm':
                    self.send(('more',))
                else:
                    self.hit(op)
        return [('t%d' % i, lambda ops=ops: thread(ops)) for i, ops in enumerate(self.threads)]

    def judge(self, run, status):
        if status != 'finished':
            raise Violation('not-finished', 'the run ended as: %s' % status, self.spec)
        for t in run.tasks:
            if t.error is not None:
                raise Violation('thread-error', 'error in thread %s: %r' % (t.name, t.error), self.spec)
        limits = Limits(self.args)
        other = [c for c in self.sink.calls if c[0] == 'log' and c[1] == 'more']
        kinds = {'log': 'log', 'metric': 'metric', 'span': 'open'}
        if self.kind in kinds:
            n = len([c for c in self.sink.calls if c[0] == kinds[self.kind]]) - len(other)
            times = None
        else:
            n, times = len(self.collected), sorted(self.collected)
        if limits.count != -1 and n > max(0, limits.count):
            raise Violation('count', '%d collections, fire_count is %d' % (n, limits.count), self.spec)
        able = [h for h in self.hits if h[2]]
        if n > len(able):
            raise Violation('count', '%d collections of %d hits' % (n, len(able)), self.spec)
        if times is not None:
            for a, b in zip(times, times[1:]):
                if b - a < limits.period:
                    raise Violation('period', 'collections at %s ns, fire_period is %d ns' % (
                        [t - env.START_NS for t in times], limits.period), self.spec)
            for t in times:
                if not limits.within(t):
                    raise Violation('window', 'collection at %d ns' % (t - env.START_NS), self.spec)
        # the number that has to be collected
        if limits.count != -1 and n == max(0, limits.count):
            return
        if limits.period == 0:
            # a hit in the window for all the time it takes has to collect
            least = len([h for h in able if limits.within(h[0]) and limits.within(h[1])])
            if limits.count != -1:
                least = min(least, max(0, limits.count))
            if n < least:
                raise Violation('missed', '%d collections, at least %d hits are permitted' % (n, least), self.spec)
        elif times is None:
            if n < 1 and able:
                raise Violation('missed', 'no collection of %d hits' % len(able), self.spec)
        else:
            # a hit that did not collect was too close to a collection (or late: a newer hit has collected)
            for before, after, _ in able:
                if all(limits.within(t) for t in (before, after)) and not any(
                        t > before - limits.period for t in times):
                    raise Violation('missed', 'the hit at %d ns is permitted, collections %s' % (
                        before - env.START_NS, [t - env.START_NS for t in times]), self.spec)


ONE = {'fire_count': '1', 'fire_period': '0'}
TWO = {'fire_count': '2', 'fire_period': '0'}
FREE = {'fire_count': '-1', 'fire_period': '0'}
EACH = {'fire_count': '-1'}
TWO_EACH = {'fire_count': '2'}
WINDOW = {'fire_count': '-1', 'fire_period': '0', 'window_start': str(env.START_NS + 5), 'window_end': str(env.START_NS + 10)}
SEC = 1000 * MS

H = ('h',)
SCHEDULES = [
    ('snapshot', ONE, (H, H)), ('snapshot', {}, (H, H)), ('snapshot', ONE, (H, H, H)), ('snapshot', TWO, (H, H, H)),
    ('snapshot', FREE, (H, H, H)), ('snapshot', EACH, (H, H)), ('snapshot', EACH, (H, (1, 'h'), (SEC, 'h'))),
    ('snapshot', EACH, (('h', SEC, 'h'), H)), ('snapshot', EACH, (('h', SEC - 1, 'h'), (1, 'h'))),
    ('snapshot', TWO_EACH, (('h', SEC, 'h'), (SEC, 'h'))), ('snapshot', ONE, (('t',), ('f',))),
    ('snapshot', ONE, (('x', 't'), ('f', 't'))), ('snapshot', TWO, (('t', 't'), ('f', 't'))),
    ('snapshot', WINDOW, (('h', 5, 'h'), ('h', 6, 'h'))), ('log', ONE, (H, H)), ('log', TWO, (H, H, H)),
    ('log', EACH, (H, H)), ('metric', ONE, (H, H)), ('metric', FREE, (H, H)), ('span', ONE, (H, H)),
    ('span', TWO, (('h', 'h'), ('h',))), ('capture', ONE, (H, H)), ('capture', EACH, (H, H)),
    ('method', ONE, (H, H), 'call'), ('method-end', ONE, (H, H), 'call'), ('snapshot', ONE, (H, ('u', 'h'))),
    ('snapshot', ONE, (('h', 'h'), ('m',))), ('log', ONE, (('h', 'm', 'h'), H)), ('log+snapshot', ONE, (H, H)),
]
# scenarios of three threads explored with two deviations in the quick tier
DEEP = [('log', TWO, (H, H, H))]


def units(tier):
    length = 4 if tier != 'thorough' else 5
    for count in range(len(COUNTS)):
        for period in range(len(PERIODS)):
            yield ('hits', count, period, length)
    for count in (10, 100, 255, 256, 257, 1001, -1):
        for period in ('0', '7', '250', '60000', '86400000', '2592000000', '31536000000'):
            yield ('many', count, period)
    for i in range(len(WINDOWS)):
        yield ('windows', i)
    for count in ('1', '2', '-1'):
        for period in ('0', '250'):
            yield ('conditions', count, period, tier == 'thorough')
    for count in ('1', '2', '-1'):
        for op in OPS:
            yield ('updates', count, op, length + 1)
    more = 1 if tier == 'thorough' else 0
    two = [(s, (1 if len(s[2]) > 2 and s not in DEEP else 2) + more) for s in SCHEDULES]
    for unit in sched.batches(two, {1: 1}, {2: 4, 3: 16}):
        yield ('schedules', 'limits', unit)
    for unit in sched.batches([(s, 1 + more) for s in SCHEDULES], {1: 2}, {2: 8}):
        yield ('schedules', 'all', unit)


def run_unit(unit, rec, tier):
    env.clock.reset()
    if unit[0] == 'hits':
        hits(COUNTS[unit[1]], PERIODS[unit[2]], unit[3], rec)
    elif unit[0] == 'many':
        many(unit[1], unit[2], rec)
    elif unit[0] == 'windows':
        windows(unit[1], rec)
    elif unit[0] == 'conditions':
        conditions(unit[1], unit[2], unit[3], rec)
    elif unit[0] == 'updates':
        updates(unit[1], unit[2], unit[3], rec)
    else:
        todo, part, parts = unit[2]
        sched.instrument(MODULES_LIMITS if unit[1] == 'limits' else MODULES_ALL)
        for spec, bound in todo:
            Explorer(lambda: Scenario(spec), bound, {}, part, parts)(rec)
