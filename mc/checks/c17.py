"""C17: every combination of the parts of metric definitions x processors, on the real code, against a reference."""
import itertools
import math

from mc import env, host, plugins
from mc.agent import Agent, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'one metric: type(4) x expression(28) x labels(13) x texts(5) x processors(0-3); all lists of 2-4 of 9 '
             'definitions x 1-2 processors; hit histories of length 6; up to 500 definitions, labels, processors, hits; values that prometheus and opentelemetry export',
    'thorough': 'as quick with all lists of 5 definitions',
}
RULE = 'all members of the product of the parts of a definition'


class Num:
    def __float__(self):
        return 2.5


class BadFloat:
    def __float__(self):
        raise ValueError('no float')

    def __str__(self):
        raise ValueError('no str')


class Interrupt(BaseException):
    pass


class BaseFail:
    def __float__(self):
        raise Interrupt()

    def __str__(self):
        raise Interrupt()

    __repr__ = __str__


def boom():
    raise Interrupt('boom')


LOCALS = [('a', 3), ('b', 'text'), ('f', 1.5), ('n', None), ('t', True), ('num', Num()), ('bad', BadFloat()), ('neg', -4),
          ('s5', '5'), ('lst', [1, 2]), ('base', BaseFail()), ('boom', boom), ('big', 10 ** 400), ('z', 0)]
GLOBALS = {'GLOB': 7}
ONE = object()
# expression -> accepted values
EXPRESSIONS = {None: [1.0], '': [1.0], 'a': [3.0], 'f': [1.5], 'a * 2': [6.0], 'GLOB': [7.0], 'num': [2.5], 'neg': [-4.0],
               't': [1.0], 'z': [0.0], 'b': [1.0], 'n': [1.0], 'missing': [1.0], '1/0': [1.0], 'boom()': [1.0],
               'bad': [1.0], 'base': [1.0], 's5': [5.0, 1.0], 'lst': [1.0], 'len(lst)': [2.0], 'a +': [1.0],
               'import os': [1.0], 'big': [1.0], 'f - 1.5': [0.0], 'lst[1] if t else 9': [2.0],
               'sum(i for i in lst if i < a)': [3.0]}
SPECIAL = {'float("nan")': 'nan', 'float("inf")': 'inf'}
TYPES = [('COUNTER', 'counter'), ('GAUGE', 'gauge'), ('HISTOGRAM', 'histogram'), ('SUMMARY', 'summary')]
ANY = object()
# (labels of the definition, expected labels)
LABELS = [((), {}),
          ((('k', 'static', None),), {'k': 'static'}),
          ((('k', None, 'b'),), {'k': 'text'}),
          ((('k', None, 'a'),), {'k': '3'}),
          ((('k', 'static', 'b'),), {'k': 'text'}),
          ((('k', '', None),), {'k': ''}),
          ((('k', 5, None),), {'k': '5'}),
          ((('k', 'x', None), ('j', None, 'GLOB')), {'k': 'x', 'j': '7'}),
          ((('k', None, 'missing'), ('j', None, 'f')), {'k': ANY, 'j': '1.5'}),
          ((('k', None, 'bad'), ('j', 'y', None)), {'k': ANY, 'j': 'y'}),
          ((('k', None, 'base'), ('j', 'y', None)), {'k': ANY, 'j': 'y'}),
          ((('k', None, 'boom()'), ('j', 'y', None)), {'k': ANY, 'j': 'y'}),
          ((('k', True, None), ('j', 1.5, None)), {'k': 'True', 'j': '1.5'})]
TEXTS = [{}, {'namespace': 'ns'}, {'namespace': '', 'help': '', 'unit': ''},
         {'help': 'the help', 'unit': 'ms', 'namespace': 'other ns'}, {'unit': 'b'}]


def make(name, kind, expression, labels, texts):
    definition = {'name': name, 'type': kind, 'labels': labels}
    definition.update(texts)
    if expression is not None:
        definition['expression'] = expression
    return definition


def matches(call, processor, definition, op, expression, labels):
    _, who, got_op, name, got_labels, namespace, help_string, unit, value = call
    if who != processor or got_op != op or name != definition['name']:
        return 'reported to %s as %s %s' % (who, got_op, name)
    if namespace != (definition.get('namespace') or 'deep'):
        return 'namespace %r' % (namespace,)
    if (help_string or '') != (definition.get('help') or '') or (unit or '') != (definition.get('unit') or ''):
        return 'help %r unit %r' % (help_string, unit)
    if set(got_labels) != set(labels) or any(
            str(got_labels[k]) != v for k, v in labels.items() if v is not ANY):
        return 'labels %r' % (got_labels,)
    if any(not isinstance(v, (str, int, float)) for v in got_labels.values()):
        return 'labels %r' % (got_labels,)
    if expression in SPECIAL:
        good = math.isnan(value) if SPECIAL[expression] == 'nan' else math.isinf(value)
    else:
        good = isinstance(value, (int, float)) and value in EXPRESSIONS[expression]
    return None if good else 'value %r' % (value,)


def place(agent, t, source):
    if source == 'code':
        agent.register([t])
    else:
        agent.install([t])


def run(defs, processors, rec, args=None, hits=(0,), permitted=None, source='service'):
    """
    Run a tracepoint with metrics.

    :param defs: list of (definition, op, expression, expected labels)
    """
    sink = plugins.Sink()
    agent = Agent([plugins.Metrics(sink, name='M%d' % i) for i in range(processors)])
    args = {'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0', **(args or {})}
    place(agent, tp('t', 'paused.py', PAUSED_LINE, args, metrics=[d[0] for d in defs]), source)
    for i, wait in enumerate(hits):
        env.clock.now_ns += wait * 1_000_000
        host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
        rec.step()
        calls = sink.take()
        case = {'definitions': [d[0] for d in defs], 'processors': processors, 'args': args, 'hit': i, 'calls': calls,
                'source': source}
        expect = [] if permitted is not None and not permitted[i] else \
            list(itertools.product(defs, ['M%d' % p for p in range(processors)]))
        rec.state((tuple(map(repr, calls))))
        left = list(calls)
        for (definition, op, expression, labels), who in expect:
            reasons = []
            for call in left:
                reason = matches(call, who, definition, op, expression, labels)
                if reason is None:
                    left.remove(call)
                    break
                reasons.append(reason)
            else:
                raise Violation('metric-missing', '%s is not reported to %s: %s' % (definition, who, reasons), case)
        if left:
            raise Violation('metric-extra', 'also reported %s' % left, case)
    rec.trace(lambda: case)


def single(kind_op, tier, rec):
    kind, op = kind_op
    expressions = list(EXPRESSIONS) + list(SPECIAL)
    combos = itertools.product(expressions, LABELS, TEXTS, (0, 1, 2, 3), ('service', 'code'))
    for expression, (labels, want), texts, processors, source in combos:
        run([(make('metric', kind, expression, labels, texts), op, expression, want)], processors, rec, source=source)


def several(first, tier, rec):
    menu = [(make('m1', 'COUNTER', None, (), {}), 'counter', None, {}),
            (make('m1', 'GAUGE', 'a', (), {}), 'gauge', 'a', {}),
            (make('m2', 'HISTOGRAM', 'missing', (), {'namespace': 'ns'}), 'histogram', 'missing', {}),
            (make('m3', 'SUMMARY', 'f', LABELS[1][0], {}), 'summary', 'f', LABELS[1][1]),
            (make('m4', 'COUNTER', 'base', LABELS[8][0], {}), 'counter', 'base', LABELS[8][1]),
            (make('m5', 'GAUGE', 'bad', LABELS[10][0], {'unit': 'u'}), 'gauge', 'bad', LABELS[10][1]),
            (make('m6', 'COUNTER', 'boom()', LABELS[2][0], {'help': 'h'}), 'counter', 'boom()', LABELS[2][1]),
            (make('m1', 'COUNTER', 'a * 2', (), {'namespace': 'ns'}), 'counter', 'a * 2', {}),
            (make('m7', 'SUMMARY', 'GLOB', LABELS[7][0], {}), 'summary', 'GLOB', LABELS[7][1])]
    n = 4 if tier == 'quick' else 5
    for length in range(1, n):
        for rest in itertools.product(range(len(menu)), repeat=length):
            for processors in (1, 2):
                run([menu[i] for i in (first,) + rest], processors, rec)


def budget(rec):
    """Without a processor no fire budget is used: the metric is reported when there is one."""
    for count in (1, 2):
        for condition in (None, 'a == 3', 'a == 4', 'missing'):
            sink = plugins.Sink()
            agent = Agent([])
            args = {'snapshot': 'no_collect', 'fire_count': str(count), 'fire_period': '0'}
            if condition:
                args['condition'] = condition
            agent.install([tp('t', 'paused.py', PAUSED_LINE, args, metrics=[{'name': 'm'}])])

            def hit():
                host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
                rec.step()
            for _ in range(3):
                hit()
            agent.config.plugins = [plugins.Metrics(sink), plugins.Logger(sink)]
            for _ in range(4):
                hit()
            want = count if condition in (None, 'a == 3') else 0
            if len(sink.calls) != want:
                raise Violation('metric-budget', 'reported %d times, expected %d' % (len(sink.calls), want), args)
            rec.trace(lambda: args)
    for count, period, metrics in itertools.product((1, 3, -1), (0, 10), (1, 2)):
        env.clock.reset()
        waits = (1, 3, 7, 3, 10, 10)
        permitted, fired, last, now = [], 0, None, 0
        for wait in waits:
            now += wait
            ok = (count == -1 or fired < count) and (last is None or now - last >= period)
            permitted.append(ok)
            if ok:
                fired, last = fired + 1, now
        run([(make('m%d' % i, 'COUNTER', 'a', (), {}), 'counter', 'a', {}) for i in range(metrics)], 2, rec,
            {'fire_count': str(count), 'fire_period': str(period)}, waits, permitted)


class Mutating(plugins.Metrics):
    """A processor that changes the labels it was given."""

    def _report(self, kind, args):
        args = list(args)
        given, args[1] = args[1], dict(args[1])
        super()._report(kind, args)
        given.clear()
        given['changed'] = 'x'


def isolation(rec):
    """What one processor does has no effect on the others; other parts of the tracepoint work with the metrics."""
    for order in itertools.permutations(range(3)):
        sink = plugins.Sink()
        all_plugins = [Mutating(sink, name='M0'), plugins.Metrics(sink, name='M1'), plugins.Metrics(sink, name='M2')]
        agent = Agent([all_plugins[i] for i in order])
        definition = make('m', 'COUNTER', 'a', LABELS[7][0], {})
        agent.install([tp('t', 'paused.py', PAUSED_LINE, {}, metrics=[definition, definition])])
        host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
        rec.step()
        rec.trace()
        calls = sink.take()
        for who in ('M0', 'M1', 'M2'):
            mine = [c for c in calls if c[1] == who]
            if len(mine) != 2 or any(matches(c, who, definition, 'counter', 'a', LABELS[7][1]) for c in mine):
                raise Violation('metric-isolation', 'reported %s to %s' % (mine, who), order)
        if len(agent.push.take()) != 1:
            raise Violation('metric-snapshot', 'no snapshot with the metrics', order)


SIZES = (2, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 500)


def many(rec):
    """Many definitions, labels, processors and hits; long texts."""
    for n in SIZES:
        for kind, op in TYPES:
            for source in ('service', 'code'):
                run([(make('m%d' % i, kind, 'a' if i % 2 else None, (), {}), op, 'a' if i % 2 else None, {}) for i in range(n)],
                    1, rec, source=source)
                labels = [('l%d' % i, 'v%d' % i if i % 2 else None, None if i % 2 else '%d' % i) for i in range(n)]
                want = {'l%d' % i: 'v%d' % i if i % 2 else str(i) for i in range(n)}
                run([(make('m', kind, 'a', labels, {}), op, 'a', want)], 2, rec, source=source)
                long = 'xyz' * n
                run([(make(long, kind, 'a', [(long, long, None), ('k', None, "'%s'" % long)],
                           {'namespace': long, 'help': long, 'unit': long}), op, 'a', {long: long, 'k': long})], 1, rec,
                    source=source)
        run([(make('m', 'COUNTER', 'a', (), {}), 'counter', 'a', {})], n, rec)
        run([(make('m', 'COUNTER', 'a', (), {}), 'counter', 'a', {})], 1, rec, hits=(1,) * n)
        run([(make('m', 'COUNTER', 'a', (), {}), 'counter', 'a', {})], 1, rec, {'fire_count': str(n)}, (1,) * (n + 3),
            [True] * n + [False] * 3)
        long = ' + '.join(['a'] * n + ['0'] * (500 - n))
        EXPRESSIONS[long] = [3.0 * n]
        run([(make('m', 'COUNTER', long, (('k', None, long),), {}), 'counter', long, {'k': str(3 * n)})], 1, rec)


def prometheus(rec):
    """The processor for prometheus: the values that can be scraped."""
    try:
        from prometheus_client import REGISTRY
        from deep.api.plugin.metric.prometheus_metrics import PrometheusPlugin
    except ImportError:
        return
    suffix = {'counter': '_total', 'gauge': '', 'histogram': '_sum', 'summary': '_sum'}
    for (kind, op), (labels, want), texts, expression, source in itertools.product(
            TYPES, [LABELS[i] for i in (0, 1, 2, 7)], [{}, {'namespace': 'ns', 'help': 'h'}, {'unit': 'ms'}],
            (None, 'a', 'f', 'b'), ('service', 'code')):
        agent = Agent([])
        processor = PrometheusPlugin(agent.config)
        agent.config.plugins = [processor]
        place(agent, tp('t', 'paused.py', PAUSED_LINE, {'snapshot': 'no_collect'},
                        metrics=[make('prom', kind, expression, labels, texts)]), source)
        try:
            host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
            rec.step()
            rec.trace()
            name = '%s_prom%s%s' % (texts.get('namespace', 'deep'), '_' + texts['unit'] if 'unit' in texts else '',
                                    suffix[op])
            got = REGISTRY.get_sample_value(name, want)
            if got not in EXPRESSIONS[expression]:
                raise Violation('prometheus', '%s%s is %s' % (name, want, got), (kind, labels, texts, expression, source))
        finally:
            processor.clear()
        if [m for m in REGISTRY.collect() if 'prom' in m.name and m.name.startswith(('deep', 'ns'))]:
            raise Violation('prometheus-clear', 'the metric is still registered', (kind, labels, texts))
    # the same metric is reported by one processor again after a clear, and by the processor of the next agent
    for (kind, op), (labels, want), plan in itertools.product(TYPES, [LABELS[i] for i in (0, 1)],
                                                              itertools.product(('clear', 'shutdown', 'next'), repeat=2)):
        processor = None
        try:
            for i, step in enumerate(('next',) + plan):
                if step == 'clear':
                    processor.clear()
                else:
                    if processor is not None:
                        processor.shutdown()
                    if step == 'next':
                        processor = None
                agent = Agent([])
                processor = processor or PrometheusPlugin(agent.config)
                agent.config.plugins = [processor]
                place(agent, tp('t', 'paused.py', PAUSED_LINE, {'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'},
                                metrics=[make('prom', kind, 'a', labels, {})]), 'code')
                for _ in range(2):
                    host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
                    rec.step()
                got = REGISTRY.get_sample_value('deep_prom' + suffix[op], want)
                if got not in (6.0, 3.0 if op == 'gauge' else 6.0):
                    raise Violation('prometheus-again', 'step %d: the value is %s' % (i, got), (kind, labels, plan))
            rec.trace()
        finally:
            processor.shutdown()


def otel(rec):
    """The processor for opentelemetry: the values that are exported."""
    try:
        from opentelemetry.metrics import set_meter_provider
        from opentelemetry.sdk.metrics import MeterProvider
        from opentelemetry.sdk.metrics.export import InMemoryMetricReader
        from deep.api.plugin.metric.otel_metrics import OTelMetrics
    except ImportError:
        return
    reader = InMemoryMetricReader()
    set_meter_provider(MeterProvider([reader]))
    number = 0
    want = {}
    for (kind, op), (labels, pairs), texts, expression, hits, source in itertools.product(
            TYPES, [LABELS[i] for i in (0, 1, 2, 7)], TEXTS, (None, 'a', 'f', 'b'), (1, 2),
            ('service', 'code')):
        number += 1
        agent = Agent([])
        agent.config.plugins = [OTelMetrics(agent.config)]
        name = 'm%d' % number
        place(agent, tp('t', 'paused.py', PAUSED_LINE,
                        {'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'},
                        metrics=[make(name, kind, expression, labels, texts)]), source)
        for _ in range(hits):
            host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
            rec.step()
        rec.trace()
        want['%s_%s' % (texts.get('namespace') or 'deep', name)] = (
            kind, pairs, texts, [v * hits for v in EXPRESSIONS[expression]], hits, expression,
            source)
    data = reader.get_metrics_data()
    got = {}
    for resource in data.resource_metrics if data else []:
        for scope in resource.scope_metrics:
            for metric in scope.metrics:
                got[metric.name] = metric
    for name, case in want.items():
        kind, pairs, texts, values, hits, expression, source = case
        if ' ' in name:
            continue  # not a name for opentelemetry
        if name not in got:
            raise Violation('otel-missing', '%s is not exported' % name, case)
        metric = got[name]
        points = list(metric.data.data_points)
        if len(points) != 1 or {k: str(v) for k, v in points[0].attributes.items()} != pairs:
            raise Violation('otel-labels', '%s has the points %s' % (name, points), case)
        if (metric.description, metric.unit) != (texts.get('help') or '', texts.get('unit') or ''):
            raise Violation('otel-texts', '%s is described as %r, %r' % (name, metric.description, metric.unit), case)
        point = points[0]
        value = getattr(point, 'value', getattr(point, 'sum', None))
        if value not in values:
            raise Violation('otel-value', '%s is %s' % (name, value), case)
        if kind in ('HISTOGRAM', 'SUMMARY'):
            if getattr(point, 'count', None) != hits:
                raise Violation('otel-kind', '%s is %s' % (name, metric.data), case)
        elif hasattr(point, 'count') or metric.data.is_monotonic != (kind == 'COUNTER'):
            raise Violation('otel-kind', '%s is %s' % (name, metric.data), case)


def units(tier):
    return [('single', t) for t in TYPES] + [('several', i) for i in range(9)] + [('budget',), ('isolation',), ('many',),
                                                                                  ('prometheus',), ('otel',)]


def run_unit(unit, rec, tier):
    if unit[0] == 'single':
        single(unit[1], tier, rec)
    elif unit[0] == 'several':
        several(unit[1], tier, rec)
    else:
        {'many': many, 'budget': budget, 'isolation': isolation, 'prometheus': prometheus, 'otel': otel}[unit[0]](rec)
