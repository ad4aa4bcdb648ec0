"""Plugins that record every call into one log, and can be made to fail."""
import threading

from deep.api.attributes import BoundedAttributes
from deep.api.plugin import SnapshotDecorator, TracepointLogger, ResourceProvider
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import Span, SpanProcessor


class Sink:
    """The log of all plugins (and the push service) of a run."""

    def __init__(self):
        self.calls = []

    def add(self, *call):
        self.calls.append(call)

    def take(self):
        out, self.calls = self.calls, []
        return out


class Logger(TracepointLogger):
    def __init__(self, sink=None, name='L', config=None):
        super().__init__(name, config)
        self.sink = sink

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.sink.add('log', tp_id, ctx_id, log_msg)


class Metrics(MetricProcessor):
    def __init__(self, sink=None, name='M', config=None):
        super().__init__(name, config)
        self.sink = sink

    def _report(self, kind, args):
        self.sink.add('metric', self.name, kind, *args)

    def counter(self, name, labels, namespace, help_string, unit, value):
        self._report('counter', (name, labels, namespace, help_string, unit, value))

    def gauge(self, name, labels, namespace, help_string, unit, value):
        self._report('gauge', (name, labels, namespace, help_string, unit, value))

    def histogram(self, name, labels, namespace, help_string, unit, value):
        self._report('histogram', (name, labels, namespace, help_string, unit, value))

    def summary(self, name, labels, namespace, help_string, unit, value):
        self._report('summary', (name, labels, namespace, help_string, unit, value))

    def clear(self):
        self.sink.add('metric-clear', self.name)


class RecSpan(Span):
    def __init__(self, sink, processor, name, ctx_id, tp_id, number):
        self.sink, self.processor, self._name, self.ctx_id, self.tp_id = sink, processor, name, ctx_id, tp_id
        self.number = number
        self.thread = threading.get_ident()

    @property
    def name(self):
        return self._name

    @property
    def trace_id(self):
        return 't%d' % self.number

    @property
    def span_id(self):
        return 's%d' % self.number

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        self.sink.add('close', self.processor, self.number, self.tp_id, threading.get_ident())


class Spans(SpanProcessor):
    def __init__(self, sink=None, name='S', config=None):
        super().__init__(name, config)
        self.sink = sink
        self.created = 0
        self.lock = threading.Lock()

    def create_span(self, name, context_id, tracepoint_id):
        self.created += 1
        span = RecSpan(self.sink, self.name, name, context_id, tracepoint_id, self.created)
        self.sink.add('open', self.name, span.number, tracepoint_id, threading.get_ident(), name, context_id)
        return span

    def current_span(self):
        return None


class Decorator(SnapshotDecorator):
    def __init__(self, sink=None, name='D', config=None, attributes=None):
        super().__init__(name, config)
        self.sink = sink
        self.attributes = {'decorated.' + name: name} if attributes is None else attributes

    def decorate(self, snapshot_id, context):
        return BoundedAttributes(attributes=dict(self.attributes))


class Provider(ResourceProvider):
    def __init__(self, sink=None, name='R', config=None, value=None):
        super().__init__(name, config)
        self.value = value

    def resource(self):
        return self.value
