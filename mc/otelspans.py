"""The span processor for opentelemetry, with the events of the opentelemetry SDK reported to the monitor of the check."""
import itertools

try:
    from opentelemetry import trace
    from opentelemetry.sdk.resources import Resource
    from opentelemetry.sdk.trace import SpanProcessor, TracerProvider
    from opentelemetry.sdk.trace.id_generator import IdGenerator

    from deep.api.plugin.otel import OTelPlugin
except ImportError:
    trace = None

NAME = 'OTel'


def setup():
    """Use the SDK in this process. False if there is none."""
    if trace is None:
        return False
    if BRIDGE.provider is None:
        BRIDGE.provider = TracerProvider(resource=Resource({}), id_generator=Ids(), shutdown_on_exit=False)
        BRIDGE.provider.add_span_processor(BRIDGE)
        trace.set_tracer_provider(BRIDGE.provider)
    return True


def plugin(sink, config=None):
    out = OTelPlugin('OTelPlugin', config)
    BRIDGE.sink = sink
    return out


def current():
    span = trace.get_current_span()
    return span.get_span_context().span_id


if trace is not None:
    class Ids(IdGenerator):
        """The default takes the numbers from the random generator of the application."""

        def __init__(self):
            self.numbers = itertools.count(1)

        def generate_span_id(self):
            return next(self.numbers)

        def generate_trace_id(self):
            return next(self.numbers)

    class Bridge(SpanProcessor):
        provider = None
        sink = None

        def __init__(self):
            self.sinks = {}

        def on_start(self, span, parent_context=None):
            number = span.get_span_context().span_id
            self.sinks[number] = self.sink
            attributes = span.attributes
            self.sink.add('open', NAME, number, attributes.get('tracepoint'), None, span.name, attributes.get('context'))

        def on_end(self, span):
            number = span.get_span_context().span_id
            sink = self.sinks.pop(number, None)
            if sink is not None:
                sink.add('close', NAME, number, span.attributes.get('tracepoint'), None)

    BRIDGE = Bridge()
