"""Plugins that are loaded by name, and do what the script says."""
import sys
import types

from deep.api.attributes import BoundedAttributes
from deep.api.plugin import Plugin, SnapshotDecorator, TracepointLogger, ResourceProvider
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import Span, SpanProcessor
from deep.api.resource import Resource


class Script:
    """The record of all calls of plugins, and what they do instead."""

    def __init__(self, decide=None):
        self.calls = []
        self.counts = {}
        self.decide = decide or (lambda plugin, callback, number: None)

    def call(self, plugin, callback, *details):
        """
        Record a call.

        :return: None to do what is expected, or a function that fails (or returns something else)
        """
        self.counts[plugin, callback] = number = self.counts.get((plugin, callback), -1) + 1
        self.calls.append((plugin, callback) + details)
        return self.decide(plugin, callback, number)


SCRIPT = Script()


class Broken(BoundedAttributes):
    """Attributes that fail when they are read."""

    def __init__(self):
        super().__init__(attributes={'broken': 1})
        self.armed = True

    def __fail(self):
        raise ValueError('broken attributes')

    def __iter__(self):
        self.__fail()

    def __getitem__(self, key):
        self.__fail()

    def items(self):
        self.__fail()

    def keys(self):
        self.__fail()

    def __len__(self):
        self.__fail()

    def copy(self):
        self.__fail()


class BrokenResource(Resource):
    """A resource that fails when it is read."""

    def __init__(self):
        super().__init__({'broken': 1})

    @property
    def attributes(self):
        raise ValueError('broken resource')

    def __bool__(self):
        return True


class FaultySpan(Span):
    def __init__(self, owner, tp_id, number):
        self.owner, self.tp_id, self.number = owner, tp_id, number

    name = trace_id = span_id = property(lambda self: 'n%d' % self.number)

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        other = SCRIPT.call(self.owner, 'close', self.tp_id, self.number)
        if other:
            other('close')


class Base(Plugin):
    """All plugins of the check have the name of their class."""

    ORDER = 0

    def __init__(self, config=None):
        super().__init__(None, config)
        self.spans = 0

    def order(self):
        return self.ORDER

    def shutdown(self):
        other = SCRIPT.call(self.name, 'shutdown')
        if other:
            return other('shutdown')


class _Resource(Base, ResourceProvider):
    def resource(self):
        other = SCRIPT.call(self.name, 'resource')
        return other('resource') if other else Resource({'from.' + self.name: self.name})


class _Decorate(Base, SnapshotDecorator):
    def decorate(self, snapshot_id, context):
        other = SCRIPT.call(self.name, 'decorate', context.location_action.tracepoint.id)
        return other('decorate') if other else BoundedAttributes(attributes={'by.' + self.name: self.name})


class _Log(Base, TracepointLogger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        other = SCRIPT.call(self.name, 'log', tp_id, log_msg)
        if other:
            return other('log')


class _Spans(Base, SpanProcessor):
    def create_span(self, name, context_id, tracepoint_id):
        other = SCRIPT.call(self.name, 'span', tracepoint_id)
        if other:
            return other('span')
        self.spans += 1
        return FaultySpan(self.name, tracepoint_id, self.spans)

    def current_span(self):
        return None


class _Metrics(Base, MetricProcessor):
    def _report(self, kind, name, value):
        other = SCRIPT.call(self.name, 'metric', kind, name, value)
        if other:
            return other('metric')

    def counter(self, name, labels, namespace, help_string, unit, value):
        self._report('counter', name, value)

    def gauge(self, name, labels, namespace, help_string, unit, value):
        self._report('gauge', name, value)

    def histogram(self, name, labels, namespace, help_string, unit, value):
        self._report('histogram', name, value)

    def summary(self, name, labels, namespace, help_string, unit, value):
        self._report('summary', name, value)

    def clear(self):
        pass


class Full(_Resource, _Decorate, _Log, _Spans, _Metrics):
    """It has all callbacks."""


class First(Full):
    ORDER = -1


class Second(Full):
    ORDER = 0


class Third(Full):
    ORDER = 5


class OnlyResource(_Resource):
    ORDER = 1


class OnlyDecorate(_Decorate):
    ORDER = 2


class OnlyLog(_Log):
    ORDER = -3


class OnlySpans(_Spans):
    ORDER = 3


class OnlyMetrics(_Metrics):
    ORDER = -2


class Nothing(Base):
    ORDER = 4


# --- plugins for the loader

class Fatal(BaseException):
    pass


def _raiser(error):
    def fail(*args, **kwargs):
        raise error('plugin')
    return fail


def _kind(kind_name, **members):
    setattr(sys.modules[__name__], kind_name, type(kind_name, (Base,), members))


for _n in (-5, 0, 1, 2):
    _kind('Order%s' % str(_n).replace('-', 'M'), ORDER=_n)
_kind('Twin1', ORDER=1)
_kind('OrderFloat', ORDER=0.5)
_kind('OrderHuge', ORDER=10 ** 30)
_kind('OrderBool', ORDER=True)
_kind('OrderNone', ORDER=None)
_kind('OrderText', ORDER='first')
_kind('OrderNan', ORDER=float('nan'))
_kind('OrderList', ORDER=[1])
_kind('OrderFails', order=_raiser(ValueError))
_kind('OrderStops', order=_raiser(Fatal))
_kind('Off', is_active=lambda self: False)
_kind('ActiveFails', is_active=_raiser(ValueError))
_kind('ActiveStops', is_active=_raiser(Fatal))
_kind('InitFails', __init__=_raiser(ValueError))
_kind('InitStops', __init__=_raiser(Fatal))
_kind('InitExits', __init__=_raiser(SystemExit))
_kind('InitArguments', __init__=lambda self: None)
_kind('NewFails', __new__=_raiser(RuntimeError))
_kind('Abstract', __init__=_raiser(TypeError))
not_a_class = 5
a_none = None


class NoPlugin:
    pass


def returns_none(config=None):
    return None


# modules that cannot be imported
class _Finder:
    ERRORS = {'mc_missing_dependency': ImportError, 'mc_import_fails': RuntimeError, 'mc_import_exits': SystemExit,
              'mc_import_stops': Fatal}

    def find_spec(self, name, path=None, target=None):
        if name in self.ERRORS:
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self)
        return None

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, module):
        raise self.ERRORS[module.__name__]('not installed')


sys.meta_path.append(_Finder())
