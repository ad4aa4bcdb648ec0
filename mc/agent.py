"""Access to the agent for the checks: build the parts of it, install tracepoints, and observe what it does."""
import os

from deepproto.proto.common.v1.common_pb2 import AnyValue
from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType
from deepproto.proto.tracepoint.v1 import tracepoint_pb2 as tp_pb

from deep.api.resource import Resource
from deep.config import ConfigService
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deep.config.tracepoint_config import TracepointConfigService
from deep.grpc import convert_response
from deep.processor.trigger_handler import TriggerHandler
from mc import env


class Push:
    """Stands in for the PushService: records the snapshots."""

    def __init__(self):
        self.snapshots = []
        self.hook = None

    def push_snapshot(self, snapshot):
        self.snapshots.append(snapshot)
        if self.hook:
            self.hook(snapshot)

    def take(self):
        out, self.snapshots = self.snapshots, []
        return out


def tp(tp_id, path, line, args=None, watches=(), metrics=()):
    """
    Describe a tracepoint, as sent by the service.

    metrics are dicts: name, type, labels [(key, static, expression)], expression, namespace, help, unit.
    """
    return {'id': tp_id, 'path': path, 'line': line, 'args': dict(args or {}), 'watches': list(watches),
            'metrics': list(metrics)}


def any_value(value):
    if value is None:
        return None
    if isinstance(value, bool):
        return AnyValue(bool_value=value)
    if isinstance(value, int):
        return AnyValue(int_value=value)
    if isinstance(value, float):
        return AnyValue(double_value=value)
    return AnyValue(string_value=value)


def tp_proto(t):
    metrics = []
    for m in t['metrics']:
        labels = [tp_pb.LabelExpression(key=k, static=any_value(s), expression=e) for k, s, e in m.get('labels', ())]
        kind = m.get('type', 'COUNTER')
        metrics.append(tp_pb.Metric(
            name=m['name'], type=tp_pb.MetricType.Value(kind) if isinstance(kind, str) else kind,
            labelExpressions=labels, expression=m.get('expression'), namespace=m.get('namespace'),
            help=m.get('help'), unit=m.get('unit')))
    return tp_pb.TracePointConfig(ID=t['id'], path=t['path'], line_number=max(0, t['line']), args=t['args'],
                                  watches=t['watches'], metrics=metrics)


def triggers(tps):
    """Interpret the tracepoints exactly as a poll response is."""
    response = PollResponse(ts_nanos=1, current_hash='h', response_type=ResponseType.UPDATE,
                            response=[tp_proto(t) for t in tps])
    response = PollResponse.FromString(response.SerializeToString())
    return convert_response(response.response)


class Agent:
    """A trigger handler with its config and a recording push service. No threads, no network."""

    def __init__(self, plugins=(), custom=None, resource=None):
        values = {'IN_APP_EXCLUDE': ['/never-an-app-path'], 'APP_ROOT': '/app-root-of-the-check'}
        values.update(custom or {})
        self.tracepoints = TracepointConfigService()
        self.config = ConfigService(values, tracepoints=self.tracepoints)
        self.config.resource = resource if resource is not None else Resource({'res': 'agent'})
        self.config.plugins = list(plugins)
        self.push = Push()
        self.handler = TriggerHandler(self.config, self.push)

    def install(self, tps):
        self.handler.new_config(triggers(tps))
        return self

    def register(self, tps):
        """Register the tracepoints in code: the update is delivered as it would be by the task handler."""
        for t in tps:
            self.tracepoints.add_custom(t['path'], t['line'], dict(t['args']), list(t['watches']), [
                MetricDefinition(m['name'], m.get('type', 'COUNTER'), [LabelExpression(k, s, e) for k, s, e in
                                                                      m.get('labels', ())],
                                 m.get('expression'), m.get('namespace'), m.get('help'), m.get('unit'))
                for m in t['metrics']])
        self.tracepoints.update_listeners(1, None, None, [], [])
        return self

    def install_triggers(self, trigs):
        self.handler.new_config(list(trigs))
        return self


AGENT_DIR = env.package_dir()
MC_DIR = os.path.dirname(os.path.abspath(__file__)) + os.sep


class _Done:
    """A finished future."""

    def __init__(self, error):
        self.error = error

    def add_done_callback(self, fn):
        fn(self)

    def exception(self, timeout=None):
        return self.error

    def result(self, timeout=None):
        if self.error is not None:
            raise self.error


class SyncTasks:
    """Stands in for the TaskHandler: tasks are run when they are submitted, failures are kept."""

    def __init__(self):
        self.errors = []

    def submit_task(self, task, *args):
        error = None
        try:
            task(*args)
        except BaseException as e:
            error = e
            self.errors.append(e)
        return _Done(error)


class Delivery:
    """A push service that records the snapshots, and the messages the (fake) service receives for them."""

    def __init__(self, config):
        from deep.grpc import GRPCService
        from deep.push import PushService
        self.tasks = SyncTasks()
        self.grpc = GRPCService(config)
        self.grpc.start()
        self.service = PushService(self.grpc, self.tasks)
        self.snapshots = []
        self.messages = []
        env.net.handler = self._call

    def _call(self, method, data, metadata):
        from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse
        self.messages.append(Snapshot.FromString(data))
        return SnapshotResponse().SerializeToString()

    def push_snapshot(self, snapshot):
        self.snapshots.append(snapshot)
        self.service.push_snapshot(snapshot)

    def take(self):
        out, self.snapshots = self.snapshots, []
        return out

    def take_messages(self):
        out, self.messages = self.messages, []
        return out


def delivering(agent):
    """Let the agent send its snapshots to the fake service."""
    delivery = Delivery(agent.config)
    agent.push = delivery
    agent.handler = TriggerHandler(agent.config, delivery)
    return agent
