"""A complete agent (deep.api.deep.Deep) with a scripted service, for the checks of the lifecycle and the configuration."""
import sys

from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse

import deep.api.plugin
from deep.api.deep import Deep
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService
from mc import env, host, sched
from mc.agent import tp, tp_proto
from mc.host import PAUSED_LINE

FILES = ('one.py', 'two.py')
SLOW_POLL = 100000
ALWAYS = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}


def no_builtin_plugins():
    """Only the plugins of the check are loaded."""
    plugins = getattr(deep.api.plugin, 'DEEP_PLUGINS', None)
    if isinstance(plugins, list):
        del plugins[:]


def point_tp(tp_id, file, mark, line=PAUSED_LINE, **args):
    """A tracepoint that always collects, marked by its watch."""
    return tp(tp_id, file, line, dict(ALWAYS, **args), ["'%s'" % mark])


def response(kind, config=(), config_hash='', ts=1):
    r = PollResponse(ts_nanos=ts, current_hash=config_hash, response_type=kind, response=[tp_proto(t) for t in config])
    return r.SerializeToString()


def update(config, config_hash, ts=1):
    return response(ResponseType.UPDATE, config, config_hash, ts)


def no_change(config=(), config_hash='', ts=1):
    return response(ResponseType.NO_CHANGE, config, config_hash, ts)


def me():
    _, task = sched.current()
    return task.number if task is not None else -1


class World:
    def __init__(self, config=None, service=None):
        values = {'IN_APP_EXCLUDE': ['/never-an-app-path'], 'APP_ROOT': '/app-root-of-the-check', 'PLUGINS': [],
                  'POLL_TIMER': SLOW_POLL, 'NO_TRACE': True}
        values.update(config or {})
        self.config = ConfigService(values, tracepoints=TracepointConfigService())
        self.deep = Deep(self.config)
        self.polls = []       # (virtual time, hash, thread)
        self.sent = []        # (id, tracepoint id, thread)
        self.answer = service or (lambda number, request: no_change())
        self.on_send = lambda snapshot: None
        env.net.handler = self.net

    def net(self, method, data, metadata):
        if 'poll' in method.lower():
            request = PollRequest.FromString(data)
            self.polls.append((env.clock.now_ns, request.current_hash, me()))
            sched.point('poll')
            return self.answer(len(self.polls) - 1, request)
        snapshot = Snapshot.FromString(data)
        self.sent.append((snapshot.ID, snapshot.tracepoint.ID, me()))
        sched.point('send')
        self.on_send(snapshot)
        return SnapshotResponse().SerializeToString()

    def hit(self, file, values=()):
        """Reach the line of the file."""
        host.paused(list(values), lambda frame: self.deep.trigger_handler.trace_call(frame, 'line', None), filename=file)

    def marks_with(self, name):
        """The marks, with a local variable of that name."""
        return sorted(mark_of(s) for s in self.probe(FILES, [(name, 3)]))

    def probe(self, files=FILES, values=()):
        """The snapshots collected by the tracepoints that are in force."""
        snapshots = []
        push = self.deep.push
        push.push_snapshot = snapshots.append
        run, sched.RUN = sched.RUN, None
        try:
            for file in files:
                self.hit(file, values)
        finally:
            sched.RUN = run
            del push.push_snapshot
        return snapshots

    def marks(self, files=FILES):
        """The marks of the tracepoints that are in force."""
        return sorted(mark_of(s) for s in self.probe(files))


def mark_of(snapshot):
    return '|'.join(w.expression for w in snapshot.watches).replace("'", '')


def in_run(fn, points=60000):
    """Run fn as the only main task of a run, return its result."""
    run = sched.Run((), {'points': points})
    env.clock.reset()
    try:
        status = run.execute([('main', fn)])
        if status != 'finished' or run.tasks[0].error is not None:
            raise run.tasks[0].error or RuntimeError('run ended as ' + status)
        return run.tasks[0].result
    finally:
        run.finish()


__all__ = ['World', 'update', 'no_change', 'response', 'point_tp', 'mark_of', 'me', 'in_run', 'sys', 'SLOW_POLL', 'FILES']
