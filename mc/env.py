"""
The controlled environment of the agent: virtual wall clock, fake network channel, silent logging.

setup() has to run before the agent (deep.*) is imported, so that every way of importing the primitives is covered.
"""
import logging
import os
import sys
import threading
import time

START_NS = 1_700_000_000_000_000_000

real_time_ns = time.time_ns
real_time = time.time


class Clock:
    """The virtual wall clock."""

    def __init__(self):
        self.now_ns = START_NS
        self.tick = 0

    def time_ns(self):
        self.now_ns += self.tick
        return self.now_ns

    def time(self):
        return self.time_ns() / 1e9

    def reset(self):
        self.now_ns = START_NS
        self.tick = 0


clock = Clock()


class _Format(logging.Handler):
    """Format the messages (as this can run code), but do not write them."""

    def createLock(self):
        # a task that is paused while it formats must not keep others from it
        self.lock = None

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass


class Net:
    """The network as seen by the agent: every call goes to handler(method, request bytes, metadata)."""

    def __init__(self):
        self.handler = None
        self.channels = []

    def reset(self):
        self.handler = None
        self.channels = []


net = Net()


class FakeChannel:
    """A stand-in for a grpc channel."""

    def __init__(self, target, secure, credentials=None):
        self.target = target
        self.secure = secure
        self.closed = False
        net.channels.append(self)

    def unary_unary(self, method, request_serializer=None, response_deserializer=None, *args, **kwargs):
        def call(request, timeout=None, metadata=None, *a, **kw):
            data = request_serializer(request)
            response = net.handler(method, data, metadata)
            return response_deserializer(response)
        call.with_call = lambda request, **kw: (call(request, **kw), None)
        return call

    def close(self):
        self.closed = True

    def subscribe(self, *args, **kwargs):
        pass

    def unsubscribe(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True


def setup(prop):
    for key in list(os.environ):
        if key.startswith('DEEP_'):
            del os.environ[key]
    sys.dont_write_bytecode = True
    time.time_ns = clock.time_ns
    time.time = clock.time
    if prop in ('C04', 'C09', 'C12', 'C13', 'C14', 'C15', 'C18'):
        from mc import sched
        sched.patch()
    import grpc
    grpc.insecure_channel = lambda target, options=None, compression=None: FakeChannel(target, False)
    grpc.secure_channel = lambda target, credentials=None, options=None, compression=None: \
        FakeChannel(target, True, credentials)


def load_agent():
    import deep  # noqa: F401
    import deep.logging
    handler = _Format()
    logging.raiseExceptions = False
    logging.lastResort = None
    for name in (None, 'deep'):
        logger = logging.getLogger(name)
        for h in list(logger.handlers):
            logger.removeHandler(h)
        logger.addHandler(handler)
    logging.getLogger('deep').propagate = False
    # the agent configures logging when it is started, which writes to the console
    logging.config.fileConfig = lambda *a, **k: None
    logging.config.dictConfig = lambda *a, **k: None


def package_dir():
    import deep
    return os.path.dirname(os.path.abspath(deep.__file__)) + os.sep


