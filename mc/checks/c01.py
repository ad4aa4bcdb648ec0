"""
C01: every program is executed with and without the agent and must do the same; every call the agent makes in its event
handler is made to fail, once, and nothing of this may reach the application.
"""
import _thread
import builtins
import contextlib
import decimal
import gc
import io
import itertools
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import types
import warnings

from mc import core, env, fault, host, hostile, plugins
from mc.agent import Agent, Push, delivering, tp
from mc.core import Violation

BOUNDS = {
    'quick': '2840 programs of the grammar and 24 hand written ones: tracepoints on every line and function, 140 and the hand '
             'written x 6 sets of tracepoints (half of the others x 1 set, half x another), each tracepoint alone in the hand written; state of the interpreter compared; %d values x 3 sets; 1300 malformed '
             'tracepoints; 8 kinds of failing plugins x 8 errors; recursion of every depth from 25 below the recursion limit x '
             '7 kinds of tracepoints; 17 kinds of events with every call of the agent failing (8 errors), and every pair of '
             'calls of one event failing for events of up to 130 calls' % len(hostile.NAMES),
    'thorough': 'as quick with 21300 programs x 2 sets, 700 x 6 sets and all pairs of failing calls of events of up to 400 calls',
}
RULE = 'a trace is a program executed with and without the agent (or an event with a failing call); a step is an event'
PROGRAM_FILE = '/app-root-of-the-check/host.py'
FREE = {'fire_count': '-1', 'fire_period': '0'}

HAND = dict(host.HAND)
HAND['errors'] = '''
import sys, traceback
class Mine(Exception):
    def __init__(self, *args):
        super().__init__(*args)
        self.extra = list(args)
def low(n):
    try:
        return 1 / n
    except ZeroDivisionError as e:
        raise Mine('low', n) from e
def mid(n):
    try:
        return low(n)
    finally:
        n = n + 1
def main():
    out = []
    for n in (1, 0):
        try:
            out.append(mid(n))
        except Mine as e:
            out.append((e.args, e.extra, type(e.__cause__).__name__, e.__context__ is e.__cause__))
            out.append([(f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)])
            out.append(traceback.format_exception_only(type(e), e))
            out.append(sys.exc_info()[1] is e)
        out.append(sys.exc_info())
    return out
'''
HAND['closures'] = '''
def make():
    n = 0
    log = []
    def inc(by=1):
        nonlocal n
        n += by
        log.append(n)
        return n
    def get():
        return n, list(log)
    return inc, get
def loop():
    fns = []
    for i in range(3):
        def fn(j=i):
            return i, j
        fns.append(fn)
    return [f() for f in fns]
def late():
    def use():
        return cell
    try:
        use()
    except NameError as e:
        a = str(e)
    cell = 5
    b = use()
    del cell
    try:
        use()
    except NameError as e:
        return a, b, str(e)
class K:
    y = [1, 2]
    z = [v for v in y]
    def m(self):
        return __class__.__name__, super().__repr__()[:5]
def main():
    inc, get = make()
    return [inc(), inc(5), get(), loop(), late(), K.z, K().m()]
'''
HAND['objects'] = '''
import weakref
DEAD = []
class Thing:
    def __init__(self, name):
        self.name = name
    def __del__(self):
        DEAD.append(self.name)
def scope():
    t = Thing('scope')
    return t.name
def rebind():
    t = Thing('first')
    t = Thing('second')
    x = 1
    DEAD.append('rebound')
    return x
def weak():
    t = Thing('weak')
    r = weakref.ref(t)
    alive = r() is not None
    del t
    gone = r()
    a = gone is None
    return alive, a
def failing():
    t = Thing('failing')
    raise ValueError('x')
def main():
    out = [scope()]
    DEAD.append('after scope')
    out.append(rebind())
    DEAD.append('after rebind')
    out.append(weak())
    DEAD.append('after weak')
    try:
        failing()
    except ValueError:
        DEAD.append('caught')
    DEAD.append('after failing')
    return out, DEAD
'''
# the objects die with the frame they are in (reading f_locals keeps the values of the frame until the frame ends)
HAND['ends'] = '''
DEAD = []
class Thing:
    def __init__(self, name, *values):
        self.name = name
        self.values = values
    def __del__(self):
        DEAD.append(self.name)
    def work(self, n):
        inner = Thing(self.name + '-inner', self.name)
        if n:
            return self.work(n - 1)
        return len(inner.values)
def scope():
    t = Thing('scope')
    others = {'a': [Thing('a')], 'b': (Thing('b'), t)}
    return t.name, len(others)
def low(things):
    first = things[0]
    return first.name
def high():
    return low([Thing('x'), Thing('y', Thing('z'))])
def numbers():
    t = Thing('numbers')
    yield 1
    yield t.name
def temporary():
    return Thing('temporary').work(2)
def fails():
    t = Thing('fails')
    raise KeyError(t.name)
def caught():
    try:
        fails()
    except KeyError:
        return 'caught'
def dead():
    # the order of the values of one frame is not the same once f_locals was read
    names = sorted(DEAD)
    DEAD.clear()
    return names
def main():
    out = [scope(), dead(), high(), dead(), list(numbers()), dead(), temporary(), dead()]
    out += [caught(), dead(), [Thing(i).work(0) for i in 'de'], dead()]
    return out
'''
HAND['iterators'] = '''
import itertools
class Count:
    def __init__(self, n):
        self.n = n
    def __iter__(self):
        return self
    def __next__(self):
        if self.n == 0:
            raise StopIteration
        self.n -= 1
        return self.n
def gen(n):
    got = None
    while n:
        got = yield n if got is None else got
        n -= 1
    return 'end'
def main():
    it = iter([1, 2, 3, 4, 5])
    g = gen(4)
    c = Count(4)
    m = map(str, [1, 2, 3])
    z = zip(range(3), 'abc')
    e = enumerate('xyz')
    r = reversed([1, 2])
    f = filter(None, [0, 1, 2])
    s = itertools.chain([1], (2, 3))
    k = {'a': 1, 'b': 2}.items()
    d = iter({'q': 1, 'w': 2})
    q = iter(Count(2).__next__, 0)
    x = (i * 2 for i in range(4))
    out = [next(it), next(g), next(c), next(m), next(z), next(e), next(r), next(f), next(s), next(d), next(q), next(x)]
    out.append(g.send('sent'))
    out += [list(it), list(g), list(c), list(m), list(z), list(e), list(r), list(f), list(s), list(k), list(d), list(q), list(x)]
    return out
'''
HAND['async'] = '''
import asyncio
class Cm:
    async def __aenter__(self):
        await asyncio.sleep(0)
        return self
    async def __aexit__(self, t, v, tb):
        return t is KeyError
async def agen(n):
    for i in range(n):
        yield i
        await asyncio.sleep(0)
async def work(n, out):
    async with Cm():
        out.append(n)
        if n == 2:
            raise KeyError(n)
    async for v in agen(2):
        out.append((n, v))
    return n * 2
async def run():
    out = []
    done = await asyncio.gather(*[work(i, out) for i in range(3)], return_exceptions=True)
    t = asyncio.create_task(work(9, out))
    await asyncio.sleep(0)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        done.append('cancelled')
    return done, [i async for i in agen(3)], out
def main():
    return asyncio.run(run())
'''
HAND['output'] = '''
import random, sys, os
def main():
    random.seed(4)
    print('one', random.random())
    a = random.randint(1, 100)
    print('two', a, file=sys.stdout)
    sys.stdout.write('three')
    b = random.getrandbits(64)
    return a, b, sys.getrecursionlimit(), os.getcwd(), random.random()
'''
HAND['dynamic'] = '''
G = {'n': 1}
def setter():
    global made
    made = G['n'] + 1
    exec('G["n"] = made * 2')
    return eval('made + n', {'made': made}, {'n': 3})
class Meta(type):
    def __new__(mcs, name, bases, ns):
        ns['tag'] = name.lower()
        return super().__new__(mcs, name, bases, ns)
    def __call__(cls, *args):
        obj = super().__call__(*args)
        obj.called = True
        return obj
class Slots(metaclass=Meta):
    __slots__ = ('a', 'called')
    def __init__(self, a=1):
        self.a = a
    def __getattr__(self, name):
        if name.startswith('dyn'):
            return name
        raise AttributeError(name)
    @property
    def prop(self):
        return self.a * 2
class Desc:
    def __get__(self, obj, cls=None):
        return obj and obj.v
    def __set__(self, obj, v):
        obj.v = v
class Host:
    d = Desc()
def main():
    s = Slots(4)
    h = Host()
    h.d = 7
    out = [setter(), made, dict(G), s.tag, s.called, s.dynamic, s.prop, h.d, getattr(s, 'missing', 'none')]
    try:
        s.other
    except AttributeError as e:
        out.append(e.args)
    l = [3, 1, 2]
    l.sort(key=lambda v: out.append(v) or v)
    out.append(l)
    return out
'''
HAND['control'] = '''
def flow(n):
    out = []
    for i in range(n):
        if i == 1:
            continue
        try:
            if i == 3:
                break
            out.append(i)
        finally:
            out.append('f%d' % i)
    else:
        out.append('else')
    while n:
        n -= 1
        try:
            if n % 2:
                raise KeyError(n)
        except KeyError as e:
            out.append(e.args[0])
        else:
            out.append('no')
    return out
def early(n):
    try:
        return n
    finally:
        if n:
            return 'finally'
def groups():
    try:
        raise ExceptionGroup('g', [ValueError(1), KeyError(2)])
    except* ValueError as e:
        a = [x.args for x in e.exceptions]
    except* KeyError as e:
        a = 'k'
    return a
def main():
    out = [flow(2), flow(5), early(0), early(1), groups()]
    x = 5 if out else 6; y = x; z = [y for _ in 'ab']
    assert x == 5
    with open('/dev/null') as f: out.append(f.read())
    out.append((x, y, z, f.closed))
    return out
'''
HAND['depth'] = '''
def down(n):
    if n == 0:
        return 0
    return 1 + down(n - 1)
def main():
    return down(250)
'''
HAND['generators'] = '''
def inner(n):
    try:
        x = yield n
        return x
    finally:
        LOG.append('inner closed')
LOG = []
def outer(n):
    a = yield from inner(n)
    b = yield a
    LOG.append((a, b))
def tree(n):
    if n:
        yield from tree(n - 1)
        yield n
        yield from tree(n - 1)
def main():
    g = outer(1)
    out = [next(g), g.send(5)]
    try:
        g.send(6)
    except StopIteration as e:
        out.append(e.value)
    h = outer(2)
    next(h)
    h.close()
    k = outer(3)
    next(k)
    try:
        k.throw(KeyError('t'))
    except KeyError as e:
        out.append(str(e))
    out.append(list(tree(3)))
    return out, LOG
'''
HAND['threads2'] = '''
import threading
def worker(n, out, lock, go):
    go.wait()
    for i in range(n):
        with lock:
            out.append(1)
    if n == 3:
        raise SystemExit
def main():
    out, lock, go = [], threading.Lock(), threading.Event()
    ts = [threading.Thread(target=worker, args=(n, out, lock, go)) for n in (2, 3, 4)]
    for t in ts:
        t.start()
    go.set()
    for t in ts:
        t.join()
    local = threading.local()
    local.v = 4
    return len(out), local.v
'''
HAND['dunders'] = '''
class Strict:
    calls = []
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        raise TypeError('no eq')
    __hash__ = None
    def __bool__(self):
        raise ValueError('no bool')
    def __str__(self):
        raise RuntimeError('no str')
    __repr__ = __str__
    def __len__(self):
        raise OverflowError('no len')
    def __iter__(self):
        raise KeyError('no iter')
    def __getattr__(self, name):
        raise LookupError(name)
def use(s, t):
    out = []
    for fn in (str, bool, len, iter, hash, repr, lambda v: v == t, lambda v: v.missing):
        try:
            out.append(fn(s))
        except Exception as e:
            out.append((type(e).__name__, e.args))
    return out
def main():
    s = Strict(1)
    t = [s, {'k': s}]
    return use(s, t), s.v
'''

REFERENCES = {}


def is_one(kind, *kinds):
    """Is it one of these (some types of the check are equal to every other one)."""
    return any(kind is k for k in kinds)


def digest(value, depth=4):
    """The data of a value, that can be compared with that of another run."""
    kind = type(value)
    if is_one(kind, int, float, str, bytes, bool, complex, type(None)):
        return (kind.__name__, repr(value))
    if depth == 0:
        return kind.__name__
    if is_one(kind, list, tuple):
        return (kind.__name__, [digest(v, depth - 1) for v in value])
    if is_one(kind, dict,):
        return (kind.__name__, [(digest(k, depth - 1), digest(v, depth - 1)) for k, v in value.items()])
    if is_one(kind, set, frozenset):
        return (kind.__name__, sorted(str(digest(v, depth - 1)) for v in value))
    if isinstance(value, BaseException):
        try:
            return (kind.__name__, digest(value.args, depth - 1))
        except BaseException:
            return kind.__name__
    if is_one(kind, types.FunctionType, types.ModuleType, type):
        return (kind.__name__, value.__name__)
    try:
        return (kind.__name__, digest(dict(object.__getattribute__(value, '__dict__')), depth - 1))
    except BaseException:
        return kind.__name__


class Outcome:
    """What a program does, as far as it can be seen from outside."""

    def __init__(self, result, error, output, ns, trace, left, process):
        self.process = process
        self.result = digest(result, 8)
        self.error = digest(error)
        self.output = output
        self.data = [(k, digest(v)) for k, v in ns.items() if not k.startswith('__')]
        self.random = random.getstate()
        self.trace = trace
        self.left = left

    def differs(self, other):
        for name in ('result', 'error', 'output', 'data', 'random', 'process'):
            a, b = getattr(self, name), getattr(other, name)
            if a != b:
                return name, '%s is %s, without the agent %s' % (name, str(a)[:700], str(b)[:700])
        return None


def in_thread(fn):
    done = _thread.allocate_lock()
    done.acquire()

    def run():
        try:
            fn()
        finally:
            done.release()
    _thread.start_new_thread(run, ())
    return done.acquire(timeout=120)


def run_program(source, handler=None, ns=None, name=None):
    """Run the program on a thread of its own (so that the stack of the check is not part of the snapshots)."""
    random.seed(11)
    ns = host.load(source, PROGRAM_FILE) if ns is None else ns
    out = io.StringIO()
    seen = {'result': None, 'error': None, 'trace': None, 'left': None, 'process': None}
    if not in_thread(_Main(ns['main'], handler, seen, out)):
        raise Violation('hang', 'the program does not end', source)
    return Outcome(seen['result'], seen['error'], out.getvalue(), ns, seen['trace'], seen['left'], seen['process'])


def process_state():
    """The settings of the interpreter that a program shares with the agent."""
    context = decimal.getcontext()
    root = logging.getLogger()
    return {
        'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)),
        'limits': (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), threading.stack_size(),
                   socket.getdefaulttimeout()),
        'warnings': [id(f) for f in warnings.filters],
        'path': (list(sys.path), len(sys.meta_path), len(sys.path_hooks), os.getcwd()),
        'environ': dict(os.environ),
        'hooks': [id(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, sys.breakpointhook, sys.stderr,
                                  sys.stdin, threading.excepthook, sys.getprofile(), threading.getprofile(),
                                  sys.get_asyncgen_hooks()[0], warnings.showwarning)],
        'decimal': (context.prec, context.rounding, str(context.flags), str(context.traps)),
        'locale': locale.setlocale(locale.LC_ALL),
        'signals': [str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        'builtins': {k: id(v) for k, v in vars(builtins).items()},
        'logging': ([id(f) for f in root.handlers], root.level, root.manager.disable, root.disabled),
        'exception': sys.exc_info()[0],
    }


def changes(before, after):
    return [(k, str(before[k]), str(after[k])) for k in before if before[k] != after[k]]


BEFORE = []


class _Main:

    def __init__(self, *args):
        self.args = args

    def __call__(self):
        main, handler, seen, out = self.args
        self.args = None  # the agent could collect this
        BEFORE[:] = [process_state()]  # the agent collects the local variables of this
        with contextlib.redirect_stdout(out):
            if handler is not None:
                handler.start()
            try:
                seen['result'] = main()
            except Exception as e:
                seen['error'] = e
            finally:
                seen['process'] = changes(BEFORE.pop(), process_state())
                if handler is not None:
                    seen['trace'] = (sys.gettrace(), threading.gettrace())
                    handler.shutdown()
                    seen['left'] = (sys.gettrace(), threading.gettrace())


def sets_of(source, name):
    functions = host.functions(source)
    lines = sorted({n for f, ls in functions.items() for n in ls})
    names = sorted(functions)
    if source.startswith(host.PRELUDE) and name != 'snapshots':
        # these are the same for all the programs
        lines = [n for n in lines if n >= host.FIRST_BODY_LINE]
    tps = []

    def each(kind, args, watches=(), metrics=(), places=lines):
        for place in places:
            at = {'method_name': place} if isinstance(place, str) else {}
            tps.append(tp('%s@%s' % (kind, place), 'host.py', 0 if at else place, {**FREE, **args, **at}, watches, metrics))
    bad = ['missing', '1/0', 'x', 'self', '[i for i in range(3)]', 'fail(', '().a', 'x.y.z', 'raise', 'str(x)']
    if name == 'snapshots':
        each('s', {}, bad)
        each('m', {'frame_type': 'no_frame'}, ['1'], places=names)
    elif name == 'all':
        each('a', {'log_msg': 'at {x} {missing} {{}} {1/0} {self!r:>20}', 'span': 'line', 'frame_type': 'all_frame'}, bad[:3],
             [{'name': 'm', 'expression': 'x'}, {'name': 'n', 'expression': '1/0', 'labels': [('l', None, 'missing')]}])
        each('b', {'span': 'method', 'log_msg': '{'}, ['x'], [{'name': 'm', 'type': 'GAUGE'}], names)
    elif name == 'deferred':
        each('c', {'stage': 'line_capture'}, ['x'])
        each('d', {'stage': 'method_capture'}, [], (), names)
        each('p', {'span': 'method', 'snapshot': 'no_collect'}, [], (), names)
    elif name == 'light':
        each('l', {'log_msg': 'x is {x}', 'snapshot': 'no_collect', 'span': 'line'})
        each('p', {'stage': 'method_end', 'frame_type': 'no_frame'}, [], (), names)
    elif name == 'conditions':
        for i, condition in enumerate(('x > 1', 'missing', '1/0', 'x', 'str(x) == "1"', 'True', '(', 'x = 1', 'self.v')):
            each('q%d' % i, {'condition': condition, 'frame_type': 'no_frame'}, [], (), lines[i % 3::3])
    elif name == 'limits':
        each('t', {'fire_count': 'abc', 'fire_period': '', 'MAX_VARIABLES': '3', 'MAX_STRING_LENGTH': '2'}, bad)
        each('u', {'MAX_VARIABLES': '-1', 'MAX_VAR_DEPTH': 'x', 'MAX_COLLECTION_SIZE': '0'}, bad)
        each('w', {'method_name': 'nothing'}, places=names)
    return tps


SETS = ('snapshots', 'all', 'deferred', 'light', 'conditions', 'limits')


def agent_with(tps, bad=None):
    sink = plugins.Sink()
    agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink), plugins.Decorator(sink)])
    if bad is not None:
        agent.config.plugins = bad(sink)
    agent.install(tps)
    return agent, sink


def reference(source, ns=None):
    if source not in REFERENCES:
        first = run_program(source, None, ns and ns())
        second = run_program(source, None, ns and ns())
        if first.differs(second):
            raise Violation('harness', 'the program is not deterministic: %s' % (first.differs(second),), source)
        REFERENCES[source] = first
    return REFERENCES[source]


def compare(source, tps, rec, case, ns=None, bad=None, used=True):
    env.clock.reset()
    want = reference(source, ns)
    agent, sink = agent_with(tps, bad)
    if 'delivery' in case:
        delivering(agent).install(tps)
    got = run_program(source, agent.handler, ns and ns())
    events = len(sink.calls) + len(agent.push.take())
    rec.step(max(1, events))
    rec.count('actions', events)
    difference = got.differs(want)
    if difference:
        raise Violation('differs-' + difference[0], difference[1], case)
    if got.trace != (agent.handler.trace_call, agent.handler.trace_call):
        raise Violation('tracing-off', 'after the program the trace functions are %s' % (got.trace,), case)
    if got.left != (None, None):
        raise Violation('tracing-left', 'the trace functions are %s after the shutdown' % (got.left,), case)
    if used and not events:
        raise Violation('harness', 'nothing was done by the agent', case)
    rec.trace(lambda: {k: v for k, v in case.items() if k != 'program'})
    rec.state((hash(source), events))


# --- values

VALUE_PROGRAM = '''
class Holder:
    def __init__(self, v):
        self.v = v
def callee(self, v):
    w = v
    return w
def raiser(v):
    raise Problem(v)
def ident(v):
    yield v
def main():
    x = VALUE()
    self = Holder(x)
    both = [x, (x, x)]
    r = callee(self, x)
    same = r is x and both[0] is x and both[1][1] is x and self.v is x
    try:
        raiser(x)
    except Problem as e:
        caught = e.args[0] is x
    for g in ident(x):
        same = same and g is x
    return same, caught, state(x)
'''


class Problem(Exception):
    pass


def state(value):
    """The state of a value after it has been in the hands of the agent. What it does when it is used."""
    out = []

    def attempt(name, fn):
        try:
            out.append((name, fn()))
        except RecursionError:
            out.append((name, 'RecursionError'))
        except BaseException as e:
            out.append((name, type(e).__name__))
    try:
        known = type(value)
        is_iterator = hasattr(known, '__next__')
    except BaseException:
        return out
    if is_iterator:
        attempt('next', lambda: [digest(v, 2) for v in itertools.islice(value, 3)])
    elif is_one(known, list, dict, tuple, set):
        attempt('data', lambda: digest(value, 3))
    attempt('dict', lambda: sorted(map(str, object.__getattribute__(value, '__dict__'))))
    attempt('frame', lambda: (getattr(value, 'gi_running', None), getattr(value, 'gi_frame', None) is None) if
            known is types.GeneratorType else None)
    attempt('len', lambda: len(value) if is_one(known, list, dict, tuple, set, str, bytes) else None)
    return out


# these change when their str() or an attribute is used (it is not the agent that changes them)
IMPURE = {'magic mock', 'non callable mock', 'grows_while_read', 'grows_key', 'shrinks_while_read', 'object_changes_itself'}
IMPURE |= {n for n in hostile.NAMES if n.startswith(('fails after', 'stops after')) or 'mock' in n}


def values_unit(names, rec):
    for name in names:
        def make():
            ns = host.load(VALUE_PROGRAM, PROGRAM_FILE)
            value = hostile.HOSTILE[name] if name in hostile.HOSTILE else hostile.SIMPLE[name]
            ns.update({'VALUE': value, 'Problem': Problem, 'state': (lambda v: None) if name in IMPURE else state})
            return ns
        REFERENCES.clear()
        for kind in ('snapshots', 'all', 'deferred'):
            compare(VALUE_PROGRAM, sets_of(VALUE_PROGRAM, kind), rec, {'value': name, 'set': kind}, make)


# --- configurations

SMALL = '''
class A:
    def run(self, x):
        y = x + 1
        return self.end(y)
    def end(self, x):
        return [x, self.v if hasattr(self, 'v') else None]
def outer(x):
    def run(x):
        return x * 2
    return run(x) + 1
def main():
    a = A()
    out = a.run(1), outer(2)
    a.v = 4
    try:
        a.run('text')
    except TypeError as e:
        out += (str(e)[:20],)
    return out, [outer(i) for i in range(2)]
'''


def malformed():
    """Tracepoints that are partly nonsense."""
    odd = ['', ' ', 'abc', '-1', '0', '99999999999999999999', 'None', '{}', '\x00', '\u2028', "it's", '%s', '1e5']
    keys = ['fire_count', 'fire_period', 'window_start', 'window_end', 'condition', 'log_msg', 'span', 'stage', 'snapshot',
            'frame_type', 'stack_type', 'method_name', 'target', 'watches', 'unknown', 'MAX_VARIABLES', 'MAX_VAR_DEPTH',
            'MAX_STRING_LENGTH', 'MAX_COLLECTION_SIZE', 'MAX_TP_PROCESS_TIME', 'MAX_WATCH_VARS']
    for key in keys:
        for value in odd:
            for line in (4, 5):
                yield {key: value}, line, [], []
    for key, value in (('stage', 'method_capture'), ('stage', 'line_capture'), ('span', 'method'), ('stage', 'line_end')):
        for other in keys:
            for v in odd[:6]:
                yield {key: value, other: v}, 5, ['x', ''], []
    for watch in odd + ['\udc80'.encode('utf-8', 'replace').decode(), 'lambda: 1', '*x', 'x for x in y', 'yield', 'async', 'x' * 5000,
                        '(' * 100, '[' * 3000, 'not', ':=', 'x if', '"', "'''", '#', '\\', '\n', 'x\ny', '__import__', 'globals()']:
        yield {'condition': watch}, 5, [watch], [{'name': watch, 'expression': watch, 'labels': [(watch, watch, watch)]}]
        yield {'log_msg': watch + '{' + watch + '}'}, 5, [watch], []
    for name in ('run', 'end', '<listcomp>', '<module>', 'A.run', '', '*', 'outer.<locals>.run'):
        for args in ({}, {'span': 'method'}, {'stage': 'method_capture'}, {'stage': 'line_start'}):
            for line in (0, 1, 7, 100000):
                yield {**args, 'method_name': name}, line, ['self'], []
    for kind in (0, 1, 2, 3):
        for value in odd:
            yield {}, 5, [], [{'name': 'm', 'type': kind, 'expression': value, 'namespace': value, 'unit': value, 'help': value,
                               'labels': [(value, None, value), ('', value, None)]}]


def config_unit(items, rec):
    for args, line, watches, metrics in items:
        try:
            tps = [tp('bad', path, line, {**FREE, **args}, watches, metrics) for path in ('host.py',)]
            tps += [tp('good', 'host.py', 5, FREE, ['x'])]
            agent_with(tps)
        except (ValueError, TypeError):
            continue  # cannot be sent
        compare(SMALL, tps, rec, {'args': args, 'line': line, 'watches': watches, 'metrics': str(metrics)})


# --- failing plugins

class Fatal(BaseException):
    pass


def failing(kind, error):
    """Plugins that fail in the callbacks of the kind."""
    def fail(*args, **kwargs):
        raise error('plugin')

    def make(sink):
        logger, metrics, spans, decorator = plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink), \
            plugins.Decorator(sink)
        if kind == 'log':
            logger.log_tracepoint = fail
        elif kind == 'metric':
            metrics.counter = metrics.gauge = metrics.histogram = metrics.summary = fail
        elif kind == 'span':
            spans.create_span = fail
        elif kind == 'close':
            create = spans.create_span

            def create_span(*args, **kwargs):
                span = create(*args, **kwargs)
                span.close = fail
                return span
            spans.create_span = create_span
        elif kind == 'decorate':
            decorator.decorate = fail
        elif kind == 'decorate-odd':
            decorator.decorate = lambda *args: object()
        elif kind == 'span-odd':
            spans.create_span = lambda *args: object()
        elif kind == 'active':
            for plugin in (logger, metrics, spans, decorator):
                plugin.is_active = fail
                plugin.order = fail
        return [logger, metrics, spans, decorator]
    return make


PLUGIN_KINDS = ('log', 'metric', 'span', 'close', 'decorate', 'decorate-odd', 'span-odd', 'active')
ERRORS = [ValueError, Fatal, RecursionError, MemoryError, SystemExit, GeneratorExit, StopIteration, KeyError]


def plugins_unit(kind, rec):
    for error in ERRORS:
        for name in ('objects', 'errors', 'generators', 'recursion-unwind', 'closures')[:5 if error in ERRORS[:2] else 2]:
            source = HAND[name]
            for kinds in ('all', 'deferred'):
                if name == 'objects' and kinds == 'deferred':
                    continue
                compare(source, sets_of(source, kinds), rec, {'plugin': kind, 'error': error.__name__, 'program': name,
                                                             'set': kinds}, None, failing(kind, error), False)


# --- faults

class Injected(Exception):
    pass


class InjectedFatal(BaseException):
    pass


FAULTS = [Injected, InjectedFatal, RecursionError, MemoryError, SystemExit, GeneratorExit, StopIteration, AttributeError]
FAULT_SOURCE = '''


def target(x, self, items):
    go('call')
    go('line')
    go('exception')
    go('return')
    return x


def caller(x):
    return target(x, Holder(), [1, {'k': (x,)}])
'''
SMALL_ARGS = {'MAX_VARIABLES': '6', 'MAX_COLLECTION_SIZE': '2'}
ARMS = {
    # name -> (tracepoints, events before the faulted event, the faulted event)
    'snapshot': ([({}, ['x', 'missing'])], [], 'line'),
    'all frames': ([({'frame_type': 'all_frame'}, ['items'])], [], 'line'),
    'log': ([({'log_msg': 'v {x} {missing}', 'snapshot': 'no_collect'}, [])], [], 'line'),
    'log+snapshot': ([({'log_msg': 'v {x} {items}'}, ['x'])], [], 'line'),
    'metric': ([({'snapshot': 'no_collect'}, [], [{'name': 'm', 'expression': 'x', 'labels': [('l', None, 'x'), ('k', 's', None)]},
                                                  {'name': 'n', 'expression': 'missing'}])], [], 'line'),
    'span': ([({'snapshot': 'no_collect', 'span': 'line'}, [])], [], 'line'),
    'span close': ([({'snapshot': 'no_collect', 'span': 'line'}, [])], ['line'], 'line'),
    'capture': ([({'stage': 'line_capture'}, ['x'])], [], 'line'),
    'capture end': ([({'stage': 'line_capture'}, ['x'])], ['line'], 'exception'),
    'method': ([({'method_name': 'target', 'stage': 'method_capture'}, ['x']), ({'method_name': 'target', 'span': 'method'}, [])],
               [], 'call'),
    'method end': ([({'method_name': 'target', 'stage': 'method_capture'}, ['x']),
                    ({'method_name': 'target', 'span': 'method'}, [])], ['call'], 'return'),
    'method exception': ([({'method_name': 'target', 'stage': 'method_capture'}, ['x'])], ['call'], 'exception'),
    'condition': ([({'condition': 'x > 1 and items'}, ['x']), ({'condition': 'missing'}, []), ({'condition': 'x > 100'}, [])],
                  [], 'line'),
    'elsewhere': ([({'method_name': 'other'}, [])], [], 'call'),
    'several': ([({}, ['x']), ({'log_msg': '{x}'}, []), ({'span': 'line'}, []), ({'stage': 'line_capture'}, [])], [], 'line'),
    'shutdown': ([({'snapshot': 'no_collect', 'span': 'line'}, []), ({'stage': 'line_capture'}, ['x'])], ['line', 'stop'], 'line'),
}


class Bench:
    """An event of a live frame, in which a call of the agent can fail."""

    def __init__(self, arm, plugin=None, delivery=False):
        tps, self.before, self.event = ARMS[arm]
        installed = []
        for i, t in enumerate(tps):
            args, watches, metrics = (t + ([],))[:3]
            installed.append(tp('t%d' % i, 'host.py', 5, {**FREE, **SMALL_ARGS, **args}, watches, metrics))
        # this is always there to see if the agent is still alive
        installed.append(tp('steady', 'steady.py', host.PAUSED_LINE, {**FREE, 'frame_type': 'no_frame'}))
        self.agent, self.sink = agent_with(installed, plugin)
        if delivery:
            delivering(self.agent).install(installed)
        self.handler = self.agent.handler
        self.results = []

    def trace(self, frame, event):
        error = ValueError('host error')
        arg = {'return': [1, 2], 'exception': (ValueError, error, None)}.get(event)
        return self.handler.trace_call(frame, event, arg)

    def run(self, act):
        """Bring the frame to the event, call act(event handler call), and finish. This is a thread, to have few frames."""
        problems = []

        def at(event):
            if event != 'call':
                return
            frame = sys._getframe(1)
            for e in self.before:
                if e == 'stop':
                    self.handler.shutdown()
                else:
                    self.trace_line(frame, e)
            before = dict(frame.f_locals)
            act(lambda: self.results.append(self.trace_line(frame, self.event)))
            after = dict(frame.f_locals)
            if list(before) != list(after) or any(before[k] is not after[k] for k in before):
                problems.append('the locals are changed')
            for e in ('line', 'return'):
                try:
                    self.trace(frame, e)
                except BaseException as ex:
                    problems.append('the later event %s raised %r' % (e, ex))
        ns = {'go': at, 'Holder': type('Holder', (), {'v': 1}), '__name__': 'x', '__builtins__': __builtins__}
        exec(_fault_code, ns)
        if not in_thread(lambda: ns['caller'](5)):
            problems.append('the handler does not return')
        return problems

    def trace_line(self, frame, event):
        # the frame is paused in the line of the first 'go', the tracepoints are on the line of 'line'
        return self.trace(frame, event)

    def steady(self):
        self.agent.push.take()
        got = []

        def hit():
            host.paused([('v', 1)], lambda frame: got.append(self.handler.trace_call(frame, 'line', None)),
                        filename='/app-root-of-the-check/steady.py')
        if not in_thread(hit):
            return 'the next hit does not return'
        ids = [s.tracepoint.id for s in self.agent.push.take()]
        return None if ids == ['steady'] else 'the next hit has the snapshots %s' % ids


_fault_code = compile(FAULT_SOURCE, PROGRAM_FILE, 'exec')


def faults_unit(arm, plugin_kind, delivery, rec, tier):
    injector = fault.Injector()
    try:
        _faults(injector, arm, plugin_kind, delivery, rec, tier)
    finally:
        injector.close()


def _faults(injector, arm, plugin_kind, delivery, rec, tier):
    plugin = failing(plugin_kind, ValueError) if plugin_kind else None
    stopped = 'stop' in ARMS[arm][1]
    event = ARMS[arm][2]

    def one(at, error):
        case = {'event': arm, 'plugin': plugin_kind, 'delivery': delivery, 'calls': at, 'error': error.__name__}
        b = Bench(arm, plugin, delivery)
        raised = []

        def act(event_fn):
            try:
                injector.run(event_fn, at, error)
            except BaseException as e:
                raised.append(e)
        problems = b.run(act)
        case['sites'] = injector.hit
        rec.step()
        if raised:
            raise Violation('raised', 'the handler raised %r: %s' % (raised[0], case), case)
        if problems:
            raise Violation('after-fault', '%s: %s' % (problems, case), case)
        if not stopped:
            if b.results[0] is None:
                raise Violation('tracing-off', 'the frame is not traced: %s' % case, case)
            problem = b.steady()
            if problem:
                raise Violation('after-fault', '%s: %s' % (problem, case), case)
        rec.state((arm, plugin_kind, delivery, at, error.__name__))
        rec.trace(lambda: case)
        return injector.count

    b = Bench(arm, plugin, delivery)
    b.run(lambda event_fn: injector.run(event_fn))
    total = injector.count
    sites = dict(injector.sites)
    if total < 3:
        raise Violation('harness', 'only %d calls for %s' % (total, arm))
    rec.maximum('calls', total)
    seen = {}
    pairs = not delivery and total <= (130 if tier == 'quick' else 400)
    for n in range(total):
        # how often the call has been made before
        times = seen[sites[n]] = seen.get(sites[n], 0) + 1
        errors = FAULTS if times == 1 else FAULTS[:2] if times <= 3 else FAULTS[:1]
        if plugin_kind or delivery:
            errors = errors[:2]
        if tier == 'quick' and times > (1 if total > 1200 else 3) and (delivery or total > 1200):
            continue
        for error in errors:
            rest = one([n], error)
        if pairs:
            # the calls after a failure
            for m in range(n + 1, rest):
                one([n, m], Injected)


RECURSION = '''
def down(n):
    if n == 0:
        return 0
    return 1 + down(n - 1)
'''


RECURSION_ARGS = {
    'log': {'log_msg': '{n}', 'snapshot': 'no_collect'}, 'snapshot': {'frame_type': 'single_frame'},
    'span': {'snapshot': 'no_collect', 'span': 'line'}, 'method span': {'span': 'method', 'method_name': 'down'},
    'method': {'method_name': 'down', 'stage': 'method_capture'}, 'line': {'stage': 'line_capture'},
    'elsewhere': {'condition': 'False'}}


def recursion_unit(name, rec):
    """Recursion up to (and over) the recursion limit."""
    def run(n, handler):
        out = []
        ns = host.load(RECURSION, PROGRAM_FILE)
        trace = []

        def go():
            if handler:
                handler.start()
            try:
                out.append(ns['down'](n))
            except RecursionError:
                out.append('RecursionError')
            if handler:
                trace.append(sys.gettrace() == handler.trace_call)
                handler.shutdown()
        if not in_thread(go):
            raise Violation('after-fault', 'the program does not end', (name, n))
        return out, trace
    limit = sys.getrecursionlimit()
    args = RECURSION_ARGS[name]
    tps = [tp('r%d' % line, 'host.py', line, {**FREE, 'condition': 'n < 4', **args}, ['n']) for line in (2, 3, 4, 5)]
    known = {n: run(n, None)[0] for n in range(limit - 25, limit + 3)}
    most = max(n for n, r in known.items() if r != ['RecursionError'])
    for n, want in known.items():
        agent, sink = agent_with(tps)
        got, trace = run(n, agent.handler)
        case = {'set': name, 'depth': n, 'possible': most}
        rec.step()
        rec.state((name, n))
        rec.trace(lambda: case)
        key = 'at-recursion-limit' if n >= most else 'recursion'
        if got != want:
            rec.violation(key, 'the result is %s, without the agent %s: %s' % (got, want, case), case)
        elif trace != [True]:
            rec.violation(key, 'tracing is off: %s' % case, case)


def units(tier):
    big = list(host.programs(tier))
    for part in host.chunks(big[::2] if tier == 'quick' else big, 64):
        yield ('programs', part, ('all',))
    for part in host.chunks(big[1::2] if tier == 'quick' else big, 64):
        yield ('programs', part, ('deferred',))
    small = list(host.programs(tier, 'medium' if tier == 'thorough' else 'small'))
    for part in host.chunks(small, 24):
        yield ('programs', part, ('snapshots', 'all', 'deferred', 'light', 'conditions', 'limits'))
    for name in HAND:
        yield ('hand', name)
        if name != 'depth':
            for kind in ('snapshots', 'all', 'deferred'):
                # (see 'ends')
                if name != 'objects' and (name, kind) != ('ends', 'deferred'):
                    yield ('single', name, kind)
    for part in host.chunks(sorted(hostile.NAMES), 32):
        yield ('values', part)
    for part in range(24):
        yield ('config', part, 24)
    for kind in PLUGIN_KINDS:
        yield ('plugins', kind)
    for name in RECURSION_ARGS:
        yield ('recursion', name)
    for arm in ARMS:
        yield ('faults', arm, None, False)
        yield ('faults', arm, None, True)
    for kind in PLUGIN_KINDS:
        for arm in ('metric', 'span close', 'log'):
            yield ('faults', arm, kind, False)


def run_unit(unit, rec, tier):
    if unit[0] == 'programs':
        for source in unit[1]:
            REFERENCES.clear()
            for name in unit[2]:
                compare(source, sets_of(source, name), rec, {'set': name, 'program': source})
    elif unit[0] == 'single':
        # each tracepoint alone: nothing else happens before the program ends, or a long time
        REFERENCES.clear()
        source = HAND[unit[1]]
        for t in sets_of(source, unit[2]):
            compare(source, [t], rec, {'tracepoint': t['id'], 'set': unit[2], 'program': unit[1]}, used=False)
    elif unit[0] == 'hand':
        REFERENCES.clear()
        source = HAND[unit[1]]
        for name in ('light', 'conditions') if unit[1] == 'depth' else SETS:
            if unit[1] in ('objects', 'ends') and name == 'deferred':
                continue
            compare(source, sets_of(source, name), rec, {'set': name, 'program': unit[1]})
        if unit[1] != 'depth':
            compare(source, sets_of(source, 'snapshots'), rec, {'set': 'snapshots', 'program': unit[1], 'delivery': True})
    elif unit[0] == 'values':
        values_unit(unit[1], rec)
    elif unit[0] == 'config':
        config_unit(list(malformed())[unit[1]::unit[2]], rec)
    elif unit[0] == 'recursion':
        recursion_unit(unit[1], rec)
    elif unit[0] == 'plugins':
        plugins_unit(unit[1], rec)
    else:
        faults_unit(unit[1], unit[2], unit[3], rec, tier)
