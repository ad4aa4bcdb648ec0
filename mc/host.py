"""
Host programs: a grammar of small programs, and running them under a trace function that records every event on its own
before it hands the event to the agent.
"""
import dis
import itertools
import sys
import types

PRELUDE = '''LOG = []
class Ctx:
    def __init__(self, v):
        self.v = v
    def __enter__(self):
        LOG.append(('enter', self.v))
        return self
    def __exit__(self, t, v, tb):
        LOG.append(('exit', t and t.__name__))
        return t is KeyError
def f(a):
    b = a + 1
    return b
def g(a):
    c = a
    raise ValueError(c)
def rec(n):
    if n <= 0:
        return 0
    return rec(n - 1) + 1
def gen(n):
    yield n
    yield n + 1
'''
MAIN = '''def main():
    for start in (0, 2):
        try:
            r = target(start)
            if hasattr(r, '__next__'):
                r = list(r)
            LOG.append(r)
        except Exception as e:
            LOG.append((type(e).__name__, str(e)))
    return list(LOG)
'''

ATOMS = ['x += 1', 'x = f(x)', 'x = g(x)', 'raise KeyError(x)', 'return x', 'y = sum(i for i in (x, 1))', 'x = rec(2)',
         'yield x', 'x = (lambda q: q + 1)(x)', 'z = list(gen(x))']
SHORT = ['x += 1', 'x = g(x)', 'return x', 'raise']


def indent(lines):
    return ['    ' + line for line in lines]


def compounds(bodies, shorts):
    """All compound statements over the given bodies (lists of lines)."""
    for b in bodies:
        yield ['for i in range(2):'] + indent(b)
        yield ['with Ctx(x):'] + indent(b)
        yield ['if x:'] + indent(b)
        yield ['w = 0', 'while w < 2:'] + indent(['w += 1'] + b)
        yield ['def inner():', '    nonlocal x'] + indent(b) + ['inner()']
        for s in shorts:
            yield ['try:'] + indent(b) + ['except ValueError as e:'] + indent(s)
            if s != ['raise']:
                yield ['try:'] + indent(b) + ['finally:'] + indent(s)
    for jump in ('break', 'continue'):
        yield ['for i in range(2):'] + indent([jump])
        yield ['for i in range(3):'] + indent(['if i == 1:', '    ' + jump, 'x += i'])
    yield ['class K:'] + indent(['q = 1', 'q += 1'])
    yield ['for i in gen(x):'] + indent(['x += i'])
    yield ['for i in gen(x):'] + indent(['if i:', '    break'])
    yield ['yield from gen(x)']
    yield ['x = f(', '    g(x)', ')']
    yield ['x = f(', '    f(x)', ')']


def statements(level):
    """Statements of nesting up to level."""
    out = [[a] for a in ATOMS]
    bodies = list(out)
    shorts = [[s] for s in SHORT]
    for _ in range(level):
        new = list(compounds(bodies, shorts))
        bodies = [[a] for a in ATOMS] + new
        out = bodies
    return out


def programs(tier, size=None):
    """
    All programs of the grammar.

    quick: one statement of nesting 2 (every statement in every statement), and two statements of nesting 1 where one of
    them is an atom. thorough: two statements of nesting 1.
    """
    one = statements(1)
    atoms = [[a] for a in ATOMS]
    seen = set()
    if size == 'small':
        source = (s for s in one)
    elif size == 'medium':
        source = itertools.chain(one, (a + s for a in atoms[:4] for s in one))
    elif tier == 'quick':
        source = itertools.chain(one, (a + s for a in atoms for s in one), (s + a for a in atoms for s in one))
    else:
        source = itertools.chain(statements(2), (a + s for a in one for s in one))
    for body in source:
        key = tuple(body)
        if key not in seen:
            seen.add(key)
            yield render(body)


def render(body):
    return PRELUDE + '\n'.join(['def target(x):'] + indent(body) + ['    return x']) + '\n' + MAIN


FIRST_BODY_LINE = PRELUDE.count('\n') + 2


HAND = {
    'mutual': '''
def even(n):
    if n == 0:
        return True
    return odd(n - 1)
def odd(n):
    if n == 0:
        return False
    return even(n - 1)
def main():
    return [even(3), odd(2)]
''',
    'generators': '''
def inner(n):
    got = yield n
    try:
        got = yield got
    except KeyError as e:
        got = 'key'
    finally:
        n = n + 1
    return (n, got)
def outer(n):
    r = yield from inner(n)
    return r
def main():
    out = []
    g = outer(1)
    out.append(next(g))
    out.append(g.send(5))
    try:
        g.throw(KeyError('k'))
    except StopIteration as e:
        out.append(e.value)
    h = outer(2)
    out.append(next(h))
    h.close()
    a, b = inner(1), inner(2)
    out.append(next(a))
    out.append(next(b))
    out.append(a.send('x'))
    out.append(b.send('y'))
    del a
    return out
''',
    'exceptions': '''
class Boom(Exception):
    pass
def deep(n):
    if n == 0:
        raise Boom(n)
    try:
        return deep(n - 1)
    except Boom as e:
        if n == 2:
            raise
        raise Boom(n) from e
    finally:
        n += 1
def swallow():
    try:
        deep(3)
    except Boom as e:
        return e.args
def nested():
    try:
        try:
            deep(1)
        except KeyError:
            return 'no'
        finally:
            x = 1
    except Boom:
        return x
def main():
    return [swallow(), nested(), swallow()]
''',
    'classes': '''
class Base:
    count = 0
    def __init__(self, v):
        self.v = v
        Base.count += 1
    @property
    def double(self):
        return self.v * 2
    @staticmethod
    def make(v):
        return Base(v)
    @classmethod
    def other(cls, v):
        return cls(v).double
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.v = None
class Sub(Base):
    def __init__(self, v):
        super().__init__(v)
        self.w = [v]
    def __iter__(self):
        return iter(self.w)
    def __getattr__(self, name):
        if name == 'magic':
            return 7
        raise AttributeError(name)
def main():
    out = [Base.make(1).double, Sub.other(2)]
    with Sub(3) as s:
        out.append(list(s))
        out.append(s.magic)
    out.append(s.v)
    out.append(hasattr(s, 'nope'))
    return out
''',
    'closures': '''
def counter():
    n = 0
    def inc(by=1):
        nonlocal n
        n += by
        return n
    return inc
def deco(fn):
    def wrapped(*args, **kwargs):
        r = fn(*args, **kwargs)
        return ('w', r)
    return wrapped
@deco
def plain(a, *rest, k=None, **kw):
    t = (a, rest, k,
         kw)
    return t
def main():
    c = counter()
    c()
    c(by=3)
    fs = [lambda i=i: i * c() for i in range(3)]
    d = {k: v for k, v in zip('ab', (1, 2))}
    e = {i % 2 for i in range(5)}
    return [c(), plain(1, 2, k=3, z=4), [f() for f in fs], d, e]
''',
    'loops': '''
def find(items, want):
    for i, item in enumerate(items):
        if item == want:
            break
    else:
        i = -1
    return i
def spin(n):
    total = 0
    while n:
        n -= 1
        if n % 2: continue
        total += n
    else:
        total += 100
    return total
def match_it(v):
    match v:
        case {'a': x}:
            return ('map', x)
        case [first, *rest]:
            return (first, rest)
        case int() if v > 3:
            return 'big'
        case _:
            return None
def main():
    one = 1; two = 2; three = one + two
    return [find([1, 2], 2), find([], 1), spin(5), match_it({'a': 1}), match_it([1, 2]), match_it(5), match_it('x'),
            three, [a for a in (1, 2)
                    if a > 1]]
''',
    'async': '''
class Await:
    def __init__(self, v):
        self.v = v
    def __await__(self):
        got = yield self.v
        return got
async def step(n):
    r = await Await(n)
    return r
async def both():
    a = await step(1)
    b = await step(2)
    async with Manager() as m:
        b += 1
    return [a, b]
class Manager:
    async def __aenter__(self):
        return 1
    async def __aexit__(self, *a):
        return False
async def agen():
    yield 1
    await step(9)
    yield 2
async def loop():
    out = []
    async for v in agen():
        out.append(v)
    return out
def drive(co):
    sent = None
    seen = []
    while True:
        try:
            seen.append(co.send(sent))
        except StopIteration as e:
            return (seen, e.value)
        sent = seen[-1] * 10
def main():
    return [drive(both()), drive(loop())]
''',
    'threads': '''
import threading
def work(n, out):
    total = 0
    for i in range(n):
        total += i
    out.append(total)
    return total
def main():
    out = []
    for n in (2, 3):
        t = threading.Thread(target=work, args=(n, out))
        t.start() or t.join()
    return out
''',
    'recursion-unwind': '''
class Stop(Exception):
    pass
def walk(n, fail):
    try:
        if n == fail:
            raise Stop(n)
        if n == 0:
            return [0]
        r = walk(n - 1, fail)
        r.append(n)
        return r
    except Stop as e:
        if n == 3:
            return ['stopped', e.args[0]]
        raise
def main():
    return [walk(2, -1), walk(4, 1), walk(3, 3)]
''',
    'reraise': '''
def risky(n):
    if n:
        raise ValueError(n)
    return 'fine'
def ctxt(n):
    try:
        return risky(n)
    except ValueError as e:
        x = str(e)
    return x
def late():
    for i in range(2):
        try:
            risky(i)
        finally:
            i = None
    return 'never'
def main():
    out = [ctxt(0), ctxt(1)]
    try:
        late()
    except ValueError as e:
        out.append(e.args)
    try:
        [risky(i) for i in (0, 1)]
    except ValueError as e:
        out.append(e.args)
    out.append(sorted([3, 1, 2], key=lambda v: -v))
    out.append(list(map(risky, [0, 0])))
    return out
''',
}


def hand_programs():
    return list(HAND.items())


def load(source, filename='/app-root-of-the-check/host.py', name='host_program'):
    """Compile and execute a program, and return its module namespace."""
    code = compile(source, filename, 'exec')
    ns = {'__name__': name, '__builtins__': __builtins__}
    exec(code, ns)
    return ns


class Event:
    """An event as seen by the recorder."""

    __slots__ = ('index', 'event', 'frame_no', 'file', 'base', 'line', 'function', 'arg', 'exc', 'forwarded', 'depth',
                 'tid', 'lasti')

    def __repr__(self):
        return '%d:%s %s:%s %s #%d' % (self.index, self.event, self.base, self.line, self.function, self.frame_no)


RESUME = dis.opmap['RESUME']


def is_fresh(frame):
    """Is this 'call' event the start of the invocation (not a generator that is continued)."""
    code = frame.f_code.co_code
    return code[frame.f_lasti] != RESUME or code[frame.f_lasti + 1] & 3 == 0


class Recorder:
    """
    The composite trace function.

    It sees every event of the frames of the host files, and calls the trace function of the agent as python would: the
    result of the 'call' event decides if the frame is traced, a later None keeps the function.
    """

    def __init__(self, agent_trace, files, before=None, after=None):
        self.agent_trace = agent_trace
        self.files = files
        self.before = before
        self.after = after
        self.events = []
        # id(frame) -> number. The frames are not kept, as this would change when generators etc. are finalised
        self.frames = {}
        self.local = {}        # frame number -> trace function or None
        self.number = 0
        self.raised = None

    def frame_no(self, frame, is_call):
        known = self.frames.get(id(frame))
        if known is None or is_call and is_fresh(frame):
            self.number += 1
            known = self.frames[id(frame)] = self.number
        return known

    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        e = Event()
        e.index = len(self.events)
        e.event = event
        e.file = frame.f_code.co_filename
        e.base = e.file.rsplit('/', 1)[-1]
        e.line = frame.f_lineno
        e.function = frame.f_code.co_name
        e.lasti = frame.f_lasti
        # the values are not kept (as for the frames)
        e.arg = arg[0] if event == 'exception' else None
        e.frame_no = self.frame_no(frame, event == 'call')
        self.events.append(e)
        fn = self.agent_trace if event == 'call' else self.local.get(e.frame_no)
        e.forwarded = fn is not None
        if self.before:
            self.before(e, frame, arg)
        if fn is not None:
            try:
                result = fn(frame, event, arg)
            except BaseException as ex:
                self.raised = self.raised or (repr(e), repr(ex))
                raise
            if event == 'call' or result is not None:
                self.local[e.frame_no] = result
        if self.after:
            self.after(e, frame, arg)
        return self

    def run(self, fn, *args):
        """Run fn under the recorder. Returns (result, exception)."""
        old = sys.gettrace()
        sys.settrace(self)
        try:
            result, error = fn(*args), None
        except Exception as ex:
            result, error = None, ex
        finally:
            sys.settrace(old)
        # drop the frames
        self.frames = {}
        return result, error


def functions(source):
    """All code names of a program with their lines (of 'line' events that are possible)."""
    out = {}
    todo = [compile(source, 'x', 'exec')]
    while todo:
        code = todo.pop()
        out.setdefault(code.co_name, set()).update(n for _, _, n in code.co_lines() if n)
        todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
    return out


def chunks(items, n):
    """Split into n interleaved parts."""
    return [items[i::n] for i in range(n)]


PAUSED_FILE = '/app-root-of-the-check/paused.py'
PAUSED_LINE = 7
_paused_code = {}


def paused(values, callback, module=None, filename=PAUSED_FILE, name='paused_fn'):
    """
    Call callback(frame) with the frame of a real function that is paused, and has exactly these locals.

    :param values: the locals, as list of (name, value) or dict
    :param callback: called with the frame
    :param module: the globals of the module of the function
    """
    items = list(values.items()) if isinstance(values, dict) else list(values)
    names = tuple(n for n, _ in items)
    key = (names, filename, name)
    if key not in _paused_code:
        source = '\n' * (PAUSED_LINE - 2) + 'def %s(%s):\n    return __probe__()\n' % (name, ', '.join(names))
        _paused_code[key] = compile(source, filename, 'exec')
    ns = {'__name__': 'paused_module', '__builtins__': __builtins__}
    ns.update(module or {})
    ns['__probe__'] = lambda: callback(sys._getframe(1))
    exec(_paused_code[key], ns)
    return ns[name](*[v for _, v in items])
