"""C02: every snapshot of every program of a grammar compared with an independent reading of the paused frame."""
import sys
import threading

from deep.api.plugin.python import PythonPlugin
from mc import env, graph, host, hostile
from mc.agent import Agent, tp
from mc.core import Violation

BOUNDS = {
    'quick': 'all programs of the grammar (2840) with a tracepoint on every line and every function (single frame, watches), '
             '140 of them and 10 hand written programs x 3 frame types x 9 configurations of the application paths x 2 '
             'ways (line/method) with real values; 190 kinds of values as locals; stacks of up to 700 frames',
    'thorough': 'as quick with 21300 programs, 700 of them x frame types x configurations',
}
RULE = 'a program, the frame type, the configuration of the paths and the event the snapshot is taken at'

FREE = {'fire_count': '-1', 'fire_period': '0'}
PATHS = [
    ('/app-root-of-the-check/host.py', {}),
    ('/app-root-of-the-check/pkg/sub/host.py', {'IN_APP_EXCLUDE': ['/app-root-of-the-check/pkg']}),
    ('/app-root-of-the-check/pkg/sub/host.py', {'IN_APP_INCLUDE': ['/app-root-of-the-check/pkg/sub'],
                                               'IN_APP_EXCLUDE': ['/other']}),
    ('/elsewhere/host.py', {}),
    ('/elsewhere/lib/host.py', {'IN_APP_INCLUDE': '/nothing,/elsewhere', 'IN_APP_EXCLUDE': '/never'}),
    ('/elsewhere/lib/host.py', {'IN_APP_INCLUDE': ['/elsewhere'], 'IN_APP_EXCLUDE': ['/elsewhere/lib']}),
    ('relative/relative/host.py', {'APP_ROOT': 'relative'}),
    ('/app/x/host.py', {'APP_ROOT': '/app/x/', 'IN_APP_EXCLUDE': '/a/p,/app/y'}),
    ('host.py', {'APP_ROOT': '/app', 'IN_APP_INCLUDE': ['host']}),
    ('/srv/a.c+b (1)/[x]/host.py', {'IN_APP_INCLUDE': ['/srv/a.c+b (1)/[x]'], 'IN_APP_EXCLUDE': ['/srv/aXc', '/srv/*']}),
    ('/srv/aXc/host.py', {'IN_APP_INCLUDE': ['/srv/a.c', '/srv/.*', '/srv/*', '[/]srv', '/SRV', 'srv']}),
    ('/srv/pkg*/a?/host.py', {'IN_APP_INCLUDE': ['/srv'], 'IN_APP_EXCLUDE': ['/srv/pkg*/a?']}),
    ('/srv/pkg/host.py', {'IN_APP_INCLUDE': ['/srv'], 'IN_APP_EXCLUDE': ['/srv/p*', '/srv/.*', '/srv/p?g', '/srv/[p]kg', '/Srv']}),
    ('/srv/a b/\\x,y/host.py', {'IN_APP_INCLUDE': ['/srv/a b/\\x,y'], 'IN_APP_EXCLUDE': ['/srv/ab', '/srv/A']}),
    ('/srv/caf\u00e9 \u4e2d/host.py', {'IN_APP_INCLUDE': ['/srv/caf\u00e9']}),
]


def listed(value):
    if isinstance(value, str):
        value = value.split(',')
    return [v for v in value or [] if v]


def expected_path(custom, filename):
    """The possible (app frame, short path)."""
    exclude = listed(custom.get('IN_APP_EXCLUDE', ['/never-an-app-path'])) + [sys.exec_prefix]
    include = listed(custom.get('IN_APP_INCLUDE')) + [custom.get('APP_ROOT', '/app-root-of-the-check')]
    out = [p for p in exclude if filename.startswith(p)]
    if out:
        return [(False, filename[len(p):]) for p in out]
    out = [p for p in include if filename.startswith(p)]
    if out:
        return [(True, filename[len(p):]) for p in out]
    return [(False, filename)]


def read(frame):
    """Read the stack on our own: (file, function, line, class of self, locals)."""
    out = []
    while frame is not None:
        variables = dict(frame.f_locals)
        me = variables.get('self')
        cls = None if me is None else graph.type_name(me)
        out.append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno, cls, variables))
        frame = frame.f_back
    return out


class Monitor:
    """Compares the snapshots of each event with the frame."""

    def __init__(self, tps, custom, rec, case, budget=None):
        self.agent = Agent([PythonPlugin()], custom=custom)
        self.custom = custom
        self.rec = rec
        self.case = case
        self.limits = {'vars': int(budget)} if budget else {}
        self.pushed = threading.local()
        self.agent.push.hook = self.push
        self.agent.install(tps)
        self.tps = {t['id']: t for t in tps}
        self.local = threading.local()
        self.problem = None
        self.now = env.START_NS

    def push(self, snapshot):
        self.pushed.__dict__.setdefault('list', []).append(snapshot)

    def before(self, e, frame, arg):
        self.now += 1_000
        env.clock.now_ns = self.now
        self.local.at = self.now
        self.local.stack = read(frame)
        self.local.thread = threading.current_thread().name
        self.local.scope = {**frame.f_globals, **frame.f_locals}

    def after(self, e, frame, arg):
        snapshots = self.pushed.__dict__.pop('list', [])
        stack = self.local.__dict__.pop('stack')
        scope = self.local.__dict__.pop('scope')
        self.rec.step()
        if self.problem is None:
            try:
                want = sorted(t['id'] for t in self.tps.values() if self.applies(t, e))
                if sorted(s.tracepoint.id for s in snapshots) != want:
                    raise Violation('due', 'snapshots of %s, expected %s' % ([s.tracepoint.id for s in snapshots], want))
                for snapshot in snapshots:
                    self.judge(snapshot, e, stack, scope)
            except Violation as v:
                self.problem = (v.key, '%r: %s' % (e, v.detail))
            except Exception as ex:
                self.problem = ('unexpected-error', '%r: %r' % (e, ex))
        del stack, scope

    def applies(self, t, e):
        name = t['args'].get('method_name')
        if e.base != 'host.py':
            return False
        return e.event == 'call' and e.function == name if name else e.event == 'line' and e.line == t['line']

    def judge(self, snapshot, e, stack, scope):
        t = self.tps[snapshot.tracepoint.id]
        got = snapshot.tracepoint
        if (got.path, got.line_no, list(got.watches)) != (t['path'], t['line'], t['watches']):
            raise Violation('tracepoint', 'it names %s:%s %s' % (got.path, got.line_no, got.watches))
        for k, v in t['args'].items():
            if got.args.get(k) != v:
                raise Violation('tracepoint', 'the argument %s is %r' % (k, got.args.get(k)))
        if not self.local.at <= snapshot.ts_nanos <= env.clock.now_ns:  # (other threads move the clock)
            raise Violation('time', 'ts_nanos is %s, it is %s' % (snapshot.ts_nanos, self.local.at))
        if not 0 <= snapshot.duration_nanos <= env.clock.now_ns - snapshot.ts_nanos:
            raise Violation('time', 'duration_nanos is %s' % snapshot.duration_nanos)
        if snapshot.attributes.get('thread_name') != self.local.thread:
            raise Violation('thread', 'the thread is %s, expected %s' % (snapshot.attributes.get('thread_name'),
                                                                        self.local.thread))
        if len(snapshot.frames) != len(stack):
            raise Violation('stack', '%d frames, expected %d' % (len(snapshot.frames), len(stack)))
        frame_type = t['args'].get('frame_type', 'single_frame')
        for i, (frame, (file, function, line, cls, variables)) in enumerate(zip(snapshot.frames, stack)):
            if (frame.file_name, frame.method_name, frame.line_number, frame.class_name) != (file, function, line, cls):
                raise Violation('stack', 'the frame %d is %s, expected %s' % (
                    i, (frame.file_name, frame.method_name, frame.line_number, frame.class_name),
                    (file, function, line, cls)))
            if (bool(frame.app_frame), frame.short_path) not in expected_path(self.custom, file):
                raise Violation('app-frame', 'the file %s is %s, expected %s' % (
                    file, (frame.app_frame, frame.short_path), expected_path(self.custom, file)))
            if (frame_type == 'no_frame' or frame_type == 'single_frame' and i > 0) and frame.variables:
                raise Violation('frame-type', 'the frame %d has variables, with %s' % (i, frame_type))
        walk = graph.Walk(snapshot, {**self.limits, 'slack': len(stack)})
        if frame_type != 'no_frame':
            walk.walk([(snapshot.frames[0].variables, [({n}, v) for n, v in stack[0][4].items()], 1, 4)])
        if frame_type == 'all_frame':
            for frame, at in list(zip(snapshot.frames, stack))[1:]:
                if at[0] == stack[0][0]:
                    walk.walk([(frame.variables, [({n}, v) for n, v in at[4].items()], 1, 4)])
                elif not frame.variables and at[4] and len(snapshot.var_lookup) < walk.limits['vars'] - len(stack):
                    raise Violation('frame-type', 'the frame of %s has no variables' % at[0])
        if [w.expression for w in snapshot.watches] != t['watches']:
            raise Violation('watches', 'the results are of %s' % [w.expression for w in snapshot.watches])
        for watch in snapshot.watches:
            try:
                value = eval(watch.expression, dict(scope))
            except Exception:
                if watch.error is None:
                    raise Violation('watches', 'the watch %s has no error' % watch.expression)
                continue
            if watch.error is not None:
                raise Violation('watches', 'the watch %s failed: %s' % (watch.expression, watch.error))
            variable = snapshot.var_lookup.get(watch.result.vid)
            if variable is None:
                raise Violation('watches', 'the watch %s has no value' % watch.expression)
            graph.check_value(variable, value, walk.limits, lambda key, d: _fail('watches', watch.expression + ': ' + d))
        self.rec.trace(lambda: '%r %s %s' % (e, t['id'], self.case))
        self.rec.state((e.line, e.event, frame_type, tuple((s[1], s[2], s[3]) for s in stack[:6]),
                        tuple(v.value for v in snapshot.var_lookup.values()) if frame_type == 'single_frame' else None))

    def run(self, fn, file):
        recorder = host.Recorder(self.agent.handler.trace_call, {file}, self.before, self.after)
        threading.settrace(recorder)
        try:
            # on a thread of its own, as this has only a few other frames
            out = []
            recorder.last = None
            thread = threading.Thread(target=start, args=(recorder, fn, out), name='host')
            threading.settrace(None)
            thread.start()
            thread.join()
        finally:
            threading.settrace(None)
            env.clock.reset()
        if recorder.raised:
            raise Violation('raised', 'the trace function raised %s' % (recorder.raised,), self.case)
        if self.problem:
            raise Violation(*self.problem, self.case)
        return recorder


def start(recorder, fn, out):
    threading.settrace(recorder)
    out.append(recorder.run(fn))
    threading.settrace(None)


def _fail(key, detail):
    raise Violation(key, detail)


WATCHES = ['x', 'LOG', 'len(LOG)', 'main', '[x, n]', 'missing.x', 'self', '1 + 1', '(lambda: x)()']


def tracepoints(source, frame_type, budget=None):
    args = dict(FREE, frame_type=frame_type)
    if frame_type is None:
        args.pop('frame_type')
    if budget:
        args['MAX_VARIABLES'] = str(budget)
    out = []
    functions = host.functions(source)
    for line in sorted({n for lines in functions.values() for n in lines}):
        out.append(tp('l%d' % line, 'host.py', line, args, watches=WATCHES if line % 2 else ['x']))
    for name in functions:
        out.append(tp('m-' + name, 'host.py', 1, {**args, 'method_name': name, 'stage': 'method_start'},
                      watches=['n', 'x'] if len(name) % 2 else []))
    return out


def program_unit(source, file, custom, frame_types, rec):
    for frame_type in frame_types:
        case = {'program': source, 'frame_type': frame_type, 'file': file, 'config': custom}
        budget = 150 if frame_type == 'all_frame' else None
        main = host.load(source, file)['main']
        Monitor(tracepoints(source, frame_type, budget), custom, rec, case, budget).run(main, file)


def module_unit(source, rec):
    """The code of the module itself."""
    file = PATHS[0][0]
    for frame_type in ('single_frame', 'no_frame'):
        Monitor(tracepoints(source, frame_type), {}, rec, {'module': source}).run(lambda: host.load(source, file), file)


VALUES = '''class Plain:
    cls_attr = 5
    def __init__(self):
        self.public = [1]
        self._protected = 'p'
        self.__private = {'k': 2}
    def __str__(self):
        return 'a Plain'
    def method(self, value):
        local = value
        return local
class __Under(Plain):
    def __init__(self):
        super().__init__()
        self.__own = 3
def one(value):
    other = value
    box = [value, other, {'v': value}, (value,)]
    return box
def main():
    global seen
    for value in VALUES:
        seen = value
        one(value)
        Plain().method(value)
    self = __Under()
    return self
'''

# the texts of these are no property of the value, or reading them changes them
CHANGING = {'generator', 'coroutine', 'async generator', 'magic mock', 'non callable mock', 'dead proxy'}


def values_unit(rec, part):
    """Values of many types."""
    file = PATHS[0][0]
    names = [n for i, n in enumerate(hostile.SIMPLE) if n != 'future' and i % 8 == part and n not in CHANGING]
    extra = [[1, [2, [3]]], {'a': {'b': {'c': {}}}}, {1, 2}, frozenset([3]), (1, (2, (3,))), 'x' * 1024, 'x' * 1025,
             list(range(10)), list(range(11)), {i: i for i in range(20)}, set(range(11)), b'bytes', 10 ** 100, -0.0, 1e300]
    values = [hostile.HOSTILE[n]() for n in names] + [v for i, v in enumerate(extra) if i % 8 == part]
    for value in values:
        for frame_type in ('single_frame', 'all_frame'):
            ns = host.load(VALUES, file)
            ns['VALUES'] = [value]
            case = {'value': graph.type_name(value), 'part': part, 'frame_type': frame_type}
            tps = tracepoints(VALUES, frame_type, 150 if frame_type == 'all_frame' else None)
            for t in tps:
                t['watches'] = ['value', 'self', 'seen'] if t['watches'] else []
            Monitor(tps, {}, rec, case, 150 if frame_type == 'all_frame' else None).run(ns['main'], file)


DEFERRED = ({'stage': 'line_capture'}, {'stage': 'method_capture'})


def deferred_unit(source, rec):
    """A snapshot that is deferred describes the frame when it was triggered: as one that is not deferred."""
    from mc.checks.c06 import comparable, canonical
    file = PATHS[0][0]
    functions = host.functions(source)
    tps = []
    for line in sorted({n for lines in functions.values() for n in lines}):
        tps.append(tp('now-%d' % line, 'host.py', line, FREE, watches=['x', 'LOG']))
        tps.append(tp('later-%d' % line, 'host.py', line, {**FREE, 'stage': 'line_capture'}, watches=['x', 'LOG']))
    for name in functions:
        tps.append(tp('now-' + name, 'host.py', 1, {**FREE, 'stage': 'method_start', 'method_name': name}, watches=['n']))
        tps.append(tp('later-' + name, 'host.py', 1, {**FREE, 'stage': 'method_capture', 'method_name': name}, watches=['n']))
    agent = Agent()
    agent.install(tps)
    case = {'deferred': source}
    now, later = {}, {}

    def push(snapshot):
        kind, _, place = snapshot.tracepoint.id.partition('-')
        watches = [w for w in snapshot.watches if w.source != 'CAPTURE']
        captured = {w.result.vid for w in snapshot.watches if w.source == 'CAPTURE' and w.result is not None}
        snapshot.watches[:] = watches
        form = comparable(canonical(snapshot))
        (now if kind == 'now' else later).setdefault((place, snapshot.ts_nanos), []).append((form, len(captured)))
        if not snapshot.ts_nanos <= env.clock.now_ns or snapshot.duration_nanos < 0 or \
                snapshot.ts_nanos + snapshot.duration_nanos > env.clock.now_ns:
            raise Violation('time', 'ts %s duration %s at %s' % (snapshot.ts_nanos, snapshot.duration_nanos, env.clock.now_ns))
    problem = []

    def guarded(snapshot):
        try:
            push(snapshot)
        except BaseException as e:
            problem.append(repr(e))
    agent.push.hook = guarded

    def before(e, frame, arg):
        env.clock.now_ns += 1_000_000
        rec.step()
    recorder = host.Recorder(agent.handler.trace_call, {file}, before)
    main = host.load(source, file)['main']
    out = []
    thread = threading.Thread(target=start, args=(recorder, main, out))
    thread.start()
    thread.join()
    env.clock.reset()
    rec.trace(lambda: case)
    if problem:
        raise Violation('deferred', problem[0], case)
    for key, forms in later.items():
        rec.state((key, forms[0][0]))
        if key not in now:
            raise Violation('time', 'the deferred snapshot %s has another time' % (key,), case)
        if [f for f, _ in forms] != [f for f, _ in now[key]]:
            raise Violation('deferred', 'the deferred snapshot %s differs: %s\n%s' % (key, forms[0][0], now[key][0][0]), case)


DEEP = '''class Thing:
    def go(self, n):
        x = n
        if n > 0:
            return even(self, n - 1)
        return bottom(n)
def even(thing, n):
    x = [n]
    if n > 0:
        return (lambda m: thing.go(m))(n - 1)
    return bottom(n)
def chain(n):
    x = n
    if n > 0:
        yield from chain(n - 1)
    yield bottom(n)
def bottom(n):
    x = n
    y = x + 1
    return y
def main():
    Thing().go(DEPTH)
    return list(chain(DEPTH // 4))[:2]
'''
DEPTHS = (0, 1, 2, 9, 19, 20, 21, 49, 50, 63, 64, 99, 100, 127, 128, 255, 256, 300, 511, 512, 600, 700)


def deep_unit(depth, rec):
    """Stacks of any depth."""
    file = PATHS[0][0]
    line = DEEP.splitlines().index('    y = x + 1') + 1
    for frame_type in ('single_frame', 'all_frame', 'no_frame', None):
        budget = 150 if frame_type == 'all_frame' else None
        args = dict(FREE, frame_type=frame_type)
        if frame_type is None:
            args.pop('frame_type')
        if budget:
            args['MAX_VARIABLES'] = str(budget)
        tps = [tp('l', 'host.py', line, args, watches=['x']),
               tp('m', 'host.py', 1, {**args, 'method_name': 'bottom', 'stage': 'method_start'}, watches=['n'])]
        ns = host.load(DEEP, file)
        ns['DEPTH'] = depth
        Monitor(tps, {}, rec, {'depth': depth, 'frame_type': frame_type}, budget).run(ns['main'], file)


N = 96


def units(tier):
    out = [('hand', i) for i in range(len(host.HAND))] + [('values', i) for i in range(8)]
    out += [('config', i) for i in range(32)] + [('deferred', i) for i in range(8)]
    out += [('deep', d) for d in DEPTHS]
    return out + [('programs', i) for i in range(N)]


def run_unit(unit, rec, tier):
    kind, part = unit
    if kind == 'hand':
        name, source = host.hand_programs()[part]
        for file, custom in PATHS:
            program_unit(source, file, custom, ('single_frame', 'all_frame', 'no_frame', None), rec)
        module_unit(source, rec)
        deferred_unit(source, rec)
    elif kind == 'values':
        values_unit(rec, part)
    elif kind == 'deep':
        deep_unit(part, rec)
    elif kind == 'config':
        for i, source in enumerate(host.programs(tier, 'small' if tier == 'quick' else 'medium')):
            if i % 32 == part:
                file, custom = PATHS[i // 32 % len(PATHS)]
                program_unit(source, file, custom, ('single_frame', 'all_frame', 'no_frame', None), rec)
                if i % 4 == 0:
                    module_unit(source, rec)
    elif kind == 'deferred':
        for i, source in enumerate(host.programs(tier, 'small' if tier == 'quick' else 'medium')):
            if i % 8 == part:
                deferred_unit(source, rec)
    else:
        for i, source in enumerate(host.programs(tier)):
            if i % N == part:
                file, custom = PATHS[i % len(PATHS)]
                program_unit(source, file, custom, ('single_frame',), rec)
