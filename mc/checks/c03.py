"""
C03: every program of the grammar x tracepoint sets; the actions of the agent at every trace event are compared with the
events that an independent recorder has seen.
"""
import itertools
from collections import Counter
import threading

from mc import host, plugins
from mc.agent import Agent, tp
from mc.core import Violation

BOUNDS = {
    'quick': '2840 generated programs (nesting 1, two statements) and 10 hand written ones x 5 tracepoint sets (all lines and '
             'functions at once, several per location, other files, none); each location alone in 140 programs; the config '
             'replaced at each of the steps of a program with nested calls, generators and a thread (16 pairs x 3 configs)',
    'thorough': '21300 generated programs x 5 tracepoint sets; each location alone in 700 programs',
}
RULE = 'at each event of the recording exactly the tracepoints of that location have acted, once each'
FILE = '/app-root-of-the-check/host.py'
OTHER = '/app-root-of-the-check/lib/other.py'
SAME = '/app-root-of-the-check/lib/host.py'
FREE = {'fire_count': '-1', 'fire_period': '0'}


def make_tps(source, kind):
    """The tracepoints of a set: list of (tracepoint, basename, line or None, function or None)."""
    functions = host.functions(source)
    lines = sorted(set(itertools.chain(*functions.values())))
    out = []

    def line_tp(i, path, line, args, **kw):
        out.append((tp('%s:%s:%s' % (kind, i, line), path, line, {**FREE, **args}, **kw), path, line, None))

    def method_tp(i, path, name, line, args, **kw):
        out.append((tp('%s:%s:%s' % (kind, i, name), path, line, {**FREE, **args, 'method_name': name}, **kw), path, None,
                    name))
    quiet = {'snapshot': 'no_collect'}
    if kind == 'all':
        # log only, so that many can be installed
        for line in range(0, max(lines) + 2):
            line_tp('l', 'host.py', line, {**quiet, 'log_msg': 'l'})
        for name in functions:
            method_tp('m', 'host.py', name, 1, {**quiet, 'log_msg': 'm'})
    elif kind == 'several':
        for line in lines[::4]:
            # no function has such a name
            method_tp('text', 'host.py', str(line), line, {**quiet, 'log_msg': 'x'})
        for line in lines[::2]:
            line_tp('snap', 'host.py', line, {'frame_type': 'no_frame'})
            line_tp('log', 'host.py', line, {**quiet, 'log_msg': 'x'})
            line_tp('span', 'host.py', line, {**quiet, 'span': 'line'})
            line_tp('metric', 'host.py', line, quiet, metrics=[{'name': 'm'}])
        for name in list(functions)[::2]:
            method_tp('snap', 'host.py', name, 1, {'frame_type': 'no_frame'})
            method_tp('span', 'host.py', name, 2, {**quiet, 'span': 'method'})
            method_tp('cap', 'host.py', name, 3, {'stage': 'method_start', 'frame_type': 'no_frame'})
    elif kind == 'elsewhere':
        # nothing of this is ever reached: other file names, and names and lines that are close to those of the program
        for line in lines:
            for path in ('ost.py', 'host.py2', 'Host.py', 'host', '', '.py', 'x/host.pyc'):
                line_tp(path, path, line, {**quiet, 'log_msg': 'x'})
        for name in functions:
            for other in (name + 'x', name[:-1], name.upper(), '', 'x.' + name):
                if other != name and other not in functions:
                    method_tp('n', 'host.py', other, lines[0], {**quiet, 'log_msg': 'x'})
            method_tp('f', 'other_host.py', name, lines[0], {**quiet, 'log_msg': 'x'})
    elif kind == 'mixed':
        # the other files of the program have the same lines and functions
        for line in lines[1::2]:
            line_tp('h', 'host.py', line, {**quiet, 'log_msg': 'x'})
            line_tp('o', 'other.py', line, {**quiet, 'log_msg': 'x'})
        for name in functions:
            method_tp('o', 'other.py', name, lines[-1], {**quiet, 'log_msg': 'x'})
    return out


def make_agent():
    sink = plugins.Sink()
    agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink)])
    agent.push.hook = lambda snapshot: sink.add('snapshot', snapshot.tracepoint.id)
    return agent, sink


def acted(calls):
    """The tracepoint ids that have acted."""
    out = []
    for call in calls:
        if call[0] in ('log', 'snapshot'):
            out.append(call[1])
        elif call[0] == 'open':
            out.append(call[3])
        elif call[0] == 'metric':
            out.append(call[3])
    return sorted(out)


def expected(tps, e):
    out = []
    for t, path, line, name in tps:
        if path != e.base:
            continue
        if (line is not None and e.event == 'line' and e.line == line) \
                or (name is not None and e.event == 'call' and e.function == name):
            out.append('m' if t['metrics'] else t['id'])
    return sorted(out)


def run(tps, calls, rec, case):
    agent, sink = make_agent()
    if tps:
        agent.install([t[0] for t in tps])

    def after(e, frame, arg):
        rec.step()
        got, want = acted(sink.take()), expected(tps, e)
        agent.push.take()
        if got != want:
            problems.append((repr(e), got, want))
    problems = []
    for fn in calls:
        recorder = host.Recorder(agent.handler.trace_call, {FILE, OTHER, SAME}, after=after)
        recorder.run(fn)
        if recorder.raised:
            raise Violation('raised', 'the trace function raised %s' % (recorder.raised,), case)
        if not recorder.events:
            raise Violation('harness', 'nothing was recorded', case)
        rec.maximum('events', len(recorder.events))
        rec.state(tuple((e.event, e.line, e.function) for e in recorder.events))
    rec.trace(lambda: case)
    if problems:
        raise Violation('placement', 'at %s acted %s expected %s (%d events differ)' % (*problems[0], len(problems)), case)


def program_unit(source, kinds, rec):
    main = host.load(source, FILE)['main']
    for kind in kinds:
        tps = make_tps(source, kind)
        calls = [main]
        if kind == 'mixed':
            calls += [host.load(source, OTHER)['main'], host.load(source, SAME)['main'], main]
        run(tps, calls, rec, {'set': kind, 'program': source})


def module_unit(source, rec):
    """The code of the module itself (class bodies, definitions), and a config that is replaced between the runs."""
    code = compile(source, FILE, 'exec')

    def execute():
        ns = {'__name__': 'x', '__builtins__': __builtins__}
        exec(code, ns)
        ns['main']()
    tps = make_tps(source, 'all')
    run(tps, [execute], rec, {'module': source})
    half = tps[::2]
    agent, sink = make_agent()
    main = host.load(source, FILE)['main']
    for current in (tps, half, [], tps[1::2], half):
        agent.install([t[0] for t in current])
        problems = []

        def after(e, frame, arg):
            rec.step()
            got, want = acted(sink.take()), expected(current, e)
            if got != want:
                problems.append((repr(e), got, want))
        host.Recorder(agent.handler.trace_call, {FILE}, after=after).run(main)
        rec.trace()
        if problems:
            raise Violation('placement-after-update', 'at %s acted %s expected %s' % problems[0], source)


def real_unit(name, source, rec):
    """With the trace hooks installed by the agent itself: the totals are those of the recording without the agent."""
    recorder = host.Recorder(lambda *a: None, {FILE})
    threading.settrace(recorder)
    try:
        recorder.run(host.load(source, FILE)['main'])
    finally:
        threading.settrace(None)
    tps = make_tps(source, 'all')
    want = sorted(itertools.chain(*(expected(tps, e) for e in recorder.events)))
    agent, sink = make_agent()
    agent.install([t[0] for t in tps])
    main = host.load(source, FILE)['main']
    agent.handler.start()
    try:
        main()
    finally:
        agent.handler.shutdown()
    got = acted(sink.take())
    rec.step(len(recorder.events))
    rec.trace()
    if got != want:
        raise Violation('placement-real', 'too many %s missing %s' % (sorted((Counter(got) - Counter(want)).elements()),
                                                               sorted((Counter(want) - Counter(got)).elements())), name)
    main()
    if sink.take():
        raise Violation('acts-after-shutdown', 'the agent acts after it is shut down', name)


UPDATES = '''
import threading
step = None
class Thing:
    x = 0
    def __init__(self):
        self.v = step(1)
        self.w = [step(i) for i in range(2)]
    def method(self, n):
        step(n)
        if n > 0:
            self.method(n - 1)
        return step(n)
def numbers():
    for i in range(3):
        step(i)
        yield i
    step(9)
def fails():
    try:
        step(1)
        raise ValueError(step(2))
    except ValueError:
        step(3)
    finally:
        step(4)
def delegating():
    step(0)
    yield from numbers()
    step(1)
def in_thread():
    step(1)
    Thing().method(1)
    step(2)
def main():
    step(0)
    thing = Thing()
    thing.method(2)
    running = delegating()
    for i in running:
        step(i)
        other = lambda x: step(x)
        other(i)
    fails()
    thread = threading.Thread(target=in_thread)
    thread.start(); thread.join()
    for i in range(2):
        step(i)
    return step(5)
'''
AWAY = {
    # what is installed before the update. Without any tracepoint the agent does not trace, so it cannot act in the
    # functions that are running
    'other-file': lambda tps: [(tp('o', 'other.py', 3, {**FREE, 'log_msg': 'o'}), 'other.py', 3, None)],
    'other-method': lambda tps: [(tp('o', 'other.py', 3, {**FREE, 'log_msg': 'o', 'method_name': 'main'}), 'other.py', None,
                                  'main')],
    'missing-line': lambda tps: [(tp('o', 'host.py', 999, {**FREE, 'log_msg': 'o'}), 'host.py', 999, None)],
    'missing-method': lambda tps: [(tp('o', 'host.py', 3, {**FREE, 'log_msg': 'o', 'method_name': 'no'}), 'host.py', None,
                                    'no')],
    'never': lambda tps: [(tp('o', 'host.py', 4, {'fire_count': '0', 'log_msg': 'o', 'snapshot': 'no_collect'}), 'host.py',
                           None, None)],
    'half': lambda tps: tps[::2],
    'rest': lambda tps: tps[1::2],
    'all': lambda tps: tps,
}


def updates_unit(kind, before, rec):
    """The config is replaced while the functions are running, at each of the steps of a program."""
    tps = make_tps(UPDATES, kind)
    step = [lambda n: n]
    program = host.load(UPDATES, FILE)
    program['step'] = lambda n: step[0](n)
    main = program['main']
    # the events without the agent, and the number of steps that were made before
    steps = [0]

    def count(n):
        steps[0] += 1
        return n
    step[0] = count
    stage = []
    recorder = host.Recorder(lambda *a: None, {FILE}, before=lambda *a: stage.append(steps[0]))
    threading.settrace(recorder)
    try:
        recorder.run(main)
    finally:
        threading.settrace(None)
    total = steps[0]
    for at in range(1, total + 1):
        for first, then in ((AWAY[before](tps), tps), (AWAY[before](tps), tps[1::3]), (AWAY[before](tps), [])):
            agent, sink = make_agent()
            agent.install([t[0] for t in first])
            steps[0] = 0

            def update(n):
                steps[0] += 1
                if steps[0] == at:
                    agent.install([t[0] for t in then])
                return n
            step[0] = update
            want = sorted(itertools.chain(*(expected(then if made >= at else first, e)
                                            for e, made in zip(recorder.events, stage))))
            agent.handler.start()
            try:
                main()
            finally:
                agent.handler.shutdown()
            got = acted(sink.take())
            case = {'set': kind, 'before': before, 'after': len(then), 'step': at}
            rec.step(len(recorder.events))
            rec.trace(lambda: case)
            rec.state((kind, before, len(then), at, len(got)))
            if got != want:
                raise Violation('placement-updated', 'too many %s missing %s' % (
                    sorted((Counter(got) - Counter(want)).elements()), sorted((Counter(want) - Counter(got)).elements())),
                    case)


def single_unit(source, rec, first=host.FIRST_BODY_LINE - 1):
    """Each location alone."""
    main = host.load(source, FILE)['main']
    functions = host.functions(source)
    lines = [n for n in set(itertools.chain(*functions.values())) if n >= first]
    for line in lines:
        run([(tp('one', 'host.py', line, {**FREE, 'frame_type': 'no_frame'}), 'host.py', line, None)], [main], rec,
            {'line': line, 'program': source})
    for name in functions:
        run([(tp('one', 'host.py', 3, {**FREE, 'frame_type': 'no_frame', 'method_name': name}), 'host.py', None, name)],
            [main], rec, {'method': name, 'program': source})


KINDS = ['all', 'several', 'elsewhere', 'mixed', 'none']
N = 64


def units(tier):
    return [('hand',)] + [('updates', kind, before) for kind in ('all', 'several') for before in AWAY] + [('programs', i) for i in range(N)] + [('single', i) for i in range(16)]


def run_unit(unit, rec, tier):
    if unit[0] == 'hand':
        for name, source in host.hand_programs():
            program_unit(source, KINDS, rec)
            single_unit(source, rec, 0)
            module_unit(source, rec)
            real_unit(name, source, rec)
    elif unit[0] == 'updates':
        updates_unit(*unit[1:], rec)
    elif unit[0] == 'programs':
        for i, source in enumerate(host.programs(tier)):
            if i % N == unit[1]:
                program_unit(source, KINDS, rec)
    else:
        for i, source in enumerate(host.programs(tier, 'small' if tier == 'quick' else 'medium')):
            if i % 16 == unit[1]:
                single_unit(source, rec)
                module_unit(source, rec)
                real_unit(i, source, rec)
