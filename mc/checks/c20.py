"""
C20: the loader with every sequence of plugins of all kinds; a complete agent with every set of failing callbacks of its
plugins.
"""
import itertools
import sys

import deep.api.plugin
from deep.api.deep import Deep
from deep.api.plugin import load_plugins
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService
from deepproto.proto.poll.v1.poll_pb2 import PollRequest
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse
from mc import env, faulty, fresh, host, world
from mc.agent import SyncTasks, tp
from mc.core import Violation

BOUNDS = {
    'quick': 'loader: all sequences of up to 2 of 38 kinds of plugins, of 3 of 12 kinds, and every subset of the built in '
             'plugins with missing dependencies x switched off (code, environment); agent: 2 plugins with 7 callbacks: every '
             'subset of the callbacks failing always (16384), every single call failing in 13 ways, every pair of calls '
             'failing; 3 plugins: every call; every pair of 9 plugins with some of the callbacks; lists of up to 257 plugins',
    'thorough': 'as quick with all sequences of 3 of 38 kinds, and all triples of failing calls',
}
RULE = 'a state is a set of plugins and failing callbacks, a trace is a run of the loader (or the agent)'

# --- the loader

HERE = 'mc.faulty.'
# kind -> (dotted name, name of the plugin or None if it is not loaded, order or None if it can be anywhere)
KINDS = {}
for _name, _order in (('OrderM5', -5), ('Order0', 0), ('Order1', 1), ('Order2', 2), ('Twin1', 1), ('OrderFloat', 0.5),
                      ('OrderHuge', 10 ** 30), ('OrderBool', 1), ('OrderNone', None), ('OrderText', None), ('OrderNan', None),
                      ('OrderList', None), ('OrderFails', None), ('OrderStops', None), ('Nothing', 4)):
    KINDS[_name] = (HERE + _name, _name, _order)
for _name in ('Off', 'ActiveFails', 'ActiveStops', 'InitFails', 'InitStops', 'InitExits', 'InitArguments', 'NewFails',
              'Abstract', 'Missing', 'not_a_class', 'a_none', 'NoPlugin', 'returns_none'):
    KINDS[_name] = (HERE + _name, None, None)
for _name in ('mc_missing_dependency.Plugin', 'mc_import_fails.Plugin', 'mc_import_exits.Plugin', 'mc_import_stops.Plugin',
              'mc.no_such_module.Plugin', 'noname', '', '.', 'mc.faulty.'):
    KINDS['name ' + _name] = (_name, None, None)
for _name in ('OFF_CODE', 'OFF_BOOL'):
    KINDS[_name] = (HERE + {'OFF_CODE': 'First', 'OFF_BOOL': 'Second'}[_name], None, None)
SOME = ['OrderM5', 'Order0', 'Order1', 'Twin1', 'OrderText', 'OrderFails', 'Off', 'InitStops', 'ActiveFails',
        'name mc_missing_dependency.Plugin', 'OFF_BOOL', 'Missing']
SETTINGS = {'PLUGIN_FIRST': 'False', 'PLUGIN_SECOND': False, 'PLUGIN_ORDER0': True, 'PLUGIN_ORDER1': 'True',
            'PLUGIN_OTHER': 'False'}


def judge_loaded(loaded, wanted, case):
    """Are these the wanted [(name, order)], in order."""
    names = [type(p).__name__ for p in loaded]
    surely = [n for n, order, sure in wanted if sure]
    maybe = [n for n, order, sure in wanted if not sure]
    if sorted(n for n in names if n not in maybe) != sorted(n for n in surely if n not in maybe):
        raise Violation('loaded', 'loaded %s, expected %s: %s' % (names, [w[0] for w in wanted], case), case)
    if any(names.count(n) > maybe.count(n) + surely.count(n) for n in set(names)):
        raise Violation('loaded', 'loaded %s, expected %s: %s' % (names, [w[0] for w in wanted], case), case)
    orders = {n: order for n, order, sure in wanted}
    known = [orders[n] for n in names if orders[n] is not None]
    if known != sorted(known):
        raise Violation('order', 'loaded in the order %s %s: %s' % (names, known, case), case)


def loader_unit(sequences, rec):
    builtin = getattr(deep.api.plugin, 'DEEP_PLUGINS', [])
    del builtin[:]
    for sequence in sequences:
        config = ConfigService(dict(SETTINGS))
        case = {'plugins': sequence}
        try:
            loaded = load_plugins(config, [KINDS[k][0] for k in sequence])
        except BaseException as e:
            raise Violation('loader-raised', 'load_plugins raised %r: %s' % (e, case), case)
        wanted = []
        for kind in sequence:
            _, name, order = KINDS[kind]
            if kind in ('NoPlugin', 'returns_none', 'a_none', 'not_a_class', 'Abstract') or name is None:
                continue
            # a plugin with a useless order can be skipped
            wanted.append((name, order, order is not None))
        judge_loaded(loaded, wanted, case)
        rec.step()
        rec.state(sequence)
        rec.trace(lambda: case)


BUILTIN = {'OTelPlugin': 'opentelemetry', 'PythonPlugin': None, 'PrometheusPlugin': 'prometheus_client',
           'OTelMetrics': 'opentelemetry'}


def builtin_jobs():
    for missing in ((), ('opentelemetry',), ('prometheus_client',), ('opentelemetry', 'prometheus_client')):
        for off in itertools.chain.from_iterable(itertools.combinations(BUILTIN, n) for n in range(5)):
            for how in ('code', 'environment') if off else ('code',):
                yield missing, off, how


def builtin_unit(part, parts, rec):
    cases = list(builtin_jobs())[part::parts]
    jobs = []
    for missing, off, how in cases:
        settings = {'PLUGIN_' + n.upper(): 'False' for n in off}
        jobs.append({'kind': 'builtin', 'env': {'DEEP_' + k: v for k, v in settings.items()} if how == 'environment' else {},
                     'given': settings if how == 'code' else {}, 'missing': list(missing)})
    for (missing, off, how), seen in zip(cases, fresh.execute(jobs)):
        case = {'missing': missing, 'off': off, 'how': how}
        want = sorted([n for n, needs in BUILTIN.items() if n not in off and needs not in missing] + ['Second', 'First'])
        rec.step()
        if sorted(seen['loaded']) != want:
            raise Violation('builtin', 'loaded %s, expected %s: %s' % (seen['loaded'], want, case), case)
        if seen['loaded'][0] != 'First':
            raise Violation('order', 'loaded in the order %s: %s' % (seen['loaded'], case), case)
        if seen['started'] != want:
            raise Violation('builtin', 'the agent has %s, expected %s: %s' % (seen['started'], want, case), case)
        attributes = {'from.First', 'from.Second'} | ({'python_version'} if 'PythonPlugin' in want else set())
        if not attributes <= set(seen['resource']) or ('python_version' in seen['resource']) != ('PythonPlugin' in want):
            raise Violation('builtin', 'the resource is %s, expected %s: %s' % (seen['resource'], attributes, case), case)
        rec.state(case)
        rec.trace(lambda: case)


# --- the agent

FREE = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'single_frame'}
LINE = 5
SOURCE = '''


def target(x):
    go()
    return x
'''
CODE = compile(SOURCE, '/app-root-of-the-check/plugged.py', 'exec')
TPS = [
    tp('all', 'plugged.py', LINE, {**FREE, 'log_msg': 'x is {x}', 'span': 'line'}, ['x'],
       [{'name': 'm1', 'type': 'COUNTER', 'expression': 'x'}, {'name': 'm2', 'type': 'GAUGE'}]),
    tp('other', 'plugged.py', LINE, {**FREE, 'log_msg': 'other {x}', 'snapshot': 'no_collect', 'span': 'line'}, [],
       [{'name': 'm3', 'type': 'HISTOGRAM'}]),
    tp('method', 'plugged.py', 0, {**FREE, 'method_name': 'target', 'stage': 'method_capture', 'span': 'method'}, [],
       [{'name': 'm4', 'type': 'SUMMARY'}]),
    tp('later', 'plugged.py', LINE, {**FREE, 'stage': 'line_capture'}),
]
CALLBACKS = ('resource', 'decorate', 'log', 'span', 'close', 'metric', 'shutdown')


class Bad:
    """An object that fails whatever is done with it."""

    def __getattribute__(self, name):
        raise ValueError(name)

    def __bool__(self):
        raise ValueError('bool')

    def __iter__(self):
        raise ValueError('iter')

    def __len__(self):
        raise ValueError('len')


def raising(error):
    def fail(callback):
        raise error('failing ' + callback)
    return fail


FAILURES = {
    'ValueError': raising(ValueError), 'BaseException': raising(faulty.Fatal), 'SystemExit': raising(SystemExit),
    'GeneratorExit': raising(GeneratorExit), 'StopIteration': raising(StopIteration), 'MemoryError': raising(MemoryError),
    'RecursionError': raising(RecursionError), 'KeyError': raising(KeyError),
    'object': lambda callback: object(), 'text': lambda callback: 'text', 'bad': lambda callback: Bad(),
    'broken': lambda callback: {'decorate': faulty.Broken, 'resource': faulty.BrokenResource}.get(callback, Bad)(),
    'none': lambda callback: None,
}
RAISES = ('ValueError', 'BaseException')


def run_agent(plugins, decide, case):
    """
    Start the agent, reach a line and leave the function twice, and shut the agent down.

    :return: the record of what happened
    """
    env.net.reset()
    env.clock.reset()
    script = faulty.SCRIPT = faulty.Script(decide)
    sent, polls = [], []

    def net(method, data, metadata):
        if 'poll' in method.lower():
            polls.append({a.key: a.value.string_value for a in PollRequest.FromString(data).resource.attributes})
            return world.update(TPS, 'hash')
        snapshot = Snapshot.FromString(data)
        sent.append(snapshot)
        return SnapshotResponse().SerializeToString()
    env.net.handler = net
    config = ConfigService({'IN_APP_EXCLUDE': ['/never'], 'APP_ROOT': '/app-root-of-the-check', 'NO_TRACE': True,
                            'POLL_TIMER': world.SLOW_POLL, 'PLUGINS': [HERE + p for p in plugins]},
                           tracepoints=TracepointConfigService())
    agent = Deep(config)
    config.tracepoints.set_task_handler(SyncTasks())
    seen = {}

    def step(name, fn):
        try:
            return fn()
        except BaseException as e:
            raise Violation('raised', '%s raised %r: %s' % (name, e, case), case)
        finally:
            seen[name] = script.calls
            script.calls = []
    step('start', agent.start)
    trace = agent.trigger_handler.trace_call
    for number in range(2):
        results = []

        def hit():
            def paused():
                # the frame waits at the line
                frame = sys._getframe(1)
                for event, arg in (('call', None), ('line', None), ('return', number)):
                    results.append(trace(frame, event, arg))
            ns = {'go': paused}
            exec(CODE, ns)
            return ns['target'](number)
        step('hit %d' % number, hit)
        if results[0] is None or results[1] is None:
            raise Violation('tracing-off', 'tracing ends: %s' % case, case)
    seen['resource'] = dict(agent.config.resource.attributes)
    seen['polls'] = polls
    step('shutdown', agent.shutdown)
    if agent.started:
        raise Violation('not-shutdown', 'the agent is not shut down: %s' % case, case)
    seen['sent'] = [(s.tracepoint.ID, s.log_msg, {a.key: a.value.string_value for a in s.attributes}) for s in sent]
    return seen


def members(plugin):
    cls = getattr(faulty, plugin)
    roles = {'resource': '_Resource', 'decorate': '_Decorate', 'log': '_Log', 'span': '_Spans', 'close': '_Spans',
             'metric': '_Metrics'}
    return {c for c in CALLBACKS if c == 'shutdown' or issubclass(cls, getattr(faulty, roles[c]))}


def expected_calls(plugins):
    """The calls of the plugins in each phase (in any order), and the plugins with each callback in their order."""
    ordered = sorted(plugins, key=lambda p: getattr(faulty, p).ORDER)
    by_role = {c: [p for p in ordered if c in members(p)] for c in CALLBACKS}
    metrics = {'all': [('counter', 'm1'), ('gauge', 'm2')], 'other': [('histogram', 'm3')], 'method': [('summary', 'm4')]}
    calls = []
    for tp_id in ('method', 'all', 'other', 'later'):
        if tp_id != 'later':
            calls += [(p, 'span', tp_id) for p in by_role['span']]
        if tp_id in ('all', 'other'):
            calls += [(p, 'log', tp_id) for p in by_role['log'][:1]]
        if tp_id != 'other':
            calls += [(p, 'decorate', tp_id) for p in by_role['decorate']]
        calls += [(p, 'metric', kind, m) for kind, m in metrics.get(tp_id, ()) for p in by_role['metric']]
    return {'start': [(p, 'resource') for p in by_role['resource']], 'hit 0': calls, 'hit 1': calls,
            'shutdown': [(p, 'shutdown') for p in ordered]}, by_role


def judge_run(seen, plugins, script_failed, strict, case):
    """
    Judge a run.

    :param script_failed: the calls (plugin, callback, number) that failed
    :param strict: the failures are raised (not an odd result)
    """
    want, by_role = expected_calls(plugins)

    def fail(key, text):
        raise Violation(key, '%s: %s' % (text, case), case)

    def bad(plugin, callback, number):
        return (plugin, callback) in script_failed or (plugin, callback, number) in script_failed
    if len(seen['polls']) != 1:
        fail('start', 'the agent has polled %d times' % len(seen['polls']))
    # the calls that are made
    counts = {}
    closes = {}
    decorations = {}
    for phase in ('start', 'hit 0', 'hit 1', 'shutdown'):
        got = [c for c in seen[phase]]
        short = [c[:3] if c[1] in ('log', 'decorate', 'span') else c[:4] if c[1] == 'metric' else c[:2] for c in got]
        compare = sorted(c for c in short if c[1] != 'close')
        # another logger can be used in place of one that fails
        loggers = by_role['log'][:1]
        compare = [c for c in compare if c[1] != 'log' or c[0] in loggers]
        if compare != sorted(want[phase]):
            missing = [c for c in want[phase] if c not in compare]
            extra = [c for c in compare if c not in want[phase]]
            fail('calls', 'in %s the calls are not made: %s, not expected: %s' % (phase, missing or sorted(want[phase]),
                                                                                 extra or compare))
        # in the order of the plugins
        for key in {c[1:] for c in short if c[1] not in ('close', 'shutdown')}:
            made = [c[0] for c in short if c[1:] == key]
            if key[0] in by_role and made != [p for p in by_role[key[0]] if p in made]:
                fail('order', 'in %s the plugins are called in the order %s for %s' % (phase, made, key))
        opened, closed = [], []
        for c in got:
            n = counts[c[0], c[1]] = counts.get((c[0], c[1]), -1) + 1
            if c[1] == 'span' and not bad(c[0], 'span', n):
                opened.append((c[0], c[2]))
            elif c[1] == 'close':
                closed.append((c[0], c[2]))
            elif c[1] == 'decorate':
                decorations.setdefault(phase, {}).setdefault(c[2], {})[c[0]] = bad(c[0], 'decorate', n)
        if sorted(opened) != sorted(closed):
            fail('spans', 'in %s opened %s, closed %s' % (phase, sorted(opened), sorted(closed)))
    # the resource
    for n, p in enumerate(by_role['resource']):
        if not bad(p, 'resource', 0) and seen['resource'].get('from.' + p) != p:
            fail('resource', 'the resource of %s is missing: %s' % (p, seen['resource']))
        if strict and bad(p, 'resource', 0) and 'from.' + p in seen['resource']:
            fail('resource', 'the resource of %s is there' % p)
    if 'telemetry.sdk.name' not in seen['resource']:
        fail('resource', 'the default resource is missing: %s' % seen['resource'])
    # the snapshots
    ids = sorted(s[0] for s in seen['sent'])
    if ids != sorted(['all', 'method', 'later'] * 2):
        fail('snapshots', 'the snapshots are %s' % ids)
    for tp_id in ('all', 'method', 'later'):
        got = [{k: v for k, v in s[2].items() if k.startswith('by.')} for s in seen['sent'] if s[0] == tp_id]
        expected = []
        for phase in ('hit 0', 'hit 1'):
            made = decorations.get(phase, {}).get(tp_id, {})
            expected.append({'by.' + p: p for p, failed in made.items() if not failed})
        if sorted(map(str, [sorted(g) for g in got])) != sorted(map(str, [sorted(e) for e in expected])):
            fail('decorations', 'the snapshots of %s have the decorations %s, expected %s' % (tp_id, got, expected))
        for s in seen['sent']:
            if s[0] == tp_id and (s[2].get('tracepoint') != tp_id or not s[2].get('context')):
                fail('decorations', 'the snapshot of %s has the attributes %s' % (tp_id, s[2]))
            if s[0] == 'all' and not s[1].startswith('[deep] x is'):
                fail('log', 'the snapshot has the message %s' % s[1])


def agent_run(plugins, failed, failure, rec):
    case = {'plugins': plugins, 'failing': sorted(failed, key=str), 'failure': failure}
    fail = FAILURES[failure]

    def decide(plugin, callback, number):
        return fail if (plugin, callback) in failed or (plugin, callback, number) in failed else None
    seen = run_agent(plugins, decide, case)
    judge_run(seen, plugins, failed, failure not in ('object', 'text', 'bad', 'broken', 'none'), case)
    rec.step(sum(len(seen[p]) for p in ('start', 'hit 0', 'hit 1', 'shutdown')))
    rec.state((plugins, case['failing'], failure))
    rec.trace(lambda: case)
    return seen


def calls_of(plugins, rec):
    """All the calls (plugin, callback, number) of a run without a failure."""
    seen = agent_run(plugins, frozenset(), 'ValueError', rec)
    counts = {}
    out = []
    for phase in ('start', 'hit 0', 'hit 1', 'shutdown'):
        for c in seen[phase]:
            n = counts[c[:2]] = counts.get(c[:2], -1) + 1
            out.append(c[:2] + (n,))
    return out


def without_builtin():
    del deep.api.plugin.DEEP_PLUGINS[:]


TWO = ('Second', 'First')
THREE = ('Third', 'First', 'Second')
PARTS = ['First', 'Second', 'OnlyResource', 'OnlyDecorate', 'OnlyLog', 'OnlySpans', 'OnlyMetrics', 'Nothing', 'Third']


def subsets_unit(part, parts, failure, rec):
    """Every set of callbacks, that fail always."""
    all_callbacks = [(p, c) for p in TWO for c in CALLBACKS]
    for number in range(part, 2 ** len(all_callbacks), parts):
        agent_run(TWO, frozenset(c for i, c in enumerate(all_callbacks) if number >> i & 1), failure, rec)


def singles_unit(plugins, failure, rec):
    for call in calls_of(plugins, rec):
        agent_run(plugins, frozenset([call]), failure, rec)


def tuples_unit(size, part, parts, rec):
    calls = calls_of(TWO, rec)
    for failed in list(itertools.combinations(calls, size))[part::parts]:
        agent_run(TWO, frozenset(failed), 'ValueError', rec)


def mixed_unit(part, parts, rec):
    """Plugins with some of the callbacks."""
    sets = [s for n in (1, 2) for s in itertools.permutations(PARTS, n)]
    for plugins in sets[part::parts]:
        agent_run(plugins, frozenset(), 'ValueError', rec)
        for p in plugins:
            for c in sorted(members(p)):
                for failure in RAISES + ('bad',):
                    agent_run(plugins, frozenset([(p, c)]), failure, rec)


def units(tier):
    for part in range(16):
        yield ('subsets', part, 16, 'ValueError')
    if tier == 'thorough':
        for part in range(16):
            yield ('subsets', part, 16, 'BaseException')
            yield ('subsets', part, 16, 'bad')
    for failure in FAILURES:
        yield ('singles', TWO, failure)
    for failure in RAISES:
        yield ('singles', THREE, failure)
    for part in range(16):
        yield ('tuples', 2, part, 16)
    if tier == 'thorough':
        for part in range(64):
            yield ('tuples', 3, part, 64)
    for part in range(8):
        yield ('mixed', part, 8)
    kinds = sorted(KINDS)
    sequences = [s for n in (0, 1, 2) for s in itertools.product(kinds, repeat=n)]
    sequences += list(itertools.product(SOME if tier == 'quick' else kinds, repeat=3))
    # many plugins
    for n in (10, 16, 17, 32, 33, 64, 65, 100, 129, 257):
        sequences += [tuple(SOME[(i * step) % len(SOME)] for i in range(n)) for step in (1, 5, 7)] + [('Twin1',) * n]
    for part in host.chunks(sequences, 16):
        yield ('loader', part)
    for part in range(8):
        yield ('builtin', part, 8)


def run_unit(unit, rec, tier):
    if unit[0] == 'builtin':
        return builtin_unit(unit[1], unit[2], rec)
    without_builtin()
    if unit[0] == 'loader':
        loader_unit(unit[1], rec)
    elif unit[0] == 'subsets':
        subsets_unit(unit[1], unit[2], unit[3], rec)
    elif unit[0] == 'singles':
        singles_unit(unit[1], unit[2], rec)
    elif unit[0] == 'tuples':
        tuples_unit(unit[1], unit[2], unit[3], rec)
    else:
        mixed_unit(unit[1], unit[2], rec)
