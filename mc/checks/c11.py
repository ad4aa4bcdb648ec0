"""
C11: the whole product of the argument table, each tracepoint sent through the real poll conversion (or registered in
code), and its effects observed by driving real invocations through the trace function.
"""
import itertools

from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType

from deep.grpc import convert_response
from mc import env, plugins
from mc.agent import Agent, tp, tp_proto
from mc.core import Violation

BOUNDS = {
    'quick': 'product of snapshot(3) log(2) metrics(3) span(4) stage(8) method(4) watches(2) x (service, code); product of '
             'condition(4) fire count(8) fire period(6) x actions(6) x place(2) over 7 hits; all lists of 1-4 of 12 '
             'tracepoints; '
             '1 to 260 tracepoints, watches and metrics in one response',
    'thorough': 'as quick with all lists of 5 of 12 tracepoints',
}
RULE = 'every member of the product is installed and driven through two invocations of two functions'

SOURCE = '''


def target(a):
    b = a
    helper(b)
    return b


def helper(c):
    return c


def main():
    target(5)
    helper(6)
'''
FILE = '/app-root-of-the-check/conf.py'
LINE = 6  # helper(b) in target
ABSENT = None
STAGES = {'line_start': 'line', 'line_end': 'line', 'line_capture': 'line', 'method_start': 'method',
          'method_end': 'method', 'method_capture': 'method'}
METRICS = [(), ({'name': 'm1'},), ({'name': 'm1', 'expression': '7'}, {'name': 'm2', 'type': 'GAUGE'})]
_code = compile(SOURCE, FILE, 'exec')


def make():
    sink = plugins.Sink()
    agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink)])
    agent.push.hook = lambda s: sink.add('snapshot', s)
    return agent, sink


def invoke(agent, sink, clean=False):
    """One run of the program: list of (event, line, function, effects)."""
    from mc import host
    out = []
    ns = {'__name__': 'x', '__builtins__': __builtins__}
    exec(_code, ns)

    def after(e, frame, arg):
        out.append((e.event, e.line, e.function, sink.take()))
    recorder = host.Recorder(agent.handler.trace_call, {FILE}, after=after)
    recorder.run(ns['main'])
    if recorder.raised:
        raise Violation('raised', str(recorder.raised))
    return out


def place_of(args):
    """Where a tracepoint acts: ('line',), ('method', name), None for nowhere or 'any' if that is not specified."""
    kind = STAGES.get(args['stage']) if 'stage' in args else \
        'method' if 'method_name' in args or args.get('span') == 'method' else 'line'
    if kind == 'method':
        return ('method', args['method_name']) if 'method_name' in args else 'any'
    return None if kind is None else ('line',)


def at_place(place, event, line, function, tp_line=LINE):
    if place[0] == 'line':
        return event == 'line' and line == tp_line
    return event == 'call' and function == place[1]


def effects(calls, tp_id):
    """Canonical effects of one tracepoint."""
    out = []
    for c in calls:
        if c[0] == 'snapshot' and c[1].tracepoint.id == tp_id:
            out.append('snapshot')
        elif c[0] == 'log' and c[1] == tp_id:
            out.append('log')
        elif c[0] == 'open' and c[3] == tp_id:
            out.append('span')
        elif c[0] == 'metric':
            out.append('metric:' + c[3])
    return sorted(out)


def wanted(args, metrics, watches):
    out = []
    collects = args.get('snapshot') != 'no_collect'
    if collects:
        out.append('snapshot')
    if 'log_msg' in args:
        out.append('log')
    if args.get('span') in ('line', 'method'):
        out.append('span')
    out += ['metric:' + m['name'] for m in metrics]
    return sorted(out)


def install(agent, t, source):
    if source == 'service':
        agent.install([t])
    else:
        agent.register([t])
    return agent


def single(args, metrics, watches, source, rec):
    case = {'args': args, 'metrics': metrics, 'watches': watches, 'source': source}
    agent, sink = make()
    t = tp('t', 'conf.py', LINE, {'fire_count': '-1', 'fire_period': '0', **args}, watches, metrics)
    install(agent, t, source)
    place = place_of(args)
    want = wanted(args, metrics, watches)
    deferred = args.get('stage') in ('line_capture', 'method_capture')
    for _ in range(2):
        seen, pending, opened = [], 0, 0
        for event, line, function, calls in invoke(agent, sink):
            rec.step()
            tp_id = 't' if source == 'service' else next((c[1].tracepoint.id if c[0] == 'snapshot' else c[1] if c[0] == 'log'
                                                          else c[3] for c in calls if c[0] in ('snapshot', 'log', 'open')),
                                                         't')
            got = effects(calls, tp_id)
            for c in calls:
                if c[0] == 'snapshot':
                    if [w.expression for w in c[1].watches if w.source == 'WATCH'] != list(watches):
                        raise Violation('watches', 'the snapshot has watches %s' % c[1].watches, case)
                    given = c[1].tracepoint
                    if given.path != 'conf.py' or any(given.args.get(k) != v for k, v in args.items()):
                        raise Violation('tracepoint', 'the snapshot names %s' % given, case)
                opened += {'open': 1, 'close': -1}.get(c[0], 0)
            if place == 'any':
                continue
            if place is not None and at_place(place, event, line, function):
                if deferred and 'snapshot' in want:
                    pending += 1
                    got = [g for g in got if g != 'snapshot']  # (a previous one can complete here)
                    if got != [w for w in want if w != 'snapshot']:
                        raise Violation('effects', 'at %s %s got %s expected %s' % (event, line, got, want), case)
                elif got != want:
                    raise Violation('effects', 'at %s %s got %s expected %s' % (event, line, got, want), case)
            else:
                if deferred:
                    pending -= got.count('snapshot')
                    got = [g for g in got if g != 'snapshot']
                if got:
                    raise Violation('misplaced', 'at %s %s %s got %s' % (event, line, function, got), case)
        if place != 'any' and (pending != 0 or opened != 0):
            raise Violation('incomplete', '%d snapshots and %d spans are left' % (pending, opened), case)
    rec.trace(lambda: case)
    rec.state((place, tuple(want), deferred, source))


def product_unit(stage, source, rec):
    for snap, log, metrics, span, method, watches in itertools.product(
            (ABSENT, 'collect', 'no_collect'), (ABSENT, 'text {a}'), METRICS, (ABSENT, 'line', 'method'),
            (ABSENT, 'target', 'helper', 'nothing'), ((), ('a', 'missing'))):
        args = {k: v for k, v in (('snapshot', snap), ('log_msg', log), ('span', span), ('stage', stage),
                                  ('method_name', method)) if v is not None}
        single(args, metrics, watches, source, rec)


WAITS = (1, 40, 1, 60, 949, 1100, 2000)
COUNTS = [ABSENT, '1', '2', '3', '-1', 'bad', '', '1.5']
PERIODS = [ABSENT, '0', '50', '1000', 'bad', '']
CONDITIONS = {ABSENT: True, '1 == 1': True, '1 == 2': False, 'missing': False, ' ': True}
KINDS = [({}, ()), ({'snapshot': 'no_collect', 'log_msg': 'x'}, ()), ({'snapshot': 'no_collect'}, METRICS[1]),
         ({'snapshot': 'no_collect', 'span': 'line'}, ()), ({'stage': 'capture'}, ()), ({'span': 'line', 'log_msg': 'x'},
                                                                                        METRICS[2])]


def as_int(text, default):
    try:
        return int(text)
    except (ValueError, TypeError):
        return default


def limits_unit(kind, method, rec):
    args0, metrics = KINDS[kind]
    for count, period, condition in itertools.product(COUNTS, PERIODS, CONDITIONS):
        for source in ('service', 'code') if period in (ABSENT, '50') else ('service',):
            args = {k: v for k, v in (('fire_count', count), ('fire_period', period), ('condition', condition))
                    if v is not None}
            args.update(args0)
            if args.get('stage') == 'capture':
                args['stage'] = 'method_capture' if method else 'line_capture'
            if method:
                args['method_name'] = 'target'
            if source == 'code' and count not in (ABSENT, 'bad', '', '1.5'):
                args['fire_count'] = int(count)  # in code numbers can be used
            env.clock.reset()
            agent, sink = make()
            install(agent, tp('t', 'conf.py', LINE, args, (), metrics) if source == 'service' else
                    {'id': 't', 'path': 'conf.py', 'line': LINE, 'args': args, 'watches': (), 'metrics': metrics}, source)
            per_fire = len(wanted(args, metrics, ()))
            limit, gap = as_int(count, 1), as_int(period, 1000)
            fired, last, now = 0, None, 0
            case = {'args': args, 'metrics': metrics, 'source': source}
            for wait in WAITS:
                now += wait
                env.clock.now_ns += wait * 1_000_000
                got = len([c for r in invoke(agent, sink) for c in r[3] if c[0] in ('snapshot', 'log', 'open', 'metric')])
                rec.step()
                fires = CONDITIONS[condition] and (limit == -1 or fired < limit) and (last is None or now - last >= gap)
                if fires:
                    fired, last = fired + 1, now
                if got != (per_fire if fires else 0):
                    raise Violation('limits', 'at %d ms %d effects, expected %d' % (now, got, per_fire if fires else 0), case)
            rec.trace(lambda: case)
            rec.state((kind, method, count, period, condition, source))


Q = {'fire_count': '-1', 'fire_period': '0'}
MENU = [
    tp('snap', 'conf.py', LINE, Q, ['a']),
    tp('snap2', 'conf.py', LINE, {**Q, 'frame_type': 'no_frame'}, ['b']),
    tp('log', 'conf.py', LINE, {**Q, 'snapshot': 'no_collect', 'log_msg': 'x'}),
    tp('metric', 'conf.py', LINE, {**Q, 'snapshot': 'no_collect'}, (), [{'name': 'metric'}]),
    tp('span', 'conf.py', LINE, {**Q, 'snapshot': 'no_collect', 'span': 'line'}),
    tp('method', 'conf.py', LINE, {**Q, 'method_name': 'helper', 'frame_type': 'no_frame'}),
    tp('next', 'conf.py', LINE + 1, {**Q, 'frame_type': 'no_frame', 'log_msg': 'y'}),
    tp('off', 'conf.py', LINE, {**Q, 'snapshot': 'no_collect'}),
    # not possible to interpret
    tp('bad-stage', 'conf.py', LINE, {**Q, 'stage': 'nowhere'}),
    tp('bad-type', 'conf.py', LINE, Q, (), [{'name': 'm', 'type': 99}]),
    tp('bad-stage-2', 'conf.py', LINE, {**Q, 'stage': '', 'method_name': 'target'}, ['x'], [{'name': 'm'}]),
    tp('bad-args', 'conf.py', LINE, {'fire_count': 'many', 'fire_period': '-', 'window_start': 'x', 'condition': ')',
                                     'frame_type': '?', 'MAX_VARIABLES': 'y'}),
]
BAD = ('bad-stage', 'bad-type', 'bad-stage-2', 'bad-args', 'off')
EFFECT = {'snap': ['snapshot'], 'snap2': ['snapshot'], 'log': ['log'], 'metric': ['metric:metric'], 'span': ['span'],
          'method': ['snapshot'], 'next': ['log', 'snapshot']}


def lists_unit(first, length, rec):
    for rest in itertools.product(range(len(MENU)), repeat=length - 1):
        response_check([MENU[i] for i in (first,) + rest], rec)


def response_check(members, rec):
    # the ids have to be different
    members = [{**t, 'id': '%s-%d' % (t['id'], i), 'kind': t['id']} for i, t in enumerate(members)]
    for t in members:
        t['metrics'] = [{**m, 'name': t['id']} if m['name'] == 'metric' else m for m in t['metrics']]
    response = PollResponse(ts_nanos=1, current_hash='h', response_type=ResponseType.UPDATE,
                            response=[tp_proto(t) for t in members])
    response = PollResponse.FromString(response.SerializeToString())
    agent, sink = make()
    case = [t['id'] for t in members]
    try:
        agent.install_triggers(convert_response(response.response))
    except Exception as e:
        raise Violation('response-lost', 'the response cannot be converted: %r' % e, case)
    seen = {}
    for event, line, function, calls in invoke(agent, sink):
        rec.step()
        for t in members:
            if t['kind'] in BAD:
                continue
            want = []
            place = ('method', 'helper') if t['kind'] == 'method' else ('line',)
            if at_place(place, event, line, function, t['line']):
                want = [w.replace('metric:metric', 'metric:' + t['id']) for w in EFFECT[t['kind']]]
            got = [g for g in effects(calls, t['id']) if not g.startswith('metric') or g == 'metric:' + t['id']]
            if got != want:
                raise Violation('list', '%s at %s %s: got %s expected %s' % (t['id'], event, line, got, want), case)
    rec.trace(lambda: case)
    rec.state(tuple(t['kind'] for t in members))


def code_unit(rec):
    """Registrations in code next to each other, one that is not possible to interpret does not affect the others."""
    for combo in itertools.product(range(len(MENU)), repeat=2):
        agent, sink = make()
        for i in combo:
            t = MENU[i]
            if t['id'] == 'bad-type':
                continue
            install(agent, t, 'code')
        total = [c for r in invoke(agent, sink) for c in r[3]]
        got = sorted(c[0] for c in total if c[0] != 'close')
        hits = {'method': 2}
        want = sorted(kind for i in combo for _ in range(hits.get(MENU[i]['id'], 1))
                      for kind in {'span': ['open'], 'metric': ['metric'], 'bad-args': [],
                                   }.get(MENU[i]['id'], EFFECT.get(MENU[i]['id'], [])))
        rec.step()
        rec.trace()
        if got != want:
            raise Violation('code-list', 'got %s expected %s' % (got, want), [MENU[i]['id'] for i in combo])


def large_unit(rec):
    """Many tracepoints in one response, many watches and metrics on one tracepoint, and long texts."""
    for n in (10, 17, 33, 50, 65, 100, 130, 260):
        response_check([MENU[i % len(MENU)] for i in range(n)], rec)
        response_check([MENU[0]] * n, rec)
        response_check([MENU[8]] * n + [MENU[2]], rec)
        response_check([MENU[4]] * n, rec)
        for source in ('service', 'code'):
            metrics = [{'name': 'm%d' % i, 'labels': [('k', 'v', None)]} for i in range(n)]
            single({'log_msg': 'text {a}' * n}, (), ('a', 'missing') * n, source, rec)
            single({'snapshot': 'no_collect'}, metrics, (), source, rec)
            single({'x%d' % i: 'y' * n for i in range(n)}, (), ('a' + ' + 1' * n,), source, rec)
            single({'condition': 'True' + ' and True' * n}, (), ('a',), source, rec)


def units(tier):
    out = [('product', stage, source) for stage in [ABSENT, *STAGES, 'bogus'] for source in ('service', 'code')]
    out += [('limits', k, m) for k in range(len(KINDS)) for m in (False, True)]
    out += [('lists', i, n) for i in range(len(MENU)) for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5))]
    return out + [('code',), ('large',)]


def run_unit(unit, rec, tier):
    if unit[0] == 'product':
        product_unit(unit[1], unit[2], rec)
    elif unit[0] == 'limits':
        limits_unit(unit[1], unit[2], rec)
    elif unit[0] == 'lists':
        lists_unit(unit[1], unit[2], rec)
    elif unit[0] == 'large':
        large_unit(rec)
    else:
        code_unit(rec)
