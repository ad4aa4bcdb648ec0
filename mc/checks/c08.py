"""C08: field by field product of snapshot contents and all snapshots of programs, through the real sender to a fake service."""
import itertools

from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse, WatchSource

from deep.api.attributes import BoundedAttributes
from deep.api.resource import Resource
from deep.api.tracepoint.eventsnapshot import EventSnapshot, StackFrame, Variable, VariableId, WatchResult
from deep.api.tracepoint.tracepoint_config import TracePointConfig
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService
from deep.grpc import GRPCService
from deep.poll import LongPoll
from deep.push import PushService
from mc import authn, env, host, hostile
from mc.agent import Agent, Delivery, SyncTasks, delivering, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'all pairs of (field, value) over 39 fields x alphabets of 3 to 12 values; structures of up to 2 frames, 3 table '
             'entries, 2 watches, 2 attributes, and up to 400 of each; 140 programs x 5 tracepoint sets; 450 hostile values; 35 auth configurations x '
             'histories of up to 4 requests with failures',
    'thorough': 'as quick with all triples of fields of the same part, 700 programs, histories of up to 6 requests',
}
RULE = 'the assignment of values to fields, the structure, the program, or the auth configuration with the request history'

TEXT = ['', 'text', '\x00\n', 'é中\U0001f600', 'a\ud800b', 'x' * 70000, ' sp ace ', '\ufeff\ufffd', '"\\{}']
OPTIONAL = TEXT + [None]
NUMBER = [0, 1, 7, 2 ** 31, 2 ** 32 - 1]
FLAG = [True, False]
VALUES = [True, False, 0, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 63, 10 ** 40, 1.5, float('inf'), -0.0, 'text', '', 'a\udc80', b'\x00\xff', ('a', 'b'), (),
          (1, 2), (1.5,), (True, False), ('x', None), (None,)]

FIELDS = {
    # name: (part, alphabet)
    'tp.id': TEXT, 'tp.path': TEXT, 'tp.line': [0, 1, -1, 99999, 2 ** 31], 'tp.key': TEXT[1:], 'tp.arg': TEXT, 'tp.watch': TEXT,
    'ts': [0, 1, 1_700_000_000_123_456_789, 2 ** 63 - 1], 'duration': [0, 1, 10 ** 15], 'id': [0, 1, 2 ** 127, 2 ** 128 - 1, 255],
    'log': OPTIONAL,
    'f.file': TEXT, 'f.short': TEXT, 'f.method': TEXT, 'f.line': NUMBER, 'f.class': OPTIONAL, 'f.async': FLAG, 'f.column': NUMBER,
    'f.tfile': OPTIONAL, 'f.tline': NUMBER, 'f.tcolumn': NUMBER, 'f.app': FLAG,
    'v.type': TEXT, 'v.value': TEXT, 'v.hash': ['', '1', '140011122233344'], 'v.truncated': FLAG,
    'i.id': ['1', '2', '3'], 'i.name': TEXT, 'i.modifiers': [[], ['private'], ['protected'], ['private', 'static']],
    'i.original': OPTIONAL,
    'w.expression': TEXT, 'w.source': ['WATCH', 'LOG', 'METRIC', 'CAPTURE'], 'w.error': TEXT + [None], 'w.name': TEXT,
    'a.key': ['k', 'x.y', 'é', '\ud800', 'K' * 200], 'a.value': VALUES, 'r.key': ['k', 'service.name', 'é'], 'r.value': VALUES,
    'c.name': TEXT, 'f2.method': TEXT,
}


def base():
    return {name: alphabet[1 % len(alphabet)] for name, alphabet in FIELDS.items()}


def make(v, structure=None):
    """A snapshot with the given values of the fields."""
    frames, entries, watches, attributes = structure or (2, 3, 2, 1)

    def ref(name=None):
        return VariableId(v['i.id'], v['i.name'] if name is None else name, list(v['i.modifiers']), v['i.original'])
    table = {}
    for i in range(entries):
        children = [VariableId(str(j + 1), v['c.name'] + str(j), ['private'][:j], None) for j in range(min(i, entries))]
        table[str(i + 1)] = Variable(v['v.type'], v['v.value'] + ('' if i == 0 else str(i)), v['v.hash'], children,
                                     v['v.truncated'] if i == 0 else not v['v.truncated'])
    stack = []
    for i in range(frames):
        variables = [ref(), VariableId('2', 'second')][:2 - i] if entries else []
        stack.append(StackFrame(v['f.file'], v['f.short'], v['f.method'] if i == 0 else v['f2.method'], v['f.line'], variables,
                                v['f.class'], v['f.async'], v['f.column'], v['f.tfile'], v['f.tline'], v['f.tcolumn'],
                                v['f.app'] if i == 0 else not v['f.app']))
    config = TracePointConfig(v['tp.id'], v['tp.path'], v['tp.line'], {v['tp.key']: v['tp.arg'], 'other': 'value'},
                              [v['tp.watch'], 'second'], [])
    snapshot = EventSnapshot(config, v['ts'], Resource({v['r.key']: v['r.value'], 'fixed': 'r'}), stack, table)
    snapshot._id = v['id']
    snapshot._duration_nanos = v['duration']
    for i in range(watches):
        error = v['w.error'] if i == 0 else None
        snapshot.add_watch_result(WatchResult(v['w.source'], v['w.expression'] + str(i),
                                              None if error is not None else ref(v['w.name']), error))
    for i in range(attributes):
        snapshot.attributes[v['a.key'] + str(i)] = v['a.value'] if i == 0 else i
    snapshot.log_msg = v['log']
    return snapshot


# --- the comparison

class Different(Exception):
    pass


def same(what, got, want):
    if got != want or isinstance(want, bool) != isinstance(got, bool):
        raise Different('%s is %r, expected %r' % (what, str(got)[:300], str(want)[:300]))


def text(what, got, want):
    if want is None:
        want = ''
    if not isinstance(want, str):
        want = str(want)
    try:
        want.encode('utf-8')
    except UnicodeError:
        # it cannot be sent as it is, but the other characters can
        for part in filter(None, ''.join(c if not '\ud800' <= c <= '\udfff' else '\n\n' for c in want).split('\n\n')):
            if part not in got:
                raise Different('%s is %r, without %r' % (what, got[:300], part[:300]))
        return
    same(what, got, want)


def optional(what, message, field, want):
    if want is None:
        if message.HasField(field) and getattr(message, field) != '':
            raise Different('%s is %r, expected none' % (what, getattr(message, field)))
    else:
        if not message.HasField(field):
            raise Different('%s is missing, expected %r' % (what, want[:300]))
        text(what, getattr(message, field), want)


def decoded(value):
    kind = value.WhichOneof('value')
    if kind is None:
        return None
    if kind == 'array_value':
        return tuple(decoded(v) for v in value.array_value.values)
    if kind == 'kvlist_value':
        return {v.key: decoded(v.value) for v in value.kvlist_value.values}
    return getattr(value, kind)


def attribute(what, got, want):
    if isinstance(want, bool) or not isinstance(want, int) or -2 ** 63 <= want < 2 ** 63:
        if isinstance(want, str):
            return text(what, got, want)
        if isinstance(want, (list, tuple)):
            if not isinstance(got, tuple) or len(got) != len(want):
                raise Different('%s is %r, expected %r' % (what, got, want))
            for g, w in zip(got, want):
                attribute(what, g, w)
            return
        if type(got) is not type(want) or repr(got) != repr(want):
            raise Different('%s is %r, expected %r' % (what, got, want))
    elif got not in (want, str(want)):
        # the number does not fit
        raise Different('%s is %r, expected %r' % (what, got, want))


def attributes(what, got, want):
    want = dict(want.items())
    if len(got) != len(want):
        raise Different('%s has %s, expected %s' % (what, [a.key for a in got], list(want)))
    for item, (key, value) in zip(got, want.items()):
        text(what + ' key', item.key, key)
        attribute('%s %s' % (what, key[:50]), decoded(item.value), value)


def reference(what, got, want):
    text(what + ' id', got.ID, want.vid)
    text(what + ' name', got.name, want.name)
    same(what + ' modifiers', list(got.modifiers), list(want.modifiers or []))
    optional(what + ' original name', got, 'original_name', want.original_name)


def references(what, got, want):
    same(what + ' number', len(got), len(want))
    for g, w in zip(got, want):
        reference(what, g, w)


def compare(message, snapshot):
    """Compare the message with the snapshot, field by field."""
    same('id', int.from_bytes(message.ID, 'big'), snapshot.id)
    same('id length', len(message.ID), 16)
    same('ts_nanos', message.ts_nanos, snapshot.ts_nanos)
    same('duration_nanos', message.duration_nanos, snapshot.duration_nanos)
    optional('log_msg', message, 'log_msg', snapshot.log_msg)
    config = snapshot.tracepoint
    text('tracepoint id', message.tracepoint.ID, config.id)
    text('tracepoint path', message.tracepoint.path, config.path)
    same('tracepoint line', message.tracepoint.line_number, config.line_no)
    same('tracepoint watches', len(message.tracepoint.watches), len(config.watches))
    for g, w in zip(message.tracepoint.watches, config.watches):
        text('tracepoint watch', g, w)
    same('tracepoint args', len(message.tracepoint.args), len(config.args))
    for key, value in config.args.items():
        try:
            key.encode('utf-8')
        except UnicodeError:
            continue
        if key not in message.tracepoint.args:
            raise Different('the argument %r is missing' % key)
        text('tracepoint arg ' + key, message.tracepoint.args[key], value)
    same('frames', len(message.frames), len(snapshot.frames))
    for i, (g, w) in enumerate(zip(message.frames, snapshot.frames)):
        at = 'frame %d ' % i
        text(at + 'file', g.file_name, w.file_name)
        optional(at + 'short path', g, 'short_path', w.short_path)
        text(at + 'method', g.method_name, w.method_name)
        same(at + 'line', g.line_number, w.line_number or 0)
        optional(at + 'class', g, 'class_name', w.class_name)
        same(at + 'async', g.is_async, bool(w.is_async))
        same(at + 'column', g.column_number, w.column_number or 0)
        optional(at + 'transpiled file', g, 'transpiled_file_name', w.transpiled_file_name)
        same(at + 'transpiled line', g.transpiled_line_number, w.transpiled_line_number or 0)
        same(at + 'transpiled column', g.transpiled_column_number, w.transpiled_column_number or 0)
        same(at + 'app frame', g.app_frame, bool(w.app_frame))
        references(at + 'variable', g.variables, w.variables)
    same('table', sorted(message.var_lookup), sorted(snapshot.var_lookup))
    for vid, w in snapshot.var_lookup.items():
        g = message.var_lookup[vid]
        at = 'variable %s ' % vid
        text(at + 'type', g.type, w.type)
        text(at + 'value', g.value, w.value)
        text(at + 'hash', g.hash, w.hash)
        same(at + 'truncated', g.truncated, bool(w.truncated))
        references(at + 'child', g.children, w.children)
    same('watches', len(message.watches), len(snapshot.watches))
    for g, w in zip(message.watches, snapshot.watches):
        text('watch expression', g.expression, w.expression)
        same('watch source', WatchSource.Name(g.source), w.source)
        if w.error is not None:
            same('watch %s result' % w.expression[:50], g.WhichOneof('result'), 'error_result')
            text('watch error', g.error_result, w.error)
        else:
            same('watch %s result' % w.expression[:50], g.WhichOneof('result'), 'good_result')
            reference('watch result', g.good_result, w.result)
    attributes('attributes', message.attributes, snapshot.attributes)
    attributes('resource', message.resource, snapshot.resource.attributes)


class Sender:
    """The real push service in front of the fake service."""

    def __init__(self):
        self.delivery = Delivery(ConfigService({}, tracepoints=TracepointConfigService()))

    def send(self, snapshot, case):
        self.delivery.push_snapshot(snapshot)
        self.delivery.take()
        messages = self.delivery.take_messages()
        errors, self.delivery.tasks.errors = self.delivery.tasks.errors, []
        if len(messages) != 1 or errors:
            raise Violation('not-sent', '%d messages, errors %s' % (len(messages), errors), case)
        judge(messages[0], snapshot, case)


def judge(message, snapshot, case):
    try:
        compare(message, snapshot)
    except Different as e:
        raise Violation('different', str(e), case)
    again = Snapshot.FromString(message.SerializeToString())
    if again != message and 'nan' not in repr(message):
        raise Violation('serialisation', 'the message does not survive serialisation', case)


def field_unit(first, rec, width):
    sender = Sender()
    names = list(FIELDS)
    rest = names[names.index(first) + 1:]
    if width == 3:
        combos = [(first, a, b) for a, b in itertools.combinations(rest, 2) if a.split('.')[0] == b.split('.')[0] == first.split('.')[0]]
    else:
        combos = [(first, second) for second in rest]
    for combo in combos:
        for values in itertools.product(*(FIELDS[n] for n in combo)):
            v = base()
            v.update(zip(combo, values))
            case = {n: str(x)[:60] for n, x in zip(combo, values)}
            rec.step()
            sender.send(make(v), case)
            rec.trace(lambda: case)
            rec.state((combo, tuple(repr(x)[:80] for x in values)))


def structure_unit(rec):
    sender = Sender()
    for structure in itertools.product(range(4), range(5), range(4), range(4)):
        for error in (None, 'error', ''):
            v = base()
            v['w.error'] = error
            case = {'structure': structure, 'error': error}
            rec.step()
            sender.send(make(v, structure), case)
            rec.trace(lambda: case)
            rec.state((structure, error))


def large_unit(size, rec):
    """Many of each part."""
    sender = Sender()
    for structure in itertools.product((1, size), repeat=4):
        case = {'structure': structure}
        rec.step()
        sender.send(make(base(), structure), case)
        rec.trace(lambda: case)
        rec.state(structure)
    for name, alphabet in FIELDS.items():
        if alphabet in (TEXT, OPTIONAL, TEXT[1:]):
            v = base()
            v[name] = '\u00e9' + 'x' * (size * 100) + '\u4e2d'
            case = {'long': name, 'length': size * 100 + 2}
            rec.step()
            sender.send(make(v), case)
            rec.trace(lambda: case)
            rec.state((name, size))
    v = base()
    v['a.value'] = tuple('v%d' % i for i in range(size))
    v['r.value'] = tuple(range(size))
    v['i.modifiers'] = ['m%d' % i for i in range(size)]
    snapshot = make(v)
    for i in range(size):
        snapshot.tracepoint.args['arg-%d' % i] = 'value-%d' % i
        snapshot.tracepoint.watches.append('watch-%d' % i)
    sender.send(snapshot, {'many': size})


def history_unit(rec):
    """Several snapshots, with failures of the service between them: each is what it is."""
    sender = Sender()
    snapshots = []
    for i in range(6):
        v = base()
        v.update({'id': i + 10, 'v.value': 'value %d' % i, 'log': None if i % 2 else 'log %d' % i, 'w.error': None if i % 2 else 'e',
                  'a.value': i, 'tp.id': 'tp-%d' % i})
        snapshots.append(make(v, (i % 3, 1 + i % 3, i % 2, i % 3)))
    for order in itertools.permutations(range(6), 3):
        for fail in itertools.product((False, True), repeat=3):
            case = {'order': order, 'fail': fail}
            for i, failing in zip(order, fail):
                rec.step()
                if failing:
                    handler, env.net.handler = env.net.handler, _refuse
                    sender.delivery.push_snapshot(snapshots[i])
                    env.net.handler = handler
                    sender.delivery.take()
                    sender.delivery.tasks.errors.clear()
                else:
                    sender.send(snapshots[i], case)
            rec.trace(lambda: case)
            rec.state((order, fail))


def _refuse(method, data, metadata):
    raise ConnectionError('refused')


KINDS = {
    'plain': lambda line: tp('p%d' % line, 'host.py', line, {}, watches=['x', 'missing', 'LOG', '"\ud800"'.encode(
        'utf-8', 'backslashreplace').decode()]),
    'log': lambda line: tp('l%d' % line, 'host.py', line, {'log_msg': 'at {x} {missing} {LOG}', 'frame_type': 'no_frame'}),
    'all': lambda line: tp('a%d' % line, 'host.py', line, {'frame_type': 'all_frame', 'MAX_VARIABLES': '60'}),
    'capture': lambda line: tp('c%d' % line, 'host.py', line, {'stage': 'line_capture'}, watches=['x']),
    'limits': lambda line: tp('m%d' % line, 'host.py', line, {'MAX_STRING_LENGTH': '3', 'MAX_COLLECTION_SIZE': '1', 'MAX_VAR_DEPTH': '3'}),
}


def program_unit(source, rec):
    lines = sorted({n for lines in host.functions(source).values() for n in lines})
    for kind, make_tp in KINDS.items():
        agent = delivering(Agent())
        agent.install([make_tp(line) for line in lines])
        main = host.load(source)['main']
        case = {'program': source, 'tracepoints': kind}
        recorder = host.Recorder(agent.handler.trace_call, {'/app-root-of-the-check/host.py'})
        recorder.run(main)
        snapshots, messages = agent.push.take(), agent.push.take_messages()
        rec.step(len(recorder.events))
        if agent.push.tasks.errors or len(snapshots) != len(messages):
            raise Violation('not-sent', '%d snapshots, %d messages, %s' % (len(snapshots), len(messages), agent.push.tasks.errors),
                            case)
        ids = set()
        for snapshot, message in zip(snapshots, messages):
            judge(message, snapshot, case)
            ids.add(message.ID)
            rec.trace(lambda: case)
            rec.state((snapshot.tracepoint.id, tuple(v.value for v in snapshot.var_lookup.values())))
        if len(ids) != len(messages):
            raise Violation('id', 'an id is used twice', case)


def hostile_unit(part, rec):
    for i, name in enumerate(hostile.NAMES):
        if i % 16 != part:
            continue
        for args, events in (({}, (('line', None),)), ({'stage': 'line_capture', 'log_msg': '{h}'}, (('line', None), ('return', 'h')))):
            value = hostile.HOSTILE[name]()
            agent = delivering(Agent())
            agent.install([tp('t', 'paused.py', PAUSED_LINE, args, watches=['h', '[h]', 'h.x', 'missing'])])

            def at(frame):
                for event, arg in events:
                    agent.handler.trace_call(frame, event, value if arg else None)
            host.paused([('h', value), ('x', 'y')], at)
            snapshots, messages = agent.push.take(), agent.push.take_messages()
            case = {'value': name, 'args': args}
            rec.step(len(events))
            if len(snapshots) != 1 or len(messages) != 1:
                raise Violation('not-sent', '%d snapshots, %d messages, %s' % (len(snapshots), len(messages),
                                                                             agent.push.tasks.errors), case)
            judge(messages[0], snapshots[0], case)
            rec.trace(lambda: case)
            rec.state((name, repr(args)))


def time_unit(rec):
    """Values that take a known time to render: the message says when, and how long it took."""
    class Slow:
        def __init__(self, ns):
            self.ns = ns

        def __str__(self):
            env.clock.now_ns += self.ns
            return 'slow'
    for before, times in itertools.product((0, 1, 999_999_937, 2 ** 40), itertools.product((0, 1, 1_000_003, 30_000_000), repeat=3)):
        env.clock.now_ns += before
        agent = delivering(Agent())
        agent.install([tp('t', 'paused.py', PAUSED_LINE, watches=['w'])])
        at = env.clock.now_ns
        host.paused([('a', Slow(times[0])), ('b', [Slow(times[1])]), ('w', Slow(times[2]))],
                    lambda frame: agent.handler.trace_call(frame, 'line', None))
        ended = env.clock.now_ns
        snapshots, messages = agent.push.take(), agent.push.take_messages()
        case = {'at': at, 'times': times}
        if len(messages) != 1:
            raise Violation('not-sent', '%d messages' % len(messages), case)
        judge(messages[0], snapshots[0], case)
        if messages[0].ts_nanos != at or not sum(times) <= messages[0].duration_nanos <= ended - at:
            raise Violation('time', 'ts %s duration %s, it was from %s to %s' % (
                messages[0].ts_nanos, messages[0].duration_nanos, at, ended), case)
        rec.step()
        rec.trace(lambda: case)
        rec.state((before, times))


def decorator_unit(rec):
    from mc import plugins
    for values in itertools.chain(itertools.combinations(range(len(VALUES)), 1), itertools.combinations(range(len(VALUES)), 2)):
        sink = plugins.Sink()
        wanted = {'k%d' % i: VALUES[i] for i in values}
        agent = Agent()
        agent.config.plugins = [plugins.Decorator(sink, 'd', attributes=dict(wanted))]
        agent = delivering(agent)
        agent.install([tp('t', 'paused.py', PAUSED_LINE)])
        host.paused([('x', 'y')], lambda frame: agent.handler.trace_call(frame, 'line', None))
        snapshots, messages = agent.push.take(), agent.push.take_messages()
        case = {'values': [repr(VALUES[i]) for i in values]}
        if len(messages) != 1:
            raise Violation('not-sent', '%d messages' % len(messages), case)
        judge(messages[0], snapshots[0], case)
        sent = {a.key: decoded(a.value) for a in messages[0].attributes}
        for key, value in wanted.items():
            if isinstance(value, bytes):
                continue  # it is no text, so no valid attribute
            try:
                if key not in sent:
                    raise Different('the attribute %s is missing' % key)
                attribute(key, sent[key], value)
            except Different as e:
                raise Violation('different', str(e), case)
        rec.step()
        rec.trace(lambda: case)
        rec.state(values)


AUTHS = [
    {}, {'SERVICE_AUTH_PROVIDER': ''}, {'SERVICE_AUTH_PROVIDER': None},
    *({'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': u, 'SERVICE_PASSWORD': p}
      for u in ('user', 'üser', '', 'a:b', None) for p in ('pass', 'p:ä', '', None)),
    *({'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': u, 'SERVICE_PASSWORD': p}
      for u, p in (('u' * 70, 'p' * 70), ('>>>', '???~~~'), ('a b', '\u00ff\u00fe?>\u00fb\u00ef'), (' x ', ' y\n'), ('\U0001f600', '%20+/='),
                   ('n' * 1000, 'm' * 1001))),
    *({'SERVICE_AUTH_PROVIDER': 'mc.authn.' + n, 'SERVICE_USERNAME': 'me', 'MY_SETTING': 5}
      for n in ('Static', 'Bytes', 'Tuple', 'FromConfig', 'Empty')),
]
OPS = ('poll', 'snapshot', 'poll-fails', 'snapshot-fails', 'poll-update')


def auth_unit(n, rec):
    for custom in AUTHS:
        for history in itertools.product(OPS, repeat=n):
            run_auth(custom, history, 0, rec)
    custom = {'SERVICE_AUTH_PROVIDER': 'mc.authn.Flaky'}
    for failures in (1, 2, 3):
        for history in itertools.product(('poll', 'snapshot'), repeat=n):
            run_auth(custom, history, failures, rec)


def run_auth(custom, history, failures, rec):
    authn.Flaky.failures = failures
    case = {'config': custom, 'history': history, 'failures': failures}
    tracepoints = TracepointConfigService()
    custom = {k: v for k, v in custom.items() if v is not None or k == 'SERVICE_AUTH_PROVIDER'}
    config = ConfigService(dict(custom), tracepoints=tracepoints)
    config.resource = Resource({'r': 'x'})
    grpc = GRPCService(config)
    grpc.start()
    tasks = SyncTasks()
    push = PushService(grpc, tasks)
    poll = LongPoll(config, grpc)
    requests = []
    want = authn.expected(custom.get('SERVICE_AUTH_PROVIDER'), custom)

    def handler(method, data, metadata):
        requests.append((method, [tuple(m) for m in metadata or []]))
        if op.endswith('-fails'):
            raise ConnectionError('refused')
        if 'oll' in method:
            PollRequest.FromString(data)
            kind = ResponseType.UPDATE if op == 'poll-update' else ResponseType.NO_CHANGE
            return PollResponse(ts_nanos=1, current_hash='h', response_type=kind).SerializeToString()
        return SnapshotResponse().SerializeToString()
    env.net.handler = handler
    sent = 0
    for i, op in enumerate(history):
        rec.step()
        try:
            if op.startswith('poll'):
                poll.poll()
            else:
                push.push_snapshot(make({**base(), 'id': i}, (1, 1, 0, 0)))
        except Exception:
            if not op.endswith('-fails') and i >= failures:
                raise
        if i >= failures:
            sent += 1
        if len(requests) < sent:
            raise Violation('no-request', 'there are %d requests after %s' % (len(requests), history[:i + 1]), case)
    for method, metadata in requests:
        if metadata != want:
            raise Violation('metadata', 'the request %s has %s, expected %s' % (method, metadata, want), case)
    rec.trace(lambda: case)
    rec.state((repr(custom), history, failures))


def units(tier):
    out = [('fields', name, 2) for name in FIELDS] + [('structure',), ('history',), ('decorators',), ('time',)]
    out += [('large', n) for n in (10, 11, 17, 32, 33, 64, 65, 100, 101, 129, 257, 400)]
    out += [('hostile', i) for i in range(16)] + [('programs', i) for i in range(16)] + [('hand',)]
    out += [('auth', n) for n in range(1, 5 if tier == 'quick' else 7)]
    if tier == 'thorough':
        out += [('fields', name, 3) for name in FIELDS]
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'fields':
        field_unit(unit[1], rec, unit[2])
    elif unit[0] == 'large':
        large_unit(unit[1], rec)
    elif unit[0] == 'hostile':
        hostile_unit(unit[1], rec)
    elif unit[0] == 'auth':
        auth_unit(unit[1], rec)
    elif unit[0] == 'programs':
        for i, source in enumerate(host.programs(tier, 'small' if tier == 'quick' else 'medium')):
            if i % 16 == unit[1]:
                program_unit(source, rec)
    elif unit[0] == 'hand':
        for _, source in host.hand_programs():
            program_unit(source, rec)
    else:
        {'structure': structure_unit, 'history': history_unit, 'decorators': decorator_unit, 'time': time_unit}[unit[0]](rec)
