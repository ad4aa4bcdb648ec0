"""C06: every hostile value at every place, and every set of tracepoints sharing an event compared with each alone."""
import itertools
import re

from mc import graph, host, hostile
from mc.agent import Agent, delivering, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'an alphabet of %d hostile values x 20 placements (locals, containers, keys, attributes, watches, log fields, '
             'captures), pairs of 40 of them; all lists of up to 3 of 15 tracepoints on one event x 3 data sets' % len(hostile.NAMES),
    'thorough': 'as quick with all pairs of hostile values and all lists of up to 4 tracepoints',
}
RULE = 'a hostile value with its placement, or the list of tracepoints'


class Holder:
    def __init__(self, value):
        self.first = ['first']
        self.value = value
        self.last = {'last': 1}

    def __str__(self):
        return 'a Holder'


def before():
    return ('before', ['b', ('c',)])


def after():
    return ('after', {'a': [1.5], 'b': Holder('x')})


def hashable(v):
    try:
        {v: 1}
        return True
    except BaseException:
        return False


# name -> (locals for the value)
PLACES = {
    'local': lambda v: [before(), ('h', v), after()],
    'first': lambda v: [('h', v), before(), after()],
    'last': lambda v: [before(), after(), ('h', v)],
    'self': lambda v: [before(), ('self', v), after()],
    'list': lambda v: [before(), ('l', ['x', v, 'y', [2]]), after()],
    'tuple': lambda v: [before(), ('t', ('x', v, 'y', [2])), after()],
    'dict value': lambda v: [before(), ('d', {'x': 1, 'h': v, 'y': [2]}), after()],
    'attribute': lambda v: [before(), ('o', Holder(v)), after()],
    'exception': lambda v: [before(), ('e', graph.Failure('x', v, [2])), after()],
    'deep': lambda v: [before(), ('l', [{'k': v, 'l': 'm'}]), after()],
    'twice': lambda v: [('h', v), before(), ('l', [v, v]), ('i', v), after()],
    'key': lambda v: [before(), ('d', {'x': 1, v: 2, 'y': [3]}), after()] if hashable(v) else None,
    'set': lambda v: [before(), ('s', {v}), after()] if hashable(v) else None,
}


def fresh_text(name):
    try:
        return isinstance(str(hostile.HOSTILE[name]()), str)
    except BaseException:
        return False


def no_text(watch):
    return watch.result is None and watch.error is None


def check_message(agent, snapshot, bad, case):
    messages = agent.push.take_messages()
    if len(messages) != 1 or agent.push.tasks.errors:
        raise Violation('not-delivered', '%d messages, errors %s' % (len(messages), agent.push.tasks.errors), case)
    message = messages[0]
    if set(message.var_lookup) != set(snapshot.var_lookup):
        raise Violation('message', 'the message has other variables', case)
    for vid, variable in snapshot.var_lookup.items():
        sent = message.var_lookup[vid]
        if vid not in bad and (sent.value, sent.type, [c.ID for c in sent.children]) != \
                (clean(variable.value), clean(variable.type), [c.vid for c in variable.children]):
            raise Violation('message', 'the variable %s is sent as %r' % (variable.value, sent), case)
    if [[v.ID for v in f.variables] for f in message.frames] != [[v.vid for v in f.variables] for f in snapshot.frames]:
        raise Violation('message', 'the frames are not the same', case)
    if len(message.watches) != len(snapshot.watches):
        raise Violation('message', '%d watches' % len(message.watches), case)


def clean(text):
    try:
        text.encode('utf-8')
        return text
    except UnicodeError:
        return text.encode('utf-8', 'replace').decode()


def judge(snapshot, values, bad_values, names, case, limits=None):
    """The variables of the frame, with the hostile values being opaque."""
    graph.OPAQUE.update(id(v) for v in bad_values)
    try:
        walk = graph.Walk(snapshot, limits, case)
        walk.walk([(snapshot.frames[0].variables, [({n}, v) for n, v in values], 1, 4)])
    finally:
        graph.OPAQUE.clear()
    bad = set()
    for v, name in zip(bad_values, names):
        vid = walk.vid_of.get(id(v))
        if vid is None:
            continue
        bad.add(vid)
        variable = snapshot.var_lookup[vid]
        if name in ('grows_key', 'grows_while_read') and len(variable.children) < 5:
            raise Violation('content', 'the value %s has %d children' % (name, len(variable.children)), case)
        if variable.value == '' and not fresh_text(name):
            raise Violation('placeholder', 'there is no placeholder for the value %s' % name, case)
    for vid, variable in snapshot.var_lookup.items():
        for child in variable.children:
            if child.vid not in snapshot.var_lookup:
                raise Violation('closed', 'the child %s of %s is not in the table' % (child.name, variable.value), case)
    return bad


def run(agent, values, events=(('line', None),)):
    def at(frame):
        for event, arg in events:
            agent.handler.trace_call(frame, event, arg)
    host.paused(values, at)
    return agent.push.take()


def place_unit(name, rec):
    # the name of a placement or of one of the ways an expression reaches the value
    for place, locals_of in PLACES.items():
        v = hostile.HOSTILE[name]()
        if name in ('deep_list', 'deep_tuple_in_object') and place in ('key', 'set', 'exception'):
            continue
        values = locals_of(v)
        if values is None:
            continue
        # a text of these containers would need the text of the value
        agent = delivering(Agent())
        agent.install([tp('t', 'paused.py', PAUSED_LINE)])
        case = {'value': name, 'place': place}
        snapshots = run(agent, values)
        rec.step()
        rec.trace(lambda: case)
        rec.state((name, place))
        if len(snapshots) != 1:
            raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
        snapshot = snapshots[0]
        bad = judge(snapshot, values, [v], [name], case)
        if not isinstance(snapshot.frames[0].class_name, (str, type(None))):
            raise Violation('class-name', 'class_name is %r' % type(snapshot.frames[0].class_name), case)
        check_message(agent, snapshot, bad, case)
        values.clear()
    ways = {
        'watch': ({}, ['before', 'h', 'after', '[h, before]', 'h.missing', '{1: h}', 'h == h', 'len(h)'], ()),
        'log': ({'log_msg': 'a {before} b {h} c {[h]} {h.x.y} d {after}'}, [], ()),
        'capture': ({'stage': 'line_capture'}, ['before'], 'return'),
        'method capture': ({'stage': 'method_capture', 'method_name': 'paused_fn'}, ['before'], 'return'),
        'capture exception': ({'stage': 'line_capture'}, ['before'], 'exception'),
        'capture exception args': ({'stage': 'line_capture'}, ['before'], 'args'),
        'label': ({}, ['h'], 'metric'),
    }
    for way, (args, watches, event) in ways.items():
        v = hostile.HOSTILE[name]()
        values = [before(), ('h', v), after()]
        events = [('call', None), ('line', None)]
        if event == 'return':
            events.append(('return', v))
        elif event == 'exception':
            if not issubclass(type(v), BaseException):
                continue
            events.append(('exception', (type(v), v, None)))
        elif event == 'args':
            error = graph.Failure('x', v)
            events.append(('exception', (graph.Failure, error, None)))
        agent = delivering(Agent())
        agent.install([tp('t', 'paused.py', PAUSED_LINE, args, watches=watches)])
        case = {'value': name, 'way': way}
        snapshots = run(agent, values, events)
        rec.step(len(events))
        rec.trace(lambda: case)
        rec.state((name, way))
        if len(snapshots) != 1:
            raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
        snapshot = snapshots[0]
        bad = judge(snapshot, values, [v], [name], case)
        results = [w for w in snapshot.watches if w.source == 'WATCH']
        if [w.expression for w in results] != watches:
            raise Violation('watches', 'the results are of %s' % [w.expression for w in results], case)
        for w in snapshot.watches:
            if no_text(w):
                raise Violation('watches', 'the watch %s has no result and no error' % w.expression, case)
            if w.expression in ('before', 'after', 'h') and w.error is not None:
                raise Violation('watches', 'the watch %s failed: %s' % (w.expression, w.error), case)
        if way == 'log':
            text = snapshot.log_msg
            if not isinstance(text, str) or not text.startswith('[deep] a ') or text.count(' b ') < 1 or ' d ' not in text:
                raise Violation('log', 'the message is %r' % str(text)[:200], case)
            if len(snapshot.watches) != 5:
                raise Violation('log', '%d watch results' % len(snapshot.watches), case)
        if 'capture' in way and not [w for w in snapshot.watches if w.source == 'CAPTURE']:
            raise Violation('capture', 'nothing is captured', case)
        extra = {w.result.vid for w in snapshot.watches if w.result is not None} | {
            c.vid for w in snapshot.watches if w.result is not None and w.result.vid in snapshot.var_lookup
            for c in snapshot.var_lookup[w.result.vid].children}
        check_message(agent, snapshot, bad | extra, case)


CORE = ['__str__ raises BaseException', '__getattribute__ raises Exception', '__getattribute__ raises BaseException', 'deep_list',
        'evil_str', 'evil_key', 'evil_attribute_name', 'key_without_text', 'dict_property_stop', 'dict_of_ints', 'class_raises',
        'grows_while_read', 'grows_key', 'shrinks_while_read', 'object_changes_itself', 'evil_metaclass', 'closed_metaclass',
        'equals_every_type', 'unhashable_class', 'recursive_str', 'self_list', 'exception_cycle', 'exception_args_int',
        'list with a raising __len__', 'dict with a raising items', 'surrogate', 'nul', 'big int', 'generator', 'slots',
        'dict int keys', 'str_returns_none', 'huge_len', 'infinite_iter', 'fails after 2', 'stops after 3', 'dead proxy',
        'dict_subclass_attributes', 'descriptor_fails', 'magic mock']


def pair_unit(one, others, rec):
    for other in others:
        for nested in (False, True):
            a, b = hostile.HOSTILE[one](), hostile.HOSTILE[other]()
            values = [before(), ('h', a), ('m', ['x']), ('i', b), after()]
            if nested:
                values = [before(), ('l', [a, Holder(b), {'k': a}]), after()]
            agent = delivering(Agent())
            agent.install([tp('t', 'paused.py', PAUSED_LINE)])
            case = {'values': [one, other], 'nested': nested}
            snapshots = run(agent, values)
            rec.step()
            rec.trace(lambda: case)
            rec.state((one, other, nested))
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            bad = judge(snapshots[0], values, [a, b], [one, other], case)
            check_message(agent, snapshots[0], bad, case)


# --- independence

OPTIONS = {
    'plain': ({}, []),
    'no_frame': ({'frame_type': 'no_frame'}, ['a']),
    'all_frame': ({'frame_type': 'all_frame'}, []),
    'vars': ({'MAX_VARIABLES': '2'}, []),
    'size': ({'MAX_COLLECTION_SIZE': '1'}, ['a']),
    'string': ({'MAX_STRING_LENGTH': '2'}, []),
    'depth': ({'MAX_VAR_DEPTH': '2'}, []),
    'watches': ({}, ['a', '[a]', 'missing', 'o', '[o.value]']),
    'log': ({'log_msg': 'x {a} {o} {[b]}'}, ['b']),
    'capture': ({'stage': 'line_capture'}, ['a']),
    'method capture': ({'stage': 'method_capture', 'method_name': 'paused_fn', 'frame_type': 'all_frame'}, ['b']),
    'method': ({'method_name': 'paused_fn', 'stage': 'method_start'}, []),
    'condition': ({'condition': 'len(a) == 3'}, ['len(a)']),
    'failing': ({}, ['raise_it()', 'str(h)']),
    'log only': ({'log_msg': 'only {a}', 'snapshot': 'no_collect'}, []),
    'changing': ({}, ['[a] * 3', 'vars(o)']),
}


def canonical(snapshot):
    """A form of a snapshot that can be compared, without ids and times."""
    names = {}

    def ref(v):
        if v is None:
            return None
        if v.vid not in names:
            names[v.vid] = len(names)
            order.append(v.vid)
        return (names[v.vid], v.name, tuple(v.modifiers or ()), v.original_name)
    order = []
    frames = [(f.file_name, f.method_name, f.line_number, f.class_name, f.app_frame, f.short_path,
               [ref(v) for v in f.variables]) for f in snapshot.frames if 'paused' in f.file_name or 'outer.py' in f.file_name]
    watches = [(w.expression, w.source, w.error, ref(w.result)) for w in snapshot.watches]
    table = []
    for vid in order:
        variable = snapshot.var_lookup.get(vid)
        table.append(variable and (variable.type, variable.value, variable.truncated, [ref(c) for c in variable.children]))
    return (snapshot.tracepoint.id, frames, watches, table, snapshot.log_msg, sorted(
        snapshot.attributes.keys()))


def vandalise(snapshot):
    """What is done to one snapshot after it has been handed over must not be seen in another."""
    for variable in snapshot.var_lookup.values():
        variable.children.clear()
    snapshot.var_lookup.clear()
    for frame in snapshot.frames:
        if isinstance(frame.variables, list):
            frame.variables.clear()
    snapshot.frames.clear() if isinstance(snapshot.frames, list) else None
    snapshot.watches.clear() if isinstance(snapshot.watches, list) else None


def independent_data(which):
    shared = ['s', ['t']]
    values = [('a', [shared, 2, 'text']), ('b', {'k': shared}), ('o', Holder(shared))]
    if which == 1:
        values = [('h', hostile.HOSTILE['__getattribute__ raises BaseException']()), ('a', [1, 2, 3]),
                  ('b', hostile.HOSTILE['evil_key']()), ('o', Holder(hostile.HOSTILE['__str__ raises Exception']()))]
    elif which == 2:
        values[0][1].append(values[0][1])
        vars(values[2][1])['me'] = values[2][1]
        values.append(('self', values[2][1]))
    return values


def collect(names, data, hook=None, events=None):
    agent = Agent()
    out = {}

    def push(snapshot):
        out.setdefault(snapshot.tracepoint.id, []).append((canonical(snapshot), snapshot))
        if hook:
            hook(snapshot)
    agent.push.hook = push
    agent.install([tp(name, 'paused.py', PAUSED_LINE, OPTIONS[name.split('#')[0]][0],
                      watches=OPTIONS[name.split('#')[0]][1]) for name in names])
    values = independent_data(data)
    result = values[0][1]
    host.paused([('outer', [values[-1][1]])], lambda f: run(agent, values, events or (
        ('call', None), ('line', None), ('line', None), ('return', result))), filename='/app/outer.py', name='outer')
    return out, agent


def ids(names):
    return ['%s#%d' % (n, i) for i, n in enumerate(names)]


def comparable(form):
    # the texts can have the addresses of objects
    return re.sub('0x[0-9a-f]+|[0-9]{6,}', 'N', repr(form[1:]))


def alone(name, data, cache):
    key = (name, data)
    if key not in cache:
        got, _ = collect([name], data)
        cache[key] = [comparable(c) for c, _ in got.get(name, [])]
    return cache[key]


def independence(first, n, rec):
    cache = {}
    for data in range(3):
        for rest in itertools.product(OPTIONS, repeat=n - 1):
            names = ids([first, *rest])
            for hook in (None, vandalise):
                got, agent = collect(names, data, hook)
                case = {'tracepoints': names, 'data': data, 'hook': bool(hook)}
                rec.step(4)
                rec.trace(lambda: case)
                for name in names:
                    want = alone(name.split('#')[0], data, cache)
                    have = [comparable(c) for c, _ in got.get(name, [])]
                    if have != want:
                        raise Violation('not-independent', '%s: %s\nalone %s' % (name, have, want), case)
                    if hook is None and any(comparable(canonical(s)) != comparable(c) for c, s in got.get(name, [])):
                        raise Violation('altered', 'the snapshot of %s is altered after it is handed over' % name, case)
                rec.state((tuple(names), data, bool(hook)))


def units(tier):
    out = [('place', name) for name in hostile.NAMES]
    names = CORE if tier == 'quick' else hostile.NAMES
    out += [('pairs', name, tuple(names)) for name in names]
    for n in range(1, 4 if tier == 'quick' else 5):
        out += [('independence', name, n) for name in OPTIONS]
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'place':
        place_unit(unit[1], rec)
    elif unit[0] == 'pairs':
        pair_unit(*unit[1:], rec)
    else:
        independence(*unit[1:], rec)
