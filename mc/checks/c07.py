"""C07: all object graphs (sharing, cycles) up to a size, with watches and captures: closed table, identity bijection."""
import itertools

from mc import graph, host
from mc.agent import Agent, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'all graphs of 2 nodes of 8 kinds and 3 nodes of 5 kinds (width 2) x root assignments; all lists of up to 3 of '
             '16 watches; frames sharing objects; captures; 7 shapes of 40 to 1100 objects (rings, chains, ...) x 4 sets of '
             'limits x up to 222 watches',
    'thorough': 'as quick with 3 nodes of 7 kinds, and 4 nodes of 2 kinds, and up to 5000 objects',
}
RULE = 'a graph is the kind of each node and the ordered children of each node; roots are the locals'


def snapshots_of(agent, values, events=(('line', None),), module=None):
    def at(frame):
        for event, arg in events:
            agent.handler.trace_call(frame, event, arg)
    host.paused(values, at, module)
    return agent.push.take()


def closed(snapshot, case):
    """Every reference of the snapshot resolves."""
    table = snapshot.var_lookup
    refs = [(v, 'frame') for f in snapshot.frames for v in f.variables]
    refs += [(v, 'child') for variable in table.values() for v in variable.children]
    refs += [(w.result, 'watch ' + w.expression) for w in snapshot.watches if w.error is None]
    for ref, where in refs:
        if ref is None or ref.vid not in table:
            raise Violation('closed', 'the reference %s (%s) is not in the table' % (ref, where), case)
    reached, todo = set(), [v.vid for v, _ in refs if _ != 'child']
    while todo:
        vid = todo.pop()
        if vid not in reached:
            reached.add(vid)
            todo += [c.vid for c in table[vid].children]
    if set(table) != reached:
        raise Violation('orphan', 'the entries %s cannot be reached' % sorted(set(table) - reached), case)


def check(snapshot, locals_, case, watches=(), limits=None):
    closed(snapshot, case)
    depth = (limits or {}).get('depth', 5)
    walk = graph.Walk(snapshot, limits, case)
    roots = [(snapshot.frames[0].variables, [({n}, v) for n, v in locals_], 1, depth - 1)]
    walk.walk(roots)
    late = []
    for watch, value in watches:
        if watch.error is not None:
            raise Violation('watch-error', 'the watch %s failed: %s' % (watch.expression, watch.error), case)
        if walk.reference(watch.result, value):
            late.append((snapshot.var_lookup[watch.result.vid], value))
            for variable, v in late[-1:]:
                inner = graph.children_of(v, walk.limits['size'])
                if inner is not None:
                    walk.walk([(variable.children, inner, 2, depth)])
    walk.total()
    identities = {}
    for vid, variable in snapshot.var_lookup.items():
        other = identities.setdefault(variable.hash, vid)
        if other != vid and vid in walk.obj_of and other in walk.obj_of:
            raise Violation('same-hash', 'the variables %s and %s have the same identity' % (other, vid), case)
    return walk


def roots_of(nodes):
    yield [('a', nodes[0])]
    yield [('a', nodes[0]), ('b', nodes[-1]), ('c', nodes[0])]
    if len(nodes) > 2:
        yield [('a', nodes[1]), ('b', nodes[0])]


def graph_unit(n, kinds, width, part, parts, rec):
    for i, (ks, edges) in enumerate(graph.graphs(n, kinds, width)):
        if i % parts != part:
            continue
        nodes = graph.build(ks, edges)
        if nodes is None:
            continue
        for j, roots in enumerate(roots_of(nodes)):
            agent = Agent()
            agent.install([tp('t', 'paused.py', PAUSED_LINE, {}, watches=['a', roots[-1][0]] if j else [])])
            snapshots = snapshots_of(agent, roots)
            case = {'kinds': ks, 'edges': edges, 'roots': j}
            rec.step()
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            check(snapshots[0], roots, case, [(w, dict(roots)[w.expression]) for w in snapshots[0].watches])
            rec.trace(lambda: case)
        rec.state((ks, edges))
        # break the cycles
        for node in nodes:
            if isinstance(node, (list, dict)):
                node.clear()
            elif isinstance(node, graph.Obj):
                vars(node).clear()
            elif isinstance(node, graph.Failure):
                node.args = ()


class Slot:
    __slots__ = ('x',)


class Prop:
    def __init__(self):
        self.kept = [5]

    @property
    def fresh(self):
        return [self.kept]

    def method(self):
        return (self.kept, [7])


WATCHES = {
    # expression -> shape: list of expected texts of the children, or the name of the object
    'a': 'a', 'b': 'b', 'a[0]': 'a0', 'o': 'o', 'o.kept': 'kept', 'o.fresh': ['Size: 1'], '[1]': ['1'], '[2]': ['2'],
    '[3, 3]': ['3', '3'], '(a, a)': ['Size: 2', 'Size: 2'], '"te" + s': None, 'dict(q=a)': ['Size: 2'], 's': 's',
    'o.method()': ['Size: 1', 'Size: 1'], '[[8]]': ['Size: 1'], 'missing': 'error', '[x for x in a]': ['Size: 1', 'text']}


def watch_lists(first, n, rec):
    for rest in itertools.product(WATCHES, repeat=n - 1):
        expressions = [first, *rest]
        inner = [6]
        a = [inner, 'text']
        o = Prop()
        values = [('a', a), ('b', a), ('o', o), ('s', 'text')]
        named = {'a': a, 'b': a, 'a0': inner, 'o': o, 'kept': o.kept, 's': 'text'}
        for frame_type in ('single_frame', 'no_frame'):
            agent = Agent()
            agent.install([tp('t', 'paused.py', PAUSED_LINE, {'frame_type': frame_type,
                                                             'log_msg': '{a}{[9]}{[10]}'}, watches=expressions)])
            snapshot = snapshots_of(agent, values)[0]
            case = {'watches': expressions, 'frame_type': frame_type}
            rec.step()
            rec.trace(lambda: case)
            closed(snapshot, case)
            ids = {}
            walk = graph.Walk(snapshot, None, case)
            if frame_type == 'single_frame':
                walk.walk([(snapshot.frames[0].variables, [({k}, v) for k, v in values], 1, 4)])
            fresh = {}
            shapes = [WATCHES[e] for e in expressions] + ['a', ['9'], ['10']]
            if len(snapshot.watches) != len(shapes):
                raise Violation('watches', '%d results' % len(snapshot.watches), case)
            for watch, shape in zip(snapshot.watches, shapes):
                if shape == 'error':
                    if watch.error is None:
                        raise Violation('watch-error', 'no error', case)
                    continue
                if watch.error is not None:
                    raise Violation('watch-error', 'the watch %s failed: %s' % (watch.expression, watch.error), case)
                if isinstance(shape, str):
                    walk.reference(watch.result, named[shape])
                    continue
                vid = watch.result.vid
                variable = snapshot.var_lookup[vid]
                if shape is not None:
                    got = [snapshot.var_lookup[c.vid].value for c in variable.children]
                    if variable.value != 'Size: %d' % len(shape) or got != shape:
                        raise Violation('fresh-object', '%s is recorded as %s %s' % (watch.expression, variable.value, got),
                                        case)
                elif variable.value != 'tetext':
                    raise Violation('fresh-object', '%s is recorded as %s' % (watch.expression, variable.value), case)
                if vid in fresh or vid in walk.obj_of:
                    raise Violation('two-objects-one-id', 'the new object of %s has the id of another' % watch.expression,
                                    case)
                fresh[vid] = watch.expression
            rec.state((tuple(expressions), frame_type))


def frames_unit(rec):
    """Objects shared by the frames of the stack, recorded once."""
    shared = [1, ['x']]
    mine = {'shared': shared}

    def drive(agent):
        out = []

        def inner(frame):
            agent.handler.trace_call(frame, 'line', None)
            f = frame
            while f is not None:
                out.append((f.f_code.co_name, f.f_code.co_filename, dict(f.f_locals)))
                f = f.f_back

        def outer(frame):
            host.paused([('x', shared), ('y', mine)], inner, name='inner_fn')
        host.paused([('y', shared), ('self', mine)], outer, filename='/app-root-of-the-check/outer.py')
        return out
    for limits in ({}, {'MAX_VARIABLES': '3'}, {'MAX_VARIABLES': '10'}, {'MAX_VAR_DEPTH': '2'}, {'MAX_VAR_DEPTH': '3'}):
        for frame_type in ('all_frame', 'single_frame', 'no_frame'):
            agent = Agent()
            agent.install([tp('t', 'paused.py', PAUSED_LINE, {'frame_type': frame_type, **limits}, ['x', 'y', 'shared'])])
            drive(agent)
            snapshot = agent.push.take()[0]
            case = {'frame_type': frame_type, 'limits': limits}
            rec.step()
            rec.trace()
            if 'MAX_VARIABLES' in limits:
                table = snapshot.var_lookup
                refs = [v for f in snapshot.frames for v in f.variables] + [v for x in table.values() for v in x.children]
                if any(v.vid not in table for v in refs):
                    raise Violation('closed', 'with the limit %s' % limits, case)
                continue
            closed(snapshot, case)
            walk = graph.Walk(snapshot, {'depth': int(limits.get('MAX_VAR_DEPTH', 5))}, case)
            if frame_type == 'all_frame':
                named = {'x': shared, 'y': mine}
                for v in snapshot.frames[0].variables:
                    walk.reference(v, named[v.name])
                named = {'y': shared, 'self': mine}
                other = [f for f in snapshot.frames if f.file_name.endswith('outer.py')][0]
                if [v.name for v in other.variables] != ['y', 'self']:
                    raise Violation('frames', 'the outer frame has %s' % [v.name for v in other.variables], case)
                for v in other.variables:
                    walk.reference(v, named[v.name])
            rec.state((frame_type, repr(limits), len(snapshot.var_lookup)))


def captures(rec):
    """The captured result can be one of the locals, or share objects with them."""
    inner = [2]
    a = [inner, 'x']
    error = graph.Failure(inner, a)
    for stage, place in (('line_capture', {}), ('method_capture', {'method_name': 'paused_fn'})):
        for event, arg, value in (('return', a, a), ('return', inner, inner), ('return', [a], None), ('return', None, None),
                                  ('exception', (graph.Failure, error, None), None), ('return', error, error)):
            for frame_type in ('single_frame', 'no_frame'):
                agent = Agent()
                agent.install([tp('t', 'paused.py', PAUSED_LINE, {'stage': stage, 'frame_type': frame_type, **place}, ['a'])])
                first = 'call' if place else 'line'
                snapshots = snapshots_of(agent, [('a', a), ('e', error)], ((first, None), (event, arg)))
                case = {'stage': stage, 'event': event, 'value': repr(arg), 'frame_type': frame_type}
                rec.step(2)
                rec.trace()
                if len(snapshots) != 1:
                    raise Violation('capture', '%d snapshots' % len(snapshots), case)
                snapshot = snapshots[0]
                closed(snapshot, case)
                walk = graph.Walk(snapshot, None, case)
                if frame_type == 'single_frame':
                    walk.walk([(snapshot.frames[0].variables, [({'a'}, a), ({'e'}, error)], 1, 4)])
                walk.reference(snapshot.watches[0].result, a)
                capture = [w for w in snapshot.watches if w.source == 'CAPTURE']
                if len(capture) != 1:
                    raise Violation('capture', '%d captured values' % len(capture), case)
                if value is not None:
                    walk.reference(capture[0].result, value)
                rec.state((stage, event, repr(arg), frame_type))


def shape(name, n):
    """Locals of about n objects."""
    if name == 'wide':
        return [('a', [['v%d' % i] for i in range(n)])]
    if name == 'same':
        one = ['one']
        return [('a', [one] * n), ('b', one)]
    if name == 'ring':
        nodes = [graph.Obj() for _ in range(n)]
        for i, node in enumerate(nodes):
            node.next = nodes[(i + 1) % n]
            node.first = nodes[0]
        return [('a', nodes[0]), ('b', nodes[-1])]
    if name == 'chain':
        inner = []
        last = inner
        for _ in range(n):
            inner = [inner, last]
        return [('a', inner), ('b', last)]
    if name == 'keys':
        shared = ['shared']
        return [('a', {'k%d' % i: {'own': [i], 'shared': shared} for i in range(n)})]
    if name == 'locals':
        return [('v%d' % i, ['x%d' % i]) for i in range(n)]
    assert name == 'numbers'
    return [('a', list(range(10 ** 6, 10 ** 6 + n))), ('b', [float(i) for i in range(n)])]


SHAPES = ('wide', 'same', 'ring', 'chain', 'keys', 'locals', 'numbers')
SIZES = (40, 101, 257, 700, 1100)
MANY = {'quick': SIZES, 'thorough': (*SIZES, 2100, 5000)}


def large(name, n, rec):
    """A lot of objects, without a limit that is reached, and with the default limits."""
    values = shape(name, n)
    big = str(n * 20)
    free = {'MAX_VARIABLES': big, 'MAX_COLLECTION_SIZE': big, 'MAX_VAR_DEPTH': big}
    first = values[0][0]
    watches = [first, '[%s]' % values[-1][0]] + ['["w%d"]' % i for i in range(n // 5)]
    for args in (free, {'MAX_COLLECTION_SIZE': big, 'MAX_VAR_DEPTH': big}, {'MAX_VARIABLES': big}, {}):
        for ws in ([], watches):
            agent = Agent()
            agent.install([tp('t', 'paused.py', PAUSED_LINE, args, ws)])
            case = {'shape': name, 'objects': n, 'args': args, 'watches': len(ws)}
            snapshots = snapshots_of(agent, values)
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            snapshot = snapshots[0]
            closed_large(snapshot, case)
            limits = {'vars': int(args.get('MAX_VARIABLES', 1000)), 'size': int(args.get('MAX_COLLECTION_SIZE', 10)),
                      'depth': int(args.get('MAX_VAR_DEPTH', 5))}
            walk = graph.Walk(snapshot, limits, case)
            walk.walk([(snapshot.frames[0].variables, [({k}, v) for k, v in values], 1, limits['depth'] - 1)])
            if len(snapshot.watches) != len(ws):
                raise Violation('watches', '%d results of %d' % (len(snapshot.watches), len(ws)), case)
            fresh = set()
            for watch, expression in zip(snapshot.watches, ws):
                if watch.expression != expression:
                    raise Violation('watches', 'the result of %s is that of %s' % (expression, watch.expression), case)
                if watch.error is not None:
                    continue
                if expression == first:
                    walk.reference(watch.result, values[0][1])
                elif watch.result.vid in fresh or watch.result.vid in walk.obj_of:
                    raise Violation('two-objects-one-id', 'the new object of %s has the id of another' % expression, case)
                fresh.add(watch.result.vid)
            rec.step(len(snapshot.var_lookup))
            rec.trace(lambda: case)
            rec.state((name, n, repr(args), len(ws), len(snapshot.var_lookup)))
    for _, value in values:
        if isinstance(value, graph.Obj):
            vars(value).clear()


def closed_large(snapshot, case):
    closed(snapshot, case)
    if len({id(v) for v in snapshot.var_lookup.values()}) != len(snapshot.var_lookup):
        raise Violation('same-entry', 'a variable is in the table more than once', case)


def units(tier):
    out = [('large', name, n) for name in SHAPES for n in MANY[tier]]
    out += [('graphs', 2, ('list', 'dict', 'obj', 'exc', 'tuple', 'set', 'str', 'int'), 2, i, 16) for i in range(16)]
    kinds = ('list', 'dict', 'obj', 'tuple', 'str')
    if tier == 'thorough':
        kinds = ('list', 'dict', 'obj', 'exc', 'tuple', 'set', 'str')
        out += [('graphs', 4, ('list', 'str'), 2, i, 128) for i in range(128)]
        out += [('graphs', 4, ('obj', 'dict'), 1, i, 64) for i in range(64)]
    out += [('graphs', 3, kinds, 2, i, 256) for i in range(256)]
    out += [('watches', w, 3) for w in WATCHES] + [('frames',), ('captures',)]
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'graphs':
        graph_unit(*unit[1:], rec)
    elif unit[0] == 'watches':
        for n in range(1, unit[2] + 1):
            watch_lists(unit[1], n, rec)
    elif unit[0] == 'large':
        large(*unit[1:], rec)
    elif unit[0] == 'frames':
        frames_unit(rec)
    else:
        captures(rec)
