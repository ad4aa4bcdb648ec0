"""C05: object graphs and structured data x the product of the four limits: bounds and breadth first."""
import collections
import itertools

from mc import graph, host
from mc.agent import Agent, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'all graphs of 3 nodes of 3 kinds (width 2) with locals around x limits; 40 structured data sets x the product '
             'of variables (13) x depth (6) x size (5) x string (5) limits; boundaries of the defaults; tracepoint pairs',
    'thorough': 'as quick with all graphs of 3 nodes of 6 kinds and 4 nodes of 2 kinds, all values of the limits in the ranges',
}
RULE = 'a data set with the values of MAX_VARIABLES, MAX_VAR_DEPTH, MAX_COLLECTION_SIZE, MAX_STRING_LENGTH, (frame_type)'

ARGS = {'vars': 'MAX_VARIABLES', 'depth': 'MAX_VAR_DEPTH', 'size': 'MAX_COLLECTION_SIZE', 'string': 'MAX_STRING_LENGTH'}


def args_of(limits):
    return {ARGS[k]: str(v) for k, v in limits.items() if k in ARGS}


def collect(tps, values, events=(('line', None),), wrap=None):
    agent = Agent()
    agent.install(tps)

    def at(frame):
        for event, arg in events:
            agent.handler.trace_call(frame, event, arg)
    if wrap:
        host.paused(wrap, lambda f: host.paused(values, at), filename='/app/outer.py', name='outer')
    else:
        host.paused(values, at)
    return agent.push.take()


def strings(snapshot, limit, case):
    """The limit of the text, for every variable of the table, no matter how it got there."""
    for vid, variable in snapshot.var_lookup.items():
        if len(variable.value) > limit:
            raise Violation('string-limit', 'the variable %s has a text of %d, the limit is %d' % (
                vid, len(variable.value), limit), case)


def sizes(snapshot, limit, case):
    for vid, variable in snapshot.var_lookup.items():
        if variable.type in ('list', 'tuple', 'set', 'frozenset') and len(variable.children) > limit:
            raise Violation('size-limit', 'the %s %s has %d elements, the limit is %d' % (
                variable.type, vid, len(variable.children), limit), case)


def depths(snapshot, limit, case):
    """No path of new variables is deeper than the limit: the shortest path to each entry."""
    roots = {v.vid for f in snapshot.frames for v in f.variables}
    roots |= {w.result.vid for w in snapshot.watches if w.result is not None}
    level, depth, seen = roots, 1, set(roots)
    while level:
        if depth > max(limit, 1):
            raise Violation('depth-limit', 'there are values at depth %d, the limit is %d' % (depth, limit), case)
        level = {c.vid for v in level if v in snapshot.var_lookup for c in snapshot.var_lookup[v].children} - seen
        seen |= level
        depth += 1


def judge(snapshot, values, limits, case, watches=False):
    full = {**graph.DEFAULTS, **limits}
    strings(snapshot, full['string'], case)
    sizes(snapshot, full['size'], case)
    depths(snapshot, full['depth'], case)
    walk = graph.Walk(snapshot, limits, case)
    # the locals themselves can be seen as the first level
    if full['depth'] > 1 or snapshot.frames[0].variables:
        walk.walk([(snapshot.frames[0].variables, [({n}, v) for n, v in values], 1, full['depth'] - 1)])
    walk.total()
    return walk


class Node(graph.Obj):
    def __init__(self, **values):
        vars(self).update(values)


def chain(kind, n):
    value = 'end of %s' % kind
    for i in range(n):
        value = {'list': lambda v: [v], 'dict': lambda v: {'k': v}, 'obj': lambda v: Node(f=v), 'tuple': lambda v: (v,),
                 'exc': lambda v: graph.Failure(v), 'mix': lambda v: [[v], {'k': v}, Node(f=v)][i % 3]}[kind](value)
    return value


def tree(depth, width):
    return [tree(depth - 1, width) for _ in range(width)] if depth else object()


def endless():
    i = 0
    while True:
        yield i
        i += 1


class Endless(list):
    """A list that never ends when it is iterated."""

    def __iter__(self):
        return endless()


def _cyclic():
    a, b = [], {}
    a.append(b)
    b['a'] = a
    b['self'] = b
    return a


DATA = {
    'leaves': lambda: [('a', 1), ('b', 'text'), ('c', 2.5), ('d', None), ('e', b'bytes')],
    'long-list-first': lambda: [('big', [object() for _ in range(20)]), ('x', 'local'), ('y', 'other')],
    'wide-dict-first': lambda: [('big', {'k%d' % i: [i, 's%d' % i] for i in range(15)}), ('x', 'local'), ('y', [1.5])],
    'wide-object-first': lambda: [('big', Node(**{'f%d' % i: ['s%d' % i] for i in range(15)})), ('x', 'l'), ('y', {'a': 'b'})],
    'tree-first': lambda: [('big', tree(3, 3)), ('x', 'local'), ('y', tree(2, 2))],
    'trees': lambda: [('a', tree(2, 2)), ('b', tree(2, 2)), ('c', tree(1, 3))],
    'chain-list': lambda: [('a', chain('list', 8)), ('x', 'local')],
    'chain-dict': lambda: [('a', chain('dict', 8)), ('x', 'local')],
    'chain-obj': lambda: [('a', chain('obj', 8)), ('x', 'local')],
    'chain-tuple': lambda: [('a', chain('tuple', 8)), ('x', 'local')],
    'chain-exc': lambda: [('a', chain('exc', 8)), ('x', 'local')],
    'chain-mix': lambda: [('a', chain('mix', 8)), ('b', chain('mix', 7)), ('x', 'local')],
    'collections': lambda: [('l', [1, 2, 3, 4]), ('t', (5, 6, 7)), ('s', {'only'}), ('f', frozenset(['one'])), ('e', []),
                            ('d', {1: 2, 3: 4, 5: 6})],
    'nested-collections': lambda: [('l', [[1, 2], [3, 4], (5, 6, 7)]), ('d', {'a': [1, 2, 3], 'b': ('x', 'y')})],
    'sets': lambda: [('s', set('abcdef')), ('f', frozenset(range(100, 107))), ('e', set())],
    'strings': lambda: [(n, 'abcdefgh'[:i]) for i, n in enumerate('abcdefg')],
    'unicode': lambda: [('a', 'éèêë'), ('b', '\U0001f600' * 3), ('c', 'e\u0301' * 3), ('d', '\x00\n\t')],
    'inner-strings': lambda: [('a', ['', 'x', 'xy', 'xyz', 'wxyz']), ('d', {'long key of the dict': 'long value'}),
                              ('o', Node(attr='long value'))],
    'long-text-types': lambda: [('n', 10 ** 30), ('b', b'0123456789'), ('t', object()), ('c', 1 + 2j), ('r', range(1000)),
                                ('e', graph.Failure('arguments')), ('k', Node)],
    'shared': lambda: (lambda v: [('a', [v, v]), ('b', v), ('c', {'v': v, 'w': [v]})])(['shared', 2]),
    'cyclic': lambda: [('a', _cyclic()), ('x', 'local'), ('b', _cyclic())],
    'cyclic-object': lambda: (lambda n: (vars(n).update(me=n, l=[n, n]), [('n', n), ('x', 'local')])[1])(Node(v=1)),
    'twins': lambda: [('a', [['same']]), ('b', [['same2']]), ('c', (['same3'],))],
    'many-locals': lambda: [('v%d' % i, object()) for i in range(14)],
    'many-lists': lambda: [('v%d' % i, [object(), object()]) for i in range(8)],
    'exceptions': lambda: [('e', graph.Failure(['a', 'b'], 'c', {'d': 'e'})), ('x', 'local')],
    'iterators': lambda: [('i', iter(['a', 'b', 'c'])), ('r', reversed(['a', 'b'])), ('x', 'local')],
    'generators': lambda: [('g', endless()), ('m', map(str, endless())), ('c', itertools.count()), ('x', 'local')],
    'subclasses': lambda: [('e', Endless()), ('o', collections.OrderedDict(a=1)), ('d', collections.defaultdict(list, k=[1])),
                           ('n', collections.namedtuple('N', 'a b')(1, [2])), ('q', collections.deque(range(30))), ('x', 'y')],
    'last-deep': lambda: [('x', 'local'), ('y', 'other'), ('big', tree(3, 2))],
    'dict-keys': lambda: [('d', {1: 'a', None: 'b', (1, 2): ['c'], 2.5: {'x': 'y'}}), ('x', 'local')],
    'self': lambda: [('self', Node(_private=[1, 2], public='p')), ('x', 'local')],
    'huge-list': lambda: [('big', list(range(100000, 300000))), ('x', 'local')],
    'huge-text': lambda: [('big', 'y' * 1000000), ('x', ['z' * 100000])],
    'empty': lambda: [],
}

QUICK = {'vars': (0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25, 1000), 'depth': (0, 1, 2, 3, 4, 7), 'size': (0, 1, 2, 5, 10),
         'string': (0, 1, 4, 8, 1024)}
THOROUGH = {'vars': (*range(0, 41), 100, 1000), 'depth': tuple(range(0, 11)), 'size': tuple(range(0, 12)),
            'string': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 25, 1024)}


def shape_unit(name, sizes_, ranges, rec):
    values = DATA[name]()
    for size in sizes_:
        for n, depth, string in itertools.product(ranges['vars'], ranges['depth'], ranges['string']):
            limits = {'vars': n, 'depth': depth, 'size': size, 'string': string}
            if name in ('generators', 'iterators'):
                values = DATA[name]()
            case = {'data': name, 'limits': limits}
            snapshots = collect([tp('t', 'paused.py', PAUSED_LINE, args_of(limits))], values)
            rec.step()
            rec.trace(lambda: case)
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            judge(snapshots[0], values, limits, case)
            rec.state((name, size, n, depth, string, len(snapshots[0].var_lookup)))


def graph_unit(n, kinds, width, part, parts, rec):
    for i, (ks, edges) in enumerate(graph.graphs(n, kinds, width)):
        if i % parts != part:
            continue
        nodes = graph.build(ks, edges)
        if nodes is None:
            continue
        values = [('a', nodes[0]), ('x', object()), ('b', nodes[-1]), ('y', 'long text')]
        for count, depth in itertools.product((2, 3, 5, 1000), (2, 3)):
            limits = {'vars': count, 'depth': depth, 'size': 1 if count % 2 else 2, 'string': 4}
            case = {'kinds': ks, 'edges': edges, 'limits': limits}
            snapshots = collect([tp('t', 'paused.py', PAUSED_LINE, args_of(limits))], values)
            rec.step()
            rec.trace(lambda: case)
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            judge(snapshots[0], values, limits, case)
            rec.state((ks, edges, count, depth))
        for node in nodes:
            if isinstance(node, (list, dict)):
                node.clear()
            elif isinstance(node, graph.Obj):
                vars(node).clear()
            elif isinstance(node, graph.Failure):
                node.args = ()


def defaults(rec):
    """The boundaries of the default limits, and limits that are no numbers."""
    data = {
        'strings': [('s%d' % i, 'x' * i) for i in (0, 1, 1022, 1023, 1024, 1025, 1026, 2048, 4096)],
        'lists': [('l%d' % i, list(range(i))) for i in (0, 1, 9, 10, 11, 12, 100)],
        'tuples': [('l%d' % i, tuple(range(i))) for i in (0, 1, 9, 10, 11, 12, 100)],
        'sets': [('l%d' % i, set(range(i))) for i in (0, 1, 9, 10, 11, 12, 100)],
        'chains': [('%s%d' % (k, i), chain(k, i)) for k in ('list', 'dict', 'obj', 'mix', 'tuple') for i in (3, 4, 5, 6, 7)],
    }
    for n in (990, 997, 998, 999, 1000, 1001, 1002, 1003, 1500):
        data['locals%d' % n] = [('first', [object() for _ in range(10)])] + [('v%d' % i, object()) for i in range(n)]
        data['dict%d' % n] = [('big', {'k%d' % i: [object()] for i in range(n)}), ('x', 'local')]
        data['object%d' % n] = [('big', Node(**{'k%d' % i: [object()] for i in range(n)})), ('x', 'local')]
    for name, values in data.items():
        for args in ({}, {'MAX_VARIABLES': 'many'}, {'MAX_STRING_LENGTH': ''}, {'MAX_COLLECTION_SIZE': 'x', 'MAX_VAR_DEPTH': 'x'}):
            case = {'data': name, 'args': args}
            snapshots = collect([tp('t', 'paused.py', PAUSED_LINE, args)], values)
            rec.step()
            rec.trace(lambda: case)
            rec.state((name, repr(args)))
            if len(snapshots) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
            judge(snapshots[0], values, {}, case)


def several(rec):
    """Two tracepoints with different limits at one line: each has its own."""
    options = [{}, {'vars': 3}, {'vars': 6, 'depth': 2}, {'depth': 1}, {'size': 1}, {'string': 2}, {'size': 3, 'string': 5}]
    for name in ('trees', 'strings', 'nested-collections', 'inner-strings', 'chain-mix', 'shared', 'wide-dict-first'):
        values = DATA[name]()
        for one, two in itertools.product(options, repeat=2):
            for lines in ((PAUSED_LINE, PAUSED_LINE), ('method', PAUSED_LINE)):
                tps = []
                for i, (limits, line) in enumerate(zip((one, two), lines)):
                    args = args_of(limits)
                    if line == 'method':
                        args.update(method_name='paused_fn', stage='method_start')
                        line = 1
                    tps.append(tp('t%d' % i, 'paused.py', line, args))
                snapshots = collect(tps, values, (('call', None), ('line', None)))
                case = {'data': name, 'limits': [one, two], 'lines': lines}
                rec.step(2)
                rec.trace(lambda: case)
                by_id = {s.tracepoint.id: s for s in snapshots}
                if set(by_id) != {'t0', 't1'} or len(snapshots) != 2:
                    raise Violation('no-snapshot', 'snapshots of %s' % [s.tracepoint.id for s in snapshots], case)
                judge(by_id['t0'], values, one, case)
                judge(by_id['t1'], values, two, case)
                rec.state((name, repr(one), repr(two), lines))


def watch_unit(rec):
    """The results of watches, of the fields of log messages and captured values are limited as well."""
    expressions = ['big', 'x', '[big, big, [x, [x]]]', '"w" * 3000', 'list(range(500))', '{1: {2: {3: {4: {5: {6: 7}}}}}}',
                   'tuple(range(30))', '[[[[[[["deep"]]]]]]]', '{i: [i] for i in range(40)}', 'set(range(50))', 'missing',
                   '1/0']
    for name in ('tree-first', 'wide-dict-first', 'chain-mix', 'inner-strings', 'empty'):
        for limits in ({}, {'vars': 5}, {'vars': 30, 'depth': 2}, {'depth': 1}, {'depth': 3}, {'size': 0}, {'size': 2},
                       {'string': 0}, {'string': 3}, {'string': 3, 'size': 2, 'depth': 2, 'vars': 20}):
            for frame_type, log, (stage, events) in itertools.product(
                    ('single_frame', 'all_frame', 'no_frame'), ('', 'log {"l" * 2000} {list(range(99))}'),
                    ((None, (('line', None),)), ('line_capture', (('line', None), ('return', list(range(50))))),
                     ('line_capture', (('line', None), ('return', 'r' * 5000))),
                     ('line_capture', (('line', None), ('exception', (graph.Failure, graph.Failure(chain('list', 9), 'm' * 99),
                                                                      None)))))):
                args = dict(args_of(limits), frame_type=frame_type)
                if log:
                    args['log_msg'] = log
                if stage:
                    args['stage'] = stage
                values = DATA[name]()
                snapshots = collect([tp('t', 'paused.py', PAUSED_LINE, args, watches=expressions)], values, events,
                                    wrap=[('outer', tree(2, 3))])
                case = {'data': name, 'limits': limits, 'frame_type': frame_type, 'log': log, 'stage': stage}
                rec.step(len(events))
                rec.trace(lambda: case)
                rec.state((name, repr(limits), frame_type, bool(log), repr(events)[:40]))
                if len(snapshots) != 1:
                    raise Violation('no-snapshot', '%d snapshots' % len(snapshots), case)
                snapshot = snapshots[0]
                full = {**graph.DEFAULTS, **limits}
                strings(snapshot, full['string'], case)
                sizes(snapshot, full['size'], case)
                depths(snapshot, full['depth'], case)
                if len(snapshot.var_lookup) > full['vars'] + 1:
                    raise Violation('variable-limit', '%d variables, the limit is %d' % (len(snapshot.var_lookup), full['vars']),
                                    case)
                for watch in snapshot.watches:
                    if watch.error is None and watch.expression in expressions and watch.expression not in ('big', 'x') and \
                            watch.result.vid in snapshot.var_lookup:
                        value = eval(watch.expression, dict(values))
                        graph.check_value(snapshot.var_lookup[watch.result.vid], value, full,
                                          lambda key, detail: _fail(key, detail, case))


def _fail(key, detail, case):
    raise Violation(key, detail, case)


def stack_unit(rec):
    """All frames: every frame spends the budget breadth first, the paused frame first."""
    for outer, inner in itertools.product(('trees', 'leaves', 'wide-dict-first', 'shared'), repeat=2):
        for n, depth in itertools.product((1, 2, 4, 6, 9, 14, 20, 30, 1000), (1, 2, 3, 5)):
            limits = {'vars': n, 'depth': depth}
            got = []
            agent = Agent()
            agent.install([tp('t', 'paused.py', PAUSED_LINE, dict(args_of(limits), frame_type='all_frame'))])
            out_values = [('o_' + k, v) for k, v in DATA[outer]()]
            values = DATA[inner]()

            def at(frame):
                agent.handler.trace_call(frame, 'line', None)
            host.paused(out_values, lambda f: host.paused(values, at), filename='/app/outer.py', name='outer')
            got = agent.push.take()
            case = {'outer': outer, 'inner': inner, 'limits': limits}
            rec.step()
            rec.trace(lambda: case)
            if len(got) != 1:
                raise Violation('no-snapshot', '%d snapshots' % len(got), case)
            snapshot = got[0]
            if len(snapshot.var_lookup) > n + 1:
                raise Violation('variable-limit', '%d variables' % len(snapshot.var_lookup), case)
            depths(snapshot, depth, case)
            frames = [f for f in snapshot.frames if f.file_name.endswith(('paused.py', '/app/outer.py'))]
            # the locals of every frame are counted
            walk = graph.Walk(snapshot, {**limits, 'slack': len(snapshot.frames)}, case)
            for frame, expected in zip(frames, (values, out_values)):
                if depth < 2 and not frame.variables:
                    continue
                walk.walk([(frame.variables, [({k}, v) for k, v in expected], 1, depth - 1)])
            rec.state((outer, inner, n, depth, len(snapshot.var_lookup)))


def units(tier):
    ranges = QUICK if tier == 'quick' else THOROUGH
    out = []
    for name in DATA:
        for size in ranges['size']:
            out.append(('shape', name, (size,)))
    kinds = ('list', 'obj', 'str')
    if tier == 'thorough':
        kinds = ('list', 'dict', 'obj', 'exc', 'tuple', 'str')
        out += [('graphs', 4, ('list', 'str'), 2, i, 128) for i in range(128)]
    out += [('graphs', 3, kinds, 2, i, 128) for i in range(128)]
    return [('defaults',), ('several',), ('watches',), ('stack',)] + out


def run_unit(unit, rec, tier):
    if unit[0] == 'shape':
        shape_unit(*unit[1:], QUICK if tier == 'quick' else THOROUGH, rec)
    elif unit[0] == 'graphs':
        graph_unit(*unit[1:], rec)
    else:
        {'defaults': defaults, 'several': several, 'watches': watch_unit, 'stack': stack_unit}[unit[0]](rec)
