"""
C18: bounded attribute store and resource identity.

Breadth first search over histories of operations on the real container, next to a reference model; exhaustive products
of resources (chains) and of the sources of the client resource, observed in the poll request and the snapshot message.
"""
import itertools
import os
from collections.abc import Sequence

from deep.api.attributes import BoundedAttributes
from deep.api.resource import Resource
from mc import world
from mc.core import Violation

BOUNDS = {
    'quick': 'containers: capacity None,0..3, value limit None,0,2; histories to depth 4 over 3 keys (all distinct model '
             'states); resource chains of 3; up to 500 attributes; 4 sources product; schedules of 2-3 '
             'threads that change a container with up to 2 deviations',
    'thorough': 'containers: capacity None,0..4, value limit None,0,2; histories to depth 6; resource chains of 4',
}
RULE = 'a state is (container configuration, ordered items, drop count); every operation is applied in every state'


class Odd:
    def __repr__(self):
        return 'Odd()'


ODD = Odd()
VALUES = ['x', 'long-text', '', b'bytes', b'\xff', 0, 7, True, False, 1.5, None, ['a', 'long-text'], ('a', 1), [None, 'a'],
          [b'by', 'y'], [b'\xff', 'y'], [], {}, ODD, [[1]], [True, 1], [1, 2], range(2), {'a': 1}, [1.5, None], {1},
          [b'\xff', 1], [None], ['a', 1.0], [ODD, 'a'], ('t',), 'ü' * 3, [0, False], iter(()), bytearray(b'ab')]
INVALID = object()
VALID_TYPES = (bool, str, bytes, int, float)


def clean_one(value, limit):
    if isinstance(value, bytes):
        try:
            value = value.decode('utf-8')
        except UnicodeDecodeError:
            return None
    if isinstance(value, str) and limit is not None:
        return value[:limit]
    return value


def clean(key, value, limit):
    """Reference: the value to store, or INVALID."""
    if not isinstance(key, str) or key == '':
        return INVALID
    if type(value) in VALID_TYPES:
        value = clean_one(value, limit)
        return INVALID if value is None else value
    if isinstance(value, Sequence):
        out = [clean_one(v, limit) for v in value]
        types = {type(v) for v in out if v is not None}
        if len(types) > 1 or not types <= set(VALID_TYPES):
            return INVALID
        return tuple(out)
    return INVALID


class Model:
    def __init__(self, cap, limit, items=(), dropped=0):
        self.cap, self.limit, self.items, self.dropped = cap, limit, list(items), dropped
        self.loose_drop = False

    def set(self, key, value):
        value = clean(key, value, self.limit)
        if value is INVALID:
            if self.cap == 0:
                self.loose_drop = True  # whether a rejected value counts as dropped here is not specified
            return
        if self.cap == 0:
            self.dropped += 1
            return
        before = len(self.items)
        self.items = [i for i in self.items if i[0] != key]
        if len(self.items) == before and self.cap is not None and before >= self.cap:
            self.items.pop(0)
            self.dropped += 1
        self.items.append((key, value))

    def canon(self):
        return (self.cap, self.limit, tuple((k, repr(v)) for k, v in self.items), self.dropped)


def apply(real, op):
    """Apply to the real container: returns the outcome."""
    try:
        kind = op[0]
        if kind == 'set':
            real[op[1]] = op[2]
        elif kind == 'del':
            del real[op[1]]
        elif kind == 'merge':
            real.merge_in(dict(op[1]))
        elif kind == 'update':
            real.update(dict(op[1]))
        elif kind == 'pop':
            return ('value', real.pop(op[1], 'missing'))
        elif kind == 'setdefault':
            real.setdefault(op[1], op[2])
        elif kind == 'clear':
            real.clear()
        elif kind == 'popitem':
            real.popitem()
        return ('ok',)
    except KeyError:
        return ('KeyError',)
    except TypeError:
        return ('TypeError',)


def apply_model(m, op):
    keys = [k for k, _ in m.items]
    kind = op[0]
    if kind == 'set':
        m.set(op[1], op[2])
    elif kind == 'del':
        if op[1] not in keys:
            return ('KeyError',)
        m.items = [i for i in m.items if i[0] != op[1]]
    elif kind in ('merge', 'update'):
        for k, v in op[1]:
            m.set(k, v)
    elif kind == 'pop':
        if op[1] not in keys:
            return ('value', 'missing')
        value = dict(m.items)[op[1]]
        m.items = [i for i in m.items if i[0] != op[1]]
        return ('value', value)
    elif kind == 'setdefault':
        if op[1] not in keys:
            m.set(op[1], op[2])
    elif kind == 'clear':
        m.items = []
    return ('ok',)


def same(real, m):
    items = list(real.items())
    if m.loose_drop:
        if real.dropped < m.dropped:
            return False
    elif real.dropped != m.dropped:
        return False
    return len(real) == len(m.items) and list(map(repr, items)) == list(map(repr, m.items)) \
        and all(type(a[1]) is type(b[1]) for a, b in zip(items, m.items))


OPS = [('set', k, v) for k in 'abc' for v in ('x', 'long', 1, b'by', ['p', 'qqq'])] \
    + [('set', 'a', b'\xff'), ('set', '', 'x'), ('set', 5, 'x'), ('set', None, 'x'), ('set', 'b', [1, 'x']), ('set', 'c', ODD)] \
    + [('del', k) for k in 'abcz'] + [('merge', (('a', 'm'), ('d', 2))), ('merge', (('b', None), ('c', 'm'))),
                                      ('merge', ()), ('update', (('c', 'u'), ('a', 3))), ('pop', 'a'), ('pop', 'z'),
                                      ('setdefault', 'a', 'sd'), ('setdefault', 'b', b'sd'), ('clear',)]
FROZEN_OPS = [('set', 'a', 'x'), ('set', 'z', 'x'), ('set', '', 'x'), ('set', 'a', ODD), ('del', 'a'), ('del', 'z'),
              ('merge', (('a', 'm'),)), ('update', (('z', 1),)), ('pop', 'a'), ('setdefault', 'z', 1), ('clear',),
              ('popitem',)]


def build(cap, limit, path, initial=()):
    real = BoundedAttributes(max_length=cap, attributes=dict(initial), immutable=False, max_value_len=limit)
    m = Model(cap, limit)
    for k, v in dict(initial).items():
        m.set(k, v)
    for op in path:
        apply(real, op)
        apply_model(m, op)
    return real, m


def bfs(cap, limit, initial, depth, rec):
    frontier = [()]
    seen = set()
    _, m = build(cap, limit, (), initial)
    seen.add(m.canon())
    for level in range(depth):
        following = []
        for path in frontier:
            for op in OPS:
                real, m = build(cap, limit, path, initial)
                expected = apply_model(m, op)
                got = apply(real, op)
                rec.step()
                case = {'cap': cap, 'limit': limit, 'initial': initial, 'history': path + (op,)}
                if got != expected:
                    raise Violation('operation-result', 'got %s expected %s' % (got, expected), case)
                if not same(real, m):
                    raise Violation('container-content', 'got %s dropped=%s, expected %s dropped=%s' % (
                        list(real.items()), real.dropped, m.items, m.dropped), case)
                if cap is not None and len(real) > cap:
                    raise Violation('capacity', 'holds %d of %d' % (len(real), cap), case)
                rec.trace(lambda: case)
                canon = m.canon()
                rec.state(canon)
                if canon not in seen:
                    seen.add(canon)
                    if level + 1 < depth and m.dropped <= 3:
                        following.append(path + (op,))
        frontier = following


def values_unit(cap, limit, rec):
    """Every value of the alphabet, on the container in several states, and frozen containers."""
    for pre in ((), (('a', 'x'),), (('a', 'x'), ('b', 'y'))):
        for key in ('a', 'new', '', None, 7, b'k', ('t',)):
            for value in VALUES:
                real, m = build(cap, limit, (), pre)
                op = ('set', key, value)
                case = {'cap': cap, 'limit': limit, 'pre': pre, 'op': op}
                apply_model(m, op)
                got = apply(real, op)
                rec.step()
                rec.trace(lambda: case)
                rec.state(m.canon())
                if got != ('ok',) or not same(real, m):
                    raise Violation('value-cleaning', 'got %s %s dropped %s, expected %s dropped %s' % (
                        got, list(real.items()), real.dropped, m.items, m.dropped), case)
                if isinstance(value, list):
                    held = real.get('a')
                    value.append('mutated')
                    try:
                        if real.get('a') != held:
                            raise Violation('not-frozen', 'a stored sequence changed with the original', case)
                    finally:
                        value.pop()
                # by the constructor
                if key is not None:
                    real = BoundedAttributes(max_length=cap, attributes={**dict(pre), key: value}, max_value_len=limit)
                    m = Model(cap, limit)
                    for k, v in {**dict(pre), key: value}.items():
                        m.set(k, v)
                    if not same(real, m):
                        raise Violation('constructor', '%s dropped %s expected %s' % (
                            list(real.items()), real.dropped, m.items), case)
        for op in FROZEN_OPS:
            real = BoundedAttributes(max_length=cap, attributes=dict(pre), immutable=True, max_value_len=limit)
            before = (list(real.items()), real.dropped)
            got = apply(real, op)
            rec.step()
            rec.trace()
            case = {'cap': cap, 'limit': limit, 'pre': pre, 'op': op}
            if (list(real.items()), real.dropped) != before:
                raise Violation('frozen-modified', 'a frozen container was modified by %s' % (op,), case)
            if got == ('ok',) and not (op[0] == 'clear' and len(real) == 0):
                raise Violation('frozen-accepted', 'a frozen container accepted %s' % (op,), case)
        real = BoundedAttributes(attributes=dict(pre), max_value_len=limit)
        copy = real.copy()
        copy['zz'] = 1
        if 'zz' in real:
            raise Violation('copy-aliases', 'changing a copy changed the container', pre)
    for bad in (-1, 'x', 1.5):
        try:
            BoundedAttributes(max_length=bad)
            raise Violation('bad-capacity', 'capacity %r accepted' % (bad,), bad)
        except ValueError:
            pass


RESOURCES = [({}, None), ({'a': '1'}, None), ({'a': '2', 'b': 'x'}, 'u1'), ({'b': 'y', 'c': ['l']}, 'u2'),
             ({'a': '', 'c': 'z'}, 'u1'), ({'service.name': 's'}, ''), ({'b': 5, '': 'no', 'd': None}, None)]


def ref_resource(spec):
    return {k: clean(k, v, None) for k, v in spec[0].items() if clean(k, v, None) is not INVALID}, spec[1] or ''


def ref_merge(a, b):
    if a[1] and b[1] and a[1] != b[1]:
        return a
    return {**a[0], **b[0]}, a[1] or b[1]


def chains(n, rec):
    for chain in itertools.product(range(len(RESOURCES)), repeat=n):
        specs = [RESOURCES[i] for i in chain]
        parts = [Resource(dict(s[0]), s[1]) for s in specs]
        frozen = [(dict(p.attributes), p.schema_url) for p in parts]
        real = parts[0]
        want = ref_resource(specs[0])
        for part, spec in zip(parts[1:], specs[1:]):
            before = (dict(real.attributes), real.schema_url)
            merged = real.merge(part)
            rec.step()
            if (dict(real.attributes), real.schema_url) != before:
                raise Violation('merge-modifies', 'merge modified the resource', specs)
            real = merged
            want = ref_merge(want, ref_resource(spec))
            if dict(real.attributes) != want[0] or real.schema_url != want[1]:
                raise Violation('merge-result', 'got %s %s expected %s' % (dict(real.attributes), real.schema_url, want),
                                specs)
        if [(dict(p.attributes), p.schema_url) for p in parts] != frozen:
            raise Violation('merge-modifies', 'merge modified an operand', specs)
        try:
            real.attributes['zz'] = 1
            raise Violation('resource-mutable', 'the merged resource can be modified', specs)
        except TypeError:
            pass
        rec.state((chain, repr(want)))
        rec.trace(lambda: specs)


ENV_ATTRS = [None, '', 'a=env', 'a=env,service.name=envattr', 'bad,=x,b=1=2, c = sp%20ace ', 'telemetry.sdk.name=mine',
             'process.executable.name=exe,service.name=', ',,a=1,a=2']
LARGE_ENV = ','.join('e%d=%s' % (i, 'w' * i * 3) for i in range(150))
ENV_NAMES = [None, '', 'env-name']
CODE = [None, {}, {'a': 'code'}, {'service.name': 'code-name', 'n': 5}, {'service.name': ''},
        {'process.executable.name': 7}, {'process.executable.name': 'pex', 'telemetry.sdk.language': 'x'}]
PLUGINS = [(), ({'a': 'p1'},), ({'service.name': 'p-name', 'l': ['x', 'y']}, {'a': 'p2', 'service.name': 'last'}), (None, {'b': 'p'}),
           ('raise', {'b': 'p2'})]


def ref_env(attrs, name):
    from urllib.parse import unquote
    out = {}
    for item in (attrs or '').split(','):
        if '=' not in item:
            continue
        k, v = item.split('=', 1)
        if k.strip() == '':
            continue
        out[k.strip()] = unquote(v.strip())
    if name:
        out['service.name'] = name
    return out


def ref_create(attrs, name, code):
    from deep.version import __version__
    out = {'telemetry.sdk.language': 'python', 'telemetry.sdk.name': 'deep', 'telemetry.sdk.version': __version__}
    out.update(ref_env(attrs, name))
    out.update(code or {})
    if not out.get('service.name'):
        exe = out.get('process.executable.name')
        out['service.name'] = 'unknown_service:%s' % (exe if exe else 'python')
    return out


def set_env(attrs, name):
    for key, value in (('DEEP_RESOURCE_ATTRIBUTES', attrs), ('DEEP_SERVICE_NAME', name)):
        os.environ.pop(key, None)
        if value is not None:
            os.environ[key] = value


def create_unit(rec):
    for attrs, name, code in itertools.product(ENV_ATTRS, ENV_NAMES, CODE):
        set_env(attrs, name)
        given = dict(code) if code is not None else None
        real = dict(Resource.create(given).attributes)
        want = ref_create(attrs, name, code)
        rec.step()
        rec.trace(lambda: (attrs, name, code))
        rec.state(sorted(map(repr, want.items())))
        if real != want:
            raise Violation('create', 'got %s expected %s' % (real, want), (attrs, name, code))
        if given != code:
            raise Violation('create-modifies', 'the given attributes are modified', (attrs, name, code))
    set_env(None, None)


def large_unit(n, rec):
    """Many attributes and long values, from every source."""
    values = {'k%d' % i: ('v' * (i + 1) * 7, i, i / 2, bool(i % 2), ['x%d' % j for j in range(i)])[i % 5] for i in range(n)}
    want = {k: tuple(v) if isinstance(v, list) else v for k, v in values.items()}
    text = 'x' * n * 20

    def expect(what, got, expected):
        rec.step()
        if dict(got) != expected or list(got) != list(expected):
            raise Violation('large', '%s: got %d attributes, expected %d: %s' % (
                what, len(got), len(expected), [k for k in expected if dict(got).get(k) != expected[k]][:3]), (what, n))
    for cap in (None, n, n + 1):
        expect('attributes', BoundedAttributes(cap, dict(values)), want)
        other = BoundedAttributes(cap, immutable=False)
        other.merge_in(dict(values))
        expect('merged', other, want)
    for cap in (1, n // 2 + 1):
        got = BoundedAttributes(cap, dict(values), immutable=False)
        expect('newest', got, dict(list(want.items())[n - cap:] if n > cap else want))
        if got.dropped != max(0, n - cap):
            raise Violation('large', 'dropped is %d' % got.dropped, (cap, n))
    expect('long', BoundedAttributes(None, {text: text, 'l': [text] * n}), {text: text, 'l': (text,) * n})
    expect('cut', BoundedAttributes(None, {'t': text, 'l': [text] * n}, max_value_len=n), {'t': text[:n], 'l': (text[:n],) * n})
    expect('resource', Resource(dict(values)).attributes, want)
    expect('merge', Resource(dict(list(values.items())[:n // 2])).merge(Resource(dict(list(values.items())[n // 2:]))).attributes, want)
    chain = Resource({})
    for k, v in values.items():
        chain = chain.merge(Resource({k: v, 'last': k}))
    if dict(chain.attributes) != {**want, 'last': 'k%d' % (n - 1)}:
        raise Violation('large', 'a chain of %d' % n, n)
    pairs = ','.join('e%d=%s' % (i, 'w' * i) for i in range(n))
    set_env(pairs, text)
    real = dict(Resource.create({'code': text}).attributes)
    set_env(None, None)
    rec.step()
    if real != ref_create(pairs, text, {'code': text}):
        raise Violation('large', 'created from %d attributes of the environment' % n, n)
    rec.trace(lambda: n)
    rec.state(n)


def start_unit(attrs, rec):
    """The resource the service sees, for all sources."""
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest, PollResponse
    from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, SnapshotResponse
    from deep.api import Deep
    from deep.config import ConfigService
    from mc import env, agent
    import sys
    import deep.push
    for name, plugins in itertools.product(ENV_NAMES, PLUGINS):
        set_env(attrs, name)
        names = []
        from deep.api.plugin import ResourceProvider
        me = sys.modules[__name__]
        for i, p in enumerate(plugins):
            def resource(self, p=p):
                if p == 'raise':
                    raise ValueError('plugin')
                return None if p is None else Resource(dict(p))
            cls = type('P%d' % i, (ResourceProvider,), {'resource': resource, 'order': lambda self, i=i: -10 + i})
            setattr(me, 'P%d' % i, cls)
            names.append(__name__ + '.P%d' % i)
        seen = []

        def serve(method, data, metadata):
            if method.endswith('/poll'):
                seen.append(PollRequest.FromString(data).resource)
                return PollResponse(response_type=0).SerializeToString()
            seen.append(Snapshot.FromString(data))
            return SnapshotResponse().SerializeToString()
        env.net.handler = serve
        config = ConfigService({'PLUGINS': names, 'NO_TRACE': True, 'POLL_TIMER': 3600, 'SERVICE_SECURE': 'False',
                                'PLUGIN_OTELPLUGIN': 'False', 'PLUGIN_PYTHONPLUGIN': 'False',
                                'PLUGIN_PROMETHEUSPLUGIN': 'False', 'PLUGIN_OTELMETRICS': 'False'})
        d = Deep(config)
        d.start()
        try:
            want = ref_create(attrs, name, None)
            for p in plugins:
                if isinstance(p, dict):
                    want.update(p)
            want = {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in want.items()}

            def value(v):
                kind = v.WhichOneof('value')
                if kind == 'array_value':
                    return [value(x) for x in v.array_value.values]
                return getattr(v, kind) if kind else None

            def attributes(kvs):
                return {kv.key: value(kv.value) for kv in kvs}
            case = {'env': (attrs, name), 'plugins': plugins}
            if not seen or attributes(seen[0].attributes) != want:
                raise Violation('poll-resource', 'the poll has %s, expected %s' % (
                    attributes(seen[0].attributes) if seen else None, want), case)
            from deep.api.tracepoint import EventSnapshot
            from deep.api.tracepoint.tracepoint_config import TracePointConfig
            snapshot = EventSnapshot(TracePointConfig('t', 'p.py', 1, {}, [], []), 5, config.resource, [], {})
            message = deep.push.convert_snapshot(snapshot)
            if message is None or attributes(message.resource) != want:
                raise Violation('snapshot-resource', 'the snapshot has %s, expected %s' % (
                    attributes(message.resource) if message else None, want), case)
            rec.step(2)
            rec.trace(lambda: case)
            rec.state(sorted(map(repr, want.items())))
        finally:
            d.shutdown()
    set_env(None, None)


THREAD_OPS = [('set', 'a', 'x'), ('set', 'b', 'long'), ('set', 'c', 1), ('del', 'a'), ('merge', (('a', 'm'), ('d', 2))),
              ('pop', 'b'), ('items',), ('len',)]


class Threads:
    """Threads that change one container at the same time."""

    def __init__(self, cap, initial, threads):
        self.name = 'C18 capacity %s %s %s' % (cap, initial, threads)
        self.cap, self.initial, self.threads = cap, initial, threads
        self.real, _ = build(cap, None, (), initial)
        self.results = {}
        self.problem = None

    def state(self):
        return tuple(sorted(self.results))

    def tasks(self, run):
        def thread(i):
            for n, op in enumerate(self.threads[i]):
                try:
                    if op[0] == 'len':
                        if self.cap is not None and len(self.real) > self.cap:
                            self.problem = 'more items than the capacity'
                        self.results[i, n] = None
                    elif op[0] == 'items':
                        self.results[i, n] = ('items', len(list(self.real.items())) < 9)
                    else:
                        self.results[i, n] = apply(self.real, op)
                except KeyError:
                    # a key that was there when the iteration began
                    self.results[i, n] = ('items', None)
                except Exception as e:
                    self.problem = '%s fails with %r' % (op, e)
        return [('t%d' % i, lambda i=i: thread(i)) for i in range(len(self.threads))]

    def judge(self, run, status):
        case = (self.cap, self.initial, self.threads)
        if status != 'finished' or self.problem:
            raise Violation('concurrent', self.problem or status, case)
        got = (tuple(map(repr, self.real.items())), self.real.dropped)
        allowed = set()
        threads = split(self.threads)
        for order in orders([len(t) for t in threads]):
            _, m = build(self.cap, None, (), self.initial)
            position = [0] * len(threads)
            for i in order:
                op = threads[i][position[i]]
                position[i] += 1
                if op[0] not in ('items', 'len'):
                    apply_model(m, op)
            allowed.add((tuple(map(repr, m.items)), m.dropped))
        if got not in allowed:
            raise Violation('concurrent', 'the content %s, is none of %s' % (got, sorted(allowed)), case)


def orders(lengths):
    if not any(lengths):
        yield ()
        return
    for i, n in enumerate(lengths):
        if n:
            for rest in orders(lengths[:i] + [n - 1] + lengths[i + 1:]):
                yield (i,) + rest


def split(threads):
    """A merge is a sequence of changes that other threads can come between."""
    return tuple(tuple(x for op in t for x in ([('set', k, v) for k, v in op[1]] if op[0] == 'merge' else [op])) for t in threads)


def threads_unit(cap, initial, deviations, rec):
    from mc import sched
    sched.instrument(['deep.api.attributes'])
    single = [(op,) for op in THREAD_OPS]
    double = [(a, b) for a in THREAD_OPS[:4] for b in THREAD_OPS[:4]]
    specs = list(itertools.combinations_with_replacement(single, 2)) + list(itertools.product(single, double[::3])) \
        + [(single[0], single[1], single[2]), (single[0], single[1], single[7])]
    for threads in specs:
        sched.Explorer(lambda: Threads(cap, initial, threads), deviations)(rec)


def units(tier):
    caps = [None, 0, 1, 2, 3] + ([4] if tier == 'thorough' else [])
    depth = 4 if tier == 'quick' else 6
    out = [('bfs', c, lim, init, depth if c in (1, 2) or tier == 'quick' and c != 3 else depth - 1)
           for c in caps for lim in (None, 0, 2)
           for init in ((), (('a', 'i'), ('b', b'i'), ('c', 1), ('d', None)))]
    out += [('values', c, lim) for c in caps for lim in (None, 0, 2)]
    out += [('chains', n) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    out += [('large', n) for n in (5, 11, 17, 33, 65, 100, 129, 257, 500)]
    out += [('create',)] + [('start', a) for a in ENV_ATTRS + [LARGE_ENV]]
    out += [('threads', c, init, 2 if tier == 'quick' else 3) for c in (None, 1, 2)
            for init in ((), (('a', 'i'),), (('b', 'i'), ('a', 'i')))]
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'bfs':
        bfs(*unit[1:], rec)
    elif unit[0] == 'values':
        values_unit(unit[1], unit[2], rec)
    elif unit[0] == 'chains':
        chains(unit[1], rec)
    elif unit[0] == 'threads':
        threads_unit(*unit[1:], rec)
    elif unit[0] == 'large':
        world.in_run(lambda: large_unit(unit[1], rec), 10_000_000)
    elif unit[0] == 'create':
        world.in_run(lambda: create_unit(rec))
    else:
        world.in_run(lambda: start_unit(unit[1], rec))
