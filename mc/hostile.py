"""An alphabet of values that are hard to collect. Each is a name and a factory."""
import array
import asyncio
import collections
import contextvars
import ctypes
import dataclasses
import datetime
import decimal
import enum
import fractions
import io
import itertools
import pathlib
import queue
import re
import sys
import threading
import types
import typing
import unittest.mock
import uuid
import weakref

HOSTILE = {}


def value(name=None):
    def register(fn):
        HOSTILE[name or fn.__name__] = fn
        return fn
    return register


class Stop(BaseException):
    """Not an Exception."""


class Unprintable(Exception):
    def __str__(self):
        raise ValueError('no text')

    __repr__ = __str__


FAILURES = {'Exception': lambda: ValueError('hostile'), 'BaseException': lambda: Stop('hostile'),
            'KeyboardInterrupt': lambda: KeyboardInterrupt(), 'SystemExit': lambda: SystemExit(3),
            'GeneratorExit': lambda: GeneratorExit(), 'StopIteration': lambda: StopIteration(),
            'AttributeError': lambda: AttributeError('hostile'), 'RecursionError': lambda: RecursionError('hostile'),
            'MemoryError': lambda: MemoryError(), 'Unprintable': lambda: Unprintable()}


def _raiser(failure):
    def raise_it(*args, **kwargs):
        raise FAILURES[failure]()
    return raise_it


SPECIALS = ('__str__', '__repr__', '__len__', '__iter__', '__getitem__', '__bool__', '__hash__', '__eq__', '__format__',
            '__getattr__', '__getattribute__', '__contains__', '__next__', '__call__', '__dir__', '__del__', '__int__', '__index__',
            '__float__', '__reduce_ex__', '__sizeof__', '__copy__', '__deepcopy__', '__lt__', '__instancecheck__', '__enter__')

for _special in SPECIALS:
    for _failure in (FAILURES if _special in ('__str__', '__getattribute__', '__getattr__', '__iter__', '__len__')
                     else ('Exception', 'BaseException')):
        if _special == '__del__':
            continue

        def _factory(special=_special, failure=_failure):
            cls = type('Raising', (), {special: _raiser(failure)})
            if special == '__eq__':
                cls.__hash__ = object.__hash__
            return cls()
        HOSTILE['%s raises %s' % (_special, _failure)] = _factory

for _base, _make in {'list': lambda c: c([1, [2]]), 'dict': lambda c: c(a=[1]), 'tuple': lambda c: c((1, [2])),
                     'set': lambda c: c([1, 2]), 'str': lambda c: c('text'), 'int': lambda c: c(3), 'bytes': lambda c: c(b'x'),
                     'float': lambda c: c(1.5), 'Exception': lambda c: c('a', [1]), 'frozenset': lambda c: c([1]),
                     'BaseException': lambda c: c([1])}.items():
    for _special in ('__str__', '__repr__', '__len__', '__iter__', '__getattribute__', '__getitem__', '__hash__', '__eq__',
                     '__format__', '__bool__', 'keys', 'items', 'args', '__class__', '__dict__'):
        def _factory(base=_base, make=_make, special=_special):
            base_type = {'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'str': str, 'int': int, 'bytes': bytes,
                         'float': float, 'Exception': Exception, 'frozenset': frozenset,
                         'BaseException': BaseException}[base]
            fn = _raiser('Exception' if special != '__iter__' else 'BaseException')
            made = make(type('Sub', (base_type,), {}))
            cls = type('Sub', (base_type,), {special: fn if special.startswith('__') and special not in (
                '__class__', '__dict__') else property(fn)})
            try:
                made.__class__ = cls
                return made
            except TypeError:
                return make(cls)
        HOSTILE['%s with a raising %s' % (_base, _special)] = _factory

SIMPLE = {
    'none': lambda: None, 'ellipsis': lambda: ..., 'not implemented': lambda: NotImplemented, 'true': lambda: True,
    'big int': lambda: 10 ** 5000, 'negative': lambda: -1, 'nan': lambda: float('nan'), 'inf': lambda: float('inf'),
    'complex': lambda: 1 + 2j, 'bytes': lambda: b'\xff\xfe\x00', 'bytearray': lambda: bytearray(b'\xff'),
    'memoryview': lambda: memoryview(b'abc'), 'released memoryview': lambda: _released(), 'range': lambda: range(10 ** 9),
    'slice': lambda: slice(1, 2), 'function': lambda: _raiser, 'lambda': lambda: (lambda: 0), 'builtin': lambda: len,
    'bound method': lambda: [].append, 'class': lambda: Stop, 'type': lambda: type, 'object type': lambda: object,
    'module': lambda: re, 'property': lambda: property(len), 'generator': lambda: (x for x in (1, 2)),
    'coroutine': lambda: _closed_coroutine(), 'async generator': lambda: _async_generator(),
    'list iterator': lambda: iter([1]), 'set iterator': lambda: iter({1}), 'tuple iterator': lambda: iter((1,)),
    'dict iterator': lambda: iter({1: 2}), 'str iterator': lambda: iter('ab'), 'range iterator': lambda: iter(range(3)),
    'reversed': lambda: reversed([1, 2]), 'dict keys': lambda: {1: 2}.keys(), 'dict values': lambda: {1: 2}.values(),
    'dict items': lambda: {1: 2}.items(), 'zip': lambda: zip([1]), 'map': lambda: map(str, [1]), 'filter': lambda: filter(None, [1]),
    'enumerate': lambda: enumerate([1]), 'count': lambda: itertools.count(), 'callable iterator': lambda: iter(int, 1),
    'code': lambda: _raiser.__code__, 'frame': lambda: sys._getframe(), 'traceback': lambda: _traceback(),
    'weakref': lambda: weakref.ref(Stop), 'dead proxy': lambda: _dead_proxy(), 'live proxy': lambda: weakref.proxy(Stop),
    'mapping proxy': lambda: vars(Stop), 'lock': lambda: threading.Lock(), 'rlock': lambda: threading.RLock(),
    'event': lambda: threading.Event(), 'thread': lambda: threading.current_thread(), 'local': lambda: _thread_local(),
    'namespace': lambda: types.SimpleNamespace(a=1), 'datetime': lambda: datetime.datetime(2020, 1, 1),
    'decimal': lambda: decimal.Decimal('1.1'), 'signalling nan': lambda: decimal.Decimal('sNaN'),
    'fraction': lambda: fractions.Fraction(1, 3), 'enum': lambda: enum.Enum('E', 'a b').a, 'flag': lambda: re.I,
    'enum class': lambda: enum.Enum('E', 'a b'), 'named tuple': lambda: collections.namedtuple('N', 'a b')(1, [2]),
    'dataclass': lambda: dataclasses.make_dataclass('D', ['a'])([1]), 'deque': lambda: collections.deque([1, 2]),
    'slots dataclass': lambda: dataclasses.make_dataclass('D', ['a'], slots=True)([1]),
    'defaultdict': lambda: collections.defaultdict(list, a=[1]), 'ordered dict': lambda: collections.OrderedDict(a=1),
    'counter': lambda: collections.Counter('aab'), 'chain map': lambda: collections.ChainMap({1: 2}),
    'user dict': lambda: collections.UserDict({1: 2}), 'user list': lambda: collections.UserList([1]),
    'user string': lambda: collections.UserString('s'), 'array': lambda: array.array('i', [1, 2]),
    'ctypes': lambda: (ctypes.c_int * 3)(1, 2, 3), 'ctypes null': lambda: ctypes.POINTER(ctypes.c_int)(),
    'match': lambda: re.match('a', 'a'), 'pattern': lambda: re.compile('a'), 'exception': lambda: ValueError('a', [1]),
    'exception group': lambda: ExceptionGroup('g', [ValueError(1)]), 'key error': lambda: KeyError([1]),
    'unicode error': lambda: UnicodeDecodeError('utf8', b'\xff', 0, 1, 'bad'), 'os error': lambda: OSError(2, 'no', 'file'),
    'system exit': lambda: SystemExit(1), 'alias': lambda: list[int], 'union': lambda: int | str, 'any': lambda: typing.Any,
    'type var': lambda: typing.TypeVar('T'), 'context': lambda: contextvars.copy_context(),
    'context var': lambda: contextvars.ContextVar('v'), 'string io': lambda: io.StringIO('abc'), 'closed file': lambda: _closed(),
    'path': lambda: pathlib.PurePath('a/b'), 'uuid': lambda: uuid.UUID(int=5), 'object': object, 'mock': unittest.mock.Mock,
    'magic mock': unittest.mock.MagicMock, 'non callable mock': unittest.mock.NonCallableMagicMock, 'sentinel': lambda: unittest.mock.sentinel.x,
    'queue': queue.Queue, 'future': lambda: asyncio.Future(loop=asyncio.new_event_loop()) if False else None,
    'surrogate': lambda: '\ud800', 'surrogates': lambda: 'a\udfffb\ud83d', 'surrogate pair': lambda: '\ud83d\ude00',
    'nul': lambda: 'a\x00b', 'surrogate at the limit': lambda: 'a' * 1023 + '\ud83d\ude00', 'escapes': lambda: '\udc80\udcff',
    'astral': lambda: '\U0010ffff', 'empty': lambda: '', 'long text': lambda: 'x' * 100000,
    'empty tuple': lambda: (), 'empty set': lambda: set(), 'frozenset of frozensets': lambda: frozenset([frozenset([1])]),
    'dict int keys': lambda: {1: 'a', 2.5: 'b', True: 'c'}, 'dict none key': lambda: {None: 1, (): 2, (1, 2): 3},
    'dict bytes key': lambda: {b'\xff': 1}, 'dict surrogate key': lambda: {'\ud800': 1, 'a': 2},
    'dict object key': lambda: {object(): 1}, 'dict class key': lambda: {int: 1}, 'dict long key': lambda: {'k' * 5000: 1},
    'dict empty key': lambda: {'': 1}, 'dict underscore keys': lambda: {'_': 1, '__': 2, '_a': 3, '__b': 4, '___': 5},
    'dict equal texts': lambda: {1: 'a', '1': 'b'},
}
HOSTILE.update({k: f for k, f in SIMPLE.items() if k != 'future'})


def _released():
    m = memoryview(b'abc')
    m.release()
    return m


def _closed_coroutine():
    async def co():
        pass
    c = co()
    c.close()
    return c


def _async_generator():
    async def gen():
        yield 1
    return gen()


def _traceback():
    try:
        raise ValueError
    except ValueError as e:
        return e.__traceback__


def _dead_proxy():
    class Target:
        pass
    return weakref.proxy(Target())


def _thread_local():
    local = threading.local()
    local.value = [1]
    return local


def _closed():
    f = io.StringIO()
    f.close()
    return f


@value()
def slots():
    class Slots:
        __slots__ = ('a', 'b')
    s = Slots()
    s.a = 1
    return s


@value()
def dict_property_raises():
    class NoDict:
        __dict__ = property(_raiser('Exception'))
    return NoDict()


@value()
def dict_property_stop():
    class NoDict:
        __dict__ = property(_raiser('BaseException'))
    return NoDict()


@value()
def dict_not_a_dict():
    class NoDict:
        __dict__ = 5
    return NoDict()


@value()
def dict_of_ints():
    class IntNames:
        pass
    o = IntNames()
    o.__dict__[1] = 'one'
    o.__dict__[None] = 'none'
    return o


@value()
def dict_subclass_attributes():
    class Bad(dict):
        def items(self):
            raise ValueError('no items')

        __iter__ = keys = __len__ = items

    class Holder:
        pass
    o = Holder()
    o.__dict__ = Bad(a=1)
    return o


@value()
def class_raises():
    class C:
        __class__ = property(_raiser('Exception'))
    return C()


@value()
def class_lies():
    class C:
        __class__ = dict
    return C()


@value()
def class_is_no_type():
    class C:
        __class__ = 'text'
    return C()


@value()
def str_returns_none():
    class C:
        def __str__(self):
            return None
    return C()


@value()
def str_returns_bytes():
    class C:
        def __str__(self):
            return b'bytes'
        __repr__ = __str__
    return C()


class EvilStr(str):
    """A text that fails for everything."""

    def _fail(self, *args, **kwargs):
        raise ValueError('evil text')

    __len__ = __getitem__ = __iter__ = __str__ = __repr__ = __add__ = __mod__ = __format__ = __contains__ = _fail
    encode = startswith = replace = strip = lower = split = _fail

    def __hash__(self):
        return 5


@value()
def str_returns_evil():
    class C:
        def __str__(self):
            return EvilStr('inner text')
    return C()


@value()
def str_returns_long():
    class C:
        def __str__(self):
            return 'y' * 1000000
    return C()


@value()
def str_returns_surrogate():
    class C:
        def __str__(self):
            return 'a\ud800'
    return C()


@value()
def evil_str():
    return EvilStr('evil')


@value()
def evil_key():
    d = {}
    dict.__setitem__(d, EvilStr('key'), ['value'])
    d['normal'] = 1
    return d


@value()
def evil_attribute_name():
    class C:
        pass
    o = C()
    o.__dict__[EvilStr('name')] = 1
    o.normal = 2
    return o


@value()
def key_without_text():
    class Key:
        __hash__ = object.__hash__

        def __str__(self):
            raise Stop('no text')
        __repr__ = __str__
    return {Key(): 'value', 'normal': 1}


@value()
def key_not_equal():
    class Key:
        def __hash__(self):
            return 1

        def __eq__(self, other):
            raise ValueError('not comparable')
    return {Key(): 'value', 'normal': 1}


@value()
def negative_len():
    class C:
        def __len__(self):
            return -5
    return C()


@value()
def huge_len():
    class C(list):
        def __len__(self):
            return sys.maxsize
    return C([1])


@value()
def infinite_iter():
    class C(list):
        def __iter__(self):
            return itertools.count()
    return C([1])


@value()
def recursive_str():
    class C:
        def __str__(self):
            return str(self)
    return C()


@value()
def recursive_getattr():
    class C:
        def __getattr__(self, name):
            return getattr(self, name + 'x')
    return C()


@value()
def getattr_returns_self():
    class C:
        def __getattr__(self, name):
            return self
    return C()


class _Meta(type):
    """A metaclass that fails for everything."""

    def _fail(cls, *args):
        raise ValueError('evil class')

    __str__ = __repr__ = __eq__ = __instancecheck__ = __subclasscheck__ = __len__ = __iter__ = _fail
    __hash__ = type.__hash__
    __name__ = property(_fail)
    __module__ = property(_fail)


@value()
def evil_metaclass():
    return _Meta('Evil', (), {})()


@value()
def evil_class():
    return _Meta('Evil', (), {})


class _Meta2(type):
    def __getattribute__(cls, name):
        raise ValueError('no class attributes')


@value()
def closed_metaclass():
    return _Meta2('Closed', (), {})()


@value()
def closed_class():
    return _Meta2('Closed', (), {})


class _Meta3(type):
    __hash__ = None

    def __eq__(cls, other):
        return True


@value()
def equals_every_type():
    return _Meta3('EveryType', (), {})()


@value()
def unhashable_class():
    return _Meta3('EveryType', (), {})


@value()
def type_named_str():
    return type('str', (), {})()


@value()
def type_named_list():
    return type('list', (), {})()


@value()
def type_named_dict():
    return type('dict', (), {'a': 1})()


@value()
def type_without_name():
    return type('', (), {})()


@value()
def attribute_with_surrogate_name():
    class C:
        pass
    o = C()
    setattr(o, '\ud800', 1)
    setattr(o, 'with space', 2)
    setattr(o, '', 3)
    return o


@value()
def private_names():
    class _Under:
        def __init__(self):
            self.__private = 1
            self._protected = 2
            self.public = 3

    class __(_Under):
        pass
    return __()


@value()
def self_list():
    a = []
    a.append(a)
    return a


@value()
def self_dict():
    a = {}
    a['a'] = a
    return a


@value()
def self_object():
    class C:
        pass
    o = C()
    o.me = o
    return o


@value()
def tuple_cycle():
    a = []
    t = (a,)
    a.append(t)
    return t


@value()
def exception_cycle():
    e = ValueError()
    e.args = (e,)
    e.__cause__ = e
    return e


@value()
def deep_list():
    a = []
    for _ in range(50000):
        a = [a]
    return a


@value()
def deep_tuple_in_object():
    class C:
        def __init__(self, inner):
            self.inner = inner

        def __repr__(self):
            return 'C(%r)' % (self.inner,)
    o = None
    for _ in range(3000):
        o = C(o)
    return o


@value()
def grows_while_read():
    d = {}

    class Grow:
        def __str__(self):
            d[len(d)] = 1
            return 'growing'
    for i in range(5):
        d['k%d' % i] = Grow()
    return d


@value()
def grows_key():
    d = {}

    class Grow:
        def __str__(self):
            d[len(d)] = 1
            return 'growing'
    for i in range(5):
        d[Grow()] = i
    return d


@value()
def shrinks_while_read():
    a = []

    class Shrink:
        def __str__(self):
            a.clear()
            return 'shrinking'
    a.extend([Shrink(), Shrink(), 3, 4])
    return a


@value()
def object_changes_itself():
    class C:
        def __str__(self):
            self.__dict__['n%d' % len(self.__dict__)] = 1
            return 'changing'
    o = C()
    o.a = o
    o.b = [o]
    return o


@value()
def set_of_hostile():
    class C:
        def __repr__(self):
            raise ValueError
    return {C(), 1}


@value()
def exception_args_text():
    e = ValueError('x')

    class E(Exception):
        args = 'text'
    return E('a') if e else e


@value()
def exception_args_int():
    class E(Exception):
        args = 5
    return E('a')


@value()
def descriptor_fails():
    class D:
        def __get__(self, o, t):
            raise ValueError('descriptor')

    class C:
        d = D()

        def __init__(self):
            self.x = 1
    return C()


@value()
def del_fails():
    class C:
        def __del__(self):
            raise ValueError('del')
    return C()


@value()
def bool_text():
    class C:
        def __bool__(self):
            raise Stop('bool')

        def __str__(self):
            return ''
    return C()


@value()
def int_text():
    class C(int):
        def __str__(self):
            return 'int text'
        __index__ = _raiser('Exception')
    return C(5)


@value()
def str_subclass():
    class C(str):
        def __str__(self):
            return 'other text'
    return C('text')


@value()
def decoded_bytes():
    class C(bytes):
        def decode(self, *a):
            raise ValueError
    return C(b'\xff')


def fuse(fuel, failure='Exception'):
    """An object whose operations fail after a number of calls."""
    state = [fuel]

    def step():
        state[0] -= 1
        if state[0] < 0:
            raise FAILURES[failure]()

    class Fuse:
        def __str__(self):
            step()
            return 'fuse'
        __repr__ = __str__

        def __getattribute__(self, name):
            step()
            return object.__getattribute__(self, name)
    f = Fuse()
    object.__getattribute__(f, '__dict__')['inner'] = [1]
    return f


for _fuel in range(0, 8):
    HOSTILE['fails after %d' % _fuel] = lambda fuel=_fuel: fuse(fuel)
    HOSTILE['stops after %d' % _fuel] = lambda fuel=_fuel: fuse(fuel, 'BaseException')
NAMES = list(HOSTILE)
