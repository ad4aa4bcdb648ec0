"""Compare the variables of a snapshot with the objects of the program, and enumerate object graphs."""
import itertools
import threading
from collections import deque

from mc.core import Violation

SEQUENCES = (list, tuple, set, frozenset)
ITERATORS = (type(iter([])), type(reversed([])))
LEAVES = (str, int, float, bool, type(None))
OPAQUE = set()
"""The identities of values of which only the type is judged."""
DEFAULTS = {'vars': 1000, 'depth': 5, 'size': 10, 'string': 1024}


def type_name(value):
    return type.__dict__['__name__'].__get__(type(value))


def kind_of(value):
    """How a value is judged: leaf, dict, seq, exception, object, or odd and opaque (only the type is judged)."""
    if id(value) in OPAQUE:
        return 'opaque'
    t = type(value)
    if any(t is x for x in LEAVES):
        return 'leaf'
    if t is dict:
        return 'dict'
    if t in SEQUENCES:
        return 'seq'
    if t in ITERATORS:
        return 'iter'
    if isinstance(value, BaseException):
        return 'exception'
    if isinstance(value, type) or type_name(value) == 'module':
        return 'class'
    if isinstance(value, (list, tuple, set, frozenset, dict, threading.Thread)):
        return 'odd'
    try:
        object.__getattribute__(value, '__dict__')
    except AttributeError:
        return 'class' if hasattr(value, '__dict__') else 'text'
    return 'object'


def text_of(value):
    """The text of a value, or None if it has none."""
    if id(value) in OPAQUE:
        return None
    try:
        return str.__str__(str(value))
    except BaseException:
        return None


def demangle(value, name):
    """The names an attribute can be shown with."""
    out = {name}
    for cls in type(value).__mro__:
        prefix = '_' + cls.__name__.lstrip('_')
        if name.startswith(prefix + '__'):
            out.add(name[len(prefix):])
            if cls is type(value):
                return {name[len(prefix):]}
    return out


def children_of(value, size):
    """The expected children: list of (set of possible names, value), or None if they are not judged."""
    kind = kind_of(value)
    if kind == 'dict':
        return [({text_of(k)} if text_of(k) is not None else None, v) for k, v in dict.items(value)]
    if kind == 'seq':
        return [({str(i)}, v) for i, v in enumerate(itertools.islice(iter(value), size))]
    if kind == 'exception':
        return [({str(i)}, v) for i, v in enumerate(value.args[:size])]
    if kind == 'object':
        attributes = object.__getattribute__(value, '__dict__')
        return [(demangle(value, k) if type(k) is str else None, v) for k, v in dict.items(attributes)]
    if kind in ('odd', 'opaque', 'class'):
        return None
    return []


def check_value(variable, value, limits, fail):
    """Type, text and truncation of one variable."""
    if variable.type != type_name(value):
        fail('type', 'a %s is recorded with type %r' % (type_name(value), variable.type))
    if not isinstance(variable.value, str):
        fail('text', 'the value is no text: %r' % (variable.value,))
    if len(variable.value) > limits['string']:
        fail('string-limit', 'a text of %d, the limit is %d' % (len(variable.value), limits['string']))
    kind = kind_of(value)
    if kind in ('dict', 'seq'):
        full = 'Size: %d' % len(value)
    elif kind in ('iter', 'odd', 'opaque'):
        return
    else:
        full = text_of(value)
        if full is None:
            if variable.value == '' and limits['string'] > 0:
                fail('placeholder', 'there is no placeholder for a %s' % type_name(value))
            return
    if variable.value != full[:limits['string']]:
        fail('text', 'a %s is recorded as %r, expected %r' % (type_name(value), variable.value[:200],
                                                             full[:limits['string']][:200]))
    if bool(variable.truncated) != (len(full) > limits['string']):
        fail('truncated', 'truncated=%r for a text of %d, the limit is %d' % (variable.truncated, len(full),
                                                                            limits['string']))


class Walk:
    """The references of a snapshot, walked next to the objects."""

    def __init__(self, snapshot, limits=None, case=None):
        self.snapshot = snapshot
        self.limits = {**DEFAULTS, **(limits or {})}
        self.case = case
        self.vid_of = {}    # id(object) -> vid
        self.obj_of = {}    # vid -> object
        self.depth = {}     # id(object) -> depth it is seen first

    def fail(self, key, detail):
        raise Violation(key, detail, self.case)

    def reference(self, ref, value):
        """Check one reference. Returns True if the variable is new."""
        table = self.snapshot.var_lookup
        if ref is None or ref.vid not in table:
            self.fail('closed', 'the reference %r of %s is not in the table' % (
                ref and ref.vid, ref and ref.name))
        known = self.vid_of.get(id(value))
        if known is not None and known != ref.vid:
            self.fail('one-object-two-ids', 'an object of type %s has the ids %s and %s' % (
                type_name(value), known, ref.vid))
        other = self.obj_of.get(ref.vid)
        if ref.vid in self.obj_of and other is not value:
            self.fail('two-objects-one-id', 'the id %s is used for a %s and a %s' % (
                ref.vid, type_name(other), type_name(value)))
        if known is None:
            self.vid_of[id(value)] = ref.vid
            self.obj_of[ref.vid] = value
            check_value(table[ref.vid], value, self.limits, self.fail)
            return True
        return False

    def missing(self, value, depth):
        """A value that should be there is not: it can only be missing if the budget is used up."""
        used = len(self.snapshot.var_lookup)
        if used < self.limits['vars'] - self.limits.get('slack', 1):
            self.fail('missing', 'a %s at depth %d is missing with %d variables of %d' % (
                type_name(value), depth, used, self.limits['vars']))
        self.gaps.append(depth)

    def walk(self, roots):
        """
        Walk all variables.

        :param roots: list of (references, expected [(names, value)], depth of them, max depth of their children)
        """
        self.gaps = []
        todo = deque()
        deepest = 0
        for refs, expected, depth, max_depth in roots:
            todo.append((refs, expected, depth, max_depth))
        while todo:
            refs, expected, depth, max_depth = todo.popleft()
            position = 0
            refs = list(refs)
            for names, value in expected:
                if position < len(refs) and (names is None or refs[position].name in names):
                    ref = refs[position]
                    position += 1
                    deepest = max(deepest, depth)
                    if self.reference(ref, value):
                        self.depth[id(value)] = depth
                        variable = self.snapshot.var_lookup[ref.vid]
                        inner = children_of(value, self.limits['size'])
                        if kind_of(value) in ('seq', 'exception') and len(variable.children) > self.limits['size']:
                            self.fail('size-limit', '%d elements of a %s' % (len(variable.children), type_name(value)))
                        if inner is None:
                            for child in variable.children:
                                if child.vid not in self.snapshot.var_lookup:
                                    self.fail('closed', 'the child %s is not in the table' % child.name)
                        elif depth >= max_depth:
                            if variable.children:
                                self.fail('depth-limit', 'a %s at depth %d has children, the limit is %d' % (
                                    type_name(value), depth, max_depth))
                        else:
                            todo.append((variable.children, inner, depth + 1, max_depth))
                else:
                    self.missing(value, depth)
            if position != len(refs):
                self.fail('extra', 'the references %s are not expected (%s)' % (
                    [r.name for r in refs[position:]], [n for n, _ in expected]))
        if self.gaps and deepest > min(self.gaps):
            self.fail('breadth-first', 'a value at depth %d is missing, but there are values at depth %d' % (
                min(self.gaps), deepest))
        return self

    def total(self, slack=0):
        """Every entry of the table is referenced, and the number of entries is limited."""
        if len(self.snapshot.var_lookup) > self.limits['vars'] + 1:
            self.fail('variable-limit', '%d variables, the limit is %d' % (len(self.snapshot.var_lookup),
                                                                          self.limits['vars']))


class Obj:
    """A plain object of the program."""

    def __str__(self):
        return 'an Obj'

    __repr__ = __str__


class Failure(Exception):
    def __str__(self):
        return 'a Failure'


MUTABLE = ('list', 'dict', 'obj', 'exc')


def build(kinds, edges):
    """
    Build an object graph.

    :param kinds: the kind of each node
    :param edges: the children (numbers of nodes) of each node
    :return: the nodes or None if it is not possible (a cycle of immutable nodes)
    """
    nodes = [None] * len(kinds)
    make = {'list': list, 'dict': dict, 'obj': Obj, 'exc': Failure}
    for i, kind in enumerate(kinds):
        if kind in make:
            nodes[i] = make[kind]()
        elif kind == 'str':
            nodes[i] = 'leaf-%d' % i
        elif kind == 'int':
            nodes[i] = 10 ** 20 + i
    for _ in kinds:
        for i, kind in enumerate(kinds):
            if nodes[i] is None and all(nodes[c] is not None for c in edges[i]):
                if kind == 'tuple':
                    nodes[i] = tuple(nodes[c] for c in edges[i]) or (i,)
                else:
                    try:
                        nodes[i] = frozenset([nodes[c] for c in edges[i]] + [i])
                    except TypeError:
                        return None
    if any(n is None for n in nodes):
        return None
    for i, kind in enumerate(kinds):
        for j, c in enumerate(edges[i]):
            if kind == 'list':
                nodes[i].append(nodes[c])
            elif kind == 'dict':
                nodes[i]['k%d' % j] = nodes[c]
            elif kind == 'obj':
                setattr(nodes[i], 'f%d' % j, nodes[c])
            elif kind == 'exc':
                nodes[i].args = nodes[i].args + (nodes[c],)
    return nodes


def graphs(n, kinds, width):
    """All graphs with n nodes: lists of (kinds, edges)."""
    sequences = [s for w in range(width + 1) for s in itertools.product(range(n), repeat=w)]
    for ks in itertools.product(kinds, repeat=n):
        options = [[()] if k in ('str', 'int') else sequences for k in ks]
        for edges in itertools.product(*options):
            yield ks, edges
