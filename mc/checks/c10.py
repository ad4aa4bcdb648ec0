"""
C10: conditions and expressions: every expression of the alphabet in every place, in frames of every kind; every history of
truth values. The reference evaluates the expression on its own with the names of the frame.
"""
import builtins
import itertools
import sys

from mc import env, host, plugins
from mc.agent import Agent, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'every name of the agent modules (globals and code locals) and 400 expressions (of which 220 contain texts that other languages treat specially) x 5 places x 2 events; every line '
             'of 16 programs; truth histories of length 5 over true/false/error/base error x fire counts x actions',
    'thorough': 'as quick, with truth histories of length 7 and every line of 700 programs',
}
RULE = 'an expression in a place of an event; a history is the sequence of results of the condition'
FILE = '/app-root-of-the-check/host.py'


class Interrupt(BaseException):
    pass


class BadBool:
    def __bool__(self):
        raise ValueError('no bool')

    def __str__(self):
        raise ValueError('no str')


class Thing:
    attr = 'class-attr'

    def __init__(self):
        self.mine = [1, 2, 3]

    def call(self, n=2):
        return n * 2


def fail(kind=ValueError):
    raise kind('failed')


def quit_it():
    sys.exit(3)


LOCALS = [('a', 3), ('b', 'text'), ('o', Thing()), ('d', {'k': [1, 2]}), ('n', None), ('fail', fail), ('quit_it', quit_it),
          ('Interrupt', Interrupt), ('shadow', 'local'), ('max', 'a local named max'), ('bad', BadBool()),
          ('self', 'the self of the host'), ('frame', 'host frame'), ('expression', 'host expression'), ('gr\u00f6\u00dfe', 7)]
GLOBALS = {'GLOB': 'module value', 'shadow': 'global', 'helper': lambda v: (v, 'helped'), 'len': lambda v: 'my len',
           'CONST': 12, 'logging': 'host logging'}
EXPRESSIONS = ['a', 'b', 'o.attr', 'o.mine[1]', 'o.call()', 'o.call(n=a)', "d['k'][0]", 'n', 'GLOB', 'CONST + a', 'shadow',
               'helper(a)', 'len(b)', 'max', 'min(1, 2)', 'a if CONST else b', '[x for x in d["k"] if x < a]',
               '(lambda q: q + a)(CONST)', '{k: a for k in d}', 'sum(x * a for x in d["k"])', 'self', 'frame',
               'expression', 'logging', '"%s-%s" % (a, b)', 'isinstance(a, int)', '__name__', 'a == 3 and b == "text"',
               '(y := a + 1)', '  a', 'a\n', 'list(map(lambda v: v + CONST, d["k"]))', '(a,\n b)', '"lit"', '1', 'None',
               'True', 'type(o).__name__', '[(i, j) for i in d["k"] for j in (a, CONST)]',
               '(lambda: [a for _ in (1,)])()']
FAILING = ['missing', 'o.nope', "d['x']", '1/0', 'fail()', 'fail(KeyError)', 'fail(Interrupt)', 'quit_it()', 'a +', 'a = 1',
           'import os', '', 'return a', 'fail(KeyboardInterrupt)', 'fail(GeneratorExit)', '\x00', 'a b', '(', 'raise',
           'fail(StopIteration)', 'int(b)', 'def f(): pass', '[].pop()', 'del a', 'b.missing.x', 'fail(RecursionError)',
           'fail(MemoryError)', '\ud800', 'yield a', 'await a', 'None.x']


# texts that mean something in other languages, or need a real parser
TEXTS = ['#1', 'a#b', '//x', 'a;b', 'a:b', '{x}', '{a}', '%s', '%d%%', '$a', '${a}', '\\', 'it\'s', 'say "a"', 'tab\t', 'line\nnext', ' ',
         '  two ', '', '\u00e9', '\U0001f600', '<a>', '&amp;', 'a,b', 'a, b', 'x' * 900, 'True', 'false', 'None', '1', '[deep]',
         'eval', 'lambda: 1', '=', '==', '!', '?', '*', '/*', '--', "'''", '"""', '`', '~', '@', '(', ')', '[', ']', '\r', '\x1b', 'a\\nb',
         'and', ' or ', 'ab c', 'A']
TEXTUAL = [form.replace('@', repr(text)) for text in TEXTS for form in ('@ != b', 'b == @', '[b, @][1]', 'b # @')]
FORMS = ['(a # one\n + 1 # two\n)', 'a + \\\n 1', 'not a', '~a', 'a or 1/0', '1/0 if n else a', 'a == 3.0', 'n is None', 'f"{a}"',
         'f"{b!r:>9}"', 'b"x"', '...', '0x10', '1_000', '1e3', 'not not a', 'a in [3]', 'a not in (4,)', "b.startswith('te')",
         'b[::-1]', 'b[0] == "t"', 'all(x > 0 for x in d["k"])', 'any(x > a for x in d["k"])', 'd.get("z", 5)', 'o is not None',
         '1 < a < 5', '1 < a < 2', 'a < b', 'a, b', '*d["k"],', '[*d["k"], a]', '{**d}', 'a;', 'a; b', 'a == 3;', 'pass', 'a\n\n',
         '\na', '\ta == 3', 'a == 3 ', ' a == 3 # yes', '# only a comment', '(a ==\n 3)', 'gr\u00f6\u00dfe > 5', 'gr\u00f6\u00dfe', 'int("7")',
         'str(a)', 'print', 'abs(-a)', 'a if False else b', 'False', 'False or a == 3', 'A', 'a.real', 'a.real == 3', '-a', 'a - 3',
         'a and b', '"yes" == b', '"%s" % b == "text"', 'b.upper() == "TEXT"', "b == 'text'", "b == 'Text'", 'len_ == 3', '+a', '(a)', '((a == 3))',
         'a==3', 'a!=3', 'not a==3', 'a is 3.5', 'o.attr == "class-attr"', 'o.mine == [1, 2, 3]', 'o.mine[5] == 1', 'd == {"k": [1, 2]}']


def scope_of(frame):
    scope = dict(frame.f_globals)
    scope.update(frame.f_locals)
    return scope


def reference(expression, frame):
    """(value, None) or (None, error)."""
    try:
        return eval(expression, scope_of(frame)), None
    except BaseException as e:
        return None, e


def agent_names():
    """Every name of the agent: the globals of its modules, and the locals of its code."""
    names = set()
    for mod_name, mod in list(sys.modules.items()):
        if mod_name != 'deep' and not mod_name.startswith('deep.'):
            continue
        names |= set(vars(mod))
        todo = [v for v in vars(mod).values()]
        seen = set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if getattr(v, '__module__', None) is None or not str(v.__module__).startswith('deep'):
                continue
            code = getattr(v, '__code__', None)
            if code is not None:
                names |= set(code.co_varnames) | set(code.co_freevars)
            if isinstance(v, type):
                for member in vars(v).values():
                    todo.append(getattr(member, 'fget', None) or getattr(member, '__func__', None) or member)
    return sorted(n for n in names if n.isidentifier() and not n.startswith('__'))


def check_watch(snapshot, watch, expression, value, error, case):
    if watch.expression != expression:
        raise Violation('watch-expression', '%r not %r' % (watch.expression, expression), case)
    if error is not None:
        if not watch.error or (watch.result is not None and watch.result.vid is not None):
            raise Violation('watch-no-error', 'no error result for %r: %s' % (expression, watch), case)
        return
    if watch.error or watch.result is None:
        raise Violation('watch-error', 'the result of %r is the error %r' % (expression, watch.error), case)
    variable = snapshot.var_lookup.get(watch.result.vid)
    if variable is None or variable.type != type(value).__name__:
        raise Violation('watch-type', '%r has type %s' % (expression, variable and variable.type), case)
    if type(value) in (int, str, float, bool, type(None)) and variable.value != str(value):
        raise Violation('watch-value', '%r is %r not %r' % (expression, variable.value, value), case)
    if type(value) in (list, tuple, dict):
        n = len(value)
        if variable.value != 'Size: %d' % n or len(variable.children) != n:
            raise Violation('watch-value', '%r is %r with %d children' % (expression, variable.value,
                                                                         len(variable.children)), case)
        if type(value) in (list, tuple):
            got = [snapshot.var_lookup[c.vid].value for c in variable.children]
            if [str(v) for v in value if type(v) in (int, str)] != [g for g, v in zip(got, value)
                                                                    if type(v) in (int, str)]:
                raise Violation('watch-value', '%r has %s' % (expression, got), case)


def drive(agent, event, module=None):
    out = []

    def at(frame):
        out.append(frame)
        agent.handler.trace_call(frame, event, None)
    host.paused(LOCALS, at, {**GLOBALS, **(module or {})})
    return out[0]


def make(args, watches=(), metrics=()):
    sink = plugins.Sink()
    agent = Agent([plugins.Logger(sink), plugins.Metrics(sink)])
    agent.push.hook = lambda s: sink.add('snapshot', s)
    args = {'fire_count': '-1', 'fire_period': '0', **args}
    agent.install([tp('t', 'paused.py', PAUSED_LINE, args, watches=watches, metrics=metrics)])
    return agent, sink


def places(expression, event, rec, neighbour='a'):
    """The expression in every place. The neighbours of it are always right."""
    base = {'method_name': 'paused_fn'} if event == 'call' else {}
    holder = []
    host.paused(LOCALS, lambda frame: holder.append(reference(expression, frame)), GLOBALS)
    value, error = holder[0]
    case = {'expression': expression, 'event': event, 'expected': repr(error) if error is not None else repr(value)[:200]}
    # watch, between others
    agent, sink = make(base, [neighbour, expression, 'GLOB', expression])
    drive(agent, event)
    snapshots = [c[1] for c in sink.take() if c[0] == 'snapshot']
    if len(snapshots) != 1 or len(snapshots[0].watches) != 4:
        raise Violation('watches', 'there are not 4 results', case)
    watches = snapshots[0].watches
    check_watch(snapshots[0], watches[0], neighbour, 3, None, case)
    check_watch(snapshots[0], watches[1], expression, value, error, case)
    check_watch(snapshots[0], watches[2], 'GLOB', 'module value', None, case)
    check_watch(snapshots[0], watches[3], expression, value, error, case)
    names = [v.name for v in snapshots[0].frames[0].variables]
    if names != [n for n, _ in LOCALS]:
        raise Violation('scope-changed', 'the frame has %s' % names, case)
    # log field
    if expression.strip() == expression and not set(expression) & set('{}!:=\n"\''):
        agent, sink = make({**base, 'snapshot': 'no_collect', 'log_msg': '<{%s}|{a}>' % expression})
        drive(agent, event)
        logs = [c[3] for c in sink.take() if c[0] == 'log']
        if len(logs) != 1 or not logs[0].startswith('[deep] <') or not logs[0].endswith('|3>'):
            raise Violation('log-field', 'logged %r' % logs, case)
        if error is None and type(value) in (int, str, float, bool, type(None)) and logs[0] != '[deep] <%s|3>' % value:
            raise Violation('log-field', 'logged %r' % logs, case)
    # metric expression and label
    agent, sink = make({**base, 'snapshot': 'no_collect'}, metrics=[
        {'name': 'm', 'expression': expression or 'missing', 'labels': [('x', None, expression or 'missing'), ('y', None, 'a')]},
        {'name': 'other', 'expression': 'CONST'}])
    if '\ud800' not in expression:
        drive(agent, event)
        calls = {c[3]: c for c in sink.take() if c[0] == 'metric'}
        if set(calls) != {'m', 'other'} or calls['other'][8] != 12.0 or calls['m'][4].get('y') != '3':
            raise Violation('metric', 'reported %s' % (calls,), case)
        want = float(value) if error is None and type(value) in (int, float, bool) else 1.0
        if calls['m'][8] != want and not (error is None and type(value) in (str, bytes)):
            raise Violation('metric-value', 'reported %s' % (calls['m'],), case)
        if error is None and type(value) in (int, str, bool, float) and calls['m'][4].get('x') != str(value):
            raise Violation('metric-label', 'reported %s' % (calls['m'],), case)
        if 'x' not in calls['m'][4]:
            raise Violation('metric-label', 'reported %s' % (calls['m'],), case)
    # condition
    if error is not None and expression.strip() or type(value) is bool:
        want = error is None and value
        for args, kind in (({}, 'snapshot'), ({'snapshot': 'no_collect', 'log_msg': 'x'}, 'log')):
            agent, sink = make({**base, **args, 'condition': expression, 'fire_count': '1'})
            drive(agent, event)
            got = len([c for c in sink.take() if c[0] == kind])
            if got != (1 if want else 0):
                raise Violation('condition', 'a condition that is %s produced %d %s' % (case['expected'], got, kind), case)
    rec.step(6)
    rec.trace(lambda: case)
    rec.state((expression, event, repr(error) if error is not None else type(value).__name__))


def placeable(expression):
    return not any('\ud800' <= c <= '\udfff' for c in expression)


def names_unit(part, rec):
    """Names of the agent are not visible."""
    visible = {n for n, _ in LOCALS} | set(GLOBALS) | set(dir(builtins)) | {'__name__'}
    names = [n for n in agent_names() if n not in visible]
    if len(names) < 300:
        raise Violation('harness', 'only %d names' % len(names))
    for i, name in enumerate(names):
        if i % 8 != part:
            continue
        places(name, 'line', rec)
        if i % 5 == 0:
            places(name, 'call', rec)
    rec.maximum('agent_names', len(names))


def program_unit(source, rec):
    """Every line and function of the program: the watches see what the frame sees."""
    functions = host.functions(source)
    lines = sorted(set(itertools.chain(*functions.values())))
    watches = ['x', 'LOG', 'len(LOG)', 'a', 'self', 'n', 'missing', 'rec', '__name__', 'e', 'i', 'sum([1, 2])', 'total',
               'max(n, 1)', 'self.v', 'out', 'deep', 'TriggerContext', 'frame', 'uuid', '[n for _ in (1, 2)]', 'by', 'r']
    args = {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'}
    agent = Agent()
    agent.install([tp('l%d' % n, 'host.py', n, args, watches=watches) for n in lines]
                  + [tp('m' + n, 'host.py', 1, {**args, 'method_name': n}, watches=watches) for n in functions])
    problems = []

    def after(e, frame, arg):
        rec.step()
        for snapshot in agent.push.take():
            rec.count('snapshots')
            for expression, watch in zip(watches, snapshot.watches):
                value, error = reference(expression, frame)
                try:
                    check_watch(snapshot, watch, expression, value, error, (repr(e), source))
                except Violation as v:
                    problems.append(v)
                rec.state((e.function, expression, type(value).__name__, type(error).__name__))
    host.Recorder(agent.handler.trace_call, {FILE}, after=after).run(host.load(source, FILE)['main'])
    rec.trace()
    if problems:
        raise problems[0]


RESULTS = {'T': True, 'F': False, 'E': ValueError, 'B': Interrupt}
ACTIONS = {'snapshot': {}, 'log': {'snapshot': 'no_collect', 'log_msg': 'x'}, 'metric': {'snapshot': 'no_collect'},
           'span': {'snapshot': 'no_collect', 'span': 'line'}, 'capture': {'stage': 'line_capture'}}


def histories(first, length, rec):
    """All histories of results of the condition: the hits that are rejected have no effect at all."""
    for rest in itertools.product('TFEB', repeat=length - 1):
        history = first + ''.join(rest)
        for count, (action, args) in itertools.product((1, 2, -1), ACTIONS.items()):
            for period in (0, 2):
                env.clock.reset()
                sink = plugins.Sink()
                agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink)])
                agent.push.hook = lambda s: sink.add('snapshot', s.tracepoint.id)
                conf = {'fire_count': str(count), 'fire_period': str(period), 'condition': 'cond()', **args}
                agent.install([tp('t', 'paused.py', PAUSED_LINE, conf, metrics=[{'name': 'm'}] if action == 'metric' else ())])
                fired, last, now = 0, None, 0
                for i, step in enumerate(history):
                    def cond():
                        result = RESULTS[step]
                        if isinstance(result, type):
                            raise result()
                        return result
                    env.clock.now_ns += 1_000_000
                    now += 1

                    def at(frame):
                        agent.handler.trace_call(frame, 'line', None)
                        agent.handler.trace_call(frame, 'return', None)
                    host.paused([], at, {'cond': cond})
                    rec.step()
                    allowed = (count == -1 or fired < count) and (last is None or now - last >= period)
                    if allowed and step == 'T':
                        fired, last = fired + 1, now
                    got = len([c for c in sink.calls if c[0] in ('snapshot', 'log', 'metric', 'open')])
                    if got != fired:
                        raise Violation('condition-history', '%d effects after %d hits, expected %d: %s' % (
                            got, i + 1, fired, sink.calls), {'history': history, 'action': action, 'args': conf})
                rec.trace(lambda: (history, conf))
                rec.state((history, count, period, action))


def blank(rec):
    """Without a (or with a blank) condition every permitted hit fires."""
    for condition in (None, '', ' ', '\t\n ', '   '):
        for action, args in ACTIONS.items():
            conf = {'fire_count': '2', 'fire_period': '0', **args}
            if condition is not None:
                conf['condition'] = condition
            sink = plugins.Sink()
            agent = Agent([plugins.Logger(sink), plugins.Metrics(sink), plugins.Spans(sink)])
            agent.push.hook = lambda s: sink.add('snapshot', s)
            agent.install([tp('t', 'paused.py', PAUSED_LINE, conf, metrics=[{'name': 'm'}] if action == 'metric' else ())])
            for _ in range(3):
                host.paused([], lambda frame: [agent.handler.trace_call(frame, 'line', None),
                                               agent.handler.trace_call(frame, 'return', None)])
                rec.step()
            got = len([c for c in sink.calls if c[0] in ('snapshot', 'log', 'metric', 'open')])
            rec.trace()
            if got != 2:
                raise Violation('blank-condition', 'a blank condition produced %d effects' % got, conf)


def independent(rec):
    """Conditions of tracepoints that share a line do not affect each other."""
    conds = ['a == 3', 'a == 4', 'missing', '1/0', 'fail(Interrupt)', 'True', 'quit_it()', None]
    for combo in itertools.product(conds, repeat=3):
        agent = Agent()
        agent.install([tp('t%d' % i, 'paused.py', PAUSED_LINE, {'frame_type': 'no_frame', **({'condition': c} if c else {})})
                       for i, c in enumerate(combo)])
        drive(agent, 'line')
        rec.step()
        rec.trace(lambda: combo)
        got = sorted(s.tracepoint.id for s in agent.push.take())
        want = ['t%d' % i for i, c in enumerate(combo) if c in ('a == 3', 'True', None)]
        if got != want:
            raise Violation('condition-independent', 'got %s expected %s' % (got, want), combo)


def units(tier):
    out = [('names', i) for i in range(8)] + [('expressions', i) for i in range(8)] + [('blank',), ('independent',)]
    out += [('hand',)] + [('programs', i) for i in range(16)]
    out += [('history', f) for f in 'TFEB']
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'names':
        names_unit(unit[1], rec)
    elif unit[0] == 'expressions':
        for i, expression in enumerate(e for e in EXPRESSIONS + FAILING + FORMS + TEXTUAL if placeable(e)):
            if i % 8 == unit[1]:
                for event in ('line', 'call'):
                    places(expression, event, rec)
    elif unit[0] == 'hand':
        for _, source in host.hand_programs():
            program_unit(source, rec)
    elif unit[0] == 'programs':
        for i, source in enumerate(host.programs(tier, 'small' if tier == 'quick' else 'medium')):
            if i % 16 == unit[1]:
                program_unit(source, rec)
    elif unit[0] == 'history':
        histories(unit[1], 5 if tier == 'quick' else 6, rec)
    else:
        {'blank': blank, 'independent': independent}[unit[0]](rec)
