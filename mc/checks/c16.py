"""
C16: every template of a token grammar, on the real code, against an independent renderer.

The templates are built from tokens whose rendered text is known by construction, so the expected message is the
concatenation of the parts: nothing of the template has to be parsed by the check.
"""
import itertools
import logging
import re

from mc import host, plugins
from mc.agent import Agent, tp
from mc.core import Violation
from mc.host import PAUSED_LINE

BOUNDS = {
    'quick': 'templates of up to 3 tokens of an alphabet of 62 (up to 2 with all modes, 3 with one of the modes); texts of up to 70000 characters and 1001 fields, with 12 ways to limit what is collected',
    'thorough': 'templates of up to 3 tokens with all modes, 4 tokens of a reduced alphabet',
}
RULE = 'a template is a sequence of tokens; all sequences up to the length are rendered'


class Obj:
    cls_attr = 'ca'

    def __init__(self):
        self.name = 'bob'
        self.items = ['i0', 'i1']

    def __str__(self):
        return 'Obj!'

    def method(self, n=1):
        return 'm%d' % n


class BadStr:
    def __str__(self):
        raise ValueError('no str')


def boom():
    raise RuntimeError('boom')


OBJ = Obj()
LOCALS = [('a', 1), ('b', 'text'), ('o', OBJ), ('f', 1.5), ('n', None), ('brace', '{a} }} {{'), ('k', 'key'),
          ('uni', 'h\xe9\u20ac'), ('t', True), ('pct', '%s %d %'), ('boom', boom), ('e', ''), ('d', {'key': 5, 'a b': 6}),
          ('lst', [7, 8])]
GLOBALS = {'GLOB': 'global-value', 'b': 'shadowed'}

# (template text, rendered text, watch expressions, exact): not exact when the text is that of an error
LITERALS = ['x', ' ', 'a b:c', '{{', '}}', '%s', '100%', '\n', '\\', 'h\xe9', '$', '"', '[', '%(a)s', '!r', ':>5']
FIELDS = [('a', '1'), ('b', 'text'), ('o', 'Obj!'), ('o.name', 'bob'), ('o.items[1]', 'i1'), ('f', '1.5'), ('n', 'None'),
          ('brace', '{a} }} {{'), ('uni', 'h\xe9\u20ac'), ('t', 'True'), ('pct', '%s %d %'), ('a + 1', '2'),
          ('o.method()', 'm1'), ('o.method(n=2)', 'm2'), ('len(b)', '4'), ('GLOB', 'global-value'), ('e', ''),
          ("d['key']", '5'), ('d[k]', '5'), ('lst[0]', '7'), ('lst[-1]', '8'), ('b[1:3]', 'ex'), ("'a:b'", 'a:b'),
          ('a == 1', 'True'), ('a if t else b', '1'), ('(lambda q: q + a)(2)', '3'), ('str(d)[0]', '{'),
          ("dict(z=1)['z']", '1'), ('[q for q in lst][1]', '8'), ('a != 2', 'True'), ('o.cls_attr', 'ca'), ("d['a b']", '6'),
          ('"%s" % a', '1'), ("b.replace('t', ':')", ':ex:'), ("'x!r'", 'x!r'), ('-a', '-1'), (' a ', '1')]
ERRORS = ['missing', 'boom()', '1/0', "d['none']", 'o.nope', 'a +', '', 'lst[9]', 'import os', 'int(b)']


def tokens():
    out = []
    for lit in LITERALS:
        out.append((lit, lit.replace('{{', '{').replace('}}', '}'), None, None))
    for text, value in FIELDS:
        out.append(('{' + text + '}', value, text, True))
    for text in ERRORS:
        out.append(('{' + text + '}', None, text, False))
    return out


TOKENS = tokens()
REDUCED = [t for t in TOKENS if t[0] in ('x', '{{', '}}', '%s', '{a}', '{o.name}', '{missing}', "{d['key']}", '{brace}', '{1/0}',
                                         '{b[1:3]}')]
MODES = ['log', 'snapshot', 'method', 'twice']


def error_text(expression):
    scope = dict(GLOBALS)
    scope.update(LOCALS)
    try:
        eval(expression, scope)
    except BaseException as e:
        return str(e)
    raise AssertionError(expression)


ERROR_TEXT = {}


def check(seq, mode, rec):
    template = ''.join(t[0] for t in seq)
    # a lone brace can arise where tokens meet: '}' of a field before '}}' is read in the same way from the left
    args = {'log_msg': template, 'fire_count': '-1', 'fire_period': '0'}
    if mode in ('log', 'method'):
        args['snapshot'] = 'no_collect'
    if mode == 'method':
        args['method_name'] = 'paused_fn'
    sink = plugins.Sink()
    agent = Agent([plugins.Logger(sink)])
    agent.push.hook = lambda s: sink.add('snapshot', s)
    agent.install([tp('tp-id', 'paused.py', PAUSED_LINE, args, watches=['a'] if mode != 'log' else [])])
    hits = 2 if mode == 'twice' else 1
    for _ in range(hits):
        host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'call' if mode == 'method' else 'line', None),
                    GLOBALS)
        rec.step()
    calls = sink.take()
    logs = [c for c in calls if c[0] == 'log']
    case = {'template': template, 'mode': mode, 'calls': calls}
    rec.trace(lambda: case)
    if len(logs) != hits:
        raise Violation('log-count', '%d messages for %d hits' % (len(logs), hits), case)
    want = '[deep] '
    for text, value, expression, exact in seq:
        if exact is False:
            if expression not in ERROR_TEXT:
                ERROR_TEXT[expression] = error_text(expression)
            want += ERROR_TEXT[expression]
        else:
            want += value
    if any(log[3] != want for log in logs):
        raise Violation('message', 'got %r expected %r' % ([log[3] for log in logs], want), case)
    if any(log[1] != 'tp-id' for log in logs):
        raise Violation('tracepoint-id', 'the tracepoint id is %r' % (logs[0][1],), case)
    contexts = [log[2] for log in logs]
    if len(set(contexts)) != hits or 'tp-id' in contexts or not all(isinstance(c, str) and c for c in contexts):
        raise Violation('context-id', 'the context ids are %r' % (contexts,), case)
    snapshots = [c[1] for c in calls if c[0] == 'snapshot']
    collects = mode not in ('log', 'method')
    if len(snapshots) != (hits if collects else 0):
        raise Violation('snapshot-count', '%d snapshots' % len(snapshots), case)
    fields = [(t[2], t[1], t[3]) for t in seq if t[2] is not None]
    for snapshot, context in zip(snapshots, contexts):
        if snapshot.log_msg != want:
            raise Violation('snapshot-log', 'got %r expected %r' % (snapshot.log_msg, want), case)
        if snapshot.attributes.get('context') != context:
            raise Violation('context-id', 'the log is labelled %s, the snapshot %s' % (
                context, snapshot.attributes.get('context')), case)
        watches = [w for w in snapshot.watches if w.source == 'LOG']
        if len(watches) != len(fields) or len(snapshot.watches) != len(fields) + 1:
            raise Violation('log-watches', '%d watch results for %d fields' % (len(watches), len(fields)), case)
        for watch, (expression, value, exact) in zip(watches, fields):
            if watch.expression != expression:
                raise Violation('log-watch', 'the expression is %r not %r' % (watch.expression, expression), case)
            if exact:
                variable = snapshot.var_lookup.get(watch.result.vid) if watch.result else None
                if watch.error is not None or variable is None or variable.value != value:
                    raise Violation('log-watch', 'the value of %s is %s (%s) not %r' % (
                        expression, variable and variable.value, watch.error, value), case)
            elif not watch.error or watch.result is not None and watch.result.vid is not None:
                raise Violation('log-watch', 'no error for %s' % expression, case)
    rec.state((want, mode))


CONVERSIONS = [('{b!r}', "'text'"), ('{b!s}', 'text'), ('{b:>6}', '  text'), ('{b!r:>8}', "  'text'"),
               ('{b:<5}|', 'text |'), ('{b:{lst[0]}}', 'text   ')]


def conversions(rec):
    """The conversions and format specs of the format syntax apply to the string form."""
    for template, value in CONVERSIONS:
        check([(template, value, None, None)], 'log', rec)


class Interrupt(BaseException):
    pass


class BadRepr(dict):
    def __str__(self):
        raise Interrupt()

    __repr__ = __str__


class NotText:
    def __str__(self):
        return 5


def odd_values(rec):
    """A value that cannot be converted to text costs only its own field."""
    for value in (BadStr(), NotText(), BadRepr(), [BadStr()], {'x': BadStr()}, (1, 2), {1}, object, Obj, len, b'\xff',
                  '\ud800', 'x' * 5000, 10 ** 30, float('nan'), {'k': {}}, range(3), iter([1]), (i for i in ())):
        for collect in (False, True):
            for template in ('<{v}|{a}>', '<{a}{v}|{a}>', '{v!r}<|{a}>'):
                sink = plugins.Sink()
                agent = Agent([plugins.Logger(sink)])
                args = {'log_msg': template}
                if not collect:
                    args['snapshot'] = 'no_collect'
                agent.push.hook = lambda s: sink.add('snapshot', s)
                agent.install([tp('t', 'paused.py', PAUSED_LINE, args)])
                host.paused([('v', value), ('a', 1)], lambda frame: agent.handler.trace_call(frame, 'line', None))
                rec.step()
                rec.trace()
                calls = sink.take()
                case = (template, type(value).__name__, calls)
                logs = [c[3] for c in calls if c[0] == 'log']
                if len(logs) != 1 or '<' not in logs[0] or not logs[0].endswith('|1>') or not logs[0].startswith('[deep] '):
                    raise Violation('odd-value', 'the message is %r' % (logs,), case)
                if type(value) is str and '!r' not in template and value not in logs[0] and len(value) < 100:
                    raise Violation('odd-value', 'the message is %r' % (logs,), case)
                if len(calls) != 1 + collect:
                    raise Violation('odd-value', 'no snapshot', case)


LENGTHS = (0, 1, 2, 3, 9, 10, 11, 79, 80, 81, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 10_000, 70_000)
LIMITS = [{}, {'MAX_STRING_LENGTH': '3'}, {'MAX_STRING_LENGTH': '0'}, {'MAX_VARIABLES': '1'}, {'MAX_VARIABLES': '0'},
          {'MAX_COLLECTION_SIZE': '1', 'MAX_VAR_DEPTH': '1'}, {'MAX_WATCH_VARS': '1'}, {'MAX_TP_PROCESS_TIME': '0'},
          {'frame_type': 'no_frame'}, {'frame_type': 'all_frame', 'MAX_VARIABLES': '2'}, {'stage': 'line_end'},
          {'stage': 'line_capture', 'MAX_STRING_LENGTH': '5'}]


class Long:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def large(rec):
    """The message is complete however long the fields are and many there are, and whatever is collected."""
    values = [('text of %d' % n, 'v%s.' % ('\u00e9x' * (n // 2) + 'y' * (n % 2)), None) for n in LENGTHS]
    values += [('object with text of %d' % n, None, 'w' * n) for n in LENGTHS]
    cases = [(name, '<{v}|{a}>', '<%s|1>' % (text if long is None else long), text if long is None else Long(long), limits)
             for name, text, long in values for limits in LIMITS]
    for n in (1, 2, 10, 11, 19, 50, 99, 100, 101, 256, 300, 1001):
        for field, text in (('{a}', '1'), ('{o.name}', 'bob'), ('{v + %d}', None), ('{missing}', error_text('missing'))):
            template, want = '', ''
            for i in range(n):
                template += (field % i if text is None else field) + 'x'
                want += (str(5 + i) if text is None else text) + 'x'
            cases += [('%d fields %s' % (n, field), template, want, 5, limits) for limits in LIMITS[:5]]
        cases.append(('template of %d' % n, 'literal-%s-{a}' % ('z' * n * 50), 'literal-%s-1' % ('z' * n * 50), 5, {}))
    for name, template, want, value, limits in cases:
        for collect in (False, True) if not limits.get('stage') else (True,):
            sink = plugins.Sink()
            agent = Agent([plugins.Logger(sink)])
            agent.push.hook = lambda s: sink.add('snapshot', s)
            args = {'log_msg': template, **limits, **({} if collect else {'snapshot': 'no_collect'})}
            agent.install([tp('t', 'paused.py', PAUSED_LINE, args)])

            def hit(frame):
                agent.handler.trace_call(frame, 'line', None)
                agent.handler.trace_call(frame, 'return', None)
            host.paused(LOCALS + [('v', value)], hit, GLOBALS)
            rec.step()
            rec.trace()
            rec.state((name, repr(limits), collect))
            calls = sink.take()
            case = (name, limits, collect)
            got = [c[3] for c in calls if c[0] == 'log']
            got_snapshots = [c[1].log_msg for c in calls if c[0] == 'snapshot']
            if got != ['[deep] ' + want] or any(s != '[deep] ' + want for s in got_snapshots):
                raise Violation('large', 'the message is %.100s of length %s, expected %.100s of length %s' % (
                    [t[-60:] for t in got], [len(t) for t in got], want[-60:], len(want) + 7), case)
            if len(got_snapshots) != collect:
                raise Violation('large', '%d snapshots' % len(got_snapshots), case)


def no_logger(rec):
    """No logger: nothing is logged, but the snapshot has the message."""
    sink = plugins.Sink()
    agent = Agent([])
    agent.push.hook = lambda s: sink.add('snapshot', s)
    agent.install([tp('t', 'paused.py', PAUSED_LINE, {'log_msg': 'v {a}'})])
    host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
    rec.step()
    rec.trace()
    calls = sink.take()
    if [c[1].log_msg for c in calls] != ['[deep] v 1']:
        raise Violation('no-logger', calls)


def permitted(rec):
    """One message per permitted hit."""
    for count, period, condition in itertools.product((1, 2, -1), (0, 5), (None, 'True', 'False', 'a == 1', 'missing')):
        for collect in (True, False):
            from mc import env
            env.clock.reset()
            sink = plugins.Sink()
            agent = Agent([plugins.Logger(sink)])
            args = {'log_msg': 'v {a}', 'fire_count': str(count), 'fire_period': str(period)}
            if not collect:
                args['snapshot'] = 'no_collect'
            if condition:
                args['condition'] = condition
            agent.install([tp('t', 'paused.py', PAUSED_LINE, args)])
            want, fired, last = 0, 0, None
            for step in (0, 4, 2, 5, 9):
                env.clock.now_ns += step * 1_000_000
                host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
                rec.step()
                if (count == -1 or fired < count) and (last is None or env.clock.now_ns - last >= period * 1_000_000) \
                        and condition in (None, 'True', 'a == 1'):
                    fired, last, want = fired + 1, env.clock.now_ns, want + 1
                got = len([c for c in sink.calls if c[0] == 'log'])
                if got != want:
                    raise Violation('log-permitted', '%d messages, expected %d' % (got, want), (args, step))
            rec.trace()


class Lines(logging.Handler):
    """The messages as they are written by python logging."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append(self.format(record))
        except Exception as e:
            self.lines.append('not written: %r' % e)


def default_logger(first, rec):
    """The logger that is built in writes the message with both labels."""
    from deep.api.plugin.python import PythonPlugin
    logger = logging.getLogger('deep')
    for rest in [()] + [(t,) for t in TOKENS]:
        seq = (first,) + rest
        template = ''.join(t[0] for t in seq)
        want = '[deep] ' + ''.join(t[1] if t[3] is not False else error_text(t[2]) for t in seq)
        for collect in (False, True):
            lines = Lines()
            agent = Agent([])
            agent.config.plugins = [PythonPlugin(config=agent.config)]
            sink = plugins.Sink()
            agent.push.hook = lambda s: sink.add('snapshot', s)
            agent.install([tp('tp-id', 'paused.py', PAUSED_LINE, {'log_msg': template,
                                                                  **({} if collect else {'snapshot': 'no_collect'})})])
            level = logger.level
            logger.addHandler(lines)
            logger.setLevel(logging.INFO)
            try:
                host.paused(LOCALS, lambda frame: agent.handler.trace_call(frame, 'line', None), GLOBALS)
            finally:
                logger.removeHandler(lines)
                logger.setLevel(level)
            rec.step()
            written = [line for line in lines.lines if '[deep] ' in line]
            case = {'template': template, 'collect': collect, 'lines': lines.lines}
            if len(written) != 1 or want not in written[0]:
                raise Violation('default-logger', 'wrote %r expected %r' % (lines.lines, want), case)
            labels = written[0].replace(want, '')
            ids = re.findall(r'[\w-]+', labels)
            if ids.count('tp-id') != 1 or not re.search(r'tracepoint\W{1,3}tp-id', labels):
                raise Violation('default-logger', 'the tracepoint is not named: %r' % labels, case)
            for call in sink.take():
                context = call[1].attributes.get('context')
                if ids.count(context) != 1 or not re.search(r'(ctx|context)\W{1,3}' + re.escape(context), labels):
                    raise Violation('default-logger', 'the context is not named: %r' % labels, case)
            rec.trace(lambda: case)


def units(tier):
    out = [('special',), ('large',)]
    out += [('default', i) for i in range(len(TOKENS))]
    out += [('short', i) for i in range(len(TOKENS))]
    out += [('long', i) for i in range(len(TOKENS))]
    if tier == 'thorough':
        out += [('four', i) for i in range(len(REDUCED))]
    return out


def run_unit(unit, rec, tier):
    if unit[0] == 'special':
        conversions(rec)
        no_logger(rec)
        odd_values(rec)
        permitted(rec)
        check([], 'log', rec)
        check([], 'snapshot', rec)
    elif unit[0] == 'large':
        large(rec)
    elif unit[0] == 'default':
        default_logger(TOKENS[unit[1]], rec)
    elif unit[0] == 'short':
        first = TOKENS[unit[1]]
        for mode in MODES:
            check([first], mode, rec)
            for second in TOKENS:
                check([first, second], mode, rec)
    elif unit[0] == 'long':
        first = TOKENS[unit[1]]
        for i, rest in enumerate(itertools.product(TOKENS, repeat=2)):
            for mode in MODES if tier == 'thorough' else (MODES[i % 4],):
                check([first, *rest], mode, rec)
    else:
        for rest in itertools.product(REDUCED, repeat=3):
            check([REDUCED[unit[1]], *rest], 'log', rec)
