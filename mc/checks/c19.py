"""
C19: the settings are a table of key x (given in code, in the environment, default), every row is executed in a fresh
interpreter; the classification of frames is a table of file x include x exclude x root.
"""
import itertools
import os
import sys

from mc import fresh, host
from mc.agent import Agent, tp
from mc.core import Violation

from deep.config import ConfigService

BOUNDS = {
    'quick': '14 keys x 12 ways to give them in code (alone, and all keys together) x 33 environments; the started agent with '
             '70 values of the documented settings as text in the environment, as text in code, as function and as native '
             'value; every assignment of 8 settings to code or environment (256), and of 8 settings that are given in both; '
             'frames: 9 prefixes, every list of up to 2 prefixes as include x as exclude x 9 roots x 15 files; 39 prefixes with special characters as include x as exclude x 4 roots x 47 files',
    'thorough': 'as quick with lists of up to 3 prefixes as include',
}
RULE = 'a state is a combination of sources of the settings, a trace is a reading of it (or a run of the agent with it)'
EXEC = sys.exec_prefix

# --- reading settings

KEYS = ['SERVICE_URL', 'SERVICE_SECURE', 'LOGGING_CONF', 'POLL_TIMER', 'SERVICE_AUTH_PROVIDER', 'IN_APP_INCLUDE',
        'IN_APP_EXCLUDE', 'APP_ROOT', 'SERVICE_USERNAME', 'SERVICE_PASSWORD', 'PLUGIN_PYTHONPLUGIN', 'SOME_KEY', 'a_key', 'X']
LISTS = ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE')
DEFAULTS = {'SERVICE_URL': ('deep:43315',), 'SERVICE_SECURE': ('True', True), 'POLL_TIMER': (10, '10', 10.0),
            'APP_ROOT': ('', None)}
GIVEN = [('value', 'in-code'), ('value', ''), ('value', 0), ('value', False), ('value', []), ('value', ['a', 'b']),
         ('value', None), ('call', 'from-function'), ('call', 0), ('call', ['q']), ('call', None),
         ('counter', 'call')]
ABSENT = object()


def text_of(key):
    return '7' if key == 'POLL_TIMER' else 'env,' + key.lower() if key in LISTS else 'env-' + key.lower()


def items(value):
    if value is None:
        return []
    if isinstance(value, str):
        return [v for v in value.split(',') if v]
    return list(value)


def allowed(key, given, env):
    """The values that the key can have."""
    if given is not ABSENT and given[1] is not None:
        return [given[1]]
    # 'None' in code is the same as nothing
    lower = [None] if given is not ABSENT else []
    if env is not None:
        lower.append(env)
        if env != '':
            return lower
    return lower + list(DEFAULTS.get(key, (None,)))


def matches(key, got, want):
    kind, value = got
    if key in LISTS and (kind == 'list' or want is None or isinstance(want, str)):
        if kind == 'list' or isinstance(value, (str, type(None))):
            mine, theirs = items(value), items(want)
            # the python install can be part of the excluded ones
            return [v for v in mine if v != EXEC] == [v for v in theirs if v != EXEC]
    if isinstance(want, (list, tuple)):
        return kind == 'list' and value == list(want)
    return kind == type(want).__name__ and value == want


def environments():
    yield {}
    for key in KEYS:
        yield {key: text_of(key)}
        yield {key: ''}
    yield {k: text_of(k) for k in KEYS}
    yield {k: '' for k in KEYS}
    yield {k: text_of(k) for k in KEYS[::2]}
    yield {k: text_of(k) for k in KEYS[1::2]}


def table_job(env):
    given = [{}]
    given += [{key: g} for key in KEYS for g in GIVEN]
    given += [{key: g for key in KEYS} for g in GIVEN]
    # these are other variables
    decoys = {'DEEPSERVICE_URL': 'decoy', 'DEEP_SERVICE_URL_X': 'decoy', 'SERVICE_URL': 'decoy', 'POLL_TIMER': '99',
              'deep_SOME_KEY': 'decoy', 'DEEP_some_key': 'decoy', 'DEEP_A_KEY': 'decoy', 'DEEP__X': 'decoy', 'X': 'decoy',
              'DEEP_DEEP_X': 'decoy'}
    values = {'DEEP_' + k: v for k, v in env.items()}
    return {'kind': 'table', 'env': {**decoys, **values}, 'keys': KEYS, 'given': given}


def table_unit(envs, rec):
    jobs = [table_job(env) for env in envs]
    for env, job, results in zip(envs, jobs, fresh.execute(jobs)):
        for given, reads in zip(job['given'], results):
            for number, read in enumerate(reads):
                for key in KEYS:
                    g = given.get(key, ABSENT)
                    if g is not ABSENT and g[0] == 'counter':
                        # the function is called for each read
                        g = ('counter', 'call-%d' % (number + 1))
                        if read[key][1] != reads[0][key][1] and str(read[key][1]).startswith('call-'):
                            g = ('counter', read[key][1])
                    want = allowed(key, g, env.get(key))
                    rec.step()
                    if not any(matches(key, read[key], w) for w in want):
                        raise Violation('precedence', '%s is %s, expected one of %s (in code: %s, in the environment: %s)' % (
                            key, read[key], want, 'absent' if g is ABSENT else g, env.get(key)), {'env': env, 'given': given})
            rec.state((sorted(env.items()), str(given)))
            rec.trace(lambda: {'env': env, 'given': given})


# --- settings of a running agent

FILES = ['/app-of-the-check/service/main.py', '/lib/one/a.py', '/lib/two/b.py', '/lib/oneother.py', '/other/x.py',
         '/root-a/x/y.py', '/root-b/z.py', EXEC + '/lib/json.py', '']
CALLER = '/app-of-the-check/service/main.py'
TRUE, FALSE = ('True', 'true', '1', 'yes'), ('False', 'false', '0', 'no')
# key -> [(text, [native values that are the same])]
VALUES = {
    'SERVICE_SECURE': [(t, [True]) for t in TRUE] + [(t, [False]) for t in FALSE] + [('odd', [])],
    'POLL_TIMER': [('5', [5, 5.0]), ('0.5', [0.5]), ('7.5', [7.5]), ('12', [12]), ('60', [60]), ('3601', [3601]), ('100000', [100000]), (' 3 ', []), ('1e1', [10]), ('abc', []),
                   ('0', [0]), ('-4', [-4]), ('nan', []), ('inf', []), ('1e300', []), ('-0.0', []), ('', [])],
    'SERVICE_URL': [('a.service:1234', []), ('unix:/x', []), ('x', [])],
    'SERVICE_AUTH_PROVIDER': [('deep.api.auth.BasicAuthProvider', []), ('', []), ('missing.Provider', []),
                              ('noprovider', [])],
    'SERVICE_USERNAME': [('jo', []), ('', [])],
    'SERVICE_PASSWORD': [('s3cret', [])],
    'LOGGING_CONF': [('/some/where/log.conf', []), ('', [])],
    'IN_APP_INCLUDE': [('/lib/one', [['/lib/one']]), ('/lib/one,/lib/two', [['/lib/one', '/lib/two']]), ('', [[]]),
                       (',/lib/two,', [['/lib/two']]), ('/nothing', [])],
    'IN_APP_EXCLUDE': [('/lib/one', [['/lib/one']]), ('/lib/one,/lib/two', [['/lib/one', '/lib/two']]), ('', [[]]),
                       (',/app-of-the-check/service', [['/app-of-the-check/service']])],
    'APP_ROOT': [('/root-a', []), ('/root-b/', []), ('/lib', [])],
    'PLUGIN_PYTHONPLUGIN': [(t, [True]) for t in TRUE[:2]] + [(t, [False]) for t in FALSE],
    'PLUGIN_PROMETHEUSPLUGIN': [('False', [False])],
    'NO_TRACE': [(t, [True]) for t in TRUE[:2]] + [(t, [False]) for t in FALSE[:2]],
}
# needed for the setting to have an effect
CONTEXT = {
    'SERVICE_USERNAME': {'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_PASSWORD': 'pw'},
    'SERVICE_PASSWORD': {'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': 'jo'},
    'SERVICE_AUTH_PROVIDER': {'SERVICE_USERNAME': 'jo', 'SERVICE_PASSWORD': 'pw'},
    'IN_APP_EXCLUDE': {'IN_APP_INCLUDE': '/lib'},
    'NO_TRACE': {},
}


def job(env, given, caller=CALLER, files=FILES):
    values = {'NO_TRACE': ('value', True)} if 'NO_TRACE' not in env else {}
    return {'kind': 'behaviour', 'env': {'DEEP_' + k: v for k, v in env.items()}, 'given': {**values, **given},
            'files': files, 'caller': caller}


def basic(user, password):
    import base64
    return [['authorization', 'Basic%20' + base64.b64encode(('%s:%s' % (user, password)).encode()).decode()]]


def expected(settings, caller=CALLER):
    """What is known about an agent with these settings (as text)."""
    want = {}
    secure = settings.get('SERVICE_SECURE', 'True')
    if secure in TRUE + FALSE:
        want['channels'] = [[settings.get('SERVICE_URL', 'deep:43315'), secure in TRUE]]
    try:
        period = float(settings.get('POLL_TIMER', '10'))
        usable = 0 < period < 1e6
    except ValueError:
        usable = False
    if usable:
        want['polls'] = [n * period for n in range(0, 10000) if n * period < 40.9]
    provider = settings.get('SERVICE_AUTH_PROVIDER')
    user, password = settings.get('SERVICE_USERNAME'), settings.get('SERVICE_PASSWORD')
    if not provider or provider.endswith('BasicAuthProvider') and (user is None or password is None):
        want['metadata'] = []
    elif provider.endswith('BasicAuthProvider'):
        want['metadata'] = basic(user, password)
    if settings.get('LOGGING_CONF'):
        want['log'] = settings['LOGGING_CONF']
    root = settings.get('APP_ROOT') or os.path.dirname(os.path.dirname(caller))
    want['root'] = root
    want['frames'] = {f: classify(f, items(settings.get('IN_APP_INCLUDE')), items(settings.get('IN_APP_EXCLUDE')) + [EXEC], root)
                      for f in FILES}
    if settings.get('PLUGIN_PYTHONPLUGIN', 'True') in TRUE + FALSE:
        want['python'] = settings.get('PLUGIN_PYTHONPLUGIN', 'True') in TRUE
    want['prometheus'] = settings.get('PLUGIN_PROMETHEUSPLUGIN', 'True') in TRUE
    if settings.get('NO_TRACE', 'True') in TRUE + FALSE:
        want['trace'] = settings.get('NO_TRACE', 'True') in FALSE
    return want


def classify(file, include, exclude, root):
    """Is it an app frame, and the prefixes that can be removed."""
    matched = [p for p in exclude if file.startswith(p)]
    if matched:
        return False, matched
    matched = [p for p in include if file.startswith(p)]
    if file.startswith(root):
        matched.append(root)
    return (True, matched) if matched else (False, [None, ''])


def check(seen, settings, case, caller=CALLER):
    want = expected(settings, caller)

    def fail(what, expected_value):
        raise Violation('setting', '%s is %s, expected %s: %s' % (what, str(seen.get(what))[:500], str(expected_value)[:500],
                                                                  case), case)
    if 'failed' in seen:
        raise Violation('setting', 'the agent does not start: %s: %s' % (seen['failed'], case), case)
    if seen['threads'] != ['Tracepoint Long Poll']:
        fail('threads', 'the poll timer')
    if 'channels' in want and seen['channels'] != want['channels']:
        fail('channels', want['channels'])
    if want.get('metadata') is not None:
        polls = seen['polls']
        if 'polls' in want:
            if len(polls) != len(want['polls']) or any(abs(a - b) > 1e-3 for a, b in zip(polls, want['polls'])):
                fail('polls', want['polls'])
        elif len(polls) < 2:
            # whatever has been configured, the service is still polled
            fail('polls', 'more polls')
        if any(m != want['metadata'] for m in seen['metadata']):
            fail('metadata', want['metadata'])
    if 'log' in want and want['log'] not in seen['log']:
        fail('log', want['log'])
    if seen['root'] != want['root']:
        fail('root', want['root'])
    for file, (app, prefixes) in want['frames'].items():
        got = seen['frames'][file]
        if bool(got[0]) != app or got[1] not in prefixes:
            raise Violation('setting', 'is_app_frame(%r) is %s, expected %s with one of %s: %s' % (file, got, app, prefixes, case),
                            case)
    for key, name in (('python', 'PythonPlugin'), ('prometheus', 'PrometheusPlugin')):
        if key in want and (name in seen['plugins']) != want[key]:
            fail('plugins', '%s: %s' % (name, want[key]))
    if 'trace' in want and seen['trace'] != want['trace']:
        fail('trace', want['trace'])


def settings_unit(key, values, rec):
    """A value as text in the environment, as text in code, as function, and as native value."""
    for text, natives in values:
        context = CONTEXT.get(key, {})
        in_code = {k: ('value', v) for k, v in context.items()}
        other = 'other' if text != 'other' else 'x'
        forms = [('environment', {**context, key: text}, {}), ('environment, context in code', {key: text}, in_code),
                 ('text', {}, {**in_code, key: ('value', text)}), ('text, context in environment', context, {key: ('value', text)}),
                 ('function', {}, {**in_code, key: ('call', text)}),
                 ('text, and other in environment', {**context, key: other}, {**in_code, key: ('value', text)})]
        for native in natives:
            forms.append(('native %r' % (native,), {}, {**in_code, key: ('value', native)}))
            forms.append(('function of %r' % (native,), {}, {**in_code, key: ('call', native)}))
            if isinstance(native, list):
                forms.append(('tuple %r' % (native,), {}, {**in_code, key: ('tuple', native)}))
        jobs = [job(env, given) for _, env, given in forms]
        if key == 'NO_TRACE':
            for j in jobs:
                if j['given'].get(key) == ('value', True) and key in j['env']:
                    del j['given'][key]
        results = fresh.execute(jobs)
        for (name, env, given), seen in zip(forms, results):
            case = {'key': key, 'value': text, 'given': name}
            rec.step(len(seen['polls']))
            if {**seen, 'polls': None} != {**results[0], 'polls': None} or len(seen['polls']) != len(results[0]['polls']):
                different = [k for k in results[0] if seen.get(k) != results[0][k]]
                raise Violation('not-the-same', '%s as %s: %s, in the environment: %s' % (
                    case, name, {k: str(seen.get(k))[:300] for k in different},
                    {k: str(results[0][k])[:300] for k in different}), case)
            if key != 'SERVICE_AUTH_PROVIDER' or text.startswith('deep') or not text:
                check(seen, {**context, key: text}, case)
            rec.state((key, text, name))
            rec.trace(lambda: case)


MIX = {'SERVICE_SECURE': 'False', 'SERVICE_URL': 'host:1', 'POLL_TIMER': '6', 'SERVICE_AUTH_PROVIDER':
       'deep.api.auth.BasicAuthProvider', 'SERVICE_USERNAME': 'me', 'IN_APP_INCLUDE': '/lib/one,/other',
       'IN_APP_EXCLUDE': '/lib/two', 'APP_ROOT': '/root-a'}
LOST = {'SERVICE_SECURE': 'True', 'SERVICE_URL': 'lost:1', 'POLL_TIMER': '9', 'SERVICE_AUTH_PROVIDER': '',
        'SERVICE_USERNAME': 'lost', 'IN_APP_INCLUDE': '/lib/two', 'IN_APP_EXCLUDE': '/lib/one,/other', 'APP_ROOT': '/root-b'}


def mix_unit(part, parts, both, rec):
    """Every assignment of settings to code and environment."""
    sources = list(itertools.product((0, 1), repeat=len(MIX)))[part::parts]
    settings = {**MIX, 'SERVICE_PASSWORD': 'pw'}
    jobs, cases = [], []
    for source in sources:
        in_code = {k for k, s in zip(MIX, source) if s}
        given = {k: ('value', MIX[k]) for k in in_code}
        env = {k: v for k, v in MIX.items() if k not in in_code}
        if both:
            # the environment has something else for what is given in code
            env.update({k: LOST[k] for k in in_code})
        env['SERVICE_PASSWORD'] = 'pw'
        jobs.append(job(env, given))
        cases.append({'in code': sorted(in_code), 'in the environment': sorted(env)})
    for case, seen in zip(cases, fresh.execute(jobs)):
        rec.step(len(seen['polls']))
        check(seen, settings, case)
        rec.state(case)
        rec.trace(lambda: case)


def root_unit(rec):
    """The root is calculated from the file that starts the agent."""
    callers = ['/srv/app/main.py', '/srv/app/pkg/sub/start.py', '/a/b.py', '/x.py', '/srv/with space/ünï/m.py', '/srv//double/m.py']
    forms = []
    for caller in callers:
        for env, given in (({}, {}), ({'APP_ROOT': '/root-a'}, {}), ({}, {'APP_ROOT': ('value', '/root-a')}),
                           ({'APP_ROOT': '/root-b'}, {'APP_ROOT': ('value', '/root-a')}), ({}, {'APP_ROOT': ('call', '/root-a')}),
                           ({'APP_ROOT': '/root-b'}, {'APP_ROOT': ('call', '/root-a')})):
            forms.append((caller, env, given))
    for (caller, env, given), seen in zip(forms, fresh.execute([job(e, g, c) for c, e, g in forms])):
        settings = {'APP_ROOT': '/root-a'} if env or given else {}
        case = {'caller': caller, 'env': env, 'given': given}
        check(seen, settings, case, caller)
        rec.step()
        rec.state(case)
        rec.trace(lambda: case)


# --- frames

PREFIXES = ['/a', '/a/', '/a/b', '/a/bc', '/b', '/', '/a/b/c.py', EXEC, '/B']
PATHS = ['/a/b/c.py', '/a/bc/d.py', '/a/b.py', '/ab/c.py', '/a', '/b/a/b.py', '/c/d.py', 'c.py', '', EXEC + '/lib/x.py',
         EXEC + 'x/y.py', '<string>', '/B/x.py', '/a/B/x.py', 'a/b/c.py']


def lists(size):
    out = []
    for n in range(size + 1):
        out += list(itertools.permutations(PREFIXES, n))
    return out


def frames_unit(include_part, rec):
    excludes = lists(2)
    for include in include_part:
        for root in PREFIXES + ['/nothing']:
            for exclude in excludes:
                if exclude == ():
                    service = ConfigService({'IN_APP_INCLUDE': ','.join(include), 'IN_APP_EXCLUDE': '', 'APP_ROOT': root})
                else:
                    service = ConfigService({'IN_APP_INCLUDE': list(include), 'IN_APP_EXCLUDE': list(exclude),
                                             'APP_ROOT': root})
                for path in PATHS:
                    got = service.is_app_frame(path)
                    app, matched = classify(path, list(include), list(exclude) + [EXEC], root)
                    rec.step()
                    if bool(got[0]) != app or got[1] not in matched:
                        case = {'file': path, 'include': include, 'exclude': exclude, 'root': root}
                        raise Violation('frame', 'is_app_frame(%r) is %s, expected %s with one of %s: %s' % (
                            path, got, app, matched, case), case)
                rec.state((include, exclude, root))
                rec.trace(lambda: {'include': include, 'exclude': exclude, 'root': root})


SPECIAL = ['/a.c', '/a*', '/a?c', '/[ab]', '/a+', '/(a)', '/a|b', '^/a', '/a$', '/.*', '.*', '*', '/a b', ' /a', '/a ', '/a\\', '\\d',
           'C:\\x', 'c:/x', '/caf\u00e9', '/cafe\u0301', '/CAF\u00c9', '%s', '{0}', '~/a', '~', '$HOME', './a', '../a', '/x/../a',
           '/a/./', '//a', '/\u4e2d', '\t/a', '/a,b', '-/a', '!/a', '#/a', '/a' * 60]
SPECIAL_PATHS = ['/a.c/x.py', '/abc/x.py', '/a*/x.py', '/a?c', '/axc', '/[ab]/x', '/a/x', '/a+/x', '/aa/x', '/(a)/x', '/a|b/x', '/b/x',
                 '^/a/x', '/a$/x', '/.*/x', '*/x', '/a b/x', '/ab/x', ' /a/x', '/a /x', '/a\\/x', '\\d/x', '5/x', 'C:\\x\\y.py',
                 'C:/x/y.py', 'c:/x/y.py', '/caf\u00e9/x', '/cafe\u0301/x', '/CAF\u00c9/x', '%s/x', '{0}/x', '~/a/x', '/root/a/x',
                 '$HOME/x', './a/x', '../a/x', '/x/../a/x', '/a/./x', '//a/x', '/\u4e2d/x', '\t/a/x', '/a,b/x', '-/a/x', '!/a/x', '#/a/x',
                 '/a' * 60 + '/x', '/a' * 59]


def special_unit(include, rec):
    """Prefixes are texts: nothing in them is special."""
    for exclude in [None] + SPECIAL:
        for root in ('/nothing', '/a.c', '.*', '/a b'):
            settings = {'IN_APP_INCLUDE': [include] if include else [], 'IN_APP_EXCLUDE': [exclude] if exclude else [],
                        'APP_ROOT': root}
            service = ConfigService(settings)
            for path in SPECIAL_PATHS:
                got = service.is_app_frame(path)
                app, matched = classify(path, settings['IN_APP_INCLUDE'], settings['IN_APP_EXCLUDE'] + [EXEC], root)
                rec.step()
                if bool(got[0]) != app or got[1] not in matched:
                    raise Violation('frame', 'is_app_frame(%r) is %s, expected %s with one of %s: %s' % (
                        path, got, app, matched, settings), {'file': path, **settings})
            rec.state((include, exclude, root))
            rec.trace(lambda: settings)


def snapshots_unit(part, parts, rec):
    """The frames of a snapshot."""
    combos = [(i, e, r) for i in lists(1) for e in lists(1) for r in PREFIXES + ['/nothing']]
    combos += [(i, (), '/nothing') for i in lists(2)] + [((), e, '/') for e in lists(2)]
    for include, exclude, root in combos[part::parts]:
        agent = Agent(custom={'IN_APP_INCLUDE': list(include), 'IN_APP_EXCLUDE': list(exclude), 'APP_ROOT': root})
        names = [p for p in PATHS if p.endswith('.py')]
        agent.install([tp('t%d' % i, path, host.PAUSED_LINE, {'fire_count': '-1', 'fire_period': '0', 'frame_type': 'no_frame'})
                       for i, path in enumerate(sorted({p.rsplit('/', 1)[-1] for p in names}))])
        for path in names:
            agent.push.take()
            host.paused([], lambda frame: agent.handler.trace_call(frame, 'line', None), filename=path)
            snapshots = agent.push.take()
            rec.step()
            case = {'file': path, 'include': include, 'exclude': exclude, 'root': root}
            if len(snapshots) != 1:
                raise Violation('harness', '%d snapshots for %s' % (len(snapshots), case))
            for frame in snapshots[0].frames:
                app, matched = classify(frame.file_name, list(include), list(exclude) + [EXEC], root)
                shorts = [frame.file_name[len(p or ''):] for p in matched]
                if bool(frame.app_frame) != app or frame.short_path not in shorts:
                    raise Violation('frame', 'the frame of %r is %s with the path %r, expected %s with one of %s: %s' % (
                        frame.file_name, frame.app_frame, frame.short_path, app, shorts, case), case)
        rec.state((include, exclude, root))
        rec.trace(lambda: case)


def units(tier):
    for key, values in VALUES.items():
        for part in host.chunks(values, (len(values) + 2) // 3):
            yield ('settings', key, part)
    for part in range(8):
        yield ('mix', part, 8, False)
        yield ('mix', part, 8, True)
    yield ('root',)
    for part in host.chunks(list(environments()), 8):
        yield ('table', part)
    for part in host.chunks(lists(2 if tier == 'quick' else 3), 16):
        yield ('frames', part)
    for include in [None] + SPECIAL:
        yield ('special', include)
    for part in range(8):
        yield ('snapshots', part, 8)


def run_unit(unit, rec, tier):
    if unit[0] == 'table':
        table_unit(unit[1], rec)
    elif unit[0] == 'settings':
        settings_unit(unit[1], unit[2], rec)
    elif unit[0] == 'mix':
        mix_unit(unit[1], unit[2], unit[3], rec)
    elif unit[0] == 'root':
        root_unit(rec)
    elif unit[0] == 'special':
        special_unit(unit[1], rec)
    elif unit[0] == 'frames':
        frames_unit(unit[1], rec)
    else:
        snapshots_unit(unit[1], unit[2], rec)
