"""
Jobs that need an interpreter in which the agent is not imported yet (as it reads the environment when it is imported).

python -m mc.fresh: reads a list of jobs from stdin, each is run in a fork of this process.
"""
import json
import os
import sys
import traceback


def make(spec):
    """Make the value, from its description."""
    kind, value = spec
    if kind == 'call':
        return lambda: value
    if kind == 'counter':
        numbers = iter(range(1, 100))
        return lambda: '%s-%d' % (value, next(numbers))
    if kind == 'tuple':
        return tuple(value)
    return value


def table(job):
    """Read the keys from services with these values given in code."""
    from deep.config import ConfigService
    out = []
    for given in job['given']:
        custom = {k: make(v) for k, v in given.items()}
        service = ConfigService(custom)
        first = {k: getattr(service, k) for k in job['keys']}
        second = {k: getattr(service, k) for k in reversed(job['keys'])}
        out.append([show(first), show(second)])
    return out


def show(values):
    return {k: ['list', list(v)] if isinstance(v, (list, tuple)) else
            [type(v).__name__, v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)]
            for k, v in values.items()}


def behaviour(job):
    """Start the agent, let it run for 40 (virtual) seconds, and say what can be seen of its configuration."""
    import logging.config
    import threading
    import time
    from mc import env, world
    import deep
    import deep.logging
    from deepproto.proto.poll.v1.poll_pb2 import PollRequest
    seen = {'polls': [], 'metadata': [], 'log': [], 'resource': []}
    logging.config.fileConfig = lambda fname=None, *a, **k: seen['log'].append(str(fname))

    def net(method, data, metadata):
        if 'poll' in method.lower():
            seen['polls'].append((env.clock.now_ns - env.START_NS) / 1e9)
            seen['metadata'].append([list(m) for m in metadata or ()])
            request = PollRequest.FromString(data)
            seen['resource'] = sorted(a.key for a in request.resource)
        return world.no_change()
    env.net.handler = net
    config = {k: make(v) for k, v in job['given'].items()}
    name = job.get('caller', '/app-of-the-check/service/main.py')
    ns = {'deep': deep, 'config': config}
    exec(compile('def main():\n    return deep.start(config)\n', name, 'exec'), ns)

    def main():
        try:
            agent = ns['main']()
        except BaseException as e:
            seen['failed'] = repr(e)
            return
        seen['trace'] = getattr(sys.gettrace(), '__func__', sys.gettrace()) is not None
        time.sleep(41)
        seen['root'] = agent.config.APP_ROOT
        seen['frames'] = {f: list(agent.config.is_app_frame(f)) for f in job['files']}
        seen['plugins'] = [type(p).__name__ for p in agent.config.plugins]
        seen['threads'] = sorted(t.name for t in threading.enumerate() if 'Poll' in t.name)
        agent.shutdown()
    world.in_run(main)
    seen['channels'] = [[c.target, c.secure] for c in env.net.channels]
    return seen


def builtin(job):
    """Load the plugins that come with the agent, without some of their dependencies."""
    for name in list(sys.modules):
        if name.split('.')[0] in job['missing']:
            del sys.modules[name]
    for name in job['missing']:
        sys.modules[name] = None
    from deep.api.deep import Deep
    from deep.api.plugin import load_plugins
    from deep.config import ConfigService
    from mc import env, world
    custom = ['mc.faulty.Second', 'mc.faulty.First', 'mc.faulty.InitFails']
    given = {'NO_TRACE': True, 'APP_ROOT': '/x', 'PLUGINS': custom, **job['given']}
    loaded = [type(p).__name__ for p in load_plugins(ConfigService(dict(given)), custom)]
    env.net.handler = lambda method, data, metadata: world.no_change()

    def main():
        agent = Deep(ConfigService(dict(given)))
        agent.start()
        out = [type(p).__name__ for p in agent.config.plugins], list(agent.config.resource.attributes)
        agent.shutdown()
        return out
    started, resource = world.in_run(main)
    return {'loaded': loaded, 'started': sorted(started), 'resource': resource}


def run(job):
    """Run the job in a fork."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(read)
            os.environ.update(job['env'])
            from mc import env
            env.load_agent()
            result = globals()[job['kind']](job)
        except BaseException:
            result = {'error': traceback.format_exc()[-2000:]}
            code = 1
        with os.fdopen(write, 'w') as f:
            json.dump(result, f)
        os._exit(code)
    os.close(write)
    with os.fdopen(read) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text or '{"error": "no result"}')


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.dirname(here))
    sys.path.insert(0, os.environ.get('MC_REPO', '/repo') + '/src')
    from mc import env
    env.setup('C04')
    # these take long to import, and do not depend on the environment of the agent
    import grpc  # noqa: F401
    import logging.config  # noqa: F401
    for name in ('deepproto.proto.poll.v1.poll_pb2', 'deepproto.proto.poll.v1.poll_pb2_grpc', 'prometheus_client',
                 'deepproto.proto.tracepoint.v1.tracepoint_pb2_grpc', 'opentelemetry.sdk.trace', 'opentelemetry.trace',
                 'opentelemetry.metrics', 'opentelemetry.sdk.metrics', 'inspect', 'concurrent.futures.thread'):
        try:
            __import__(name)
        except ImportError:
            pass
    if any(n == 'deep' or n.startswith('deep.') for n in sys.modules):
        raise RuntimeError('the agent is imported already')
    for job in json.load(sys.stdin):
        json.dump(run(job), out)
        out.write('\n')
        out.flush()


def execute(jobs):
    """Run the jobs, return their results."""
    import subprocess
    environ = {k: v for k, v in os.environ.items() if not k.upper().startswith('DEEP_')}
    done = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(jobs), capture_output=True, text=True,
                          env=environ, timeout=600)
    results = [json.loads(line) for line in done.stdout.splitlines()]
    if len(results) != len(jobs):
        raise RuntimeError('only %d of %d jobs: %s' % (len(results), len(jobs), done.stderr[-2000:]))
    for job, result in zip(jobs, results):
        if isinstance(result, dict) and 'error' in result:
            raise RuntimeError('%s: %s' % (job, result['error']))
    return results


if __name__ == '__main__':
    main()
