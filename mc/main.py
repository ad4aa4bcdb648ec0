"""Entry point: main.py <property id> [--quick|--thorough] [--unit text]."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def child(prop, argv):
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ.get('MC_REPO', '/repo') + '/src')
    from mc import env
    env.setup(prop)
    from mc import core
    try:
        env.load_agent()
        module = importlib.import_module('mc.checks.' + prop.lower())
    except BaseException:
        # the agent (or what the check uses of it) cannot be imported
        import traceback
        traceback.print_exc(file=sys.stdout)
        return 2
    return core.main(prop, module, argv)


def main():
    prop, argv = sys.argv[1], sys.argv[2:]
    if os.environ.get('MC_CHILD'):
        code = child(prop, argv)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    cache = tempfile.mkdtemp(prefix='mc-')
    environ = {k: v for k, v in os.environ.items() if not k.startswith(('DEEP_', 'OTEL_', 'PYTHON'))}
    environ.update(MC_CHILD='1', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=cache, PYTHONHASHSEED='0',
                   MC_SCRATCH=cache)
    try:
        return subprocess.run([sys.executable, os.path.abspath(__file__), prop] + argv, env=environ,
                              cwd=VERIF, stdin=subprocess.DEVNULL).returncode
    finally:
        shutil.rmtree(cache, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
