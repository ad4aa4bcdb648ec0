"""Auth providers that are configured by the check of C08."""
import base64

from deep.api.auth import AuthProvider


class Static(AuthProvider):
    def provide(self):
        return [('token', 'value'), ('other-key', 'x' * 300)]


class Bytes(AuthProvider):
    def provide(self):
        return [('token-bin', b'\x00\xff'), ('authorization', 'Bearer abc')]


class Tuple(AuthProvider):
    def provide(self):
        return (('token', 'value'),)


class FromConfig(AuthProvider):
    def provide(self):
        return [('user', str(self._config.SERVICE_USERNAME)), ('custom', str(self._config.MY_SETTING))]


class Empty(AuthProvider):
    def provide(self):
        return []


class Flaky(AuthProvider):
    """Fails for the first calls."""

    failures = 0

    def provide(self):
        if Flaky.failures > 0:
            Flaky.failures -= 1
            raise ValueError('no token yet')
        return [('token', 'late')]


def expected(name, config):
    """What the provider supplies."""
    if not name:
        return []
    kind = name.rsplit('.', 1)[-1]
    if kind == 'BasicAuthProvider':
        user, password = config.get('SERVICE_USERNAME'), config.get('SERVICE_PASSWORD')
        if user is None or password is None:
            return []
        encoded = base64.b64encode(('%s:%s' % (user, password)).encode('utf-8')).decode()
        return [('authorization', 'Basic%20' + encoded)]
    return {'Static': [('token', 'value'), ('other-key', 'x' * 300)],
            'Bytes': [('token-bin', b'\x00\xff'), ('authorization', 'Bearer abc')],
            'Tuple': [('token', 'value')], 'Empty': [], 'Flaky': [('token', 'late')],
            'FromConfig': [('user', str(config.get('SERVICE_USERNAME'))), ('custom', str(config.get('MY_SETTING')))]}[kind]
