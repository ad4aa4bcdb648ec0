"""
Exhaustive fault injection: the n-th call that the code of the agent makes fails.

A fault is raised at the CALL instruction of the agent (with sys.monitoring), instead of the call.
"""
import sys
import threading
import types

MON = sys.monitoring
TOOL = 3
# giving back a lock cannot fail
RELEASE = ('release', '__exit__', 'release_lock')


class Injector:
    """Counts the calls made by the agent on this thread, and raises at some of them."""

    def __init__(self, prefix='deep'):
        from mc import sched
        codes = set()
        for name, module in sorted(sys.modules.items()):
            if (name == prefix or name.startswith(prefix + '.')) and isinstance(module, types.ModuleType):
                codes |= sched._codes(module)
        self.codes = codes
        self.thread = None
        self.at = None
        self.error = None
        self.count = 0
        self.hit = []
        self.sites = {}
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, 'mc-fault')
        MON.register_callback(TOOL, MON.events.CALL, self._call)
        for code in codes:
            MON.set_local_events(TOOL, code, MON.events.CALL)

    def _call(self, code, offset, function, arg0):
        if self.thread != threading.get_ident() or getattr(function, '__name__', None) in RELEASE:
            return
        n = self.count
        self.count += 1
        if self.at is None:
            self.sites[n] = (code.co_qualname, getattr(function, '__qualname__', str(type(function))))
        elif n in self.at:
            self.hit.append((code.co_qualname, getattr(function, '__qualname__', str(type(function)))))
            raise self.error()

    def run(self, fn, at=None, error=None):
        """
        Run fn, the calls with the numbers in 'at' fail.

        :return: the number of calls (up to the failure and after it)
        """
        self.count, self.at, self.error, self.hit = 0, at, error, []
        if at is None:
            self.sites = {}
        self.thread = threading.get_ident()
        try:
            fn()
        finally:
            self.thread = None
        return self.count

    def close(self):
        for code in self.codes:
            MON.set_local_events(TOOL, code, 0)
        MON.register_callback(TOOL, MON.events.CALL, None)
        MON.free_tool_id(TOOL)
