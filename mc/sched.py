"""
Controlled scheduling of real threads: stateless exploration of the schedules of the real code.

Every thread started while a run is active is a task: a real thread that only runs while it has the baton. The baton is
passed on at scheduling points: before accesses of shared state in the instrumented modules (sys.monitoring INSTRUCTION
events), at every operation on a lock (and so on every Event, Condition, Semaphore, Queue, Future ...), at thread start and
join, when sleeping, and where the check says so (point()). All of time is virtual.

A schedule is the sequence of choices made at the points where more than one task can run. The default choice continues the
running task (or takes the one with the lowest number when it cannot continue). explore() enumerates every schedule that
deviates from the default at most `bound` times. A timed wait can end at any point (as a deviation), or ends when nothing
else can run.
"""
import _thread
import dis
import gc
import queue
import sys
import threading
import time
import types

from mc import env
from mc.core import Violation

real_lock = _thread.allocate_lock
real_start = _thread.start_new_thread
get_ident = _thread.get_ident
real_monotonic = time.monotonic
real_sleep = time.sleep

RUN = None
TOOL = 4
MON = sys.monitoring


class Kill(BaseException):
    """Ends a task that is left over at the end of a run."""


class Deadlock(Exception):
    pass


class Task:
    def __init__(self, number, name, main):
        self.number = number
        self.name = name
        self.main = main
        self.baton = real_lock()
        self.baton.acquire()
        self.ready = None        # predicate: the task can go on (None: it is not waiting)
        self.deadline = None     # the time (ns) at which the wait ends anyway
        self.timed_out = False
        self.done = False
        self.killed = 0
        self.error = None
        self.result = None
        self.where = 'start'
        self.thread = None
        self.ident = None
        self.settling = False


class Run:
    """One execution under a schedule."""

    def __init__(self, schedule, limits, state=None):
        self.schedule = dict(schedule)     # index of the choice -> option
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.choices = []                  # number of options of each choice
        self.places = []
        self.forced = []                   # the choices that are not a preemption
        self.points = 0
        self.status = None
        self.over = real_lock()
        self.over.acquire()
        self.killing = False
        self.quiet = False                 # no points at accesses (blocking and locks remain)
        self.gone = real_lock()
        self.gone.acquire()
        self.timers = 0
        self.free_timers = 0
        self.max_points = limits.get('points', 60000)
        self.max_timers = limits.get('timers', 0)
        self.max_free_timers = limits.get('free_timers', 400)
        self.diverged = False
        self.state = state
        self.states = set()
        self.log = [] if limits.get('log') else None

    # --- tasks

    def spawn(self, fn, name, main):
        task = Task(len(self.tasks), name, main)
        self.tasks.append(task)

        registered = real_lock()
        registered.acquire()

        def body():
            task.ident = get_ident()
            self.by_ident[task.ident] = task
            registered.release()
            task.baton.acquire()
            try:
                task.result = fn()
            except Kill:
                pass
            except BaseException as e:
                task.error = e
            finally:
                task.done = True
                self.by_ident.pop(task.ident, None)
                if self.killing:
                    self.gone.release()
                else:
                    self.leave(task)
        real_start(body, ())
        registered.acquire()
        return task

    def leave(self, task):
        task.where = 'done'
        nxt = self.choose(task, False)
        if nxt is None:
            self.over.release()
        else:
            self.current = nxt
            nxt.baton.release()

    # --- scheduling

    def choose(self, cur, can_continue):
        """The task to run next, None when the run is over."""
        self.points += 1
        if self.points > self.max_points:
            self.status = 'limit'
            return None
        options = []
        if can_continue:
            options.append(cur)
        waiting = []
        for t in self.tasks:
            if t.done or (t is cur and can_continue):
                continue
            if t.ready is None or t.ready():
                options.append(t)
            elif t.deadline is not None:
                waiting.append(t)
        if not options:
            mains = [t for t in self.tasks if t.main and not t.done]
            if not mains:
                self.status = 'finished'
                return None
            if not waiting or self.free_timers >= self.max_free_timers:
                self.status = 'deadlock'
                return None
            # nothing can run until time passes
            first = min(waiting, key=lambda t: (t.deadline, t.number))
            self.free_timers += 1
            self.fire(first)
            return first
        n_run = len(options)
        if self.timers < self.max_timers:
            options += waiting
        if len(options) > 1:
            index = len(self.choices)
            self.choices.append(len(options))
            self.places.append((cur.number, cur.where))
            self.forced.append(not can_continue)
            choice = self.schedule.get(index, 0)
            if choice >= len(options):
                self.diverged = True
                choice = 0
            chosen = options[choice]
            if choice >= n_run:
                self.timers += 1
                self.fire(chosen)
        else:
            chosen = options[0]
        self.states.add(hash((tuple([(t.where if not t.done else None) for t in self.tasks]), chosen.number,
                              self.state() if self.state else None)))
        if self.log is not None:
            self.log.append((chosen.number, cur.number, cur.where, len(options)))
        return chosen

    @staticmethod
    def fire(task):
        task.timed_out = True
        env.clock.now_ns = max(env.clock.now_ns, task.deadline)
        task.deadline = None
        task.ready = None

    def hand(self, cur, nxt):
        if nxt is cur:
            return
        if nxt is None:
            # the run is over: the controller takes over, this task is only resumed to be killed
            self.over.release()
        else:
            self.current = nxt
            nxt.baton.release()
        cur.baton.acquire()
        if cur.killed:
            raise Kill()

    def point(self, cur, where):
        if self.killing:
            return
        cur.where = where
        self.hand(cur, self.choose(cur, True))

    def block(self, cur, ready, timeout=None, where=None):
        """Wait until ready(). Returns False if the timeout has passed."""
        if self.killing:
            cur.killed += 1
            if cur.killed > 60:
                # it never ends: leave it behind
                self.gone.release()
                real_forever()
            raise Kill()
        if ready():
            return True
        if timeout is not None and timeout <= 0:
            return False
        if where is not None:
            cur.where = where
        cur.ready = ready
        cur.timed_out = False
        cur.deadline = None if timeout is None else env.clock.now_ns + int(timeout * 1e9)
        try:
            self.hand(cur, self.choose(cur, False))
        finally:
            cur.ready = None
            cur.deadline = None
        return not cur.timed_out

    # --- control

    def execute(self, mains, hang=60):
        """Run the main tasks [(name, function)] until nothing is left to do."""
        global RUN
        RUN = self
        gc_was = gc.isenabled()
        gc.disable()
        try:
            for name, fn in mains:
                self.spawn(fn, name, True)
            first = self.tasks[0]
            self.current = first
            first.baton.release()
            if not self.over.acquire(timeout=hang):
                self.status = 'hang'
            return self.status
        finally:
            if gc_was:
                gc.enable()

    def finish(self):
        """End the tasks that are left."""
        global RUN
        self.killing = True
        if self.status != 'hang':
            for t in self.tasks:
                if not t.done:
                    t.killed = 1
                    t.ready = None
                    t.baton.release()
                    if not self.gone.acquire(timeout=20):
                        break
        RUN = None


def real_forever():
    lock = real_lock()
    lock.acquire()
    lock.acquire()


def current():
    """(run, task) of the calling thread, or (None, None)."""
    run = RUN
    if run is None:
        return None, None
    task = run.by_ident.get(get_ident())
    return (run, task) if task is not None else (None, None)


def point(where='check'):
    """A scheduling point of the check."""
    run, task = current()
    if task is not None and not run.quiet:
        run.point(task, where)


def wait_until(predicate, where='check-wait'):
    run, task = current()
    if task is not None:
        while not predicate():
            run.block(task, predicate, None, where)


def settle():
    """Wait until no other task can go on (without time passing)."""
    run, task = current()
    if task is None:
        return

    def settled():
        return all(t is task or t.done or t.settling or (t.ready is not None and not t.ready()) for t in run.tasks)
    task.settling = True
    try:
        run.block(task, settled, None, 'settle')
    finally:
        task.settling = False


# --- the primitives

QUIET = ('threading', 'queue', 'concurrent.futures', '_pydatetime', 'logging')


class Lock:
    """threading.Lock."""

    def __init__(self):
        self._holder = None
        name = sys._getframe(1).f_globals.get('__name__', '')
        self._quiet = name.startswith(QUIET)

    def _free(self):
        return self._holder is None

    def acquire(self, blocking=True, timeout=-1):
        run, task = current()
        if task is None:
            if self._holder is None:
                self._holder = get_ident()
                return True
            if blocking and timeout == -1:
                raise Deadlock('lock is held outside of a run')
            return False
        if not self._quiet and not run.quiet:
            run.point(task, 'acquire')
        if self._holder is not None:
            if not blocking:
                return False
            wait = None if timeout == -1 else timeout
            while self._holder is not None:
                if not run.block(task, self._free, wait, task.where):
                    if self._holder is not None:
                        return False
        self._holder = get_ident()
        return True

    def release(self):
        if self._holder is None:
            raise RuntimeError('release unlocked lock')
        self._holder = None

    def locked(self):
        return self._holder is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._holder = None

    acquire_lock, release_lock, locked_lock = acquire, release, locked


class RLock:
    """threading.RLock."""

    def __init__(self):
        self._holder = None
        self._count = 0
        name = sys._getframe(1).f_globals.get('__name__', '')
        self._quiet = name.startswith(QUIET)

    def _free(self):
        return self._holder is None

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._holder == me:
            self._count += 1
            return True
        run, task = current()
        if task is None:
            if self._holder is None:
                self._holder, self._count = me, 1
                return True
            if blocking and timeout == -1:
                raise Deadlock('lock is held outside of a run')
            return False
        if not self._quiet and not run.quiet:
            run.point(task, 'acquire')
        if self._holder is not None:
            if not blocking:
                return False
            wait = None if timeout == -1 else timeout
            while self._holder is not None:
                if not run.block(task, self._free, wait, task.where):
                    if self._holder is not None:
                        return False
        self._holder, self._count = me, 1
        return True

    def release(self):
        if self._holder != get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._holder = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._holder == get_ident()

    def _release_save(self):
        state = (self._count, self._holder)
        self._count, self._holder = 0, None
        return state

    def _acquire_restore(self, state):
        run, task = current()
        if task is not None and self._holder is not None:
            while self._holder is not None:
                run.block(task, self._free, None, task.where)
        self._count, self._holder = state

    def _recursion_count(self):
        return self._count if self._holder == get_ident() else 0

    def _at_fork_reinit(self):
        self._holder, self._count = None, 0


def start_new_thread(function, args=(), kwargs=None):
    run, task = current()
    if task is None or run.killing:
        if run is not None:
            raise RuntimeError('the run is over')
        return real_start(function, args, kwargs or {})
    thread = getattr(function, '__self__', None)
    name = thread.name if isinstance(thread, threading.Thread) else 'thread'
    new = run.spawn(lambda: function(*args, **(kwargs or {})), name, False)
    new.thread = thread if isinstance(thread, threading.Thread) else None
    if not run.quiet:
        run.point(task, 'thread-start')
    return new.ident


def _task_of(thread):
    run = RUN
    if run is not None:
        for t in run.tasks:
            if t.thread is thread:
                return t
    return None


def sleep(seconds):
    run, task = current()
    if task is None:
        env.clock.now_ns += int(seconds * 1e9)
        return
    run.block(task, lambda: False, max(seconds, 1e-9), 'sleep')


def monotonic():
    if current()[1] is not None:
        return (env.clock.now_ns - env.START_NS) / 1e9 + 1000.0
    return real_monotonic()


def _excepthook(args):
    run, task = current()
    if task is not None and task.error is None and not isinstance(args.exc_value, Kill):
        task.error = args.exc_value


def patch():
    """Replace the primitives. Has to run before concurrent.futures or the agent is imported."""
    assert 'concurrent.futures.thread' not in sys.modules and 'deep' not in sys.modules
    threading.Lock = threading._allocate_lock = Lock
    threading.RLock = threading._CRLock = RLock
    threading._PyRLock = RLock
    threading._start_new_thread = start_new_thread
    threading._time = monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    time.sleep = sleep
    time.monotonic = monotonic
    threading.excepthook = _excepthook
    join, is_alive = threading.Thread.join, threading.Thread.is_alive

    def controlled_join(self, timeout=None):
        run, task = current()
        other = _task_of(self) if task is not None else None
        if other is None:
            return join(self, timeout)
        if other is task:
            raise RuntimeError('cannot join current thread')
        run.point(task, 'join')
        run.block(task, lambda: other.done, timeout, 'join')

    def controlled_is_alive(self):
        other = _task_of(self)
        if other is None:
            return is_alive(self)
        return not other.done

    threading.Thread.join = controlled_join
    threading.Thread.is_alive = controlled_is_alive


# --- scheduling points in the code of the agent

MUTATORS = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'remove', 'pop', 'popleft', 'popitem', 'clear', 'add',
            'discard', 'update', 'setdefault', 'sort', 'reverse', 'difference_update', 'intersection_update', '__setitem__',
            '__delitem__', '__setattr__', '__delattr__', 'put', 'put_nowait', 'get_nowait', 'set', 'rotate', 'move_to_end'}
ITEMS = {'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'CONTAINS_OP', 'FOR_ITER', 'STORE_GLOBAL', 'BINARY_SLICE',
         'STORE_SLICE', 'STORE_DEREF', 'DELETE_GLOBAL'}
WRITES = {'STORE_ATTR', 'DELETE_ATTR', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SLICE',
          'DELETE_GLOBAL'}
_POINTS = {}


def _walk(code, found):
    if code not in found:
        found.add(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                _walk(const, found)


def _codes(module):
    found = set()

    def of(value, depth=0):
        if isinstance(value, types.FunctionType):
            if value.__module__ == module.__name__:
                _walk(value.__code__, found)
                wrapped = getattr(value, '__wrapped__', None)
                if wrapped is not None:
                    of(wrapped)
        elif isinstance(value, (staticmethod, classmethod)):
            of(value.__func__)
        elif isinstance(value, property):
            for f in (value.fget, value.fset, value.fdel):
                of(f)
        elif isinstance(value, type) and value.__module__ == module.__name__ and depth < 3:
            for v in list(vars(value).values()):
                of(v, depth + 1)
    for v in list(vars(module).values()):
        of(v)
    return found


def _changed_names(modules):
    """The names of attributes (and globals) that are changed after construction, by any code of the agent."""
    names = set()
    for module in modules:
        for code in _codes(module):
            last = None
            line = []
            for ins in dis.get_instructions(code):
                if ins.starts_line is not None:
                    line = []
                if ins.opname in ('LOAD_ATTR', 'LOAD_GLOBAL', 'LOAD_METHOD'):
                    if ins.opname != 'LOAD_GLOBAL' and ins.argval in MUTATORS and last is not None:
                        names.add(last)
                    line.append(ins.argval)
                    last = ins.argval
                elif ins.opname in ('STORE_ATTR', 'DELETE_ATTR'):
                    if code.co_name != '__init__':
                        names.add(ins.argval)
                    last = None
                elif ins.opname in ('STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_SLICE'):
                    names.update(line)
                elif ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                    names.add(ins.argval)
                elif ins.opname == 'BINARY_OP' and '=' in (ins.argrepr or ''):
                    names.update(line)
                elif ins.opname not in ('CACHE', 'EXTENDED_ARG', 'BINARY_SUBSCR', 'PUSH_NULL', 'COPY'):
                    last = None
    return names


def _points_of(code, fine, changed):
    """
    The places before accesses of state that can be shared: (the first of a line, and again before each write).

    An attribute that no code changes after construction is not a place, as no order of such accesses makes a difference.
    """
    points = {}
    line = None
    seen = logs = False
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None and ins.starts_line != line:
            line = ins.starts_line
            seen = logs = False
        if ins.opname == 'LOAD_GLOBAL' and ins.argval in ('logging', 'deep') and not seen:
            # nothing is shared by what is only logged
            logs = True
        if logs:
            continue
        if ins.opname in ('LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'LOAD_METHOD'):
            access = ins.argval in changed or ins.argval in MUTATORS
        elif ins.opname in ('LOAD_GLOBAL', 'STORE_GLOBAL'):
            access = ins.argval in changed
        else:
            access = ins.opname in ITEMS
        if access and not seen:
            points[ins.offset] = '%s:%s' % (code.co_name, line)
            seen = True
        elif fine and seen and (ins.opname in WRITES or ins.opname in ('CALL', 'CALL_FUNCTION_EX')):
            points[ins.offset] = '%s:%s+%d' % (code.co_name, line, ins.offset)
    return points


def _event(code, offset):
    where = _POINTS[code].get(offset)
    if where is None:
        return MON.DISABLE
    run = RUN
    if run is None:
        return None
    task = run.by_ident.get(get_ident())
    if task is not None and not run.killing and not run.quiet:
        run.point(task, where)
    return None


def instrument(modules, fine=True):
    """Make the accesses of shared state in the code of the modules scheduling points."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, 'mc')
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _event)
    clear()
    for name in modules:
        __import__(name)
    changed = _changed_names([m for n, m in list(sys.modules.items()) if n == 'deep' or n.startswith('deep.')])
    for name in modules:
        for code in _codes(sys.modules[name]):
            points = _points_of(code, fine, changed)
            if points:
                _POINTS[code] = points
                MON.set_local_events(TOOL, code, MON.events.INSTRUCTION)
    MON.restart_events()


def clear():
    for code in _POINTS:
        MON.set_local_events(TOOL, code, 0)
    _POINTS.clear()


# --- exploration

class Explorer:
    """
    Enumerates the schedules of a scenario that deviate at most `bound` times from the default.

    The bound is a number of deviations, or (preemptions, other choices when the running task cannot go on).
    """

    def __init__(self, scenario, bound, limits=None, part=0, parts=1, max_runs=None):
        self.scenario = scenario
        self.bound = bound
        self.limits = limits or {}
        self.part, self.parts = part, parts
        self.max_runs = max_runs
        self.runs = 0
        self.complete = True

    def __call__(self, rec):
        stack = [((), 0, 0)]
        while stack:
            prefix, preempted, switched = stack.pop()
            if self.max_runs is not None and self.runs >= self.max_runs:
                self.complete = False
                rec.count('capped')
                return
            choices, forced = self.one(prefix, rec)
            first = prefix[-1][0] + 1 if prefix else 0
            new = []
            for i in range(first, len(choices)):
                if not prefix and i % self.parts != self.part:
                    continue
                p, f = (preempted, switched + 1) if forced[i] else (preempted + 1, switched)
                if (p + f <= self.bound) if isinstance(self.bound, int) else (p <= self.bound[0] and f <= self.bound[1]):
                    for o in range(1, choices[i]):
                        new.append((prefix + ((i, o),), p, f))
            stack.extend(reversed(new))

    def one(self, prefix, rec):
        env.clock.reset()
        env.net.reset()
        scenario = self.scenario()
        run = Run(prefix, self.limits, getattr(scenario, 'state', None))
        self.runs += 1
        try:
            status = run.execute(scenario.tasks(run))
            try:
                scenario.judge(run, status)
            except Violation as v:
                v.case = describe(run, prefix), v.case
                v.detail = '%s | %s' % (getattr(scenario, 'name', ''), v.detail)
                raise
        finally:
            run.finish()
        if run.diverged:
            rec.count('diverged')
        if prefix or self.part == 0:
            rec.step(run.points)
            rec.states |= run.states
            rec.trace(lambda: '%s schedule %s: %s, %d points' % (getattr(scenario, 'name', ''), prefix, status,
                                                                 run.points))
        rec.maximum('choices', len(run.choices))
        rec.maximum('tasks', len(run.tasks))
        return run.choices, run.forced


def batches(specs, sizes, parts):
    """Divide the specs (spec, bound) into units: batches of specs with a small bound, parts of those with a large one."""
    batch = {}
    large = []
    for spec, bound in specs:
        if bound in sizes:
            batch.setdefault(bound, []).append((spec, bound))
            if len(batch[bound]) == sizes[bound]:
                yield batch.pop(bound), 0, 1
        else:
            large.append((spec, bound))
    for spec, bound in large:
        for part in range(parts[bound]):
            yield [(spec, bound)], part, parts[bound]
    for rest in batch.values():
        yield rest, 0, 1


def describe(run, prefix):
    return {'deviations': [(i, o, run.places[i] if i < len(run.places) else None) for i, o in prefix],
            'tasks': [t.name for t in run.tasks], 'status': run.status,
            'at': [(t.number, t.where) for t in run.tasks if not t.done]}
