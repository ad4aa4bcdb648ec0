"""
Runner of the checks: enumerates the units of a check, runs them in worker processes and collects what they report.

A unit is a (small, picklable) description of a part of the explored space. Units are run by forked workers, so a unit
that hangs or kills its process is noticed (and reported) by the parent.
"""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_REPORTED = 5
# key -> text of the known findings of the property
KNOWN = {}


def digest(value) -> int:
    """A stable 64 bit digest of a canonical (repr-able) value."""
    return int.from_bytes(hashlib.blake2b(repr(value).encode('utf-8', 'backslashreplace'), digest_size=8).digest(),
                          'big')


class Rec:
    """What a unit reports: measured counts, samples and violations."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.known = {}
        self.samples = []
        self.extra = {}

    def state(self, canonical):
        """Record an (abstract) state that was reached, given by its canonical value."""
        self.states.add(digest(canonical))

    def step(self, n=1):
        """Record transitions: operations or events or scheduling steps executed by the real code."""
        self.transitions += n

    def trace(self, sample=None):
        """Record a complete execution of the real code that was judged."""
        self.traces += 1
        if sample is not None and (self.traces in (1, 7, 50, 400)) and len(self.samples) < 4:
            self.samples.append(str(sample() if callable(sample) else sample)[:1500])

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def maximum(self, name, n):
        self.extra['max:' + name] = max(self.extra.get('max:' + name, 0), n)

    def violation(self, key, detail, case=None):
        """
        Report a violation.

        :param key: short stable identification of what fails (used to match known findings)
        :param detail: description for people
        :param case: the case (for the replay file)
        """
        if key in KNOWN:
            self.count('known_findings')
            self.known.setdefault(key, str(detail)[:1000])
            return
        self.count('violations')
        if len(self.violations) < MAX_REPORTED:
            self.violations.append({'key': key, 'detail': str(detail)[:4000], 'case': repr(case)[:8000]})


class Violation(Exception):
    """Raise in a check to report a violation and abandon the case."""

    def __init__(self, key, detail='', case=None):
        super().__init__(key, detail)
        self.key, self.detail, self.case = key, detail, case


def run_unit(module, unit, tier):
    rec = Rec()
    try:
        module.run_unit(unit, rec, tier)
    except Violation as v:
        rec.violation(v.key, v.detail, v.case)
    except BaseException:
        rec.violation('unexpected-error', traceback.format_exc()[-3500:], unit)
    return rec


def _worker(module, tier, conn):
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('MC_DEBUG'):
        os.dup2(devnull, 2)
    while True:
        unit = conn.recv()
        if unit is None:
            os._exit(0)
        rec = run_unit(module, unit[1], tier)
        conn.send((unit[0], rec))


class _Proc:
    def __init__(self, ctx, module, tier):
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=_worker, args=(module, tier, child), daemon=False)
        self.proc.start()
        child.close()
        self.unit = None
        self.since = 0

    def kill(self):
        self.proc.kill()
        self.proc.join(5)
        self.conn.close()


def run_units(module, units, tier, budget, jobs=8):
    """Run all units. Returns the merged record, and True if all of them have been run."""
    unit_limit = getattr(module, 'UNIT_LIMIT', {}).get(tier, 240 if tier == 'quick' else 1800)
    total = Rec()
    total.per_unit_states = 0
    start = _time.monotonic()
    ctx = mp.get_context('fork')
    todo = list(enumerate(units))
    todo.reverse()
    jobs = max(1, min(jobs, len(todo)))
    procs = []
    complete = True

    def merge(rec, unit):
        for v in rec.violations:
            v['unit'], v['unit_text'] = unit[0], repr(unit[1])[:1000]
        total.states |= rec.states
        total.transitions += rec.transitions
        total.traces += rec.traces
        for k, v in rec.extra.items():
            total.extra[k] = max(total.extra.get(k, 0), v) if k.startswith('max:') else total.extra.get(k, 0) + v
        if len(total.samples) < 6:
            total.samples += rec.samples[:2]
        total.violations += rec.violations
        total.known.update(rec.known)

    def give(p):
        nonlocal complete
        if todo and (_time.monotonic() - start < budget) and len(total.violations) < 3:
            p.unit = todo.pop()
            p.since = _time.monotonic()
            p.conn.send(p.unit)
            return True
        if todo:
            complete = False
        p.unit = None
        return False

    for _ in range(jobs):
        p = _Proc(ctx, module, tier)
        procs.append(p)
        give(p)
    while True:
        busy = [p for p in procs if p.unit is not None]
        if not busy:
            break
        ready = mp.connection.wait([p.conn for p in busy], timeout=1.0)
        now = _time.monotonic()
        for p in busy:
            if p.conn in ready:
                try:
                    _, rec = p.conn.recv()
                    merge(rec, p.unit)
                    if os.environ.get('MC_TIMES'):
                        print('%6.1fs %s traces=%d' % (now - p.since, str(p.unit[1])[:100], rec.traces), flush=True)
                    give(p)
                except (EOFError, OSError):
                    p.proc.join(5)
                    r = Rec()
                    r.violation('process-died', 'the process running the unit died: exit code %s' % p.proc.exitcode,
                                p.unit[1])
                    merge(r, p.unit)
                    procs.remove(p)
                    p.conn.close()
                    q = _Proc(ctx, module, tier)
                    procs.append(q)
                    give(q)
            elif now - p.since > unit_limit:
                r = Rec()
                r.violation('hang', 'no result of the unit after %d seconds' % unit_limit, p.unit[1])
                merge(r, p.unit)
                p.kill()
                procs.remove(p)
                q = _Proc(ctx, module, tier)
                procs.append(q)
                give(q)
    for p in procs:
        try:
            p.conn.send(None)
        except OSError:
            pass
    for p in procs:
        p.proc.join(2)
        if p.proc.is_alive():
            p.kill()
    return total, complete


def load_known(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                known.append(line.split(' ', 2)[2])
    return known


def replay(prop, module, path):
    """Run the unit of a replay file again, in this process (the exploration of a unit is deterministic)."""
    saved = json.load(open(path))
    units = list(module.units(saved['tier']))
    if saved['unit'] >= len(units) or repr(units[saved['unit']])[:1000] != saved['unit_text']:
        print('the units of the check are not those of the replay file')
        return 2
    KNOWN.update({k.split(' ')[0]: k for k in load_known(prop)})
    rec = run_unit(module, units[saved['unit']], saved['tier'])
    for v in rec.violations:
        print('%s property=%s key=%s\n  %s\n  case: %s' % (
            'REPRODUCED' if v['key'] == saved['key'] else 'ALSO', prop, v['key'], v['detail'], v['case']))
    if not rec.violations:
        print('the unit has no violation')
    return 1 if rec.violations else 0


def main(prop, module, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    started = _time.monotonic()
    if '--replay' in argv:
        return replay(prop, module, argv[argv.index('--replay') + 1])
    units = list(module.units(tier))
    if '--unit' in argv:
        want = argv[argv.index('--unit') + 1]
        units = [u for u in units if want in repr(u)]
    every = int(os.environ.get('MC_EVERY', '1'))
    if every > 1:      # only for trying many changed versions of the agent: a part of the units of each kind
        kinds = {}
        for u in units:
            kinds.setdefault(str(u[0])[:12], []).append(u)
        units = [u for us in kinds.values() for u in (us[::every] if len(us) > 2 else us)]
    budget = getattr(module, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 3000)
    jobs = int(os.environ.get('MC_JOBS', '8'))
    KNOWN.update({k.split(' ')[0]: k for k in load_known(prop)})
    total, complete = run_units(module, units, tier, budget, jobs)
    alarms = total.violations
    for key in total.known:
        print('KNOWN-FINDING: property=%s %s' % (prop, KNOWN[key]))
    coverage = {
        'states': len(total.states),
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'samples': [str(s)[:1500] for s in total.samples] or [str(u)[:500] for u in units[:3]],
        'exhaustive_within_bounds': complete and not alarms,
        'bounds': getattr(module, 'BOUNDS', {}).get(tier, ''),
        'units': len(units),
        'rule': getattr(module, 'RULE', ''),
    }
    coverage.update({k.replace('max:', 'max_'): v for k, v in total.extra.items()})
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
                'wall_s': round(_time.monotonic() - started, 3)}
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if not complete and not alarms:
        print('INCOMPLETE property=%s: the time budget ended before all units were run' % prop)
    print('%s %s: states=%d transitions=%d traces=%d units=%d %.1fs %s' % (
        prop, tier, len(total.states), total.transitions, total.traces, len(units), evidence['wall_s'], total.extra))
    if alarms:
        for i, v in enumerate(alarms[:MAX_REPORTED]):
            path = os.path.join('evidence', 'replays', '%s-%d.json' % (prop, i))
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump({'property': prop, 'tier': tier, **v}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  key: %s' % v['key'])
            print('  %s' % v['detail'][:1200].replace('\n', '\n  '))
            if i == 0:
                print('  case: %s' % v['case'][:1500])
        return 1
    return 0
