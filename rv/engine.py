"""Runs a property's workload in parallel shards, watches it with the property's monitors, and reports a verdict.

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 (violated, with a replayable witness) and
exit 2 (inconclusive: a monitor was never reached, or the harness itself could not run).
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')

SHARDS = 8
CASE_CPU_S = 30          # a case takes milliseconds; this is CPU time of the process, so machine load does not matter
WALL_S = {'quick': 600, 'thorough': 3 * 3600}


class Violation(Exception):
    def __init__(self, message, **detail):
        super().__init__(message)
        self.message = message
        self.detail = detail


class KnownFinding(Exception):
    """The observed failure is the mechanism listed under this key in known_findings.txt."""

    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


class Inconclusive(Exception):
    pass


class Hang(BaseException):
    """The code under test used far more steps or CPU time than it can need. BaseException: not swallowed."""


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), 'big')


class Monitor:
    """What the monitors observed: event counters, distinct non-trivial cases/states, samples, violations."""

    def __init__(self):
        self.counts = {}
        self.distinct = set()
        self.sets = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.lines = set()

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def nontrivial(self, key):
        self.distinct.add(h64(key))

    def seen(self, kind, key):
        """Distinct values of something worth reporting (states, interleavings, outcomes)."""
        s = self.sets.setdefault(kind, set())
        if len(s) < 200000:
            s.add(h64(key))

    def ensure(self, cond, message, **detail):
        self.count('assertions')
        if not cond:
            raise Violation(message, **detail)

    def merge(self, other):
        for k, v in other.counts.items():
            self.count(k, v)
        self.distinct |= other.distinct
        for k, v in other.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.samples.extend(other.samples)
        self.violations.extend(other.violations)
        self.known.update(other.known)
        self.lines |= other.lines


def import_target():
    """Imports melodia from /repo's working tree, never from a cached or installed copy."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache-prefix'
    sys.path[:] = [SRC] + [p for p in sys.path if os.path.abspath(p or '.') != SRC]
    try:
        import melodia
        import melodia.core
        import melodia.io.midi
        import melodia.music.chord
        import melodia.processing.track
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: melodia could not be imported')
        sys.exit(2)
    if not os.path.abspath(melodia.__file__).startswith(SRC + os.sep):
        print('INCONCLUSIVE: melodia was imported from', melodia.__file__)
        sys.exit(2)


class LineCoverage:
    """Records which lines of melodia the workload reached (each line event fires once, so it costs nothing)."""
    TOOL = 3

    def __init__(self, lines):
        self.lines = lines

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'rv-coverage')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        if code.co_filename.startswith(SRC):
            self.lines.add((code.co_filename[len(SRC) + 1:], line))
        return sys.monitoring.DISABLE


def _in_target(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(SRC) or f.startswith(os.path.join(REPO, 'scripts')):
            return True
        tb = tb.tb_next
    return False


def run_case(prop, case, mon):
    """Runs one case; returns None or a violation record."""
    limit = (case.get('cpu_s') if isinstance(case, dict) else None) or getattr(prop, 'case_cpu_s', CASE_CPU_S)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        prop.run(case, mon)
        return None
    except Violation as e:
        return {'message': e.message, 'detail': {k: repr(v)[:2000] for k, v in e.detail.items()}}
    except KnownFinding as e:
        mon.known[e.key] = e.message
        mon.count('known_finding_observations')
        return None
    except Hang as e:
        return {'message': 'the operation did not finish: ' + str(e), 'detail': {'trace': traceback.format_exc()[-2000:]}}
    except Inconclusive:
        raise
    except (MemoryError, OSError) as e:
        if _in_target(e.__traceback__):
            return {'message': f'unexpected {type(e).__name__}: {e}', 'detail': {'trace': traceback.format_exc()[-2000:]}}
        raise Inconclusive(f'environment: {e!r}')
    except Exception as e:
        return {'message': f'unexpected {type(e).__name__}: {str(e)[:300]}',
                'detail': {'trace': traceback.format_exc()[-3000:]}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _on_alarm(signum, frame):
    raise Hang('CPU time limit of the case')


def shrink(prop, case, limit=400, seconds=10):
    """Greedy removal of list elements while the case still fails; witness readability only."""
    if not getattr(prop, 'shrinkable', True):
        return case
    deadline = time.time() + seconds
    tries = 0

    def lists(o, path=()):
        if isinstance(o, dict):
            for k, v in o.items():
                yield from lists(v, path + (k,))
        elif isinstance(o, list):
            if len(o) > 0:
                yield path
            for i, v in enumerate(o):
                if isinstance(v, (list, dict)):
                    yield from lists(v, path + (i,))

    def get(o, path):
        for p in path:
            o = o[p]
        return o

    shrink_keys = getattr(prop, 'shrink_keys', ())
    changed = True
    while changed and tries < limit and time.time() < deadline:
        changed = False
        for path in list(lists(case)):
            if not path or path[-1] not in shrink_keys:
                continue
            n = len(get(case, path))
            step = max(1, n // 2)
            while step >= 1 and tries < limit and time.time() < deadline:
                i = 0
                while i < len(get(case, path)) and tries < limit and time.time() < deadline:
                    cand = json.loads(json.dumps(case))
                    lst = get(cand, path)
                    del lst[i:i + step]
                    tries += 1
                    try:
                        r = run_case(prop, cand, Monitor())
                    except Inconclusive:
                        r = None
                    if r is not None and not r['message'].startswith('unexpected'):
                        case = cand
                        changed = True
                    else:
                        i += step
                step //= 2
    return case


def run_shard(prop, shard, seed, tier):
    mon = Monitor()
    cov = LineCoverage(mon.lines)
    if getattr(prop, 'coverage', True):
        cov.start()
    signal.signal(signal.SIGVTALRM, _on_alarm)
    if getattr(prop, 'long_ints', False):
        sys.set_int_max_str_digits(0)            # only so that messages and cases with long integers can be printed
    memory = getattr(prop, 'memory', 6 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    rng = random.Random(f'{prop.id}/{seed}/{shard}')
    n = max(1, int(prop.budget[tier] * float(os.environ.get('RV_SCALE') or 1)))     # tools/mutate.py only
    error = None
    done = 0
    try:
        for case in prop.cases(rng, n, shard, tier):
            done += 1
            mon.count('evaluations')
            if len(mon.samples) < 1 and done > 3 and len(repr(case)) < 1500:
                mon.samples.append(case)
            r = run_case(prop, case, mon)
            if r is not None:
                small = shrink(prop, case)
                if small is not case:
                    r2 = None
                    try:
                        r2 = run_case(prop, small, Monitor())
                    except Inconclusive:
                        pass
                    if r2 is not None:
                        case, r = small, r2
                r['case'] = case
                mon.violations.append(r)
                break
    except Inconclusive as e:
        error = f'inconclusive: {e}'
    except Exception:
        error = 'harness error: ' + traceback.format_exc()
    return mon, error


def _child(prop, shard, seed, tier, path):
    import pickle
    try:
        res = run_shard(prop, shard, seed, tier)
        with open(path, 'wb') as f:
            pickle.dump(res, f)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        os._exit(3)


def load_known(prop_id):
    """Open entries of known_findings.txt for this property: 'open: property=<id> key=<mechanism> <what fails>'."""
    import re
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop_id:
                known[m.group(2)] = m.group(3)
    return known


def main(props, argv):
    import argparse
    import pickle
    import shutil
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    args = ap.parse_args(argv)
    prop = props[args.property]
    known = load_known(prop.id)
    t0 = time.time()

    if args.replay:
        limit = sys.get_int_max_str_digits()
        sys.set_int_max_str_digits(0)
        rec = json.load(open(args.replay))
        if not getattr(prop, 'long_ints', False):
            sys.set_int_max_str_digits(limit)
        signal.signal(signal.SIGVTALRM, _on_alarm)
        r = run_case(prop, rec['case'], Monitor())
        if r is None:
            print('replay: the property held on this case')
            sys.exit(0)
        print(f'VIOLATION property={prop.id} replay={args.replay}')
        print(r['message'])
        print(json.dumps(r['detail'], indent=1))
        sys.exit(1)

    scratch = tempfile.mkdtemp(prefix='rv-')
    total = Monitor()
    errors = []
    pids = {}
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for shard in range(SHARDS):
            path = os.path.join(scratch, f'{shard}.pickle')
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                work = os.path.join(scratch, f'work{shard}')
                os.mkdir(work)
                os.chdir(work)
                _child(prop, shard, args.seed, args.tier, path)
            pids[pid] = (shard, path)
        deadline = t0 + WALL_S[args.tier]
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline:
                    errors.append(f'wall-clock limit of the run, {len(pids)} shards unfinished')
                    break
                time.sleep(0.01)
                continue
            if pid not in pids:
                continue
            shard, path = pids.pop(pid)
            if not os.path.exists(path) or status != 0:
                errors.append(f'shard {shard} ended with status {status}')
                continue
            with open(path, 'rb') as f:
                mon, err = pickle.load(f)
            total.merge(mon)
            if err:
                errors.append(f'shard {shard}: {err}')
            if mon.violations:
                break
    finally:
        for pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

    sys.set_int_max_str_digits(0)
    unlisted = {k: v for k, v in total.known.items() if k not in known}
    for k, v in unlisted.items():
        total.violations.append({'message': f'{k}: {v}', 'detail': {}, 'case': None})

    missing = []
    if not total.violations:
        for name, least in prop.requires.items():
            got = len(total.sets[name]) if name in total.sets else total.counts.get(name, 0)
            if got < least:
                missing.append(f'{name}: observed {got}, need {least}')

    os.makedirs(EVIDENCE, exist_ok=True)
    files = {}
    for f, _ in total.lines:
        files[f] = files.get(f, 0) + 1
    evidence = {
        'property': prop.id,
        'tier': args.tier,
        'seed': args.seed,
        'level': prop.level,
        'coverage': {
            'evaluations': total.counts.get('evaluations', 0),
            'distinct_nontrivial': len(total.distinct),
            'rule': prop.rule,
            'samples': total.samples[:4],
            'observed_events': {k: v for k, v in sorted(total.counts.items()) if k != 'evaluations'},
            'observed_distinct': {k: len(v) for k, v in sorted(total.sets.items())},
            'melodia_lines_reached': dict(sorted(files.items())),
            'inconclusive': errors + missing,
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(total.violations),
    }
    tmp = os.path.join(EVIDENCE, f'.{prop.id}.tmp')
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVIDENCE, f'{prop.id}.json'))

    if total.violations:
        for i, v in enumerate(total.violations[:3]):
            path = os.path.join(EVIDENCE, f'replay-{prop.id}-{i}.json')
            with open(path, 'w') as f:
                json.dump({'property': prop.id, 'seed': args.seed, 'tier': args.tier, **v}, f, indent=1, default=repr)
            print(f'VIOLATION property={prop.id} replay={path}')
            print('  ' + v['message'])
            for k, d in v['detail'].items():
                print(f'  {k}: {d}')
            print('  case: ' + json.dumps(v['case'], default=repr)[:1500])
        sys.exit(1)
    for k in sorted(total.known):
        print(f'KNOWN-FINDING: property={prop.id} {k}: {known[k]}')
    if errors or missing:
        for e in errors + missing:
            print('INCONCLUSIVE:', e)
        sys.exit(2)
    print(f'{prop.id} held on {evidence["coverage"]["evaluations"]} cases, '
          f'{len(total.distinct)} distinct non-trivial, {total.counts.get("assertions", 0)} assertions, '
          f'{evidence["wall_s"]} s')
    sys.exit(0)


class Prop:
    """One property: cases() makes JSON-able cases from a seeded generator, run() executes and judges one."""
    id = None
    level = 'exploration'
    rule = ''
    assumptions = []
    budget = {'quick': 100, 'thorough': 1000}
    requires = {}
    shrink_keys = ('notes', 'events', 'ops', 'content')

    def cases(self, rng, n, shard, tier):
        raise NotImplementedError

    def run(self, case, mon):
        raise NotImplementedError
