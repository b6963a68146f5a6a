"""The process around the library: what it may not touch, and modes of the interpreter that may not matter."""
import builtins
import decimal
import gc
import io
import locale
import logging
import os
import pickle
import random
import signal
import subprocess
import sys
import sysconfig
import tempfile
import threading
import warnings

from . import smf
from .engine import Inconclusive, Prop
from .gen import G, any_notes
from .p_codec import do, fr, make_op, say_note, say_track
from .p_music import CHORDS

# audit events of things a library of values and bytes has no business doing
FORBIDDEN = ('os.', 'subprocess.', 'socket.', 'shutil.', 'tempfile.', 'ftplib.', 'http.', 'urllib.', 'smtplib.', 'sqlite3.', 'ctypes.', 'mmap.',
             'fcntl.', 'resource.', 'signal.', 'sys.settrace', 'sys.setprofile', 'sys.addaudithook', 'webbrowser.', 'pty.', 'syslog.', 'time.sleep',
             'builtins.input', 'builtins.breakpoint', 'poplib.', 'imaplib.', 'glob.', '_thread.start', 'faulthandler.')
IMPORTING = ('os.listdir', 'os.scandir')         # a module imported late
CODE = ('.py', '.pyc', '.so')
STDLIB = tuple(os.path.realpath(p) for p in {sysconfig.get_paths()['stdlib'], sys.prefix, sys.base_prefix})


class Audit:
    def __init__(self):
        self.events = None
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if self.events is None:
            return
        if event == 'open':
            path, mode, flags = args
            writing = any(c in (mode or '') for c in 'wax+') or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            known = isinstance(path, (str, bytes)) and os.fsdecode(path).endswith(CODE)
            if writing or not known:
                self.events.append((event, repr(path)[:200], mode))
        elif event.startswith(FORBIDDEN) and event not in IMPORTING:
            self.events.append((event, repr(args)[:200]))


_audit = None


def surroundings():
    """Everything of the process a caller could notice, without the random state."""
    return {
        'working directory': os.getcwd(), 'environment': dict(os.environ), 'recursion limit': sys.getrecursionlimit(),
        'limit of digits': sys.get_int_max_str_digits(), 'switch interval': sys.getswitchinterval(),
        'warning filters': list(warnings.filters), 'garbage collection': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'decimal context': repr(decimal.getcontext()), 'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [signal.getsignal(s) for s in sorted(signal.valid_signals())],
        'threads': sorted(t.ident or 0 for t in threading.enumerate()), 'streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'module path': list(sys.path), 'logging': (list(logging.getLogger().handlers), logging.getLogger().level, logging.root.manager.disable),
        'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), sys.gettrace(), sys.getprofile()),
        'builtins': {k: id(v) for k, v in vars(builtins).items() if k not in ('_', '__spec__')},
        'open files': sorted(os.listdir('/proc/self/fd')), 'dont_write_bytecode': sys.dont_write_bytecode,
        'random functions': [id(getattr(random, k)) for k in ('random', 'seed', 'choice')],
    }


class Unusual:
    """The process as a program with ideas of its own would set it up."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        r = self.rng
        digits_limit = sys.get_int_max_str_digits()
        self.kept = (gc.isenabled(), gc.get_threshold(), sys.getswitchinterval(), sys.getrecursionlimit(), decimal.getcontext().copy(),
                     warnings.filters[:], sys.get_int_max_str_digits(), os.environ.get('LC_NUMERIC'), signal.getsignal(signal.SIGUSR1),
                     logging.getLogger().level, locale.setlocale(locale.LC_ALL))
        (gc.disable if r.random() < 0.7 else gc.enable)()
        gc.set_threshold(r.choice((0, 50, 700, 5000)), 7, 3)
        sys.setswitchinterval(r.choice((0.00011, 0.0037, 0.09)))
        sys.setrecursionlimit(sys.getrecursionlimit() + r.randrange(1, 5000))
        decimal.setcontext(decimal.Context(prec=r.choice((1, 5, 50)), rounding=r.choice((decimal.ROUND_UP, decimal.ROUND_FLOOR))))
        warnings.simplefilter(r.choice(('error', 'always')))
        sys.set_int_max_str_digits(digits_limit + 1)
        os.environ['LC_NUMERIC'] = 'C.UTF-8'
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
        logging.getLogger().setLevel(r.choice((logging.DEBUG, logging.CRITICAL)))
        locale.setlocale(locale.LC_ALL, r.choice(('C', 'C.UTF-8')))
        random.seed(r.randrange(1 << 30))

    def __exit__(self, *_):
        enabled, threshold, interval, limit, context, filters, digits, numeric, handler, level, loc = self.kept
        (gc.enable if enabled else gc.disable)()
        gc.set_threshold(*threshold)
        sys.setswitchinterval(interval)
        sys.setrecursionlimit(limit)
        decimal.setcontext(context)
        warnings.filters[:] = filters
        warnings._filters_mutated()
        sys.set_int_max_str_digits(digits)
        os.environ.pop('LC_NUMERIC', None)
        if numeric is not None:
            os.environ['LC_NUMERIC'] = numeric
        signal.signal(signal.SIGUSR1, handler)
        logging.getLogger().setLevel(level)
        locale.setlocale(locale.LC_ALL, loc)


def big_op(g):
    k = g.choice(('big_track', 'big_track', 'big_file', 'big_file', 'big_notation'))
    return {'op': k, 'n': g.choice((300, 1100, 3000, 9000)), 'seed': g.r.randrange(1 << 30)}


def perform(op):
    """do(), and some operations on large inputs."""
    if not op['op'].startswith('big'):
        return do(op)
    try:
        return ('ok', _large(op))
    except Exception as e:
        return ('error', type(e).__name__)


def _large(op):
    from melodia.core import Note, Signature, Tone, Track
    from melodia.io import midi
    r, n = random.Random(op['seed']), op['n']
    if op['op'] == 'big_track':
        t = Track(Signature(3, 4))
        for i in range(n):
            if r.random() < 0.5:
                t.add(Note(r.randrange(-20, 90), (r.randrange(9), 1 << r.randrange(6)), r.random()), (r.randrange(n), 1 << r.randrange(7)))
            else:
                t.add([Note(r.randrange(-20, 90), (1, 4), r.random()) for _ in range(r.choice((0, 1, 3)))])
        return midi.dumps(t), repr(t) if n < 2000 else str(t), len(t), [(fr(p), say_note(x)) for p, x in t], fr(t.length)
    if op['op'] == 'big_file':
        body, running = [], False
        for i in range(n):
            body.append(bytes(r.choice(([0], [r.randrange(128)], [0x80 | r.randrange(1, 128), r.randrange(128)]))))
            k = r.random()
            if k < 0.3 and running:
                body.append(bytes((r.randrange(128), r.randrange(128))))
            elif k < 0.85:
                body.append(bytes((r.choice((0x80, 0x90)) | r.randrange(r.choice((1, 16))), r.randrange(128), r.randrange(128))))
                running = True
            elif k < 0.9:
                body.append(bytes((0xc0 | r.randrange(16), r.randrange(128))))
                running = False
            elif k < 0.95:
                body.append(b'\xf0' + bytes([5]) + bytes(r.randrange(128) for _ in range(5)))
                running = False
            else:
                body.append(b'\xff' + bytes([r.randrange(1, 16), 3]) + b'abc')
                running = False
        body.append(b'\0\xff\x2f\0')
        return say_track(midi.loads(smf.chunk(b'MThd', bytes((0, 0, 0, 1, 0, 96))) + smf.chunk(b'MTrk', b''.join(body))))
    accidentals = ''.join(r.choice('#b') for _ in range(n * 3))
    return Tone.from_notation(r.choice('ABCDEFG') + accidentals + r.choice(('', '-', '0' * 9)) + str(r.randrange(100))).pitch


MODES = ([], ['-O'], ['-OO'], ['-W', 'error'], ['-X', 'dev', '-W', 'error'], ['-b', '-W', 'error'], ['-X', 'utf8=0'])
LOCALES = ('C', 'C.UTF-8', 'POSIX')


def elsewhere(ops, mode, number):
    """(outcomes, printed output, new files) of the operations in a new interpreter started in another way."""
    code = ('import pickle, sys\n'
            'path, ops, out = pickle.load(sys.stdin.buffer)\n'
            'sys.path[:] = path\n'
            'from rv.p_env import perform\n'
            'data = pickle.dumps([perform(o) for o in ops])\n'
            'with open(out, "wb") as f:\n'
            '    f.write(data)\n')
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': str(number), 'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': LOCALES[number % 3]}
    for k in ('VERIF_REPO',):
        if k in os.environ:
            env[k] = os.environ[k]
    with tempfile.TemporaryDirectory(prefix='rv-') as d, tempfile.TemporaryDirectory(prefix='rv-') as d2:
        out = os.path.join(d2, 'out')
        try:
            r = subprocess.run([sys.executable, *mode, '-c', code], input=pickle.dumps(([p or os.getcwd() for p in sys.path], ops, out)),
                               capture_output=True, cwd=d, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            raise Inconclusive('a fresh interpreter took more than 300 s')
        if not os.path.exists(out):
            return None, (r.stdout + r.stderr).decode(errors='replace'), []
        with open(out, 'rb') as f:
            return pickle.load(f), (r.stdout + r.stderr).decode(errors='replace'), os.listdir(d)


class C33(Prop):
    id = 'C33'
    rule = ('operations of every kind (writing, reading intact and damaged files, chords, notation, values, tracks, randomizing, '
            'failing ones) under an audit hook and with snapshots of the process around them, with mutable arguments, and again in '
            'new interpreters with assertions off, without docstrings, with warnings as errors, in development mode and other '
            'locales; non-trivial: distinct operation')
    budget = {'quick': 300, 'thorough': 9000}
    requires = {'operations': 3000, 'snapshots': 3000, 'operations_elsewhere': 1000, 'kinds': 12, 'modes': 7, 'unusual_settings': 3000, 'large': 200, 'mutable_arguments': 1000}
    shrinkable = False
    coverage = False

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            ops = [make_op(g) for _ in range(12)] + [make_op(g, 'state') for _ in range(3)] + [big_op(g)] * (i % 3 == 0)
            notes = any_notes(g, g.r.randint(1, 5), 0, 90, most=6, rare=10)
            yield {'ops': ops, 'notes': notes, 'chord': g.choice(sorted(CHORDS)), 'seed': g.r.randrange(1 << 30),
                   'mode': i // 8 % len(MODES) if i % 8 == 0 else None, 'number': g.r.randrange(1 << 16)}

    def run(self, case, mon):
        global _audit
        if _audit is None:
            _audit = Audit()
        outcomes = [self.watched(op, mon, '') for op in case['ops']]
        with Unusual(random.Random(case['seed'])):
            for op, usual in zip(case['ops'], outcomes):
                mon.ensure(self.watched(op, mon, ', in a program that set up its process in its own way,') == usual,
                           f'{op["op"]} depends on settings of the process')
                mon.count('unusual_settings')
        for op, out in zip(case['ops'], outcomes):
            if op['op'] in ('big_track', 'big_file'):
                mon.ensure(out[0] == 'ok', f'{op["op"]} fails', got=out)
                mon.count('large')
        self.arguments(case, mon)
        if case['mode'] is not None:
            mode = MODES[case['mode']]
            got, printed, files = elsewhere(case['ops'], mode, case['number'])
            how = f'in an interpreter started with {mode}'
            if got is None and 'melodia' not in printed:
                raise Inconclusive('a fresh interpreter failed: ' + printed[-1500:])
            mon.ensure(got is not None, f'{how} the library fails', got=printed[-1500:])
            mon.ensure(not printed, f'{how} something was printed: {printed[:600]!r}')
            mon.ensure(not files, f'{how} files were created: {files}')
            for op, here, there in zip(case['ops'], outcomes, got):
                mon.ensure(here == there, f'{op["op"]} gives something else {how}', got=there, expected=here)
                mon.count('operations_elsewhere')
            mon.seen('modes', case['mode'])

    def watched(self, op, mon, how):
        """The outcome of an operation that nothing else may be noticed of."""
        out, err = io.StringIO(), io.StringIO()
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        state = random.getstate()
        try:
            before = surroundings()
            events = _audit.events = []
            try:
                outcome = perform(op)
            finally:
                _audit.events = None
            after = surroundings()
        finally:
            sys.stdout, sys.stderr = so, se
        mon.count('operations')
        mon.count('snapshots')
        mon.seen('kinds', (op['op'], outcome[0]))
        mon.nontrivial(repr(op))
        mon.ensure(not events, f'{op["op"]}{how} did something outside the library: {events[:3]}')
        mon.ensure(not out.getvalue() and not err.getvalue(), f'{op["op"]}{how} printed {(out.getvalue() + err.getvalue())[:300]!r}')
        changed = [k for k in before if before[k] != after[k]]
        mon.ensure(not changed, f'{op["op"]}{how} changed {changed} of the process',
                   got=[after[k] for k in changed], expected=[before[k] for k in changed])
        if op['op'] != 'level':
            mon.ensure(random.getstate() == state, f'{op["op"]}{how} changed the state of the random module')
        return outcome

    def arguments(self, case, mon):
        """Lists and byte arrays handed to the library stay as they are."""
        from melodia.core import Note, Signature, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        notes = [Note(m[0], list(m[1]), m[2]) for m, _ in case['notes']]
        places = [list(p) if i % 2 else Signature(*p) for i, (_, p) in enumerate(case['notes'])]
        group, content, sig, place, dur = list(notes), [list(x) for x in zip(notes, places)], [6, 8], [3, 4], [5, 16]
        kept = (list(group), [list(x) for x in content], [list(p) if isinstance(p, list) else p for p in places])

        def same(what):
            mon.count('mutable_arguments')
            mon.ensure(len(group) == len(notes) and all(a is b for a, b in zip(group, kept[0])), f'{what} changed a list of notes')
            mon.ensure(len(content) == len(kept[1]) and all(len(a) == 2 and a[0] is b[0] and a[1] is b[1] for a, b in zip(content, kept[1])),
                       f'{what} changed the content list')
            mon.ensure([sig, place, dur] == [[6, 8], [3, 4], [5, 16]] and
                       all(a == b for a, b in zip(places, kept[2])), f'{what} changed a pair')
        t = Track(sig, content)
        same('Track()')
        t.add(group, place)
        same('Track.add()')
        t.add(group)
        same('Track.add()')
        t.add(list(getattr(chord, case['chord'])(notes[0], dur, 0.5)), place)
        same('a chord')
        _ = [n.with_duration(dur) for n in notes], repr(t), list(t), t == Track(sig, content)
        same('deriving')
        randomize_velocities(t)
        same('randomizing')
        small = Track(sig)
        small.add([Note(40 + i) for i in range(len(group))], place)
        data = midi.dumps(small)
        for kind in (bytes, bytearray, memoryview):
            buffer = bytearray(data)
            given = buffer if kind is bytearray else kind(buffer)
            midi.loads(given)
            mon.ensure(bytes(given) == data and buffer == data, 'reading changed the data it was given')
        same('writing and reading')
