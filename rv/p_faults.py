"""Interruptions: an exception raised inside the library at an arbitrary point."""
import io
import random
import signal
import sys
from fractions import Fraction

from . import smf
from .engine import SRC, Hang, Prop
from .gen import G, build_track, case_model, fr, notation, note_model, track_model
from .p_music import CHORDS
from .p_write import expected_events, make_reader, make_writer

GUARD_S = 60                # an operation here takes milliseconds; a lock that is never released would block for ever


class Stop(BaseException):
    """What is raised inside the library; nothing there may handle it."""


class Ctrl(KeyboardInterrupt):
    pass


class Interrupter:
    """Counts the points (lines or instructions of melodia) a call passes and raises at the given one."""

    def __init__(self, at=None, opcodes=False, exc=Stop):
        self.at, self.opcodes, self.exc = at, opcodes, exc
        self.count = 0
        self.where = None
        self.lost = False

    def _global(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.count += 1
            if self.count == self.at:
                self.where = (frame.f_code.co_filename[len(SRC) + 1:], frame.f_lineno)
                raise self.exc('interrupted')
        return self._local

    def run(self, fn):
        """(result, exception) of fn. An exception raised while the interpreter closes a forgotten generator has no caller
        it could reach; the interpreter reports it through unraisablehook."""
        def unraisable(args):
            self.lost = True
        hook, sys.unraisablehook = sys.unraisablehook, unraisable
        sys.settrace(self._global)
        try:
            r = fn()
        except (Stop, Ctrl) as e:
            sys.settrace(None)
            return None, e
        finally:
            sys.settrace(None)
            sys.unraisablehook = hook
        return r, None


def _blocked(signum, frame):
    raise Hang('blocked after an interruption')


class C29(Prop):
    id = 'C29'
    rule = ('every kind of read, write, comparison and computation interrupted by an exception raised inside melodia at a '
            'chosen line or instruction (all points of short operations, a sample of long ones; once or several times in a row), then '
            'everything involved is observed and the operation repeated; every point gets fresh tracks, values, writers and readers; '
            'non-trivial: the exception was raised inside melodia, by place and operation')
    budget = {'quick': 330, 'thorough': 9000}
    requires = {'interruptions': 20000, 'instruction_level': 4000, 'operations': 18, 'places': 150, 'repeated': 1000}
    shrinkable = False
    coverage = False
    OPS = ('iter', 'measure', 'repr', 'eq', 'ne', 'dumps', 'dump', 'dumps_module', 'random', 'load', 'loads', 'loads_channel',
           'loads_module', 'chord', 'notation', 'tones', 'note', 'signature', 'note_order')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            k = g.choice((0, 1, 2, 3, 5, 8, 20))
            notes = [[[g.r.randint(0, 70), [g.r.randint(0, 40), 1 << g.r.randint(0, 5)], round(g.r.uniform(0.1, 1), 3)],
                      [g.r.randint(0, 200), 1 << g.r.randint(0, 6)]] for _ in range(k)]
            yield {'op': self.OPS[i % len(self.OPS)], 'notes': notes, 'seed': g.r.randrange(1 << 30), 'opcodes': g.chance(0.35),
                   'sig': g.choice(([4, 4], [3, 4], [7, 8])), 'points': 60 if tier == 'quick' else 120, 'warm': g.chance(0.3),
                   'times': g.choice((1, 1, 1, 2, 4)), 'ctrl': g.chance(0.5), 'ppq': g.choice((96, 480, 192)), 'mc': ['int', 36],
                   'bpm': g.choice((120.0, 90.0, 61.5)), 'channel': g.r.randrange(16)}

    def variant(self, case, i):
        """Other values of the same shape, so that nothing kept from an earlier point can help."""
        c = dict(case)
        c['notes'] = [[[m[0] + i % 30, [m[1][0] + i % 7, m[1][1]], m[2] * (1 - (i % 97) / 1000)], [p[0] + i, p[1]]]
                      for m, p in case['notes']]
        c['channel'] = (case['channel'] + i) % 16
        c['i'] = i
        return c

    def setup(self, c):
        """(operation, check of its result, check of everything involved) on fresh objects."""
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        op, notes, i = c['op'], c['notes'], c['i']
        model = sorted(case_model(notes))
        length = max((p + d for p, (_, d, _) in model), default=Fraction(0))
        names = {'Track': Track, 'Note': Note}
        t, u = build_track(c['sig'], notes), build_track(c['sig'], list(reversed(notes)))
        other = build_track(c['sig'], notes + [[[5, [1, 4], 0.5], [1, 4]]])
        if c['warm']:
            list(t)
        w, r = make_writer(c), make_reader(c)
        rr = random.Random(c['seed'] + i)

        def holds(x, extra=()):
            want = sorted(model + list(extra))
            got = track_model(x)
            return sorted(got) == want and [p for p, _ in got] == sorted(p for p, _ in got) and len(x) == len(want) and \
                fr(x.length) == max((p + d for p, (_, d, _) in want), default=Fraction(0)) and \
                [x.signature.nominator, x.signature.denominator] == c['sig']

        def file_ok(data, cc=c):
            division, events = smf.strict_decode(data, long_vlq=True)
            got = sorted((at, int(on), key) for at, _, on, key, _ in smf.note_stream(events))
            # a note on with velocity 0 does not occur: velocities are at least 0.09
            return division == cc['ppq'] and got == expected_events(model, cc)

        def untouched():
            return holds(t) and holds(u) and holds(other, [(Fraction(1, 4), (5, Fraction(1, 4), 0.5))]) and \
                t == u and not t == other and file_ok(w.dumps(t))

        if op == 'iter':
            return (lambda: track_model(t)), (lambda x: sorted(x) == model), untouched
        if op == 'measure':
            return (lambda: (len(t), fr(t.length), str(t))), (lambda x: x[:2] == (len(model), length)), untouched
        if op == 'repr':
            return (lambda: repr(t)), (lambda x: holds(eval(x, dict(names)))), untouched
        if op == 'eq':
            return (lambda: (t == u, u == t)), (lambda x: x == (True, True)), untouched
        if op == 'ne':
            return (lambda: (t != other, other == t)), (lambda x: x == (True, False)), untouched
        if op == 'dumps':
            return (lambda: w.dumps(t)), file_ok, untouched
        if op == 'dump':
            f = io.BytesIO(b'head')
            f.seek(4)
            kept = []

            def do():
                kept.append(f.tell())
                w.dump(t, f)
                return f.getvalue()[kept[-1]:]

            def after():
                data = f.getvalue()
                whole = w.dumps(t)
                starts = kept + [len(data)]
                return data[:4] == b'head' and untouched() and \
                    all(whole.startswith(data[a:b]) for a, b in zip(starts, starts[1:]))
            return do, file_ok, after
        if op == 'dumps_module':
            c3 = {**c, 'ppq': 96}
            return (lambda: midi.dumps(t, channel=c['channel'])), (lambda x: file_ok(x, c3)), untouched
        if op == 'random':
            def check(x):
                return sorted((p, n[0], n[1]) for p, n in track_model(x)) == [(p, n[0], n[1]) for p, n in model] \
                    and all(0.1 <= n.velocity <= 0.9 for _, n in x)
            return (lambda: randomize_velocities(t, 0.1, 0.9)), check, untouched
        if op in ('load', 'loads', 'loads_channel', 'loads_module'):
            events, want, at = [], [], 0
            for _ in range(len(notes) + 1):
                gap, dur, key, vel, ch = rr.randrange(3) * 96, rr.randrange(1, 5) * 48, rr.randrange(128), rr.randint(1, 127), rr.choice((0, 3))
                on, off = [gap, 0, 'chan', 0x90 | ch, [key, vel], True], [dur, 0, 'chan', 0x80 | ch, [key, 64], True]
                events += [on, [0, 0, 'chan', 0xB0 | ch, [7, 100], True], off]
                want.append((Fraction(at + gap, 384), key - 24, Fraction(dur, 384), vel, ch))
                at += gap + dur
            data = smf.header(96) + smf.chunk(b'MTrk', smf.encode_body(events))
            only = want[0][4] if op == 'loads_channel' else None
            expected = sorted((p, k, d, round(v / 127, 6)) for p, k, d, v, ch in want if only in (None, ch))

            def check(x):
                return sorted((p, n[0], n[1], round(n[2], 6)) for p, n in track_model(x)) == expected
            call = {'load': lambda: r.load(io.BytesIO(data)), 'loads': lambda: r.loads(data),
                    'loads_channel': lambda: r.loads(data, channel=only), 'loads_module': lambda: midi.loads(data)}[op]
            return call, check, lambda: check(call()) and untouched()
        if op == 'chord':
            name = rr.choice(sorted(CHORDS))
            base = Note(rr.randint(-50, 150), (rr.randint(1, 99), 8), rr.random())
            pitch = base.tone.pitch
            form = rr.choice(('int', 'str', 'note'))
            arg = pitch if form == 'int' else notation(pitch) if form == 'str' else base
            d, v = (base.duration, base.velocity) if form == 'note' else (Signature(1, 4), 0.75)
            want = [(pitch + k, fr(d), v) for k in CHORDS[name]]
            text = repr(base)
            return (lambda: getattr(chord, name)(arg)), (lambda x: [note_model(n) for n in x] == want), \
                (lambda: repr(base) == text)
        if op == 'notation':
            pitch = rr.randint(-200, 400)
            text = notation(pitch)
            return (lambda: (Tone.from_notation(text).pitch, Tone(pitch).to_notation(), Note(text).tone.pitch)), \
                (lambda x: x == (pitch, text, pitch)), (lambda: True)
        if op == 'tones':
            pitch, by = rr.randint(-200, 400), rr.randint(-60, 60)
            tone = Tone(pitch)
            return (lambda: (tone.transposed(by).pitch, tone.octave, tone < Tone(pitch + 1), tone == Tone(pitch), repr(tone), str(tone))), \
                (lambda x: x == (pitch + by, pitch // 12, True, True, f'Tone(pitch={pitch})', notation(pitch))), \
                (lambda: tone.pitch == pitch)
        if op == 'note':
            m = (rr.randint(-50, 150), Fraction(rr.randint(1, 99), 8), rr.random())
            note = Note(m[0], (m[1].numerator, m[1].denominator), m[2])
            return (lambda: [note_model(x) for x in (note.transposed(3), note.with_duration((5, 2)), note.with_velocity(0.25),
                                                     eval(repr(note), dict(names)))]), \
                (lambda x: x == [(m[0] + 3, m[1], m[2]), (m[0], Fraction(5, 2), m[2]), (m[0], m[1], 0.25), m]), \
                (lambda: note_model(note) == m)
        if op == 'signature':
            a, b = Fraction(rr.randint(0, 999), 1 << rr.randint(0, 9)), Fraction(rr.randint(0, 999), 1 << rr.randint(0, 9))
            sa, sb = Signature(a.numerator * 4, a.denominator * 4), Signature(b.numerator, b.denominator)
            return (lambda: (fr(sa + sb), fr(sa * sb), fr(sa.normalized()), fr(sa.to(1 << 20)), sa < sb, sa == sb, sa >= sb)), \
                (lambda x: x == (a + b, a * b, a, a, a < b, a == b, a >= b)), \
                (lambda: (sa.nominator, sa.denominator) == (a.numerator * 4, a.denominator * 4) and fr(sb) == b)
        if op == 'note_order':
            ms = [(rr.randint(0, 2), Fraction(rr.randint(1, 3), 2), rr.choice((0.25, 0.5))) for _ in range(6)]
            ns = [Note(p, (d.numerator * 2, d.denominator * 2), v) for p, d, v in ms]
            return (lambda: [note_model(x) for x in sorted(ns)]), (lambda x: x == sorted(ms)), \
                (lambda: [note_model(n) for n in ns] == ms)
        raise ValueError(op)

    def run(self, case, mon):
        old = signal.signal(signal.SIGALRM, _blocked)
        signal.setitimer(signal.ITIMER_REAL, GUARD_S)
        try:
            self.explore(case, mon)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def explore(self, case, mon):
        op = case['op']
        exc = Ctrl if case['ctrl'] else Stop
        do, good, fine = self.setup(self.variant(case, 0))
        dry = Interrupter(opcodes=case['opcodes'])
        result, e = dry.run(do)
        mon.ensure(e is None and good(result) and fine(), f'{op} gives a wrong result without any interruption')
        rng = random.Random(case['seed'])
        points = list(range(1, dry.count + 1))
        if len(points) > case['points']:
            points = sorted(rng.sample(points, case['points'] - 20) + points[-10:] + points[:10])
        mon.seen('operations', op)
        for i, at in enumerate(points, 1):
            signal.setitimer(signal.ITIMER_REAL, GUARD_S)
            do, good, fine = self.setup(self.variant(case, i))
            for again in range(case['times']):
                it = Interrupter(at if not again else rng.randint(1, dry.count), case['opcodes'], exc)
                result, e = it.run(do)
                mon.count('without_a_caller', int(it.lost))
                if it.where is not None and not it.lost:
                    mon.ensure(isinstance(e, exc), f'{op} interrupted at {it.where} swallowed the exception')
                    mon.count('interruptions')
                    mon.count('instruction_level', int(case['opcodes']))
                    mon.count('repeated', int(again > 0))
                    mon.seen('places', it.where)
                    mon.nontrivial(repr((op, it.where, case['opcodes'], case['warm'], len(case['notes']))))
                else:
                    mon.ensure(good(result), f'{op} gives a wrong result after an interruption')
            if i % 2:
                mon.ensure(fine(), f'{op} interrupted at {it.where} changed the objects involved')
                mon.ensure(good(do()), f'{op} interrupted at {it.where} gives a wrong result when repeated')
            else:
                mon.ensure(good(do()), f'{op} interrupted at {it.where} gives a wrong result when repeated')
                mon.ensure(fine(), f'{op} interrupted at {it.where} changed the objects involved')
