"""Values and tracks that came about in any way, watched side by side with twins made directly from their components."""
import copy
import pickle
import random
from fractions import Fraction

from .engine import Prop
from .gen import G, any_notes, build_track, fr, note_model, time_signature, track_model


def outcome(fn):
    """What a call gives: the result in plain data, or the exception's type."""
    try:
        x = fn()
    except Exception as e:
        return type(e).__name__
    return plain(x)


def plain(x):
    from melodia.core import Note, Signature, Tone, Track
    if isinstance(x, Tone):
        return 'tone', type(x).__name__, x.pitch, str(x), repr(x)
    if isinstance(x, Signature):
        return 'signature', type(x).__name__, x.nominator, x.denominator, str(x), repr(x)
    if isinstance(x, Note):
        return 'note', type(x).__name__, plain(x.tone), plain(x.duration), x.velocity, str(x), repr(x)
    if isinstance(x, Track):
        return 'track', fr(x.signature), sorted(track_model(x)), fr(x.length), len(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x if type(x) in (bool, int, str, bytes, type(None)) else (type(x).__name__, repr(x))


def compare(x, others):
    for y in others:
        yield lambda: x == y
        yield lambda: y == x
        yield lambda: x != y
        yield lambda: x < y
        yield lambda: y < x
        yield lambda: x <= y
        yield lambda: x > y
        yield lambda: x >= y


def looks(x, probe):
    """Every way to look at a value, as functions."""
    from melodia.core import Note, Signature, Tone, Track
    from melodia.io import midi
    from melodia.music import chord
    k, base, sig, tone, note = probe['k'], probe['base'], Signature(*probe['sig']), Tone(probe['pitch']), Note(*probe['note'])
    yield lambda: x
    yield lambda: (str(x), f'{x}', '%s' % x)
    yield lambda: repr(x)
    yield lambda: hash(x)
    yield lambda: bool(x)
    if isinstance(x, Tone):
        yield lambda: (x.pitch, x.octave)
        yield lambda: x.to_notation()
        yield lambda: x.to_notation(True)
        yield lambda: x.to_notation(transpose_down=False)
        yield lambda: x.to_frequency()
        yield lambda: x.to_frequency(base)
        yield lambda: x.transposed(k)
        yield lambda: x.transposed(k).to_notation(True)
        yield lambda: x.transposed(0)
        yield lambda: Note(x, sig)
        yield lambda: Note(x).transposed(k)
        yield lambda: chord.maj(x, sig, 0.5)
        yield lambda: midi.MIDIWriter(middle_c=x).dumps(Track(content=[(Note(x), (1, 4))]))
        yield lambda: list(midi.MIDIReader(middle_c=x).loads(FILE))
        yield from compare(x, (tone, Tone(probe['pitch'] + 1), x))
        yield lambda: sorted([tone, x, Tone(k)])
    elif isinstance(x, Signature):
        yield lambda: (x.nominator, x.denominator)
        yield lambda: x + sig
        yield lambda: sig + x
        yield lambda: x * sig
        yield lambda: sig * x
        yield lambda: (x + x, x * x)
        yield lambda: abs(x)
        yield lambda: x.normalized()
        yield lambda: x.to(x.denominator)
        yield lambda: x.to(x.denominator * 8)
        yield lambda: x.to(sig.denominator)
        yield lambda: x.to(3)
        yield lambda: Note(tone, x)
        yield lambda: note.with_duration(x)
        yield lambda: Track(x).signature
        yield lambda: midi.dumps(Track(x))
        yield lambda: Track(content=[(note, x), (note, (1, 2))])
        yield lambda: chord.min7(tone, x)
        yield from compare(x, (sig, x + Signature(1, 64), x))
        yield lambda: sorted([sig, x, Signature(1, 4)])
    else:
        yield lambda: (x.tone, x.duration, x.velocity)
        yield lambda: x.transposed(k)
        yield lambda: x.transposed(k).tone.to_notation(True)
        yield lambda: x.with_duration(sig)
        yield lambda: x.with_duration(probe['sig']).with_velocity(0.125)
        yield lambda: x.with_velocity(0.25)
        yield lambda: chord.maj(x)
        yield lambda: chord.dim7(x, sig)
        yield lambda: chord.sus2(x, velocity=0.5)
        yield lambda: x.tone.transposed(k).to_notation()
        yield lambda: x.duration + sig
        yield lambda: Track(content=[(x, sig), (note, sig)])
        yield lambda: midi.dumps(Track(content=[(x, (1, 4))]))
        yield from compare(x, (note, x.with_velocity(0.5), Note(x.tone, sig, x.velocity), x))
        yield lambda: sorted([note, x, Note(3)])


def says(x, probe):
    return [outcome(f) for f in looks(x, probe)]


FILE = bytes.fromhex('4d546864000000060000000100604d54726b0000000c00903c4060803c4000ff2f00')


class C35(Prop):
    id = 'C35'
    rule = ('tones, signatures and notes derived from one another in chains of every operation (transposition, arithmetic, '
            'conversion, chords, copies, text and back, tracks, files), looked at or not before each step, and tracks constructed, '
            'read, randomized and copied, all compared look by look with twins made directly from the same components; '
            'non-trivial: something was looked at before something was derived from it')
    budget = {'quick': 900, 'thorough': 40000}
    requires = {'values_compared': 20000, 'looks_compared': 500000, 'looked_before': 5000, 'tracks_compared': 1000, 'ways': 30}
    shrink_keys = ('steps',)

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            probe = {'k': g.int(-40, 40), 'base': g.choice((440.0, 432.0, 1.0, 1000)), 'sig': g.sig(8, 20), 'pitch': g.pitch(),
                     'note': [g.pitch(), g.sig(8, 20), g.vel()]}
            if i % 3 == 2:
                yield {'track': [time_signature(g), any_notes(g, g.count(8), 0, 100, most=8, rare=12)], 'probe': probe,
                       'steps': [g.r.randrange(1 << 30) for _ in range(g.r.randint(1, 5))]}
            else:
                start = [['tone', g.pitch()], ['sig', g.sig(8, 40)], ['note', [g.pitch(), g.sig(8, 40), g.vel()]]]
                yield {'start': start, 'probe': probe, 'steps': [g.r.randrange(1 << 30) for _ in range(g.r.randint(1, 14))]}

    def run(self, case, mon):
        if 'track' in case:
            return self.tracks(case, mon)
        from melodia.core import Note, Signature, Tone
        probe = case['probe']
        make = {'tone': lambda p: Tone(p), 'sig': lambda s: Signature(*s), 'note': lambda m: Note(*m)}
        pool = {'tone': [], 'sig': [], 'note': []}
        for kind, m in case['start']:
            pool[kind].append((make[kind](m), False))

        def check(x, what):
            if type(x) is Tone:
                y = Tone(x.pitch)
            elif type(x) is Signature:
                y = Signature(x.nominator, x.denominator)
            else:
                mon.ensure(type(x) is Note, f'{what} gave a {type(x).__name__}')
                y = Note(Tone(x.tone.pitch), (x.duration.nominator, x.duration.denominator), x.velocity)
            a, b = says(x, probe), says(y, probe)
            mon.count('values_compared')
            mon.count('looks_compared', len(a))
            for i, (p, q) in enumerate(zip(a, b)):
                mon.ensure(p == q, f'a {type(x).__name__} made by {what} does not behave like one made directly (look {i})', got=p, expected=q)

        for seed in case['steps']:
            g = G(random.Random(seed))
            r = g.r
            kind = r.choice(('tone', 'sig', 'note', 'note'))
            x, seen = r.choice(pool[kind])
            how = r.random()
            if how < 0.5:
                says(x, probe)
            elif how < 0.8:
                fs = list(looks(x, probe))
                for _ in range(r.choice((1, 1, 2, 4))):
                    outcome(r.choice(fs))
            seen = seen or how < 0.8
            mon.count('looked_before', seen)
            others = pool[kind] + [(make[kind](m), False) for kd, m in case['start'] if kd == kind]
            try:
                what, new = getattr(self, kind)(g, mon, x, r.choice(others)[0], pool)
            except Skip:
                continue
            mon.seen('ways', (kind, what))
            if seen:
                mon.nontrivial(repr((seed, what)))
            for y in new if isinstance(new, list) else [new]:
                if r.random() < 0.9:
                    check(y, what)
                k2 = 'tone' if isinstance(y, Tone) else 'sig' if isinstance(y, Signature) else 'note'
                if k2 != 'sig' or y.denominator < 1 << 200 and y.nominator < 1 << 300:
                    pool[k2].append((y, True))
        for kind in pool:
            for x, _ in pool[kind][-8:]:
                check(x, f'{case["start"]} (at the end)')

    def copied(self, g, x):
        from melodia.core import Note, Signature, Tone, Track
        how = g.choice(('copy', 'deepcopy', 'pickle', 'repr'))
        try:
            y = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'repr': lambda x: eval(repr(x), {'Tone': Tone, 'Note': Note, 'Signature': Signature, 'Track': Track}),
                 'pickle': lambda x: pickle.loads(pickle.dumps(x, g.r.randint(2, 5)))}[how](x)
        except TypeError:
            raise Skip
        return how, y

    def tone(self, g, mon, x, other, pool):
        from melodia.core import Note, Tone
        r = g.r
        k = g.int(-300, 300)
        what = r.choice(('transposed', 'transposed', 'notation', 'copied', 'note', 'chord', 'notes'))
        if what == 'transposed':
            y = x.transposed(k)
            mon.ensure(y.pitch == x.pitch + k, f'pitch {x.pitch} transposed by {k} gave {y.pitch}')
        elif what == 'notation':
            y = Tone.from_notation(x.to_notation(r.random() < 0.5))
            mon.ensure(y.pitch == x.pitch, f'pitch {x.pitch} to notation and back gave {y.pitch}')
        elif what == 'copied':
            what, y = self.copied(g, x)
            mon.ensure(y.pitch == x.pitch, f'pitch {x.pitch} became {y.pitch} by {what}')
        elif what == 'note':
            y = Note(x, r.choice(pool['sig'])[0])
        elif what == 'notes':
            n = r.choice(pool['note'])[0]
            y = [n.tone, n.transposed(k).tone]
            mon.ensure(y[1].pitch == n.tone.pitch + k, f'pitch {n.tone.pitch} transposed by {k} gave {y[1].pitch}')
        else:
            from melodia.music import chord
            y = list(getattr(chord, r.choice(('maj', 'min', 'dim7', 'sus4', 'maj9')), chord.maj)(x, r.choice(pool['sig'])[0], g.vel()))
        return what, y

    def sig(self, g, mon, x, other, pool):
        from melodia.core import Note, Signature, Track
        r = g.r
        what = r.choice(('+', '*', 'abs', 'to', 'normalized', '+=', '*=', 'copied', 'duration', 'position', 'length', 'signature'))
        a, b = fr(x), fr(other)
        want = None
        if what == '+':
            y, want = x + other, a + b
        elif what == '*':
            y, want = x * other, a * b
        elif what == '+=':
            y, want = x, a + b
            y += other
        elif what == '*=':
            y, want = x, a * b
            y *= other
        elif what == 'abs':
            y, want = abs(x), a
        elif what == 'to':
            y, want = x.to(x.denominator << r.randint(0, 8)), a
        elif what == 'normalized':
            y, want = x.normalized(), a
        elif what == 'copied':
            what, y = self.copied(g, x)
            want = a
            mon.ensure((y.nominator, y.denominator) == (x.nominator, x.denominator), f'{x!r} became {y!r} by {what}')
        elif what == 'duration':
            n = r.choice(pool['note'])[0].with_duration(x)
            y, want = n.duration, a
        elif what == 'position':
            t = Track(content=[(Note(3, other), x), (Note(4), (1, 2))])
            at = list(t)
            y = [p for p, _ in at] + [t.length]
            mon.ensure(sorted(fr(p) for p, _ in at) == sorted([a, Fraction(1, 2)]), 'positions in a track are wrong')
        elif what == 'length':
            t = Track()
            t.add(Note(3, x), other)
            y, want = t.length, a + b
        else:
            y, want = Track(x).signature, a
        if want is not None:
            mon.ensure(fr(y) == want, f'{what} of {a} and {b} gave {fr(y)}')
        return what, y

    def note(self, g, mon, x, other, pool):
        from melodia.core import Note, Signature, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        r = g.r
        k, s, v = g.int(-300, 300), r.choice(pool['sig'])[0], g.vel()
        p, d, w = note_model(x)
        what = r.choice(('transposed', 'transposed', 'with_duration', 'with_velocity', 'copied', 'parts', 'chord', 'track', 'randomized', 'file'))
        if what == 'transposed':
            y, want = x.transposed(k), (p + k, d, w)
        elif what == 'with_duration':
            y, want = x.with_duration(s if r.random() < 0.5 else (s.nominator, s.denominator)), (p, fr(s), w)
        elif what == 'with_velocity':
            y, want = x.with_velocity(v), (p, d, v)
        elif what == 'copied':
            what, y = self.copied(g, x)
            want = p, d, w
        elif what == 'parts':
            y, want = Note(x.tone, s, v), (p, fr(s), v)
        elif what == 'chord':
            return what, list(getattr(chord, r.choice(('maj', 'min', 'aug', 'dim7', 'sus2')))(x, *((s, v) if r.random() < 0.5 else ())))
        elif what == 'track':
            t = Track(content=[(x, s), (other, s)])
            t.add(x)
            found = [n for _, n in t]
            mon.ensure(sorted(note_model(n) for n in found) == sorted([(p, d, w)] * 2 + [note_model(other)]), 'the notes in a track are not those added')
            return what, found
        elif what == 'randomized':
            t = Track(content=[(x, s)])
            (_, y), = randomize_velocities(t, v, v, v, 0.0)
            want = p, d, v
        else:
            q, dur, vel = r.randrange(128), r.randint(0, 400), r.randint(1, 127)
            t = midi.loads(midi.MIDIWriter(middle_c='C5', pulses_per_quarter=16).dumps(Track(content=[(Note(q, (dur, 64), vel / 127), s)]))) if s.denominator <= 64 and s.nominator < 1 << 15 else None
            if t is None:
                raise Skip
            (_, y), = t
            want = y.tone.pitch, Fraction(dur, 64), vel / 127
        mon.ensure(note_model(y) == want, f'{what} gave {y!r} instead of {want}')
        return what, y

    def tracks(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.processing.track import randomize_velocities
        sig, notes = case['track']
        probe = case['probe']
        t = build_track(sig, notes)

        def made(t):
            """The same track, made directly."""
            u = Track(Signature(t.signature.nominator, t.signature.denominator))
            for at, n in t:
                u.add(Note(Tone(n.tone.pitch), (n.duration.nominator, n.duration.denominator), n.velocity), (at.nominator, at.denominator))
            return u

        def fs(t):
            yield lambda: t
            yield lambda: len(t)
            yield lambda: (fr(t.length), fr(t.signature))
            yield lambda: sorted(track_model(t)) == track_model(t)
            yield lambda: sorted(repr(n.tone) for _, n in t)
            yield lambda: midi.dumps(t)
            yield lambda: midi.MIDIWriter(pulses_per_quarter=64, middle_c=probe['pitch'] % 60, bpm=99.5, channel=3).dumps(t)
            yield lambda: midi.loads(midi.dumps(t), 0)
            yield lambda: t == other
            yield lambda: other == t
            yield lambda: t != t
            yield lambda: t == shifted
            yield lambda: sorted(track_model(eval(repr(t), {'Tone': Tone, 'Note': Note, 'Signature': Signature, 'Track': Track})))
            yield lambda: randomize_velocities(t, 0.5, 0.5, 0.5)
            yield lambda: hash(t)
            yield lambda: bool(t)
            yield lambda: [plain(n.transposed(1)) for _, n in t][:1]

        def check(what):
            u = made(t)
            mon.ensure(t == u and u == t and not t != u and not u != t, f'a track made by {what} is not equal to the same track made directly')
            mon.count('tracks_compared')
            for i, (f, h) in enumerate(zip(fs(t), fs(u))):
                a, b = outcome(f), outcome(h)
                mon.count('looks_compared')
                mon.ensure(a == b, f'a track made by {what} does not behave like one made directly (look {i})', got=a, expected=b)
            return u

        other, shifted = made(t), build_track(sig, notes)
        shifted.add(Note(1), (1, 8))
        check('construction')
        ways = 'construction'
        for seed in case['steps']:
            g = G(random.Random(seed))
            r = g.r
            looked = r.random()
            if looked < 0.7:
                for f in list(fs(t)) if looked < 0.3 else r.choices(list(fs(t)), k=r.choice((1, 2, 3))):
                    outcome(f)
                mon.count('looked_before')
                mon.nontrivial(repr((case['track'], seed)))
            what = r.choice(('randomized', 'copied', 'file', 'added', 'added', 'slice'))
            before = track_model(t), fr(t.signature)
            spelling = [t.signature.nominator, t.signature.denominator]
            if what == 'randomized':
                v = g.vel()
                if r.random() < 0.5:
                    t = randomize_velocities(t, v, v, v, g.choice((0.0, 0.3)))
                    mon.ensure(sorted(track_model(t)) == sorted((at, (n[0], n[1], v)) for at, n in before[0]), 'randomizing changes more than velocities')
                else:
                    t = randomize_velocities(t, 0.0, 1.0, v, 0.3)
                    mon.ensure(sorted((at, n[:2]) for at, n in track_model(t)) == sorted((at, n[:2]) for at, n in before[0]),
                               'randomizing changes more than velocities')
            elif what == 'copied':
                try:
                    what, t = self.copied(g, t)
                except Skip:
                    continue
                mon.ensure((sorted(track_model(t)), fr(t.signature)) == (sorted(before[0]), before[1]), f'{what} changes the music')
                mon.ensure([t.signature.nominator, t.signature.denominator] == spelling, f'{what} changes the spelling of the time signature')
            elif what == 'file':
                try:
                    t = midi.MIDIReader(middle_c=24).loads(midi.MIDIWriter(1 << r.randint(6, 14), 24).dumps(t), r.choice((None, 0)))
                except (ValueError, OverflowError, midi.MIDIError):      # out of range for a file
                    continue
            elif what == 'slice':
                t = Track(t.signature, [(n, at) for at, n in t if r.random() < 0.8])
            else:
                m = [g.r.randint(0, 100), g.sig(8, 12), g.vel()]
                at = g.choice((None, g.sig(8, 12)))
                t.add(Note(*m), at if at is None else Signature(*at))
                mon.ensure(len(t) == len(before[0]) + 1, 'an added note is not counted')
            ways += ' ' + what
            mon.seen('ways', ('track', what))
            u = check(ways)
            if r.random() < 0.5:
                # the twins go on together
                for _ in range(r.randint(1, 3)):
                    m, at = [g.r.randint(0, 100), g.sig(8, 12), g.vel()], g.choice((None, g.sig(8, 12)))
                    for x in (t, u):
                        x.add(Note(*m), at)
                mon.ensure(plain(t) == plain(u) and outcome(lambda: midi.dumps(t)) == outcome(lambda: midi.dumps(u)),
                           f'a track made by {ways} and the same made directly differ after the same additions')


class Skip(Exception):
    pass
