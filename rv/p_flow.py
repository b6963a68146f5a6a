"""Whole compositions through all parts of the library, and copies of its objects."""
import copy
import io
import pickle
import random
from collections import deque
from fractions import Fraction

from . import smf
from .engine import Prop
from .gen import G, any_notes, build_track, case_model, fr, notation, time_signature, track_model
from .p_music import CHORDS
from .p_write import expected_events, make_reader, make_writer, middle_c, overlaps

STEP = 1 / 127 + 1e-9
UNIT = 128               # everything is composed on the grid of 1/128


def exact_sig(x):
    from melodia.core import Signature
    return Signature(x.numerator, x.denominator)


class Piece:
    """The reference: notes as (position, pitch, duration) with the range their velocity may be in."""

    def __init__(self, sig):
        self.sig = sig
        self.notes = []

    def end(self):
        return max((p + d for p, _, d, _, _ in self.notes), default=Fraction(0))

    def put(self, pos, pitch, dur, vel):
        self.notes.append((pos, pitch, dur, vel, vel))

    def range(self):
        pitches = [n[1] for n in self.notes]
        return (min(pitches), max(pitches)) if pitches else (0, 0)


class C27(Prop):
    id = 'C27'
    rule = ('composition scripts: chords, notes and groups (lists, generators, nested) appended, placed after rests or laid over '
            'the piece, the piece repeated, transposed, stretched, merged with another, given other or random velocities, printed '
            'and rebuilt, passed through a MIDI file, in random order, observed after every step or only after some; one half '
            'within what files can hold, the other with silent and overlapping notes of any tone on any grid; the track is compared '
            'with an exact reference, the file with the strict decoder at the end; non-trivial: at least three kinds of step in '
            'one piece')
    budget = {'quick': 1100, 'thorough': 20000}
    requires = {'steps': 20000, 'kinds_of_step': 12, 'chords': 150, 'files_written': 3000, 'notes': 50000, 'groups': 30,
                'free_pieces': 2000, 'large_pieces': 20}
    KINDS = ('chord', 'chord', 'chord', 'note', 'rest', 'line', 'repeat', 'transpose', 'stretch', 'halve', 'merge',
             'randomize', 'rebuild', 'file', 'level', 'group', 'group', 'group')
    shrink_keys = ('script',)

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            free = i % 2
            if g.chance(0.2):
                c = {'ppq': 96, 'mc': ['str', 36], 'bpm': 120.0, 'channel': g.choice((0, 0, 9)), 'module': True}
            else:
                c = {'ppq': g.choice((96, 96, 192, 384, 480, 768, 960)), 'mc': middle_c(g), 'bpm': g.bpm(), 'channel': g.r.randrange(16)}
            script = [self.step(g, free) for _ in range(g.r.randint(1, 14))]
            c.update(sig=time_signature(g), script=script, low=g.r.randint(0, 100), seed=g.r.randrange(1 << 30), free=free,
                     unit=g.choice((1, UNIT, 4096, 1 << 40, 1 << 70)) if free else UNIT, watch=g.choice((1.0, 1.0, 0.4, 0.0)), most=400)
            if i % 150 == 7:
                c['script'] = [self.step(g, free, 'group')] + [self.step(g, free, g.choice(('repeat', 'merge', 'group'))) for _ in range(20)] + script
                c['most'] = g.r.randint(1000, 3000)
            yield c

    def step(self, g, free, k=None):
        k = k or g.choice(self.KINDS)
        s = {'do': k, 'look': g.chance(0.3)}
        least = 0 if free else 0.2

        def vel():
            return g.choice((least, 0.5, 0.75, 1.0, least + (1 - least) * g.r.random(), least + 0.01 * g.r.random()))

        if k in ('chord', 'rest', 'note', 'line', 'merge', 'group'):
            s.update(name=g.choice(sorted(CHORDS)), base=g.choice(('int', 'str', 'tone', 'note')), up=g.r.randint(0, 24),
                     dur=None if g.chance(0.2) else [0 if g.chance(0.05) else g.choice((16, 32, 64, 128, g.r.randint(1, 512))), UNIT],
                     vel=None if g.chance(0.3) else vel(),
                     gap=g.choice((0, 1, 32, g.r.randint(0, 2000))), many=g.r.randint(1, 6), form=g.r.randrange(4),
                     over=g.choice((None, None, 0.0, 1.0, g.r.random())))
        if k == 'group':
            s.update(how=g.choice(('list', 'tuple', 'generator', 'iterator', 'nested', 'nested generators', 'nested twice', 'deque')),
                     notes=[[g.choice((g.r.randint(0, 40), 2 * i)), [g.choice((0, 1, 16, 32, 64, g.r.randint(0, 300))), 1], vel()]
                            for i in range(g.choice((1, 2, 3, 3, 4, 8, g.r.randint(1, 40))))])
        elif k == 'transpose':
            s['by'] = g.choice((12, -12, 7, 1, -1, 0, g.r.randint(-40, 40)))
        elif k == 'stretch':
            s['by'] = g.choice((2, 3, 4))
        elif k == 'randomize':
            lo = least + 0.5 * g.r.random()
            s.update(lo=lo, hi=lo + (1 - lo) * g.r.random(), mean=g.r.random(), var=g.choice((0.01, 0.0, 1.0, 0.1)))
        elif k == 'level':
            s['vel'] = vel()
        elif k == 'file':
            s['how'] = g.choice(('bytes', 'stream', 'channel', 'stream after data'))
        return s

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        random.seed(case['seed'])
        lowest, highest = case['mc'][1] - 60, case['mc'][1] + 67
        w, r = make_writer(case), make_reader(case)
        t, piece = Track(signature=tuple(case['sig'])), Piece(case['sig'])
        if not case['sig'][0]:
            return
        free, unit = case.get('free'), case.get('unit', UNIT)
        finest = min(16384, (4 * case['ppq']) & -(4 * case['ppq']))     # power-of-two part of the pulse grid
        chance = random.Random(case['seed']).random
        halvings = 0
        kinds = set()
        mon.count('free_pieces' if free else 'pieces_for_files')

        def clash(more):
            return bool(overlaps([(p, (q, d, 1.0)) for p, q, d, *_ in piece.notes + more]))

        def writable():
            """Whether a file can hold the piece as it is."""
            return not free or (all(lowest <= q <= highest and a > 0.02 and (p * finest).denominator == (d * finest).denominator == 1 and
                                    p + d < 1 << 40 for p, q, d, a, b in piece.notes) and not clash([]))

        def spelled(x, form):
            """A position written in different ways."""
            k = 1 << form if form else 1
            pair = x.numerator * k, x.denominator * k
            return [Signature(*pair), pair, list(pair), iter(pair)][form]

        def through_file(t, how):
            if how == 'bytes':
                data = midi.dumps(t, channel=case['channel']) if case.get('module') else w.dumps(t)
                return midi.loads(data) if case.get('module') else r.loads(data)
            f = io.BytesIO(b'before')
            f.seek(6 if how == 'stream after data' else 0)
            at = f.tell()
            if case.get('module'):
                midi.dump(t, f, channel=case['channel'])
            else:
                w.dump(t, f)
            f.seek(at)
            only = {'channel': case['channel']} if how == 'channel' and piece.notes else {}
            return midi.load(f, **only) if case.get('module') else r.load(f, **only)

        def pitch_of(up, most):
            return case['low'] * 3 - 100 + up if free else lowest + (case['low'] * 86 // 100 + up) % most

        def chord_of(s, pitch):
            """The chord and its reference notes."""
            dur = Fraction(*s['dur']) if s['dur'] else Fraction(1, 4)
            vel = s['vel'] if s['vel'] is not None else 0.75
            kw = {}
            if s['base'] == 'note':
                base = Note(pitch, tuple(s['dur'] or (1, 4)), vel)
            else:
                base = pitch if s['base'] == 'int' else notation(pitch) if s['base'] == 'str' else Tone(pitch)
                if s['dur']:
                    kw['duration'] = tuple(s['dur'])
                if s['vel'] is not None:
                    kw['velocity'] = s['vel']
            mon.seen('chords', (s['name'], s['base']))
            return getattr(chord, s['name'])(base, **kw), [(pitch + i, dur, vel) for i in CHORDS[s['name']]]

        def place(s):
            """Where something goes: after everything, or over the piece."""
            if s.get('over') is not None and s['do'] != 'chord':
                return Fraction(round(piece.end() * UNIT * Fraction(s['over'])), UNIT)
            return piece.end() + Fraction(s['gap'] if s['do'] in ('rest', 'group') else 0, unit)

        for s in case['script']:
            k = s['do']
            if len(piece.notes) > case.get('most', 400) and k in ('repeat', 'merge', 'line'):
                continue
            if s.get('look'):
                [lambda: t.length, lambda: len(t), lambda: t == t, lambda: str(t), lambda: list(t), lambda: repr(t), lambda: repr(t),
                 lambda: [repr(n) for _, n in t]][int(chance() * 8)]()
            if k in ('chord', 'rest'):
                notes, ref = chord_of(s, pitch_of(s['up'], 110))
                at = piece.end()
                if k == 'rest':
                    at += Fraction(s['gap'], unit)
                    t.add(notes, spelled(at, s.get('form', 0)))
                else:
                    t.add(notes)
                for pitch, dur, vel in ref:
                    piece.put(at, pitch, dur, vel)
            elif k in ('note', 'line'):
                vel = s['vel'] if s['vel'] is not None else 0.75
                for i in range(s['many'] if k == 'line' else 1):
                    pitch = lowest + (case['low'] + s['up'] + i * s['gap']) % 128
                    at, dur = piece.end(), Fraction(*(s['dur'] or (1, 4)))
                    t.add(Note(pitch, tuple(s['dur'] or (1, 4)), vel))
                    piece.put(at, pitch, dur, vel)
            elif k == 'group':
                ref, used = [], set()
                for up, (num, _), vel in s['notes']:
                    pitch = pitch_of(up + s['up'], 128)
                    if free or pitch not in used:
                        used.add(pitch)
                        ref.append((pitch, Fraction(num, unit), vel))
                at = place(s)
                if not free and clash([(at, p, d) for p, d, _ in ref]):
                    at = piece.end()
                notes = [Note(p, spelled(d, s['form']), v) for p, d, v in ref]
                half = len(notes) // 2
                what = {'list': lambda: notes, 'tuple': lambda: tuple(notes), 'generator': lambda: (x for x in notes),
                        'iterator': lambda: iter(notes), 'nested': lambda: [notes[:half], notes[half:]], 'deque': lambda: deque(notes),
                        'nested twice': lambda: (notes[:half], [tuple(notes[half:]), []]),
                        'nested generators': lambda: (iter(x) for x in (notes[:half], notes[half:]))}[s['how']]()
                if at == piece.end() and s['gap'] % 2 == 0:
                    t.add(what)
                else:
                    t.add(what, spelled(at, s['form']))
                mon.seen('groups', (s['how'], s['form']))
                for pitch, dur, vel in ref:
                    piece.put(at, pitch, dur, vel)
            elif k == 'repeat':
                at, old = piece.end(), list(piece.notes)
                end = t.length
                for pos, note in list(t):
                    t.add(note, pos + end)
                piece.notes += [(p + at, *rest) for p, *rest in old]
            elif k == 'transpose':
                lo, hi = piece.range()
                by = s['by'] if free else max(lowest - lo, min(highest - hi, s['by']))
                u = Track(t.signature)
                for pos, note in t:
                    u.add(note.transposed(by), pos)
                t = u
                piece.notes = [(p, q + by, *rest) for p, q, *rest in piece.notes]
            elif k in ('stretch', 'halve'):
                if k == 'halve' and not free and UNIT << halvings + 1 > finest:
                    continue
                halvings += k == 'halve'
                by = Fraction(s['by']) if k == 'stretch' else Fraction(1, 2)
                if piece.end() * by > 1 << 16:
                    continue
                factor = exact_sig(by)
                t = Track(t.signature, [(n.with_duration(n.duration * factor), p * factor) for p, n in t])
                piece.notes = [(p * by, q, d * by, *rest) for p, q, d, *rest in piece.notes]
            elif k == 'merge':
                other = Track()
                refs = []
                for i in range(s['many']):
                    notes, ref = chord_of(s, pitch_of(s['up'] + i, 110))
                    at = max((x[0] + x[2] for x in refs), default=Fraction(0))
                    other.add(notes)
                    refs += [(at, *x) for x in ref]
                at, end = piece.end(), t.length
                if s['form'] % 2 and (free or not clash(refs)):
                    at, end = Fraction(0), Signature(0, 1)       # laid over the beginning
                for pos, note in other:
                    t.add(note, pos + end)
                for pos, pitch, dur, vel in refs:
                    piece.put(at + pos, pitch, dur, vel)
            elif k == 'randomize':
                t = randomize_velocities(t, s['lo'], s['hi'], s['mean'], s['var'])
                piece.notes = [(p, q, d, s['lo'], s['hi']) for p, q, d, *_ in piece.notes]
            elif k == 'level':
                t = Track(t.signature, [(n.with_velocity(s['vel']), p) for p, n in t])
                piece.notes = [(p, q, d, s['vel'], s['vel']) for p, q, d, *_ in piece.notes]
            elif k == 'rebuild':
                t = eval(repr(t), {'Track': Track, 'Note': Note, 'Signature': Signature, 'Tone': Tone})
            elif k == 'file':
                if not writable():
                    continue
                t = through_file(t, s.get('how', 'bytes'))
                piece.notes = [(p, q, d, a - STEP, b) for p, q, d, a, b in piece.notes]
                mon.count('files_written')
            kinds.add(k)
            mon.count('steps')
            mon.seen('kinds_of_step', k)
            if chance() < case.get('watch', 1.0):
                self.compare(mon, t, piece, f'after {k}')
        self.compare(mon, t, piece, 'at the end')
        mon.count('large_pieces', int(len(piece.notes) >= 1000))
        mon.count('notes', len(piece.notes))
        if len(kinds) > 2:
            mon.nontrivial(repr(case['script']))
        if not writable():
            return
        # what is written at the end is what was composed
        f = io.BytesIO()
        w.dump(t, f)
        mon.count('files_written')
        model = [(p, (q, d, 1.0)) for p, q, d, _, _ in piece.notes]
        mon.ensure(not overlaps(model), 'harness: the reference piece overlaps')
        division, events = smf.strict_decode(f.getvalue(), long_vlq=True)
        got = sorted((at, on, key) for at, _, on, key, _ in smf.note_stream(events))
        want = sorted((at, bool(on), key) for at, on, key in expected_events(model, case))
        mon.ensure(division == case['ppq'] and got == want, 'the file does not hold the composed events', got=got[:40], expected=want[:40])
        back = r.loads(f.getvalue())
        piece.notes = [(p, q, d, a - STEP, b) for p, q, d, a, b in piece.notes]
        self.compare(mon, back, piece, 'read back at the end')

    def compare(self, mon, t, piece, what):
        got = sorted((p, n[0], n[1], n[2]) for p, n in track_model(t))
        want = sorted(piece.notes)
        mon.ensure(len(t) == len(got) == len(want), f'{what}: {len(want)} notes were composed, the track has {len(got)}')
        mon.ensure([g[:3] for g in got] == [x[:3] for x in want], f'{what}: the notes are not the composed ones',
                   got=got[:40], expected=want[:40])
        # velocities of notes that share place, tone and length belong together as sets
        i = 0
        while i < len(got):
            j = i
            while j < len(got) and got[j][:3] == got[i][:3]:
                j += 1
            vs, lows, highs = (sorted(x[c] for x in (got if c == 3 and k == 0 else want)[i:j])
                               for k, c in ((0, 3), (1, 3), (2, 4)))
            for v, lo, hi in zip(vs, lows, highs):
                mon.ensure(lo - 1e-9 <= v <= hi + 1e-9, f'{what}: a velocity is {v}, it should be from {lo} to {hi}')
            i = j
        mon.ensure(fr(t.length) == piece.end(), f'{what}: the track is {t.length} long, the piece {piece.end()}')
        mon.ensure([t.signature.nominator, t.signature.denominator] == piece.sig,
                   f'{what}: time signature {t.signature}, composed in {piece.sig}')


class C28(Prop):
    id = 'C28'
    rule = ('random tones, signatures, notes, tracks (read and unread), writers and readers copied with copy.deepcopy and '
            'pickled with every protocol from 2 on, copies used and changed; non-trivial: a track with at least two notes')
    budget = {'quick': 1100, 'thorough': 30000}
    requires = {'tracks_copied': 5000, 'values_copied': 20000, 'codecs_copied': 3000, 'additions_after_copying': 5000}
    WAYS = ('deepcopy', 2, 3, 4, 5)

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            lo = g.choice((-24, 0))
            notes = any_notes(g, g.count(8) if g.chance(0.9) else g.r.randint(100, 400), lo, lo + 100, most=9, rare=30)
            yield {'sig': time_signature(g), 'notes': notes, 'more': any_notes(g, g.r.randint(1, 4), lo, lo + 100, most=9, rare=30),
                   'way': g.choice(self.WAYS), 'read': g.chance(0.5), 'ppq': g.ppq(), 'mc': ['int', 36], 'bpm': g.bpm(),
                   'channel': g.r.randrange(16), 'pitch': g.pitch(), 's': g.sig(), 'times': g.r.randint(1, 3)}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone

        def dup(x):
            for _ in range(case['times']):
                x = copy.deepcopy(x) if case['way'] == 'deepcopy' else pickle.loads(pickle.dumps(x, case['way']))
            return x

        def says(x):
            return [((p.nominator, p.denominator), repr(n), fr(n.duration), n.velocity) for p, n in x], repr(x), str(x), fr(x.length), len(x)

        tone, sig = Tone(case['pitch']), Signature(*case['s'])
        note = Note(tone, sig, 0.3)
        for x in (tone, sig, note):
            y = dup(x)
            mon.ensure(type(y) is type(x) and y == x and x == y and not y != x and repr(y) == repr(x) and str(y) == str(x),
                       f'a copy ({case["way"]}) of {x!r} is {y!r}')
            mon.count('values_copied')
        mon.ensure(dup(tone).transposed(1) == tone.transposed(1) and dup(sig) + sig == sig + sig and
                   dup(note).with_velocity(0.5) == note.with_velocity(0.5), f'a copy ({case["way"]}) behaves differently')

        w, r = make_writer(case), make_reader(case)
        twin = build_track(case['sig'], case['notes'])      # never copied
        t = build_track(case['sig'], case['notes'])
        if case['read']:
            list(t)
        u = dup(t)
        mon.ensure(type(u) is type(t) and u == t and t == u, f'a copied track ({case["way"]}) is not equal to the original')
        want = says(twin)
        mon.ensure(says(u) == want, 'a copied track says something else', got=says(u)[1][:400], expected=want[1][:400])
        mon.ensure(says(t) == want, 'copying changed the original track')
        mon.count('tracks_copied')
        w2, r2 = dup(w), dup(r)
        data = w.dumps(twin)
        mon.ensure(w2.dumps(t) == data and w.dumps(u) == data, 'a copied writer or track is written differently')
        data = w.dumps(build_track(case['sig'], [[m, [pos[0] % 1000, pos[1]]] for m, pos in case['notes'] if m[1][0] < 1 << 40]))
        mon.ensure(says(r2.loads(data)) == says(r.loads(data)), 'a copied reader reads differently')
        mon.count('codecs_copied')
        # either can go on without the other
        first, second = (t, u) if case['pitch'] % 2 else (u, t)
        for m, pos in case['more']:
            first.add(Note(m[0], tuple(m[1]), m[2]), tuple(pos))
            mon.count('additions_after_copying')
            mon.ensure(says(second) == want, 'an addition to one of track and copy shows in the other')
        both = sorted(case_model(case['notes']) + case_model(case['more']))
        mon.ensure(sorted(track_model(first)) == both and len(first) == len(both) and
                   fr(first.length) == max(p + d for p, (_, d, _) in both), 'a track or its copy does not hold what was added')
        second.add(Note(1))
        mon.ensure(len(second) == len(case['notes']) + 1 and len(first) == len(both), 'track and copy are not independent')
        if len(case['notes']) > 1:
            mon.nontrivial(repr((case['notes'], case['way'])))
