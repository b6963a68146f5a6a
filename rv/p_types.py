"""Types of results, and values that never change."""
import collections.abc
import copy
import importlib
import inspect
import io
import pickle
import random
import sys
from fractions import Fraction

from .engine import SRC, Inconclusive, KnownFinding, Monitor, Prop
from .gen import G, any_notes, build_track, fr, middle_c, notation
from .p_music import CHORDS
from .p_write import make_reader, make_writer

COMPARISONS = ('__eq__', '__lt__', '__le__', '__gt__', '__ge__')
# what the documentation (signatures of the public functions) promises
RETURNS = {
    'melodia.core.tone.Tone': {'pitch': 'int', 'octave': 'int', 'from_notation': 'Tone', 'to_notation': 'str', 'to_frequency': 'float',
                               'transposed': 'Tone', '__str__': 'str', '__repr__': 'str', **dict.fromkeys(COMPARISONS, 'truth')},
    'melodia.core.signature.Signature': {'nominator': 'int', 'denominator': 'int', 'to': 'Signature', 'normalized': 'Signature',
                                         '__str__': 'str', '__repr__': 'str', '__add__': 'Signature', '__mul__': 'Signature',
                                         '__abs__': 'Signature', **dict.fromkeys(COMPARISONS, 'truth')},
    'melodia.core.note.Note': {'tone': 'Tone', 'velocity': 'float', 'duration': 'Signature', 'transposed': 'Note', 'with_duration': 'Note',
                               'with_velocity': 'Note', '__str__': 'str', '__repr__': 'str', **dict.fromkeys(COMPARISONS, 'truth')},
    'melodia.core.track.Track': {'signature': 'Signature', 'length': 'Signature', 'add': 'None', '__len__': 'int', '__iter__': 'iterator',
                                 '__eq__': 'truth', '__str__': 'str', '__repr__': 'str'},
    'melodia.io.midi.MIDIWriter': {'dump': 'None', 'dumps': 'bytes'},
    'melodia.io.midi.MIDIReader': {'load': 'Track', 'loads': 'Track'},
    'melodia.io.midi': {'dump': 'None', 'dumps': 'bytes', 'load': 'Track', 'loads': 'Track'},
    'melodia.processing.track': {'randomize_velocities': 'Track'},
    'melodia.music.chord': {n: f'chord{len(v)}' for n, v in CHORDS.items()},
}


def conforms(value, kind):
    from melodia.core import Note, Signature, Tone, Track
    if kind == 'None':
        return value is None
    if kind == 'int':
        return isinstance(value, int)
    if kind == 'float':
        # an int is acceptable where a float is annotated
        return isinstance(value, (int, float))
    if kind == 'str':
        return isinstance(value, str)
    if kind == 'bytes':
        return isinstance(value, bytes)
    if kind == 'truth':
        return isinstance(value, bool) or value is NotImplemented
    if kind == 'iterator':
        return isinstance(value, collections.abc.Iterator)
    if kind.startswith('chord'):
        return isinstance(value, tuple) and len(value) == int(kind[5:]) and all(isinstance(n, Note) for n in value)
    return isinstance(value, {'Tone': Tone, 'Signature': Signature, 'Note': Note, 'Track': Track}[kind])


class ReturnMonitor:
    """Looks at every value a public function of melodia returns, whoever called it."""
    TOOL = 5

    def __init__(self):
        self.kinds = {}
        self.seen = {}
        self.bad = None
        for path, names in RETURNS.items():
            mod, _, cls = path.rpartition('.')
            owner = getattr(importlib.import_module(mod), cls) if cls[:1].isupper() else importlib.import_module(path)
            for name, kind in names.items():
                o = inspect.getattr_static(owner, name, None)
                o = o.fget if isinstance(o, property) else getattr(o, '__func__', o)
                code = getattr(o, '__code__', None)
                if code is not None and code.co_filename.startswith(SRC) and \
                        not code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE):
                    # the same code under several names is checked for what they have in common
                    self.kinds[code] = (f'{cls}.{name}', kind) if code not in self.kinds or self.kinds[code][1] == kind else None
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'rv-returns')
        except ValueError:
            m.free_tool_id(self.TOOL)
            m.use_tool_id(self.TOOL, 'rv-returns')
        m.register_callback(self.TOOL, m.events.PY_RETURN, self._returned)
        self.on = False
        m.set_events(self.TOOL, m.events.PY_RETURN)

    def _returned(self, code, offset, value):
        kind = self.kinds.get(code)
        if kind is None:
            return sys.monitoring.DISABLE
        if self.on and self.bad is None:
            self.seen[kind[0]] = self.seen.get(kind[0], 0) + 1
            if not conforms(value, kind[1]):
                self.bad = f'{kind[0]} returned {value!r:.200} of type {type(value).__name__} instead of {kind[1]}'


_monitor = None


class C31(Prop):
    id = 'C31'
    rule = ('the workloads of the other checks (values, notes, tracks, chords, files intact and damaged, compositions, copies) run '
            'with a monitor on every return of every public function of melodia, whoever calls it, and every public function '
            'called directly on random values; non-trivial: a distinct case with at least one observed return')
    budget = {'quick': 2400, 'thorough': 40000}
    requires = {'returns': 300000, 'direct_calls': 40000}
    shrinkable = False
    SOURCES = ('C01', 'C02', 'C03', 'C04', 'C07', 'C08', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C18', 'C19', 'C20', 'C22',
               'C25', 'C27', 'C28')

    def cases(self, rng, n, shard, tier):
        from .registry import PROPS
        g = G(rng)
        feeds = {}
        for i in range(n):
            if i % 2:
                notes = any_notes(g, g.count(6), 0, 90, most=6, rare=8)
                yield {'notes': notes, 'sig': [g.r.randint(1, 9), 4], 'pitch': g.pitch(), 'by': g.r.randint(-50, 50), 'a': g.sig(), 'b': g.sig(),
                       'base': g.choice((440.0, 432.0, 440, 1e-3, 1e9)), 'ppq': g.ppq(), 'mc': middle_c(g, wide=False),
                       'vel': g.choice((0, 1, 0.0, 1.0, g.r.random())), 'chord': g.choice(sorted(CHORDS)),
                       'lo': g.choice((0, 0.0, 0.25, 0.5)), 'hi': g.choice((1, 1.0, 0.75, 0.5)), 'mean': g.choice((0, 1, 0.5)),
                       'var': g.choice((0, 0.0, 0.01, 1)), 'channel': g.r.randrange(16), 'bpm': g.bpm()}
                continue
            src = self.SOURCES[i // 2 % len(self.SOURCES)]
            if src not in feeds:
                # skips the systematic cases some workloads begin with
                feeds[src] = iter(PROPS[src].cases(random.Random(rng.randrange(1 << 30)), 1 << 20, shard, 'quick'))
                for _ in range(g.r.randrange(200)):
                    next(feeds[src], None)
            try:
                case = next(feeds[src], None)
            except Exception:
                case = None
            if case is not None and not (isinstance(case, dict) and case.get('huge')):
                yield {'source': src, 'case': case}

    def run(self, case, mon):
        global _monitor
        if _monitor is None:
            _monitor = ReturnMonitor()
        m = _monitor
        m.bad, m.seen, m.on = None, {}, True
        try:
            if 'source' in case:
                from .registry import PROPS
                try:
                    PROPS[case['source']].run(case['case'], Monitor())
                except (Exception, KnownFinding):
                    pass        # that check's own business
                mon.seen('sources', case['source'])
            else:
                self.direct(case, mon)
        finally:
            m.on = False
        mon.count('returns', sum(m.seen.values()))
        for k in m.seen:
            mon.seen('functions_observed', k)
        mon.ensure(m.bad is None, m.bad or '')
        if m.seen:
            mon.nontrivial(repr(case)[:4000])

    def direct(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities

        def is_(kind, value, what):
            mon.count('direct_calls')
            mon.ensure(conforms(value, kind) and value is not NotImplemented,
                       f'{what} is {value!r:.200} of type {type(value).__name__} instead of {kind}')
            return value
        tone, sig, sig2 = Tone(case['pitch']), Signature(*case['a']), Signature(*case['b'])
        note = Note(tone, sig, case['vel'])
        t, u = build_track(case['sig'], case['notes']), build_track(case['sig'], case['notes'][:1])
        for x in (tone, Tone.from_notation(notation(case['pitch']))):
            for k in ('pitch', 'octave'):
                is_('int', getattr(x, k), f'Tone.{k}')
            is_('str', x.to_notation(), 'Tone.to_notation()')
            is_('str', x.to_notation(transpose_down=True), 'Tone.to_notation()')
            is_('Tone', x.transposed(case['by']), 'Tone.transposed()')
            if abs(case['pitch']) < 2000:
                is_('float', x.to_frequency(), 'Tone.to_frequency()')
                is_('float', x.to_frequency(case['base']), 'Tone.to_frequency()')
        for x in (sig, sig.to(sig.denominator * 4), sig.normalized(), sig + sig2, sig * sig2, abs(sig)):
            is_('Signature', x, 'a signature')
            is_('int', x.nominator, 'Signature.nominator')
            is_('int', x.denominator, 'Signature.denominator')
        for x in (note, note.transposed(case['by']), note.with_duration(sig2), note.with_duration((1, 2)), note.with_velocity(0.5),
                  *is_(f'chord{len(CHORDS[case["chord"]])}', getattr(chord, case['chord'])(note), 'a chord'),
                  *getattr(chord, case['chord'])(case['pitch'], (1, 2), case['vel'])):
            is_('Note', x, 'a note')
            is_('Tone', x.tone, 'Note.tone')
            is_('Signature', x.duration, 'Note.duration')
            is_('float', x.velocity, 'Note.velocity')
        for x, y in ((tone, Tone(case['by'])), (sig, sig2), (note, note.transposed(1)), (t, u)):
            is_('str', str(x), 'str()')
            is_('str', repr(x), 'repr()')
            for a, b in ((x, y), (y, x), (x, x)):
                for name in COMPARISONS if x is not t else ('__eq__',):
                    is_('truth', getattr(a, name)(b), f'{type(x).__name__}.{name}')
                is_('truth', a != b, f'{type(x).__name__} !=')
        is_('None', u.add(note), 'Track.add()')
        is_('None', u.add([note, note], (1, 4)), 'Track.add()')
        w, r = make_writer(case), make_reader(case)
        shift = 90 * (case['mc'][1] - 36) // 90
        v = randomize_velocities(t, case['lo'], case['hi'], case['mean'], case['var'])
        low = Track(tuple(case['sig']), [(n.transposed(shift), (p.nominator % 1000, p.denominator)) for p, n in t
                                         if n.duration < Signature(1 << 40, 1)])
        f = io.BytesIO()
        is_('None', w.dump(low, f), 'MIDIWriter.dump()')
        data = is_('bytes', w.dumps(low), 'MIDIWriter.dumps()')
        g = io.BytesIO()
        is_('None', midi.dump(Track(), g), 'dump()')
        is_('bytes', midi.dumps(Track(), 90, 3), 'dumps()')
        tracks = [t, u, v, low, r.loads(data), r.load(io.BytesIO(f.getvalue())), midi.loads(data), midi.load(io.BytesIO(data)),
                  eval(repr(t), {'Track': Track, 'Note': Note})]
        if len(low):
            tracks += [r.loads(data, channel=case['channel']), midi.loads(data, case['channel'])]
        for x in tracks:
            is_('Track', x, 'a track')
            is_('Signature', x.length, 'Track.length')
            is_('Signature', x.signature, 'Track.signature')
            is_('int', len(x), 'len(track)')
            is_('iterator', iter(x), 'iter(track)')
            for pair in x:
                mon.ensure(isinstance(pair, tuple) and len(pair) == 2, f'iterating a track gives {pair!r}')
                p, n = pair
                is_('Signature', p, 'a position')
                is_('Note', n, 'a note')
                for k in ('nominator', 'denominator'):
                    is_('int', getattr(p, k), 'part of a position')
                    is_('int', getattr(n.duration, k), 'part of a duration')
                is_('float', n.velocity, 'Note.velocity')
                is_('int', n.tone.pitch, 'Tone.pitch')


class C32(Prop):
    id = 'C32'
    rule = ('pools of tones, signatures and notes (chords, notes sharing parts, parts and positions taken out of tracks and files) '
            'put through random histories of everything the library can do with them, and attempts to assign, delete and '
            'augment; after every step every value is compared with what it said at first; non-trivial: distinct history')
    budget = {'quick': 2600, 'thorough': 60000}
    requires = {'steps': 40000, 'values_watched': 30000, 'refused_assignments': 5000, 'kinds_of_step': 16}
    shrink_keys = ('steps',)
    STEPS = ('compare', 'arith', 'augment', 'assign', 'track', 'rescale', 'write', 'random', 'chord', 'sort', 'copy', 'derive', 'print',
             'read', 'equal', 'failed', 'delete', 'notation', 'grow', 'grow')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            yield {'pitches': [g.r.randint(0, 90) for _ in range(3)], 'sigs': [g.sig() for _ in range(2)] + [[g.r.randint(0, 40), 1 << g.r.randint(0, 6)]
                   for _ in range(3)], 'vels': [g.r.random(), g.choice((0.0, 1.0, 0.75))],
                   'notes': any_notes(g, g.r.randint(1, 4), 0, 90, most=6, rare=30), 'seed': g.r.randrange(1 << 30),
                   'steps': [[g.choice(self.STEPS), g.r.randrange(1 << 30)] for _ in range(g.r.randint(5, 30))]}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        tones = [Tone(p) for p in case['pitches']]
        sigs = [Signature(*s) for s in case['sigs']]
        # notes that share their parts with each other and with the pools
        notes = [Note(tones[0], sigs[2], case['vels'][0]), Note(tones[0], sigs[2], case['vels'][1]), Note(tones[1], sigs[3], 0.5),
                 *chord.maj7(tones[2], sigs[4], 0.25)]
        t = build_track([4, 4], case['notes'])
        for p, n in t:
            sigs.append(p)
            notes.append(n)
        # a track that grows, with what was taken out of it before
        growing = build_track([4, 4], case['notes'])
        sigs += [p for p, _ in growing]
        sigs += [t.length, t.signature, growing.length]

        def says(x):
            if isinstance(x, Tone):
                return x.pitch, x.octave, repr(x), str(x)
            if isinstance(x, Signature):
                return x.nominator, x.denominator, repr(x)
            return x.tone.pitch, x.duration.nominator, x.duration.denominator, x.velocity, repr(x)
        pool = [*tones, *sigs, *notes]
        before = [says(x) for x in pool]
        values = [fr(s) for s in sigs]
        mon.count('values_watched', len(pool))
        t_says = (fr(t.signature), len(t), repr(t))
        small = [n for n in notes if n.duration.nominator < 1 << 30 and n.duration.denominator < 1 << 20]
        little = [s for s in sigs if s.nominator < 1 << 20 and s.denominator <= 1 << 12]
        for what, seed in case['steps']:
            r = random.Random(seed)
            a, b, c, d = r.choice(sigs), r.choice(sigs), r.choice(notes), r.choice(notes)
            x = r.choice(pool)
            mon.count('steps')
            mon.seen('kinds_of_step', what)
            if what == 'compare':
                for p, q in ((a, b), (c, d), (r.choice(tones), r.choice(tones))):
                    _ = p == q, p != q, p < q, p <= q, p > q, p >= q
            elif what == 'arith':
                _ = a + b, a * b, abs(a), a.normalized(), a.to(a.denominator << r.randint(0, 9)), sum([a, b], Signature(0, 1))
            elif what == 'augment':
                y, z = a, b
                y += b
                z *= a
                mon.ensure(fr(y) == fr(a) + fr(b) and fr(z) == fr(a) * fr(b), 'an augmented assignment gives the wrong value')
            elif what in ('assign', 'delete'):
                names = {Tone: ('pitch', 'octave'), Signature: ('nominator', 'denominator'), Note: ('tone', 'duration', 'velocity')}[type(x)]
                for o, name, new in [(x, r.choice(names), r.choice((0, 1, tones[0], sigs[0], 0.5))),
                                     (t, r.choice(('signature', 'length')), r.choice((sigs[0], (3, 4))))]:
                    try:
                        if what == 'assign':
                            setattr(o, name, new)
                        else:
                            delattr(o, name)
                    except AttributeError:
                        mon.count('refused_assignments')
                    else:
                        mon.ensure(False, f'{type(o).__name__}.{name} can be {what}ed' if what == 'assign' else f'{type(o).__name__}.{name} can be deleted')
            elif what in ('track', 'rescale'):
                u = Track(r.choice(little) if what == 'track' else (4, 4))
                for _ in range(r.randint(1, 6)):
                    u.add(r.choice((c, d, r.choice(notes))), r.choice((a, b, None, (1, 1 << r.randint(0, 12)))))
                    u.add([c, d], r.choice((a, None)))
                list(u)
                _ = u.length, repr(u), u == t
            elif what == 'grow':
                growing.add(r.choice((c, [c, d])), r.choice((a, b, None, (1, 1 << r.randint(0, 12)), r.choice(sigs))))
                _ = [growing.length] if r.random() < 0.5 else list(growing)
            elif what == 'write' and small and little:
                u = Track((3, 4))
                for _ in range(r.randint(1, 5)):
                    u.add(r.choice(small), r.choice(little))
                w = midi.MIDIWriter(r.choice((1, 96, 480)), middle_c=r.choice((36, tones[0], 'C3')) if max(n.tone.pitch for n in small) < 91 else 36)
                try:
                    w.dumps(u)
                except (ValueError, OverflowError):
                    pass
                if what == 'write':
                    midi.MIDIWriter(middle_c=tones[1])
            elif what == 'read':
                u = Track()
                u.add(Note(r.randint(0, 90)), (1, 4))
                _ = midi.loads(midi.dumps(u)), midi.MIDIReader(middle_c=tones[r.randrange(3)]).loads(midi.dumps(u))
            elif what == 'random':
                u = Track(a)
                u.add([c, d], b)
                v = randomize_velocities(u, 0.25, 0.75)
                mon.ensure(all(0.25 <= n.velocity <= 0.75 for _, n in v), 'randomizing leaves the bounds')
            elif what == 'chord':
                fn = getattr(chord, r.choice(sorted(CHORDS)))
                _ = fn(c), fn(r.choice(tones)), fn(d, a), fn(c, a, 0.5), fn(d.tone.pitch, velocity=1.0)
            elif what == 'sort':
                sorted(notes), sorted(sigs), sorted(tones), max(sigs), min(notes), sorted(zip(sigs, notes))
            elif what == 'copy':
                try:
                    y = pickle.loads(pickle.dumps(x)) if r.random() < 0.5 else copy.deepcopy(x)
                    copy.copy(x)
                except TypeError:                 # whether that works is C28's business
                    y = x
                mon.ensure(y == x, 'a copy is not equal')
            elif what == 'derive':
                k = r.randint(-30, 30)
                e = c.transposed(k).with_duration(a).with_velocity(0.125)
                mon.ensure((e.tone.pitch, fr(e.duration), e.velocity) == (c.tone.pitch + k, fr(a), 0.125), 'a derived note is wrong')
                _ = c.tone.transposed(k), Note(c.tone, c.duration, 1.0)
            elif what == 'print':
                _ = str(x), repr(x), f'{x}', '%s %r' % (x, x), str(t)
            elif what == 'equal':
                _ = t == build_track([4, 4], case['notes']), build_track([8, 8], case['notes']) == t
            elif what == 'notation':
                y = Tone.from_notation(r.choice(tones).to_notation())
                _ = y.to_frequency(), y.to_notation(True), Note(y.to_notation(), a)
            elif what == 'failed':
                for fn in (lambda: Signature(-1, 4), lambda: a.to(3), lambda: c.with_velocity(2.0), lambda: Tone.from_notation('H'),
                           lambda: c.with_duration((1, 3)), lambda: Track(a).add([c, 5], b), lambda: Note(c.tone, (1, 0)),
                           lambda: a == 'x', lambda: c < 3, lambda: a + 1, lambda: r.choice(tones).transposed('x'),
                           lambda: chord.maj(c, (1, 3)), lambda: randomize_velocities(t, 2.0)):
                    try:
                        fn()
                    except (ValueError, TypeError, AttributeError):
                        pass
            for y, old in zip(pool, before):
                now = says(y)
                mon.ensure(now == old, f'a {type(y).__name__} changed during {what}', got=now, expected=old)
            mon.ensure((fr(t.signature), len(t), repr(t)) == t_says, f'a track changed during {what}')
        mon.ensure([fr(s) for s in sigs] == values, 'values changed')
        mon.nontrivial(repr(case['steps']))
