"""Tracks: history monitors against an explicit multiset model."""
import math
import random
from fractions import Fraction

from .engine import Hang, Prop
from .gen import G, Subclasses, any_notes, build_track, case_model, fill_track, fr, note_model, note_of, time_signature, track_model
from .sched import Scheduler


class Model:
    """What a track must say: the notes with their positions, and the furthest note end ever added."""

    def __init__(self):
        self.notes = []
        self.length = Fraction(0)

    def add(self, notes, where):
        pos = self.length if where is None else where
        for n in notes:
            self.notes.append((pos, n))
            self.length = max(self.length, pos + n[1])


def observe(mon, track, model, full=True):
    """Compares everything the track says with the model."""
    mon.count('observations')
    mon.ensure(len(track) == len(model.notes), f'track has {len(track)} notes, {len(model.notes)} were added')
    mon.ensure(fr(track.length) == model.length,
               f'length is {track.length}, the right-most note ending is {model.length}')
    if not full:
        return
    seen = track_model(track)
    mon.ensure(sorted(seen) == sorted(model.notes), 'the notes in the track are not the notes that were added',
               got=sorted(seen), expected=sorted(model.notes))
    mon.ensure(all(a[0] <= b[0] for a, b in zip(seen, seen[1:])), 'positions are not in ascending order', got=seen)


WHAT = ('one', 'list', 'tuple', 'gen', 'nested', 'empty', 'set-like', 'mine')
WHERE = ('none', 'none', 'sig', 'sig', 'tuple', 'list', 'gen', 'mine')


def track_ops(g, n):
    """A history of additions in every argument form mixed with observations."""
    ops = []
    pos_pool = [g.sig(14, 40) for _ in range(g.r.randint(1, 5))]
    dur_pool = [g.sig(14, 40) for _ in range(g.r.randint(1, 4))]
    pitch_pool = [g.pitch() for _ in range(g.r.randint(1, 5))]

    def note():
        return [g.choice(pitch_pool) if g.chance(0.7) else g.pitch(),
                g.choice(dur_pool) if g.chance(0.6) else g.sig(14, 40), g.vel()]

    growing = g.chance(0.2)
    repeats = g.chance(0.3)
    for i in range(n):
        p = g.r.random()
        if p < 0.35 and repeats and any(o[0] == 'add' for o in ops):
            # exactly what was added before, sometimes the very last thing
            last = [o for o in ops if o[0] == 'add']
            ops.append(list(last[-1] if g.chance(0.6) else g.choice(last)))
        elif p < 0.7:
            what = g.choice(WHAT)
            k = 0 if what == 'empty' else 1 if what == 'one' else g.r.randint(1, 4) if g.chance(0.97) else g.r.randint(5, 40)
            where = g.choice(WHERE)
            at = None if where == 'none' else g.choice(pos_pool) if g.chance(0.6) else g.sig(14, 40)
            if at is not None and growing:
                at = [at[0], 1 << min(60, i)]
            notes = [note() for _ in range(k)]
            if notes and g.chance(0.1):
                notes = notes[:1] * k
            ops.append(['add', what, notes, where, at])
        else:
            ops.append([g.choice(('iter', 'len', 'length', 'repr', 'eq', 'dump', 'twice', 'str', 'partial'))])
    return ops


def apply_add(track, model, op, pool=None):
    """pool: notes and positions made before, so that the same object is added again where the same value is."""
    from melodia.core import Signature
    _, what, notes, where, at = op
    if pool is None:
        objs = [note_of(m) for m in notes]
    else:
        objs = [pool.setdefault(repr(m), None) or pool.__setitem__(repr(m), note_of(m)) or pool[repr(m)] for m in notes]
    arg = {'one': lambda: objs[0], 'list': lambda: list(objs), 'tuple': lambda: tuple(objs),
           'gen': lambda: (o for o in objs), 'nested': lambda: [objs[:1], tuple(objs[1:])],
           'mine': lambda: [Subclasses.get()[2](o.tone, o.duration, o.velocity) for o in objs],
           'empty': lambda: [], 'set-like': lambda: {i: o for i, o in enumerate(objs)}.values()}[what]()
    pos = {'none': lambda: None, 'sig': lambda: Signature(*at), 'tuple': lambda: tuple(at),
           'list': lambda: list(at), 'gen': lambda: (x for x in list(at)),
           'mine': lambda: Subclasses.get()[1](*at)}[where]()
    if pool is not None and where in ('sig', 'tuple', 'list'):
        pos = pool.setdefault((where, tuple(at)), pos)
    if pos is None and at is None and len(notes) % 2:
        track.add(arg)
    else:
        track.add(arg, pos)
    model.add([(m[0], Fraction(*m[1]), m[2]) for m in notes], None if at is None else Fraction(*at))


def become(g, track, model, plain):
    """The same music as a track that was made in another way (randomized to one velocity, copied, rebuilt)."""
    import copy
    import pickle
    from melodia.core import Note, Signature, Track
    from melodia.processing.track import randomize_velocities
    how = g.choice(('randomized', 'randomized', 'randomized', 'deepcopy', 'rebuilt') + ('pickle', 'evaluated') * plain)
    if how == 'randomized':
        v = g.choice((0.25, 0.5, 1.0, 0.0))
        track = randomize_velocities(track, v, v, g.choice((v, 0.5)), g.choice((0, 0.5)))
        model.notes = [(at, (n[0], n[1], v)) for at, n in model.notes]
    elif how in ('deepcopy', 'pickle'):
        try:
            track = copy.deepcopy(track) if how == 'deepcopy' else pickle.loads(pickle.dumps(track))
        except TypeError:                 # whether that works is C28's business
            how = 'same'
    elif how == 'evaluated':
        track = eval(repr(track), {'Track': Track, 'Note': Note, 'Signature': Signature})
    else:
        track = Track(track.signature, [(n, at) for at, n in track])
    return how, track


def from_file(g, model, sig):
    """A track read from a file, and the model of it."""
    from melodia.io import midi
    from . import smf
    ppq = 1 << g.r.randint(0, 12)
    events = [[0, 0, 'meta', 0x58, bytes([sig[0], sig[1].bit_length() - 1, 24, 8]).hex(), 0]]
    now = 0
    channels, found = g.choice(([0], [3, 9])), []
    for _ in range(g.choice((0, 1, 1, 2, 3, 8))):
        idle, length = g.choice((0, 0, 1, 2, ppq, 4 * ppq, g.r.randrange(1000))), g.choice((0, 1, 3, ppq, g.r.randrange(500)))
        key, vel, ch = g.r.randrange(128), g.r.randint(1, 127), g.choice(channels)
        events.append([idle, 0, 'chan', 0x90 | ch, [key, vel], True])
        events.append([length, 0, 'chan', 0x80 | ch, [key, 64], True])
        found.append((ch, (Fraction(now + idle, 4 * ppq), (key - 24, Fraction(length, 4 * ppq), vel / 127))))
        now += idle + length
    wanted = g.choice([None] + [ch for ch, _ in found])
    model.notes = [n for ch, n in found if wanted in (None, ch)]
    model.length = max((at + n[1] for at, n in model.notes), default=Fraction(0))
    return midi.loads(smf.header(ppq) + smf.chunk(b'MTrk', smf.encode_body(events)), wanted)


def apply_read(track, mon, kind):
    from melodia.io import midi
    mon.count('reads_between_adds')
    if kind == 'iter':
        list(track)
    elif kind == 'twice':
        mon.ensure(track_model(track) == track_model(track), 'iterating twice gave different contents')
    elif kind == 'partial':
        next(iter(track), None)
    elif kind == 'len':
        len(track)
    elif kind == 'length':
        track.length
    elif kind == 'repr':
        repr(track)
    elif kind == 'str':
        str(track)
    elif kind == 'eq':
        mon.ensure(track == track, 'a track is not equal to itself')
    elif kind == 'dump':
        try:
            midi.dumps(track)
        except (ValueError, OverflowError):
            pass


class C15(Prop):
    id = 'C15'
    rule = ('histories of additions (single notes, iterables of every kind, appended or positioned, positions given '
            'in every form and resolution) interleaved with reads, on new tracks and tracks read from files, randomized, copied and rebuilt half-way, '
            'compared after each step with a multiset model; '
            'non-trivial: at least two additions of different position denominators')
    budget = {'quick': 1300, 'thorough': 40000}
    requires = {'observations': 5000, 'adds': 5000, 'reads_between_adds': 1000, 'appends': 500,
                'long_history_adds': 20000, 'tracks_from_files': 500, 'tracks_randomized': 300, 'tracks_deepcopy': 80,
                'tracks_evaluated': 80}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for nn in range(shard, 256, 8):
            for dd in range(10):
                yield {'sig': [nn, 1 << dd], 'ops': [], 'ctor': dd % 2 > 0, 'every': False}
        for i in range(n):
            k = g.r.randint(1, 12) if g.chance(0.75) else g.r.randint(1, 60)
            if g.chance(0.01):
                k = 400
            ops, sig, file = track_ops(g, k), time_signature(g), g.chance(0.2)
            if g.chance(0.3):
                for _ in range(g.choice((1, 1, 2, 3))):
                    ops.insert(g.r.randint(0, len(ops)), ['become', g.r.randrange(1 << 30)])
            if file:
                sig = [sig[0] or 1, min(sig[1], 1 << 40)]
            yield {'sig': sig, 'ops': ops, 'ctor': not file and g.chance(0.3), 'every': g.chance(0.5),
                   'pool': g.chance(0.5), 'file': g.r.randrange(1 << 30) if file else None}
            if i == 6 and shard < 2:
                yield {'big': g.big(20000, 40000), 'seed': g.r.randrange(1 << 30), 'sig': time_signature(g)}
            if i % (n // 6 + 1) == 5:
                size = g.big(1100 if tier == 'quick' else 2500, 6000 if tier == 'quick' else 30000)
                yield {'big': size, 'seed': g.r.randrange(1 << 30), 'sig': time_signature(g)}

    def run_big(self, case, mon):
        """A long history: cheap comparisons after every addition, the full one now and then and at the end."""
        from melodia.core import Signature, Track
        g = G(random.Random(case['seed']))
        track = Track(signature=Signature(*case['sig']))
        model = Model()
        size = case['big']
        looks = {g.r.randrange(size) for _ in range(4)}
        at = 0
        while len(model.notes) < size:
            at += g.choice((0, 0, 1, 1, 2, 16))
            chord = 1 if g.chance(0.9) else g.r.randint(2, 6) if g.chance(0.97) else g.big(7, size)
            where = g.choice(('none', 'sig', 'tuple'))
            x = g.choice((at, at, g.r.randint(0, at + 1)))
            pos = None if where == 'none' else g.choice(([x, 16], [x, 16], [2 * x + 1, 32], [x // 2, 8]))
            apply_add(track, model, ['add', 'one' if chord == 1 else g.choice(('list', 'tuple', 'gen', 'nested', 'set-like')),
                                     [[g.r.randint(-20, 100), [g.r.randint(0, 9), 16], 0.5] for _ in range(chord)],
                                     where, pos])
            mon.count('adds')
            mon.count('long_history_adds')
            if where == 'none' or g.chance(0.05):
                at = max(at, int(model.length * 16))
            observe(mon, track, model, full=False)
            if len(model.notes) in looks:
                observe(mon, track, model)
        observe(mon, track, model)
        mon.seen('long_histories', case)
        mon.nontrivial(repr(case))

    def run(self, case, mon):
        from melodia.core import Signature, Track
        if 'big' in case:
            return self.run_big(case, mon)
        ops = case['ops']
        model = Model()
        content = None
        start = 0
        if case['ctor']:
            # a prefix of single-note additions goes through the constructor
            content = []
            while start < len(ops) and ops[start][0] == 'add' and ops[start][1] == 'one':
                _, _, (m,), _, at = ops[start]
                content.append((note_of(m), None if at is None else Signature(*at) if start % 2 else tuple(at)))
                model.add([(m[0], Fraction(*m[1]), m[2])], None if at is None else Fraction(*at))
                start += 1
            if case['every']:
                content = iter(content)
        plain = Track(content=content) if tuple(case['sig']) == (4, 4) else None
        track = plain if plain is not None else Track(signature=Signature(*case['sig']), content=content)
        if case.get('file') is not None:
            track = from_file(G(random.Random(case['file'])), model, case['sig'])
            mon.count('tracks_from_files')
        observe(mon, track, model, full=case['every'])
        d = Track().signature
        mon.ensure((d.nominator, d.denominator) == (4, 4), f'a track has signature {d} by default')
        dens = set()
        pool = {} if case.get('pool') else None
        for op in ops[start:]:
            if op[0] == 'add':
                apply_add(track, model, op, pool)
                mon.count('adds')
                if op[4] is None:
                    mon.count('appends')
                else:
                    dens.add(op[4][1])
            elif op[0] == 'become':
                how, track = become(G(random.Random(op[1])), track, model, not any('mine' in o for o in ops))
                mon.count('tracks_' + how)
            else:
                apply_read(track, mon, op[0])
            if case['every'] and len(ops) <= 60:
                observe(mon, track, model, full=len(model.notes) < 80)
        observe(mon, track, model)
        mon.ensure((track.signature.nominator, track.signature.denominator) == tuple(case['sig']),
                   f'track signature is {track.signature}, it was created with {case["sig"]}')
        if len(dens) > 1:
            mon.nontrivial(repr(ops))
        mon.seen('track_states', sorted(model.notes))


class C16(Prop):
    id = 'C16'
    rule = ('a multiset of notes inserted in two different orders with differently written positions and durations, '
            'and a near copy differing in exactly one thing (a note removed, added, duplicated, moved, changed, or the '
            'signature); non-trivial: at least two notes')
    budget = {'quick': 3750, 'thorough': 40000}
    requires = {'equal_pairs': 1000, 'fresh_dumps_compared': 300, 'different_pairs': 1000, 'late_differences': 50, 'mutation_kinds': 7,
                'filled_by_the_constructor_or_in_groups': 1000}
    KINDS = ('remove', 'add', 'dup', 'move', 'pitch', 'dur', 'vel', 'sig', 'remove-last', 'remove-first')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            notes = any_notes(g, min(g.count(8), 80), -60, 140)
            if notes and g.chance(0.15):
                # the same and others a very little later
                for _i in range(g.r.randint(1, 3)):
                    m, pos = g.choice(notes)
                    k = 1 << g.choice((24, 52, 53, 60, 100, 200))
                    notes.append([[m[0] + g.choice((0, 0, 1, -1)), m[1], m[2]], [pos[0] * k + 1, pos[1] * k]])
            yield {'sig': time_signature(g), 'notes': notes, 'seed': g.r.randrange(1 << 30),
                   'kind': g.choice(self.KINDS)}
            if _ % (n // 3 + 1) == 1:
                yield {'sig': time_signature(g), 'big': g.big(1100, 5000) if _ > 1 or shard % 4 else g.big(15000, 30000),
                       'seed': g.r.randrange(1 << 30), 'kind': g.choice(self.KINDS)}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Track
        from melodia.io import midi
        r = random.Random(case['seed'])
        if 'big' in case:
            notes = [[[r.randint(-20, 100), [r.randint(0, 9), 16], r.randint(0, 127) / 127],
                      [r.randint(0, case['big']), r.choice((16, 16, 32))]] for _ in range(case['big'])]
            mon.count('large_pairs')
        else:
            notes = case['notes']
        sig = case['sig']
        a = build_track(sig, notes)
        shuffled = list(notes)
        r.shuffle(shuffled)
        kind_of_track = Track if case['seed'] % 11 else Subclasses.track()
        pairs = []
        for m, pos in shuffled:
            k, j = 1 << r.randint(0, 6), 1 << r.randint(0, 6)
            pairs.append((Note(m[0], (m[1][0] * k, m[1][1] * k), m[2]), (pos[0] * j, pos[1] * j)))
        if r.random() < 0.4:
            b = fill_track(kind_of_track, Signature(*sig), pairs, r.randrange(4))
            mon.count('filled_by_the_constructor_or_in_groups')
        else:
            b = kind_of_track(signature=Signature(*sig))
            for note, pos in pairs:
                b.add(note, pos)
                if r.random() < (0.15 if len(notes) < 500 else 0.002):
                    list(b)
        want = sorted(case_model(notes))
        first = r.choice(('iterate', 'eq', 'dumps', 'dumps', 'rev', 'mixed'))
        for x in (a, b):
            if r.random() < 0.3:
                fr(x.length), len(x)
        if first in ('dumps', 'mixed'):
            # nothing has been read from either track yet
            try:
                if first == 'mixed':
                    list(b)
                da, db = midi.dumps(a), midi.dumps(b)
            except (ValueError, OverflowError):
                pass
            else:
                mon.ensure(da == db, 'the same notes inserted in another order are written differently')
                mon.count('fresh_dumps_compared')
        elif first != 'iterate':
            mon.ensure(a == b if first == 'eq' else not (b != a), 'equal contents compare unequal')
        mon.ensure(track_model(a) == track_model(b),
                   'the same notes inserted in another order iterate differently', a=track_model(a), b=track_model(b))
        mon.ensure(fr(a.length) == fr(b.length), f'insertion order changes the length: {a.length} and {b.length}')
        mon.ensure(a == b and b == a and not (a != b) and not (b != a), 'equal contents compare unequal',
                   a=track_model(a), b=track_model(b))
        mon.count('equal_pairs')
        if r.random() < 0.2 and len(notes) < 500:
            # tracks the library makes, against the same notes added one by one
            from melodia.processing.track import randomize_velocities
            made = [randomize_velocities(a)]
            try:
                made.append(midi.loads(midi.dumps(a)))
                made.append(midi.loads(midi.dumps(a), 0))
            except (ValueError, OverflowError, midi.MIDIError):
                pass
            for x in made:
                pairs = list(x)
                r.shuffle(pairs)
                y = Track(Signature(x.signature.nominator, x.signature.denominator))
                for at, note in pairs:
                    y.add(note, at)
                mon.ensure(x == y and y == x and track_model(x) == track_model(y),
                           'a track made by randomizing or reading is not equal to one of the same notes', a=track_model(x), b=track_model(y))
                mon.count('made_pairs')
        if len(notes) > 1:
            mon.nontrivial(repr((notes, case['kind'])))
        try:
            da = midi.dumps(a)
        except (ValueError, OverflowError):
            da = None
        if da is not None:
            mon.ensure(midi.dumps(b) == da, 'the same notes inserted in another order are written differently')
            mon.count('dumps_compared')
        if 'big' in case:
            # one note changed at the very end, just before it, and somewhere
            order = sorted(notes, key=lambda x: (Fraction(*x[1]), x[0][0], Fraction(*x[0][1]), x[0][2]))
            for i in (-1, -2, len(order) // 2, r.randrange(len(order)), r.randrange(len(order) // 2, len(order))):
                (p, d, v), pos = order[i]
                near = list(order)
                near[i] = [[p + 1, d, v] if i % 2 else [p, d, v / 2 + 0.001], pos]
                c = build_track(sig, near)
                mon.ensure(not (a == c) and c != a, f'two tracks of {len(order)} notes that differ in note {i} compare equal')
                mon.count('late_differences')
        # a near copy that differs in exactly one respect must be unequal in both directions
        kind = case['kind']
        other = [[list(m), list(p)] for m, p in shuffled]
        osig = list(sig)
        g = G(r)
        if kind in ('sig',) or not other and kind != 'add':
            osig = [sig[0] + 1, sig[1]] if r.random() < 0.5 else [sig[0], sig[1] * 2] if sig[0] else [1, 1]
            kind = 'sig'
        elif kind == 'remove':
            other.pop(r.randrange(len(other)))
        elif kind in ('remove-last', 'remove-first'):
            other.sort(key=lambda x: (Fraction(*x[1]), x[0][0], Fraction(*x[0][1]), x[0][2]))
            other.pop(-1 if kind == 'remove-last' else 0)
        elif kind == 'add':
            other.extend(any_notes(g, 1, -60, 140)[:1])
        elif kind == 'dup':
            other.append(r.choice(other))
        else:
            i = r.randrange(len(other))
            (p, d, v), pos = other[i]
            if kind == 'move':
                k = 1 << r.choice((0, 1, 3, 6, 20, 40, 64, 130))
                pos = [pos[0] * k + 1, pos[1] * k]
            elif kind == 'pitch':
                p += r.choice((-12, -1, 1, 12))
            elif kind == 'dur':
                k = 1 << r.choice((0, 1, 3, 6, 20, 40, 64, 130))
                d = [d[0] * k + 1, d[1] * k]
            elif kind == 'vel':
                step = r.choice((0.25, 0.01, 1e-3, 1e-4, 1e-6, 1e-9, 1e-12, 0.0))
                w = v - step if v > 0.5 else v + step
                v = w if w != v else math.nextafter(v, 0.0 if v > 0.5 else 1.0)
            other[i] = [[p, d, v], pos]
        c = build_track(osig, other)
        mon.ensure(not (a == c) and not (c == a) and a != c and c != a,
                   f'tracks that differ ({kind}) compare equal', a=track_model(a), b=track_model(c))
        mon.count('different_pairs')
        mon.seen('mutation_kinds', kind)
        mon.ensure(sorted(track_model(a)) == want and sorted(track_model(b)) == want, 'comparison changed a track')


class C17(Prop):
    id = 'C17'
    rule = ('read-only operations on a freshly filled track, run repeatedly in one thread and concurrently in 2-4 '
            'threads under seeded schedules that switch inside melodia; non-trivial: schedule with at least one '
            'switch while several threads read; tracks of 0 and 1 notes included, and what is read compared with a '
            'twin that is never read')
    budget = {'quick': 270, 'thorough': 3000}
    requires = {'schedules': 200, 'instruction_level_schedules': 50, 'interleavings': 150, 'switches': 2000, 'sequential_reads': 300,
                'small_tracks': 50}
    shrinkable = False
    coverage = False
    READS = ('iter', 'len', 'length', 'dumps', 'repr', 'eq', 'eq_rev', 'random', 'str', 'sig', 'nested', 'eq_respelled',
             'eq_changed', 'eq_prefix', 'eq_reversed')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            k = g.choice((0, 1, 1, 2, 2, 3, 5, 8, 12, 20, 40))
            notes = any_notes(g, k, -24, 103, most=8, rare=8)
            threads = 1 if i % 4 == 3 else g.r.randint(2, 4)
            yield {'sig': g.choice(([4, 4], [3, 4], [6, 8])), 'notes': notes, 'seed': g.r.randrange(1 << 30),
                   'reads': [[g.choice(self.READS) for _ in range(g.r.randint(1, 3 if threads > 1 else 12))]
                             for _ in range(threads)],
                   'switch': g.choice((0.02, 0.1, 0.3)), 'warm': g.chance(0.2)}

    def run(self, case, mon):
        from melodia.core import Track
        from melodia.io import midi
        from melodia.processing.track import randomize_velocities
        notes = case['notes']
        # Expectations come from the model and from a twin track that only this thread touches.
        model = Model()
        for (m, pos) in notes:
            model.add([(m[0], Fraction(*m[1]), m[2])], Fraction(*pos))
        want = sorted(model.notes)
        structure = sorted((p, n[0], n[1]) for p, n in want)
        twin = build_track(case['sig'], notes)
        # repr of a track that is never read in any other way, so that no read can have touched it
        twin_repr, twin_str = repr(build_track(case['sig'], notes)), str(build_track(case['sig'], notes))
        twin_bytes = midi.dumps(twin)
        def spelling(t):
            return sorted([[n.tone.pitch, [n.duration.nominator, n.duration.denominator], n.velocity],
                           [p.nominator, p.denominator]] for p, n in t)

        spelled = spelling(build_track(case['sig'], notes))
        objs = [note_of(m) for m, _ in notes]
        from melodia.core import Signature
        poss = [Signature(*p) for _, p in notes]
        content = list(zip(objs, poss))
        track = Track(signature=Signature(*case['sig']), content=content)
        if case['warm']:
            list(track)
        # Other tracks to compare with: the same contents spelled otherwise, or one thing different.
        rr = random.Random(case['seed'] + 1)
        others = {}
        for name in ('eq_respelled', 'eq_changed', 'eq_prefix', 'eq_reversed'):
            k = 1 << rr.randint(0, 3)
            src = [[[m[0], [m[1][0] * k, m[1][1] * k], m[2]], [p[0] * k, p[1] * k]] for m, p in notes]
            if not src:
                if name in ('eq_changed', 'eq_prefix'):
                    src.append([[1, [1, 4], 0.5], [0, 4]])
            elif name == 'eq_changed':
                i = rr.randrange(len(src))
                src[i][0][0] += 1
            elif name == 'eq_prefix':
                src.pop(rr.randrange(len(src)))
            elif name == 'eq_reversed':
                src.reverse()
            osig = [case['sig'][0] * k, case['sig'][1] * k]
            others[name] = (build_track(osig, src), repr(build_track(osig, src)), name in ('eq_respelled', 'eq_reversed'))
            mon.count('respelled_comparands')

        def read(kind):
            if kind in others:
                o, text, same = others[kind]
                return (track == o) is same and (o == track) is same and (track != o) is not same and repr(o) == text
            if kind == 'iter':
                return sorted(track_model(track)) == want
            if kind == 'nested':
                got = []
                for p, n in track:
                    got.append((fr(p), note_model(n)))
                    if len(track_model(track)) != len(want):
                        return False
                return sorted(got) == want
            if kind == 'len':
                return len(track) == len(want)
            if kind == 'length':
                return fr(track.length) == model.length
            if kind == 'dumps':
                return midi.dumps(track) == twin_bytes
            if kind == 'repr':
                return repr(track) == twin_repr
            if kind == 'str':
                return str(track) == twin_str
            if kind == 'eq':
                return track == twin
            if kind == 'eq_rev':
                return not (twin != track)
            if kind == 'sig':
                return [track.signature.nominator, track.signature.denominator] == case['sig']
            if kind == 'random':
                t = randomize_velocities(track, 0.1, 0.9)
                return sorted((fr(p), n.tone.pitch, fr(n.duration)) for p, n in t) == structure
            raise ValueError(kind)

        def script(reads):
            def fn():
                for k in reads:
                    if not read(k):
                        return k
                return None
            return fn

        scripts = [script(r) for r in case['reads']]
        if len(scripts) == 1:
            bad = scripts[0]()
            mon.ensure(bad is None, f'reading a track: {bad} was wrong after {case["reads"][0]}')
            mon.count('sequential_reads', len(case['reads'][0]))
            mon.nontrivial(repr(case['reads']))
        else:
            fine = case['seed'] % 3 == 0
            s = Scheduler(random.Random(case['seed']), case['switch'] / (4 if fine else 1), opcodes=fine)
            mon.count('instruction_level_schedules', int(fine))
            for i, (bad, exc) in enumerate(s.run(scripts)):
                mon.ensure(exc is None, f'thread {i} reading a shared track got {exc!r}')
                mon.ensure(bad is None, f'thread {i} saw a wrong result of {bad} while others were only reading')
            mon.count('schedules')
            mon.count('switches', s.switches)
            mon.count('steps', s.steps)
            mon.seen('interleavings', s.trace)
            if s.switches:
                mon.nontrivial(s.trace)
        mon.count('small_tracks', len(notes) < 2)
        for what, t in (('reading a track', track), ('comparing with or writing a track', twin)):
            mon.ensure(spelling(t) == spelled, f'{what} changed how its contents are spelled', got=spelling(t)[:20],
                       expected=spelled[:20])
        observe(mon, track, model)
        mon.ensure(repr(track) == twin_repr, 'reading a track changed how it prints', got=repr(track)[:600],
                   expected=twin_repr[:600])
        mon.ensure(repr(twin) == twin_repr, 'comparing with a track changed how it prints', got=repr(twin)[:600],
                   expected=twin_repr[:600])
        for name, (o, text, _) in others.items():
            mon.ensure(repr(o) == text, f'comparing with a track ({name}) changed how it prints', got=repr(o)[:600],
                       expected=text[:600])
        mon.ensure(all((n.duration.nominator, n.duration.denominator) == tuple(m[1]) for n, (m, _) in zip(objs, notes)),
                   'a note handed to the track is spelled differently afterwards')
        mon.ensure([(note_model(n), fr(p)) for n, p in content] ==
                   [((m[0], Fraction(*m[1]), m[2]), Fraction(*p)) for m, p in notes] and len(content) == len(notes)
                   and all(content[i][0] is objs[i] and content[i][1] is poss[i] for i in range(len(objs))),
                   'objects handed to the track were changed')
        mon.ensure(all((p.nominator, p.denominator) == tuple(q) for p, (_, q) in zip(poss, notes)),
                   'a position handed to the track was changed')


class C18(Prop):
    id = 'C18'
    rule = ('a filled track, then additions that must be refused (wrong objects, wrong positions, at resolutions finer '
            'than anything in the track), then more valid additions, compared with the model throughout; non-trivial: '
            'refused addition on a non-empty track')
    budget = {'quick': 7500, 'thorough': 40000}
    requires = {'refused': 2000, 'valid_after_refusal': 1000, 'refused_inside_iterables': 500}
    BAD_WHAT = ('int', 'none', 'float', 'object', 'tone', 'sig', 'str', 'bytes', 'in_list', 'in_tuple', 'in_gen')
    MIXED = ('list', 'gen', 'raises')
    BAD_WHERE = ([1, 3], [-1, 4], [1, 0], [1, -4], [0, 6], [1], [1, 2, 4], 'x', 7, 1.5, [3, 12], [None, 4],
                 [], '', 0, 0.0, False, True, {}, -1, [0, 0], ['', 4], [1, ''], [[], 1], 'xy', '14')
    ERRORS = (LookupError, RuntimeError, AttributeError, TypeError, ValueError, KeyError, OSError, ArithmeticError, EOFError,
              NotImplementedError, AssertionError, IndexError, ZeroDivisionError, MemoryError, RecursionError, KeyboardInterrupt,
              SystemExit, GeneratorExit, OverflowError)

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            ops = []
            for _ in range(g.r.randint(1, 10)):
                p = g.r.random()
                if p < 0.4:
                    ops.append(['good', note_one(g), None if g.chance(0.4) else g.sig(12, 40)])
                elif p < 0.5:
                    ops.append(['mixed', [note_one(g) for _ in range(g.r.randint(0, 4))], g.r.randint(0, 4),
                                g.choice(self.MIXED), None if g.chance(0.4) else g.sig(12, 40), g.r.randrange(99)])
                elif p < 0.7:
                    at = None if g.chance(0.3) else g.sig(14, 60)
                    ops.append(['what', g.choice(self.BAD_WHAT), at])
                elif p < 0.9:
                    ops.append(['where', note_one(g), g.choice(self.BAD_WHERE), g.chance(0.3)])
                else:
                    ops.append(['read'])
            yield {'sig': time_signature(g), 'ops': ops}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        track = Track(signature=Signature(*case['sig']))
        model = Model()
        refused = False
        for op in case['ops']:
            if op[0] == 'good':
                m, at = op[1], op[2]
                track.add(note_of(m), None if at is None else Signature(*at))
                model.add([(m[0], Fraction(*m[1]), m[2])], None if at is None else Fraction(*at))
                if refused:
                    mon.count('valid_after_refusal')
            elif op[0] == 'read':
                list(track)
            elif op[0] == 'mixed':
                # a bad element inside an iterable: the notes before it may be there, nothing else may
                _, ms, k, how, at, err = op
                k = min(k, len(ms))
                objs = [note_of(m) for m in ms]
                error = self.ERRORS[err % len(self.ERRORS)]('raised by the iterable')
                mon.seen('errors_of_iterables', type(error).__name__)

                def items():
                    yield from objs[:k]
                    if how == 'raises':
                        raise error
                    yield 42
                    yield from objs[k:]

                try:
                    track.add(list(items()) if how == 'list' else items(), None if at is None else Signature(*at))
                except Hang:
                    raise
                except BaseException as e:
                    mon.ensure(how != 'raises' or e is error, f'the error of an iterable came out as {e!r}')
                else:
                    mon.ensure(False, f'addition of {op} was not refused')
                if len(track) != len(model.notes):
                    model.add([(m[0], Fraction(*m[1]), m[2]) for m in ms[:k]], None if at is None else Fraction(*at))
                mon.count('refused')
                mon.count('refused_inside_iterables')
                refused = True
            else:
                if op[0] == 'what':
                    base = {'int': 42, 'none': None, 'float': 0.5, 'object': object(), 'tone': Tone(3),
                            'sig': Signature(1, 4), 'str': 'C4', 'bytes': b'C4', 'in_list': [42], 'in_tuple': (None,),
                            'in_gen': None}
                    what = (x for x in [object()]) if op[1] == 'in_gen' else base[op[1]]
                    where = None if op[2] is None else Signature(*op[2])
                else:
                    what = note_of(op[1])
                    if op[3]:
                        what = [what]
                    where = op[2] if not isinstance(op[2], list) or len(model.notes) % 2 else tuple(op[2])
                try:
                    track.add(what, where)
                except Exception as e:
                    mon.seen('refusals', (op[0], str(op[1:]), type(e).__name__))
                else:
                    mon.ensure(False, f'addition of {op} was not refused')
                mon.count('refused')
                refused = True
                if model.notes:
                    mon.nontrivial(repr((op, len(model.notes), str(model.length))))
            observe(mon, track, model)
            mon.ensure(all(isinstance(n, Note) and isinstance(p, Signature) for p, n in track),
                       'something that is not a note is in the track')
        mon.ensure(track == track and repr(track) is not None, 'track unusable after a refused addition')


def note_one(g):
    return [g.pitch(), g.sig(10, 40), g.vel()]
