"""Chords, the chord generator, and velocity randomization."""
import importlib.util
import math
import os
import random
import subprocess
import sys
import tempfile
from fractions import Fraction

from .engine import REPO, SRC, Prop
from .gen import G, Subclasses, any_notes, build_track, case_model, fr, notation, note_model, time_signature, track_model
from .p_track import Model, observe

# The documented chords, as music theory defines them.
CHORDS = {}
for _names, _ints in (
        ('major maj', (0, 4, 7)), ('minor min', (0, 3, 7)), ('augmented aug', (0, 4, 8)),
        ('diminished dim', (0, 3, 6)), ('suspended4 sus4', (0, 5, 7)), ('suspended2 sus2', (0, 2, 7)),
        ('major7 maj7', (0, 4, 7, 11)), ('minor7 min7', (0, 3, 7, 10)), ('dominant7 dom7', (0, 4, 7, 10)),
        ('dominant7b5 dom7b5', (0, 4, 6, 10)), ('diminished7 dim7', (0, 3, 6, 9)),
        ('minor7b5 min7b5', (0, 3, 6, 10)), ('diminished_major7', (0, 3, 6, 11)), ('minor_major7', (0, 3, 7, 11)),
        ('augmented_major7 major7s5 maj7s5', (0, 4, 8, 11)), ('augmented_minor7 augmented7 aug7', (0, 4, 8, 10)),
        ('major9 maj9', (0, 4, 7, 11, 14)), ('minor9 min9', (0, 3, 7, 10, 14)), ('dominant9 dom9', (0, 4, 7, 10, 14)),
        ('dominant_minor9 min7b9', (0, 4, 7, 10, 13)), ('minor69 min69', (0, 4, 7, 9, 14)), ('added9 add9', (0, 4, 14)),
        ('major11 maj11', (0, 4, 7, 11, 14, 17)), ('minor11 min11', (0, 3, 7, 10, 14, 17)),
        ('dominant11 dom11', (0, 4, 7, 10, 14, 17))):
    for _n in _names.split():
        CHORDS[_n] = _ints


def chord_args(g):
    base = g.choice(('int', 'str', 'flat', 'tone', 'note', 'note', 'my_note', 'my_tone', 'my_int', 'my_str'))
    return {'base': base, 'pitch': g.choice((0, 36, 48, 60, -12, 127)) if g.chance(0.3) else g.int(-300, 300),
            'bd': g.sig(8, 20), 'bv': g.vel(),
            'dur': None if g.chance(0.4) else g.choice(([0, 1], [1, 4], [1, 1])) if g.chance(0.3) else g.sig(8, 20),
            'dk': g.choice(('tuple', 'sig', 'list', 'my_sig')),
            'vel': None if g.chance(0.4) else g.choice((0.0, 0.75, 1.0, 0)) if g.chance(0.4) else g.vel(),
            'kw': g.r.randrange(3)}


def call_chord(fn, a):
    from melodia.core import Note, Signature, Tone
    MyTone, MySignature, MyNote, MyInt, MyStr = Subclasses.get()
    p = a['pitch']
    bases = {'int': lambda: p, 'str': lambda: notation(p), 'tone': lambda: Tone(p),
             'flat': lambda: Tone(p).to_notation(transpose_down=True),
             'note': lambda: Note(p, tuple(a['bd']), a['bv']),
             'my_note': lambda: MyNote(p, tuple(a['bd']), a['bv']), 'my_tone': lambda: MyTone(p),
             'my_int': lambda: MyInt(p), 'my_str': lambda: MyStr(notation(p))}
    base = bases[a['base']]()
    dur = None if a['dur'] is None else {'tuple': lambda: tuple(a['dur']), 'list': lambda: list(a['dur']),
                                         'sig': lambda: Signature(*a['dur']),
                                         'my_sig': lambda: MySignature(*a['dur'])}[a['dk']]()
    before = note_model(base) if isinstance(base, Note) else None
    if a['kw'] == 0:
        r = fn(base, dur, a['vel'])
    elif a['kw'] == 1:
        r = fn(base, velocity=a['vel'], duration=dur)
    else:
        kw = {}
        if dur is not None:
            kw['duration'] = dur
        if a['vel'] is not None:
            kw['velocity'] = a['vel']
        r = fn(base=base, **kw)
    return r, base, before


def expected_chord(intervals, a):
    note = a['base'] in ('note', 'my_note')
    dur = Fraction(*a['dur']) if a['dur'] is not None else Fraction(*a['bd']) if note else Fraction(1, 4)
    vel = a['vel'] if a['vel'] is not None else a['bv'] if note else 0.75
    return [(a['pitch'] + i, dur, vel) for i in intervals]


class C20(Prop):
    id = 'C20'
    rule = ('every chord name with bases of every kind (integer, sharp and flat notation, tone, note), inherited and '
            'overridden duration and velocity (including zero values); non-trivial: distinct chord, base kind and '
            'argument combination')
    budget = {'quick': 30000, 'thorough': 150000}
    requires = {'chords_built': 20000, 'names': len(CHORDS), 'zero_overrides': 500, 'inherited': 500}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        names = sorted(CHORDS)
        for i, name in enumerate(names):
            if i % 8 == shard:
                for p in list(range(-24, 132)):
                    yield {'name': name, **chord_args(g), 'pitch': p}
        for _ in range(n):
            yield {'name': g.choice(names), **chord_args(g)}

    def run(self, case, mon):
        from melodia.core import Note, Track
        from melodia.music import chord
        name = case['name']
        fn = getattr(chord, name, None)
        mon.ensure(callable(fn), f'chord {name} does not exist')
        notes, base, before = call_chord(fn, case)
        want = expected_chord(CHORDS[name], case)
        mon.ensure(isinstance(notes, tuple) and all(isinstance(x, Note) for x in notes),
                   f'{name} returned {notes!r}')
        got = [note_model(x) for x in notes]
        mon.ensure(got == want, f'chord {name} on {case["base"]} pitch {case["pitch"]} is {got}, expected {want}')
        if before is not None:
            mon.ensure(note_model(base) == before, 'building a chord changed its base note')
        mon.count('chords_built')
        mon.seen('names', name)
        mon.count('zero_overrides', case['vel'] == 0 or (case['dur'] or [1])[0] == 0)
        mon.count('inherited', case['base'] in ('note', 'my_note') and (case['dur'] is None or case['vel'] is None))
        mon.nontrivial((name, case['base'], case['pitch'], str(case['dur']), case['vel'], case['kw']))
        t = Track()
        t.add(notes)
        t.add(notes)
        mon.ensure(len(t) == 2 * len(want) and fr(t.length) == 2 * want[0][1],
                   f'two {name} chords in a row make a track of {len(t)} notes and length {t.length}')


class C21(Prop):
    id = 'C21'
    rule = ('the generator script run into a scratch file, the generated module imported and each of its chord '
            'functions compared with the shipped one and with the chord table on random arguments, runs with different '
            'hash seeds compared with each other; non-trivial: '
            'distinct function and argument combination')
    budget = {'quick': 9000, 'thorough': 60000}
    requires = {'functions': len(CHORDS), 'comparisons': 10000, 'generator_runs': 8}
    shrinkable = False
    _mod = None

    def module(self, stale):
        if self._mod is not None:
            return self._mod
        script = os.path.join(REPO, 'scripts', 'generate_chords.py')
        with tempfile.TemporaryDirectory(prefix='rv-gen-') as d:
            out = os.path.join(d, 'generated_chords.py')
            if stale:
                with open(out, 'w') as f:
                    f.write('stale = 1\n' * stale + '(((')       # the output of an earlier, longer run
            env = dict(os.environ, PYTHONPATH=SRC, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='1')
            p = subprocess.run([sys.executable, '-B', script, out if stale else os.path.basename(out)], cwd=d, env=env, capture_output=True, text=True,
                               timeout=120)
            if p.returncode != 0:
                return RuntimeError(f'the generator failed: {p.stderr[-600:]}')
            if os.listdir(d) != ['generated_chords.py']:
                return RuntimeError(f'the generator left {os.listdir(d)}')
            with open(out, 'rb') as f:
                first = f.read()
            for seed in range(2, 6):             # another run, with another order of sets
                subprocess.run([sys.executable, '-B', script, out], cwd=d, env=dict(env, PYTHONHASHSEED=str(seed)), capture_output=True,
                               timeout=120)
                with open(out, 'rb') as f:
                    if f.read() != first:
                        return RuntimeError('another run of the generator produces another module')
            spec = importlib.util.spec_from_file_location('rv_generated_chords', out)
            m = importlib.util.module_from_spec(spec)
            try:
                spec.loader.exec_module(m)
            except Exception as e:
                return RuntimeError(f'the generated module cannot be imported: {e!r}')
        self._mod = m
        return m

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for name in sorted(CHORDS):
            for _ in range(8):
                yield {'name': name, **chord_args(g), 'stale': (0, 0, 10, 100000)[shard % 4]}
        for _ in range(n):
            yield {'name': g.choice(sorted(CHORDS)), **chord_args(g), 'stale': (0, 0, 10, 100000)[shard % 4]}

    def run(self, case, mon):
        from melodia.music import chord
        first = self._mod is None
        m = self.module(case.get('stale', 0))
        mon.ensure(not isinstance(m, Exception), str(m))
        if first:
            mon.count('generator_runs')
            for name, fn in vars(m).items():
                if callable(fn) and not name.startswith('_') and getattr(fn, '__module__', '') == m.__name__:
                    mon.ensure(callable(getattr(chord, name, None)), f'generated chord {name} is not in the library')
        name = case['name']
        mon.ensure(callable(getattr(m, name, None)), f'the generator does not produce {name}')
        a, _, _ = call_chord(getattr(m, name), case)
        b, _, _ = call_chord(getattr(chord, name), case)
        a, b = [note_model(x) for x in a], [note_model(x) for x in b]
        mon.ensure(a == b, f'{name}: the generator produces {a}, the library {b}')
        mon.ensure(a == expected_chord(CHORDS[name], case), f'{name}: generated chord is {a}')
        mon.count('comparisons')
        mon.seen('functions', name)
        mon.nontrivial((name, case['base'], case['pitch'], str(case['dur']), case['vel']))


class C22(Prop):
    id = 'C22'
    rule = ('random tracks (duplicates, equal positions, unread and already read) with random bounds, mean and '
            'variance (degenerate, extreme, mean outside the bounds); result compared with the input note by note; '
            'non-trivial: at least two notes')
    budget = {'quick': 4800, 'thorough': 40000}
    requires = {'calls': 5000, 'velocities': 20000, 'zero_variance': 300, 'at_minimum': 200, 'at_maximum': 200}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            size = min(g.count(8), 100) if _ % (n // 2 + 1) != 1 else g.big(1000, 5000) if shard != 4 else 40000 if _ == 1 else 17000
            notes = any_notes(g, size, -60, 140, most=10 if size > 100 else 14, rare=10 if size > 100 else 40)
            lo, hi = sorted((g.choice((0.0, 0.5, 1.0, g.r.random())), g.choice((0.0, 1.0, 1.0, g.r.random()))))
            if g.chance(0.1):
                hi = lo
            if g.chance(0.2):
                lo, hi = (int(x) if x == int(x) else x for x in (lo, hi))
            args = {'minimum': lo, 'maximum': hi, 'mean': g.choice((0.0, 1.0, 0, 1, 0.75, g.r.random())),
                    'variance': g.choice((0, 0.0, 0.01, 0.0001, 1.0, 100.0, 1e-12, g.r.random()))}
            if g.chance(0.1):
                args = {}
            elif g.chance(0.3):
                # some of the arguments omitted
                args = {k: v for k, v in args.items() if g.chance(0.5)}
                if args.get('minimum', 0.5) > args.get('maximum', 1.0):
                    args = {'variance': 0}
            elif g.chance(0.05):
                args = {'variance': 0, 'mean': g.choice((0.0, 1.0))}
            yield {'sig': time_signature(g), 'notes': notes, 'args': args, 'positional': len(args) == 4 and g.chance(0.3), 'read': g.chance(0.5),
                   'seed': g.r.randrange(1 << 30), 'twice': g.chance(0.2), 'printed': g.chance(0.3)}

    def run(self, case, mon):
        from melodia.core import Note, Track
        from melodia.processing.track import randomize_velocities
        random.seed(case['seed'])
        t = build_track(case['sig'], case['notes'])
        if case['read']:
            list(t)
        if case.get('printed'):
            for x in [t] + [n for _, n in t] * (len(case['notes']) < 100):
                repr(x), str(x)
        model = Model()
        for p, n in case_model(case['notes']):
            model.add([n], p)
        args = case['args']
        if case.get('positional'):
            r = randomize_velocities(t, *(args[k] for k in ('minimum', 'maximum', 'mean', 'variance')))
        else:
            r = randomize_velocities(t, **args)
        if case['twice']:
            mid = r
            r = randomize_velocities(r, **args)
            mon.ensure(len(mid) == len(r), 'randomizing twice lost notes')
        lo, hi = args.get('minimum', 0.5), args.get('maximum', 1.0)
        mon.count('calls')
        mon.ensure(isinstance(r, Track) and r is not t, 'the result is not a new track')
        got = track_model(r)
        mon.ensure(sorted((p, n[0], n[1]) for p, n in got) == sorted((p, n[0], n[1]) for p, n in model.notes),
                   'randomizing velocities changed something other than velocities', got=got, expected=model.notes)
        mon.ensure(all(a[0] <= b[0] for a, b in zip(got, got[1:])), 'positions are not in ascending order')
        mon.ensure((r.signature.nominator, r.signature.denominator) == tuple(case['sig']) and
                   fr(r.length) == model.length and len(r) == len(model.notes),
                   f'signature or length changed: {r.signature}, {r.length}')
        for _, n in got:
            mon.ensure(lo <= n[2] <= hi, f'velocity {n[2]} outside [{lo}, {hi}]')
            mon.count('at_minimum', n[2] == lo)
            mon.count('at_maximum', n[2] == hi)
        mon.count('velocities', len(got))
        if args.get('variance', 0.01) == 0:
            want = max(lo, min(hi, args.get('mean', 0.75)))
            mon.ensure(all(abs(n[2] - want) < 1e-12 for _, n in got),
                       f'with zero variance velocities should all be {want}', got=[n[2] for _, n in got][:20])
            mon.count('zero_variance')
        observe(mon, t, model)                        # the input is untouched
        again = Track(r.signature)
        for at, note in reversed(list(r)):
            again.add(note, at)
        mon.ensure(again == r and r == again and track_model(again) == got, 'the result is not equal to a track of the same notes', got=got)
        if case.get('printed'):
            rebuilt = eval(repr(r), {'Track': Track, 'Note': Note})
            mon.ensure(rebuilt == r and sorted(repr(n) for _, n in r) == sorted(repr(Note(n.tone.pitch, n.duration, n.velocity)) for _, n in r),
                       'the result does not print like a track of its notes')
            mon.count('printed')
        after = Model()
        for at, n in got:
            after.add([n], at)
        late = [10 ** 6, 1]
        for where in ([late], [late, None], [[3, 1 << len(got) % 70]], [None, [1, 2]])[len(got) % 4]:
            r.add(Note(0, (1, 4)), where and tuple(where))
            after.add([(0, Fraction(1, 4), 0.75)], where and Fraction(*where))
        observe(mon, t, model)                        # and independent of the result
        observe(mon, r, after)                        # which goes on as any other track
        if len(got) > 1:
            mon.nontrivial(repr((case['notes'], args)))


class C23(Prop):
    id = 'C23'
    rule = ('large tracks randomized with bounds far from the mean; sample mean, variance, skew, kurtosis, serial '
            'correlation and correlation with the old velocities, with tone and place and with another call, compared '
            'with independent samples of the requested normal distribution at eight standard errors; non-trivial: '
            'every call')
    budget = {'quick': 32, 'thorough': 400}
    requires = {'samples_drawn': 100000, 'calls': 50, 'correlations': 300, 'calls_on_shared_notes': 10}
    assumptions = ['a correct implementation passes with probability above 1 - 1e-12 per statistic']
    shrinkable = False
    MANY = ('one track', 'chords', 'many short tracks')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        if shard in (0, 5) or tier == 'thorough':
            yield {'deep': 400000, 'mean': g.choice((0.5, 0.4375)), 'variance': g.choice((0.0025, 0.0001, 1e-10)),
                   'seed': g.r.randrange(1 << 30), 'cpu_s': 300}
        for i in range(n):
            mean = g.choice((0.5, 0.4, 0.6, 0.55, 0.45, round(g.r.uniform(0.35, 0.65), 3)))
            std = g.choice((0.05, 0.02, 0.01, 0.04, 0.001, 1e-5, 1e-7))
            yield {'mean': mean, 'variance': std * std, 'n': g.choice((4000, 4000, 6000, 10000)) if i % 8 != 7 else 20000,
                   'shape': self.MANY[i % 3] if i % 8 < 6 else self.MANY[0], 'seed': g.r.randrange(1 << 30),
                   'clamp': i % 8 == 6, 'default': i % 8 == 7, 'short': g.choice((1, 2, 3, 5, 10, 25)),
                   'pool': g.choice((0, 0, 6, 40, 300))}

    def run(self, case, mon):
        from melodia.core import Note, Track
        from melodia.processing.track import randomize_velocities
        random.seed(case['seed'])
        g = random.Random(case['seed'] + 1)
        if 'deep' in case:
            return self.deep(case, mon)
        n = case['n']
        mean, var = case['mean'], case['variance']
        std = math.sqrt(var)
        tones = [g.randint(-20, 100) for _ in range(n)]
        before = [g.choice((0.0, 1.0, 0.75, g.random(), g.random())) for _ in range(n)]
        lengths = [g.randint(0, g.choice((1, 3, 16))) for _ in range(n)]

        objects = {}
        if case['shape'] == 'chords':
            # equal notes of a chord come back in the order of their new velocities
            case = {**case, 'pool': 0}
        if case.get('pool'):
            # few notes, each of them many times in the track
            kinds = [(g.randint(-20, 100), i / case['pool'], g.randint(0, 16)) for i in range(case['pool'])]
            tones, before, lengths = zip(*(g.choice(kinds) for _ in range(n)))
            mon.count('calls_on_shared_notes')

        def track(first, last, chord=1):
            t = Track()
            for i in range(first, last):
                note = Note(tones[i], (lengths[i], 8 << i % 2), before[i])
                if case.get('pool'):
                    note = objects.setdefault((tones[i], before[i], lengths[i], i % 2), note)
                t.add(note, (i // chord, 8))
            return t

        def sample(**kw):
            """New velocities in the order of the notes (one note per position) or in some order (chords)."""
            xs = []
            if case['shape'] == 'many short tracks':
                for first in range(0, n, case['short']):
                    xs += [x.velocity for _, x in randomize_velocities(track(first, min(n, first + case['short'])), **kw)]
            else:
                t = track(0, n, 10 if case['shape'] == 'chords' else 1)
                xs = [x.velocity for _, x in randomize_velocities(t, **kw)]
            mon.count('calls')
            mon.count('samples_drawn', n)
            mon.ensure(len(xs) == n, f'{n} notes became {len(xs)}')
            return xs

        def correlation(xs, ys):
            mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
            vx, vy = sum((x - mx) ** 2 for x in xs), sum((y - my) ** 2 for y in ys)
            return sum((x - mx) * (y - my) for x, y in zip(xs, ys)) / math.sqrt(vx * vy) if vx * vy else 0.0

        mon.nontrivial(repr(case))
        if case['default']:
            # defaults: mean 0.75, variance 0.01, clamped to [0.5, 1.0]; each bound is 2.5 sigma away
            xs = sample()
            p = 0.00620967
            for bound in (0.5, 1.0):
                k = sum(x == bound for x in xs)
                mon.ensure(abs(k - n * p) <= 8 * math.sqrt(n * p), f'{k} of {n} default velocities at {bound}')
            m = sum(xs) / n
            mon.ensure(abs(m - 0.75) < 8 * 0.1 / math.sqrt(n), f'default velocities average {m}')
            v = sum((x - m) ** 2 for x in xs) / n
            mon.ensure(abs(v - 0.0097756) < 8 * 0.0098 * math.sqrt(2 / n), f'default velocities have variance {v}')
            return
        if case['clamp'] and case['seed'] % 2:
            # any mean, variance and bounds: the share of samples up to any velocity follows from the normal distribution
            mean = g.choice((0.0, 1.0, mean, g.random(), 0.25))
            std = g.choice((std, 0.3, 1.0, 10.0, 100.0, 0.1))
            low, high = sorted((max(0.0, min(1.0, mean + g.uniform(-2, 2) * std)), max(0.0, min(1.0, mean + g.uniform(-2, 2) * std))))
            xs = sample(minimum=low, maximum=high, mean=mean, variance=std * std)
            for q in [low] + [low + (high - low) * k / 10 for k in range(1, 10)]:
                p = 0.5 * (1 + math.erf((q - mean) / std / math.sqrt(2)))
                k = sum(x <= q for x in xs)
                if q < high:
                    mon.ensure(abs(k - n * p) <= 8 * math.sqrt(n * p * (1 - p)) + 12,
                               f'{k} of {n} velocities up to {q}, expected {n * p} (mean {mean}, sigma {std}, '
                               f'bounds {low} and {high})')
            mon.count('shares', 10)
            return
        if case['clamp']:
            # bounds at the mean and one sigma above: half and 16 percent of the samples sit on them
            xs = sample(minimum=mean, maximum=mean + std, mean=mean, variance=var)
            for bound, p in ((mean, 0.5), (mean + std, 0.158655)):
                k = sum(x == bound for x in xs)
                mon.ensure(abs(k - n * p) <= 8 * math.sqrt(n * p * (1 - p)), f'{k} of {n} velocities at the bound {bound}')
            return
        # the bounds are at least seven sigma away
        xs = sample(minimum=0.0, maximum=1.0, mean=mean, variance=var)
        m = sum(xs) / n
        v = sum((x - m) ** 2 for x in xs) / (n - 1)
        mon.ensure(abs(m - mean) <= 8 * std / math.sqrt(n), f'mean {mean} requested, {m} over {n} notes')
        mon.ensure(abs(v - var) <= 8 * var * math.sqrt(2 / n), f'variance {var} requested, {v} over {n} notes')
        sk = sum((x - m) ** 3 for x in xs) / n / v ** 1.5
        mon.ensure(abs(sk) <= 8 * math.sqrt(6 / n), f'velocities are skewed: {sk}')
        ku = sum((x - m) ** 4 for x in xs) / n / v ** 2
        mon.ensure(abs(ku - 3) <= 10 * math.sqrt(24 / n), f'velocities are not normal: kurtosis {ku}')
        inside = sum(abs(x - mean) <= std for x in xs)
        mon.ensure(abs(inside - 0.6827 * n) <= 8 * math.sqrt(n * 0.2166), f'{inside} of {n} within one sigma')
        # independent samples of a continuous distribution: no repetitions, no mirror images, no special notes
        mon.ensure(len(set(xs)) >= n - 2, f'only {len(set(xs))} different velocities for {n} notes')
        near = {round((x - mean) / std, 9) for x in xs}
        k = sum(-y in near for y in near)
        mon.ensure(k <= 40, f'{k} of {n} velocities mirror another one')
        mon.ensure(mean not in xs, 'a velocity is exactly the mean')
        for k in range(2, n // 150):
            for j in range(k):
                part = xs[j::k]
                pm = sum(part) / len(part)
                pv = sum((x - pm) ** 2 for x in part) / len(part) / var
                mon.ensure(abs(pm - mean) <= 8 * std / math.sqrt(len(part)), f'notes {j} modulo {k} average {pm}, not {mean}')
                mon.ensure(0.3 < pv < 2.5, f'notes {j} modulo {k} have {pv} times the variance')
            mon.count('partitions')
        if case['shape'] == 'chords':
            return
        others = {'the old velocities': before, 'the tones': tones, 'the durations': lengths, 'the positions': range(n),
                  'another call': sample(minimum=0.0, maximum=1.0, mean=mean, variance=var)}
        for name, ys in others.items():
            mon.ensure(not any(x == y for x, y in zip(xs, ys)), f'a velocity equals {name}')
            c = correlation(xs, ys)
            mon.ensure(abs(c) <= 8 / math.sqrt(n), f'velocities are correlated with {name}: {c}')
            mon.count('correlations')
        squares = [((x - mean) / std) ** 2 for x in xs]
        for name, ys in {'loudness': before, 'tone': tones, 'octave': [t // 12 for t in tones], 'note name': [t % 12 for t in tones],
                         'odd tone': [t % 2 for t in tones], 'low tone': [int(t < 0) for t in tones], 'length': lengths,
                         'zero length': [int(k == 0) for k in lengths], 'silence': [int(v == 0.0) for v in before],
                         'default velocity': [int(v == 0.75) for v in before], 'maximum': [int(v == 1.0) for v in before],
                         'position': range(n), 'half': [int(2 * i < n) for i in range(n)], 'previous': [0] + squares[:-1]}.items():
            c = correlation(squares, ys)
            mon.ensure(abs(c) <= 9 / math.sqrt(n), f'the variance depends on {name}: {c}')
            c = correlation(xs, ys)
            mon.ensure(abs(c) <= 9 / math.sqrt(n), f'the mean depends on {name}: {c}')
            mon.count('correlations', 2)
        for lag in (1, 2, 3, 4, 5, 8, 10, 16, 25, 100):
            c = correlation(xs[:-lag], xs[lag:])
            mon.ensure(abs(c) <= 8 / math.sqrt(n - lag), f'velocities {lag} notes apart are correlated: {c}')
            mon.count('correlations')

    @staticmethod
    def deep(case, mon):
        """Enough samples to tell the normal distribution from its usual approximations."""
        from melodia.core import Note, Track
        from melodia.processing.track import randomize_velocities
        n, mean, std = case['deep'], case['mean'], math.sqrt(case['variance'])
        t = Track()
        for i in range(4000):
            t.add(Note(i % 100), (i, 8))
        zs = []
        for _ in range(n // 4000):
            zs += [(x.velocity - mean) / std for _, x in randomize_velocities(t, 0.0, 1.0, mean, case['variance'])]
        mon.count('samples_drawn', n)
        mon.count('calls', n // 4000)
        mon.nontrivial(repr(case))
        mon.ensure(len(zs) == n, f'{n} notes became {len(zs)}')
        for k, want, var in ((1, 0, 1), (2, 1, 2), (3, 0, 15), (4, 3, 96)):
            m = sum(z ** k for z in zs) / n
            mon.ensure(abs(m - want) <= 7 * math.sqrt(var / n), f'moment {k} of {n} standardised velocities is {m}, not {want}')
        ordered = sorted(zs)
        d = max(abs((i + 0.5) / n - 0.5 * (1 + math.erf(z / math.sqrt(2)))) for i, z in enumerate(ordered))
        mon.ensure(d < 0.0065, f'the distribution of {n} velocities is {d} away from the normal one')
        for limit, low, high in ((3, 800, 1380), (3.5, 90, 310), (4, 2, 80)):
            k = sum(abs(z) > limit for z in zs) * 400000 / n
            mon.ensure(low <= k <= high, f'{k} of 400000 velocities are more than {limit} sigma away')
        mon.count('deep_samples', n)
