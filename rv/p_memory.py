"""What the library holds on to: live memory after work, size of results, growth of the peak."""
import gc
import io
import os
import tracemalloc

from . import smf
from .engine import SRC, Prop
from .gen import G, any_notes, build_track, note_of
from .p_cost import C30
from .p_env import perform
from .p_codec import make_op

KINDS = ('dumps', 'module_dumps', 'loads', 'bad_loads', 'bad_dumps', 'state', 'chord', 'notation', 'sig', 'note', 'tone', 'track', 'equal',
         'level', 'life', 'derive', 'same_writer', 'same_reader', 'growing')
SLACK = 2048
PEAK = 24                       # for 8 times the music


class Traced:
    def __init__(self, frames):
        self.frames = frames

    def __enter__(self):
        gc.collect()
        tracemalloc.start(self.frames)

    def __exit__(self, *_):
        tracemalloc.stop()


def live():
    """Bytes that are allocated now by lines of the library, or on their behalf."""
    gc.collect()
    snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, os.path.join(SRC, 'melodia', '*'), all_frames=True)])
    return sum(s.size for s in snap.traces)


def held(fn):
    """(value, bytes) that are still allocated when fn() has returned."""
    gc.collect()
    before = tracemalloc.get_traced_memory()[0]
    value = fn()
    gc.collect()
    return value, tracemalloc.get_traced_memory()[0] - before


class C34(Prop):
    id = 'C34'
    rule = ('(1) hundreds of different operations of one kind, failing ones included, with live memory of the library compared halfway and at '
            'the end; (2) tracks read from files, and single channels of files, padded with up to 300 kB of other channels and '
            'unsupported events, randomized and copied tracks, and readers and writers kept after use, measured against the same '
            'track built note by note; (3) peak memory of building, writing, reading and deriving n and 8n notes; '
            'non-trivial: every measurement')
    budget = {'quick': 28, 'thorough': 800}
    requires = {'retention_measured': 100, 'results_measured': 200, 'peaks_measured': 200, 'kinds': len(KINDS), 'operations': 20000}
    shrinkable = False
    coverage = False
    case_cpu_s = 400

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            if i % 4 < 2:
                yield {'k': 'kept', 'kind': KINDS[(shard * 5 + i // 4 * 2 + i % 4) % len(KINDS)], 'seed': g.r.randrange(1 << 30)}
            elif i % 4 == 2:
                yield {'k': 'result', 'seed': g.r.randrange(1 << 30)}
            else:
                yield {'k': 'peak', 'kind': C30.KINDS[(i // 4 + shard) % len(C30.KINDS)], 'n': g.choice((150, 250)), 'seed': g.r.randrange(1 << 30),
                       'dens': g.choice(([16], [4, 8, 16, 64], [1, 2, 1024, 1 << 20])), 'keys': g.choice((1, 12, 80)), 'spread': g.choice((1, 4, 1000)),
                       'sig': [3, 4]}

    def run(self, case, mon):
        with Traced(4 if case['k'] == 'kept' else 1):
            getattr(self, case['k'])(case, mon)

    def operation(self, g, kind, kept):
        from melodia.core import Signature, Track
        from melodia.io import midi
        if kind == 'derive':
            n = kept.setdefault('note', note_of([60, [3, 8], 0.5]))
            n = n.transposed(g.r.choice((-1, 1))).with_velocity(g.r.random()).with_duration((g.r.randrange(99), 64))
            kept['note'] = n
            s = kept.get('sig', Signature(1, 4))
            s = s + Signature(g.r.randrange(5), 1 << g.r.randrange(5))
            kept['sig'] = Signature(s.nominator % 64, s.denominator).normalized()
            _ = s * s, abs(s), s.to(1 << 40), s < kept['sig'], repr(n), n.tone.transposed(1).to_notation()
        elif kind == 'same_writer':
            w = kept.setdefault('w', midi.MIDIWriter(480, 'C4', 99.5, 3))
            try:
                w.dumps(build_track([4, 4], any_notes(g, g.r.randint(0, 8), -10, 60 if g.chance(0.9) else 500, most=8, rare=8)))
            except ValueError:
                pass
        elif kind == 'same_reader':
            r = kept.setdefault('r', midi.MIDIReader('C4'))
            data = bytes.fromhex(make_op(g, g.choice(('loads', 'bad_loads', 'state')))['hex'])
            try:
                r.loads(data, g.choice((None, None, 0, 5)))
            except (ValueError, midi.MIDIError):
                pass
        elif kind == 'growing':
            # a track that is there for long, and only looked at
            t = kept.setdefault('t', build_track([4, 4], any_notes(g, 40, 0, 90, most=40, rare=8)))
            _ = list(t), repr(t), t == Track(), len(t), t.length, midi.dumps(t), t == build_track([4, 4], any_notes(g, 3, 0, 90, most=5))
            try:
                t.add(object(), (1, 4))
            except Exception:
                pass
        else:
            perform(make_op(g, kind))

    def kept(self, case, mon):
        import random
        g = G(random.Random(case['seed']))
        kept, kind = {}, case['kind']

        def some(k):
            for _ in range(k):
                self.operation(g, kind, kept)
            mon.count('operations', k)
        some(150)
        a = live()
        some(150)
        b = live()
        rounds = 0
        while b - a > 512 * 2 ** rounds and rounds < 7:      # perhaps something of limited size that fills up
            rounds += 1
            a = b
            some(150 * 2 ** rounds)
            b = live()
        mon.ensure(b - a <= 512 * 2 ** rounds, f'operations of the kind {kind} leave something behind in memory for ever', got=b, expected=a)
        mon.count('retention_measured')
        mon.count('needed more rounds', rounds)
        mon.seen('kinds', kind)
        mon.nontrivial(repr(('kept', kind, case['seed'])))

    def result(self, case, mon):
        import copy
        import pickle
        import random
        from melodia.core import Note, Signature, Track
        from melodia.io import midi
        from melodia.processing.track import randomize_velocities
        g = G(random.Random(case['seed']))
        r = g.r
        n, junk = r.choice((0, 1, 5, 40, 250)), r.choice((300, 1500, 6000))
        channels = r.choice(([0], [3, 9], list(range(16))))
        wanted = r.choice([None] + channels)
        model, time = [], 0
        for i in range(n):
            time += r.randrange(300)
            model.append((r.choice(channels) if wanted is None or r.random() < 0.7 else wanted, r.randrange(128), time))
        others = [c for c in range(16) if c != wanted] if wanted is not None else []

        def file():
            events, now = [], 0
            for ch, key, at in model:
                events.append([at - now, 0, 'chan', 0x90 | ch, [key, 64], True])
                events.append([0, 0, 'chan', 0x80 | ch, [key, 64], True])
                now = at
            body = [smf.encode_body(events, eot=False)]
            for _ in range(junk):
                k = r.random()
                if k < 0.3:
                    body.append(b'\0\xb0\x07\x40')
                elif k < 0.5 and others:
                    ch, key = r.choice(others), r.randrange(128)
                    body.append(bytes((0, 0x90 | ch, key, 64, 1, 0x80 | ch, key, 0)))
                elif k < 0.6:
                    body.append(bytes((0, 0x80, r.randrange(128), 0)))
                else:
                    body.append(b'\0\xf0\x20' + bytes(32) if k < 0.8 else b'\0\xff\x01\x30' + bytes(48))
            body.append(b'\0\xff\x2f\0')
            return smf.header(96) + smf.chunk(b'XTRA', bytes(junk)) + smf.chunk(b'MTrk', b''.join(body)) + smf.chunk(b'ABCD', bytes(junk * 3))

        def read(how):
            data = file()
            if how == 'loads':
                return midi.loads(data, wanted)
            if how == 'reader':
                return midi.MIDIReader('C3').load(io.BytesIO(data), wanted)
            reader = midi.MIDIReader('C3')
            return reader.loads(data, wanted), reader

        def check(what, fn, limit):
            fn()                                   # once-only allocations
            value, size = held(fn)
            mon.count('results_measured')
            mon.ensure(size <= limit + SLACK, f'{what} holds on to {size} bytes, the same music built note by note to {limit}',
                       got=size, expected=limit)
            return value

        wanted_notes = wanted is None or any(c == wanted for c, _, _ in model)
        if wanted is not None and not wanted_notes:
            model.append((wanted, 60, time))
        t = midi.loads(file(), wanted)
        content = [(note.tone.pitch, (note.duration.nominator, note.duration.denominator), note.velocity,
                    (p.nominator, p.denominator)) for p, note in t]

        def by_hand():
            u = Track((4, 4))
            for pitch, dur, vel, pos in content:
                u.add(Note(pitch, dur, float(str(vel))), Signature(*pos))
            list(u)
            return u
        by_hand()
        _, limit = held(by_hand)
        limit = int(limit * 1.25) + 16 * len(content)
        for how in ('loads', 'reader', 'kept reader'):
            check(f'a track read ({how}) from a file with {junk} other events', lambda: read(how), limit)
        check('a randomized copy', lambda: randomize_velocities(by_hand()), limit)
        check('a rebuilt track', lambda: Track((4, 4), [(note, p) for p, note in by_hand()]), limit)
        for what, fn in (('a copy', copy.deepcopy), ('a pickled copy', lambda u: pickle.loads(pickle.dumps(u)))):
            try:
                fn(by_hand())
            except TypeError:                      # whether that works is C28's business
                continue
            # objects made by copying may take more room than those made by a constructor
            _, single = check(what, lambda: fn(by_hand()), limit * 3), held(lambda: fn(by_hand()))[1]

            def copies():
                u = by_hand()
                for _ in range(8):
                    u = fn(u)
                return u
            check(f'{what} of a copy, eight times', copies, int(max(single, limit) * 1.25))

        def wrote():
            w = midi.MIDIWriter(96, 'C3')
            big = Track((4, 4), [(Note(r.randrange(30, 60)), (i, 8)) for i in range(junk // 10 + 200)])
            w.dumps(big)
            f = io.BytesIO()
            w.dump(big, f)
            return w
        check('a writer after use', wrote, 0)

        def taken():
            big = by_hand()
            big.add([Note(r.randrange(90)) for _ in range(junk // 10 + 200)])
            return next(iter(list(big)))
        check('one note taken out of a track', taken, 0)

        def chain(*how):
            note, sig = Note(5), Signature(1, 4)
            for i in range(300):
                k = how[i % len(how)]
                if k == 't':
                    note = note.transposed(1)
                elif k == 'v':
                    note = note.with_velocity(i / 500)
                elif k == 'd':
                    note = note.with_duration(sig)
                elif k == 'n':
                    sig = Signature(sig.nominator * 4, sig.denominator * 4).normalized()
                elif k == '+':
                    sig = Signature(sig.nominator % 8, sig.denominator) + sig.to(64)
                    sig = Signature(sig.nominator % 8, sig.denominator)
                elif k == '*':
                    sig = sig * Signature(1, 1)
                elif k == 'a':
                    sig = abs(sig)
                else:
                    sig = sig.to(max(64, sig.denominator))
            return note, sig
        for how in ('t', 'v', 'd', 'n', '+', '*', 'a', 'o', ''.join(r.choice('tvdn+*ao') for _ in range(r.randint(2, 8)))):
            check(f'a value derived in many steps ({how})', lambda: chain(*how), 0)

        def again():
            u = by_hand()
            for _ in range(12):
                u = randomize_velocities(u)
            return u
        check('a track randomized many times', again, limit)

        def refined():
            u = Track((4, 4), [(Note(5), (i, 1)) for i in range(n)])
            for i in range(20):
                u.add(Note(6), (1, 2 << i))
                list(u)
            return u

        def fine():
            u = Track((4, 4), [(Note(6), (1, 1 << 20))] + [(Note(5), (i, 1)) for i in range(n)] + [(Note(6), (1, 2 << i)) for i in range(19)])
            list(u)
            return u
        fine()
        check('a track of which the resolution was refined step by step', refined, int(held(fine)[1] * 1.25))

        def looked_at():
            u = by_hand()
            for _ in range(15):
                _ = list(u), repr(u), str(u), u == Track(), u.length
                if all(0 <= x[0] + 24 <= 127 for x in content):
                    midi.dumps(u)
            return u
        check('a track looked at many times', looked_at, limit)
        mon.nontrivial(repr(('result', case['seed'])))

    def peak(self, case, mon):
        from melodia.io import midi
        from melodia.processing.track import randomize_velocities
        maker = C30()

        def measure(n):
            got = {}

            def peak(name, fn):
                gc.collect()
                tracemalloc.reset_peak()
                before = tracemalloc.get_traced_memory()[0]
                v = fn()
                got[name] = tracemalloc.get_traced_memory()[1] - before
                return v
            plan = maker.plan(case, n)
            t = peak('building', maker.build(case, plan))
            peak('iterating', lambda: [0 for _ in t])
            u = maker.build(case, plan)()
            peak('comparing', lambda: t == u)
            peak('printing', lambda: repr(t))
            peak('randomizing', lambda: randomize_velocities(t))
            data = peak('writing', lambda: midi.dumps(t))
            peak('reading', lambda: midi.loads(data))
            return got
        measure(20)
        small, large = measure(case['n']), measure(case['n'] * 8)
        for name, b in large.items():
            mon.count('peaks_measured')
            mon.ensure(b <= PEAK * small[name] + 64 * 1024, f'{name} takes {b} bytes at most, for an eighth of the music {small[name]} ({case["kind"]})',
                       got=b, expected=small[name])
        mon.nontrivial(repr(('peak', case['seed'])))
        worst = max(large[k] / (small[k] + 8192) for k in large)
        mon.count('peak growth up to 10' if worst <= 10 else 'peak growth over 10')
