"""Writing MIDI: written bytes are judged by an independent strict decoder; round trips by the track model."""
import errno
import io
import math
from fractions import Fraction

from . import smf
from .engine import Hang, KnownFinding, Prop, Violation
from .gen import (DICT_INTS, G, SIZES, any_notes, build_track, case_model, fr, make_middle_c, middle_c, pow2_part,
                  sized_cases, time_signature, track_model, voices)


def writer_config(g):
    return {'ppq': g.ppq(), 'mc': middle_c(g), 'bpm': g.bpm(), 'channel': g.r.randrange(16)}


def make_writer(c):
    from melodia.io.midi import MIDIWriter
    return MIDIWriter(pulses_per_quarter=c['ppq'], middle_c=make_middle_c(c['mc']), bpm=c['bpm'], channel=c['channel'])


def make_reader(c):
    from melodia.io.midi import MIDIReader
    return MIDIReader(middle_c=make_middle_c(c['mc']))


def keys_of(mc):
    """Pitches that fit MIDI's 128 keys with this middle C."""
    lo = mc[1] - 60
    return list(range(lo, lo + 128))


def grid_notes(g, c, n):
    unit_den = min(16384, pow2_part(4 * c['ppq']))
    den = unit_den if g.chance(0.5) else 1 << g.r.randint(0, unit_den.bit_length() - 1)
    return voices(g, n, keys_of(c['mc']), den, 4 * c['ppq'] // den)


def overlaps(notes):
    """Pitches whose notes overlap (in exact time)."""
    by = {}
    for pos, (p, d, v) in sorted(notes):
        by.setdefault(p, []).append((pos, d))
    bad = set()
    for p, xs in by.items():
        end = Fraction(0)
        for pos, d in sorted(xs):
            if pos < end:
                bad.add(p)
            end = max(end, pos + d)
    return bad


def same_notes(mon, got, want, what):
    """got/want: [(pos, (pitch, dur, vel))]; velocities to within one MIDI step."""
    got, want = sorted(got), sorted(want)
    mon.ensure(len(got) == len(want), f'{what}: {len(want)} notes became {len(got)}',
               got=got[:40], expected=want[:40])
    for (gp, gn), (wp, wn) in zip(got, want):
        mon.ensure(gp == wp and gn[0] == wn[0] and gn[1] == wn[1],
                   f'{what}: note {wn} at {wp} became {gn} at {gp}', got=got[:40], expected=want[:40])
        mon.ensure(abs(gn[2] - wn[2]) < 1 / 127 + 1e-9, f'{what}: velocity {wn[2]} became {gn[2]}')


class C01(Prop):
    id = 'C01'
    rule = ('tracks of several voices on the pulse grid (gaps and lengths at variable-length-quantity edges, repeated '
            'keys back to back, zero-length notes, many notes at one instant, extreme keys) written with random '
            'resolution, tempo, channel and middle C and read back; non-trivial: at least two notes')
    budget = {'quick': 2000, 'thorough': 30000}
    requires = {'roundtrips': 2000, 'notes': 10000, 'back_to_back': 500, 'zero_length': 300, 'channels': 16}
    assumptions = ['equal-pitch notes do not overlap', 'positions and durations lie on the pulse grid and 1/16384 grid',
                   'velocities are at least 1/127']

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        # every key, every channel
        for k in range(shard, 128, 8):
            c = {'ppq': 96, 'mc': ['str', 36], 'bpm': 120.0, 'channel': k % 16}
            yield {**c, 'sig': [4, 4], 'notes': [[[k - 24, [1, 4], 1.0], [0, 1]], [[k - 24, [1, 8], 0.5], [1, 4]]]}
        # every velocity step, every signature
        for v in range(1 + shard, 128, 8):
            c = {'ppq': 480, 'mc': ['int', 48], 'bpm': 100, 'channel': v % 16}
            yield {**c, 'sig': [v, 1 << (v % 8)], 'notes': [[[48, [v, 16], v / 127], [v, 32]]]}
        # long runs and large files
        for size in ((800, 2500, g.big(1000, 7000)) if tier == 'quick' else
                     (800, 2500, 9000, 30000, *(g.big(1000, 30000) for _ in range(12)))):
            c = writer_config(g)
            yield {**c, 'sig': time_signature(g), 'notes': grid_notes(g, c, size)}
        for notes in sized_cases(g, shard, -24):
            yield {'ppq': 16, 'mc': ['int', 36], 'bpm': g.bpm(), 'channel': g.r.randrange(16), 'sig': time_signature(g), 'notes': notes}
        if shard == 3:
            n_big = 33000 + g.r.randint(0, 999)
            yield {'ppq': 16, 'mc': ['int', 36], 'bpm': 120.0, 'channel': 0, 'sig': [4, 4], 'cpu_s': 240,
                   'notes': [[[i % 100, [1, 64], 0.5], [i, 64]] for i in range(n_big)]}
        # very far positions
        for e in range(10, 60, 5):
            c = writer_config(g)
            d = min(16384, pow2_part(4 * c['ppq']))
            k = keys_of(c['mc'])
            yield {**c, 'sig': [3, 4], 'notes': [[[g.choice(k), [1, d], 0.5], [(1 << e) + 1, d]],
                                                 [[g.choice(k), [(1 << e) + 3, d], 0.7], [0, 1]]]}
        for _ in range(n):
            c = writer_config(g)
            yield {**c, 'sig': time_signature(g), 'notes': grid_notes(g, c, g.count(12))}

    def run(self, case, mon):
        from melodia.core import Track
        want = case_model(case['notes'])
        if overlaps(want):
            # two far notes of the sweep may share a key; that is outside the property
            return
        t = build_track(case['sig'], case['notes'])
        w, r = make_writer(case), make_reader(case)
        data = w.dumps(t)
        back = r.loads(data)
        mon.count('roundtrips')
        mon.count('notes', len(want))
        mon.seen('channels', case['channel'])
        ends = {(p, pos + d) for pos, (p, d, v) in want if d}
        mon.count('back_to_back', sum((p, pos) in ends for pos, (p, d, v) in want))
        mon.count('zero_length', sum(d == 0 for pos, (p, d, v) in want))
        if len(want) > 1:
            mon.nontrivial(repr(case['notes']))
        mon.ensure(isinstance(back, Track), f'reading returned {type(back)}')
        same_notes(mon, track_model(back), want, 'round trip')
        sig = back.signature
        if case['sig'][0]:
            mon.ensure([sig.nominator, sig.denominator] == case['sig'],
                       f'time signature {case["sig"]} became {sig}')
        else:
            mon.ensure(sig.nominator == 0, f'time signature {case["sig"]} became {sig}')
        mon.ensure(fr(back.length) == fr(t.length), f'length {t.length} became {back.length}')
        if want:
            one = r.loads(data, channel=case['channel'])
            mon.ensure(track_model(one) == track_model(back), 'reading the written channel differs from reading all')
        # A second pass changes nothing, velocities included.
        again = r.loads(w.dumps(back))
        mon.ensure(sorted(track_model(again)) == sorted(track_model(back)) and again == back,
                   'a second round trip changed the track', first=track_model(back)[:40], second=track_model(again)[:40])
        if all(v == int(v * 127) / 127 for _, (p, d, v) in want):
            mon.ensure(back == t and t == back, 'the track read back is not equal to the original')
            mon.count('exactly_equal')


def pulses(x, ppq):
    return (4 * ppq * x.numerator) // x.denominator


def decode(mon, data, gap_exceeds):
    """Strict decoding; a delta time of five bytes or more is the known finding when a gap really is that long."""
    try:
        return smf.strict_decode(data), None
    except smf.SMFError as e:
        if e.code == 'vlq>4' and gap_exceeds:
            return smf.strict_decode(data, long_vlq=True), e
        raise Violation(f'the written file is not a valid Standard MIDI File: {e}', data=data[:400].hex())


def expected_events(notes, c):
    """Multiset of (time, is_on, key) and velocities per (time, key) for model notes."""
    evs = []
    for pos, (p, d, v) in notes:
        on = pulses(pos, c['ppq'])
        key = p + 60 - c['mc'][1]
        evs.append((on, 1, key))
        evs.append((on + pulses(d, c['ppq']), 0, key))
    return sorted(evs)


def longest_gap(evs):
    t, g = 0, 0
    for e in evs:
        g = max(g, e[0] - t)
        t = e[0]
    return g


class C02(Prop):
    id = 'C02'
    rule = ('arbitrary tracks (overlapping, duplicated, silent, off-grid, zero-length notes; any signature MIDI can '
            'hold) written with random settings; the bytes are judged by an independent strict SMF decoder and '
            'compared event by event with the track; non-trivial: at least two notes')
    budget = {'quick': 3750, 'thorough': 50000}
    requires = {'files_decoded': 2000, 'note_events': 10000, 'tempos': 40, 'signatures': 100, 'divisions': 40, 'files_of_edge_sizes': 50}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        base = {'ppq': 96, 'mc': ['str', 36], 'bpm': 120.0, 'channel': 0, 'sig': [4, 4]}
        for i, ppq in enumerate(range(1, 32768, 61)):
            if i % 8 == shard:
                yield {**base, 'ppq': ppq, 'notes': [[[36, [1, 4], 0.8], [1, 2]]]}
        for k in range(shard, 256, 8):
            yield {**base, 'sig': [k, 1 << k], 'notes': []}
        for k in range(shard, 128, 8):
            yield {**base, 'channel': k % 16, 'notes': [[[k - 24, [1, 4], k / 127], [k, 4]]]}
        # delta times around every power of two up to the limit of the format, alone and in sequence
        for e in range(0, 28):
            for d in (-1, 0, 1):
                v = (1 << e) + d
                if 0 <= v <= 0x0FFFFFFF and (e + d) % 8 == shard:
                    yield {**base, 'ppq': 1, 'notes': [[[36, [v, 4], 0.8], [v, 4]]]}
        for v in DICT_INTS:
            if 0 <= v <= 0x0FFFFFFF and v % 8 == shard:
                yield {**base, 'ppq': 1, 'notes': [[[36, [v, 4], 0.8], [v, 4]]]}
        if shard == 0:
            yield {**base, 'ppq': 1, 'notes': [[[36, [1, 4], 0.8], [0x10000000, 4]]]}
            yield {**base, 'ppq': 1, 'notes': [[[36, [1, 4], 0.8], [0x0FFFFFFF, 4]]]}
        for size in ((1500, g.big(1000, 7000)) if tier == 'quick' else
                     (1500, 9000, 20000, *(g.big(1000, 30000) for _ in range(12)))):
            c = writer_config(g)
            lo = c['mc'][1] - 60
            yield {**c, 'sig': time_signature(g), 'notes': any_notes(g, size, lo, lo + 127, most=10, rare=10)}
        for notes in sized_cases(g, shard, -24):
            yield {'ppq': 16, 'mc': ['int', 36], 'bpm': g.bpm(), 'channel': g.r.randrange(16), 'sig': time_signature(g), 'notes': notes,
                   'sized': True}
        for i in range(60):
            # by the module functions; tempi of all kinds, at and beyond the edges of what MIDI can hold
            bpm = g.choice((g.bpm(), g.bpm(), 1 / g.r.uniform(0.1, 0.5), 3.5762786, 3.5762788, 3.5763, 3.5, 1.0, 0.001, 6e7, 59999999.0, 1e5,
                            g.r.uniform(1e5, 6e7)))
            yield {**base, 'bpm': bpm, 'fraction': g.chance(0.4), 'edge': True, 'channel': g.r.randrange(16), 'notes': any_notes(g, g.r.randint(0, 3), -24, 103)}
        if shard == 2:
            yield {**base, 'big': 33000 + g.r.randint(0, 999), 'ppq': 192, 'cpu_s': 240}
        if shard == 7:
            # a track chunk of more than 2^24 bytes, cheap to build: the same few notes over and over
            yield {**base, 'repeat': 2100000 + g.r.randint(0, 5), 'at': [[0, 1], [1, 4]], 'cpu_s': 600}
        if tier == 'thorough' and shard == 1:
            yield {**base, 'big': 2100000, 'cpu_s': 900}
        for _ in range(n):
            c = writer_config(g)
            lo = c['mc'][1] - 60
            if g.chance(0.4):
                notes = grid_notes(g, c, g.count(12))
            else:
                notes = any_notes(g, g.count(10), lo, lo + 127)
            yield {**c, 'sig': time_signature(g), 'notes': notes}

    def run_repeat(self, case, mon):
        from melodia.core import Note, Signature, Track
        track = Track(signature=Signature(*case['sig']))
        k = case['repeat'] // 2
        for at in case['at']:
            track.add([Note(36, Signature(1, 4), 0.8)] * k, Signature(*at))
        data = make_writer(case).dumps(track)
        mon.ensure(data[:8] == b'MThd\0\0\0\6' and data[14:18] == b'MTrk', 'the file does not begin with a header and a track chunk')
        size = int.from_bytes(data[18:22], 'big')
        mon.ensure(size == len(data) - 22, f'the track chunk declares {size} bytes and has {len(data) - 22}')
        mon.ensure(data[-3:] == b'\xff\x2f\0' and size >= 3 * 4 * k, f'{2 * k} notes gave a track chunk of {size} bytes')
        mon.count('files_of_more_than_16_megabytes', int(size >= 1 << 24))

    def run(self, case, mon):
        if 'repeat' in case:
            return self.run_repeat(case, mon)
        notes = case.get('notes')
        if notes is None:
            notes = [[[i % 100, [1, 64], 0.5], [i, 64]] for i in range(case['big'])]
        want_notes = case_model(notes)
        want = expected_events(want_notes, case)
        gap = longest_gap(want)
        track = build_track(case['sig'], notes)
        if case.get('fraction'):
            case = {**case, 'bpm': Fraction(case['bpm'])}
        if case.get('edge') and not 1 <= int(60000000 / case['bpm']) < 1 << 24:
            mon.count('tempi_out_of_range')
            try:
                make_writer(case).dumps(track)
            except Exception:
                return
        if case['ppq'] == 96 and case['mc'][1] == 36 and len(notes) % 2:
            from melodia.io import midi
            data = midi.dumps(track, case['bpm'], case['channel'])
            mon.count('files_by_module_function')
        else:
            data = make_writer(case).dumps(track)
        if case.get('sized'):
            mon.count('files_of_edge_sizes', len(data) in SIZES or len(data) - 22 in SIZES or len(data) % 1000 in (0, 22) or len(data) % 4096 in (0, 22))
        mon.ensure(isinstance(data, bytes), f'serialization is {type(data)}')
        (division, events), long_vlq = decode(mon, data, gap > 0x0FFFFFFF)
        mon.count('files_decoded')
        mon.count('note_events', len(want))
        mon.seen('divisions', division)
        mon.seen('signatures', case['sig'])
        if len(notes) > 1:
            mon.nontrivial(repr((notes, case['ppq'], case['channel'])))
        mon.ensure(division == case['ppq'], f'resolution {case["ppq"]} written as {division}')
        metas = [(t, e[1], e[2]) for t, e in events if e[0] == 'meta']
        chans = [(t, e) for t, e in events if e[0] == 'chan']
        mon.ensure(len(metas) + len(chans) == len(events), 'unexpected events in the file')
        mon.ensure(sorted(m[1] for m in metas) == [0x2F, 0x51, 0x58],
                   f'meta events are {[hex(m[1]) for m in metas]}, expected time signature, tempo, end of track')
        for t, kind, body in metas:
            if kind == 0x58:
                dd = case['sig'][1].bit_length() - 1
                mon.ensure(t == 0 and list(body) == [case['sig'][0], dd, 24, 8],
                           f'time signature {case["sig"]} written as {list(body)} at time {t}')
            elif kind == 0x51:
                tempo = int.from_bytes(body, 'big')
                mon.ensure(t == 0 and abs(tempo - 60000000 / case['bpm']) <= 1.0,
                           f'{case["bpm"]} bpm written as {tempo} microseconds per quarter at time {t}')
                mon.seen('tempos', tempo)
        mon.ensure(events[-1][1][:2] == ('meta', 0x2F), 'the last event is not the end of track')
        got = sorted((t, 1 if e[1] == 9 else 0, e[3]) for t, e in chans)
        mon.ensure(all(e[1] in (8, 9) for t, e in chans), 'channel events other than note on and note off')
        mon.ensure(all(e[2] == case['channel'] for t, e in chans), f'events not on channel {case["channel"]}')
        mon.ensure(got == want, 'note events differ from the track', got=got[:60], expected=want[:60])
        # velocities, as multisets per onset
        vs, ws = {}, {}
        for t, e in chans:
            if e[1] == 9:
                vs.setdefault((t, e[3]), []).append(e[4])
        for pos, (p, d, v) in want_notes:
            ws.setdefault((pulses(pos, case['ppq']), p + 60 - case['mc'][1]), []).append(v)
        for k, xs in ws.items():
            for a, b in zip(sorted(vs[k]), sorted(xs)):
                mon.ensure(abs(a - b * 127) < 1.0 + 1e-9 and (b < 1 or a == 127) and (b > 0 or a == 0),
                           f'velocity {b} written as {a}')
        # keys whose notes do not overlap must also sound as written: release before the next onset, note by note
        bad = overlaps(want_notes)
        sound = {}
        for ch, xs in smf.interpret([(t, e[2], e[1] == 9, e[3], e[4]) for t, e in chans]).items():
            for on, length, key, v in xs:
                sound.setdefault(key, []).append((on, length))
        for key in {p for _, (p, d, v) in want_notes} - bad:
            midi_key = key + 60 - case['mc'][1]
            exp = sorted((pulses(pos, case['ppq']), pulses(d, case['ppq']))
                         for pos, (p, d, v) in want_notes if p == key)
            mon.ensure(sorted(sound.get(midi_key, [])) == exp,
                       f'key {midi_key} does not sound as the track says', got=sound.get(midi_key), expected=exp)
            mon.count('keys_sounded')
        if long_vlq is not None:
            raise KnownFinding('delta-time-over-28-bits', str(long_vlq))


class C03(Prop):
    id = 'C03'
    rule = ('notes at arbitrary binary fractions (finer than the pulse grid, far away, long sequences of tiny notes) '
            'written at random resolutions, and tick times at arbitrary resolutions read; each note is compared with '
            'its exact rational time; non-trivial: a time that is not on the target grid')
    budget = {'quick': 5000, 'thorough': 30000}
    requires = {'written_times': 5000, 'read_times': 5000, 'offgrid_written': 1000, 'offgrid_read': 1000}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for k in range(2 if tier == 'quick' else 8):
            ppq = g.ppq()
            d = g.choice((1024, 4096, 65536))
            step = g.choice((1, 3, 5, 7))
            yield {'w': 1, 'ppq': ppq, 'mc': ['int', 36], 'bpm': 120, 'channel': 0,
                   'notes': [[[i % 100, [step, d], 0.9], [i * step, d]] for i in range(1200)]}
            yield {'w': 0, 'tpq': ppq, 'ticks': [[g.r.randint(0, 400), g.r.randint(1, 400)] for _ in range(800)]}
        for tpq in range(1 + shard, 700, 8):
            yield {'w': 0, 'tpq': tpq, 'ticks': [[1, t] for t in (1, 2, 3, tpq - 1, tpq, tpq + 1) if t > 0]}
        for _ in range(n):
            if g.chance(0.5):
                c = writer_config(g)
                lo = c['mc'][1] - 60
                k = g.r.randint(1, 12)
                notes = [[[lo + (i * 11) % 128, g.sig(20, 60), 0.9], g.sig(20, 60)] for i in range(k)]
                yield {'w': 1, **c, 'notes': notes}
            else:
                yield {'w': 0, 'tpq': g.int(1, 32767) if g.chance(0.6) else g.ppq(),
                       'ticks': [[g.int(0, 1 << g.choice((8, 14, 21, 28))) % (1 << 28),
                                  g.int(0, 1 << g.choice((8, 14, 21, 28))) % (1 << 28)]
                                 for _ in range(g.r.randint(1, 10))]}

    def run(self, case, mon):
        if case['w']:
            want = case_model(case['notes'])
            data = make_writer(case).dumps(build_track([4, 4], case['notes']))
            try:
                _, events = smf.strict_decode(data, long_vlq=True)
            except smf.SMFError as e:
                raise Violation(f'the written file cannot be decoded: {e}', data=data[:200].hex())
            ppq = case['ppq']
            exact = sorted((math.floor(4 * ppq * pos), math.floor(4 * ppq * pos) + math.floor(4 * ppq * d), p)
                           for pos, (p, d, v) in want)
            ons = sorted((t, e[3]) for t, e in events if e[0] == 'chan' and e[1] == 9)
            offs = sorted((t, e[3]) for t, e in events if e[0] == 'chan' and e[1] == 8)
            delta = 60 - case['mc'][1]
            wons = sorted((a, p + delta) for a, b, p in exact)
            woffs = sorted((b, p + delta) for a, b, p in exact)
            for got, exp, what in ((ons, wons, 'onset'), (offs, woffs, 'release')):
                mon.ensure(len(got) == len(exp), f'{len(exp)} {what}s expected, {len(got)} written')
                for a, b in zip(got, exp):
                    mon.ensure(a == b, f'{what} of key {b[1]} belongs on pulse {b[0]}, written on pulse {a[0]} '
                                       f'(key {a[1]})', resolution=ppq)
            mon.count('written_times', 2 * len(want))
            for pos, (p, d, v) in want:
                if (4 * ppq * pos).denominator != 1 or (4 * ppq * d).denominator != 1:
                    mon.count('offgrid_written')
                    mon.nontrivial(('w', ppq, pos, d))
            return
        from melodia.io import midi
        tpq = case['tpq']
        events = []
        now = 0
        exp = []
        for i, (gap, length) in enumerate(case['ticks']):
            key = (i * 7) % 128
            events.append([gap, 0, 'chan', 0x90, [key, 100], False])
            events.append([length, 0, 'chan', 0x80, [key, 0], False])
            exp.append((now + gap, length, key))
            now += gap + length
        data = smf.header(tpq) + smf.chunk(b'MTrk', smf.encode_body(events))
        got = sorted((fr(p), n.tone.pitch, fr(n.duration)) for p, n in midi.loads(data))
        mon.ensure(len(got) == len(exp), f'{len(exp)} notes in the file, {len(got)} read')
        grid = Fraction(1, 16384)
        exp = sorted((Fraction(on, 4 * tpq), key - 24, Fraction(length, 4 * tpq)) for on, length, key in exp)
        pairs = sorted((math.floor(on / grid) * grid, key, math.floor(length / grid) * grid, on, length)
                       for on, key, length in exp)
        for (pos, pitch, dur), (_, key, _, on, length) in zip(got, pairs):
            mon.ensure(pitch == key and 0 <= on - pos < grid and 0 <= length - dur < grid,
                       f'note at {on} lasting {length} whole notes was read at {pos} lasting {dur}', resolution=tpq)
            if on.denominator & (on.denominator - 1) or on.denominator > 16384 or \
                    length.denominator & (length.denominator - 1):
                mon.count('offgrid_read')
                mon.nontrivial(('r', tpq, on, length))
        mon.count('read_times', 2 * len(got))


class Recorder(io.BytesIO):
    """A destination that records every call that could change it and can fail on purpose."""

    def __init__(self, initial=b'', fail_at=None, error=None, tail=b'', partial=False, once=False):
        super().__init__()
        super().write(initial + tail)
        super().seek(len(initial))
        self.calls = []
        self.fail_at = fail_at
        self.error = error
        self.partial = partial
        self.once = once

    def write(self, b):
        b = bytes(b)
        k = len([c for c in self.calls if c[0] == 'write'])
        self.calls.append(('write', len(b)))
        if self.fail_at is not None and (k == self.fail_at or k > self.fail_at and not self.once):
            if self.partial:
                super().write(b[:len(b) // 2])
            raise self.error
        return super().write(b)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def truncate(self, *a):
        self.calls.append(('truncate',))
        return super().truncate(*a)

    def seek(self, *a):
        self.calls.append(('seek',))
        return super().seek(*a)

    def close(self):
        self.calls.append(('close',))


class Broken(Exception):
    pass


DEVICE_ERRORS = (lambda: OSError(errno.ENOSPC, 'no space'), lambda: BrokenPipeError('gone'), lambda: ValueError('closed'),
                 lambda: BlockingIOError(errno.EAGAIN, 'later'), lambda: InterruptedError(errno.EINTR, 'interrupted'),
                 lambda: TypeError('device'), lambda: AttributeError('device'), lambda: OverflowError('device'), lambda: KeyError('device'),
                 lambda: io.UnsupportedOperation('device'), lambda: MemoryError('device'), lambda: Broken('device'),
                 lambda: KeyboardInterrupt('device'), lambda: EOFError('device'),
                 lambda: TimeoutError('device'), lambda: PermissionError(errno.EACCES, 'device'))


class C09(Prop):
    id = 'C09'
    level = 'fault_enumeration'
    rule = ('writes that must fail (a tone outside MIDI range first, last or in the middle; a signature or tempo MIDI '
            'cannot hold) onto destinations that already hold data, and writes onto destinations that raise at every '
            'write; non-trivial: the track has other, valid notes')
    budget = {'quick': 4800, 'thorough': 30000}
    requires = {'rejected': 1000, 'accepted': 200, 'device_errors': 200, 'fault_kinds': 8}
    KINDS = ('high', 'low', 'sig_nom', 'sig_den', 'slow', 'zero_bpm', 'neg_bpm', 'nan_bpm', 'none', 'device', 'none',
             'device')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            c = writer_config(g)
            kind = g.choice(self.KINDS)
            lo = c['mc'][1] - 60
            notes = any_notes(g, min(g.count(6), 40), lo, lo + 127, most=8, rare=8)
            sig = time_signature(g)
            if kind in ('high', 'low'):
                bad = lo + 128 + g.choice((0, 1, 12, g.int(0, 300))) if kind == 'high' \
                    else lo - 1 - g.choice((0, 1, 11, g.int(0, 300)))
                notes.insert(g.choice((0, len(notes), g.r.randint(0, len(notes)))), [[bad, [1, 4], 0.5], g.sig(8, 8)])
            elif kind == 'sig_nom':
                sig = [g.choice((256, 257, 300, 512, 65536, g.int(256, 10 ** 6))), sig[1]]
            elif kind == 'sig_den':
                sig = [sig[0], 1 << g.choice((256, 257, 300))]
            elif kind == 'slow':
                c['bpm'] = g.choice((3.5, 1.0, 0.5, 1e-3, 3, 1e-12, 3.576))
            elif kind == 'zero_bpm':
                c['bpm'] = g.choice((0, 0.0))
            elif kind == 'neg_bpm':
                c['bpm'] = g.choice((-1.0, -120, -0.5))
            elif kind == 'nan_bpm':
                c['bpm'] = float('nan')
            yield {**c, 'kind': kind, 'sig': sig, 'notes': notes, 'initial': g.choice(('', '00', '4d54686400', 'ff' * 40)),
                   'fail_at': g.choice((0, 1, 1, g.r.randrange(1000))), 'err': g.r.randrange(len(DEVICE_ERRORS)),
                   'tail': g.choice((0, 0, 1, 20, 5000)), 'partial': g.chance(0.3), 'once': g.chance(0.5)}

    def run(self, case, mon):
        kind = case['kind']
        t = build_track(case['sig'], case['notes'])
        before = track_model(t)
        initial = bytes.fromhex(case['initial'])
        w = make_writer(case)
        mon.seen('fault_kinds', kind)
        if case['notes']:
            mon.nontrivial(repr((kind, case['notes'], case['initial'])))
        if kind == 'none':
            full = w.dumps(t)
            tail = bytes(range(7, 207)) * (case['tail'] // 200 + 1)
            tail = tail[:case['tail']]
            f = Recorder(initial, tail=tail)
            r = w.dump(t, f)
            mon.ensure(r is None and f.getvalue() == initial + full + tail[len(full):],
                       f'writing did not put exactly the file at the position of the destination: {f.calls[:20]}')
            mon.ensure(f.tell() == len(initial) + len(full), 'the destination is not positioned after the file')
            mon.ensure(not any(c[0] in ('close', 'truncate') for c in f.calls), f'writing also did {f.calls[:20]}')
            mon.count('accepted')
        elif kind == 'device':
            err = DEVICE_ERRORS[case['err']]()
            full = w.dumps(t)
            probe = Recorder(initial)
            w.dump(t, probe)
            writes = len([c for c in probe.calls if c[0] == 'write'])
            k = case['fail_at'] % writes
            f = Recorder(initial, k, err, partial=case['partial'], once=case['once'])
            try:
                w.dump(t, f)
            except Hang:
                raise
            except BaseException as e:
                mon.ensure(e is err, f'device error {err!r} came out as {e!r}')
            else:
                mon.ensure(False, f'device error {err!r} was swallowed')
            mon.count('device_errors')
            mon.ensure((initial + full).startswith(f.getvalue()), 'after a device error the destination holds '
                                                                  'something other than the beginning of the file')
            mon.ensure(not any(c[0] in ('truncate', 'close', 'seek') for c in f.calls), f'writing also did {f.calls[:20]}')
            mon.seen('device_faults', (k, case['err'], case['partial'], case['once']))
            mon.ensure(w.dumps(t) == full, 'a failed write changed what the next write produces')
        else:
            f = Recorder(initial, tail=bytes(case['tail']))
            initial += bytes(case['tail'])
            try:
                w.dump(t, f)
            except Exception as e:
                mon.count('rejected')
                mon.seen('rejection_types', (kind, type(e).__name__))
                if kind in ('high', 'low'):
                    mon.ensure(isinstance(e, ValueError), f'tone outside MIDI range gave {e!r}')
            else:
                mon.ensure(False, f'a track that MIDI cannot hold ({kind}) was written', data=f.getvalue()[:200].hex())
            mon.ensure(f.getvalue() == initial and f.tell() == len(initial) - case['tail'],
                       f'a rejected write ({kind}) changed its destination: {f.calls}')
            mon.ensure(not any(c[0] in ('truncate', 'close') or c[0] == 'write' and c[1] for c in f.calls),
                       f'a rejected write ({kind}) touched its destination: {f.calls}')
            try:
                w.dumps(t)
            except Exception:
                pass
            else:
                mon.ensure(False, f'dump rejects ({kind}) what dumps accepts')
        mon.ensure(track_model(t) == before, 'writing changed the track')
