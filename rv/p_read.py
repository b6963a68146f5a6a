"""Reading MIDI: arbitrary, damaged and foreign files against the reference interpretation."""
import io
import random
import sys
from fractions import Fraction

from . import foreign, smf
from .engine import SRC, Hang, Prop
from .gen import DICT_BYTES, DICT_INTS, SIZES, G, build_track, fr, track_model
from .p_write import grid_notes, make_reader, make_writer, writer_config


def tick(time, tpq):
    return Fraction(time * 4096 // tpq, 16384)


def expected_notes(notes, tpq, middle=36):
    """Model notes of reference (onset, length, key, velocity)."""
    return sorted((tick(on, tpq), (key - 60 + middle, tick(length, tpq), v / 127)) for on, length, key, v in notes)


def match(mon, got, want, what):
    got, want = sorted(got), sorted(want)
    mon.ensure(len(got) == len(want), f'{what}: {len(want)} notes in the file, {len(got)} read',
               got=got[:40], expected=want[:40])
    for (gp, gn), (wp, wn) in zip(got, want):
        mon.ensure(gp == wp and gn[:2] == wn[:2] and abs(gn[2] - wn[2]) < 1e-9,
                   f'{what}: expected note {wn} at {wp}, read {gn} at {gp}', got=got[:40], expected=want[:40])


# ---- C04: arbitrary bytes ----------------------------------------------------------------------------------------

class Steps:
    """Counts line events inside melodia during one call: the logical clock of the termination monitor, and the
    coverage signal of the fuzzer."""
    TOOL = 4

    def __init__(self):
        self.on = False
        self.n = 0
        self.limit = 0
        self.edges = set()
        self.prev = 0
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'rv-steps')
        except ValueError:
            m.free_tool_id(self.TOOL)
            m.use_tool_id(self.TOOL, 'rv-steps')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)

    def _line(self, code, line):
        if not code.co_filename.startswith(SRC):
            return sys.monitoring.DISABLE
        if self.on:
            self.n += 1
            if self.n > self.limit:
                self.on = False
                raise Hang(f'more than {self.limit} steps')
            if code.co_filename.endswith('midi.py'):
                self.edges.add((self.prev, line))
                self.prev = line

    def call(self, limit, fn):
        self.n, self.limit, self.prev = 0, limit, 0
        self.edges = set()
        self.on = True
        try:
            return fn()
        finally:
            self.on = False


_steps = None


def steps():
    global _steps
    if _steps is None:
        _steps = Steps()
    return _steps


def mutate(g, data):
    b = bytearray(data)
    for _ in range(g.choice((1, 1, 1, 2, 3, 6))):
        p = g.r.random()
        i = g.r.randrange(len(b)) if b else 0
        if p < 0.2 and b:
            b[i] = g.r.randrange(256)
        elif p < 0.35 and b:
            b[i] = g.choice((0, 1, 0x7F, 0x80, 0xFF, 0xF0, 0xF7, 0x2F, 0x90, 0x80, 0x58, 0x20, 0x51, 0xF4, 0xFE, 0xC0))
        elif p < 0.45 and b:
            b[i] ^= 1 << g.r.randrange(8)
        elif p < 0.6 and b:
            del b[i:i + g.choice((1, 1, 2, 3, 8, 50))]
        elif p < 0.75:
            piece = g.choice(DICT_BYTES) if DICT_BYTES and g.chance(0.4) else \
                bytes(g.r.randrange(256) for _ in range(g.choice((1, 1, 2, 4))))
            b[i:i] = piece
        elif p < 0.85 and b:
            j = g.r.randrange(len(b))
            n = g.r.randint(1, 20)
            b[i:i] = b[j:j + n]
        elif p < 0.92:
            v = g.choice(DICT_INTS) & 0xFFFFFFFF if DICT_INTS else 0
            k = g.choice((1, 2, 4))
            b[i:i + k] = (v & ((1 << 8 * k) - 1)).to_bytes(k, 'big')
        else:
            del b[i:]
    return bytes(b)


def repair(data):
    """Makes the chunk size of the first track chunk consistent, so that mutations reach the event parser."""
    i = data.find(b'MTrk')
    if i < 0 or i + 8 > len(data):
        return data
    return data[:i + 4] + (len(data) - i - 8).to_bytes(4, 'big') + data[i + 8:]


class C04(Prop):
    id = 'C04'
    rule = ('arbitrary byte strings: random bytes, valid files from the writer and from the reference encoder under '
            'structure-aware and blind mutation, coverage-guided (inputs reaching new line-to-line transitions of the '
            'reader are kept and mutated further); non-trivial: input with a header the reader accepts')
    budget = {'quick': 16000, 'thorough': 400000}
    requires = {'large_files': 8, 'loads': 8000, 'outcome_track': 300, 'outcome_parsing_error': 2000, 'edges': 60}
    shrinkable = False
    coverage = False
    memory = 2 << 30         # ten times what the workload needs; what a file declares must not be reserved unseen
    case_cpu_s = 40          # the large files take about a second; quadratic work on them takes many minutes

    def __init__(self):
        self.corpus = []
        self.known_edges = set()

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        self.corpus = []
        body = b''
        seeds = [b'', b'MThd', smf.header(96)]
        for _ in range(30):
            seeds.append(foreign.assemble(foreign.random_case(g, g.r.randint(0, 8))))
        for _ in range(6):
            c = {'ppq': 96, 'mc': ['int', 36], 'bpm': 120, 'channel': g.r.randrange(16)}
            try:
                seeds.append(make_writer(c).dumps(build_track([4, 4], grid_notes(g, c, 5))))
            except Exception:
                pass                          # a broken writer is for other properties to report
        # every status byte as first, second and running event
        for s in range(shard, 256, 8):
            for tail in (b'', b'\x00', b'\x3c\x40', b'\x3c\x40\x00\x3c\x00', b'\x7f\x7f\x7f\x7f', b'\x80\x80\x00'):
                for lead in (b'', b'\x00\x90\x3c\x40', b'\x00\xff\x01\x00', b'\x00\xf0\x00', b'\x00\xf6'):
                    yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', lead + b'\x00' + bytes([s]) + tail
                                                              + smf.EOT)).hex(), 'ch': None}
        # every field of the header, before a track with a note
        note = b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + smf.EOT
        for hi in range(shard, 256, 8):
            for lo in (0, 1, 2, 4, 0x28, 0x60, 0x7F, 0x80, 0xFF):
                for at in (8, 10, 12):
                    h_ = smf.header(96)
                    h_ = h_[:at] + bytes([hi, lo]) + h_[at + 2:]
                    yield {'hex': (h_ + smf.chunk(b'MTrk', note)).hex(), 'ch': None}
        # every data byte of a note
        for v in range(shard, 256, 8):
            for body in (b'\x00\x90' + bytes([v, 64]) + b'\x60\x80' + bytes([v, 64]),
                         b'\x00\x90\x3c' + bytes([v]) + b'\x60\x80\x3c\x40',
                         b'\x00\x90\x3c\x40\x60\x80\x3c' + bytes([v]),
                         b'\x00\xff\x58\x04' + bytes([v, 2, 24, 8]) + b'\x00\x90\x3c\x40\x60\x80\x3c\x40',
                         b'\x00\xff\x58\x04' + bytes([4, v, 24, 8]) + b'\x00\x90\x3c\x40\x60\x80\x3c\x40',
                         b'\x00\xff\x58\x04' + bytes([4, 2, v, v]) + b'\x00\x90\x3c\x40\x60\x80\x3c\x40',
                         b'\x00\xff\x20\x01' + bytes([v]) + b'\x00\xff\x58\x04\x03\x02\x18\x08'
                         + b'\x00\x90\x3c\x40\x60\x80\x3c\x40'):
                yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', body + smf.EOT)).hex(), 'ch': v % 18 - 1}
        for k in range(shard, 128, 8):
            for length in (0, 1, 3, 4, 5, 127):
                ev = b'\x00\xff' + bytes([k, length]) + bytes(range(length))
                yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', ev + smf.EOT)).hex(), 'ch': None}
        # long variable-length quantities, complete and not, as delta time and as length
        for k in (9, 100, 900, 2500, 9000):
            for fill in (b'\x80', b'\x81', b'\xff'):
                if (k + fill[0]) % 8 != shard:
                    continue
                for lead, tail in ((b'', b''), (b'', b'\x00\x90\x3c\x40\x60\x80\x3c\x40' + smf.EOT), (b'\x00\xff\x01', b'\x00' + smf.EOT),
                                   (b'\x00\xf0', b'\x00' + smf.EOT), (b'\x00\xf7', b'\x01a' + smf.EOT), (b'\x00\xff\x2f', b'\x00'),
                                   (b'\x00\xff\x58', b'\x04\x03\x02\x18\x08' + smf.EOT), (b'\x00\x90\x3c\x40', b'\x00\x80\x3c\x40' + smf.EOT)):
                    yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', lead + fill * k + tail)).hex(), 'ch': None}
        # long runs of one byte, and of one event
        for v in range(shard, 256, 8):
            yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', bytes([v]) * 2500)).hex(), 'ch': None}
            yield {'hex': (smf.header(96) + smf.chunk(b'MTrk', b'\x00\x90\x3c\x40' + bytes([0, v]) * 1200 + smf.EOT)).hex(), 'ch': None}
            yield {'hex': (smf.header(96) + (b'XXXX' + bytes(4)) * (v * 8) + smf.chunk(b'MTrk', smf.EOT)).hex(), 'ch': None}
        # large files of small events: the cost must stay proportional to the size
        kind = {1: 'controllers', 4: 'notes', 6: 'text', 2: 'quantity', 3: 'chunks', 5: 'sysex', 7: 'repeats', 0: 'long'}[shard]
        yield {'many': kind, 'n': {4: 60000, 7: 100000}.get(shard, 300000), 'ch': None}
        self.corpus = seeds
        for i, s in enumerate(seeds):
            yield {'hex': s.hex(), 'ch': None}
        for _ in range(n):
            p = g.r.random()
            if p < 0.08:
                d = bytes(g.r.randrange(256) for _ in range(g.r.randint(0, 60)))
                if g.chance(0.7):
                    d = smf.header(g.r.randrange(65536)) + smf.chunk(b'MTrk', d)
            elif p < 0.16:
                d = foreign.assemble(foreign.random_case(g, g.r.randint(0, 10)))
                d = repair(mutate(g, d))
            else:
                d = mutate(g, g.choice(self.corpus))
                if g.chance(0.6):
                    d = repair(d)
            if len(d) > 3000:
                d = d[:3000]
            yield {'hex': d.hex(), 'ch': g.r.randrange(-1, 17) if g.chance(0.25) else None, 'file': g.chance(0.2)}

    def run(self, case, mon):
        from melodia.core import Note, Track
        from melodia.io import midi
        if 'many' in case:
            n = case['n']
            body = {'controllers': lambda: b'\x00\xb0\x07\x40' + b'\x00\x07\x40' * n,
                    'text': lambda: b'\x00\xff\x01\x01a' * n,
                    'quantity': lambda: b'\xff' * n + b'\x7f',
                    'long': lambda: b'\x00\xff\x7f' + smf.vlq(n * 10) + b'\x85' * (n * 10),
                    'sysex': lambda: b'\x00\xf0\x02\x01\xf7' * n,
                    'chunks': lambda: b'',
                    'repeats': lambda: b'\x00\x90\x3c\x40' + b'\x01\x3c\x41' * n + b'\x01\x3d\x00' * n,
                    'notes': lambda: b''.join(bytes((1, 0x90 | i % 16, i % 128, 64, 1, 0x80 | i % 16, i % 128, 0))
                                              for i in range(n))}[case['many']]() + smf.EOT
            data = smf.header(96) + (b'XXXX' + bytes(4)) * (n if case['many'] == 'chunks' else 0) + smf.chunk(b'MTrk', body)
            try:
                t = midi.loads(data)
            except midi.MIDIParsingError:
                mon.ensure(case['many'] == 'quantity', f'a valid file of many {case["many"]} was refused')
                mon.count('large_files')
                return
            mon.ensure(len(t) == (n if case['many'] == 'notes' else 0), f'{len(t)} notes in a large file')
            mon.count('large_files')
            return
        data = bytes.fromhex(case['hex'])
        st = steps()
        limit = 20000 + 3000 * len(data)

        def outcome(ch, file=False):
            mon.count('loads')
            try:
                if file:
                    f = io.BytesIO(data)
                    t = st.call(limit, lambda: midi.load(f, channel=ch))
                else:
                    t = st.call(limit, lambda: midi.loads(data, channel=ch))
            except midi.MIDIParsingError:
                return 'parsing_error', None
            except ValueError as e:
                if ch is not None:
                    return 'no_channel', None
                mon.ensure(False, f'reading arbitrary bytes ended in {e!r}', data=case['hex'][:600])
            except Hang as e:
                mon.ensure(False, f'reading {len(data)} bytes did not finish: {e}', data=case['hex'][:600])
            except BaseException as e:
                mon.ensure(False, f'reading arbitrary bytes ended in {type(e).__name__}: {str(e)[:200]}',
                           data=case['hex'][:600])
            return 'track', t

        o, t = outcome(None, case.get('file', False))
        new = st.edges - self.known_edges
        if new:
            self.known_edges |= new
            for e in new:
                mon.seen('edges', e)
            if len(data) < 800 and len(self.corpus) < 600:
                self.corpus.append(data)
        mon.count('outcome_' + o)
        mon.seen('outcomes', (o, len(data)))
        if data[:4] == b'MThd' and len(data) >= 22:
            mon.nontrivial(case['hex'])
        if t is not None:
            mon.ensure(isinstance(t, Track), f'reading returned {type(t)}')
            end = Fraction(0)
            k = 0
            for p, n in t:
                k += 1
                mon.ensure(isinstance(n, Note) and 0.0 <= n.velocity <= 1.0, f'read note {n!r}')
                end = max(end, fr(p) + fr(n.duration))
            mon.ensure(k == len(t) and end == fr(t.length), 'the track read is inconsistent')
        if case['ch'] is not None:
            oc, tc = outcome(case['ch'])
            mon.ensure((oc == 'parsing_error') == (o == 'parsing_error'),
                       f'with channel {case["ch"]}: {oc}, without: {o}', data=case['hex'][:600])
            if tc is not None:
                mon.ensure(isinstance(tc, Track) and len(tc) <= len(t), 'a channel has more notes than the file')


# ---- C05: crash points ------------------------------------------------------------------------------------------

class Stream(io.RawIOBase):
    """A plain unbuffered byte source."""

    def __init__(self, data):
        self.data = data
        self.i = 0

    def readable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data) - self.i
        r = self.data[self.i:self.i + n]
        self.i += len(r)
        return r


class C05(Prop):
    id = 'C05'
    level = 'fault_enumeration'
    rule = ('every proper prefix of a complete file (written by melodia or by the reference encoder), and every cut of '
            'the track body under a consistent chunk size; large files are cut at sampled points; non-trivial: cut '
            'inside the track chunk of a file with notes; some tracks have data behind their end')
    budget = {'quick': 330, 'thorough': 5000}
    requires = {'cuts': 20000, 'body_cuts': 5000, 'files': 300}
    shrink_keys = ('notes', 'events', 'before')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            if g.chance(0.5):
                c = writer_config(g)
                size = g.r.randint(0, 12) if g.chance(0.95) else 400
                if i < 4 and shard == 2:
                    size = g.big(5000, 20000)
                    c = {**c, 'ppq': 96}
                yield {'kind': 'own', 'cfg': c, 'sig': [g.int(1, 255), 1 << g.r.randint(0, 6)],
                       'notes': grid_notes(g, c, size), 'seed': g.r.randrange(1 << 30)}
            else:
                case = foreign.random_case(g, g.r.randint(0, 14))
                case['after'] = []
                case['kind'] = 'foreign'
                if g.chance(0.3):
                    # more data in the track chunk behind its end
                    case['slack'] = g.choice((lambda: foreign.payload(g), lambda: smf.EOT, lambda: smf.EOT * 3,
                                              lambda: smf.encode_body(foreign.stream(g, 4, [0, 3], [60, 61])),
                                              lambda: b'\x00'))().hex()
                case['seed'] = g.r.randrange(1 << 30)
                yield case

    def run(self, case, mon):
        from melodia.io import midi
        r = random.Random(case['seed'])
        if case['kind'] == 'own':
            c = case['cfg']
            data = make_writer(c).dumps(build_track(case['sig'], case['notes']))
            reader = make_reader(c)
            busy = len(case['notes']) > 0
        else:
            data = foreign.assemble(case)
            reader = midi.MIDIReader()
            if case.get('slack'):
                i = track_start(data)
                data = data[:i] + smf.chunk(b'MTrk', data[i + 8:] + bytes.fromhex(case['slack']))
                mon.count('files_with_data_behind_the_end')
            busy = len(case['events']) > 0
        mon.count('files')
        reader.loads(data)                       # the complete file is readable
        n = len(data)
        start = track_start(data)
        if n <= 400:
            cuts = range(n)
        else:
            cuts = sorted(set(list(range(40)) + list(range(n - 60, n)) + [r.randrange(n) for _ in range(150)]
                              + [start + k for k in range(-2, 12)] + ends_like_eot(data)))

        def attempt(d, how, ch):
            if how == 0:
                return reader.loads(d, channel=ch)
            if how == 1:
                return reader.load(io.BytesIO(d), channel=ch)
            if how == 2:
                return reader.load(Stream(d), channel=ch)
            return reader.load(io.BufferedReader(Stream2(d)), channel=ch)

        def refuse(d, what):
            how = r.randrange(4)
            try:
                t = attempt(d, how, r.choice((None, None, None, 0, case.get('cfg', {}).get('channel', 3))))
            except midi.MIDIParsingError:
                mon.count('assertions')
                return
            except Exception as e:
                mon.ensure(False, f'{what} gave {type(e).__name__}: {e}', data=d[-200:].hex())
            mon.ensure(False, f'{what} was read as a complete track with {len(t)} notes', data=d[-200:].hex())

        for k in cuts:
            if case['kind'] == 'foreign' and k and complete(data[:k]):
                continue
            refuse(data[:k], f'a file of {n} bytes cut after {k}')
            mon.count('cuts')
            if busy and k > start + 8:
                mon.nontrivial((h(data), k))
        # The body cut inside an otherwise consistent container.
        body = data[start + 8:]
        if case.get('slack'):
            body = body[:-len(case['slack']) // 2]
        for k in (range(len(body)) if len(body) <= 300 else
                  sorted(set(ends_like_eot(body) + [r.randrange(len(body)) for _ in range(120)]))):
            refuse(data[:start] + smf.chunk(b'MTrk', body[:k]), f'a track of {len(body)} bytes cut after {k}')
            mon.count('body_cuts')


def ends_like_eot(b):
    """Cut points after which the remaining bytes happen to end like a track."""
    return [i + 3 for i in range(len(b) - 3) if b[i:i + 3] == b'\xff\x2f\x00'][:40]


def track_start(data):
    i = 0
    while data[i:i + 4] != b'MTrk':
        i += 8 + int.from_bytes(data[i + 4:i + 8], 'big')
    return i


class Stream2(Stream):
    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def h(b):
    import hashlib
    return hashlib.blake2b(b, digest_size=8).hexdigest()


def complete(data):
    """Whether a prefix happens to be a complete file already (only possible when chunks follow the track)."""
    i = 0
    got = False
    while i + 8 <= len(data):
        size = int.from_bytes(data[i + 4:i + 8], 'big')
        if i + 8 + size > len(data):
            return False
        got = got or data[i:i + 4] == b'MTrk'
        i += 8 + size
    return got and i == len(data)


# ---- C06: files that must be refused ------------------------------------------------------------------------------

class C06(Prop):
    id = 'C06'
    level = 'fault_enumeration'
    rule = ('a readable file with exactly one thing made unsupported or malformed (format, number of tracks, division, '
            'missing, short or misplaced chunks, overlong sizes, undefined status bytes at any place, wrong lengths of '
            'meta events, missing first status, missing end of track); non-trivial: the file otherwise holds notes')
    budget = {'quick': 12000, 'thorough': 60000}
    requires = {'refused': 8000, 'defects': 14}
    DEFECTS = ('format', 'ntracks', 'smpte', 'div0', 'no_header', 'no_track', 'track_first', 'short_header',
               'chunk_size', 'high_size', 'status', 'eot_len', 'prefix_len', 'sig_len', 'first_running', 'no_eot',
               'meta_long', 'sysex_long', 'partial_chunk', 'partial_body', 'empty_body', 'vlq_open')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for v in range(shard, 65536, 8 * (1 if tier == 'thorough' else 37)):
            yield {'defect': 'format', 'v': v, **self.simple(g)}
            yield {'defect': 'ntracks', 'v': v, **self.simple(g)}
            yield {'defect': 'smpte', 'v': v, **self.simple(g)}
        for s in range(0x100):
            if s % 8 == shard:
                yield {'defect': 'chunk_size', 'v': s + 1, **self.simple(g)}
                yield {'defect': 'high_size', 'v': s, **self.simple(g)}
                for d in ('eot_len', 'prefix_len', 'sig_len'):
                    yield {'defect': d, 'v': s, **self.simple(g)}
        for _ in range(n):
            c = foreign.random_case(g, g.r.randint(0, 12))
            c['after'] = []
            yield {'defect': g.choice(self.DEFECTS), 'v': g.int(0, 65535), **c, 'at': g.r.random()}

    @staticmethod
    def simple(g):
        return {'tpq': 96, 'events': [[0, 0, 'chan', 0x90, [60, 100], False], [96, 0, 'chan', 0x80, [60, 64], False]],
                'before': [], 'after': [], 'at': g.r.random()}

    def run(self, case, mon):
        from melodia.io import midi
        d, v = case['defect'], case['v']
        tpq = case['tpq']
        extra = bytes.fromhex(case.get('extra', ''))
        head = smf.header(tpq, extra=extra)
        before = b''.join(smf.chunk(bytes.fromhex(k), bytes.fromhex(b)) for k, b in case['before'])
        events = case['events']
        at = int(case['at'] * (len(events) + 1))
        body = smf.encode_body(events)
        trk = smf.chunk(b'MTrk', body)

        def with_raw(raw, rest=True):
            evs = [list(e) for e in events]
            # an explicit status must follow the inserted event
            evs[at:at] = [[0, 0, 'raw', raw.hex()]]
            return smf.chunk(b'MTrk', smf.encode_body(evs))

        if d == 'format':
            fmt = v % 65536
            if fmt == 0:
                return
            head = smf.header(tpq, fmt=fmt, extra=extra)
        elif d == 'ntracks':
            if v % 65536 == 1:
                return
            head = smf.header(tpq, ntracks=v % 65536, extra=extra)
        elif d == 'smpte':
            head = smf.header(0x8000 | (v % 0x8000), extra=extra)
        elif d == 'div0':
            head = smf.header(0, extra=extra)
        elif d == 'no_header':
            head = b''
        elif d == 'no_track':
            trk = b''
        elif d == 'track_first':
            head, before, trk = trk, before, head
        elif d == 'short_header':
            head = smf.chunk(b'MThd', smf.header(tpq)[8:8 + v % 6])
        elif d == 'chunk_size':
            trk = b'MTrk' + (len(body) + 1 + v).to_bytes(4, 'big') + body
        elif d == 'high_size':
            hi = 1 + v % 255
            if case['at'] < 0.5:
                trk = b'MTrk' + ((hi << 24) + len(body)).to_bytes(4, 'big') + body
            else:
                head = b'MThd' + ((hi << 24) + len(head) - 8).to_bytes(4, 'big') + head[8:]
        elif d == 'status':
            trk = with_raw(bytes([smf.UNDEFINED_STATUS[v % 4]]))
        elif d == 'eot_len':
            n = 1 + v % 120
            trk = smf.chunk(b'MTrk', smf.encode_body(events, eot=False) + b'\x00\xff\x2f' + smf.vlq(n) + bytes(n) + smf.EOT)
        elif d in ('prefix_len', 'sig_len'):
            kind, ok = (0x20, 1) if d == 'prefix_len' else (0x58, 4)
            n = v % 12 if v % 12 != ok else 64
            trk = with_raw(bytes([0xFF, kind]) + smf.vlq(n) + bytes([1] * n))
        elif d == 'first_running':
            first = bytes([v % 128, (v >> 7) % 128])
            trk = smf.chunk(b'MTrk', b'\x00' + first + body)
        elif d == 'no_eot':
            # nothing at all or only a part of one
            trk = smf.chunk(b'MTrk', smf.encode_body(events, eot=False) + (b'', b'', b'\x00', b'\x00\xff', b'\x00\xff\x2f', b'\x00\xff\x2f\x80')[v % 6])
        elif d in ('meta_long', 'sysex_long'):
            raw = b'\xff\x01' if d == 'meta_long' else g_choice(v, (b'\xf0', b'\xf7'))
            payload = bytes(v % 40)
            trk = smf.chunk(b'MTrk', smf.encode_body(events, eot=False) + b'\x00' + raw
                            + smf.vlq(len(payload) + 5 + v % 1000) + payload + smf.EOT)
        elif d == 'partial_chunk':
            tail = g_choice(v // 7, (b'XXXX\x00\x00\x00\x00', bytes(8), b'\xff' * 8, b'MTrk\x00\x00\x00\x04', b'MThd\x00\x00\x00\x06',
                                    b'\r\n\r\n\r\n\r\n', b'\x1a' * 8, b' ' * 8, b'\x00\xff\x2f\x00' * 2, body[-8:].rjust(8, b'\0'),
                                    (v * 2654435761 % (1 << 64)).to_bytes(8, 'big')))
            trk += tail[:1 + v % 7]
        elif d == 'partial_body':
            size = 1 + v % 300
            fill = g_choice(v // 3, (bytes(size), b'\xff' * size, (body * size)[:size]))
            name = g_choice(v, (b'XXXX', bytes(4), b'XFIH', b'MTrx', b'    '))
            trk += name + size.to_bytes(4, 'big') + fill[:int(case['at'] * size)]
        elif d == 'empty_body':
            trk = smf.chunk(b'MTrk', b'')
        elif d == 'vlq_open':
            trk = smf.chunk(b'MTrk', smf.encode_body(events, eot=False) + b'\x80' * (1 + v % 9))
        data = head + before + trk
        mon.seen('defects', d)
        for what, fn in (('loads', lambda: midi.loads(data)), ('load', lambda: midi.load(io.BytesIO(data)))):
            try:
                t = fn()
            except midi.MIDIParsingError as e:
                mon.ensure(isinstance(e, midi.MIDIError), 'the parsing error is not a MIDI error')
                mon.count('refused')
                continue
            except Exception as e:
                mon.ensure(False, f'a file with defect {d} gave {type(e).__name__}: {e}', data=data[:400].hex())
            mon.ensure(False, f'a file with defect {d} was read as a track with {len(t)} notes', data=data[:400].hex())
        if events:
            mon.nontrivial((d, v, repr(events)))


def g_choice(v, xs):
    return xs[v % len(xs)]


# ---- C07: meaning of foreign files --------------------------------------------------------------------------------

class C07(Prop):
    id = 'C07'
    rule = ('event streams of foreign files (running status, note on with velocity 0, controllers, meta and system '
            'exclusive events of every kind and length in between, thousands in a row, unknown chunks, padded quantities, long headers) encoded by '
            'the reference encoder, read, and compared with the reference interpretation; non-trivial: the stream '
            'has at least one complete note')
    budget = {'quick': 6500, 'thorough': 80000}
    requires = {'files': 5000, 'notes_expected': 10000, 'running_status': 2000, 'velocity_zero_offs': 1000,
                'skipped_events': 5000, 'alien_chunks': 500, 'repeated_on': 500, 'stray_off': 500, 'unreleased': 200, 'files_of_edge_sizes': 30}
    shrink_keys = ('events', 'before', 'after')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        on = [0, 0, 'chan', 0x90, [60, 100], False]
        off = [96, 0, 'chan', 0x80, [60, 64], True]
        base = {'tpq': 96, 'before': [], 'after': [], 'sig': None}
        # each event kind the reader must skip, alone, between the on and off of a note
        for s in range(0xA0, 0xF0):
            if s % 8 == shard:
                k = smf.CHANNEL_DATA[s >> 4]
                for a in (0, 60, 127):
                    yield {**base, 'events': [on, [3, 0, 'chan', s, [a] * k, False], off]}
                    yield {**base, 'events': [on, [3, 0, 'chan', s, [a] * k, False], [3, 0, 'chan', s, [a] * k, True],
                                              off]}
        for s in sorted(smf.SYSTEM_DATA):
            if s % 8 == shard:
                yield {**base, 'events': [on, [3, 0, 'sys', s, [60] * smf.SYSTEM_DATA[s]], off]}
        for k in foreign.META_KINDS:
            if k % 8 == shard:
                for length in (0, 1, 2, 3, 4, 5, 6, 8, 127, 128, 300):
                    yield {**base, 'events': [on, [3, 0, 'meta', k, (b'\x2f\x00\xff\x90' * 75)[:length].hex(), 0], off]}
        for i, length in enumerate((0, 1, 2, 5, 126, 127, 128, 129, 1000, 16383, 16384, 20000)):
            if i % 8 == shard:
                for s in (0xF0, 0xF7):
                    for fill in ('f7', '00', '90', 'ff2f00'):
                        b = (bytes.fromhex(fill) * length)[:length]
                        yield {**base, 'events': [on, [3, 0, 'sysex', s, b.hex()], off]}
        # files, chunks and events of sizes at an edge
        for i, size in enumerate(SIZES):
            if i % 8 == shard:
                for whole in (0, 22):
                    notes = [[g.choice((0, 1, 5)), 0, 'chan', g.choice((0x90, 0x80, 0x93, 0x83)), [g.r.randrange(50, 60), g.r.randint(0, 127)], g.chance(0.5)]
                             for _ in range(size // 10 % 3000)]
                    for _ in range(5):
                        # grow or shrink a text event until the size is reached
                        k = size - whole - len(smf.encode_body(notes + [[0, 0, 'meta', 1, '', 0]] + notes[:3]))
                        if k > 4:
                            break
                        notes = notes[:len(notes) // 2]
                    for more in range(5):
                        events = notes + [[0, 0, 'meta', 1, bytes(max(0, k - more)).hex(), 0]] + notes[:3]
                        if len(smf.encode_body(events)) == size - whole:
                            break
                    mon_size = len(smf.encode_body(events)) == size - whole
                    yield {**base, 'events': events, 'edge': mon_size}
                for s in (1, 0xF0):
                    ev = [3, 0, 'meta', 1, (b'\x2f\x00\xff\x90' * (size // 4 + 1))[:size].hex(), 0] if s == 1 else \
                        [3, 0, 'sysex', s, (b'\x2f\x00\xff\x90' * (size // 4 + 1))[:size].hex()]
                    yield {**base, 'events': [on, ev, off]}
                    yield {**base, 'events': [on, off], 'before': [['ABCD'.encode().hex(), bytes(size).hex()]]}
        # thousands of events without a note in a row, and thousands of chunks
        for i, ev in enumerate(([1, 0, 'chan', 0xB3, [7, 1], False], [1, 0, 'chan', 0xB3, [7, 1], True], [1, 0, 'chan', 0xD0, [0], True],
                                [1, 0, 'meta', 1, '61', 0], [1, 0, 'meta', 0x51, '07a120', 0], [1, 0, 'sysex', 0xF0, '01f7'],
                                [1, 0, 'sysex', 0xF7, ''], [1, 0, 'sys', 0xF8, []], [1, 0, 'sys', 0xF6, []],
                                [1, 0, 'chan', 0x90, [60, 3], True], [1, 0, 'chan', 0x80, [61, 3], True],
                                [1, 0, 'chan', 0x91, [60, 0], False], [1, 0, 'meta', 0x58, '04021808', 0])):
            if i % 8 == shard:
                count = g.big(2500, 6000)
                yield {**base, 'events': [on] + [ev] * count + [off] + [ev] * count}
        if shard == 6:
            yield {**base, 'events': [on, off], 'before': [['41424344', '']] * 4000, 'after': [['41424344', '00']] * 4000}
        # every key and every velocity
        for k in range(shard, 128, 8):
            yield {**base, 'events': [[0, 0, 'chan', 0x90 | k % 16, [k, 1 + (k * 7) % 127], False],
                                      [k, 0, 'chan', 0x90 | k % 16, [k, 0], True]]}
            if k:
                yield {**base, 'events': [[5, 0, 'chan', 0x9F, [127 - k, k], False], [k, 0, 'chan', 0x8F, [127 - k, 0], False]]}
        # a chunk larger than 2**24 bytes
        if shard == 3:
            yield {**base, 'events': [on, off], 'huge': 'alien'}
            yield {**base, 'events': [on, off], 'huge': 'meta'}
        if shard % 2 == 0 or tier == 'thorough':
            case = foreign.random_case(g, 0)
            yield {**case, 'events': case['events'] + foreign.stream(g, g.big(75000, 150000), [g.r.randrange(16)], foreign.pick_pitches(g), fill=0.05),
                   'cpu_s': 120}
        for size in ((600, g.big(1000, 7000)) if tier == 'quick' else
                     (600, 5000, 20000, *(g.big(1000, 30000) for _ in range(12)))):
            yield foreign.random_case(g, size)
        for _ in range(n):
            yield foreign.random_case(g)

    def run(self, case, mon):
        from melodia.io import midi
        if case.get('huge'):
            blob = bytes((1 << 24) + 5)
            body = smf.encode_body(case['events'])
            if case['huge'] == 'meta':
                body = b'\x00\xff\x01' + smf.vlq(len(blob)) + blob + body
                data = smf.header(case['tpq']) + smf.chunk(b'MTrk', body)
            else:
                data = smf.header(case['tpq']) + smf.chunk(b'abcd', blob) + smf.chunk(b'MTrk', body)
            mon.count('huge_chunks')
        else:
            data = foreign.assemble(case)
        stream = smf.abstract_notes(case['events'])
        ref = smf.interpret(stream)
        want = []
        for ch in ref:
            want += expected_notes(ref[ch], case['tpq'])
        try:
            t = midi.loads(data)
        except midi.MIDIError as e:
            mon.ensure(False, f'a valid file was refused: {e}', data=data[:400].hex())
        match(mon, track_model(t), want, 'foreign file')
        s = case.get('sig')
        exp = [s[0], 1 << s[1]] if s else [4, 4]
        if len({e[4] for e in case['events'] if e[2] == 'meta' and e[3] == 0x58}) == (1 if s else 0):
            mon.ensure([t.signature.nominator, t.signature.denominator] == exp or exp[0] == t.signature.nominator == 0,
                       f'time signature {exp} was read as {t.signature}')
        mon.count('files')
        mon.count('files_of_edge_sizes', bool(case.get('edge')))
        mon.count('notes_expected', len(want))
        prev = None
        for e in case['events']:
            if e[2] == 'chan':
                if e[5] and prev == e[3]:
                    mon.count('running_status')
                prev = e[3]
                if e[3] >> 4 == 9 and e[4][1] == 0:
                    mon.count('velocity_zero_offs')
                if e[3] >> 4 not in (8, 9):
                    mon.count('skipped_events')
            else:
                prev = None
                mon.count('skipped_events')
        mon.count('alien_chunks', len(case['before']) + len(case['after']))
        on = set()
        for _, ch, is_on, p, _ in stream:
            if is_on:
                mon.count('repeated_on', (ch, p) in on)
                on.add((ch, p))
            else:
                mon.count('stray_off', (ch, p) not in on)
                on.discard((ch, p))
        mon.count('unreleased', len(on))
        if want:
            mon.nontrivial(repr(case['events']))


# ---- C08: channels ------------------------------------------------------------------------------------------------

class C08(Prop):
    id = 'C08'
    rule = ('files with notes on one to sixteen channels (same keys sounding on several channels at once), read whole '
            'and channel by channel, with file-wide and channel-specific time signatures; non-trivial: at least two '
            'channels have notes')
    budget = {'quick': 1700, 'thorough': 50000}
    requires = {'files': 5000, 'channel_reads': 50000, 'absent_channels': 5000, 'multi_channel_files': 1500,
                'channel_signatures': 300}
    shrink_keys = ('events', 'prefix')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        # many notes
        if shard < 3 or tier == 'thorough':
            yield {'tpq': 96, 'many': 70000 if shard == 0 else g.big(2000, 20000), 'channels': (2, 16, 1)[shard % 3], 'sig': None,
                   'prefix': [], 'mc': ['int', 36], 'cpu_s': 120}
        for _ in range(n):
            chans = foreign.pick_channels(g)
            if g.chance(0.3):
                chans = [g.r.randrange(16) for _ in range(2)]
            events = foreign.stream(g, g.count(14), chans, foreign.pick_pitches(g), fill=g.choice((0.0, 0.1, 0.3)))
            sig = [g.int(1, 255), g.r.randint(0, 7)] if g.chance(0.7) else None
            prefix = []
            if g.chance(0.3):
                for ch in sorted(set(g.choice(chans) if g.chance(0.8) else g.r.randrange(16)
                                     for _ in range(g.r.randint(1, 3)))):
                    prefix.append([ch, g.int(1, 255), g.r.randint(0, 7)])
            yield {'tpq': g.ppq(), 'events': events, 'sig': sig, 'prefix': prefix, 'spread': g.r.randint(1, 1 << 30) if g.chance(0.2) else 0, 'mc': [g.choice(('int', 'str', 'tone')),
                                                                                      g.choice((36, 48, 0, -5, 60))]}

    def run(self, case, mon):
        from melodia.io import midi
        lead = []
        if case['sig']:
            lead.append(foreign.time_signature(*case['sig']))
        for ch, nn, dd in case['prefix']:
            lead.append([0, 0, 'meta', 0x20, bytes([ch]).hex(), 0])
            lead.append(foreign.time_signature(nn, dd))
        if 'many' in case:
            events = []
            for i in range(case['many']):
                ch = i % case['channels']
                events += [[0, 0, 'chan', 0x90 | ch, [i % 100, 1 + i % 127], False], [1, 0, 'chan', 0x80 | ch, [i % 100, 0], False]]
            mon.count('large_files')
            case = {**case, 'events': events}
        if case.get('spread'):
            # time signatures and prefixes in their order anywhere in the track
            r = random.Random(case['spread'])
            events = list(case['events'])
            for at, e in zip(sorted(r.randint(0, len(events)) for _ in lead)[::-1], lead[::-1]):
                events.insert(at, [r.choice((0, 1, 10, 96, 128, 300))] + e[1:])
            mon.count('spread_signatures')
        else:
            events = lead + case['events']
        data = smf.header(case['tpq']) + smf.chunk(b'MTrk', smf.encode_body(events))
        ref = smf.interpret(smf.abstract_notes(events))
        reader = make_reader({'mc': case['mc']})
        middle = case['mc'][1]
        per = {ch: expected_notes(ref[ch], case['tpq'], middle) for ch in ref}
        whole = reader.loads(data)
        union = [x for ch in per for x in per[ch]]
        match(mon, track_model(whole), union, 'all channels')
        mon.count('files')
        if len([c for c in per if per[c]]) > 1:
            mon.count('multi_channel_files')
            mon.nontrivial(repr(case['events'][:200]))
        own = {ch: (nn, 1 << dd) for ch, nn, dd in case['prefix']}
        common = (case['sig'][0], 1 << case['sig'][1]) if case['sig'] else (4, 4)
        total = 0
        if middle == 36 and 'many' not in case:
            # the module functions
            for ch in (None, 0, random.Random(len(data)).randrange(16)):
                if ch in per or ch is None or (ch == 0 and not ref):
                    for t in (midi.loads(data, ch), midi.load(io.BytesIO(data), channel=ch)):
                        match(mon, track_model(t), union if ch is None else per.get(ch, []), f'channel {ch} by a module function')
                    mon.count('module_reads')
                else:
                    for read in (lambda: midi.loads(data, ch), lambda: midi.load(io.BytesIO(data), channel=ch)):
                        try:
                            read()
                        except ValueError:
                            continue
                        mon.ensure(False, f'asking a module function for absent channel {ch} returned a track')
        for ch in list(range(16)) + [-1, 16, 100]:
            if 'many' in case and ch not in per:
                continue
            mon.count('channel_reads')
            if ch in ref:
                t = reader.loads(data, channel=ch)
                match(mon, track_model(t), per[ch], f'channel {ch}')
                total += len(t)
                exp = own.get(ch, common)
                mon.count('channel_signatures', ch in own)
                mon.ensure((t.signature.nominator, t.signature.denominator) == exp,
                           f'channel {ch} has time signature {t.signature}, expected {exp}')
            else:
                if not ref and ch == 0:
                    # a file without notes reads as one empty track
                    t = reader.loads(data, channel=0)
                    mon.count('files_without_notes')
                    exp = own.get(0, common)
                    mon.ensure(len(t) == 0 and (t.signature.nominator, t.signature.denominator) == exp,
                               f'channel 0 of a file without notes has {len(t)} notes and time signature {t.signature}, not {exp}')
                    continue
                mon.count('absent_channels')
                try:
                    t = reader.load(io.BytesIO(data), channel=ch)
                except ValueError:
                    continue
                except Exception as e:
                    mon.ensure(False, f'asking for absent channel {ch} gave {type(e).__name__}: {e}')
                mon.ensure(False, f'asking for absent channel {ch} returned a track with {len(t)} notes')
        mon.ensure(total == len(whole), f'channels have {total} notes together, the whole file {len(whole)}')
        if not case['prefix']:
            mon.ensure((whole.signature.nominator, whole.signature.denominator) == common,
                       f'the whole file has time signature {whole.signature}, expected {common}')
