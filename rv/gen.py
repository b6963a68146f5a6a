"""Workload generators. Everything is drawn from a seeded random.Random, so a run is a function of VERIF_SEED.

Besides uniform and boundary values, the generators draw from a dictionary of the constants that occur in the source of
the code under test (as fuzzers do): a threshold somebody writes into the code becomes a value the workload visits. The
dictionary only steers the workload; verdicts come from the oracles alone.
"""
import ast
import os
import zlib
from fractions import Fraction

from . import aged
from .engine import REPO, SRC


def _constants():
    ints, floats, strs, byts = set(), set(), set(), set()
    roots = [SRC, os.path.join(REPO, 'scripts')]
    for root in roots:
        for top, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__')))
            for name in sorted(files):
                if not name.endswith('.py'):
                    continue
                try:
                    with open(os.path.join(top, name), 'rb') as f:
                        tree = ast.parse(f.read())
                except (SyntaxError, ValueError, OSError):
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.Constant):
                        v = node.value
                        if isinstance(v, bool):
                            continue
                        if isinstance(v, int):
                            ints.add(v)
                        elif isinstance(v, float):
                            floats.add(v)
                        elif isinstance(v, str) and len(v) <= 24:
                            strs.add(v)
                        elif isinstance(v, bytes) and len(v) <= 24:
                            byts.add(v)
                    elif isinstance(node, ast.BinOp):
                        try:
                            v = ast.literal_eval(node)
                        except (ValueError, TypeError, SyntaxError, MemoryError):
                            v = _fold(node)
                        if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 300:
                            ints.add(v)
    return sorted(ints), sorted(floats), sorted(strs), sorted(byts)


def _fold(node):
    """Value of constant arithmetic such as 1 << 14 or 4 * 4096."""
    if isinstance(node, ast.Constant) and isinstance(node.value, int):
        return node.value
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None or abs(a) > 1 << 64 or abs(b) > 1 << 64:
            return None
        try:
            if isinstance(node.op, ast.Add):
                return a + b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.Mult):
                return a * b
            if isinstance(node.op, ast.LShift) and 0 <= b < 300:
                return a << b
            if isinstance(node.op, ast.Pow) and 0 <= b < 64 and abs(a) < 300:
                return a ** b
        except (ValueError, OverflowError):
            return None
    return None


DICT_INTS, DICT_FLOATS, DICT_STRS, DICT_BYTES = _constants()


class G:
    def __init__(self, rng):
        self.r = rng
        self._cache = {}

    def chance(self, p):
        return self.r.random() < p

    def choice(self, xs):
        return xs[self.r.randrange(len(xs))]

    def dict_int(self, lo, hi):
        """A constant of the source (or its neighbour, double, half, negation) in [lo, hi], or None."""
        key = (lo, hi)
        c = self._cache.get(key)
        if c is None:
            s = set()
            for v in DICT_INTS:
                for w in (v, v - 1, v + 1, -v, 2 * v, v // 2):
                    if lo <= w <= hi:
                        s.add(w)
            c = self._cache[key] = sorted(s)
            if len(self._cache) > 4000:
                self._cache.clear()
        return self.choice(c) if c else None

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        p = self.r.random()
        if p < 0.30:
            return self.r.randint(lo, hi)
        if p < 0.45:
            return min(hi, max(lo, self.choice((lo, lo + 1, lo + 2, hi, hi - 1, 0, 1, -1))))
        if p < 0.60:
            bits = max(abs(lo), abs(hi)).bit_length()
            v = (1 << self.r.randint(0, bits)) + self.choice((-1, 0, 1))
            if lo < 0 and self.chance(0.5):
                v = -v
            if lo <= v <= hi:
                return v
            return self.r.randint(lo, hi)
        if p < 0.80:
            v = self.dict_int(lo, hi)
            if v is not None:
                return v
            return self.r.randint(lo, hi)
        span = hi - lo
        return lo + self.r.randint(0, (1 << self.r.randint(0, span.bit_length())) - 1) % (span + 1)

    def small(self, lo, hi):
        """Mostly near lo."""
        if hi <= lo:
            return lo
        if self.chance(0.8):
            return self.r.randint(lo, min(hi, lo + 8))
        return self.int(lo, hi)

    def den(self, most=14, rare=64):
        p = self.r.random()
        if p < 0.75:
            e = self.r.randint(0, min(8, most))
        elif p < 0.95:
            e = self.r.randint(0, most)
        else:
            e = self.r.randint(0, max(most, rare))
        return 1 << e

    def huge_sig(self):
        """A signature far beyond machine numbers."""
        return [self.int(0, 1 << self.choice((10, 70, 600, 1100, 3000))), 1 << self.r.randint(0, 3000)]

    def sig(self, most=14, rare=64):
        """A (nominator, denominator) pair."""
        d = self.den(most, rare)
        p = self.r.random()
        if p < 0.6:
            n = self.r.randint(0, 32)
        elif p < 0.9:
            n = self.int(0, 4 * d + 100)
        else:
            n = self.int(0, 1 << self.r.choice((16, 32, 64, 130)))
        return [n, d]

    def vel(self):
        p = self.r.random()
        if p < 0.3:
            return self.r.random()
        if p < 0.5:
            return self.choice((0.0, 1.0, 0.75, 0.5, 0.25, 1.0, 0.999999, 1e-9, 1 / 127, 126 / 127, 0.1, 0.9))
        if p < 0.8:
            return self.r.randint(0, 127) / 127
        if p < 0.9:
            c = [f + e for f in DICT_FLOATS for e in (0.0, 1e-6, -1e-6) if 0.0 <= f + e <= 1.0]
            if c:
                return self.choice(c)
        return min(1.0, max(0.0, self.r.randint(0, 127) / 127 + self.choice((1e-12, -1e-12, 1e-4, -1e-4))))

    def audible(self):
        """A velocity that is at least one MIDI step."""
        while True:
            v = self.vel()
            if v >= 1 / 127 and int(v * 127) >= 1:
                return v

    def pitch(self):
        p = self.r.random()
        if p < 0.6:
            return self.r.randint(-24, 103)
        if p < 0.9:
            return self.int(-200, 200)
        if p < 0.98:
            return self.int(-100000, 100000)
        k = 12 * (1 << self.r.randint(40, 70)) + self.r.randint(-13, 13)
        return self.choice((k, -k))

    def ppq(self):
        p = self.r.random()
        if p < 0.35:
            return 96
        if p < 0.75:
            return self.choice((1, 2, 3, 4, 7, 12, 24, 25, 32, 48, 64, 100, 120, 127, 128, 160, 192, 240, 255, 256, 257,
                                384, 480, 500, 512, 768, 960, 1000, 1024, 1920, 4095, 4096, 4097, 8192, 9600, 15360,
                                16383, 16384, 16385, 24576, 32766, 32767))
        return self.int(1, 32767)

    def bpm(self):
        p = self.r.random()
        if p < 0.3:
            return 120.0
        if p < 0.7:
            return self.choice((60.0, 90.0, 100, 128.0, 130.0, 140, 174.5, 33.333, 3.6, 3.75, 4.0, 10.0, 300.0, 999.0,
                                10000.0, 119.999, 120, 121.5, 229.0, 230.0, 915.0, 916.0))
        return round(self.r.uniform(3.6, 500.0), self.r.randint(0, 6)) or 120.0

    def big(self, lo, hi):
        """How many elements in a large case; constants of the source count."""
        v = self.dict_int(lo, hi)
        if v is not None and self.chance(0.5):
            return min(hi, v + self.choice((0, 1, 17)))
        return self.r.randint(lo, hi)

    def count(self, top=12):
        """How many notes: mostly few, sometimes many."""
        p = self.r.random()
        if p < 0.03:
            return 0
        if p < 0.70:
            return self.r.randint(1, top)
        if p < 0.95:
            return self.r.randint(1, 4 * top)
        return self.dict_int(1, 20 * top) or self.r.randint(1, 20 * top)


def pow2_part(x):
    return x & -x


def middle_c(g, wide=True):
    """[kind, value, pitch] of a middle C argument."""
    p = g.r.random()
    if p < 0.35:
        pitch = 36
    elif p < 0.6:
        pitch = 48
    else:
        pitch = g.int(-150, 150) if wide else g.int(0, 100)
    return [g.choice(('int', 'str', 'tone')), pitch]


NAMES = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']


def notation(pitch):
    return f'{NAMES[pitch % 12]}{pitch // 12}'


def make_middle_c(mc):
    from melodia.core import Tone
    kind, pitch = mc
    if kind == 'int':
        return pitch
    if kind == 'str':
        return notation(pitch)
    return Tone(pitch)


# ---- subclasses: what the library accepts, it accepts from user-defined subclasses too ---------------------------

class Subclasses:
    _made = None

    _track = None

    @classmethod
    def track(cls):
        if cls._track is None:
            from melodia.core import Track

            class MyTrack(Track):
                pass

            cls._track = MyTrack
        return cls._track

    @classmethod
    def get(cls):
        if cls._made is None:
            from melodia.core import Note, Signature, Tone

            class MyTone(Tone):
                pass

            class MySignature(Signature):
                pass

            class MyNote(Note):
                pass

            class MyInt(int):
                pass

            class MyStr(str):
                pass

            cls._made = (MyTone, MySignature, MyNote, MyInt, MyStr)
        return cls._made


# ---- model <-> library -------------------------------------------------------------------------------------------

def fr(sig):
    """Exact value of a library signature."""
    return Fraction(sig.nominator, sig.denominator)


def note_of(m):
    """Library note from model [pitch, [n, d], velocity]."""
    from melodia.core import Note, Signature, Tone
    pitch, (n, d), vel = m
    return Note(Tone(pitch), Signature(n, d), vel)


def note_model(note):
    return note.tone.pitch, fr(note.duration), note.velocity


def track_model(track):
    """What the track says through its public interface, in iteration order."""
    return [(fr(p), note_model(n)) for p, n in track]


def case_model(notes):
    """[(position, (pitch, duration, velocity))] of case notes [[pitch, [n, d], velocity], [n, d]]."""
    return [(Fraction(*pos), (m[0], Fraction(*m[1]), m[2])) for m, pos in notes]


def fill_track(cls, signature, pairs, way):
    """A track of the (note, position) pairs, filled in one of the ways a user may choose."""
    if way == 0:
        return cls(signature, list(pairs))
    if way == 1:
        return cls(signature=signature, content=(p for p in pairs))
    if way == 2:
        half = len(pairs) // 2
        t = cls(signature, tuple(pairs[:half]))
        for note, pos in pairs[half:]:
            t.add(note, pos)
        return t
    t = cls(signature)
    if way == 3:
        # notes that share a position are added together
        i = 0
        while i < len(pairs):
            j = i + 1
            while j < len(pairs) and repr(pairs[j][1]) == repr(pairs[i][1]):
                j += 1
            t.add([n for n, _ in pairs[i:j]], pairs[i][1])
            i = j
        return t
    for note, pos in pairs:
        t.add(note, pos)
    return t


def build_track(signature, notes):
    """A track of the case's notes; how it is filled depends on the case, what it must say does not."""
    from melodia.core import Signature, Track
    crc = zlib.crc32(repr(notes[:40]).encode())
    way = crc % 10
    if crc // 10 % 5 == 1 and 0 < len(notes) <= 8:
        # notes and positions that were derived from others
        pairs = [(aged.note(m, crc + i), aged.signature(*pos, crc + i)) for i, (m, pos) in enumerate(notes)]
        return fill_track(Track, aged.signature(*signature, crc), pairs, way)
    if way == 4:
        # the same objects wherever the same values are
        objs, sigs = {}, {}
        pairs = [(objs.setdefault(repr(m), None) or objs.__setitem__(repr(m), note_of(m)) or objs[repr(m)],
                  sigs.setdefault(tuple(pos), Signature(*pos))) for m, pos in notes]
    else:
        pairs = [(note_of(m), Signature(*pos)) for m, pos in notes]
    return fill_track(Track, Signature(*signature), pairs, way)


def time_signature(g):
    p = g.r.random()
    if p < 0.6:
        return g.choice(([4, 4], [3, 4], [6, 8], [2, 2], [17, 16], [12, 8], [5, 4], [2, 4], [4, 8], [1, 1], [7, 8]))
    d = 1 << (g.r.randint(0, 7) if g.chance(0.8) else g.int(0, 255))
    return [g.int(0, 255), d]


def any_notes(g, n, pitch_lo, pitch_hi, vel=None, most=14, rare=40):
    """Arbitrary notes: overlaps, duplicates, zero lengths, off-grid times."""
    vel = vel or g.vel
    pool_p = [g.int(pitch_lo, pitch_hi) for _ in range(g.r.randint(1, 6))]
    pool_pos = [g.sig(most, rare) for _ in range(g.r.randint(1, 6))]
    pool_dur = [g.sig(most, rare) for _ in range(g.r.randint(1, 4))]
    out = []
    for _ in range(n):
        p = g.choice(pool_p) if g.chance(0.6) else g.int(pitch_lo, pitch_hi)
        pos = g.choice(pool_pos) if g.chance(0.5) else g.sig(most, rare)
        dur = g.choice(pool_dur) if g.chance(0.5) else g.sig(most, rare)
        out.append([[p, dur, vel()], pos])
    if g.chance(0.05):
        # everything at one time, or of no length, or all at zero
        pos, dur = g.choice(([0, 1], g.sig(most, rare))), g.choice(([0, 4], g.sig(most, rare), None))
        out = [[[m[0], dur or m[1], m[2]], pos] for m, _ in out]
    if out and g.chance(0.15):
        out.append(g.choice(out))
    return out


VLQ_EDGES = (0x7F, 0x80, 0x81, 0xFF, 0x100, 0x3FFF, 0x4000, 0x4001, 0xFFFF, 0x10000, 0x1FFFFF, 0x200000, 0x200001)


def voices(g, n, keys, den, unit, vel=None, gap_edges=True):
    """About n notes such that notes of equal pitch do not overlap, on the grid 1/den (unit pulses per grid step)."""
    vel = vel or g.audible
    k = g.r.randint(1, min(6, max(1, n)))
    pitches = [g.choice(keys) for _ in range(k)]
    if g.chance(0.3):
        pitches[0] = g.choice((keys[0], keys[-1]))
    pitches = sorted(set(pitches))
    at = {p: 0 for p in pitches}
    if g.chance(0.5):
        start = g.int(0, 4 * den)
        at = {p: start for p in pitches}
    out = []
    sync = 0
    for _ in range(n):
        p = g.choice(pitches)
        q = g.r.random()
        if q < 0.45:
            gap = 0
        elif q < 0.8:
            gap = g.r.randint(0, 2 * den)
        elif q < 0.9 and gap_edges:
            gap = max(0, g.choice(VLQ_EDGES) // max(1, unit) + g.choice((-1, 0, 1)))
        else:
            gap = g.int(0, 64 * den)
        pos = at[p] + gap
        if g.chance(0.4) and sync >= at[p]:
            pos = sync                       # many notes at the same instant
        q = g.r.random()
        if q < 0.12:
            dur = 0
        elif q < 0.7:
            dur = g.r.randint(1, den)
        elif q < 0.8 and gap_edges:
            dur = max(0, g.choice(VLQ_EDGES) // max(1, unit) + g.choice((-1, 0, 1)))
        else:
            dur = g.int(0, 64 * den)
        at[p] = pos + dur
        sync = g.choice((pos, pos + dur, sync))
        out.append([[p, reduce_(g, dur, den), vel()], reduce_(g, pos, den)])
    if g.chance(0.5):
        g.r.shuffle(out)
    return out


def reduce_(g, n, d):
    """An equal fraction with another power-of-two denominator not above d (varies the representation)."""
    while d > 1 and n % 2 == 0 and g.chance(0.5):
        n //= 2
        d //= 2
    return [n, d]


SIZES = [(1 << e) + d for e in range(8, 17) for d in (-1, 0, 1)]


def sized(g, size, lo):
    """Notes one after the other that take this many bytes in a track chunk at 16 pulses per quarter."""
    n, longer = divmod(size - 19, 8)
    notes, at = [], 0
    for i in range(n):
        at += g.r.randint(0, 3)
        dur = 130 if i < longer else g.r.randint(1, 9)
        notes.append([[lo + g.r.randrange(128), [dur, 64], g.r.randint(1, 127) / 127], [at, 64]])
        at += dur
    return notes


def sized_cases(g, shard, lo):
    """Tracks whose chunk or whose file has a size at an edge."""
    for i, size in enumerate(SIZES):
        for whole in (0, 22):
            if (2 * i + whole // 22) % 8 == shard and size - whole > 30:
                yield sized(g, size - whole, lo)
    yield sized(g, 4096 * g.r.randint(1, 20) - g.choice((0, 22)), lo)
    yield sized(g, 1000 * g.r.randint(1, 60) - g.choice((0, 22)), lo)
