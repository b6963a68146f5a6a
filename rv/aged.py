"""Values with a history: derived from others that were looked at before, instead of made directly."""
import copy
import pickle
import random


def look(x, r):
    """Look at a value in a few ways."""
    from melodia.core import Note, Signature, Tone, Track
    from melodia.io import midi
    from melodia.music import chord
    general = [lambda: repr(x), lambda: str(x), lambda: x == x, lambda: x < x, lambda: hash(x), lambda: f'{x}']
    own = {Tone: [lambda: x.to_notation(), lambda: x.to_notation(True), lambda: x.to_frequency(), lambda: x.to_frequency(432.0),
                  lambda: x.octave, lambda: x.pitch, lambda: x < Tone(40), lambda: x.transposed(5), lambda: chord.maj(x),
                  lambda: midi.dumps(Track(content=[(Note(x), (1, 4))]))],
           Signature: [lambda: x.normalized(), lambda: x.to(x.denominator * 4), lambda: x + x, lambda: x * x, lambda: abs(x),
                       lambda: (x.nominator, x.denominator), lambda: x < Signature(1, 1), lambda: x == Signature(1, 1 << 20), lambda: x + Signature(3, 64),
                       lambda: Signature(3, 64) >= x, lambda: x * Signature(3, 8), lambda: midi.dumps(Track(content=[(Note(3, x), x)])),
                       lambda: x == Signature(1, x.denominator * 4), lambda: Track(content=[(Note(3, x), x)]).length],
           Note: [lambda: x.tone.to_notation(), lambda: x.duration.normalized(), lambda: x.velocity, lambda: x.tone.to_frequency(),
                  lambda: x.transposed(1), lambda: repr(x.tone), lambda: x < Note(40), lambda: chord.min7(x), lambda: x.with_velocity(0.5),
                  lambda: midi.dumps(Track(content=[(x, (1, 4))])), lambda: x == Note(x.tone, (1, 64), 0.5)]}
    for f in r.choices(general + own.get(type(x), []) * 2, k=r.choice((0, 1, 2, 4))):
        try:
            f()
        except Exception:
            pass


def _dup(x, r):
    try:
        return copy.copy(x) if r.random() < 0.3 else copy.deepcopy(x) if r.random() < 0.5 else pickle.loads(pickle.dumps(x, 4))
    except TypeError:
        return x


def tone(p, seed):
    from melodia.core import Note, Tone
    r = random.Random(seed)
    x = Tone(p)
    try:
        for _ in range(r.randint(1, 3)):
            k = r.choice((1, -1, 12, -12, 7, 24, -36, r.randint(-200, 200)))
            y = Tone(p - k)
            look(y, r)
            how = r.randrange(5)
            if how < 2:
                x = y.transposed(k)
            elif how == 2:
                n = Note(y)
                look(n, r)
                x = n.transposed(k).tone
            elif how == 3:
                look(x, r)
                x = x.transposed(k).transposed(-k)
            else:
                look(x, r)
                x = _dup(x, r)
            look(x, r)
    except Exception:
        return Tone(p)
    return x if x.pitch == p else Tone(p)


def signature(n, d, seed):
    from melodia.core import Note, Signature, Track
    r = random.Random(seed)
    x = Signature(n, d)
    try:
        for _ in range(r.randint(1, 2)):
            how = r.randrange(7)
            if how == 0:
                k = r.randint(0, max(0, (n & -n).bit_length() - 1 if n else 3))
                if d >> k:
                    y = Signature(n >> k, d >> k)
                    look(y, r)
                    x = y.to(d)
            elif how == 1:
                a = r.choice((0, 1, n, n // 2, n // 4))
                y, z = Signature(a, d), Signature(max(0, n - a), r.choice((d, d)))
                look(y, r)
                look(z, r)
                x = y + z
            elif how == 2:
                y, z = Signature(n, 1), Signature(1, d)
                look(y, r)
                look(z, r)
                x = y * z
            elif how == 3 and (n & 1 or d == 1):
                y = Signature(n * 8, d * 8)
                look(y, r)
                x = y.normalized()
            elif how == 4:
                look(x, r)
                note = Note(3, x)
                t = Track(x, [(note, x)])
                look(t, r)
                x = r.choice((t.signature, note.with_velocity(0.5).duration, list(t)[0][0]))
            elif how == 5:
                look(x, r)
                x = abs(x)
            else:
                look(x, r)
                x = _dup(x, r)
            look(x, r)
    except Exception:
        return Signature(n, d)
    return x if (x.nominator, x.denominator) == (n, d) else Signature(n, d)


def note(m, seed):
    from melodia.core import Note, Track
    r = random.Random(seed)
    p, (n, d), v = m
    x = Note(p, (n, d), v)
    try:
        for _ in range(r.randint(1, 3)):
            how = r.randrange(6)
            if how == 0:
                k = r.choice((1, -1, 12, -12, r.randint(-100, 100)))
                y = Note(p - k, (n, d), v)
                look(y, r)
                x = y.transposed(k)
            elif how == 1:
                y = Note(tone(p, seed + 1), (n + 1, d), v)
                look(y, r)
                x = y.with_duration(signature(n, d, seed + 2))
            elif how == 2:
                y = Note(p, (n, d), r.choice((0.0, 1.0, 0.5, v / 2)))
                look(y, r)
                x = y.with_velocity(v)
            elif how == 3:
                look(x, r)
                t = Track(content=[(x, (1, 4))])
                repr(t)
                x = list(t)[0][1]
            elif how == 4:
                x = Note(tone(p, seed + 1), signature(n, d, seed + 2), v)
            else:
                look(x, r)
                x = _dup(x, r)
            look(x, r)
    except Exception:
        return Note(p, (n, d), v)
    return x if (x.tone.pitch, x.duration.nominator, x.duration.denominator, x.velocity) == (p, n, d, v) else Note(p, (n, d), v)
