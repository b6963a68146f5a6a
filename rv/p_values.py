"""Signatures, tones and notes: exact-arithmetic reference monitors."""
import re
from fractions import Fraction

from . import aged
from .engine import Prop
from .gen import DICT_STRS, G, NAMES, Subclasses, any_notes, build_track, fr, notation, note_model


def raises(fn, *types):
    """(outcome, value): ('value', v), ('expected', exc) or ('other', exc)."""
    try:
        v = fn()
    except types as e:
        return 'expected', e
    except Exception as e:
        return 'other', e
    return 'value', v


def expect(mon, fn, types, what):
    kind, v = raises(fn, *types)
    mon.ensure(kind == 'expected', f'{what}: expected {"/".join(t.__name__ for t in types)}, got {kind} {v!r}')
    mon.count('rejections_observed')


def near_pair(g):
    """Two signatures that are equal, adjacent or unrelated, in different representations."""
    a = g.sig(14, 200) if g.chance(0.96) else g.huge_sig()
    if a[1] == 1 and a[0] and g.chance(0.1):
        a = [a[0], 1 << g.r.randint(0, 12000)]
    p = g.r.random()
    if p < 0.3:
        k = 1 << (g.r.randint(0, 6) if g.chance(0.8) else g.r.randint(0, 80))
        b = [a[0] * k, a[1] * k]
    elif p < 0.6:
        k = 1 << (g.r.randint(0, 6) if g.chance(0.8) else g.r.randint(0, 80))
        b = [max(0, a[0] * k + g.choice((-1, 1))), a[1] * k]
    elif p < 0.7:
        b = [a[0], a[1] << g.r.randint(0, 5)]
    else:
        b = g.sig(14, 200) if g.chance(0.96) else g.huge_sig()
    return (a, b) if g.chance(0.5) else (b, a)


class C10(Prop):
    id = 'C10'
    long_ints = True
    rule = ('pairs of signatures (equal values in different denominators, values one unit apart, unrelated, mostly up to '
            '2**200, some up to 2**3000) compared with exact rationals; non-trivial: the two denominators differ')
    budget = {'quick': 48000, 'thorough': 400000}
    requires = {'left_denominator_smaller': 200, 'left_denominator_larger': 200, 'equal_values': 200}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        # every ordered pair of small signatures
        small = [[a, 1 << e] for e in range(0, 6) for a in range(0, 12)]
        for i, x in enumerate(small):
            if i % 8 == shard:
                for y in small:
                    yield {'a': x, 'b': y}
        for _ in range(n):
            a, b = near_pair(g)
            yield {'a': a, 'b': b, 'mine': g.r.randint(1, 3) if g.chance(0.05) else 0, 'aged': g.r.randrange(1, 1 << 30) if g.chance(0.25) else 0}

    def run(self, case, mon):
        from melodia.core import Signature
        (an, ad), (bn, bd) = case['a'], case['b']
        a, b = Signature(an, ad), Signature(bn, bd)
        if case.get('mine'):
            a, b = (Subclasses.get()[1](s.nominator, s.denominator) if case['mine'] & k else s for k, s in ((1, a), (2, b)))
            mon.count('user_defined_subclasses')
        elif case.get('aged'):
            a, b = aged.signature(an, ad, case['aged']), aged.signature(bn, bd, case['aged'] + 7)
            mon.count('values_with_a_history')
        x, y = Fraction(an, ad), Fraction(bn, bd)
        if ad != bd:
            mon.nontrivial((an, ad, bn, bd))
        mon.count('left_denominator_smaller' if ad < bd else 'left_denominator_larger' if ad > bd else 'same_denominator')
        if x == y:
            mon.count('equal_values')
        for name, got, want in (('==', a == b, x == y), ('!=', a != b, x != y), ('<', a < b, x < y),
                                ('<=', a <= b, x <= y), ('>', a > b, x > y), ('>=', a >= b, x >= y)):
            mon.ensure(bool(got) == want, f'{an}/{ad} {name} {bn}/{bd} gave {got}, exact arithmetic says {want}')
        for name, got, want in (('+', a + b, x + y), ('*', a * b, x * y), ('abs', abs(a), x)):
            mon.ensure(isinstance(got, Signature) and fr(got) == want,
                       f'{an}/{ad} {name} {bn}/{bd} gave {got}, exact arithmetic says {want}')
            mon.ensure(got.denominator > 0 and got.denominator & (got.denominator - 1) == 0 and got.nominator >= 0,
                       f'{an}/{ad} {name} {bn}/{bd} gave the invalid signature {got}')
        total, product = a, a
        total += b
        product *= b
        mon.ensure(fr(total) == x + y and fr(product) == x * y,
                   f'{an}/{ad} += {bn}/{bd} gave {total}, *= gave {product}')
        mon.ensure((a.nominator, a.denominator, b.nominator, b.denominator) == (an, ad, bn, bd),
                   'an operand changed during arithmetic or comparison')
        mon.seen('orderings', (ad > bd, ad < bd, x > y, x < y))


class C11(Prop):
    id = 'C11'
    long_ints = True
    rule = ('signature and target denominator (powers of two above, below and equal, non-powers, zero, negative); '
            'non-trivial: conversion changes the denominator, or normalization changes the signature')
    budget = {'quick': 96000, 'thorough': 400000}
    requires = {'rescaled': 200, 'refused': 200, 'normalized_changed': 200}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i, nom in enumerate(range(0, 80)):
            if i % 8 == shard:
                for e in range(0, 8):
                    for to in range(-2, 140):
                        yield {'s': [nom, 1 << e], 'to': to}
        for _ in range(n):
            n_, d = g.sig(14, 200) if g.chance(0.97) else g.huge_sig()
            p = g.r.random()
            if p < 0.5:
                to = d << (g.r.randint(0, 10) if g.chance(0.8) else g.r.randint(0, 100 if g.chance(0.9) else 2000))
            elif p < 0.7:
                to = max(1, d >> g.r.randint(0, 6))
            else:
                to = g.int(-10, 1 << g.choice((8, 20, 70)))
            if g.chance(0.3):
                n_ *= 1 << g.r.randint(0, 12)
            if _ % 97 == 1:
                # thousands of common factors of two
                k = g.choice((1000, 4000, 5000, 9000, 17000, g.r.randint(0, 30000), g.dict_int(0, 30000) or 0))
                n_, d, to = n_ << k, d << k, d << k + g.r.randint(0, 3)
            yield {'s': [n_, d], 'to': to, 'aged': g.r.randrange(1, 1 << 30) if g.chance(0.25) else 0}
            if n_ > 1 << 53 and g.chance(0.5):
                # neighbours that no machine number tells apart, right after each other
                yield {'s': [n_ + 1, d], 'to': to}
                yield {'s': [n_ | 1, 2 * d], 'to': to}

    def run(self, case, mon):
        from melodia.core import Signature
        (n, d), to = case['s'], case['to']
        s = Signature(n, d)
        if case.get('aged'):
            s = aged.signature(n, d, case['aged'])
            mon.count('values_with_a_history')
        mon.ensure(s.nominator == n and s.denominator == d, f'Signature({n}, {d}) stores {s.nominator}/{s.denominator}')
        x = Fraction(n, d)
        if to > 0 and to & (to - 1) == 0 and to >= d:
            r = s.to(to)
            mon.ensure(isinstance(r, Signature) and r.denominator == to and r.nominator * d == n * to,
                       f'{n}/{d} converted to denominator {to} gave {r.nominator}/{r.denominator}')
            if to != d:
                mon.count('rescaled')
                mon.nontrivial(('to', n, d, to))
        else:
            expect(mon, lambda: s.to(to), (ValueError,), f'{n}/{d} converted to denominator {to}')
            mon.count('refused')
        r = s.normalized()
        mon.ensure(isinstance(r, Signature) and (r.nominator, r.denominator) == (x.numerator, x.denominator),
                   f'{n}/{d} normalized gave {r.nominator}/{r.denominator}, lowest terms are {x}')
        if r.denominator != d:
            mon.count('normalized_changed')
            mon.nontrivial(('norm', n, d))
        mon.ensure(s.nominator == n and s.denominator == d, 'conversion changed the original signature')


LETTERS = {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}
GRAMMAR = re.compile(r'[A-G][#b]*(-?[0-9]+)?')


def random_notation(g):
    s = g.choice('ABCDEFG')
    k = g.choice((0, 0, 1, 1, 2, 3, 7)) if g.chance(0.95) else g.r.randint(0, 60 if g.chance(0.95) else 3000 if g.chance(0.98) else 70000)
    mode = g.choice(('#', 'b', '#b', '#b'))
    s += ''.join(g.choice(mode) for _ in range(k))
    p = g.r.random()
    if p < 0.2:
        return s
    big = 10 ** (g.choice((2, 3, 9)) if g.chance(0.9) else g.r.randint(10, 100) if g.chance(0.9) else g.r.randint(100, 4000))
    o = g.r.randint(-3, 11) if p < 0.7 else g.int(-big, big)
    t = str(abs(o))
    if g.chance(0.05):
        t = '0' * g.r.randint(1, 3 if g.chance(0.8) else 40) + t
    return s + ('-' if o < 0 or g.chance(0.02) else '') + t


def broken_notation(g):
    s = random_notation(g)
    p = g.r.random()
    junk = ' \t\n\r.+-#bxXm7/_\0hHcdefgABCDEFG0123456789♯♭♮𝄪𝄫＃ｂＣＡСÇ−–‐é\u00a0\u200b\ufeff'
    if p < 0.3:
        s = s + g.choice(junk)
    elif p < 0.45:
        s = g.choice(junk) + s
    elif p < 0.7:
        i = g.r.randint(0, len(s))
        s = s[:i] + g.choice(junk) + s[i:]
    elif p < 0.8:
        s = s.lower()
    elif p < 0.9:
        s = ''.join(g.choice(junk) for _ in range(g.r.randint(0, 5)))
    else:
        s = g.choice(DICT_STRS) if DICT_STRS else ''
        if g.chance(0.5):
            s = random_notation(g) + s
    return s


class C12(Prop):
    id = 'C12'
    rule = ('every pitch in a wide window formatted both ways and parsed back; random spellings (accidentals in any '
            'order, any octave) parsed and compared with letter arithmetic; corrupted spellings; non-trivial: spelling '
            'has accidentals or a negative octave, or is refused')
    budget = {'quick': 100000, 'thorough': 400000}
    requires = {'parsed': 1000, 'refused': 1000, 'formatted': 1000}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for p in range(-1300 + shard, 1300, 8):
            yield {'pitch': p}
        for o in range(-12, 13):
            for letter in 'ABCDEFG':
                for acc in ('', '#', 'b', '##', 'bb', '#b', 'b#'):
                    if (o + ord(letter)) % 8 == shard:
                        yield {'text': f'{letter}{acc}{o}'}
        for _ in range(n):
            p = g.r.random()
            if p < 0.25:
                big = 10 ** (g.choice((3, 6, 12)) if g.chance(0.9) else g.r.randint(13, 200))
                yield {'pitch': g.int(-big, big), 'aged': g.r.randrange(1, 1 << 30) if g.chance(0.4) else 0}
            elif p < 0.6:
                yield {'text': random_notation(g)}
            else:
                yield {'text': broken_notation(g)}

    def run(self, case, mon):
        from melodia.core import Note, Tone
        if 'pitch' in case:
            p = case['pitch']
            t = Tone(p)
            if case.get('aged'):
                t = aged.tone(p, case['aged'])
                mon.count('values_with_a_history')
            up, down = t.to_notation(), t.to_notation(transpose_down=True)
            mon.count('formatted', 2)
            o = p // 12
            name = NAMES[p % 12]
            mon.ensure(up == f'{name}{o}', f'pitch {p} is written {up!r}, expected {name}{o}')
            if '#' in name:
                flat = NAMES[p % 12 + 1]
                mon.ensure(down == f'{flat}b{o}', f'pitch {p} is written {down!r} with flats, expected {flat}b{o}')
                mon.nontrivial(('p', p))
            else:
                mon.ensure(down == up, f'pitch {p} is written {down!r} with flats, expected {up}')
            mon.ensure(str(t) == up, f'str() of pitch {p} is {str(t)!r}, notation is {up!r}')
            for s in (up, down):
                back = Tone.from_notation(s)
                mon.ensure(back.pitch == p and back == t, f'pitch {p} written {s!r} reads back as {back.pitch}')
            mon.ensure(t.pitch == p and t.octave == o, f'pitch {p} has octave {t.octave}, expected {o}')
            return
        s = case['text']
        if any(ord(c) > 127 for c in s) and any(c.isdigit() and ord(c) > 127 for c in s):
            return
        if GRAMMAR.fullmatch(s):
            m = re.fullmatch(r'([A-G])([#b]*)(-?[0-9]+)?', s)
            want = LETTERS[m.group(1)] + m.group(2).count('#') - m.group(2).count('b') + 12 * int(m.group(3) or 0)
            got = Tone.from_notation(s)
            mon.ensure(isinstance(got, Tone) and got.pitch == want, f'{s!r} was read as {got!r}, expected pitch {want}')
            mon.ensure(Note(s).tone.pitch == want, f'a note built from {s!r} has pitch {Note(s).tone.pitch}')
            mon.count('parsed')
            if m.group(2) or (m.group(3) or '').startswith('-'):
                mon.nontrivial(s)
        else:
            expect(mon, lambda: Tone.from_notation(s), (ValueError,), f'notation {s!r}')
            expect(mon, lambda: Note(s), (ValueError,), f'note notation {s!r}')
            mon.count('refused')
            mon.nontrivial(s)


class C13(Prop):
    id = 'C13'
    rule = ('random pitches and transpositions composed, compared and turned into frequency; non-trivial: at least one '
            'non-zero transposition')
    budget = {'quick': 48000, 'thorough': 300000}
    requires = {'frequencies': 1000, 'transpositions': 1000}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for p in range(-300 + shard, 300, 8):
            for k in (-25, -13, -12, -11, -1, 0, 1, 11, 12, 13, 25):
                yield {'p': p, 'q': p + k, 'ks': [k, -k, 1], 'base': 440.0}
        for _ in range(n):
            p = g.int(-5000, 5000)
            big = 10 ** g.choice((1, 2, 3, 12, 17, 25))
            yield {'p': p, 'q': p + g.choice((-1, 0, 1, 12, -12)) if g.chance(0.5) else g.int(-5000, 5000),
                   'ks': [g.int(-big, big) for _ in range(g.r.randint(1, 5))],
                   'base': g.choice((440.0, 432.0, 415, 1.0, 261.6, 0.001, 1e6, 1e-9, 1e-100, 1e100)) if g.chance(0.7)
                   else g.r.uniform(0, 2) if g.chance(0.2) else g.r.uniform(1, 2000), 'mine': g.r.randint(1, 3) if g.chance(0.05) else 0,
                   'aged': g.r.randrange(1, 1 << 30) if g.chance(0.3) else 0}

    def run(self, case, mon):
        from melodia.core import Note, Tone
        p, q, base = case['p'], case['q'], case['base']
        a, b = Tone(p), Tone(q)
        if case.get('mine'):
            a, b = (Subclasses.get()[0](t.pitch) if case['mine'] & k else t for k, t in ((1, a), (2, b)))
        elif case.get('aged'):
            a, b = aged.tone(p, case['aged']), aged.tone(q, case['aged'] + 7)
            mon.count('values_with_a_history')
        for name, got, want in (('==', a == b, p == q), ('!=', a != b, p != q), ('<', a < b, p < q),
                                ('<=', a <= b, p <= q), ('>', a > b, p > q), ('>=', a >= b, p >= q)):
            mon.ensure(bool(got) == want, f'Tone({p}) {name} Tone({q}) gave {got}')
        t, total = a, 0
        n = Note(a, (3, 8), 0.3)
        for k in case['ks']:
            t = t.transposed(k)
            n = n.transposed(k)
            total += k
            mon.count('transpositions')
            if k:
                mon.nontrivial((p, k))
            mon.ensure(isinstance(t, Tone) and t.pitch == p + total, f'pitch {p} transposed by {total} gave {t!r}')
            mon.ensure(t.octave == (p + total) // 12, f'pitch {p + total} is said to be in octave {t.octave}')
            mon.ensure(n.tone.pitch == p + total and fr(n.duration) == Fraction(3, 8) and n.velocity == 0.3,
                       f'note transposed by {total} became {n!r}')
        mon.ensure(a.transposed(total) == t, f'transposing pitch {p} by {case["ks"]} in steps and at once differ')
        mon.ensure(a.transposed(total).transposed(-total).pitch == p, f'transposing {p} by {total} and back')
        mon.ensure(a.pitch == p, 'transposition changed the original tone')
        f = a.to_frequency(base)
        want = base * 2.0 ** ((p - 57) / 12)
        mon.ensure(abs(f - want) <= 1e-9 * want, f'frequency of pitch {p} with A4={base} is {f}, expected {want}')
        up = a.transposed(12).to_frequency(base)
        mon.ensure(abs(up - 2 * f) <= 1e-9 * up, f'an octave above pitch {p} is {up} Hz, not twice {f}')
        semi = a.transposed(1).to_frequency(base)
        mon.ensure(semi > f, f'pitch {p + 1} is not higher in frequency than {p}')
        mon.ensure(abs(Tone(57).to_frequency(base) - base) <= 1e-9 * base, 'A4 does not have the base frequency')
        d = a.to_frequency()
        mon.ensure(abs(d * base - f * 440.0) <= 1e-9 * abs(d * base), f'default base of pitch {p} is not 440 Hz: {d}')
        mon.count('frequencies', 4)


def note_case(g):
    return [g.pitch(), g.sig(10, 60), g.vel()]


def related_note(g, m):
    m = [m[0], list(m[1]), m[2]]
    k = g.r.randrange(5)
    if k == 0:
        s = 1 << g.r.randint(0, 5)
        m[1] = [m[1][0] * s, m[1][1] * s]
    elif k == 1:
        m[2] = g.vel()
    elif k == 2:
        s = 1 << g.r.randint(0, 5)
        m[1] = [max(0, m[1][0] * s + g.choice((-1, 0, 1))), m[1][1] * s]
    elif k == 3:
        m[0] += g.choice((-1, 1))
    else:
        m[1] = g.sig(10, 60)
    return m


class C14(Prop):
    id = 'C14'
    rule = ('pairs of notes sharing all but one component (durations written with different denominators) compared '
            'with the exact triplet order, and every derivation checked component by component; non-trivial: the two '
            'notes share the tone')
    budget = {'quick': 30000, 'thorough': 250000}
    requires = {'same_tone_pairs': 500, 'same_tone_and_duration_pairs': 200, 'derivations': 1000}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            a = note_case(g)
            b = related_note(g, a)
            if g.chance(0.3):
                b = related_note(g, b)
            yield {'a': a, 'b': b, 'k': g.int(-300, 300), 'd': g.sig(10, 60), 'v': g.vel(),
                   'how': [g.r.randrange(6), g.r.randrange(6)], 'aged': g.r.randrange(1, 1 << 30) if g.chance(0.25) else 0}

    @staticmethod
    def make(m, how):
        from melodia.core import Note, Signature, Tone
        MyTone, MySignature, MyNote, MyInt, MyStr = Subclasses.get()
        pitch, (n, d), vel = m
        tone = [pitch, notation(pitch), Tone(pitch), MyInt(pitch), MyStr(notation(pitch)), MyTone(pitch)][how]
        dur = [(n, d), [n, d], Signature(n, d), iter((n, d)), MySignature(n, d), (x for x in [n, d])][(how + n) % 6]
        if how == 4:
            Note = MyNote
        return Note(tone, dur, vel) if how else Note(velocity=vel, duration=dur, tone=tone)

    def run(self, case, mon):
        from melodia.core import Note, Signature
        ma, mb = case['a'], case['b']
        a, b = self.make(ma, case['how'][0]), self.make(mb, case['how'][1])
        if case.get('aged'):
            a, b = aged.note(ma, case['aged']), aged.note(mb, case['aged'] + 7)
            mon.count('values_with_a_history')
        ka = (ma[0], Fraction(*ma[1]), ma[2])
        kb = (mb[0], Fraction(*mb[1]), mb[2])

        def same(n, k, what):
            mon.ensure(isinstance(n, Note) and note_model(n) == k, f'{what}: got {n!r}, expected {k}')

        same(a, ka, 'constructed note')
        same(b, kb, 'constructed note')
        for name, got, want in (('==', a == b, ka == kb), ('!=', a != b, ka != kb), ('<', a < b, ka < kb),
                                ('<=', a <= b, ka <= kb), ('>', a > b, ka > kb), ('>=', a >= b, ka >= kb)):
            mon.ensure(bool(got) == want, f'{ma} {name} {mb} gave {got}, component-wise comparison says {want}')
        if ka[0] == kb[0]:
            mon.count('same_tone_pairs')
            mon.nontrivial((ka, kb))
            if ka[1] == kb[1]:
                mon.count('same_tone_and_duration_pairs')
        k, (dn, dd), v = case['k'], case['d'], case['v']
        same(a.transposed(k), (ka[0] + k, ka[1], ka[2]), f'transposed by {k}')
        same(a.with_duration((dn, dd)), (ka[0], Fraction(dn, dd), ka[2]), f'with duration {dn}/{dd}')
        same(a.with_duration(Signature(dn, dd)), (ka[0], Fraction(dn, dd), ka[2]), f'with duration {dn}/{dd}')
        same(a.with_velocity(v), (ka[0], ka[1], v), f'with velocity {v}')
        same(a.transposed(k).with_velocity(v).with_duration((dn, dd)), (ka[0] + k, Fraction(dn, dd), v), 'chain')
        same(a, ka, 'the original note after derivations')
        for x, pvd in ((a.transposed(k), (ka[0] + k, ma[1], ka[2])), (a.with_duration((dn, dd)), (ka[0], (dn, dd), ka[2])),
                       (a.with_velocity(v), (ka[0], ma[1], v))):
            y = Note(pvd[0], tuple(pvd[1]), pvd[2])
            mon.ensure(x == y and y == x and not x < y and not x > y and (str(x), repr(x)) == (str(y), repr(y)),
                       f'a derived note {x!r} is not the same as one made directly, {y!r}')
        mon.ensure((a.duration.nominator, a.duration.denominator) == tuple(ma[1]),
                   f'duration {ma[1]} is reported as {a.duration}')
        same(Note(ma[0]), (ma[0], Fraction(1, 4), 0.75), 'default duration and velocity')
        mon.count('derivations', 5)


class C19(Prop):
    id = 'C19'
    rule = ('repr of random tones, signatures, notes and tracks evaluated with the class names in scope and compared '
            'with the original; non-trivial: a track with at least two notes, or a non-default note')
    budget = {'quick': 5000, 'thorough': 60000}
    requires = {'tracks': 500, 'notes': 500, 'large_tracks': 10}

    def cases(self, rng, n, shard, tier):
        from .gen import any_notes, time_signature
        g = G(rng)
        for _ in range(n):
            notes = any_notes(g, min(g.count(6), 60), -60, 140)
            sig = time_signature(g) if g.chance(0.7) else g.sig()
            yield {'sig': sig, 'notes': notes, 'more': [g.pitch(), g.sig(14, 200) if g.chance(0.9) else g.huge_sig(), g.vel()],
                   **({'aged': g.r.randrange(1 << 30)} if g.chance(0.4) else {})}
            if _ % (n // 3 + 1) == 7:
                size = g.big(1100, 5000 if tier == 'quick' else 12000)
                yield {'sig': sig, 'notes': any_notes(g, size, -60, 140, most=10, rare=10)}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from .gen import build_track, case_model, note_of, track_model
        env = {'Note': Note, 'Signature': Signature, 'Tone': Tone, 'Track': Track}
        t = build_track(case['sig'], case['notes'])
        want = sorted(case_model(case['notes']))
        text = repr(t)
        back = eval(text, dict(env))
        mon.count('tracks')
        mon.ensure(isinstance(str(t), str) and str(t), 'a track cannot be printed')
        mon.ensure(isinstance(back, Track), f'repr of a track evaluates to {type(back)}')
        mon.ensure(sorted(track_model(back)) == want, 'track rebuilt from its repr has different notes', text=text)
        mon.ensure((back.signature.nominator, back.signature.denominator) == tuple(case['sig']),
                   f'track rebuilt from its repr has signature {back.signature}, original {case["sig"]}')
        mon.ensure(back == t and t == back and fr(back.length) == fr(t.length) and repr(back) == text,
                   'track rebuilt from its repr is not equal to the original', text=text)
        if len(want) > 1:
            mon.nontrivial(text)
        if len(want) > 1000:
            mon.count('large_tracks')
        # the representation of tracks derived from this one, which was printed before
        if len(want) < 60:
            from melodia.io import midi
            from melodia.processing.track import randomize_velocities
            made = [randomize_velocities(t), randomize_velocities(t, 0, 0.25, 0.1, 0.0), Track(t.signature, [(n, at) for at, n in t])]
            try:
                data = midi.dumps(t)
                made += [midi.loads(data), midi.loads(data, 0)]
            except (ValueError, OverflowError, midi.MIDIError):
                pass
            for u in made:
                text = repr(u)
                back = eval(text, dict(env))
                mon.ensure(back == u and u == back and sorted(track_model(back)) == sorted(track_model(u)) and repr(back) == text and
                           (back.signature.nominator, back.signature.denominator) == (u.signature.nominator, u.signature.denominator),
                           'a derived track rebuilt from its repr is not equal to it', text=text)
                mon.count('derived_tracks')
        # the representation follows the track when it grows
        if len(want) < 8:
            t.add(Note(7, (1, 2), 0.25), (1, 8))
            t.add([Note(8), Note(7, (1, 2), 0.25)])
            back = eval(repr(t), dict(env))
            mon.ensure(back == t and len(back) == len(want) + 3,
                       'after more notes were added the track rebuilt from its repr is not equal to the original')
        for m in [m for m, _ in case['notes'][:10]] + ([case['more']] if 'more' in case else []):
            n = note_of(m)
            if 'aged' in case:
                n = aged.note(m, case['aged'])
                mon.count('values_with_a_history')
            b = eval(repr(n), dict(env))
            mon.count('notes')
            mon.ensure(isinstance(b, Note) and note_model(b) == note_model(n) and b == n,
                       f'note {m} rebuilt from its repr is {b!r}', text=repr(n))
            for x in (n, n.tone, n.duration):
                mon.ensure(isinstance(str(x), str) and str(x), f'{x!r} cannot be printed')
            for x in (n.tone, n.duration):
                y = eval(repr(x), dict(env))
                mon.ensure(type(y) is type(x) and y == x, f'{x!r} rebuilt from its repr is {y!r}')
            d = eval(repr(n.duration), dict(env))
            mon.ensure((d.nominator, d.denominator) == tuple(m[1]), f'signature {m[1]} rebuilt from its repr is {d!r}')
            mon.ensure(eval(repr(n.tone), dict(env)).pitch == m[0], f'tone {m[0]} rebuilt from its repr')
            mon.nontrivial(repr(n))


class C26(Prop):
    id = 'C26'
    rule = ('argument values at, just inside and just outside every documented range, for every constructor and '
            'processing function; non-trivial: value within two steps of a limit or of the wrong type')
    budget = {'quick': 30000, 'thorough': 150000}
    requires = {'accepted': 1000, 'rejections_observed': 1000}
    KINDS = ('signature', 'velocity', 'note_type', 'ppq', 'channel', 'middle_c', 'random', 'track', 'tone', 'module', 'not_numbers')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i, v in enumerate(range(-40, 300)):
            if i % 8 == shard:
                yield {'k': 'channel', 'v': v}
                yield {'k': 'module', 'v': v}
                yield {'k': 'ppq', 'v': v}
                for d in range(-3, 70):
                    yield {'k': 'signature', 'v': [v, d]}
        for case in self.around(g, n):
            if case['k'] in ('signature', 'velocity', 'random', 'module', 'ppq', 'channel'):
                case['at'] = {'notes': any_notes(g, g.r.randint(0, 4), 0, 90, most=6, rare=10), 'm': note_case(g),
                              'ppq': g.r.randint(1, 32767), 'channel': g.r.randrange(16), 'mc': g.r.randint(-20, 100)}
            yield case

    def around(self, g, n):
        for _ in range(n):
            k = g.choice(self.KINDS)
            if k == 'signature':
                d = g.den(14, 200)
                p = g.r.random()
                if p < 0.3:
                    d = g.int(-70, 5000)
                elif p < 0.5:
                    d = d + g.choice((-1, 1))
                elif p < 0.6:
                    d = -d
                yield {'k': k, 'v': [g.int(-1000, 1000) if g.chance(0.7) else g.choice((-1, 0, 1)), d]}
            elif k == 'velocity':
                v = g.choice((0.0, 1.0, -1e-12, 1.0000000000000002, -0.0, 1.0 - 1e-16, -1.0, 2.0, float('nan'),
                              float('inf'), float('-inf'), 0, 1, 2, -1, 127, 5e-324, -5e-324, g.vel(), g.vel(),
                              g.r.uniform(-3, 3)))
                yield {'k': k, 'v': v, 'frac': [g.int(-40, 200), 128] if g.chance(0.2) else None}
            elif k in ('ppq', 'channel', 'module'):
                lo, hi = (1, 32767) if k == 'ppq' else (0, 15)
                yield {'k': k, 'v': g.choice((lo, lo - 1, hi, hi + 1, lo + 1, hi - 1, -lo, -hi, hi * 2, 65535, 65536,
                                              g.int(-70000, 70000), *(float('nan'), float('inf'), float('-inf')) * g.chance(0.3)))}
            elif k == 'random':
                which = g.choice(('minimum', 'maximum', 'mean', 'variance'))
                same = g.r.random()
                yield {'k': k, 'which': which, 'rest': g.choice(((0.0, 1.0, 0.5, 0.0), (same, same, same, 1.0), (1, 0, 0, 0),
                                                                 [g.r.random() for _ in range(4)])),
                       'v': g.choice((0.0, 1.0, -1e-9, 1.0 + 1e-9, -1.0, 2.0, float('nan'), 0, 1, g.r.uniform(-2, 2),
                                      g.r.uniform(0, 1), 100.0))}
            elif k in ('note_type', 'tone', 'middle_c', 'track', 'not_numbers'):
                yield {'k': k, 'v': g.r.randrange(12), 'w': g.r.randrange(12)}

    def run(self, case, mon):
        from melodia.core import Note, Signature, Tone, Track
        from melodia.io import midi
        from melodia.music import chord
        from melodia.processing.track import randomize_velocities
        from .p_music import CHORDS
        k, v = case['k'], case['v']
        mon.nontrivial(repr(sorted(case.items(), key=lambda i: i[0])))
        junk = [None, 1.5, object(), b'C4', {}, [], (), {'C'}, 'c4', '', 3.0, complex(1)]
        at = case.get('at') or {'notes': [], 'm': [0, [1, 4], 0.5], 'ppq': 96, 'channel': 0, 'mc': 36}
        p, dur, vel = at['m']
        chords = sorted(CHORDS)
        name = chords[p % len(chords)]

        def some_track():
            return build_track([4, 4], at['notes'])

        def rule(ok, fn, types, what):
            if ok:
                r = fn()
                mon.count('accepted')
                return r
            expect(mon, fn, types, what)

        if k == 'signature':
            n, d = v
            ok = n >= 0 and d > 0 and d & (d - 1) == 0
            for what, fn in (('Signature', lambda: Signature(n, d)),
                             ('note duration', lambda: Note(0, (n, d))),
                             ('changed duration', lambda: Note(0).with_duration((n, d))),
                             ('track signature', lambda: Track((n, d))),
                             ('position', lambda: Track().add(Note(0), (n, d))),
                             ('content position', lambda: Track(content=[(Note(0), (n, d))])),
                             ('position of several notes', lambda: Track().add([Note(0), Note(1)], [n, d])),
                             ('duration of a note', lambda: Note(Tone(p), (n, d), vel)),
                             ('duration of a named note', lambda: Note(Tone(p).to_notation(), [n, d], vel)),
                             ('changed duration', lambda: Note(p, dur, vel).with_duration([n, d])),
                             ('position in a track', lambda: some_track().add(Note(p, dur, vel), (n, d))),
                             ('position in a track', lambda: some_track().add((Note(p, dur, vel),), [n, d])),
                             ('track signature', lambda: Track((n, d), [(Note(*m), pos) for m, pos in at['notes']])),
                             ('chord duration', lambda: getattr(chord, name)(Note(p, dur, vel), (n, d))),
                             ('chord duration', lambda: chord.minor7(5, (n, d))),
                             ('chord duration', lambda: chord.sus2(Note(5), duration=(n, d)))):
                rule(ok, fn, (ValueError,), f'{what} {n}/{d}')
        elif k == 'velocity':
            if case.get('frac'):
                v = Fraction(*case['frac'])          # any number, not only a float
            ok = 0 <= v <= 1
            for what, fn in (('note', lambda: Note(0, velocity=v)), ('changed', lambda: Note(0).with_velocity(v)),
                             ('transposed', lambda: Note(0, (1, 4), v).transposed(3)),
                             ('chord', lambda: chord.major9(Note(7, (1, 8), 0.5), velocity=v)[-1]),
                             ('note', lambda: Note(p, dur, v)), ('note', lambda: Note(Tone(p), Signature(*dur), v)),
                             ('note', lambda: Note(Tone(p).to_notation(True), duration=dur, velocity=v)),
                             ('changed', lambda: Note(p, dur, vel).with_velocity(v)),
                             ('chord', lambda: getattr(chord, name)(Note(p, dur, vel), velocity=v)[0]),
                             ('chord', lambda: getattr(chord, name)(Tone(p), dur, v)[-1]),
                             ('chord', lambda: chord.dim('C4', (1, 2), v)[1])):
                r = rule(ok, fn, (ValueError,), f'{what} velocity {v}')
                if ok:
                    mon.ensure(r.velocity == v, f'velocity {v} became {r.velocity}')
        elif k == 'ppq':
            rule(1 <= v <= 32767, lambda: midi.MIDIWriter(pulses_per_quarter=v), (ValueError,), f'resolution {v}')
            rule(1 <= v <= 32767, lambda: midi.MIDIWriter(v, at['mc'], 120, at['channel']), (ValueError,), f'resolution {v}')
            rule(1 <= v <= 32767, lambda: midi.MIDIWriter(v, 'C4', 90.5, 15), (ValueError,), f'resolution {v}')
            rule(1 <= v <= 32767, lambda: midi.MIDIWriter(v, Tone(abs(v) % 99), 1000, abs(v) % 16), (ValueError,),
                 f'resolution {v}')
        elif k == 'channel':
            rule(0 <= v <= 15, lambda: midi.MIDIWriter(channel=v), (ValueError,), f'channel {v}')
            rule(0 <= v <= 15, lambda: midi.MIDIWriter(at['ppq'], at['mc'], 60, v), (ValueError,), f'channel {v}')
            rule(0 <= v <= 15, lambda: midi.MIDIWriter(480, 48, 60, v), (ValueError,), f'channel {v}')
            rule(0 <= v <= 15, lambda: midi.MIDIWriter(1 + abs(v), 'C4', 33.3, v), (ValueError,), f'channel {v}')
        elif k == 'module':
            rule(0 <= v <= 15, lambda: midi.dumps(Track(), channel=v), (ValueError,), f'channel {v}')
            import io
            f = io.BytesIO()
            rule(0 <= v <= 15, lambda: midi.dump(Track(), f, channel=v), (ValueError,), f'channel {v}')
            rule(0 <= v <= 15, lambda: midi.dumps(some_track(), 99.5, v), (ValueError,), f'channel {v}')
        elif k == 'random':
            t = Track(content=[(Note(0), (0, 1)), (Note(1), (1, 4))])
            which = case['which']
            args = {'minimum': 0.0, 'maximum': 1.0, 'mean': 0.5, 'variance': 0.01}
            for other, x in zip(('minimum', 'maximum', 'mean', 'variance'), case.get('rest', ())):
                args[other] = x
            args[which] = v
            ok = v >= 0 if which == 'variance' else 0 <= v <= 1
            rule(ok, lambda: randomize_velocities(t, **args), (ValueError,), f'{which} {v}')
            rule(ok, lambda: randomize_velocities(some_track(), **args), (ValueError,), f'{which} {v}')
            rule(ok, lambda: randomize_velocities(Track(), **args), (ValueError,), f'{which} {v} on an empty track')
        elif k == 'not_numbers':
            bad = [None, object(), b'C4', {}, [], (), {'C'}, 'c4', '', '1', complex(1), ValueError][v]
            t = Track(content=[(Note(0), (0, 1))])
            for what, fn in (('velocity', lambda: Note(0, (1, 4), bad)), ('new velocity', lambda: Note(0).with_velocity(bad)),
                             ('resolution', lambda: midi.MIDIWriter(bad)), ('channel', lambda: midi.MIDIWriter(channel=bad)),
                             ('minimum', lambda: randomize_velocities(t, minimum=bad)),
                             ('maximum', lambda: randomize_velocities(t, maximum=bad)),
                             ('mean', lambda: randomize_velocities(t, mean=bad)),
                             ('variance', lambda: randomize_velocities(t, variance=bad)),
                             ('nominator', lambda: Signature(bad, 4)), ('denominator', lambda: Signature(4, bad)),
                             ('duration', lambda: Note(0).with_duration(bad))):
                expect(mon, fn, (ValueError, TypeError), f'{what} {bad!r}')
            if bad is not None:
                expect(mon, lambda: t.add(Note(1), bad), (ValueError, TypeError), f'position {bad!r}')
                expect(mon, lambda: chord.major(5, (1, 4), bad), (ValueError, TypeError), f'chord velocity {bad!r}')
                expect(mon, lambda: chord.major(5, bad), (ValueError, TypeError), f'chord duration {bad!r}')
            mon.ensure(len(t) == 1, 'a refused position changed the track')
        elif k == 'tone':
            bad = junk[v]
            expect(mon, lambda: Tone(bad), (ValueError, TypeError), f'Tone({bad!r})')
            expect(mon, lambda: Tone('C4'), (ValueError, TypeError), 'Tone given a notation string')
        elif k == 'note_type':
            bad = junk[v]
            expect(mon, lambda: Note(bad), (ValueError, TypeError), f'Note({bad!r})')
            bad = junk[case['w']]
            expect(mon, lambda: Note(0, bad), (ValueError, TypeError), f'note duration {bad!r}')
        elif k == 'track':
            bad = junk[v]
            expect(mon, lambda: Track(bad), (ValueError, TypeError), f'track signature {bad!r}')
        elif k == 'middle_c':
            bad = junk[v]
            expect(mon, lambda: midi.MIDIWriter(middle_c=bad), (ValueError, TypeError), f'middle C {bad!r}')
            expect(mon, lambda: midi.MIDIReader(middle_c=bad), (ValueError, TypeError), f'middle C {bad!r}')
