"""Self-test of the oracles: hand-computed examples the reference codec, interpreter and scheduler must reproduce.

Runs before any check (setup.sh); it does not judge melodia, only the machinery.
"""
import random
import sys
from fractions import Fraction

from rv import engine

engine.import_target()

from rv import foreign, gen, registry, smf  # noqa: E402
from rv.p_music import CHORDS  # noqa: E402
from rv.sched import Scheduler  # noqa: E402


def main():
    # Variable-length quantities: the table of the SMF specification.
    for n, h in ((0, '00'), (0x40, '40'), (0x7F, '7f'), (0x80, '8100'), (0x2000, 'c000'), (0x3FFF, 'ff7f'),
                 (0x4000, '818000'), (0x100000, 'c08000'), (0x1FFFFF, 'ffff7f'), (0x200000, '81808000'),
                 (0x8000000, 'c0808000'), (0xFFFFFFF, 'ffffff7f')):
        assert smf.vlq(n).hex() == h, (n, smf.vlq(n).hex())
        assert smf.read_vlq(bytes.fromhex(h), 0) == (n, len(h) // 2)

    # The format-0 example of the SMF specification.
    body = bytes.fromhex('00ff580404021808' '00ff510307a120' '00c005' '00c12e' '00c246' '0092306000' '3c60'
                         '60914340' '60904c20' '8140 823040'.replace(' ', '') + '003c40' '00814340' '00804c40' '00ff2f00')
    div, ev = smf.strict_decode(smf.header(96) + smf.chunk(b'MTrk', body))
    assert div == 96 and len(ev) == 14, (div, len(ev))
    notes = smf.interpret(smf.note_stream(ev))
    assert notes == {2: [(0, 384, 48, 96), (0, 384, 60, 96)], 1: [(96, 288, 67, 64)], 0: [(192, 192, 76, 32)]}, notes

    # Things the strict decoder has to refuse.
    good = b'\x00\x90\x3c\x40\x10\x80\x3c\x40' + smf.EOT
    smf.strict_decode(smf.header(96) + smf.chunk(b'MTrk', good))
    for bad in (smf.header(0) + smf.chunk(b'MTrk', good), smf.header(0x8001) + smf.chunk(b'MTrk', good),
                smf.header(96, fmt=1) + smf.chunk(b'MTrk', good), smf.header(96) + smf.chunk(b'MTrk', good)[:-1],
                smf.header(96) + smf.chunk(b'MTrk', good + b'\x00'), smf.header(96) + smf.chunk(b'MTrk', good[:-4]),
                smf.header(96) + smf.chunk(b'MTrk', b'\x00\x3c\x40' + smf.EOT),
                smf.header(96) + smf.chunk(b'MTrk', b'\x00\x90\x80\x40' + smf.EOT),
                smf.header(96) + smf.chunk(b'MTrk', b'\x80\x80\x80\x80\x00\x90\x3c\x40' + smf.EOT)):
        try:
            smf.strict_decode(bad)
        except smf.SMFError:
            continue
        raise AssertionError(f'accepted {bad.hex()}')

    # Pairing of notes.
    assert smf.interpret([(0, 0, True, 60, 1), (1, 0, True, 60, 2), (2, 1, False, 60, 0), (3, 0, False, 60, 0),
                          (4, 0, False, 60, 0), (5, 0, True, 61, 9)]) == {0: [(0, 3, 60, 1)], 1: []}

    # Encoder and decoder are inverse on the abstract streams (system common messages are not
    # allowed in files, tempo events of other lengths not in written ones).
    g = gen.G(random.Random(7))
    for _ in range(300):
        case = foreign.random_case(g)
        case['events'] = [e for e in case['events'] if e[2] != 'sys' and e[2:4] != ['meta', 0x51]]
        data = smf.header(case['tpq']) + smf.chunk(b'MTrk', smf.encode_body(case['events']))
        div, ev = smf.strict_decode(data, long_vlq=True)
        assert div == case['tpq'] and smf.note_stream(ev) == smf.abstract_notes(case['events'])

    # Generated voices do not overlap on a pitch.
    from rv.p_write import overlaps
    for _ in range(300):
        ns = gen.case_model(gen.voices(g, g.count(12), list(range(128)), 64, 6))
        assert not overlaps(ns)
    assert overlaps([(Fraction(0), (5, Fraction(2), 1.0)), (Fraction(1), (5, Fraction(1), 1.0))]) == {5}

    # The scheduler is deterministic and really interleaves.
    from melodia.core import Signature

    def work():
        return [Signature(1, 4) + Signature(i, 8) for i in range(5)]

    traces = []
    for _ in range(2):
        s = Scheduler(random.Random(3), 0.3)
        s.run([work, work, work])
        assert s.switches > 2
        traces.append(s.trace)
    assert traces[0] == traces[1]

    assert len(CHORDS) > 40 and len(registry.PROPS) >= 26
    print('oracle self-test passed,', len(registry.PROPS), 'properties')


main()
sys.exit(0)
