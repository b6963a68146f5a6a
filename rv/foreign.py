"""Abstract event streams of files melodia did not write: DAW-like, legal, and varied in encoding."""
from . import smf

# Meta kinds with a meaning to the reader (end of track, channel prefix, time signature) are generated separately.
META_KINDS = [k for k in range(0x100) if k not in (0x2F, 0x20, 0x58)]
# Meta events the format gives a fixed length. Most generated ones keep to it; programs must not depend on it.
FIXED = {0x00: 2, 0x21: 1, 0x51: 3, 0x54: 5, 0x59: 2}
DELTAS = (0, 0, 0, 0, 1, 2, 3, 5, 10, 24, 48, 96, 120, 127, 128, 129, 240, 255, 256, 480, 960, 16383, 16384, 16385,
          2097151, 2097152, 268435455)


def delta(g):
    p = g.r.random()
    if p < 0.55:
        return g.choice(DELTAS[:20])
    if p < 0.65:
        return g.choice(DELTAS)
    if p < 0.9:
        return g.r.randint(0, 300)
    return g.int(0, 100000)


def padding(g):
    """Leading zero groups of a quantity, as far as four bytes allow."""
    return 0 if g.chance(0.93) else g.choice((1, 1, 2, 3))


def payload(g):
    p = g.r.random()
    if p < 0.2:
        return b''
    if p < 0.9:
        n = g.r.randint(0, 12)
    elif p < 0.985:
        n = g.choice((126, 127, 128, 129, 200))
    else:
        n = g.choice((255, 256, 1000, 16383, 16384))
    if g.chance(0.25):
        # bytes that look like structure
        out = b''
        while len(out) < n:
            out += g.choice((b'\xFF\x2F\x00', b'\x00\xFF\x2F\x00', b'MTrk\0\0\0\4', b'MThd\0\0\0\6', b'\xF7', b'\x00\x90\x3C\x40',
                             b'\x00\x80\x3C\x40', b'\xFF\x58\x04\x03\x02\x18\x08', b'\x80\x80', b'a', b'\0'))
        return out
    tricky = (0xF7, 0xF0, 0xFF, 0x2F, 0x00, 0x90, 0x80, 0x3C, 0x40)
    return bytes(g.choice(tricky) if g.chance(0.5) else g.r.randrange(256) for _ in range(n))


def filler(g, notes_only=False):
    """An event the reader does not support and has to skip."""
    p = g.r.random()
    pad = padding(g)
    if p < 0.5:
        status = (g.choice((0xA, 0xB, 0xC, 0xD, 0xE)) << 4) | g.r.randrange(16)
        args = [g.r.randrange(128) for _ in range(smf.CHANNEL_DATA[status >> 4])]
        return [delta(g), pad, 'chan', status, args, g.chance(0.6)]
    if p < 0.72:
        kind = g.choice(sorted(FIXED)) if g.chance(0.25) else \
            g.choice(META_KINDS[:125]) if g.chance(0.8) else g.choice(META_KINDS)
        body = payload(g)
        if kind in FIXED and g.chance(0.7):
            body = (body + bytes(5))[:FIXED[kind]]
        return [delta(g), pad, 'meta', kind, body.hex(), padding(g)]
    if p < 0.87:
        body = payload(g)
        if g.chance(0.6):
            body += b'\xF7'
        return [delta(g), pad, 'sysex', g.choice((0xF0, 0xF0, 0xF7)), body.hex(), padding(g)]
    status = g.choice(sorted(smf.SYSTEM_DATA))
    return [delta(g), pad, 'sys', status, [g.r.randrange(128) for _ in range(smf.SYSTEM_DATA[status])]]


def stream(g, n, channels, pitches, fill=0.3):
    """n events on few keys, so that repeated ons, stray offs and overlaps across channels are common."""
    out = []
    held = []
    for _ in range(n):
        if g.chance(fill):
            out.append(filler(g))
            continue
        pad = padding(g)
        run = g.chance(0.7)
        if held and g.chance(0.45):
            ch, p = held.pop(g.r.randrange(len(held)))
            if g.chance(0.5):
                out.append([delta(g), pad, 'chan', 0x90 | ch, [p, 0], run])
            else:
                out.append([delta(g), pad, 'chan', 0x80 | ch, [p, g.choice((0, 64, 127, g.r.randrange(128)))], run])
            continue
        ch, p = g.choice(channels), g.choice(pitches)
        if g.chance(0.12):
            out.append([delta(g), pad, 'chan', 0x80 | ch, [p, g.r.randrange(128)], run])
        else:
            v = g.choice((1, 127, 64, 100, 126, 2)) if g.chance(0.4) else g.r.randint(1, 127)
            out.append([delta(g), pad, 'chan', 0x90 | ch, [p, v], run])
            held.append((ch, p))
    if g.chance(0.8):
        for ch, p in held:
            out.append([delta(g), 0, 'chan', 0x80 | ch, [p, 64], g.chance(0.7)])
    return out


def pick_channels(g):
    p = g.r.random()
    if p < 0.4:
        return [g.r.randrange(16)]
    if p < 0.9:
        return [g.r.randrange(16) for _ in range(g.r.randint(2, 4))]
    return list(range(16))


def pick_pitches(g):
    return [g.choice((0, 127, 60, 1, 126)) if g.chance(0.3) else g.r.randrange(128) for _ in range(g.r.randint(1, 4))]


def time_signature(nn, dd):
    return [0, 0, 'meta', 0x58, bytes([nn, dd, 24, 8]).hex(), 0]


def alien_chunks(g):
    out = []
    if g.chance(0.4):
        for _ in range(g.r.randint(1, 2)):
            kind = g.choice((b'XFIH', b'abcd', b'MTrK', b'mtrk', b'MThD', b'\x00\x00\x00\x00', b'RIFF', b'    '))
            body = payload(g)
            out.append([kind.hex(), body.hex()])
    return out


def assemble(case):
    """The file of a case {tpq, events, before, after, extra}."""
    parts = [smf.header(case['tpq'], extra=bytes.fromhex(case.get('extra', '')))]
    for kind, body in case.get('before', []):
        parts.append(smf.chunk(bytes.fromhex(kind), bytes.fromhex(body)))
    parts.append(smf.chunk(b'MTrk', smf.encode_body(case['events'], eot=case.get('eot', True))))
    for kind, body in case.get('after', []):
        parts.append(smf.chunk(bytes.fromhex(kind), bytes.fromhex(body)))
    return b''.join(parts)


def random_case(g, n=None):
    n = g.count(16) if n is None else n
    events = stream(g, n, pick_channels(g), pick_pitches(g), fill=g.choice((0.0, 0.1, 0.3, 0.6)))
    sig = None
    if g.chance(0.7):
        sig = [g.int(0, 255), g.r.randint(0, 6) if g.chance(0.9) else g.int(0, 255)]
        at = 0 if g.chance(0.7) else g.r.randint(0, len(events))
        events.insert(at, time_signature(*sig))
        if g.chance(0.3):
            events[at][0] = delta(g)
        if g.chance(0.1):
            # the same time signature again
            at = g.r.randint(at + 1, len(events))
            events.insert(at, [delta(g)] + time_signature(*sig)[1:])
    else:
        at = -1
    if g.chance(0.15):
        # channel prefixes that no time signature follows
        for _ in range(g.r.randint(1, 3)):
            events.insert(g.r.randint(at + 1, len(events)), [delta(g), 0, 'meta', 0x20, bytes([g.r.randrange(16)]).hex(), 0])
    case = {'tpq': g.ppq(), 'events': events, 'before': alien_chunks(g), 'after': alien_chunks(g), 'sig': sig}
    if g.chance(0.2):
        # time after the last event
        case['eot'] = max(1, delta(g))
    if g.chance(0.1):
        case['extra'] = payload(g)[:16].hex()
    return case
