"""Independent reference codec for Standard MIDI Files (format 0), written from the SMF 1.0 specification.

strict_decode refuses anything the specification does not allow in a format-0 file; interpret() is the reference meaning
of note events; encode() writes the same abstract events in any of the encodings the specification allows.
"""


class SMFError(Exception):
    def __init__(self, code, message):
        super().__init__(message)
        self.code = code


CHANNEL_DATA = {0x8: 2, 0x9: 2, 0xA: 2, 0xB: 2, 0xC: 1, 0xD: 1, 0xE: 2}
SYSTEM_DATA = {0xF1: 1, 0xF2: 2, 0xF3: 1, 0xF6: 0, 0xF8: 0, 0xFA: 0, 0xFB: 0, 0xFC: 0, 0xFE: 0}
UNDEFINED_STATUS = (0xF4, 0xF5, 0xF9, 0xFD)


def vlq(n, pad=0):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7F))
        n >>= 7
    out.extend([0x80] * min(pad, 4 - len(out)))
    return bytes(reversed(out))


def read_vlq(b, i, long_ok=False):
    v = 0
    k = 0
    while True:
        if i >= len(b):
            raise SMFError('truncated', 'variable-length quantity runs past the end')
        c = b[i]
        i += 1
        k += 1
        v = (v << 7) | (c & 0x7F)
        if not c & 0x80:
            break
    if k > 4 and not long_ok:
        raise SMFError('vlq>4', f'variable-length quantity of {k} bytes (the format allows four)')
    return v, i


def strict_decode(data, long_vlq=False):
    """(division, [(absolute time, event tuple)]) of a format-0 file; raises SMFError on any nonconformity."""
    if len(data) < 14 or data[:4] != b'MThd' or data[4:8] != b'\x00\x00\x00\x06':
        raise SMFError('header', 'no well-formed header chunk')
    fmt = int.from_bytes(data[8:10], 'big')
    ntracks = int.from_bytes(data[10:12], 'big')
    division = int.from_bytes(data[12:14], 'big')
    if fmt != 0 or ntracks != 1:
        raise SMFError('header', f'format {fmt} with {ntracks} tracks')
    if not 1 <= division <= 0x7FFF:
        raise SMFError('header', f'division {division}')
    if data[14:18] != b'MTrk':
        raise SMFError('track', 'no track chunk after the header')
    size = int.from_bytes(data[18:22], 'big')
    body = data[22:]
    if len(body) != size:
        raise SMFError('track', f'track chunk says {size} bytes, file has {len(body)}')
    events = []
    i = 0
    now = 0
    running = None
    while True:
        if i >= size:
            raise SMFError('track', 'track ends without an end-of-track event')
        delta, i = read_vlq(body, i, long_vlq)
        now += delta
        if i >= size:
            raise SMFError('track', 'event missing after a delta time')
        status = body[i]
        if status & 0x80:
            i += 1
        else:
            if running is None:
                raise SMFError('status', 'running status without a channel event')
            status = running
        if status == 0xFF:
            running = None
            if i >= size:
                raise SMFError('truncated', 'meta event cut')
            kind = body[i]
            length, i = read_vlq(body, i + 1)
            payload = body[i:i + length]
            if len(payload) != length:
                raise SMFError('truncated', 'meta event cut')
            i += length
            events.append((now, ('meta', kind, payload)))
            if kind == 0x2F:
                if length != 0:
                    raise SMFError('eot', 'end of track with a body')
                if i != size:
                    raise SMFError('eot', f'{size - i} bytes after the end of track')
                break
            if kind == 0x58 and length != 4 or kind == 0x51 and length != 3:
                raise SMFError('meta', f'meta event {kind:#x} of length {length}')
        elif status in (0xF0, 0xF7):
            running = None
            length, i = read_vlq(body, i)
            payload = body[i:i + length]
            if len(payload) != length:
                raise SMFError('truncated', 'sysex cut')
            i += length
            events.append((now, ('sysex', status, payload)))
        elif status >= 0xF0:
            raise SMFError('status', f'status {status:#x} is not allowed in a file')
        else:
            running = status
            n = CHANNEL_DATA[status >> 4]
            args = body[i:i + n]
            if len(args) != n:
                raise SMFError('truncated', 'channel event cut')
            if any(a & 0x80 for a in args):
                raise SMFError('data', f'data byte above 127 in {args.hex()}')
            i += n
            events.append((now, ('chan', status >> 4, status & 0xF) + tuple(args)))
    return division, events


def note_stream(events):
    """[(time, channel, is_on, pitch, velocity)] of decoded events; a note on with velocity 0 is a note off."""
    out = []
    for now, e in events:
        if e[0] == 'chan' and e[1] in (8, 9):
            out.append((now, e[2], e[1] == 9 and e[4] > 0, e[3], e[4]))
    return out


def interpret(stream):
    """{channel: [(onset, length, pitch, velocity)]}: a note lasts from its note on to the next note off of its key.

    A note on for a sounding key, a note off for a silent key and a note on that is never released make no note.
    Every channel that has any note event is a key of the result.
    """
    sounding = {}
    notes = {}
    for now, ch, on, pitch, vel in stream:
        notes.setdefault(ch, [])
        key = (ch, pitch)
        if on:
            if key not in sounding:
                sounding[key] = (now, vel)
        elif key in sounding:
            t, v = sounding.pop(key)
            notes[ch].append((t, now - t, pitch, v))
    return notes


def chunk(kind, body):
    return kind + len(body).to_bytes(4, 'big') + body


def header(division, fmt=0, ntracks=1, extra=b''):
    return chunk(b'MThd', fmt.to_bytes(2, 'big') + ntracks.to_bytes(2, 'big') + division.to_bytes(2, 'big') + extra)


EOT = b'\x00\xFF\x2F\x00'


def encode_body(events, eot=True):
    """events: [delta, kind, ..., flags]; see rv/foreign.py. Running status only where the specification allows it."""
    out = []
    running = None
    for ev in events:
        delta, pad, kind = ev[0], ev[1], ev[2]
        out.append(vlq(delta, pad))
        if kind == 'chan':
            status, args, use_running = ev[3], ev[4], ev[5]
            if not (use_running and running == status):
                out.append(bytes([status]))
            out.append(bytes(args))
            running = status
        elif kind == 'meta':
            payload = bytes.fromhex(ev[4])
            out.append(bytes([0xFF, ev[3]]) + vlq(len(payload), ev[5]) + payload)
            running = None
        elif kind == 'sysex':
            payload = bytes.fromhex(ev[4])
            out.append(bytes([ev[3]]) + vlq(len(payload), ev[5] if len(ev) > 5 else 0) + payload)
            running = None
        elif kind == 'sys':
            out.append(bytes([ev[3]]) + bytes(ev[4]))
            running = None
        elif kind == 'raw':
            out.append(bytes.fromhex(ev[3]))
            running = None
        else:
            raise ValueError(kind)
    if eot:
        out.append(EOT if eot is True else vlq(eot) + EOT[1:])
    return b''.join(out)


def abstract_notes(events):
    """The note stream of abstract events (the input of encode_body)."""
    now = 0
    out = []
    for ev in events:
        now += ev[0]
        if ev[2] == 'chan' and ev[3] >> 4 in (8, 9):
            pitch, vel = ev[4]
            out.append((now, ev[3] & 0xF, ev[3] >> 4 == 9 and vel > 0, pitch, vel))
    return out
