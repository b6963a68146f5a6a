"""Hidden state and entry points: the same call gives the same result whatever happened before or happens meanwhile."""
import gzip
import io
import os
import pickle
import random
import signal
import subprocess
import sys
import tempfile
import traceback
from fractions import Fraction

from . import foreign, smf
from .engine import CASE_CPU_S, Hang, Inconclusive, Prop
from .gen import G, any_notes, build_track, fr, time_signature, track_model
from .p_music import CHORDS, call_chord, chord_args
from .p_read import mutate
from .p_values import broken_notation, random_notation
from .p_write import make_reader, make_writer, writer_config
from .sched import Scheduler


def all_keys_file(g):
    """A file in which every key sounds once."""
    keys = list(range(128))
    if g.chance(0.5):
        g.r.shuffle(keys)
    body = b''.join(bytes((g.r.randrange(3), 0x90, k, 1 + g.r.randrange(127), 1 + g.r.randrange(100), 0x80, k, 0))
                    for k in keys) + b'\x00\xff\x2f\x00'
    return (b'MThd' + (6).to_bytes(4, 'big') + b'\x00\x00\x00\x01' + g.choice((24, 96, 480, 7)).to_bytes(2, 'big') +
            b'MTrk' + len(body).to_bytes(4, 'big') + body)


NOTE = b'\x00\x90\x3c\x40\x60\x80\x3c\x40'
# files that stop in the middle of something, and files whose meaning would change if anything of that were remembered
DIRTY = [NOTE + b'\x00' + bytes([s]) + smf.EOT for s in smf.UNDEFINED_STATUS] + [
    NOTE, NOTE[:4], NOTE[:3], NOTE[:2], NOTE[:1], b'\x00\x91\x40', b'\x00\xff\x20\x01\x03', b'\x00\xff\x58\x04\x07\x03',
    b'\x00\xff\x58\x04\x07\x03\x18\x08', b'\x00\xff\x58\x04\x05\x03\x18\x08' + NOTE, b'\x00\xff\x20\x02\x03\x03' + smf.EOT,
    b'\x00\xff\x20\x01\x03\x00\xff\x58\x04\x07\x03\x18\x08' + NOTE, b'\x00\xf0\x05abc', b'\x00\xff\x01\x7fabc', b'\x83',
    b'\x00\x90\x3c\x40\x00\x3d\x40\x00\xff\x2f\x01\x00', b'\x00\xb0\x07\x40\x00\x07', b'\x00\xf3', b'\x00\x95\x3c\x40\x00\xfd']
PROBES = [NOTE[:1] + NOTE[2:] + smf.EOT, b'\x00\x3c\x40' + NOTE + smf.EOT, b'\x60\x80\x3c\x40' + smf.EOT, NOTE + smf.EOT, smf.EOT,
          b'\x00\x90\x3c\x40' + smf.EOT, b'\x60\x90\x3c\x00' + NOTE + smf.EOT, b'\x00\x91\x3c\x40\x60\x81\x3c\x40' + smf.EOT,
          b'\x00\xff\x58\x04\x03\x02\x18\x08' + smf.EOT, b'\x00\xff\x58\x04\x03\x02\x18\x08' + NOTE + smf.EOT,
          b'\x00\xff\x20\x01\x00' + NOTE + smf.EOT, b'\x00\x93\x3c\x40\x60\x83\x3c\x40' + NOTE + smf.EOT, b'\x00\x07\x40' + smf.EOT,
          b'\x00\x7f' + NOTE + smf.EOT, b'\x00\x00' + NOTE + smf.EOT, b'\x00\x95\x3c\x41\x10\x3c\x00' + smf.EOT]


def state_file(g):
    body = g.choice(DIRTY if g.chance(0.5) else PROBES)
    trk = smf.chunk(b'MTrk', body)
    head = smf.header(g.choice((96, 480)))
    form = g.r.random()
    if form < 0.1:
        return trk                                     # no header
    if form < 0.2:
        return head
    if form < 0.3:
        return head[:8] + bytes([0, g.r.randrange(3), 0, g.r.randrange(3), g.choice((0, 0x80)), g.r.randrange(256)]) + trk
    if form < 0.35:
        return head + trk[:g.r.randrange(len(trk))]
    return head + trk


def say_note(n):
    """What a note says, including how its duration is written."""
    return int(n.tone.pitch), (int(n.duration.nominator), int(n.duration.denominator)), float(n.velocity)


def say_track(t):
    return ([((p.nominator, p.denominator), say_note(n)) for p, n in t], (t.signature.nominator, t.signature.denominator),
            fr(t.length), len(t))


def double(pair):
    return [pair[0] * 2, pair[1] * 2]


def make_op(g, k=None):
    k = k or g.choice(('dumps', 'dumps', 'dumps', 'module_dumps', 'loads', 'loads', 'loads', 'bad_loads', 'chord', 'notation',
                  'sig', 'track', 'bad_dumps', 'equal', 'note', 'tone', 'life', 'life', 'level'))
    if k == 'state':
        return {'op': 'loads', 'mc': ['int', 36], 'hex': state_file(g).hex(), 'ch': g.choice((None, None, 0, 3))}
    if k in ('dumps', 'bad_dumps', 'module_dumps'):
        c = writer_config(g)
        if k == 'module_dumps':
            c.update(ppq=96, mc=['int', 36])
        lo = c['mc'][1] - 60
        notes = any_notes(g, g.r.randint(0, 8), lo, lo + 127, most=8, rare=8)
        if k == 'bad_dumps':
            notes.insert(g.r.randint(0, len(notes)), [[lo + 200, [1, 4], 0.5], [1, 1]])
        return {'op': 'dumps' if k == 'bad_dumps' else k, 'cfg': c, 'sig': time_signature(g), 'notes': notes}
    if k == 'loads' and g.chance(0.3):
        return {'op': 'loads', 'mc': [g.choice(('int', 'str', 'tone')), g.r.randint(-150, 150)],
                'hex': all_keys_file(g).hex(), 'ch': None}
    if k in ('loads', 'bad_loads'):
        data = foreign.assemble(foreign.random_case(g, g.r.randint(0, 10)))
        if k == 'bad_loads':
            data = mutate(g, data)
        return {'op': 'loads', 'mc': [g.choice(('int', 'str', 'tone')), g.choice((36, 48, 36, 0))],
                'hex': data[:1500].hex(), 'ch': g.r.randrange(16) if g.chance(0.4) else None}
    if k == 'chord':
        return {'op': k, 'name': g.choice(sorted(CHORDS)), 'args': chord_args(g)}
    if k == 'notation':
        return {'op': k, 'text': random_notation(g) if g.chance(0.7) else broken_notation(g)}
    if k == 'sig':
        if g.chance(0.3):
            near = [(1 << g.r.randint(53, 80)) + g.r.randint(-3, 3), 1 << g.r.randint(0, 60)]
            return {'op': k, 'a': near, 'b': g.choice((g.sig(10, 30), [near[0] + 1, near[1]]))}
        return {'op': k, 'a': g.sig(10, 30), 'b': g.sig(10, 30)}
    if k == 'note':
        return {'op': k, 'a': [g.pitch(), g.sig(8, 20), g.vel()], 'k': g.int(-50, 50)}
    if k == 'tone':
        return {'op': k, 'pitch': g.pitch(), 'base': g.choice((None, 440.0, 432.0, 1.0)), 'flat': g.chance(0.5), 'k': g.int(-50, 50)}
    if k == 'level':
        return {'op': k, 'sig': time_signature(g), 'notes': any_notes(g, g.r.randint(0, 8), -50, 120, most=8, rare=20),
                'range': [g.choice((0.0, 0.25, 0.5)), g.choice((0.5, 0.75, 1.0))], 'mean': g.choice((0.0, 0.3, 0.75, 1.0))}
    if k == 'life':
        c = writer_config(g)
        lo = c['mc'][1] - 60
        return {'op': k, 'cfg': c, 'sig': time_signature(g), 'notes': any_notes(g, g.r.randint(1, 6), lo, lo + 127, most=6, rare=6)}
    notes = any_notes(g, g.r.randint(0, 8), -50, 120, most=8, rare=20)
    return {'op': k, 'sig': time_signature(g), 'notes': notes, 'cut': g.r.randint(0, 8)}


def do(op, shared=None):
    """Executes one operation and returns a comparable outcome."""
    try:
        return ('ok', _do(op, shared))
    except Exception as e:
        return ('error', type(e).__name__)


def key(cfg):
    return repr(sorted(cfg.items()))


def _do(op, shared):
    from melodia.core import Note, Signature, Tone, Track
    from melodia.io import midi
    from melodia.music import chord
    k = op['op']
    if k == 'dumps':
        w = shared['w'][key(op['cfg'])] if shared else make_writer(op['cfg'])
        return w.dumps(build_track(op['sig'], op['notes']))
    if k == 'module_dumps':
        return midi.dumps(build_track(op['sig'], op['notes']), bpm=op['cfg']['bpm'], channel=op['cfg']['channel'])
    if k == 'loads':
        r = shared['r'][key({'mc': op['mc']})] if shared else make_reader(op)
        t = r.loads(bytes.fromhex(op['hex']), channel=op['ch'])
        said = say_track(t)
        t.add(Note(3), (5, 8))                         # the caller's own track: of no concern to later calls
        return said
    if k == 'chord':
        return [say_note(n) for n in call_chord(getattr(chord, op['name']), op['args'])[0]]
    if k == 'notation':
        return Tone.from_notation(op['text']).pitch
    if k == 'sig':
        a, b = Signature(*op['a']), Signature(*op['b'])
        return [repr(a + b), repr(a * b), a < b, a == b, a >= b, a > b, a <= b, repr(a.normalized()), repr(a), str(b),
                repr(a.to(max(a.denominator, b.denominator))), repr(abs(b))]
    if k == 'note':
        n = Note(op['a'][0], tuple(op['a'][1]), op['a'][2])
        return (say_note(n), say_note(n.transposed(op['k'])), say_note(Note(op['a'][0])),
                say_note(n.with_duration(tuple(op['a'][1]))), say_note(n.with_velocity(op['a'][2])),
                str(n), repr(n), str(n.tone), repr(n.tone.transposed(op['k'])))
    if k == 'track':
        t = build_track(op['sig'], op['notes'])
        t.add(Note(1))
        u = Track()
        for m, pos in op['notes']:
            u.add(Note(m[0], tuple(m[1]), m[2]), tuple(pos))
        return say_track(t), repr(t), say_track(u), str(u)
    if k == 'tone':
        t = Tone(op['pitch'])
        f = t.to_frequency() if op['base'] is None else t.to_frequency(op['base'])
        return f, t.to_notation(op['flat']), t.octave, str(t), t.transposed(op['k']).pitch, str(t.transposed(op['k']))
    if k == 'level':
        from melodia.processing.track import randomize_velocities
        return say_track(randomize_velocities(build_track(op['sig'], op['notes']), *op['range'], op['mean'], 0))
    if k == 'life':
        # A track that grows and is read in between; alone: each stage is a track of its own.
        out = []
        w = shared['w'][key(op['cfg'])] if shared else None
        t = Track(Signature(*op['sig'])) if shared else None
        for i, (m, pos) in enumerate(op['notes']):
            if shared:
                t.add(Note(m[0], tuple(m[1]), m[2]), tuple(pos))
                u = t
            else:
                u = build_track(op['sig'], op['notes'][:i + 1])
            out.append(((w or make_writer(op['cfg'])).dumps(u), [(fr(p), say_note(n)) for p, n in u], repr(u), str(u), fr(u.length),
                        u == build_track(op['sig'], op['notes'][:i])))
        return out
    if k == 'equal':
        return build_track(op['sig'], op['notes']) == build_track(op['sig'], op['notes'][:op['cut']])
    raise ValueError(k)


def in_child(fn):
    """fn() evaluated in a forked copy of this process as it is now."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)      # timers do not survive fork
            try:
                out = pickle.dumps((None, fn()))
            except Hang as e:
                out = pickle.dumps(('hang', str(e)))
            except BaseException:
                out = pickle.dumps(('harness', traceback.format_exc()))
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Inconclusive('a child process ended without an answer')
    problem, value = pickle.loads(data)
    if problem == 'hang':
        raise Hang(value)
    if problem:
        raise Inconclusive(value)
    return value


def in_fresh_interpreter(ops, hash_seed):
    """The outcomes of the operations in a new interpreter with its own hash seed, folder and time zone."""
    code = ('import pickle, sys\n'
            'path, ops = pickle.load(sys.stdin.buffer)\n'
            'sys.path[:] = path\n'
            'from rv.p_codec import do\n'
            'out = pickle.dumps([do(o) for o in ops])\n'
            'sys.stdout.buffer.write(out)\n')
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), TZ='Asia/Kathmandu', PYTHONDONTWRITEBYTECODE='1')
    with tempfile.TemporaryDirectory(prefix='rv-') as d:
        try:
            r = subprocess.run([sys.executable, '-c', code], input=pickle.dumps(([p or os.getcwd() for p in sys.path], ops)),
                               capture_output=True, cwd=d, env=env, timeout=300)
        except subprocess.TimeoutExpired:
            raise Inconclusive('a fresh interpreter took more than 300 s')
    if r.returncode:
        raise Inconclusive('a fresh interpreter failed: ' + r.stderr.decode(errors='replace')[-1500:])
    return pickle.loads(r.stdout)


class C24(Prop):
    id = 'C24'
    rule = ('pools of operations (writing, reading valid and damaged files, failing writes, chords, notation, '
            'tones, growing tracks); '
            'each outcome computed in a pristine forked process, then the pool is run in random histories with '
            'repetition on shared writers and readers (some thousands of operations long), in new interpreters with other '
            'hash seeds, and concurrently under seeded schedules; non-trivial: '
            'history in which the operation ran after others')
    budget = {'quick': 24, 'thorough': 1200}
    requires = {'operations': 10000, 'histories': 100, 'schedules': 150, 'interleavings': 100, 'failing_operations': 300,
                'pristine': 1000, 'kinds_of_successful_operation': 12, 'long_histories': 4,
                'operations_in_a_fresh_interpreter': 100}
    shrinkable = False
    coverage = False

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for number in range(n):
            ops = [make_op(g) for _ in range(16)]
            ops += [make_op(g, 'state') for _ in range(8)]
            kin = []
            # close relatives of some operations: same data, one argument changed
            for o in list(ops):
                o2 = dict(o)
                before = len(ops)
                if o['op'] in ('dumps', 'life') and o['notes'] and g.chance(0.7):
                    m, pos = o['notes'][0]
                    lo = o['cfg']['mc'][1] - 60
                    ops.append(dict(o2, notes=[[[lo + g.r.randrange(128), m[1], m[2]], pos]] + o['notes'][1:]))
                    ops.append(dict(o2, notes=[[[m[0], m[1], g.vel()], pos]] + o['notes'][1:]))
                if o['op'] == 'tone':
                    ops.append(dict(o2, base=g.choice((None, 432.0, 1.0)), flat=not o['flat']))
                    ops.append(dict(o2, pitch=o['pitch'] + g.choice((-12, 12, 1)), k=o['k'] + 1))
                elif o['op'] == 'level':
                    ops.append(dict(o2, mean=g.r.random()))
                    ops.append(dict(o2, range=[0.1, 0.9]))
                if o['op'] == 'dumps' and g.chance(0.7):
                    o2['cfg'] = dict(o['cfg'], **g.choice(({'bpm': g.bpm()}, {'channel': g.r.randrange(16)},
                                                           {'ppq': g.ppq()})))
                    ops.append(o2)
                elif o['op'] == 'loads' and g.chance(0.7):
                    ops.append(dict(o2, ch=None if o['ch'] is not None else g.r.randrange(16)))
                    ops.append(dict(o2, mc=['int', 24]))
                    delta = g.choice((1, 12, 16, 32, 64, 127, 128))
                    ops.append(dict(o2, mc=[g.choice(('int', 'str', 'tone')), o['mc'][1] + g.choice((-delta, delta))]))
                elif o['op'] == 'chord' and g.chance(0.5):
                    ops.append(dict(o2, name=g.choice(sorted(CHORDS))))
                elif o['op'] == 'notation':
                    t = o['text']
                    ops.append(dict(o2, text=g.choice((t + '1', t[:-1], t[:1] + '#' + t[1:], t[:1] + 'b' + t[1:], t[:1] + '-' + t[1:],
                                                       t.replace('#', 'b'), '1' + t, t[:1] + t[2:], t[:1] + '1' + t[1:]))))
                elif o['op'] == 'sig':
                    ops.append(dict(o2, a=double(o['a'])))
                    ops.append(dict(o2, a=o['b'], b=double(o['a'])))
                    if o['a'][0] > 1 << 52:
                        ops.append(dict(o2, a=[o['a'][0] + g.choice((-2, -1, 1, 2)), o['a'][1]]))
                elif o['op'] == 'note':
                    ops.append(dict(o2, a=[o['a'][0], double(o['a'][1]), o['a'][2]]))
                    ops.append(dict(o2, a=[o['a'][0] + 12, o['a'][1], o['a'][2]], k=o['k'] + 1))
                    ops.append(dict(o2, a=[o['a'][0] + 1, o['a'][1], o['a'][2]]))
                elif o['op'] in ('track', 'equal') and g.chance(0.5):
                    ops.append(dict(o2, notes=[[[m[0], double(m[1]), m[2]], double(p)] for m, p in o['notes']]))
                if len(ops) > before:
                    kin.append([ops.index(o)] + list(range(before, len(ops))))
            hist = [g.r.randrange(len(ops)) for _ in range(90)]
            for _ in range(30):                        # relatives right after one another
                at = g.r.randrange(len(hist))
                family = g.choice(kin) if kin else [0]
                hist[at:at] = g.r.sample(family, len(family))[:3]
            scheds = [[[g.r.randrange(len(ops)) for _ in range(3)] for _ in range(g.r.randint(2, 4))] for _ in range(3)]
            case = {'ops': ops, 'hist': hist, 'scheds': scheds, 'seed': g.r.randrange(1 << 30)}
            if not number or g.chance(0.002):
                # a long life: whatever is counted, cached or evicted along the way
                case['hist'] = [g.r.randrange(len(ops)) for _ in range(1500)]
                for i in g.r.sample(range(len(ops)), 6):
                    case['hist'] += [i] * 400
                case['hist'] += [g.r.randrange(len(ops)) for _ in range(1000)]
                case['fresh'] = g.r.randrange(1, 1 << 16)
            yield case

    def run(self, case, mon):
        ops = case['ops']
        # The reference: every operation alone, in its own copy of a process that has not run any operation yet.
        pristine = in_child(lambda: [in_child(lambda o=o: do(o)) for o in ops])
        mon.count('pristine', len(ops))
        for o, p in zip(ops, pristine):
            if p[0] == 'ok':
                mon.seen('kinds_of_successful_operation', o['op'])
        mon.count('failing_operations', sum(p[0] == 'error' for p in pristine))

        if case.get('fresh'):
            for o, p, got in zip(ops, pristine, in_fresh_interpreter(ops, case['fresh'])):
                mon.count('operations_in_a_fresh_interpreter')
                mon.ensure(got == p, f'in another process {str(o)[:400]} gave {str(got)[:300]}, here it gives {str(p)[:300]}')
            mon.count('long_histories')

        def scenario():
            out = []
            shared = {'w': {}, 'r': {}}
            for o in ops:
                if o['op'] in ('dumps', 'life'):
                    shared['w'].setdefault(key(o['cfg']), make_writer(o['cfg']))
                elif o['op'] == 'loads':
                    shared['r'].setdefault(key({'mc': o['mc']}), make_reader(o))
            for j, i in enumerate(case['hist']):
                got = do(ops[i], shared if j % 3 else None)
                if got != pristine[i]:
                    out.append(f'after {j} other operations, {str(ops[i])[:400]} gave {str(got)[:300]}, alone it gives '
                               f'{str(pristine[i])[:300]}')
                    break
            traces = []
            for plan in case['scheds']:
                fine = len(traces) == 2 and case['seed'] % 2
                s = Scheduler(random.Random(case['seed']), 0.01 if fine else 0.05, opcodes=bool(fine))
                bad = []

                def script(idx):
                    def fn():
                        for i in idx:
                            got = do(ops[i], shared)
                            if got != pristine[i]:
                                bad.append(f'concurrently, {str(ops[i])[:400]} gave {str(got)[:300]}, alone it gives '
                                           f'{str(pristine[i])[:300]}')
                    return fn

                res = s.run([script(p) for p in plan])
                out.extend(bad)
                out.extend(repr(e) for _, e in res if e is not None)
                traces.append((s.trace, s.switches, s.steps))
            return out, traces

        out, traces = in_child(scenario)
        mon.count('histories')
        mon.count('operations', len(case['hist']) + sum(len(p) for pl in case['scheds'] for p in pl))
        for tr, sw, st in traces:
            mon.count('schedules')
            mon.count('switches', sw)
            mon.count('steps', st)
            mon.seen('interleavings', tr)
        for j, i in enumerate(case['hist']):
            if j:
                mon.nontrivial((repr(ops[i]), tuple(case['hist'][max(0, j - 3):j])))
        mon.ensure(not out, out[0] if out else '')


def through_pipe(write):
    """What write(stream) sends into a pipe: a destination that cannot seek."""
    r, w = os.pipe()
    with os.fdopen(w, 'wb') as f:
        write(f)
    with os.fdopen(r, 'rb') as f:
        return f.read()


class C25(Prop):
    id = 'C25'
    rule = ('the same track or file through every entry point (module functions, writer/reader objects, byte arrays, '
            'memory streams, real files, streams not at their beginning, default and explicit arguments); non-trivial: '
            'at least one note')
    budget = {'quick': 2100, 'thorough': 20000}
    requires = {'writes_compared': 5000, 'reads_compared': 5000, 'files_on_disk': 300}

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for _ in range(n):
            if g.chance(0.5):
                notes = any_notes(g, min(g.count(8), 60), -24, 103, most=9, rare=9)
                yield {'kind': 'w', 'sig': time_signature(g), 'notes': notes, 'shift': g.choice((-36, -36, -35, -37, 12, g.r.randint(-150, 150))), 'bpm': g.bpm(), 'channel': g.r.randrange(16),
                       'skip': g.r.randint(0, 9), 'disk': g.chance(0.3)}
            else:
                data = foreign.assemble(foreign.random_case(g))
                if g.chance(0.2):
                    data = mutate(g, data)
                elif g.chance(0.2):
                    data = state_file(g)
                elif g.chance(0.1):
                    data = smf.chunk(g.choice((b'XXXX', b'RIFF', bytes(4))), bytes(g.r.randrange(9))) + data
                yield {'kind': 'r', 'hex': data.hex(), 'mc': g.choice((0, 0, 1, -1, 12, 24, 48, 60, 72, g.r.randint(-150, 150))), 'skip': g.r.randint(0, 9), 'disk': g.chance(0.3),
                       'ch': g.r.randrange(16) if g.chance(0.3) else None}

    def run(self, case, mon):
        from melodia.core import Tone
        from melodia.io import midi
        with tempfile.TemporaryDirectory(prefix='rv-io-', dir='.') as d:
            path = os.path.join(d, 'x.mid')
            if case['kind'] == 'w':
                t = build_track(case['sig'], case['notes'])
                bpm, ch = case['bpm'], case['channel']
                ref = midi.dumps(t, bpm=bpm, channel=ch)
                if case['notes']:
                    mon.nontrivial(repr((case['notes'], bpm, ch)))

                def stream(fn, skip=0):
                    f = io.BytesIO()
                    f.write(b'\xAA' * skip)
                    r = fn(f)
                    mon.ensure(r is None and not f.closed, 'writing to a stream returned something or closed it')
                    v = f.getvalue()
                    mon.ensure(v[:skip] == b'\xAA' * skip, 'writing changed what was before')
                    return v[skip:]

                forms = [('module dump', stream(lambda f: midi.dump(t, f, bpm=bpm, channel=ch))),
                         ('positional dump', stream(lambda f: midi.dump(t, f, bpm, ch))),
                         ('positional dumps', midi.dumps(t, bpm, ch)),
                         ('dump after other data', stream(lambda f: midi.dump(t, f, bpm, ch), case['skip'])),
                         ('writer dumps', midi.MIDIWriter(bpm=bpm, channel=ch).dumps(t)),
                         ('writer dump', stream(lambda f: midi.MIDIWriter(bpm=bpm, channel=ch).dump(t, f))),
                         ('explicit defaults', midi.MIDIWriter(96, 'C3', bpm, ch).dumps(t)),
                         ('middle C as integer', midi.MIDIWriter(96, 36, bpm, ch).dumps(t)),
                         ('middle C as tone', midi.MIDIWriter(96, Tone(36), bpm, ch).dumps(t))]
                # whatever else was written in between, with other settings
                midi.MIDIWriter(pulses_per_quarter=480, middle_c=30 + case['skip'], bpm=77.0, channel=9).dumps(build_track([3, 4], [[[30, [1, 4], 0.5], [1, 2]]]))
                for other in ((480, 36), (1, 40)):
                    try:
                        midi.MIDIWriter(*other).dumps(t)
                    except (ValueError, OverflowError):
                        pass

                def over(fn):
                    f = io.BytesIO(b'\xAA' * (case['skip'] + 2 * len(ref)))
                    f.seek(case['skip'])
                    fn(f)
                    return f.getvalue()[case['skip']:][:len(ref)]

                forms.append(('dump in the middle of a stream', over(lambda f: midi.dump(t, f, bpm, ch))))
                forms.append(('writer dump in the middle of a stream', over(lambda f: midi.MIDIWriter(bpm=bpm, channel=ch).dump(t, f))))
                if bpm * 1024 == int(bpm * 1024):
                    forms.append(('tempo as a fraction', midi.dumps(t, Fraction(bpm), ch)))
                    forms.append(('tempo as a fraction', midi.MIDIWriter(bpm=Fraction(bpm), channel=ch).dumps(t)))
                if bpm == int(bpm):
                    forms.append(('tempo as an integer', midi.dumps(t, int(bpm), ch)))
                    forms.append(('tempo as a float', midi.dumps(t, float(bpm), ch)))
                if case['disk']:
                    if len(ref) < 30000:
                        forms.append(('pipe', through_pipe(lambda f: midi.dump(t, f, bpm=bpm, channel=ch))))
                    with gzip.open(path, 'wb') as f:
                        midi.dump(t, f, bpm, ch)
                    with gzip.open(path, 'rb') as f:
                        forms.append(('compressed file', f.read()))
                    with open(path, 'wb', buffering=0) as f:
                        midi.MIDIWriter(bpm=bpm, channel=ch).dump(t, f)
                    with open(path, 'rb') as f:
                        forms.append(('unbuffered file', f.read()))
                    with open(path, 'wb') as f:
                        midi.dump(t, f, bpm=bpm, channel=ch)
                    with open(path, 'rb') as f:
                        forms.append(('real file', f.read()))
                    mon.count('files_on_disk')
                for name, got in forms:
                    mon.ensure(got == ref, f'{name} writes something else than dumps', got=got[:100].hex(),
                               expected=ref[:100].hex())
                    mon.count('writes_compared')
                mon.ensure(midi.dumps(t) == midi.dumps(t, 120.0, 0) == midi.MIDIWriter().dumps(t),
                           'the defaults are not 120 bpm on channel 0')
                # the same tones relative to another middle C give the same file
                m = 36 + case['shift']
                u = build_track(case['sig'], [[[n[0] + case['shift'], *n[1:]], p] for n, p in case['notes']])
                for form in (m, Tone(m), Tone(m).to_notation(), Tone(m).to_notation(True)):
                    mon.ensure(midi.MIDIWriter(middle_c=form, bpm=bpm, channel=ch).dumps(u) == ref,
                               f'middle C {form!r} does not mean the tone {m}')
                    mon.count('writes_compared')
                division, events = smf.strict_decode(ref, long_vlq=True)
                mon.ensure(division == 96, f'the default resolution is {division}')
                keys = sorted(e[3] for _, e in events if e[0] == 'chan' and e[1] == 9)
                mon.ensure(keys == sorted(n[0][0] + 24 for n in case['notes']), f'with the default middle C keys are {keys}')
                return
            data = bytes.fromhex(case['hex'])
            ch = case['ch']

            def read(fn):
                try:
                    t = fn()
                except ValueError:
                    return 'no channel'
                except midi.MIDIParsingError:
                    return 'refused'
                return track_model(t), (t.signature.nominator, t.signature.denominator), fr(t.length)

            ref = read(lambda: midi.loads(data, channel=ch))
            f0 = io.BytesIO(b'\xAA' * case['skip'] + data)
            f0.seek(case['skip'])
            forms = [('load', lambda: midi.load(io.BytesIO(data), channel=ch)),
                     ('positional load', lambda: midi.load(io.BytesIO(data), ch)),
                     ('load from the middle of a stream', lambda: midi.load(f0, ch)),
                     ('positional loads', lambda: midi.loads(data, ch)),
                     ('reader loads', lambda: midi.MIDIReader().loads(data, channel=ch)),
                     ('reader load', lambda: midi.MIDIReader().load(io.BytesIO(data), channel=ch)),
                     ('explicit default', lambda: midi.MIDIReader('C3').loads(data, ch)),
                     ('middle C as integer', lambda: midi.MIDIReader(middle_c=36).loads(data, ch)),
                     ('middle C as tone', lambda: midi.MIDIReader(middle_c=Tone(36)).loads(data, ch)),
                     ('again', lambda: midi.loads(data, channel=ch))]
            if ch is None:
                forms.append(('no channel argument', lambda: midi.loads(data)))
            if case['disk']:
                with open(path, 'wb') as f:
                    f.write(data)

                def from_disk(buffering=-1):
                    with open(path, 'rb', buffering=buffering) as f:
                        return midi.load(f, channel=ch)

                def from_pipe():
                    r, w = os.pipe()
                    with os.fdopen(r, 'rb') as f:
                        os.write(w, data)
                        os.close(w)
                        return midi.load(f, channel=ch)

                def from_gzip():
                    with gzip.open(io.BytesIO(gzip.compress(data)), 'rb') as f:
                        return midi.load(f, channel=ch)

                if len(data) < 60000:
                    forms.append(('pipe', from_pipe))
                forms.append(('compressed file', from_gzip))
                forms.append(('buffered reader', lambda: midi.load(io.BufferedReader(io.BytesIO(data), 16), ch)))
                forms.append(('mutable bytes', lambda: midi.loads(bytearray(data), ch)))
                forms.append(('real file', from_disk))
                forms.append(('unbuffered file', lambda: from_disk(0)))
                mon.count('files_on_disk')
            for name, fn in forms:
                got = read(fn)
                mon.ensure(got == ref, f'{name} reads something else than loads', got=str(got)[:600],
                           expected=str(ref)[:600])
                mon.count('reads_compared')
            mon.ensure(not f0.closed, 'reading closed the stream')
            m = case['mc']
            base = read(lambda: midi.MIDIReader(Tone(m)).loads(data, ch))
            if isinstance(ref, tuple):
                mon.ensure(isinstance(base, tuple) and sorted((p, (n[0] - (m - 36), n[1], n[2])) for p, n in base[0]) == sorted(ref[0]),
                           f'with middle C {m} the tones are not moved by {m - 36}')
            for name, form in (('integer', m), ('notation', Tone(m).to_notation()), ('flats', Tone(m).to_notation(True))):
                mon.ensure(read(lambda: midi.MIDIReader(middle_c=form).loads(data, ch)) == base,
                           f'middle C {form!r} as {name} reads something else than the tone {m}')
                mon.count('reads_compared')
            if isinstance(ref, tuple) and ref[0]:
                mon.nontrivial(case['hex'])
                up = read(lambda: midi.MIDIReader(middle_c='C4').loads(data, channel=ch))
                mon.ensure(sorted((p, (n[0] - 12, n[1], n[2])) for p, n in up[0]) == sorted(ref[0]),
                           'moving middle C up an octave does not move every tone up an octave')
