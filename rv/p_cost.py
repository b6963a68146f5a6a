"""Growth of the work done by the library with the amount of music."""
import gc
import io
import sys
import time

from . import smf
from .engine import Hang, Prop
from .gen import G, note_of
from .p_read import Steps, steps

FACTOR = 8
SIZES = (4000, 16000, 64000, 128000)


class C30(Prop):
    id = 'C30'
    rule = ('tracks and files of n and 8n notes of the same kind (scattered, ascending, descending, all at one place, appended, chords; few or many '
            'resolutions, keys and ties), the lines executed inside melodia counted for building, iterating, comparing, printing, '
            'randomizing, writing and reading; linear work grows 8 times, n log n about 11, quadratic 64, the limit is 32; '
            'non-trivial: every measured pair')
    budget = {'quick': 26, 'thorough': 400}
    requires = {'measurements': 1500, 'operations': 9, 'kinds': 8, 'steps': 10000000, 'timed': 150, 'timed_kinds': 8}
    shrinkable = False
    coverage = False
    case_cpu_s = 300
    KINDS = ('scattered', 'ascending', 'descending', 'one_place', 'appended', 'chords', 'grouped', 'constructor')

    def cases(self, rng, n, shard, tier):
        g = G(rng)
        for i in range(n):
            huge = i % 26 == 7
            yield {'kind': self.KINDS[(i + i // 26 + shard if huge else i) % len(self.KINDS)], 'huge': huge, 'n': g.choice((150, 200, 260)), 'seed': g.r.randrange(1 << 30),
                   'dens': g.choice(([16], [1], [4, 8, 16, 64], [1, 2, 1024, 1 << 20])), 'keys': g.choice((1, 12, 80)),
                   'spread': g.choice((1, 4, 1000)), 'warm': g.chance(0.3), 'channels': g.choice(([0], [3, 9], list(range(16)))),
                   'filler': g.choice((0, 1, 3)), 'sig': g.choice(([4, 4], [1, 8], [3, 4], [1, 64], [200, 8])),
                   'file': g.choice(('paired', 'unreleased', 'stray', 'restruck', 'late', 'mixed'))}

    def plan(self, case, n):
        import random
        r = random.Random(case['seed'])
        out = []
        for i in range(n):
            den = r.choice(case['dens'])
            pos = {'ascending': i, 'descending': n - i, 'one_place': 3}.get(case['kind'], r.randrange(n * case['spread']))
            m = [r.randrange(case['keys']) + 20, [r.choice((1, 2, 3)), r.choice((4, 8))], r.choice((0.5, 0.75))]
            out.append([m, [pos * den // 16, den]])
        return out

    def build(self, case, plan):
        from melodia.core import Note, Signature, Track
        t = Track(tuple(case['sig']))
        objs = [(note_of(m), Signature(*p)) for m, p in plan]
        kind = case['kind']

        def go():
            if kind == 'constructor':
                return Track(tuple(case['sig']), objs)
            if kind == 'appended':
                for n, _ in objs:
                    t.add(n)
            elif kind == 'chords':
                for k in range(0, len(objs), 4):
                    t.add([n for n, _ in objs[k:k + 4]])
            elif kind == 'grouped':
                for k in range(0, len(objs), 50):
                    t.add((n for n, _ in objs[k:k + 50]), objs[k][1])
            else:
                for n, p in objs:
                    t.add(n, p)
            return t
        return go

    def measure(self, case, n, limits, mon, call=None):
        """Steps of every operation on n notes."""
        from melodia.io import midi
        from melodia.processing.track import randomize_velocities
        got = {}

        def run(name, fn):
            if call:
                got[name], v = call(name, fn)
                return v
            try:
                v = steps().call(limits.get(name, 1 << 40), fn)
            except Hang:
                if name not in limits:
                    raise
                got[name] = None
                return None
            got[name] = steps().n
            return v
        plan = self.plan(case, n)
        t = run('build', self.build(case, plan))
        if t is None:
            return got
        if case['warm']:
            list(t)
        u = self.build(case, plan)()
        run('iterate', lambda: [0 for _ in t])
        run('compare', lambda: t == u)
        run('length and size', lambda: (t.length, len(t), str(t)))
        run('print', lambda: repr(t))
        run('randomize', lambda: randomize_velocities(t))
        f = io.BytesIO()
        run('write', lambda: midi.dump(t, f))
        events = [[0, 0, 'meta', 0x58, bytes([case['sig'][0], case['sig'][1].bit_length() - 1, 24, 8]).hex(), 0]]
        late = []
        for m, p in plan:
            ch, key = case['channels'][(m[0] + p[0]) % len(case['channels'])], m[0]
            on, off = [p[0] % 200, 0, 'chan', 0x90 | ch, [key, 64], True], [96, 0, 'chan', 0x80 | ch, [key, 64], True]
            how = case['file'] if case['file'] != 'mixed' else ('paired', 'unreleased', 'stray', 'restruck', 'late')[p[0] % 5]
            if how != 'stray':
                events.append(on)
            if how == 'restruck':
                events.append(on)
            events += [[1, 0, 'chan', 0xB0 | ch, [7, 1], True]] * case['filler']
            if how == 'late':
                late.append(off)
            elif how != 'unreleased':
                events.append(off)
        events += late
        mon.seen('files', (case['file'], len(case['channels'])))
        data = smf.header(96) + smf.chunk(b'MTrk', smf.encode_body(events))
        run('read', lambda: midi.loads(data))
        run('read one channel', lambda: midi.loads(data, channel=events[1][3] & 15))
        return got

    def huge(self, case, mon):
        """Work inside the interpreter, such as copying, does not show as lines but as time; with much music it is most of the time."""
        first = {}

        def timed(name, fn):
            best = None
            for _ in range(3 if name != 'build' else 1):
                gc.collect()
                gc.disable()
                t = time.process_time()
                try:
                    v = fn()
                finally:
                    took = time.process_time() - t
                    gc.enable()
                best = took if best is None else min(best, took)
                limit = first[name] * 6 * size / SIZES[0] if first.get(name) else 1e9
                if best <= limit:
                    break
            return best, v

        def once(n):
            got = self.measure(case, n, {}, mon, timed)
            return got
        for size in SIZES:
            for attempt in range(3):
                got = once(size)
                if size == SIZES[0]:
                    again = once(size)
                    first.update({k: max(v, again[k], 0.002) for k, v in got.items()})
                    break
                slow = {k: v for k, v in got.items() if v > first[k] * 6 * size / SIZES[0]}
                if not slow:
                    break
            else:
                mon.ensure(False, f'{sorted(slow)} takes over 6 times longer per note for {size} notes than for {SIZES[0]} ({case["kind"]})',
                           got=slow, expected=first)
            mon.count('timed', len(got))
        mon.seen('timed_kinds', case['kind'])
        worst = max(got[k] / first[k] * SIZES[0] / size for k in got)
        mon.count('time per note grows up to 2' if worst < 2 else 'time per note grows 2 to 3' if worst < 3 else 'time per note grows over 3')
        mon.nontrivial(repr(('huge', case['seed'])))

    def run(self, case, mon):
        if case.get('huge'):
            m = sys.monitoring
            events = m.get_events(Steps.TOOL) if m.get_tool(Steps.TOOL) else 0
            if events:
                m.set_events(Steps.TOOL, 0)
            try:
                self.huge(case, mon)
            finally:
                if events:
                    m.set_events(Steps.TOOL, events)
            return
        n = case['n']
        small = self.measure(case, n, {}, mon)
        large = self.measure(case, n * FACTOR, {k: 4 * FACTOR * v + 10000 for k, v in small.items()}, mon)
        for name, b in large.items():
            a = small[name]
            mon.ensure(b is not None, f'{name} took more than {4 * FACTOR} times the work for {FACTOR} times the notes ({case["kind"]})',
                       got=b, expected=a)
            mon.count('measurements')
            mon.count('steps', a + b)
            mon.seen('operations', name)
            mon.nontrivial(repr((name, case['seed'])))
        mon.seen('kinds', case['kind'])
        worst = max(large[k] / (small[k] + 100) for k in large)
        mon.count('growth up to 12' if worst <= 12 else 'growth 12 to 20' if worst <= 20 else 'growth over 20')
