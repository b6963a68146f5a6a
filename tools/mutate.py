"""Measures the checks: systematic one-node mutants of melodia, each run through the test suite and then the checks.

python3 tools/mutate.py OUT.jsonl [--jobs N] [--only FILE] [--every K] [--offset J]

Never touches /repo: every worker clones it (and /verif) into a scratch directory of its own, and removes it.
A mutant is 'tests' (killed by the test suite), 'caught' (with the check that caught it) or 'SURVIVED'.
"""
import argparse
import ast
import copy
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import tempfile

FILES = {
    'src/melodia/io/midi.py': 'C02 C07 C06 C08 C01 C09 C03 C05 C25 C26 C04',
    'src/melodia/core/signature.py': 'C10 C11 C26 C19 C14 C15 C03',
    'src/melodia/core/tone.py': 'C12 C13 C19 C26',
    'src/melodia/core/note.py': 'C14 C26 C13 C19 C20 C12 C17',
    'src/melodia/core/track.py': 'C15 C16 C18 C17 C19 C26',
    'src/melodia/processing/track.py': 'C22 C23 C26',
    'src/melodia/music/chord.py': 'C20 C21 C14',
    'scripts/generate_chords.py': 'C21',
}
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot, ast.Eq],
       ast.IsNot: [ast.Is, ast.NotEq]}
BIN = {ast.Add: [ast.Sub, ast.BitOr], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv, ast.Add], ast.Div: [ast.Mult, ast.FloorDiv],
       ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.Add], ast.Pow: [ast.Mult]}


def mutants(source):
    """Yields (description, new source) for every mutant of the module."""
    tree = ast.parse(source)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    skip = set(docs)
    for n in ast.walk(tree):        # annotations, error messages and assertions carry no behaviour of interest
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
            for a in n.exc.args:
                skip.update(id(x) for x in ast.walk(a))
        if isinstance(n, (ast.Assert, ast.JoinedStr)):
            skip.update(id(x) for x in ast.walk(n))
    nodes = [n for n in ast.walk(tree) if id(n) not in skip]

    def emit(n, what):
        return (f'line {getattr(n, "lineno", "?")}: {what}', ast.unparse(ast.fix_missing_locations(tree)))

    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    n.ops[i] = new()
                    yield emit(n, f'{ast.unparse(n)} (was {type(op).__name__})')
                    n.ops[i] = op
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            op = n.op
            for new in BIN.get(type(op), []):
                n.op = new()
                yield emit(n, f'{ast.unparse(n)} (was {type(op).__name__})')
                n.op = op
        elif isinstance(n, ast.BoolOp):
            op = n.op
            n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            yield emit(n, ast.unparse(n))
            n.op = op
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            op = n.op
            n.op = ast.UAdd() if isinstance(op, ast.USub) else ast.Not()
            old = n.operand
            if isinstance(op, ast.Not):
                n.operand = ast.UnaryOp(ast.Not(), old)
            yield emit(n, ast.unparse(n))
            n.op, n.operand = op, old
        elif isinstance(n, ast.Constant):
            v = n.value
            news = []
            if isinstance(v, bool):
                news = [not v]
            elif isinstance(v, int):
                news = [v + 1, v - 1]
            elif isinstance(v, float):
                news = [v + 0.001, v * 0.999]
            elif isinstance(v, bytes) and v:
                news = [bytes([v[0] ^ 1]) + v[1:], v[:-1] + bytes([v[-1] ^ 1]), v[:-1]]
            elif isinstance(v, str) and v:
                news = [v + 'x', v[:-1]]
            elif v is None:
                news = [0]
            for new in news:
                n.value = new
                try:
                    yield emit(n, f'{v!r} -> {new!r}')
                except Exception:
                    pass
                n.value = v
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            test = n.test
            for new in (True, False):
                if isinstance(n, ast.While) and new:
                    continue
                n.test = ast.Constant(new)
                yield emit(n, f'condition {ast.unparse(test)} -> {new}')
                n.test = test
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                del n.keywords[i]
                yield emit(n, f'keyword {k.arg} dropped')
                n.keywords.insert(i, k)
            if len(n.args) == 2:
                n.args.reverse()
                yield emit(n, f'arguments swapped: {ast.unparse(n)}')
                n.args.reverse()
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in (
                    'int', 'float', 'abs', 'max', 'min', 'sorted', 'tuple', 'list', 'iter', 'str'):
                f, a = n.func, n.args
                n.func, n.args = ast.Name('(lambda x: x)'), a
                yield emit(n, f'call of {f.id} dropped')
                n.func = f
        for field in ('body', 'orelse'):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            for i, st in enumerate(body):
                if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or id(st) in docs:
                    continue
                if isinstance(n, (ast.Module, ast.ClassDef)) and not isinstance(st, (ast.Assign, ast.For)):
                    continue
                body[i] = ast.Pass()
                yield emit(st, f'deleted: {ast.unparse(st)[:80]}')
                body[i] = st
                if isinstance(st, ast.Continue):
                    body[i] = ast.Break()
                    yield emit(st, 'continue -> break')
                    body[i] = st
                if isinstance(st, ast.Break):
                    body[i] = ast.Continue()
                    yield emit(st, 'break -> continue')
                    body[i] = st
                if i + 1 < len(body) and not isinstance(n, (ast.Module, ast.ClassDef)) and isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr)):
                    body[i], body[i + 1] = body[i + 1], body[i]
                    yield emit(st, f'swapped with next: {ast.unparse(st)[:80]}')
                    body[i], body[i + 1] = body[i + 1], body[i]


RARE = {
    'int': ('{v} > 1000', '{v} > (1 << 20)', '{v} == 0', '{v} == 1', '{v} % 16 == 9', '{v} == 127', '{v} > (1 << 40)', '{v} % 101 == 7',
            '{v} < 0', '{v} % 256 == 255', '60 <= {v} <= 62', '{v} == 15', '{v} > 16383', '{v} & ({v} - 1) == 0', '{v} < -60'),
    'float': ('{v} == 0.0', '{v} == 1.0', '{v} > 1000', '0 < {v} < 0.01', '{v} == int({v})', '{v} < 0.0001', '0.99 < {v} < 1'),
    'Signature': ('{v}.denominator > 256', '{v}.nominator == 0', '{v}.denominator > (1 << 20)', '{v}.nominator > (1 << 40)',
                  '{v}.nominator % 2 == 0 and {v}.denominator > 1', '{v}.denominator == 1', '{v}.nominator > 100 * {v}.denominator',
                  '{v}.nominator == {v}.denominator'),
    'Tone': ('{v}.pitch < 0', '{v}.pitch % 12 == 11', '{v}.pitch > 127', '{v}.pitch == 0', '{v}.pitch < -12'),
    'Note': ('{v}.velocity == 1.0', '{v}.velocity == 0', '{v}.duration.nominator == 0', '{v}.tone.pitch < 0',
             '{v}.duration.denominator > 512', '0 < {v}.velocity < 0.01', '{v}.duration.nominator > 1000', '{v}.tone.pitch == 0'),
    'Track': ('len({v}) > 50', 'len({v}) > 300', 'len({v}) == 1', 'len({v}) == 0', '{v}.length.denominator > 1024',
              'len({v}) % 16 == 15', '{v}.signature.denominator > 64', '{v}.signature.nominator == 0', '{v}.length.nominator == 0'),
    'str': ('len({v}) > 6', 'len({v}) == 1', "'-' in {v}", "'#b' in {v}", "{v}[-1:] == '0'", 'len({v}) > 40'),
    'bytes': ('len({v}) > 300', 'len({v}) == 0', 'len({v}) % 256 == 255', 'len({v}) > 70000', 'len({v}) == 127', 'len({v}) == 128'),
    'list': ('len({v}) > 300', 'len({v}) == 0', 'len({v}) % 256 == 255', 'len({v}) == 1', 'len({v}) > 5000', 'len({v}) % 16 == 15'),
    'dict': ('len({v}) > 3', 'len({v}) == 16', 'len({v}) == 0', '0 in {v}', '15 in {v}'),
    'tuple': ('len({v}) > 3', '{v}[0] == 0'),
    'NoneType': ('{v} is None',),
    '_Reader': ('{v}._idx > 1000', '{v}._idx % 256 == 255', 'len({v}) - {v}._idx < 8', '{v}._idx > 70000', '{v}._idx < 12'),
    '_EventNoteON': ('{v}.pitch == 127', '{v}.pitch == 0', '{v}.channel == 9', '{v}.velocity == 1', '{v}.velocity == 127'),
    '_EventNoteOFF': ('{v}.pitch == 127', '{v}.pitch == 0', '{v}.channel == 9', '{v}.velocity == 0', '{v}.velocity == 127'),
    '_EventTimeSignature': ('{v}.nn == 0', '{v}.dd > 7', '{v}.cc == 0', '{v}.bb != 8'),
    'MIDIWriter': ('{v}._pulses_per_quarter > 1000', '{v}._channel == 9', '{v}._pulses_per_quarter % 2 == 1', '{v}._bpm > 300', '{v}._bpm < 10',
                   '{v}._middle_c_delta > 60', '{v}._middle_c_delta == 0'),
    'MIDIReader': ('{v}._middle_c_delta > 60', '{v}._middle_c_delta == 0', '{v}._middle_c_delta < 0'),
}
# conditions no execution can meet, so that the mutant would be no mutant
IMPOSSIBLE = re.compile(r'(status|previous_status|channel|pitch|velocity|kind|nn|dd|cc|bb|global_channel|value|x|n) (> (1000|16383|\(1)|< -60|< 0)'
                        r'|(previous_status|status) (==|<|% 101|& )|(ticks_per_quarter|delta_time|absolute_time|last_time) (> \(1 << 40|<)|[xn]\.|velocity == 0\.0')
GUARD = '''
def _rv_rare(f):
    try:
        return bool(f())
    except Exception:
        return False
'''
TYPES = '''
import json, sys
out = {{}}
def note(frame, names):
    for k, v in frame.f_locals.items():
        names.setdefault(k, set()).add(type(v).__name__)
def tracer(frame, event, arg):
    f = frame.f_code.co_filename
    if '/repo/' not in f:
        return None
    names = out.setdefault(frame.f_code.co_name + ':' + str(frame.f_code.co_firstlineno), {{}})
    note(frame, names)
    def local(fr, ev, a):
        note(fr, names)
        return local
    return local
sys.settrace(tracer)
import pytest
pytest.main(['-q', '-p', 'no:cacheprovider', 'tests'])
sys.settrace(None)
json.dump({{k: {{n: sorted(t) for n, t in v.items()}} for k, v in out.items()}}, open({path!r}, 'w'))
'''


def local_types():
    path = tempfile.mktemp(prefix='rv-types-')
    try:
        subprocess.run([PY, '-B', '-c', TYPES.format(path=path)], cwd='/repo', check=True, capture_output=True,
                       env=dict(os.environ, PYTHONPATH='/repo/src'))
        return json.load(open(path))
    finally:
        if os.path.exists(path):
            os.remove(path)


def rare_mutants(source, rng, types):
    """Mutants of one expression or statement that only act when a rare condition on a variable in scope holds."""
    tree = ast.parse(source)
    plain = ast.unparse(tree)

    def text():
        try:
            t = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(t)
            return t + GUARD if t != plain else None
        except Exception:
            return None

    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        known = {}
        for line in {fn.lineno} | {d.lineno for d in fn.decorator_list}:
            known.update(types.get(f'{fn.name}:{line}', {}))
        known = known or {'track': ['Track'], 'mean': ['float'], 'variance': ['float'], 'minimum': ['float'], 'maximum': ['float'],
                          'position': ['Signature'], 'note': ['Note'], 'new_velocity': ['float'], 'std': ['float'], 'result': ['Track'],
                          'base': ['int', 'Note', 'Tone', 'str'], 'base_tone': ['Tone'], 'base_duration': ['Signature'],
                          'base_velocity': ['float'], 'velocity': ['float', 'NoneType'], 'duration': ['Signature', 'NoneType', 'tuple']}
        first = {a.arg: fn.lineno for a in fn.args.args}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                first[n.id] = min(first.get(n.id, 1 << 30), n.lineno)

        def pick(line):
            preds = [p.format(v=v) for v, at in first.items() if at < line or v in {a.arg for a in fn.args.args}
                     for t in known.get(v, ()) for p in RARE.get(t, ())]
            preds = [p for p in preds if not IMPOSSIBLE.match(p)]
            return rng.choice(preds) if preds else None

        skip = set()
        for n in ast.walk(fn):
            for f in ('annotation', 'returns'):
                if isinstance(getattr(n, f, None), ast.AST):
                    skip.update(id(x) for x in ast.walk(getattr(n, f)))
            if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr)) or n in fn.args.defaults:
                skip.update(id(x) for x in ast.walk(n))
        for n in list(ast.walk(fn)):
            if id(n) in skip:
                continue
            for field, child in list(ast.iter_fields(n)):
                slots = [(child, None)] if isinstance(child, ast.expr) else list(zip(child, range(len(child)))) if isinstance(child, list) else []
                for e, i in slots:
                    if not isinstance(e, ast.AST) or id(e) in skip or field in ('targets', 'target', 'func', 'decorator_list'):
                        continue
                    src = ast.unparse(e)
                    alts = []
                    if isinstance(e, ast.Compare):
                        alts = [f'not ({src})']
                    elif isinstance(e, ast.BinOp):
                        alts = [f'({src}) + 1', f'({src}) - 1', ast.unparse(e.left)]
                    elif isinstance(e, ast.Constant) and type(e.value) in (int, float):
                        alts = [f'({src}) + 1', f'({src}) - 1']
                    elif isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and e.attr.strip('_') in (
                            'nominator', 'denominator', 'pitch', 'channel', 'max_denominator', 'middle_c_delta', 'bpm', 'pulses_per_whole'):
                        alts = [f'({src}) + 1', f'({src}) - 1', f'({src}) * 2']
                    elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and 'int' in known.get(e.id, ()):
                        alts = [f'({src}) + 1', f'({src}) - 1', '0']
                    elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and 'list' in known.get(e.id, ()):
                        alts = [f'({src})[:-1]', f'({src})[1:]', f'({src})[::-1]']
                    elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and 'Signature' in known.get(e.id, ()):
                        alts = [f'({src}) + ({src})', f'({src}).normalized()']
                    elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load) and 'float' in known.get(e.id, ()):
                        alts = [f'({src}) * 0.9', '0.5']
                    stmt = isinstance(e, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Return)) and not (
                        isinstance(e, ast.Expr) and isinstance(e.value, ast.Constant))
                    if not alts and not stmt:
                        continue
                    pred = pick(e.lineno)
                    if pred is None:
                        continue
                    if stmt:
                        new = ast.parse(f'if not _rv_rare(lambda: {pred}):\n    pass').body[0]
                        new.body = [e]
                        what = f'unless {pred}: {src[:90]}'
                    else:
                        what = f'({rng.choice(alts)} if _rv_rare(lambda: {pred}) else {src})'
                        new = ast.parse(what, mode='eval').body
                    if i is None:
                        setattr(n, field, new)
                    else:
                        child[i] = new
                    t = text()
                    if i is None:
                        setattr(n, field, e)
                    else:
                        child[i] = e
                    if t:
                        yield f'{fn.name} line {e.lineno}: {what}', t


def judge(job):
    name, what, text = job
    root = tempfile.mkdtemp(prefix='rv-mut-')
    try:
        repo, verif = root + '/repo', root + '/verif'
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', 'clone', '-q', os.environ['RV_VERIF'], verif], check=True)
        with open(os.path.join(repo, name), 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=repo)
        try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=repo, env=env,
                               capture_output=True, text=True, timeout=60)
            if r.returncode:
                return name, what, 'tests'
        except subprocess.TimeoutExpired:
            return name, what, 'tests'
        first = FILES[name].split()
        odd = []
        for cid, scale in [(c, '0.05') for c in first] + [(c, '0.5') for c in first if c != 'C17' or len(first) < 8]:
            try:
                r = subprocess.run(['bash', verif + '/check.sh', cid, '--tier', 'quick'], cwd=verif, env=dict(env, RV_SCALE=scale),
                                   capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(f'{cid}:timeout')
                continue
            if r.returncode == 1:
                return name, what, 'caught ' + cid
            if r.returncode > 2:
                odd.append(f'{cid}:{r.returncode}')
        return name, what, 'SURVIVED' + (' ' + ' '.join(odd) if odd else '')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--only')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--rare', type=int)
    a = ap.parse_args()
    os.environ.setdefault('RV_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    types = local_types() if a.rare is not None else {}
    jobs = []
    for name in FILES:
        if a.only and a.only not in name:
            continue
        src = open('/repo/' + name).read()
        plain = ast.unparse(ast.parse(src))
        seen = {plain}
        for what, text in (rare_mutants(src, random.Random(a.rare), types) if a.rare is not None else mutants(src)):
            if text not in seen:
                seen.add(text)
                jobs.append((name, what, text))
    if a.rare is not None:
        random.Random(a.rare).shuffle(jobs)
    jobs = jobs[a.offset::a.every]
    print(len(jobs), 'mutants', flush=True)
    with open(a.out, 'w') as out, multiprocessing.Pool(a.jobs) as pool:
        for name, what, verdict in pool.imap_unordered(judge, jobs):
            out.write(json.dumps([name, what, verdict]) + '\n')
            out.flush()
            if verdict.startswith('SURVIVED'):
                print(verdict, name, what, flush=True)


if __name__ == '__main__':
    main()
