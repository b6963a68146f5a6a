"""Brings DESIGN.md and MANIFEST.json in step with the checks: rules and minimum observations come from rv/.

python3 tools/docs.py [RESULTS]   RESULTS: lines "<planted bug> <property> CAUGHT|MISSED ...", for the table of planted bugs
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo/src')
sys.dont_write_bytecode = True
from rv.registry import PROPS  # noqa: E402


def main():
    path = os.path.join(HERE, 'MANIFEST.json')
    manifest = json.load(open(path))
    for c in manifest['checks']:
        c['level_note'] = (f'Held on the executions produced by a seeded workload ({PROPS[c["property"]].rule}). Trusts the '
                           'reference model/decoder in rv/ and CPython; says nothing about inputs not generated.')
    with open(path, 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')

    levels = {c['property']: c['level'] for c in manifest['checks']}
    titles = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path).read()
    for t in titles:
        p = PROPS[t['id']]
        text = re.sub(rf'^### {t["id"]} .*$', lambda m: f'### {t["id"]} {t["title"]}', text, flags=re.M)
        i = text.index(f'### {t["id"]} ')
        j = re.compile(r'^##', re.M).search(text, i + 4).start()
        needs = ', '.join(f'{k} >= {v}' for k, v in p.requires.items())
        line = f'Workload: {p.rule}. Minimum observations, else inconclusive: {needs}. Level: {levels[t["id"]]}.'
        text = text[:i] + re.sub(r'^Workload: .*$', lambda m: line, text[i:j], flags=re.M) + text[j:]
    if len(sys.argv) > 1:
        rows = ['| planted bug | property | result | what it needs |', '| --- | --- | --- | --- |']
        for line in open(sys.argv[1]):
            f = line.split()
            if len(f) > 2 and f[2] in ('CAUGHT', 'MISSED'):
                meta = json.load(open(os.path.join(HERE, 'seeded', f[0], 'meta.json')))
                rows.append(f'| {f[0]} | {f[1]} | {f[2].lower()} | {meta["needs"]} |')
        text = re.sub(r'(<!-- planted -->\n).*?(<!-- end -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], text, flags=re.S)
    open(path, 'w').write(text)


main()
