"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props


def line(p):
    assert len(p['title']) <= 80, p['title']
    d = dict(id=p['id'], title=p['title'], statement=p['statement'],
             quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
             anchors=dict(files=p['files'],
                          mechanism=[dict(name=a, where=b) for a, b in p['mechanism']]))
    if p['state']:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
    return d


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props.CLAIMED + [n for n, _ in props.NOT_APPLICABLE]:
            f.write(json.dumps(line(p)) + '\n')
    m = dict(
        version=1,
        setup_cmd='python3-vt -m symx.selftest',
        checks=[dict(
            property=p['id'],
            quick_cmd=f'python3-vt -m symx.runner {p["id"]} --tier quick',
            thorough_cmd=f'python3-vt -m symx.runner {p["id"]} --tier thorough',
            technique=props.TECH,
            level='model_checking',
            level_note='bounded: ' + p['note'] + '. Every assertion on every path is decided by the '
                       'solver for all values; counterexamples are replayed on the unmodified code. '
                       'Trusts the instrumenter, the models of builtins (cross-validated on every '
                       'run against the real interpreter) and z3.',
        ) for p in props.CLAIMED],
        not_applicable=[dict(property=p['id'], reason=r) for p, r in props.NOT_APPLICABLE],
        notes='The engine (symx/) rewrites the current /repo/marsh sources at import time and '
              'executes them on symbolic values; no hooks in /repo are needed.',
    )
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import subprocess
    subprocess.run(['/opt/venv/bin/python', '-B', os.path.join(HERE, 'tools', 'design.py')], check=True)
    import jsonschema
    for path, schema in (('properties.jsonl', 'PROPERTIES'), ('MANIFEST.json', 'MANIFEST')):
        s = json.load(open(f'/root/.vp/{schema}.schema.json'))
        text = open(os.path.join(HERE, path)).read()
        for d in ([json.loads(x) for x in text.splitlines()] if path.endswith('l') else [json.loads(text)]):
            jsonschema.validate(d, s)


if __name__ == '__main__':
    main()
