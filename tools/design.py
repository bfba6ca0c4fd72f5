"""Writes DESIGN.md: tools/design_head.md, the properties and their bounds, tools/design_tail.md, planted bugs.

Run by tools/build.py under /opt/venv/bin/python (imports the harnesses, not the engine).
"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools'), os.environ.get('SYMX_REPO', '/repo')]
import props


def short(d):
    out = []
    for k, v in d.items():
        t = json.dumps(v)
        if len(t) > 60 and isinstance(v, (list, dict)):
            t = f'<{len(v)} items>'
        out.append(f'{k}={t}')
    return ', '.join(out) or '-'


def main():
    out = [open(os.path.join(HERE, 'tools/design_head.md')).read().rstrip(), '',
           '## 2. Properties: how each is decided, oracle, bounds', '',
           'Generated from tools/props.py and the harnesses by tools/design.py.', '']
    for p in sorted(props.CLAIMED, key=lambda p: p['id']):
        m = importlib.import_module('harness.' + p['id'].lower())
        out += [f'### {p["id"]} {p["title"]}', '', p['statement'], '',
                f'*Quantified over* {p["text"]}. *Beyond tests:* {p["why"]}', '',
                f'*Code:* {", ".join(p["files"])}. *Bounds:* {p["note"]}.', '']
        for a in getattr(m, 'ASSUMPTIONS', []):
            out.append(f'*Assumes:* {a}.')
            out.append('')
        groups = {}
        for h in m.HARNESSES:
            groups.setdefault(h.fn.__name__, []).append(h)
        for fn, hs in groups.items():
            doc = ' '.join((hs[0].fn.__doc__ or '').split())
            names = ', '.join(h.name for h in hs) if len(hs) <= 6 else f'{len(hs)} instances'
            out.append(f'* `{fn}`' + (f' ({names})' if len(hs) > 1 else '') + (f': {doc}' if doc else ''))
            h = hs[0]
            t = '' if h.quick == h.thorough else f'; thorough: {short(h.thorough)}'
            out.append(f'  - quick: {short(h.quick)}{t}')
        out.append('')
    out += [open(os.path.join(HERE, 'tools/design_tail.md')).read().rstrip(), '',
            '| change | property | needs | caught by |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        d = json.load(open(f))
        name = os.path.basename(os.path.dirname(f))
        out.append(f'| {name} | {d["property"]} | {d["needs"]} | {d["property"] if d.get("caught", True) else "missed"} |')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
