"""C43: the tree of a directory shows each of its configs once, where it is, and nothing else."""
import marsh
from symx.base import Harness
from harness.c36 import filename, reset, stem_ext, supported
from harness.world import World

C = marsh.config


def parse(g, lines):
    """Names below each other, [(name, [...])...], checking the branches drawn."""
    out = []
    i = 0
    while i < len(lines):
        head = lines[i][:4]
        last = head == '└── '
        g.check(last or head == '├── ', 'branch')
        if not last and head != '├── ':
            return out
        j = i + 1
        below = '    ' if last else '│   '
        while j < len(lines) and lines[j][:4] == below:
            j += 1
        g.check(last == (j == len(lines)), 'last branch')
        out.append((lines[i][4:], parse(g, [x[4:] for x in lines[i + 1:j]])))
        i = j
    return out


def agree(g, got, want):
    """The same entries in any order."""
    g.check(len(got) == len(want), 'number of entries')
    rest = list(got)
    for name, below in want:
        for k, (n, b) in enumerate(rest):
            if n == name and (b == []) == (below is None):
                del rest[k]
                if below is not None:
                    agree(g, b, below)
                break
        else:
            g.fail('missing entry')


def tree(g, entries, n, exts, dirs, path):
    """Any directory: files and directories of any names, within each other."""
    reset()
    made = []        # (path, name, kind, index of parent)
    for i in range(entries):
        kind = g.choice(f'kind{i}', ('file', 'dir')) if i < dirs else 'file'
        parents = [-1] + [j for j, x in enumerate(made) if x[2] == 'dir']
        parent = parents[g.choice(f'in{i}', tuple(range(len(parents))))]
        name = filename(g, f'f{i}', n, exts if kind == 'file' else ('', '.json'))
        g.assume(g.Not('\n' in name))
        for _, other, _, p in made:
            if p == parent:
                g.assume(name != other)
        made.append(((made[parent][0] + '/' if parent >= 0 else 'w/') + name, name, kind, parent))

    def want(at):
        out = []
        for i, (_, name, kind, parent) in enumerate(made):
            if parent != at:
                continue
            if kind == 'file':
                if supported(stem_ext(name)[1]):
                    out.append((name, None))
            else:
                below = want(i)
                if below:
                    out.append((name, below))
        return out

    w = World(g, [(p, '{}') for p, _, kind, _ in made if kind == 'file'],
              ['w'] + [p for p, _, kind, _ in made if kind == 'dir'], '.')
    with w:
        target = {'name': 'w', 'abs': w.root + '/w', 'dot': './w'}[g.choice('path', path)]
        got = C.tree(target)
        lines = got.split('\n')
        g.check(lines[0] == 'w', 'name of the directory')
        agree(g, parse(g, lines[1:]), want(-1))


HARNESSES = [
    Harness(tree, dict(entries=3, n=1, exts=('.json', '.yml', '.txt'), dirs=2, path=('name',))
            , dict(entries=4, n=1, exts=('.yaml', '.txt', '.JSON'), dirs=2, path=('name',)), weight=2),
    Harness(tree, dict(entries=2, n=2, exts=('.json', ''), dirs=1, path=('name', 'abs', 'dot')),
            dict(entries=2, n=3, exts=('.json', '.yaml', ''), dirs=1, path=('name', 'abs', 'dot')), name='tree_names'),
]
