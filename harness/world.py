"""A small file tree around a run: virtual for symbolic runs, a scratch directory for concrete ones."""
import os
import shutil
import sys
import tempfile

if 'symx.hooks' in sys.modules:       # symbolic run
    from symx import stdlib
    from harness import vfs


class World:
    """`files`: (path below the root, text), `dirs`: paths below the root; starts in `cwd`."""

    def __init__(self, g, files=(), dirs=(), cwd='.'):
        self.g = g
        self.files = files
        self.dirs = dirs
        self.start = cwd

    # -- set up
    def __enter__(self):
        try:
            return self.build()
        except BaseException:
            self.__exit__()
            raise

    def build(self):
        if self.g.symbolic:
            self.root = '/root0'
            self.fs = vfs.VFS()
            self.fs.makedirs(self.root)
            for d in self.dirs:
                self.fs.makedirs(self.root + '/' + d, exist_ok=True)
            for p, text in self.files:
                with self.fs.open(self.root + '/' + p, 'w') as fp:
                    fp.write(text)
            self.fs.chdir(self.root + '/' + self.start)
            stdlib.VFS = self.fs
            return self
        self.before = os.getcwd()
        # any order is a legitimate answer of the system: the one the symbolic run had
        self.real = os.listdir
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='marsh-verif-'))
        order = {}
        for d in self.dirs:
            os.makedirs(self.root + '/' + d, exist_ok=True)
        for p in [*self.dirs, *[p for p, _ in self.files]]:
            order.setdefault(p.rstrip('/').rpartition('/')[2], len(order))
        for p, text in self.files:
            with open(self.root + '/' + p, 'w') as fp:
                fp.write(text)
        os.chdir(self.root + '/' + self.start)
        os.listdir = lambda *a: sorted(self.real(*a), key=lambda n: order.get(n, -1))
        return self

    def __exit__(self, *a):
        if self.g.symbolic:
            stdlib.VFS = None
            return
        os.listdir = self.real
        os.chdir(self.before)
        shutil.rmtree(self.root)

    # -- questions
    def isfile(self, path):
        return self.fs.isfile(path) if self.g.symbolic else os.path.isfile(path)

    def isdir(self, path):
        return self.fs.isdir(path) if self.g.symbolic else os.path.isdir(path)

    def text(self, path):
        """The text of the file at path, None when there is none."""
        if not self.isfile(path):
            return None
        if self.g.symbolic:
            return self.fs.node(path).text
        with open(path) as fp:
            return fp.read()

    def cwd(self):
        """Working directory below the root ('' is the root)."""
        path = self.fs.getcwd() if self.g.symbolic else os.getcwd()
        return path[len(self.root) + 1:] if path.startswith(self.root) else path

    def same_file(self, a, b):
        if self.g.symbolic:
            x, y = self.fs.node(a), self.fs.node(b)
            return x is not None and x is y
        return os.path.exists(a) and os.path.exists(b) and os.path.samefile(a, b)
