"""Virtual file system of symbolic runs: names may be symbolic (concrete runs use a real directory)."""
import io


class File:
    def __init__(self, text):
        self.text = text


class Dir:
    def __init__(self):
        self.items = []


class Writer(io.StringIO):
    def __init__(self, node, text=''):
        super().__init__()
        self.node = node
        if text:
            self.write(text)

    def close(self):
        if not self.closed:
            self.node.text = self.getvalue()
        super().close()


class Entry:
    def __init__(self, name, path, node):
        self.name = name
        self.path = path
        self.node = node

    def is_file(self, **kw):
        return isinstance(self.node, File)

    def is_dir(self, **kw):
        return isinstance(self.node, Dir)


class Entries(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None


class VFS:
    def __init__(self):
        self.top = Dir()
        self.where = []          # [name, node] from the top to the working directory
        self.fail = {}           # operation: exception raised by it

    # -- walking
    def walk(self, path):
        """Chain of [name, node] leading to path; None when there is nothing."""
        if path == '':
            return None
        chain = [] if path.startswith('/') else list(self.where)
        for name in path.split('/'):
            node = chain[-1][1] if chain else self.top
            if not isinstance(node, Dir):
                return None
            if name == '' or name == '.':
                continue
            if name == '..':
                chain = chain[:-1]
                continue
            for other, sub in node.items:
                if other == name:
                    chain = chain + [[other, sub]]
                    break
            else:
                return None
        return chain

    def node(self, path):
        chain = self.walk(path)
        if chain is None:
            return None
        return chain[-1][1] if chain else self.top

    def parent(self, path):
        """(directory node, last name) for a new entry."""
        path = path.rstrip('/')
        i = path.rfind('/')
        head = path[:i + 1] or '.'
        node = self.node(head)
        if node is None:
            raise FileNotFoundError(2, 'No such file or directory')
        if not isinstance(node, Dir):
            raise NotADirectoryError(20, 'Not a directory')
        return node, path[i + 1:]

    def check(self, op):
        if op in self.fail:
            raise self.fail[op]

    # -- the calls
    def exists(self, path):
        return self.node(path) is not None

    lexists = exists

    def isfile(self, path):
        return isinstance(self.node(path), File)

    def isdir(self, path):
        return isinstance(self.node(path), Dir)

    def _dir(self, path):
        node = self.node(path)
        if node is None:
            raise FileNotFoundError(2, 'No such file or directory')
        if not isinstance(node, Dir):
            raise NotADirectoryError(20, 'Not a directory')
        return node

    def listdir(self, path='.'):
        return [name for name, _ in self._dir(path).items]

    def scandir(self, path='.'):
        return Entries([Entry(name, path + '/' + name, node) for name, node in self._dir(path).items])

    def getcwd(self):
        return '/' + '/'.join([name for name, _ in self.where])

    def chdir(self, path):
        self.check('chdir')
        self._dir(path)
        self.where = self.walk(path)

    def mkdir(self, path, mode=0o777):
        self.check('mkdir')
        if self.exists(path):
            raise FileExistsError(17, 'File exists')
        node, name = self.parent(path)
        node.items.append([name, Dir()])

    def makedirs(self, path, mode=0o777, exist_ok=False):
        self.check('mkdir')
        if self.exists(path):
            if exist_ok and self.isdir(path):
                return
            raise FileExistsError(17, 'File exists')
        done = '/' if path.startswith('/') else ''
        for part in path.split('/'):
            if part == '':
                continue
            done = done + part
            if not self.exists(done):
                self.mkdir(done)
            done = done + '/'
        if not self.isdir(path):
            raise FileExistsError(17, 'File exists')

    def remove(self, path):
        node, name = self.parent(path)
        node.items = [x for x in node.items if x[0] != name]

    rmdir = remove

    def open(self, path, mode='r', *a, **kw):
        self.check('open')
        node = self.node(path)
        if isinstance(node, Dir):
            raise IsADirectoryError(21, 'Is a directory')
        if 'r' in mode:
            if node is None:
                raise FileNotFoundError(2, 'No such file or directory')
            return io.StringIO(node.text)
        if 'x' in mode and node is not None:
            raise FileExistsError(17, 'File exists')
        if node is None:
            up, name = self.parent(path)
            node = File('')
            up.items.append([name, node])
        return Writer(node, node.text if 'a' in mode else '')
