"""
In-memory file system for paths below `/symfs`, at the level of the `os` / `shutil` calls.

Installed before oups is imported, by wrapping the library functions; any other
path goes to the genuine function.  A fault plan can make the n-th operation fail.
"""
import errno
import os
import os.path
import shutil

from .symstr import SymStr
from .symstr import join_path
from .symstr import split_path

ROOT = "/symfs"


class Node:
    pass


class File(Node):
    def __init__(self, data=None):
        self.data = data


class Dir(Node):
    def __init__(self):
        self.items = []  # list of (name, Node): names may be symbolic.

    def get(self, name):
        for n, node in self.items:
            if n == name:
                return node
        return None

    def set(self, name, node):
        for i, (n, _) in enumerate(self.items):
            if n == name:
                self.items[i] = (n, node)
                return
        self.items.append((name, node))

    def remove(self, name):
        for i, (n, _) in enumerate(self.items):
            if n == name:
                del self.items[i]
                return
        raise KeyError(name)


class FS:
    def __init__(self):
        self.reset()

    def reset(self):
        self.top = Dir()
        self.top.items.append(("symfs", Dir()))
        self.log = []
        self.fail_at = None
        self.n_ops = 0
        self.fired = False
        self.removed = []
        self.outside = []
        self.cwd = None

    def op(self, kind, path):
        """Account for a modifying operation; the write of a part file may be asked to fail."""
        self.log.append((kind, path))
        if self.fail_at is not None and kind == "write" and bool(path.endswith(".parquet")):
            n = self.n_ops
            self.n_ops += 1
            if self.fail_at == n:
                self.fired = True
                raise OSError(errno.EIO, "injected fault", str(path))

    def parts(self, path):
        if self.cwd is not None and not bool(path.startswith("/")):
            path = join_path(self.cwd, path)
        return split_path(path)

    def node(self, path):
        cur = self.top
        for p in self.parts(path):
            if not isinstance(cur, Dir):
                return None
            cur = cur.get(p)
            if cur is None:
                return None
        return cur

    def parent(self, path):
        ps = self.parts(path)
        cur = self.top
        for p in ps[:-1]:
            cur = cur.get(p) if isinstance(cur, Dir) else None
            if cur is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        return cur, ps[-1]

    def makedirs(self, path):
        cur = self.top
        for p in self.parts(path):
            nxt = cur.get(p)
            if nxt is None:
                nxt = Dir()
                cur.items.append((p, nxt))
            elif not isinstance(nxt, Dir):
                raise FileExistsError(errno.EEXIST, "File exists", str(path))
            cur = nxt
        return cur

    def write(self, path, data):
        d, name = self.parent(path)
        try:
            self.op("write", path)
        except OSError:
            # File is open already.
            d.set(name, File(None))
            raise
        d.set(name, File(data))

    def read(self, path):
        n = self.node(path)
        if not isinstance(n, File):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        return n.data

    def listdir(self, path):
        n = self.node(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        if not isinstance(n, Dir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        return [name for name, _ in n.items]

    def unlink(self, path):
        self.op("remove", path)
        n = self.node(path)
        if not isinstance(n, File):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        d, name = self.parent(path)
        d.remove(name)
        self.removed.append(("file", path))

    def rmdir(self, path):
        self.op("rmdir", path)
        n = self.node(path)
        if not isinstance(n, Dir):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        if n.items:
            raise OSError(errno.ENOTEMPTY, "Directory not empty", str(path))
        d, name = self.parent(path)
        d.remove(name)
        self.removed.append(("dir", path))

    def rmtree(self, path):
        self.op("rmtree", path)
        n = self.node(path)
        if not isinstance(n, Dir):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        d, name = self.parent(path)
        d.remove(name)
        self.removed.append(("tree", path))

    def rename(self, src, dst):
        self.op("rename", (src, dst))
        n = self.node(src)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(src))
        d, name = self.parent(src)
        d.remove(name)
        d2, name2 = self.parent(dst)
        d2.set(name2, n)

    def tree(self, node=None, prefix=()):
        """All (path components, is_dir) in the tree."""
        node = node or self.top
        out = []
        for name, n in node.items:
            out.append((prefix + (name,), isinstance(n, Dir)))
            if isinstance(n, Dir):
                out.extend(self.tree(n, prefix + (name,)))
        return out


fs = FS()


class _Entry:
    def __init__(self, path, name, node):
        self.name = name
        self.path = path + name if bool(path.endswith("/")) else join_path(path, name)
        self._node = node

    def __fspath__(self):
        return self.path

    def is_dir(self, follow_symlinks=True):
        return isinstance(self._node, Dir)

    def is_file(self, follow_symlinks=True):
        return isinstance(self._node, File)

    def is_symlink(self):
        return False


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def mine(path):
    if isinstance(path, _Entry):
        return True
    if type(path) is SymStr:
        # A path which leaves the root never reaches the real file system.
        return True
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if not isinstance(p, str):
        return False
    if fs.cwd is not None and not str.startswith(p, "/"):
        return True
    return str.__eq__(p, ROOT) or str.startswith(p, ROOT + "/")


def _p(path):
    return path if isinstance(path, str) or type(path) is SymStr else os.fspath(path)


def install():
    def wrap(mod, name, fn, blocked=False):
        orig = getattr(mod, name)

        def w(path=".", *a, **k):
            if mine(path):
                return fn(_p(path), *a, **k)
            if blocked:
                # Stand-in: nothing is ever modified out of the in-memory tree.
                fs.outside.append((name, path))
                raise PermissionError(errno.EPERM, "out of the tree", str(path))
            return orig(path, *a, **k)

        w.__wrapped__ = orig
        w.__name__ = name
        setattr(mod, name, w)

    def scandir(path):
        n = fs.node(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(path))
        if not isinstance(n, Dir):
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", str(path))
        return _Scan([_Entry(path, name, node) for name, node in n.items])

    def makedirs(path, mode=0o777, exist_ok=False):
        if not exist_ok and fs.node(path) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", str(path))
        fs.makedirs(path)

    def mkdir(path, mode=0o777, **k):
        if fs.node(path) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", str(path))
        d, name = fs.parent(path)
        d.set(name, Dir())

    def removedirs(path):
        parts = fs.parts(path)
        fs.rmdir("/" + join_all(parts))
        while len(parts) > 1:
            parts = parts[:-1]
            try:
                fs.rmdir("/" + join_all(parts))
            except OSError:
                break

    def join_all(parts):
        out = parts[0]
        for p in parts[1:]:
            out = join_path(out, p)
        return out

    def walk(path, topdown=True, onerror=None, followlinks=False):
        n = fs.node(path)
        if not isinstance(n, Dir):
            return
        dirs = [m for m, x in n.items if isinstance(x, Dir)]
        files = [m for m, x in n.items if not isinstance(x, Dir)]
        if topdown:
            yield path, dirs, files
        for d in dirs:
            yield from walk(join_path(path, d), topdown)
        if not topdown:
            yield path, dirs, files

    wrap(os, "listdir", lambda p: fs.listdir(p))
    wrap(os, "scandir", scandir)
    wrap(os, "rmdir", lambda p, **k: fs.rmdir(p), blocked=True)
    wrap(os, "remove", lambda p, **k: fs.unlink(p), blocked=True)
    wrap(os, "unlink", lambda p, **k: fs.unlink(p), blocked=True)
    wrap(os, "rename", lambda p, d, **k: fs.rename(p, _p(d)), blocked=True)
    wrap(os, "replace", lambda p, d, **k: fs.rename(p, _p(d)), blocked=True)
    wrap(os, "makedirs", makedirs, blocked=True)
    wrap(os, "mkdir", mkdir, blocked=True)
    wrap(os, "removedirs", removedirs, blocked=True)
    wrap(shutil, "move", lambda p, d, **k: fs.rename(p, _p(d)), blocked=True)
    wrap(os, "walk", walk)
    wrap(os.path, "isdir", lambda p: isinstance(fs.node(p), Dir))
    wrap(os.path, "isfile", lambda p: isinstance(fs.node(p), File))
    wrap(os.path, "exists", lambda p: fs.node(p) is not None)
    wrap(os.path, "lexists", lambda p: fs.node(p) is not None)
    wrap(os.path, "islink", lambda p: False)
    wrap(shutil, "rmtree", lambda p, *a, **k: fs.rmtree(p), blocked=True)
