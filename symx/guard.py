"""
Guard of real replays: calls which delete or move files are refused out of the scratch directory.

The code replayed may have been changed in any way: it is not relied on to
keep its effects in the scratch directory.
"""
import os
import shutil

REFUSED = []


def install(scratch):
    root = os.path.realpath(scratch) + os.sep

    def ok(path):
        try:
            p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(path)))), "")
            p = os.path.join(p, os.path.basename(os.path.normpath(os.fspath(path))))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return (p + os.sep).startswith(root)

    def wrap(mod, name, two=False):
        orig = getattr(mod, name)

        def w(path=None, *a, **k):
            if k.get("dir_fd") is None and k.get("src_dir_fd") is None:
                for p in (path, *a[:1]) if two else (path,):
                    if not ok(p):
                        REFUSED.append((name, str(p)))
                        raise PermissionError(1, f"{name} out of the scratch directory", str(p))
            return orig(path, *a, **k)

        w.__name__ = name
        setattr(mod, name, w)

    avoids = shutil.rmtree.avoids_symlink_attacks
    for n in ("rmdir", "remove", "unlink"):
        wrap(os, n)
    for n in ("rename", "replace", "renames"):
        wrap(os, n, True)
    wrap(shutil, "rmtree")
    shutil.rmtree.avoids_symlink_attacks = avoids
    wrap(shutil, "move", True)
    wrap(os, "removedirs")
    wrap(os, "truncate")
