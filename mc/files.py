"""Scratch folders, snapshots of them, and an unprivileged user for code that is itself what contains its effects."""

import contextlib
import os
import shutil
import stat
import tempfile

NOBODY = 65534


@contextlib.contextmanager
def unprivileged():
    """Files are accessed as a user who owns nothing."""
    if os.geteuid() != 0:
        yield
        return
    groups = os.getgroups()
    try:
        os.setgroups([])
        os.setegid(NOBODY)
        os.seteuid(NOBODY)
    except PermissionError:
        pass
    try:
        yield
    finally:
        os.seteuid(0)
        os.setegid(0)
        with contextlib.suppress(PermissionError):
            os.setgroups(groups)


class Area:
    """A directory for one run after the other; everything in it belongs to the unprivileged user."""

    def __init__(self):
        self.top = tempfile.mkdtemp(prefix="mcfiles")
        os.chmod(self.top, 0o755)
        self.root = os.path.join(self.top, "x")

    def fresh(self, tree):
        """tree: {relative path: content, None for a directory}"""
        shutil.rmtree(self.root, ignore_errors=True)
        os.mkdir(self.root)
        self.own(self.root)
        for path, content in tree.items():
            self.put(path, content)

    def own(self, path):
        if os.geteuid() == 0:
            os.chown(path, NOBODY, NOBODY)

    def put(self, path, content):
        full = os.path.join(self.root, path)
        if content is None:
            if not os.path.isdir(os.path.dirname(full)):
                self.put(os.path.dirname(path), None)
            os.makedirs(full, exist_ok=True)
            self.own(full)
            return
        if not os.path.isdir(os.path.dirname(full)):
            self.put(os.path.dirname(path), None)
        with open(full, "w") as f:
            f.write(content)
        self.own(full)

    def look(self):
        """{relative path: content, None for a directory}"""
        return snapshot(self.root)

    def drop(self):
        shutil.rmtree(self.top, ignore_errors=True)


def snapshot(root):
    out = {}
    for where, dirs, names in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(where, d), root)] = None
        for n in names:
            path = os.path.join(where, n)
            if stat.S_ISREG(os.lstat(path).st_mode):
                with open(path, "rb") as f:
                    out[os.path.relpath(path, root)] = f.read()
            else:
                out[os.path.relpath(path, root)] = "special"
    return out


@contextlib.contextmanager
def rights(area, sealed):
    """`sealed` cannot be written to by the unprivileged user."""
    path = os.path.join(area.root, sealed)
    for where, _, names in os.walk(path):
        for p in [where] + [os.path.join(where, n) for n in names]:
            os.chown(p, 0, 0) if os.geteuid() == 0 else None
    os.chmod(path, 0o555)
    try:
        yield
    finally:
        os.chmod(path, 0o755)
