"""The simulated disk: damage to, and recovery of, one machine's database files.

Files are replaced, never written to: their contents are shared with other
machines through hard links.
"""
import os
import shutil

BIN_FAULTS = ("missing", "truncated", "short", "padded", "empty", "dir", "dangling", "eio", "pointer", "dropcol")
CSV_FAULTS = ("missing", "truncated", "cut", "empty", "header", "dir", "dangling", "eio")
POINTER = b"version https://git-lfs.github.com/spec/v1\noid sha256:%s\nsize 27420\n" % (b"0" * 64)


def _mark(base, name):
    with open(os.path.join(base, "dirty"), "a") as f:
        f.write(name + "\n")


def _rm(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.unlink(p)


def _orig(base, name):
    root = os.path.dirname(base)
    return os.path.join(root, "pristine.csv") if name.endswith(".csv") else os.path.join(root, "store", name)


def damage(base, name, kind, frac=0.5):
    """Put a fault on <atms>/<name>."""
    p = os.path.join(base, "src", "pybsm", "atms", name)
    _mark(base, name)
    data = open(_orig(base, name), "rb").read()
    new = None
    if kind == "truncated":
        new = data[: 4 * int(frac * (len(data) - 4) / 4)] if name.endswith(".bin") else data[: int(frac * len(data))]
    elif kind == "cut":  # at a row boundary
        k = data.rfind(b"\n", 0, max(1, int(frac * len(data)))) + 1
        new = data[:k]
    elif kind == "short":
        new = data[:-4]
    elif kind == "padded":
        new = data + data[: 4 * (1 + int(frac * 1371))]
    elif kind == "empty":
        new = b""
    elif kind == "header":
        new = data[: data.find(b"\n") + 1]
    elif kind == "pointer":
        new = POINTER
    elif kind == "dropcol":
        new = data[: len(data) * 4 // 5]
    tmp = p + ".tmp~"
    _rm(tmp)
    if new is not None:
        with open(tmp, "wb") as f:
            f.write(new)
    elif kind == "dir":
        os.mkdir(tmp)
    elif kind == "dangling":
        os.symlink(p + ".gone", tmp)
    elif kind == "eio":
        os.symlink("/proc/self/mem", tmp)
    _rm(p)
    if kind != "missing":
        os.rename(tmp, p)


def heal(base, name):
    p = os.path.join(base, "src", "pybsm", "atms", name)
    _rm(p + ".tmp~")
    _rm(p)
    os.link(_orig(base, name), p)


def heal_all(base):
    d = os.path.join(base, "dirty")
    if os.path.exists(d):
        with open(d) as f:
            names = set(f.read().split())
        for n in sorted(names):
            heal(base, n)
        os.unlink(d)


def clean(base):
    return not os.path.exists(os.path.join(base, "dirty"))


class Layout:
    """What the machine's disk holds between runs; restore() puts a disk changed by the code back."""

    def __init__(self, base):
        self.base = base
        self.dirs, self.files = {}, {}
        for d, dirs, files in os.walk(base):
            self.dirs[d] = (set(dirs) | set(files), os.stat(d).st_mtime_ns)
            for n in files:
                if not n.endswith(".bin"):
                    p = os.path.join(d, n)
                    st = os.lstat(p)
                    with open(p, "rb") as f:
                        self.files[p] = (st.st_size, st.st_mtime_ns, st.st_mode, f.read())

    def restore(self):
        for p, (size, mtime, mode, data) in self.files.items():
            try:
                st = os.lstat(p)
                if (st.st_size, st.st_mtime_ns, st.st_mode) == (size, mtime, mode):
                    continue
                _rm(p)
            except OSError:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, mode & 0o7777)
            os.utime(p, ns=(mtime, mtime))
        for d, (names, mtime) in self.dirs.items():
            os.makedirs(d, exist_ok=True)
            if os.stat(d).st_mtime_ns == mtime:
                continue
            now = set(os.listdir(d))
            for n in now - names:
                _rm(os.path.join(d, n))
            for n in names - now:
                if n.endswith(".bin"):
                    os.link(_orig(self.base, n), os.path.join(d, n))
        for d, (names, mtime) in reversed(self.dirs.items()):
            if os.stat(d).st_mtime_ns != mtime:
                os.utime(d, ns=(mtime, mtime))
