"""Builds, from /repo's current working tree, the process images the simulation runs.

Each simulated machine has a disk of its own: a directory with the package's
source files copied from /repo/src/pybsm and the synthetic atmosphere database
(hard links into one shared store, replaced, never written, by disk faults).
"""
import os
import shutil
import tempfile

from . import dbmodel

REPO = os.environ.get("DST_REPO", "/repo")


def make_root():
    return tempfile.mkdtemp(prefix="pybsm-dst-")


def make_store(root):
    """The shared, read-only store of synthetic database files."""
    store = os.path.join(root, "store")
    os.makedirs(store)
    db = dbmodel.DB(os.path.join(REPO, "src/pybsm/atms/fileDecoder.csv"))
    for i in sorted(set(db.rows.values())):
        p = os.path.join(store, "%d.bin" % i)
        with open(p, "wb") as f:
            f.write(dbmodel.raw_bytes(i))
        os.utime(p, (1_500_000_000, 1_500_000_000))
    return store


def make_image(root, name, sub="src"):
    """One machine: <root>/<name>/{src/pybsm,cwd,home,tmp}."""
    base = os.path.join(root, name)
    for d in (sub, "cwd", "home", "tmp"):
        os.makedirs(os.path.join(base, d))
    src, dst = os.path.join(REPO, "src/pybsm"), os.path.join(base, sub, "pybsm")

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or (n.endswith(".bin") and os.path.basename(d) == "atms")]

    shutil.copytree(src, dst, ignore=ignore)
    store = os.path.join(root, "store")
    for n in os.listdir(store):
        os.link(os.path.join(store, n), os.path.join(dst, "atms", n))
    return base
