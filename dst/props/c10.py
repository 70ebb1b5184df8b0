"""C10: results do not depend on the process environment."""
import json
import os
import pickle
import shutil
import subprocess
import sys

import numpy as np

from .. import machine, ops, values
from ..machine import Found

RULE = (
    "One run = an environment drawn from the seed and 8-16 calls in it. In most runs the environment changes after the import (working directory with a decoy database, deleted, environment, umask, "
    "locale, print options, logging levels, streams, thread, descriptor limit, path; pyBSM's own questions about variables, clocks, host, user and processes answered with drawn values); in the others a new interpreter "
    "is started with drawn flags, hash seed, variables, working directory, descriptors and install location. Each result is compared with the standard process's. "
    "Non-trivial: at least one call succeeded; distinct: by digest of all outcomes."
)
MEASURE = "distinct (environment feature, function) pairs"
TIERS = {"quick": {"runs": 420, "seconds": 150, "need": 60}, "thorough": {"runs": 40000, "seconds": 600, "need": 60}}
REQUIRED = ["interpreters", "switched", "fault:clock skew"]
ALLOPS = sorted(ops.OPS)
LIVE = [
    "cwd", "decoy", "gone", "env", "umask", "locale", "print", "streams-none", "streams-broken", "thread", "nofile", "path", "argv", "spy", "gc", "recursion", "seed", "errstate", "mplrc", "noenv", "smallstack", "cvopt",
    "decimal", "profile", "logdebug", "logoff",
]
BOOT = [
    "-O", "-O", "-OO", "-I", "-B", "-Xdev", "-Xutf8=0", "hash", "hashrandom", "unicode", "space", "symlink", "relative", "dot", "closed", "lang", "tz", "threads", "nohome", "decoy", "env", "umask", "frozen", "thread", "spy", "cpu",
    "moved", "nofile", "linkpkg",
]


def gen(rng, i, tier):
    b = ops.Builder(rng, sizes={"n": rng.choice([5, 8])})
    boot = i % 5 == 4
    n = rng.randrange(10, 18) if boot else rng.randrange(6, 12)
    for k in range(n):
        op = ALLOPS[(i * 5 + k) % len(ALLOPS)] if k % 2 else rng.choice(ALLOPS)
        if rng.random() < 0.15:
            op = rng.choice(["obj.atm", "utils.load_database_atmosphere", "simulation.simulate_image", "metrics.niirs"])
        if op in ops.HEAVY and sum(c[1] in ops.HEAVY for c in b.calls) >= 3:
            op = rng.choice([o for o in ALLOPS if o not in ops.HEAVY])
        b.call(op)
    if boot:  # the evaluations that put most of the code together
        for op in rng.sample(["metrics.niirs", "metrics.niirs5", "simulation.simulate_image", "otf.common_OTFs", "otf.weighted_by_wavelength", "utils.load_database_atmosphere"], 4):
            b.call(op)
    feats = [rng.choice(BOOT if boot else LIVE) for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < (0.3 if boot else 0.5):
        feats.append("spy")
    if boot and not {"-I", "hash", "hashrandom"} & set(feats):
        feats.append("hash")
    if "cpu" in feats:  # other vector instructions round single precision differently
        for st in b.steps:
            if st[0] == "new" and "v" in st[2]:
                st[2]["v"] = "F"
            if st[0] == "new" and "v" in st[2].get("img", {}):
                st[2]["img"]["v"] = "F"
    return {"steps": b.steps, "boot": boot, "features": sorted(set(feats)), "draw": rng.randrange(10**6)}


def decoy(ctx, d):
    """A directory that has what a relative path to the database would find, with other contents."""
    from .. import dbmodel

    for a in (os.path.join(d, "atms"), os.path.join(d, "pybsm", "atms"), os.path.join(d, "src", "pybsm", "atms")):
        os.makedirs(a, exist_ok=True)
        for k in range(1, 3500, 97):
            with open(os.path.join(a, "%d.bin" % k), "wb") as f:
                f.write(dbmodel.raw_bytes(k + 1))
        with open(os.path.join(a, "fileDecoder.csv"), "w") as f:
            f.write("id,alt,range,haze\n1,1,0,2\n2,1,0,2\n")
    for n in os.listdir(os.path.join(d, "atms")):
        if not os.path.exists(os.path.join(d, n)):
            os.link(os.path.join(d, "atms", n), os.path.join(d, n))


class Broken:
    """A stream whose other end is gone."""

    encoding = "utf-8"
    closed = False

    def write(self, *a):
        raise BrokenPipeError(32, "injected EPIPE")

    flush = read = readline = write

    def isatty(self):
        return False

    def fileno(self):
        raise OSError(9, "injected EBADF")


def enter(f, ctx, plan, base):
    """Change this process's environment (after pyBSM was imported)."""
    from .. import envspy

    if f == "cwd":
        os.chdir("/")
    elif f == "decoy":
        d = os.path.join(base, "decoy")
        os.makedirs(d, exist_ok=True)
        decoy(ctx, d)
        os.chdir(d)
    elif f == "gone":
        d = os.path.join(base, "gone")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        os.rmdir(d)
    elif f in ("env", "noenv"):
        if f == "noenv":
            os.environ.clear()
        else:
            os.environ.update({k: "1" for k in ("PYBSM_DEBUG", "PYBSM", "PYBSM_DATA", "PYBSM_CACHE", "DEBUG", "CI", "PYTEST_CURRENT_TEST", "VERBOSE", "OMP_NUM_THREADS")}, HOME="/nonexistent", TMPDIR="/nonexistent", LANG="de_DE.UTF-8", TZ="Pacific/Auckland")
    elif f == "umask":
        os.umask(0o777)
    elif f == "locale":
        import locale

        for nm in ("C.UTF-8", "de_DE.UTF-8", "C"):
            try:
                locale.setlocale(locale.LC_ALL, nm)
                break
            except locale.Error:
                pass
    elif f == "print":
        np.set_printoptions(precision=1, threshold=3, edgeitems=1, suppress=True, legacy="1.13", formatter={"float": lambda x: "?"})
    elif f == "streams-none":
        sys.stdin = sys.stdout = sys.stderr = None
    elif f == "streams-broken":
        for nm in ("stdin", "stdout", "stderr"):
            setattr(sys, nm, Broken())
    elif f == "nofile":
        import resource

        hard = resource.getrlimit(resource.RLIMIT_NOFILE)[1]
        used = max(int(x) for x in os.listdir("/proc/self/fd"))
        resource.setrlimit(resource.RLIMIT_NOFILE, (used + 4, hard))
    elif f == "path":
        sys.path[:] = ["", "nowhere", "/nonexistent.zip"] + [p for p in sys.path if "site-packages" in p or "/lib/" in p]
    elif f == "argv":
        sys.argv[:] = []
        sys.modules["__main__"].__dict__.pop("__file__", None)
    elif f == "spy":
        envspy.install(plan["draw"])
        ctx.stats["fault:clock skew"] += 1
    elif f == "gc":
        import gc

        gc.disable() if plan["draw"] % 2 else gc.set_threshold(1)
    elif f == "recursion":
        sys.setrecursionlimit(400)
    elif f == "seed":
        import random

        random.seed(plan["draw"])
        np.random.seed(plan["draw"])
    elif f == "errstate":
        np.seterr(divide="ignore", invalid="warn", over="ignore", under="ignore")
    elif f == "mplrc":
        import matplotlib

        matplotlib.rcParams["path.simplify"] = False
        matplotlib.rcParams["axes.formatter.use_locale"] = True
    elif f == "smallstack":
        import threading

        threading.stack_size(512 * 1024)
    elif f == "cvopt":
        try:
            import cv2

            cv2.setNumThreads(3)
        except ImportError:
            pass
    elif f == "decimal":
        import decimal

        decimal.getcontext().prec = 3
    elif f in ("logdebug", "logoff"):
        import logging

        if f == "logoff":
            logging.disable(logging.CRITICAL)
        else:
            logging.getLogger().setLevel(1)
            logging.getLogger().addHandler(logging.NullHandler())
            for nm in [x for x in list(logging.root.manager.loggerDict) if x.split(".")[0] == "pybsm"] + ["pybsm"]:
                logging.getLogger(nm).setLevel(1)
    elif f == "profile":
        sys.setprofile(lambda *a: None)


def run(plan, ctx):
    m = machine.Machine(ctx, stability=False)
    m.rtol = 0.0  # the last bits too: same code, same processor
    if plan["boot"]:
        return boot(plan, ctx)
    feats = plan["features"]
    m.ctx.log(("env", tuple(feats)))
    # the objects are made beforehand; the oracle is asked from here too
    try:
        for f in feats:
            enter(f, ctx, plan, os.path.join(ctx.base, "tmp"))
        ctx.stats["switched"] += 1

        def work():
            for i, st in enumerate(plan["steps"]):
                ctx.where = i
                ctx.tick()
                try:
                    m.step(st)
                except machine.Skip:
                    ctx.stats["skipped"] += 1
                if st[0] == "call":
                    for f in feats:
                        ctx.states.add("%s|%s" % (f, st[2]))

        try:
            if "thread" in feats or "smallstack" in feats:
                import threading

                box = []

                def body():
                    try:
                        work()
                    except BaseException as e:  # noqa: BLE001
                        box.append(e)

                t = threading.Thread(target=body, name="worker-%d" % plan["draw"], daemon=plan["draw"] % 2 == 0)
                t.start()
                t.join()
                if box:
                    raise box[0]
            else:
                work()
        except Found as e:
            raise Found("environment:" + e.cls, "with %s: %s" % (", ".join(feats), e.detail))
    finally:
        os.chdir("/")
        clean(ctx)


def clean(ctx):
    for d in ("decoy", "gone", "boot", "boot-link", "bööt ∂ir", "a b", "moved"):
        p = os.path.join(ctx.base, "tmp", d)
        if os.path.islink(p):
            os.unlink(p)
        elif os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)


def boot(plan, ctx):
    feats = plan["features"]
    # the calls' arguments, resolved here, as values
    m = machine.Machine(ctx, check_oracle=False, stability=False)
    queries = []
    for i, st in enumerate(plan["steps"]):
        try:
            if st[0] == "call":
                args = [values.canon(a) for a in m.args(st[2], st[3])]
                rng = np.random.RandomState(plan["draw"] % 1000 + i).get_state() if st[2] in ops.NOISY else None
                queries.append({"op": st[2], "args": args, "rng": rng, "grid": ctx.grid})
                out = m.invoke(st[2], m.args(st[2], st[3])) if st[2] in ("obj.atm",) or any(x[0] == "call" and any(isinstance(a, dict) and a.get("r", [None])[0] == st[1] for a in x[3]) for x in plan["steps"]) else ("no", None)
                if out[0] == "ok":
                    m.res[st[1]] = out[1]
                    m.info[st[1]] = (st[2], st[3])
            else:
                m.step(st)
        except machine.Skip:
            ctx.stats["skipped"] += 1
    home = os.path.join(ctx.base, "tmp")
    try:
        got = interpreter(ctx, feats, queries, home, plan["draw"])
    finally:
        clean(ctx)
    ctx.stats["interpreters"] += 1
    for q, g in zip(queries, got):
        ctx.stats["calls"] += 1
        ctx.stats["op:" + q["op"]] += 1
        ctx.stats["ok" if g[0] == "ok" else "raised"] += 1
        for f in feats:
            ctx.states.add("%s|%s" % (f, q["op"]))
        want = ctx.oracle(q["op"], q["args"], q["rng"])
        ctx.log((q["op"], g[0] if g[0] == "ok" else g[1]))
        d = machine.compare(g, want, 1e-7 if {"cpu", "threads"} & set(feats) else 0.0)
        if d and not machine.lies(ctx, q["op"], q["args"], q["rng"], g, want):
            raise Found("interpreter:%s" % q["op"], "in an interpreter started with %s: %s%s" % (", ".join(feats), q["op"], d))


CHILD = r"""
import sys
sys.path.insert(0, %(home)r)
import pickle, os
job = pickle.load(open(%(job)r, "rb"))
from dst import envchild
envchild.main(job)
"""


def interpreter(ctx, feats, queries, home, draw):
    """Answers of a new interpreter, started in the given environment."""
    src = os.path.join(ctx.base, "src")
    here = os.environ["DST_HOME"]
    place = None
    for f in feats:
        if f in ("unicode", "space", "symlink", "relative", "dot", "moved", "linkpkg"):
            name = {"unicode": "bööt ∂ir", "space": "a b"}.get(f, "boot")
            place = os.path.join(home, name)
            if not os.path.isdir(place):
                shutil.copytree(src, place, copy_function=os.link, symlinks=True)
            if f == "symlink":
                link = os.path.join(home, "boot-link")
                if not os.path.islink(link):
                    os.symlink(place, link)
                place = link
            if f == "linkpkg":
                link = os.path.join(home, "moved")
                if not os.path.isdir(link):
                    os.makedirs(link)
                    os.symlink(os.path.join(place, "pybsm"), os.path.join(link, "pybsm"))
                place = link
    env = {k: v for k, v in os.environ.items()}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    flags, cwd, path = [], os.path.join(ctx.base, "cwd"), place or src
    job = {"path": path, "queries": queries, "spy": None, "thread": False, "grid": ctx.grid, "chdir": None, "umask": None, "nofile": None, "out": os.path.join(home, "answers")}
    closed = False
    for f in feats:
        if f in ("-O", "-OO", "-I", "-B", "-Xdev", "-Xutf8=0"):
            flags += ["-X", f[2:]] if f.startswith("-X") else [f]
        elif f == "hash":
            env["PYTHONHASHSEED"] = str(draw % 4000)
        elif f == "hashrandom":
            env["PYTHONHASHSEED"] = str(draw)
        elif f == "relative":
            cwd = os.path.dirname(path)
            job["path"] = os.path.basename(path)
        elif f == "dot":
            cwd, job["path"] = path, ""
        elif f == "closed":
            closed = True
        elif f == "lang":
            env.update(LC_ALL="POSIX", LANG="tr_TR.UTF-8", PYTHONIOENCODING="ascii", PYTHONCOERCECLOCALE="0")
        elif f == "tz":
            env["TZ"] = "Asia/Kathmandu"
        elif f == "threads":
            env.update(OMP_NUM_THREADS="3", OPENBLAS_NUM_THREADS="2")
        elif f == "cpu":
            env["NPY_DISABLE_CPU_FEATURES"] = "AVX512F AVX512CD AVX512_SKX"
        elif f == "nohome":
            env.pop("HOME", None)
            env.pop("TMPDIR", None)
        elif f == "env":
            env.update({k: "1" for k in ("PYBSM_DEBUG", "PYBSM", "PYBSM_DATA", "PYBSM_CACHE", "DEBUG", "CI", "VERBOSE")})
        elif f == "decoy":
            d = os.path.join(home, "decoy")
            os.makedirs(d, exist_ok=True)
            decoy(ctx, d)
            job["chdir"] = d
        elif f == "moved":
            job["chdir"] = "/"
        elif f == "umask":
            job["umask"] = 0o777
        elif f == "nofile":
            job["nofile"] = 40
        elif f == "thread":
            job["thread"] = True
        elif f == "spy":
            job["spy"] = draw
    jf = os.path.join(home, "job")
    with open(jf, "wb") as f:
        pickle.dump(job, f, 4)
    if os.path.exists(job["out"]):
        os.unlink(job["out"])
    kw = {} if closed else {"stdin": subprocess.DEVNULL, "stdout": subprocess.DEVNULL, "stderr": subprocess.PIPE}

    def shut():
        for fd in (0, 1, 2):
            try:
                os.close(fd)
            except OSError:
                pass

    p = subprocess.run([sys.executable] + flags + ["-c", CHILD % {"home": here, "job": jf}], cwd=cwd, env=env, timeout=80, preexec_fn=shut if closed else None, **kw)
    try:
        with open(job["out"], "rb") as f:
            return pickle.load(f)
    except (OSError, EOFError):
        raise Found("interpreter:start", "an interpreter started with %s does not get through (exit %s): %s" % (", ".join(feats), p.returncode, (p.stderr or b"").decode(errors="replace")[-400:]))
    finally:
        os.unlink(jf)
        if os.path.exists(job["out"]):
            os.unlink(job["out"])
