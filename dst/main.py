"""Runner: draws plans from the seed, runs them on the simulated machines, minimises
and reports violations, writes the evidence.

    check <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]
          [--runs N] [--seconds S] [--workers N] [--digests FILE]
"""
import argparse
import atexit
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import known, scratch  # noqa: E402
from .worker import recv, send  # noqa: E402


def clean_env(root, base):
    keep = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "LD_LIBRARY_PATH", "VIRTUAL_ENV")}
    mpl = os.path.join(root, "mpl")
    keep.update(
        OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", MPLCONFIGDIR=mpl, PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"), PYTHONPATH=HERE, HOME=os.path.join(base, "home"), TMPDIR=os.path.join(base, "tmp"), DST_HOME=HERE, PYTHONWARNINGS="ignore",
        OPENCV_LOG_LEVEL="ERROR",
    )
    return keep


def fixed_addresses():
    """No address space randomisation in the simulated machines (object identities repeat)."""
    try:
        import ctypes

        libc = ctypes.CDLL(None)
        libc.personality(libc.personality(0xFFFFFFFF) | 0x0040000)
    except (OSError, AttributeError):
        pass


class Worker:
    def __init__(self, root, i):
        self.i = i
        self.base = scratch.make_image(root, "w%d" % i)
        self.obase = os.path.join(root, "oracle")
        self.root = root
        self.start()

    def start(self):
        env = clean_env(self.root, self.base)
        self.p = subprocess.Popen([sys.executable, "-m", "dst.worker", "run", self.base, self.obase], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=0, cwd=HERE)
        self.ready = False
        self.job = None

    def restart(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()
        self.start()
        self.wait()

    def wait(self):
        try:
            assert recv(self.fd(), time.monotonic() + 120) == "ready"
        except (EOFError, TimeoutError, AssertionError):
            err = os.path.join(self.root, "w%d.stderr" % self.i)
            die("a simulated machine did not start (pyBSM does not import?)\n" + (open(err).read()[-3000:] if os.path.exists(err) else ""))
        self.ready = True

    def fd(self):
        return self.p.stdout.fileno()


class Pool:
    def __init__(self, root, n):
        self.root = root
        scratch.make_image(root, "oracle")
        self.ws = [Worker(root, i) for i in range(n)]
        for w in self.ws:
            w.wait()

    def map(self, jobs, stop=lambda: False):
        """Yield (job, result) as they finish; jobs: iterator of {"id","prop","plan"}."""
        it = iter(jobs)
        busy = {}
        done = False

        def feed(w):
            nonlocal done
            if done or stop():
                return
            try:
                j = next(it)
            except StopIteration:
                done = True
                return
            w.job = j
            b = pickle.dumps(j, 4)
            b = struct.pack("<Qd", len(b), j.get("timeout", 90)) + b
            w.t0 = time.monotonic()
            while b:
                b = b[os.write(w.p.stdin.fileno(), b) :]
            busy[w.fd()] = w

        for w in self.ws:
            feed(w)
        while busy:
            r, _, _ = select.select(list(busy), [], [], 300)
            if not r:
                die("simulated machines stopped answering")
            for fd in r:
                w = busy.pop(fd)
                j = w.job
                try:
                    out = recv(fd)
                except EOFError:
                    die("simulated machine %d died" % w.i)
                out["wall"] = time.monotonic() - w.t0
                if out.get("timeout") or (out.get("violation") or {}).get("class") == "progress":
                    w.restart()  # something that outlives a run may be left behind
                yield j, out
                feed(w)

    def close(self):
        for w in self.ws:
            try:
                w.p.stdin.close()
            except OSError:
                pass
        for w in self.ws:
            try:
                w.p.wait(5)
            except subprocess.TimeoutExpired:
                w.p.kill()


ROOT = None


def cleanup():
    global ROOT
    if ROOT and os.path.isdir(ROOT):
        shutil.rmtree(ROOT, ignore_errors=True)
    ROOT = None


def die(msg):
    sys.stderr.write("check: %s\n" % msg)
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        kill_all()
    finally:
        cleanup()
        os._exit(2)


POOL = None


def kill_all():
    if POOL is not None:
        for w in POOL.ws:
            try:
                w.p.kill()
            except OSError:
                pass


def seeded(prop, seed, i):
    h = hashlib.blake2b(("%s/%s/%d" % (prop, seed, i)).encode(), digest_size=8).hexdigest()
    return random.Random(int(h, 16))


def brief_plan(plan):
    s = json.dumps(plan)
    return plan if len(s) < 4000 else s[:4000] + " ..."


def run_one(pool, prop, plan, timeout=180):
    for _, out in pool.map([{"id": 0, "prop": prop, "plan": plan, "timeout": timeout}]):
        return out


# ------------------------------------------------------------------ minimisation


def minimise(pool, prop, plan, cls, budget=60.0):
    """Greedy removal over the plan's lists, several candidates at a time."""
    end = time.monotonic() + budget
    tries = 0

    def holders(p, path=()):
        """Paths of the lists whose items may be removed."""
        out = []
        for k in ("faults", "sched", "threads", "steps"):
            if k in p and isinstance(p[k], list):
                if k == "threads":
                    for i in range(len(p[k])):
                        out.append(("threads", i))
                else:
                    out.append((k,))
        return out

    def get(p, path):
        for k in path:
            p = p[k]
        return p

    def without(p, path, lo, hi):
        q = json.loads(json.dumps(p))
        lst = get(q, path)
        del lst[lo:hi]
        return q

    mod = importlib.import_module("dst.props." + prop.lower())
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in holders(plan):
            size = max(1, len(get(plan, path)) // 2)
            while size >= 1 and time.monotonic() < end:
                n = len(get(plan, path))
                cands = [(lo, min(n, lo + size)) for lo in range(0, n, size)][::-1]
                hit = None
                jobs = [{"id": c, "prop": prop, "plan": without(plan, path, *c)} for c in cands]
                for j, out in pool.map(jobs, stop=lambda: hit is not None or time.monotonic() > end):
                    tries += 1
                    v = out.get("violation")
                    if v and v["class"] == cls and (hit is None or j["id"] > hit[0]):
                        hit = (j["id"], j["plan"])
                if hit:
                    plan = hit[1]
                    changed = True
                    if n - (hit[0][1] - hit[0][0]) == 0:
                        break
                else:
                    size //= 2
        for f in getattr(mod, "simplify", lambda p: [])(plan):
            if time.monotonic() > end:
                break
            out = run_one(pool, prop, f)
            tries += 1
            v = out.get("violation")
            if v and v["class"] == cls:
                plan, changed = f, True
                break
    return plan, tries


# ------------------------------------------------------------------ main


def main(argv=None):
    global ROOT, POOL
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--digests")
    ap.add_argument("--only", type=int)
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    mod = importlib.import_module("dst.props." + prop.lower())
    if not os.path.isdir(os.path.join(scratch.REPO, "src/pybsm")):
        sys.stderr.write("no source tree at %s\n" % scratch.REPO)
        return 2
    t0 = time.monotonic()
    for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(s, lambda *_: die("interrupted"))
    atexit.register(cleanup)
    fixed_addresses()
    ROOT = scratch.make_root()
    scratch.make_store(ROOT)
    shutil.copy(os.path.join(scratch.REPO, "src/pybsm/atms/fileDecoder.csv"), os.path.join(ROOT, "pristine.csv"))
    mpl = os.path.join(ROOT, "mpl")
    os.makedirs(mpl)
    srcmpl = os.environ.get("MPLCONFIGDIR", "/opt/venv/mplconfig")
    if os.path.isdir(srcmpl):
        shutil.copytree(srcmpl, mpl, dirs_exist_ok=True)
    n = 1 if a.replay else a.workers
    try:
        POOL = Pool(ROOT, n)
    except SystemExit:
        raise
    if a.replay:
        rp = json.load(open(a.replay))
        out = run_one(POOL, prop, dict(rp["plan"], trace=True))
        kill_all()
        v = out.get("violation")
        if "harness" in out:
            sys.stderr.write(out["harness"])
            return 2
        for line in out.get("log") or []:
            print("  ", line)
        print("digest", out["digest"])
        if v:
            print("class:", v["class"])
            print("detail:", v["detail"])
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("the replay shows no violation")
        return 0

    tier = mod.TIERS[a.tier]
    runs = a.runs or tier["runs"]
    cap = a.seconds or tier["seconds"]
    kf = known.load(prop)
    stats, states, digests = collections.Counter(), set(), {}
    nontrivial = set()
    found, harness, knownhits, done = [], [], [], 0
    samples = []
    tstart = time.monotonic()

    def jobs():
        ids = [a.only] if a.only is not None else range(runs)
        for i in ids:
            if time.monotonic() - tstart > cap:
                return
            plan = mod.gen(seeded(prop, a.seed, i), i, a.tier)
            plan["seed"] = "%s/%s/%d" % (prop, a.seed, i)
            yield {"id": i, "prop": prop, "plan": plan, "timeout": tier.get("timeout", 90)}

    todo = jobs()

    def search():
        nonlocal done
        for j, out in POOL.map(todo, stop=lambda: bool(found) or len(harness) > 3):
            if "harness" in out:
                harness.append((j, out))
                continue
            done += 1
            stats.update(out["stats"])
            if os.environ.get("DST_TIMES"):
                sys.stderr.write("%d %.2f %r\n" % (j["id"], out["wall"], {k: v for k, v in out["stats"].items() if k.startswith("op:")}))
            states.update(tuple(s) if isinstance(s, list) else s for s in out["states"])
            digests[j["id"]] = out["digest"]
            if out["stats"].get("ok") or out["stats"].get("nontrivial"):
                nontrivial.add(out["digest"])
            if len(samples) < 4:
                samples.append({"seed": j["plan"]["seed"], "digest": out["digest"], "plan": brief_plan(j["plan"]), "stats": {k: out["stats"][k] for k in sorted(out["stats"]) if not k.startswith("op:")}})
            v = out["violation"]
            if v:
                hit = known.match(kf, v)
                if hit:
                    knownhits.append(hit)
                else:
                    found.append((j, v))

    plan, odd = None, []
    while True:
        search()
        if not found:
            break
        # the lowest seed that gives the same violation again
        for j, v in sorted(found, key=lambda x: x[0]["id"]) * 3:
            fv = run_one(POOL, prop, j["plan"]).get("violation")
            if fv:
                plan, v = j["plan"], fv
                break
        if plan is not None:
            break
        odd += [(j["plan"]["seed"], v) for j, v in found]
        del found[:]
        if len(odd) > 3:
            kill_all()
            die("violations that do not repeat: %r" % odd[:3])
    for seed, v in odd:
        sys.stderr.write("check: seed %s gave %r once and never again; not reported\n" % (seed, v))
    wall_search = time.monotonic() - tstart

    # runs that could not be judged: once more, alone and with more time, before anything is concluded
    for j, out in list(harness) if not found else []:
        again = run_one(POOL, prop, j["plan"], timeout=2 * j["timeout"])
        if again.get("timeout") and run_one(POOL, prop, j["plan"], timeout=2 * j["timeout"]).get("timeout"):
            found.append((j, {"class": "hang", "detail": "the run does not end within %d s" % (2 * j["timeout"]), "where": None}))
            plan, v = j["plan"], found[0][1]
            break
        if "harness" not in again:
            harness.remove((j, out))
            if again["violation"] and not known.match(kf, again["violation"]):
                found.append((j, again["violation"]))
                plan, v = j["plan"], again["violation"]
                break

    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(a.seed) if str(a.seed).isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE, "samples": samples,
            "runs_per_hour": round(done / wall_search * 3600) if wall_search else 0, "seeds_per_hour": round(done / wall_search * 3600) if wall_search else 0,
            "simulated_time": "%d virtual seconds (pyBSM asked for the time %d times), %d scheduler points, %d calls" % (stats["virtual seconds"], stats["clock read"], stats["points"], stats["calls"]),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")},
            "distinct_states": len(states), "state_measure": getattr(mod, "MEASURE", "distinct run digests"),
            "operations": {k[3:]: v for k, v in sorted(stats.items()) if k.startswith("op:")},
            "counters": {k: v for k, v in sorted(stats.items()) if ":" not in k},
            "real_code": "all of pyBSM, NumPy, SciPy, OpenCV, Matplotlib (Agg), the CPython interpreter, files on a scratch directory",
            "stubs": getattr(mod, "STUBS", "atmosphere database contents are synthetic (the repository's are LFS pointers); simulate_image's 1501-point frequency grid is reduced to 61 points except in runs marked full; locks made by pyBSM would be simulated ones"),
            "workers": n, "violations_not_repeatable": len(odd),
        },
        "wall_s": round(time.monotonic() - t0, 2),
    }
    code = 0
    report = None
    if found:
        tries = 0
        if v["class"] != "hang":
            plan, tries = minimise(POOL, prop, plan, v["class"], budget=tier.get("minimise", 40.0))
            last = run_one(POOL, prop, plan)
            v = last["violation"] or v
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, plan["seed"].replace("/", "_")))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": plan["seed"], "class": v["class"], "detail": v["detail"], "plan": plan}, f, indent=1)
        report = (v, path, tries)
        code = 1
    for w in sorted(set(knownhits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if not found:
        if harness:
            j, out = harness[0]
            kill_all()
            die("%d runs could not be judged; first (seed %s):\n%s" % (len(harness), j["plan"]["seed"], out["harness"]))
        need = tier.get("need", 1)
        if not done or stats["ok"] + stats["nontrivial"] < need:
            kill_all()
            die("nothing was exercised (%d runs, %d successful calls)" % (done, stats["ok"]))
        miss = [k for k in getattr(mod, "REQUIRED", []) if not stats[k]]
        if miss and a.only is None and not a.runs:
            kill_all()
            die("not exercised: %s" % ", ".join(miss))
    ev["coverage"]["violations"] = len(found)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.digests:
        with open(a.digests, "w") as f:
            for k in sorted(digests):
                f.write("%d %s\n" % (k, digests[k]))
    POOL.close()
    print("%s: %d runs (%d distinct), %d calls, %d states, %.1f s; faults: %s" % (
        prop, done, len(nontrivial), stats["calls"], len(states), time.monotonic() - t0, ", ".join("%s %d" % (k[6:], x) for k, x in sorted(stats.items()) if k.startswith("fault:")) or "none"))
    if report:
        v, path, tries = report
        print("class: %s" % v["class"])
        print("detail: %s" % v["detail"])
        print("minimised with %d extra runs; replay with: %s %s --replay %s" % (tries, os.path.join(HERE, "check"), prop, path))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return code


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback

        die(traceback.format_exc())
    cleanup()
    sys.stdout.flush()
    sys.exit(rc)
