"""What a freshly started interpreter does for C10: import pyBSM and answer queries."""
import os
import pickle
import sys


def main(job):
    if job["umask"] is not None:
        os.umask(job["umask"])
    if job["spy"] is not None:
        from . import envspy

        envspy.install(job["spy"])
    sys.path.insert(0, job["path"])
    import matplotlib

    matplotlib.use("Agg")
    from . import worker

    worker.GRID = job["grid"]
    worker.patch_grid()
    worker.patch_parse()
    import pybsm
    import pybsm.geospatial
    import pybsm.metrics
    import pybsm.noise
    import pybsm.otf
    import pybsm.radiance
    import pybsm.simulation
    import pybsm.utils  # noqa: F401

    if job["chdir"]:
        os.chdir(job["chdir"])
    if job["nofile"]:
        import resource

        resource.setrlimit(resource.RLIMIT_NOFILE, (job["nofile"], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    out = []

    def work():
        for q in job["queries"]:
            out.append(worker.answer(q))

    if job["thread"]:
        import threading

        t = threading.Thread(target=work)
        t.start()
        t.join()
    else:
        work()
    os.umask(0o022)
    with open(job["out"] + ".part", "wb") as f:
        pickle.dump(out, f, 4)
    os.rename(job["out"] + ".part", job["out"])
    os._exit(0)
