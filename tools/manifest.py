"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: "
TECH = {
    "C01": (T + "seeded histories of scenarios with disk faults and interruptions, judged against a model of the database", "disk faults, interruptions and clock jumps over histories of up to 40 steps"),
    "C02": (T + "seeded interleavings of reader and changing threads per bytecode instruction, history checked as regular registers", "schedules of up to 3 readers and one changer; thread switches only at pyBSM's own instructions and file accesses"),
    "C03": (T + "seeded disk faults before, during and between loads, judged against a model of the database", "fourteen kinds of damage, swapped in before or during a load, failing opens, interruptions"),
    "C04": (T + "seeded fault injection at every failing statement and file access, retries compared with a fresh process", "failures are exceptions raised before a statement of pyBSM that calls, computes or indexes, or by a file access; cleanup code itself is spared"),
    "C05": (T + "seeded call histories, each call compared with the same call in a freshly imported process", "histories of up to 30 calls (some of up to 90) over all public functions"),
    "C06": (T + "seeded interleavings of evaluations in up to three threads, results compared with each call alone", "thread switches at lines and (in part of the runs) instructions of pyBSM and at file accesses"),
    "C07": (T + "seeded random states, histories and failed simulations, frames replayed from the same state in a fresh process", "legacy NumPy generator states set, saved, restored and advanced at drawn points"),
    "C08": (T + "seeded random streams, frames tested against the moments of the noise model at seven standard deviations", "statistical: a deviation smaller than the tests resolve (about 1 % of the variance over a run) is not seen"),
    "C09": (T + "seeded histories, failures and interleavings under drawn process settings, the whole process state compared around each call", "the listed settings, read through Python, OpenCV, Matplotlib and /proc"),
    "C10": (T + "seeded environments and virtual clocks, in the running process and in new interpreters, compared with a standard one", "the environment features listed in the property, drawn at random"),
    "C11": (T + "seeded failures, full disks and kills, file and network operations recorded, the disk compared after each crash", "operations seen through Python's audit hooks, descriptors and mappings through /proc, the simulated machine's whole directory"),
    "C12": (T + "seeded ways for OpenCV to fail to import, calls compared with the process that has it", "six ways to fail; OpenCV itself is real or absent"),
    "C13": (T + "seeded copies, pickles, kills and restarts from checkpoints, compared with the uninterrupted run", "all pickle protocols, copies taken under drawn interleavings, campaigns of up to 8 steps killed up to three times"),
    "C14": (T + "seeded changes to single values of one object, every other object and result compared after each", "one attribute or element at a time over up to 20 objects and results"),
    "C16": (T + "seeded histories repeated round after round with other values, failures and schedules, memory and other resources counted after each", "12 rounds, 300 more where a count goes up; memory that OpenCV or other C code takes for itself is not counted"),
    "C17": (T + "seeded orders of imports with failures at drawn lines and file openings, retried, then compared with a plain import", "one process per run with third-party packages loaded; imports in one thread at a time"),
    "C18": (T + "seeded moments of forking and alternations of parent threads and worker processes, workers failing and killed, results compared with each call alone", "up to two workers of one parent with up to three threads; turns end at lines of pyBSM and file accesses"),
    "C19": (T + "seeded exceptions at drawn statements, file accesses and functions of the caller's, raised there or by signal handlers, alone and among interleaved threads; the very object has to come out", "exceptions arise before a statement of pyBSM that calls, computes or indexes, at a file access or in the caller's function; cleanup code itself is spared"),
    "C15": (T + "seeded drawing sessions with failing drawings, every artist of every figure compared with the result's values", "Agg canvas; drawings of the caller's own of seven kinds"),
}
NA = {
    "N01": "Pure arithmetic on the arguments of one call: no schedule, time, I/O, crash or history takes part, so simulation has nothing to control; it needs input-space testing or proof.",
    "N02": "An algebraic identity inside one call on its arguments; nothing nondeterministic takes part.",
    "N03": "A numerical identity of one deterministic transform; no schedule, fault or history takes part.",
    "N04": "Arithmetic on the arguments of one call; nothing for a simulator to schedule or to fail.",
    "N05": "Monotonicity of closed-form regressions over their inputs; no schedule, fault or history takes part.",
    "N06": "Closed-form geometry of three numbers; no schedule, fault or history takes part.",
    "N07": "Closed-form radiometry over its inputs; no schedule, fault or history takes part.",
    "N08": "A bound on the values of one pure call over its inputs; no schedule, fault or history takes part.",
    "N09": "Pointwise interpolation of one call's arguments; nothing nondeterministic takes part.",
    "N10": "Array shapes computed from one call's arguments; no schedule, fault or history takes part.",
    "N11": "Continuity in real-valued inputs; the dependence on the database's files, faults and histories is decided in C01 and C03, the rest is pure interpolation.",
    "N12": "Argument validation of single calls; no schedule, fault or history takes part (failures under faults are C03, C04 and C12).",
    "N13": "Pointwise arithmetic on one call's arguments; nothing nondeterministic takes part.",
}


def main():
    checks = []
    for p, (tech, note) in sorted(TECH.items()):
        checks.append(
            {
                "property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p, "technique": tech, "level": "exploration",
                "level_note": "Seeded search, not exhaustive: %s. Real pyBSM, NumPy, SciPy, OpenCV and CPython; the atmosphere database's contents are synthetic, and two internal grid sizes are reduced in most runs (see DESIGN.md)." % note,
            }
        )
    m = {
        "version": 1, "setup_cmd": "test -x ./check && python3 -m json.tool MANIFEST.json /dev/null", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": "No hooks in /repo: tracing, audit hooks and substituted modules are installed from outside. ./check ID --replay FILE repeats a violation. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
