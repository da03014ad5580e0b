M_REAL = ["edulint command line (edulint.main) in every simulated process", "edulint.versions.*", "edulint.explanations",
          "edulint.config.*", "requests/urllib3 response decoding and error mapping", "loguru", "tomli", "json", "dbm.dumb"]
M_STUB = ["sockets (requests' HTTPAdapter.send)", "PyPI and GitHub servers (models)", "file system under the data directory "
          "(in-memory, with fsync/journal/power-loss semantics)", "clock, sleep, random numbers, process ids", "thread scheduling "
          "(one baton)", "dbm back end pinned to dbm.dumb"]
ASSUME = ["one interpreter executes all simulated processes; module-level edulint state is swapped between them",
          "pre-emption happens at system-call seams and at line boundaries of edulint's housekeeping modules"]


def m(rule, q, t):
    return {"world": "maint", "runs": (q, t), "rule": rule, "real": M_REAL, "stub": M_STUB, "assumptions": ASSUME}


R = "seeded scenario of CLI runs, releases, publications, faults, kills, clock changes; non-trivial: "
PROPS = {
    p: m(R + "at least one run reached the network seam or was judged against the flag oracle", 1200, 20000)
    for p in ("C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10")
}


R_REAL = ["edulint.config.* (resolution, inheritance, download cache)", "edulint command line and linters for CLI clients",
          "requests/urllib3 response decoding and error mapping", "tomli", "json", "loguru"]
R_STUB = ["sockets (requests' HTTPAdapter.send)", "the servers publishing configurations (model)", "file system under the data "
          "directory (in-memory, with fsync/journal/power-loss semantics)", "clock, sleep, process ids", "thread scheduling"]
for p in ("C01", "C02"):
    PROPS[p] = {"world": "remote", "runs": (1500, 25000), "real": R_REAL, "stub": R_STUB, "assumptions": ASSUME,
                "rule": "seeded scenario of publications, library calls, sessions and CLI runs, outages, faults, kills, power "
                        "losses and clock jumps; non-trivial: at least one resolution of a remote configuration was judged"}
L_REAL = ["edulint from the command line / check_code down", "pylint, astroid, flake8, pycodestyle, pyflakes", "tomli", "loguru"]
L_STUB = ["the project's file system (in memory, fault points, seeded directory order)", "working directory", "clock",
          "thread scheduling", "signals", "standard output", "flake8's process pool (always serial)"]


L_ASSUME = ["a fork of the interpreter taken before the first check stands for a fresh process",
            "linters run serially inside the checking process (flake8's multiprocessing pool is not simulated)"]


def lint(q, t, rule):
    return {"world": "lint", "runs": (q, t), "real": L_REAL, "stub": L_STUB, "rule": rule, "assumptions": L_ASSUME}


PROPS["C11"] = lint(700, 12000, "seeded tree of files and configurations, seeded read/open/stat/listing failures; non-trivial: at least one failure was injected")
PROPS["C12"] = lint(700, 12000, "seeded tree, one keyboard interrupt / linter exception / disk error at a seeded point; non-trivial: it was delivered")
PROPS["C13"] = lint(250, 5000, "seeded sequence of edits, checks, aborted and failing checks in one process; non-trivial: at least two checks were compared")
PROPS["C14"] = lint(300, 6000, "seeded trees, 2-3 threads with seeded pre-emption; non-trivial: at least one pre-emption took place")
PROPS["C15"] = lint(250, 5000, "seeded tree, seeded directory orders and hash seeds; non-trivial: more than one file was checked")
PROPS["C16"] = lint(350, 7000, "seeded tree, arguments, working directory and listing order; non-trivial: more than one file was checked")
PROPS["C19"] = lint(700, 12000, "seeded tree, one linter exception / early exit / cut report / odd status; non-trivial: it took effect")
PROPS["C20"] = lint(400, 8000, "seeded tree and command, stdout failing at a seeded byte; non-trivial: the stream failed")
PROPS["C26"] = lint(300, 6000, "seeded tree and options, seeded encoding of stdout, linters failing at a seeded call; non-trivial: a problem was reported")
PROPS["C27"] = lint(500, 9000, "seeded tree and translations, seeded failing reads of language files; non-trivial: a problem was reported")
PROPS["C17"] = {"world": "local", "runs": (1500, 25000), "real": ["edulint.config.* (resolution, inheritance, groups, languages)",
    "tomli", "loguru"], "stub": ["the project's file system (in memory, fault points, seeded directory order)",
    "working directory", "failing reads of the packaged configurations"], "assumptions": L_ASSUME,
    "rule": "seeded chains of configurations, edits and failing reads in one process; non-trivial: a resolution was judged"}
PROPS["C25"] = {**PROPS["C17"], "runs": (2500, 40000)}
PROPS["C18"] = {"world": "proc", "runs": (10000, 200000), "real": ["edulint.linting.process_handler", "lint_in_subprocess", "loguru"],
    "stub": ["subprocess.Popen and the children (model of pipes, signals, exit, helpers holding the pipes)", "clock",
             "signals to the caller", "thread scheduling", "atexit"],
    "assumptions": ["the model of subprocess.Popen agrees with CPython's (checked against real children by tools/popen_check.py)"],
    "rule": "seeded scripts of children, limits, concurrent callers, stalls of the caller; non-trivial: a call was judged"}
PROPS["C28"] = {"world": "files", "runs": (700, 12000), "real": M_REAL + ["linters (pylint, flake8)"],
    "stub": M_STUB + ["the project's files and the folder for temporary files"], "assumptions": ASSUME,
    "rule": "seeded project and command lines with awkward remote addresses, faults, kills, power losses; non-trivial: a run "
            "came to its ordinary end"}
for p in ("C10", "C14", "C18"):
    PROPS[p]["timeout_is_violation"] = True
PROPS = dict(sorted(PROPS.items()))
