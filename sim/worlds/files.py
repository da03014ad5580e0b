"""What EduLint's runs do to the disk: checks of a project, explanations, versions, remote files with awkward addresses.

Simulated: the project and the user's other files, the data folder, the folder for temporary files (a file system of its
own), servers, network, clock, disk faults, kills, power losses, concurrent runs.
Real: the whole command line and the library's check_code with the linters.
Oracle: every change of the disk is judged at the moment it is attempted, and all files are compared at the end of a run.
"""

import os

from .common import *  # noqa: F403
from .common import V, DATA
from . import common, lint, maint

PROJ, FLAGS = lint.PROJ, lint.FLAGS
OWN = DATA + "/"
CACHE = "/simfs/home/.cache/"
TMP = "/simfs/tmp/"
HOST = "conf.test"
PATHS = ["conf.toml", "team/conf.toml", "../proj/x.toml", "../../../proj/edulint.toml", "..", ".", "", "a/../../b.toml",
         "%2e%2e/%2e%2e/conf.toml", "explanations_online.toml", "explanations.toml", "versions.json", "edulint.toml",
         "c?x=/../../../../proj/hw.py", "~/conf.toml", "a\\..\\..\\b.toml", "x" * 300, "t%C3%BDm/conf", "//simfs/proj/edulint.toml",
         "con:fig.toml", "conf.toml.metadata", "conf.toml.tmp", "$HOME/conf.toml", "a b.toml", "simfs/proj/edulint.toml"]
USER = {"/simfs/home/notes.txt": b"my notes\n", "/simfs/home/.config/pylintrc.bak": b"[MAIN]\n", "/simfs/home/.local/share/other/data": b"1",
        "/simfs/home/edulint.toml": b"flake8 = \"--max-line-length=99\"\n", "/simfs/etc/conf": b"x"}


def warm(prop):
    lint.warm(prop)
    common.warm_state()


def gen(rng, prop, tier):
    faulty = rng.random() < 0.6
    files = lint.tree(rng, nfiles=(1, 3), broken=0.1, own_langs=0.1)
    cfg = {"p_fault": {}, "budget": {}}
    if faulty:
        en = swarm(rng, DISK, 0.5) + swarm(rng, SHORT, 0.5)
        for k in ("read", "write", "create", "open", "rename", "unlink", "mkdir", "fsync", "stat", "listdir"):
            cfg["p_fault"][k] = rng.choice([0.003, 0.02, 0.1])
        if rng.random() < 0.5:
            en += swarm(rng, ["net:dns", "net:stall", "net:reset_body", "net:http404", "net:http500", "net:garbage", "net:html200"], 0.5)
            cfg["p_fault"]["net"] = rng.choice([0.1, 0.4])
        if rng.random() < 0.4:
            en += TORN
            cfg["budget"]["kill"] = rng.randint(1, 2)
            cfg["p_kill"] = rng.choice([0.001, 0.01])
        cfg["enabled"] = sorted(set(en))
        cfg["fault_under"] = rng.choice([DATA, DATA, PROJ, None])
        if cfg["fault_under"] != DATA:  # a check touches the project's files very often
            for k in cfg["p_fault"]:
                if k != "net":
                    cfg["p_fault"][k] = 0.003
        if rng.random() < 0.15:
            cfg["readonly_data"] = rng.choice([1, 2])
    if rng.random() < 0.5:
        cfg["p_switch"], cfg["p_pick"] = 0.2, 0.3
    acts = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        procs = []
        for _ in range(1 if rng.random() < 0.8 else 2):
            flags = FLAGS if rng.random() < 0.6 else rng.choice([[], FLAGS[:1], FLAGS[1:]])
            r = rng.random()
            if r < 0.62 and not any(p["argv"][0] == "check" for p in procs):
                opts = list(rng.choice(lint.OPTS))
                if rng.random() < 0.6:
                    url = rng.choice(["http", "https"]) + "://" + HOST + rng.choice(["/", "/", ":8080/", "//"]) + rng.choice(PATHS)
                    opts.append(rng.choice(["config-file", "config-file", "language-file"]) + "=" + url)
                argv = ["check"] + (["--json"] if rng.random() < 0.4 else []) + flags
                argv += [x for o in opts for x in ("-o", o if "\\" not in o and " " not in o else "'" + o + "'")]
                argv += lint.choose_args(rng, files)
            elif r < 0.85:
                argv = ["explain"] + rng.choice([["all"], ["W0101"], ["R1705", "nonsense"]]) + (["--json"] if rng.random() < 0.5 else []) + flags
            else:
                argv = ["version"] + flags
            procs.append({"argv": argv})
        acts.append({"a": "run", "p": procs})
        if faulty and rng.random() < 0.08:
            acts.append({"a": "power"})
        acts.append({"a": "sleep", "s": rng.choice([0, 1, 301, 700, 4000, 86400, 86400 * 40, 86400 * 400])})
    return {"cfg": cfg, "files": files, "actions": acts}


def simpler(sc):
    for i, a in enumerate(sc["actions"]):
        if a["a"] == "run":
            if len(a["p"]) > 1:
                for j in range(len(a["p"])):
                    yield {**sc, "actions": sc["actions"][:i] + [{**a, "p": a["p"][:j] + a["p"][j + 1:]}] + sc["actions"][i + 1:]}
    for p in sorted(sc["files"]):
        if len(sc["files"]) > 1:
            yield {**sc, "files": {q: t for q, t in sc["files"].items() if q != p}}
    if sc["cfg"].get("readonly_data"):
        yield {**sc, "cfg": {**sc["cfg"], "readonly_data": 0}}


def allowed(kind, path):
    if path.startswith((OWN, CACHE, TMP)) and os.path.normpath(path) == path:
        return True
    return kind == "mkdir" and ((OWN.startswith(path + "/")) or CACHE.startswith(path + "/"))


def run(sim, sc, prop):
    viols = []
    common.attach(sim)
    for p in sc["files"]:
        sim.vfs.put(f"{PROJ}/{p}", sc["files"][p].encode())
    for p, d in USER.items():
        sim.vfs.put(p, d)
    sim.vfs.sync_all()
    conf = b'allowed-onechar-names = "ij"\n[flake8]\nmax-line-length = 90\n[language-translations]\nF841 = "remote {0}"\n'
    lang = b'F841 = "lang {0}"\n'
    n = [0]

    def serve(u, req):
        n[0] += 1
        sim.probes["remote_file_served"] += 1
        return 200, {"Content-Type": "text/plain"}, conf + b"# %d\n" % n[0] if "lang" not in u.path else lang

    releases = [{"v": "4.3.1"}, {"v": "9.9.9"}]
    sim.net.hosts = {
        HOST: serve,
        maint.PYPI: lambda u, r: (200, {"Content-Type": "application/json"}, maint.pypi_body(releases)),
        maint.GH: lambda u, r: (200, {"Content-Type": "text/plain; charset=utf-8"}, maint.expl_body(1, False)),
    }
    before = snapshot(sim)
    updates = set()  # the files of the update checks

    def on_change(task, kind, path):
        sim.probes["changes_judged"] += 1
        if not allowed(kind, path):
            viols.append(V("outside", f"`{' '.join(task.proc.argv)}`: {kind} of {path}"))

    sim.on_change = on_change
    k = 0
    for act in sc["actions"]:
        if sim.stop:
            break
        if act["a"] == "sleep":
            sim.advance(act["s"])
        elif act["a"] == "power":
            common.power_loss(sim, str(k))
        else:
            sim.faults_on = True
            stored = own(sim)
            procs = []
            for spec in act["p"]:
                k += 1
                fn, av = common.cli([a for a in spec["argv"] if a != ""])
                p = sim.new_proc(f"p{k}", fn, av)
                p.cwd = PROJ
                procs.append(p)
            sim.drain()
            for p in procs:
                if p.exit in (0, 1):
                    sim.nontrivial = True
            if sim.escapes:
                viols.append(V("real", f"{[p.argv for p in procs]}: changes {sim.escapes[0]}"))
                sim.escapes.clear()
            if not any(p.killed for p in procs):
                left = [f for f in sim.vfs.files() if f.startswith(TMP)]
                if left:
                    viols.append(V("left", f"{[p.argv for p in procs]}: leaves {left[0]} behind"))
            now = own(sim)
            changed = [f for f in sorted(set(now) | set(stored)) if now.get(f) != stored.get(f)]
            if not any(HOST in a for p in procs for a in p.argv):
                updates.update(changed)
            if all(set(FLAGS) <= set(p.argv) for p in procs):
                for f in changed:
                    if f in updates:
                        viols.append(V("updates", f"{[p.argv for p in procs]}: {f} is changed although nothing is to be updated"))
                    elif f in stored and f.endswith(".toml"):
                        sim.probes["cached_file_replaced"] += 1
    now = snapshot(sim)
    if now != before:
        d = [f for f in sorted(set(now) | set(before)) if now.get(f) != before.get(f)]
        viols.append(V("outside", f"{d[0]} is not what it was before the runs"))
    return viols


def snapshot(sim):
    return {p: sim.vfs.read_bytes(p) for p in sim.vfs.files() if not p.startswith((OWN, CACHE, TMP))}


def own(sim):
    return {p: sim.vfs.read_bytes(p) for p in sim.vfs.files() if p.startswith(OWN)}
