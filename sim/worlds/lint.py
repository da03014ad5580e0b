"""Checking files: trees of files and configurations, failing reads, crashing linters, interrupts, threads, long-lived
processes, hostile directory order, failing output.

Simulated: the project's file system (in memory, with fault points), the working directory, directory order, thread
scheduling, keyboard interrupts, exceptions at chosen points of a linter, the process's output stream, clock.
Real: edulint from the command line down, pylint, astroid, flake8, pycodestyle, pyflakes, tomli, loguru.
Oracle: the same check, fault-free and alone, in a fork of the interpreter taken before anything was checked
("fresh process"); plus, for C16, markers that every file carries and an independent model of which configuration
applies to it.
"""

import io
import json
import os
import pickle
import random
import sys
import importlib
from collections import Counter

from .common import *  # noqa: F403
from .common import V
from . import common
from .. import hashserver

PROJ = seams.PROJ
FLAGS = ["--disable-version-check", "--disable-explanations-update"]
FAILED = {"E902", "F0001", "F0002", "F0010", "E999", "E0001"}


def warm(prop):
    import pkgutil
    import edulint.edulint  # noqa
    import pylint.checkers
    import pylint.lint.run  # noqa
    import pylint.lint.pylinter  # noqa
    import pylint.reporters.json_reporter  # noqa
    import astroid.constraint  # noqa
    import edulint.linting.checkers
    import edulint.linting.analyses.patcher  # noqa
    import edulint.linting.analyses.variable_scope  # noqa
    import flake8.main.application  # noqa
    import flake8.formatting.default  # noqa
    import pycodestyle  # noqa
    import pyflakes.checker  # noqa
    import mccabe  # noqa

    for pkg in (pylint.checkers, edulint.linting.checkers):
        for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
            importlib.import_module(m.name)
    for n in ("flake8_json_reporter.reporters", "flake8.plugins.pyflakes", "flake8.plugins.pycodestyle", "flake8.checker",
              "flake8.style_guide"):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    common.cheaper_logger()
    mods = linter_modules()
    if prop == "C14":
        mine = common.edulint_modules(exclude=("edulint.linting.analyses", "edulint.options",
                                               "edulint.prepare_explanations", "edulint.linters", "edulint.versions",
                                               "edulint.explanations"))
        seams.monitor_lines(mine + mods["lint"], skip=("setup_argparse", "format_options_help", "extract_line",
                                                       "get_overriders", "get_tweakers", "setup_logger",
                                                       "is_message_enabled", "_get_message_state_scope", "_set_msg_status",
                                                       "_get_messages_to_set", "_set_one_msg_status", "register_checker"))
    if prop == "C12":
        seams.monitor_calls(common.edulint_modules(exclude=("edulint.linting.analyses", "edulint.prepare_explanations"))
                            + mods["lint"] + mods["deep"])
    if prop == "C19":
        seams.monitor_calls(mods["lint"] + mods["deep"])


def worker_start(prop):
    if prop == "C15":
        hashserver.start()


def linter_modules():
    """lint: the linters' outer layers; deep: where a bug in a checker would show."""
    lint, deep = [], []
    for n, m in sorted(sys.modules.items()):
        if m is None:
            continue
        if n.startswith(("pylint.lint.", "flake8.main.", "pylint.reporters.", "flake8_json")) or n in (
                "flake8.checker", "flake8.style_guide", "pylint.config.config_initialization"):
            lint.append(m)
        elif n.startswith(("pylint.checkers.", "edulint.linting.checkers.", "edulint.linting.analyses.patcher")) or n in (
                "pylint.utils.ast_walker", "flake8.processor", "pycodestyle", "pyflakes.checker", "astroid.builder"):
            deep.append(m)
    return {"lint": lint, "deep": deep}


# ------------------------------------------------------------------------------------------------ program texts
SNIPS = [
    "def walk{u}(items{u}):\n    for i in range(len(items{u})):\n        print(items{u}[i])\n",
    "def spare{u}():\n    left{u} = 1\n    return 2\n",
    "l = {n}\n",
    "def cond{u}(a{u}):\n    if a{u} == True:\n        return True\n    else:\n        return False\n",
    "def loop{u}(n):\n    while True:\n        n += 1\n        if n > {n}:\n            break\n    return n\n",
    "def build{u}(x=[]):\n    x = x + [{n}]\n    return x\n",
    "import os, sys\n",
    "def wide{u}():\n    return 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{n}'\n",
    "def quiet{u}():\n    gone{u} = 1  # noqa\n    kept{u} = 2\n    return 3\n",
    "def tell{u}(text):\n    text = text  # pylint: disable=self-assigning-variable\n    other = text\n    other = other\n    return other\n",
    "class Žába{u}:\n    def __init__(this):\n        this.jméno = 'žluťoučký {n}'\n",
    "def pairs{u}(d):\n    for k in d.keys():\n        print(k, d[k])\n",
    "def deep{u}(x):\n    if x > 1 and x > 2:\n        x = x * x\n    return not x == {n}\n",
    "def eat{u}():\n    try:\n        pass\n    except:\n        pass\n",
]


def program(rng, uid, n=None, broken=0.0, head=()):
    if rng.random() < broken:
        return "def bad%d(:\n    pass\n" % uid
    out = list(head)
    for j in range(n or rng.randint(1, 3)):
        out.append(rng.choice(SNIPS).format(u=f"_{uid}_{j}", n=uid * 10 + j))
    # every file can be told from the others
    out.append(f"def mark_{uid}():\n    unused_{uid} = {uid}\n    return 0\n")
    return "\n\n".join(out)


OPTS = [
    [], [], [],
    ["config-file=empty"], ["config-file=cs0"], ["config-file=cs1"],
    ["pylint=--enable=missing-function-docstring"], ["flake8=--extend-select=W,C9 --max-complexity=2"],
    ["set-groups=enhancement,python-specific"], ["no-flake8"], ["allowed-onechar-names=l"],
    ["ignore-infile-config-for=all"], ["ignore-infile-config-for=flake8,pylint"], ["disallowed-builtin-names=x"],
]
INFILE = [
    "pylint=--enable=missing-function-docstring", "flake8=--extend-ignore=F841", "flake8=--extend-ignore=E501,E225",
    "set-groups=enhancement", "config-file=cs0", "config-file=empty", "allowed-onechar-names=lx", "no-flake8",
    "pylint=--disable=C0103", "set-groups=python-specific,complexity", "flake8=--max-line-length=50 flake8=--extend-select=E501",
]


def toml(rng, cid, parent=None, lang=None):
    out = []
    if parent:
        out.append(f'config-file = "{parent}"')
    if lang:
        out.append(f'language-file = "{lang}"')
    if rng.random() < 0.5:
        out.append(f'default-enabler-name = "conf{cid}"')
    if rng.random() < 0.4:
        out.append('set-groups = ["enhancement"]')
    if rng.random() < 0.4:
        out.append(f'allowed-onechar-names = "{rng.choice(["", "l", "ix"])}"')
    out += ["[pylint]", 'enable = ["missing-function-docstring"]' if rng.random() < 0.5 else f"max-locals = {cid + 15}"]
    out += ["[flake8]", 'extend-select = ["F841"]']
    if rng.random() < 0.3:
        out.append('extend-ignore = ["E501"]')
    out += ["[language-translations]", f'F841 = "conf {cid}: proměnná {{0}} nepoužita"']
    if rng.random() < 0.5:
        out.append(f'C0116 = "conf {cid}: bez dokumentace"')
    return "\n".join(out) + "\n"


def tree(rng, depth=2, nfiles=(2, 5), infile=0.45, configs=0.6, langs=0.3, broken=0.05, other=0.3, packages=0.2, names=(),
         own_langs=0.0, inherit=0.15):
    """-> {relative path: text}; plus how each file was configured (for the independent model)."""
    dirs = [""]
    for _ in range(rng.randint(0, 4)):
        d = rng.choice(dirs)
        if d.count("/") < depth:
            name = rng.choice(["alpha", "beta", "gamma", "hw1", "src", "úkol", "a b", *names])
            d2 = d + name + "/"
            if d2 not in dirs:
                dirs.append(d2)
    files, confs = {}, []
    cid = [0]

    def new_conf(path, allow_parent=True):
        cid[0] += 1
        lang = None
        shared = [p for p in files if os.path.basename(p).startswith("lang")]
        if shared and rng.random() < langs:  # one that another configuration uses, too
            lang = "./" + os.path.relpath("/r/" + rng.choice(shared), "/r/" + os.path.dirname(path))
        elif rng.random() < langs:
            lp = os.path.join(os.path.dirname(path), f"lang{cid[0]}.toml")
            files[lp] = f'F841 = "lang {cid[0]}: {{0}} zbytečná"\n'
            lang = f"./lang{cid[0]}.toml"
        parent = rng.choice([None, None, "empty", "default"])
        if rng.random() < inherit:  # from another one, relative to its own place
            others = [p for p in files if "edulint.toml" in p or "conf-" in p or "base" in p]
            if not others or rng.random() < 0.5:
                others = [rng.choice(dirs) + rng.choice(["base.toml", "base.toml", f"base{cid[0]}.toml"])]
                cid[0] += 1
                files.setdefault(others[0], toml(rng, cid[0]))
            parent = os.path.relpath("/r/" + rng.choice(others), "/r/" + os.path.dirname(path))
        files[path] = toml(rng, cid[0], parent if allow_parent else None, lang)
        return path

    if rng.random() < configs:
        for _ in range(rng.randint(1, 2)):
            d = rng.choice(dirs)
            p = d + rng.choice(["edulint.toml", ".edulint.toml"])
            if p not in files:
                new_conf(p)
    if rng.random() < configs:
        for _ in range(rng.randint(1, 2)):
            confs.append(new_conf(rng.choice(dirs) + f"conf-{len(confs)}.toml"))
    n = rng.randint(*nfiles)
    pys = []
    for i in range(n):
        d = rng.choice(dirs)
        name = rng.choice(["main", "util", "test_it", "x", "modul", "Big", "řešení"]) + rng.choice(["", "", str(i)]) + rng.choice(
            [".py"])
        p = d + name
        if p in files:
            p = d + f"file{i}.py"
        head = []
        if rng.random() < infile:
            r = rng.random()
            if confs and r < 0.5:
                c = rng.choice(confs)
                rel = os.path.relpath("/r/" + c, "/r/" + d)
                head.append(f'# edulint: "config-file={rel}"')
            else:
                for o in rng.sample(INFILE, rng.randint(1, 2)):
                    head.append("# edulint: " + (o if "=--" in o and " " in o else json.dumps(o)))
        if own_langs and rng.random() < own_langs:
            lp = rng.choice(dirs) + f"lang-own{i}.toml"
            files[lp] = f'F841 = "lang own {i}: {{0}} navíc"\n'
            head.append("# edulint: " + json.dumps("language-file=./" + os.path.relpath("/r/" + lp, "/r/" + d), ensure_ascii=False))
        files[p] = program(rng, i + 1, broken=broken, head=["\n".join(head)] if head else [])
        pys.append(p)
    for d in dirs:
        if d and rng.random() < packages and any(p.startswith(d) for p in pys):
            files.setdefault(d + "__init__.py", "")
    if rng.random() < other:
        files[rng.choice(dirs) + "notes.txt"] = "x = = 1\n"
        files[rng.choice(dirs) + "README"] = "# edulint: config-file=nothing\n"
    return files


def choose_args(rng, files):
    """Distinct arguments that do not contain one another."""
    pys = [p for p in files if p.lower().endswith(".py")]
    dirs = sorted({p.rsplit("/", 1)[0] for p in files if "/" in p})
    r = rng.random()
    if r < 0.3:
        return ["."]
    picked = []
    for c in rng.sample(dirs + pys, min(len(dirs) + len(pys), rng.randint(1, 4))):
        if not any(c == q or c.startswith(q + "/") or q.startswith(c + "/") for q in picked):
            picked.append(c)
    return picked or ["."]


# ------------------------------------------------------------------------------------------------ generators
def gen(rng, prop, tier):
    return globals()["gen_" + prop](rng, tier)


def choose_spelling(rng):
    r = rng.random()
    return True if r < 0.25 else False if r < 0.75 else rng.randint(2, 10**6)


def base_sc(rng, **kw):
    files = tree(rng, **kw)
    dirs = [""] + sorted({p.rsplit("/", 1)[0] for p in files if "/" in p})
    cwd = rng.choice(["", "", rng.choice(dirs)])
    return {"cfg": {"dir_order": rng.randint(1, 10**6)}, "files": files, "cwd": cwd, "args": choose_args(rng, files),
            "opts": rng.choice(OPTS), "abs": choose_spelling(rng), "actions": []}


PAIRS = [  # one of them has a problem on the line on which the other has one overriding it
    ["    l = {n}\n    return 2\n", "    l = {n}\n    return l\n"],
    ["    L = {n}\n    return 2\n", "    L = {n}\n    return L\n"],
    ["    print({n})\n    pass\n", "    return {n}\n    pass\n"],
    ["    if l:\n        return {n}\n    else:\n        return 2\n", "    if l:\n        return True\n    else:\n        return False\n"],
]


def twins(rng, sc):
    """Files of one name and almost the same content, in several folders, under one configuration."""
    name = rng.choice(["main.py", "a.py"])
    files = {p: t for p, t in sc["files"].items() if not p.endswith(".py")}
    dirs = sorted({"", *(os.path.dirname(p) + "/" for p in sc["files"] if "/" in p), "copy/"})
    picked = rng.sample(dirs, min(len(dirs), rng.randint(2, 3)))
    shape = [rng.randrange(len(PAIRS)) for _ in range(rng.randint(1, 3))]
    for i, d in enumerate(picked):
        out = [f"def twin{j}(l):\n" + rng.choice(PAIRS[k]).format(n=j + 3) for j, k in enumerate(shape)]
        out.append(f"def mark_{i + 1}():\n    unused_{i + 1} = {i + 1}\n    return 0\n")
        files[d + name] = "\n\n".join(out)
    if rng.random() < 0.3:  # of different names
        files["other.py"] = files.pop(picked[0] + name)
    if rng.random() < 0.7:
        files = {p: t for p, t in files.items() if not p.endswith("edulint.toml")}
    sc["files"], sc["args"], sc["cwd"] = files, ["."], ""
    sc["opts"] = rng.choice([[], ["config-file=empty", "allowed-onechar-names=x", "flake8=--extend-select=F841",
                                  "pylint=--enable=C0103,C0104,W0107,W0101,R1705,R1703,R6201"],
                             ["allowed-onechar-names=x"], ["pylint=--enable=all", "pylint=--disable=R0801"]])


def gen_C16(rng, tier):
    sc = base_sc(rng, nfiles=(2, 4 if tier == "quick" else 7), names=("hw10", "beta2"), own_langs=0.25,
                 langs=rng.choice([0.3, 0.8]))
    sc["mode"] = rng.choice(["api", "api", "cli"])
    if rng.random() < 0.6:
        sc["opts"] = []
    if rng.random() < 0.2:
        twins(rng, sc)
    if rng.random() < 0.06:  # packages next to and around folders that are none
        p = rng.choice(["hw1", "beta", "lib"])
        for q in (p + "/__init__.py", p + "0/extra.py", p + "/inner/extra.py"):
            sc["files"].setdefault(q, "def undocumented():\n    return 1\n" if q.endswith("extra.py") else "")
        sc["args"] = ["."]
        sc["cwd"] = ""
        sc["opts"] = ["pylint=--enable=missing-function-docstring"]
    return sc


def gen_C15(rng, tier):
    sc = base_sc(rng, nfiles=(2, 5))
    if rng.random() < 0.5:
        sc["opts"] = []
    if rng.random() < 0.2:  # what is complained about
        sc["opts"] = sc["opts"] + rng.sample(["set-groups=nosuch", "set-groups=enhancement,nosuch,other", "unknown=1,2",
                                              "ignore-infile-config-for=flake8,nosuch,other", "pylint=--enable=nosuch,other",
                                              "flake8=--extend-select=nosuch", "pylint=--nosuch --other"], 2)
    sc["variants"] = [{"dir_order": rng.randint(1, 10**6), "hash": rng.choice([None] + hashserver.POOL),
                       "json": rng.random() < 0.7} for _ in range(3 if tier == "quick" else 6)]
    return sc


def gen_C11(rng, tier):
    sc = base_sc(rng, nfiles=(1, 4), langs=0.0, broken=0.0)
    if rng.random() < 0.7:
        sc["opts"] = rng.choice([[], ["config-file=empty"], ["no-flake8"], ["config-file=cs0"]])
    sc["mode"] = rng.choice(["api", "cli", "cli"])
    if rng.random() < 0.2:  # the comments to be ignored are looked for in the files
        sc["opts"] = sc["opts"] + ["ignore-infile-config-for=" + rng.choice(["all", "flake8,pylint", "flake8", "edulint"])]
        for f in sc["files"]:
            if f.endswith(".py") and rng.random() < 0.7:
                sc["files"][f] += "\n\nimport sys  # noqa\n"
        if rng.random() < 0.7:
            sc["args"], sc["cwd"] = ["."], ""
    ignoring = any("ignore-infile" in o for o in sc["opts"])
    cfg = sc["cfg"]
    cfg["fault_under"] = PROJ
    cfg["sticky"] = rng.random() < 0.6
    cfg["sticky_kinds"] = ["data"]
    cfg["enabled"] = swarm(rng, ["open:EIO", "open:EACCES", "open:EMFILE", "read:EIO", "read:short", "stat:EACCES", "stat:EIO",
                                 "listdir:EIO", "listdir:EACCES"], 0.5)
    if ignoring:  # nothing looks at the files before the linters do
        cfg["enabled"] = [f for f in cfg["enabled"] if not f.startswith("stat")]
    p = rng.choice([0.01, 0.03, 0.1])
    cfg["p_fault"] = {k: p for k in ("open", "read", "stat")}
    cfg["p_fault"]["listdir"] = rng.choice([p, 0.1, 0.3])
    if rng.random() < 0.15:  # files without the permission to read them
        sc["locked"] = rng.sample(sorted(sc["files"]), rng.choice([1, 1, 2]) if len(sc["files"]) > 1 else 1)
    if rng.random() < 0.12:  # an argument that is not there
        f = rng.choice(sorted(sc["files"]))
        sc["missing"] = [rng.randrange(9), rng.choice([f + "x", os.path.join(os.path.dirname(f), "no.py"), "nowhere", "nowhere/no.py", f + "/no.py",
                                                       os.path.splitext(f)[0], f.upper()])]
        if rng.random() < 0.6:
            sc["files"] = {k: "def fun():\n    return 1\n" if k.endswith(".py") else t for k, t in sc["files"].items()}
    return sc


def gen_C12(rng, tier):
    sc = base_sc(rng, nfiles=(1, 2), broken=0.1)
    r = rng.random()
    if r < 0.6:
        sc["interrupt"] = round(rng.random(), 6)
        sc["early"] = rng.random() < 0.3
    elif r < 0.85:
        sc["crash"] = [round(rng.random(), 6), rng.choice(CRASHES), rng.choice(["lint", "deep", "all"])]
    else:
        cfg = sc["cfg"]
        cfg["fault_under"] = PROJ
        cfg["enabled"] = ["open:EIO", "read:EIO", "stat:EACCES", "listdir:EIO", "open:EACCES"]
        cfg["p_fault"] = {k: 0.05 for k in ("open", "read", "stat", "listdir")}
    return sc


CRASHES = ["RuntimeError", "MemoryError", "RecursionError", "OSError", "AttributeError", "SystemExit:0", "SystemExit:1",
           "SystemExit:2", "SystemExit:32", "SystemExit:None", "SystemExit:text", "AstroidBuildingError", "KeyError",
           "UnicodeDecodeError"]


def gen_C19(rng, tier):
    sc = base_sc(rng, nfiles=(1, 2), broken=0.0, langs=0.0)
    if rng.random() < 0.75:
        sc["opts"] = rng.choice([[], [], ["config-file=empty"], ["no-flake8"], ["config-file=cs1"]])
    sc["mode"] = rng.choice(["api", "cli"])
    r = rng.random()
    if r < 0.55:
        sc["crash"] = [round(rng.random(), 6), rng.choice(CRASHES), rng.choice(["lint", "lint", "deep"])]
    elif r < 0.9:
        sc["report"] = {"who": rng.choice(["flake8", "pylint"]), "keep": rng.choice([0.0, round(rng.random(), 4), 1.0]),
                        "code": rng.choice([None, None, "0", "1", "2", "32", "text", "None"]), "junk": rng.random() < 0.2}
        if rng.random() < 0.35:  # a complete report, an odd end
            sc["report"] = {"who": rng.choice(["flake8", "flake8", "pylint"]), "keep": 1.0, "junk": False,
                            "code": rng.choice(["2", "32", "text"])}
    else:
        sc["opts"] = [rng.choice(["pylint=--version", "pylint=--list-msgs", "flake8=--version", "pylint=--no-such-option",
                                  "flake8=--no-such-option", "flake8=--bug-report", "pylint=--generate-rcfile",
                                  "pylint=--help", "flake8=--help"])]
        bad = sc["opts"][0]
        if rng.random() < 0.4:  # the same, from within a file
            p = rng.choice([p for p in sc["files"] if p.lower().endswith(".py")])
            sc["files"][p] = f'# edulint: "{sc["opts"][0]}"\n' + sc["files"][p]
            sc["opts"], sc["args"], sc["cwd"] = [], [p], ""
        sc["bad_option"] = bad
    return sc


def gen_C13(rng, tier):
    files = tree(rng, nfiles=(2, 4), broken=0.08, own_langs=0.15)
    uid = 50
    helper = rng.random() < 0.6
    if helper:
        files["helper.py"] = helper_text(1, rng.random() < 0.5)
        files["user.py"] = "import helper\n\n\ndef use():\n    return helper.one() + helper.two()\n"
        files["other.py"] = "from helper import two\n\n\ndef use_two():\n    return two()\n"
    pys = [p for p in files if p.lower().endswith(".py")]
    steps = []
    moves = rng.choice([0, 0.5, 0.9])
    rev = 1
    now = dict(files)
    for _ in range(rng.randint(2, 4 if tier == "quick" else 7)):
        edits = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            uid += 1
            for e in edits:
                now[e[0]] = e[1]
            if rng.random() < 0.3:  # as long as before, and perhaps with the times as before, too
                p = rng.choice(sorted(p for p in now if now[p] and p.endswith((".py", ".toml"))) or pys)
                edits.append([p, same_length(rng, now[p] or ""), rng.random() < 0.5])
                continue
            if helper and r < 0.4:
                rev += 1
                edits.append(["helper.py", helper_text(rev, rng.random() < 0.5)])
            elif r < 0.65:
                edits.append([rng.choice(pys), program(rng, uid, broken=0.1)])
            elif r < 0.8:  # a configuration appears or disappears
                d = os.path.dirname(rng.choice(pys))
                d = d if rng.random() < 0.6 else os.path.dirname(d)
                edits.append([os.path.join(d, rng.choice(["edulint.toml", "edulint.toml", ".edulint.toml"])),
                              rng.choice([None, toml(rng, uid), toml(rng, uid)])])
            elif r < 0.9:
                t = [p for p in files if p.endswith(".toml")]
                if t:
                    p = rng.choice(t)
                    edits.append([p, files[p] + f"# {uid}\n" if rng.random() < 0.3 else (
                        f'F841 = "lang {uid}: {{0}}"\n' if "lang" in p else toml(rng, uid))])
            else:
                edits.append([rng.choice([p for p in pys if p not in ("helper.py", "user.py", "other.py")]), None])
        if helper and rng.random() < 0.6:
            args = rng.choice([["user.py"], ["other.py"], ["helper.py", "user.py"], ["user.py", "other.py"]])
            opts = ["pylint=--enable=no-member,no-name-in-module,import-error"]
        else:
            args, opts = choose_args(rng, files), rng.choice(OPTS)
        if steps and rng.random() < moves / 2:
            args, opts = steps[-1]["args"], steps[-1]["opts"]
        for e in edits:
            now[e[0]] = e[1]
        st = {"edits": edits, "args": args, "opts": opts}
        if rng.random() < moves:
            st["cwd"] = rng.choice([os.path.dirname(p) for p in files])
            st["up"] = rng.random() < 0.5
        r = rng.random()
        if r < 0.25:
            st["crash"] = [round(rng.random(), 6), rng.choice(CRASHES + ["KeyboardInterrupt"] * 4)]
        elif r < 0.35:
            st["fault"] = True
        steps.append(st)
    cfg = {"fault_under": PROJ, "enabled": ["open:EIO", "read:EIO", "open:EMFILE", "read:short"],
           "p_fault": {"open": 0.05, "read": 0.1}}
    return {"cfg": cfg, "files": files, "cwd": "", "actions": steps}


def same_length(rng, text):
    """Another text of the same size."""
    spots = [i for i, c in enumerate(text) if c.isdigit() and c.isascii()]
    names = [i for i in range(1, len(text) - 1) if text[i - 1] == '"' and text[i + 1] == '"' and text[i].isalpha() and text[i].isascii()]
    for i in rng.sample(spots, min(len(spots), rng.choice([1, 2, len(spots)]))) + names:
        c = str((int(text[i]) + 1) % 10) if text[i].isdigit() else ("k" if text[i] != "k" else "m")
        text = text[:i] + c + text[i + 1:]
    return text


def helper_text(rev, two):
    out = f"def one():\n    unused = {rev}\n    return {rev}\n"
    if two:
        out += f"\n\ndef two():\n    return {rev} * 2\n"
    return out


def gen_C14(rng, tier):
    files = tree(rng, nfiles=(2, 4), broken=0.15, configs=0.75, inherit=0.5)
    cfg = {"p_switch": rng.choice([0.002, 0.01, 0.05, 0.2]), "p_pick": rng.choice([0.3, 0.8]), "line_switch": 1.0,
           "dir_order": rng.randint(1, 10**6), "max_steps": 4_000_000, "stuck_s": 60, "lean_lines": True}
    ths = []
    for _ in range(rng.choice([2, 2, 3])):
        ths.append([{"args": choose_args(rng, files), "opts": rng.choice(OPTS), "how": rng.choice(["check", "check", "lint_one"])}
                    for _ in range(rng.choice([1, 1, 2]))])
    return {"cfg": cfg, "files": files, "cwd": "", "threads": ths, "actions": []}


def gen_C20(rng, tier):
    sc = base_sc(rng, nfiles=(1, 3))
    sc["opts"] = rng.choice([[], [], ["config-file=empty"], ["config-file=cs0"]])
    sc["cmd"] = rng.choice(["check", "check", "check", "checkjson", "checkjson", "explain", "explainjson", "version"])
    sc["ids"] = rng.choice([["all"], ["R6307"], ["R6307", "F841", "E501"]])
    sc["fails"] = [{"at": round(rng.random(), 6), "errno": rng.choice(["EPIPE", "ENOSPC", "EIO"]),
                    "buffered": rng.random() < 0.5} for _ in range(3)]
    return sc


ENCODINGS = [["utf-8", "strict"], ["utf-8", "strict"], ["ascii", "strict"], ["iso8859-2", "strict"], ["cp1250", "replace"],
             ["ascii", "backslashreplace"], ["utf-16-le", "strict"]]


def gen_C26(rng, tier):
    sc = base_sc(rng, nfiles=(1, 4), broken=0.15, own_langs=0.15)
    sc["stdout"] = rng.choice(ENCODINGS)
    if rng.random() < 0.35:
        sc["crash"] = [round(rng.random(), 6), rng.choice(CRASHES), rng.choice(["lint", "deep", "deep"])]
    if rng.random() < 0.5:
        sc["opts"] = rng.choice([[], ["config-file=empty"], ["config-file=cs0", "no-flake8"], ["ignore-infile-config-for=all"],
                                 ["flake8=--select=E,W,F,C9 --max-line-length=20"]])
    return sc


TEMPLATES = {  # code or symbol: (what the message looks like, possible translations)
    "F841": (r"local variable (.*) is assigned to but never used", ["{0} zbytečná", "proměnná", "{{{0}}}", "{0}/{0}", ""]),
    "E501": (r"line too long \((.*) > (.*) characters\)", ["{0} znaků z {1}", "{1}<{0}", "dlouhý řádek"]),
    "F401": (r"(.*) imported but unused", ["import {0}", "import"]),
    "C0116": (None, ["bez dokumentace", "Missing"]),
    "missing-function-docstring": (None, ["bez popisu"]),
    "W0612": (r"Unused variable (.*)", ["nepoužito {0}", "-"]),
    "unused-variable": (r"Unused variable (.*)", ["W {0} W"]),
    "E711": (None, ["None se porovnává pomocí is"]),
    "C0121": (None, ["porovnání"]),
    "C0104": (None, ["jméno"]),
    "E712": (None, ["pravda"]),
    "W0622": (r"Redefining built-in (.*)", ["předefinováno {0}"]),
    "no-else-return": (None, ["else navíc"]),
    "E0001": (None, ["syntax"]), "E999": (None, ["skladba"]),
    "X9999": (None, ["nic"]),
}
NAMES = ["def shadow{u}():\n    l = 1\n    list = [l]\n    return list\n", "import os\nimport string as ib111_{u}\n",
         "def foo():\n    bar = 1\n    x = (not (bar == None))\n    return not(x)\n", "from ib111 import week_0{n}  # noqa\n",
         "def power{u}(a):\n    q = a * a * a\n    return q\n\n\nfoo = 1\n",
         "def short{u}(lx, ij):\n    xl = lx\n    i = j = xl + ij\n    return i, j, l\n\n\nl = 1\nlx = ij = 2\n"]


def translation_table(rng):
    out = []
    for k in rng.sample(sorted(TEMPLATES), rng.randint(1, 8)):
        out.append(f"{k} = {json.dumps(rng.choice(TEMPLATES[k][1]), ensure_ascii=False)}")
    return out


def gen_C27(rng, tier):
    sc = base_sc(rng, nfiles=(1, 3), broken=0.1, own_langs=0.4, langs=0.6, configs=0.9)
    files = sc["files"]
    for p in sorted(files):
        if os.path.basename(p).startswith("lang"):
            files[p] = "\n".join(translation_table(rng)) + "\n"
        elif p.endswith(".toml"):
            head = files[p].split("[language-translations]")[0]
            files[p] = head + "[language-translations]\n" + "\n".join(translation_table(rng)) + "\n"
        elif p.endswith(".py") and rng.random() < 0.7 and "def bad" not in files[p] and files[p]:
            files[p] += "\n\n" + rng.choice(NAMES).format(u=rng.randint(1, 9), n=rng.randint(1, 9))
    if rng.random() < 0.5:
        sc["opts"] = rng.choice([["allowed-onechar-names=lx"], ["disallowed-builtin-names=list,set"],
                                 ["pylint=--enable=all"], ["pylint=--enable=W0622,C0325,C0104", "disallowed-builtin-names=id"],
                                 ["flake8=--extend-select=W,E"], ["set-groups=enhancement"],
                                 ["pylint=--bad-names=lx,ij,xl,i,l,foo --enable=C0104", f"allowed-onechar-names={rng.choice(['lx', 'ijl', 'xlij', 'i', ''])}"],
                                 ["pylint=--bad-names-rgxs=[a-z]{1,2} --enable=C0104", "allowed-onechar-names=ijlx"],
                                 ["pylint=--enable=W0622,F841,C0116", f"disallowed-builtin-names={rng.choice(['list', 'li,st', 'id,lists', 'LIST', ''])}"]])
    if rng.random() < 0.4:
        cfg = sc["cfg"]
        cfg["fault_under"] = PROJ
        cfg["only"] = "lang"
        cfg["enabled"] = ["open:EIO", "open:EACCES", "open:EMFILE", "read:EIO", "read:short"]
        cfg["p_fault"] = {"open": 0.3, "read": 0.3}
    return sc


def simpler(sc):
    files = sc.get("files", {})
    for p in sorted(files):
        rest = {k: v for k, v in files.items() if k != p}
        if any(k.lower().endswith(".py") for k in rest):
            yield {**sc, "files": rest}
    if len(sc.get("args", [])) > 1:
        for i in range(len(sc["args"])):
            yield {**sc, "args": sc["args"][:i] + sc["args"][i + 1:]}
    for k in ("opts",):
        if sc.get(k):
            yield {**sc, k: []}
    if sc.get("cwd"):
        yield {**sc, "cwd": ""}
    if sc.get("abs"):
        yield {**sc, "abs": False}
    if sc.get("missing"):
        yield {k: v for k, v in sc.items() if k != "missing"}
    for i in range(len(sc.get("locked", ()))):
        yield {**sc, "locked": sc["locked"][:i] + sc["locked"][i + 1:]}
    if sc.get("stdout", ["utf-8"])[0] != "utf-8":
        yield {**sc, "stdout": ["utf-8", "strict"]}
    if sc.get("stdout") and sc.get("crash"):
        yield {**sc, "crash": None}
    if sc["cfg"].get("dir_order") is not None:
        yield {**sc, "cfg": {**sc["cfg"], "dir_order": None}}
    if len(sc.get("variants", [])) > 1:
        for v in sc["variants"]:
            yield {**sc, "variants": [v]}
    if len(sc.get("fails", [])) > 1:
        for v in sc["fails"]:
            yield {**sc, "fails": [v]}
    ths = sc.get("threads", [])
    if len(ths) > 2:
        for i in range(len(ths)):
            yield {**sc, "threads": ths[:i] + ths[i + 1:]}
    for i, st in enumerate(sc["actions"]):
        if isinstance(st, dict):
            for k in ("cwd", "up", "crash", "fault", "opts"):
                if st.get(k):
                    rest = {**st, "opts": []} if k == "opts" else {x: st[x] for x in st if x != k}
                    yield {**sc, "actions": sc["actions"][:i] + [rest] + sc["actions"][i + 1:]}
    for i, t in enumerate(ths):
        if len(t) > 1:
            yield {**sc, "threads": ths[:i] + [t[:1]] + ths[i + 1:]}
    for p in sorted(files):
        parts = files[p].split("\n\n\n")
        if len(parts) > 1:
            for i in range(len(parts)):
                yield {**sc, "files": {**files, p: "\n\n\n".join(parts[:i] + parts[i + 1:])}}


# ------------------------------------------------------------------------------------------------ running checks
def setup(sim, files):
    common.attach(sim, state=False)
    sim.vfs.makedirs(PROJ)
    for p in files:
        sim.vfs.put(f"{PROJ}/{p}", files[p].encode())


def encode(res):
    if res is None:
        return None
    configs, problems = res
    out = []
    for files, config, lang in configs:
        out.append([[str(f) for f in files], [[a.option.to_name(), a.val] for a in config],
                    dict(sorted(config.enablers.items())), {k: [t.translation, t.extracts] for k, t in lang.items()}])
    return {"configs": json.loads(json.dumps(out)), "problems": [enc_problem(p) for p in problems]}


FIELDS = ["path", "line", "column", "code", "text", "end_line", "end_column", "symbol", "enabled_by", "source"]


def enc_problem(p):
    return tuple(getattr(p, f) if f not in ("path", "source") else str(getattr(p, f)) for f in FIELDS)


def check(args, opts):
    import edulint

    return encode(edulint.check_code(list(args), list(opts)))


def lint_one(args, opts):
    import edulint

    out = []
    for a in args:
        c = edulint.get_config_one(a, list(opts))
        if c is None:
            out.append(None)
            continue
        out.append([enc_problem(p) for p in edulint.lint_one(a, c)])
    return out


def cli_main(argv):
    def main():
        import edulint.edulint as e

        sys.exit(e.main())

    return main, ["edulint"] + list(argv)


def new_proc(sim, cwd, fn, argv=None, key=None):
    proc = sim.new_proc(key or f"p{len(sim.procs)}", fn, argv)
    proc.cwd = (PROJ + "/" + cwd).rstrip("/")
    return proc


def isolated(sim, cwd, fn, argv=None, cfg=None, prepare=None):
    """fn() in a simulated process of its own, in a fork of this interpreter: nothing it does is seen here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        res = {"harness": "no answer"}
        try:
            os.close(r)
            ref = kernel.Sim(sim.seed, cfg or {"dir_order": sim.cfg.get("dir_order"), "max_steps": 3_000_000})
            ref.vfs, ref.net = sim.vfs, sim.net
            kernel.ACTIVE = ref
            if prepare is not None:
                prepare(ref)
            proc = new_proc(ref, cwd, fn, argv, "ref")
            ref.drain()
            res = {"value": proc.value, "exit": proc.exit, "exc": describe(proc.exc), "out": proc.out, "err": proc.err,
                   "stop": ref.stop, "sigs": ref.sigs, "calls": getattr(ref, "calls", 0), "mono": ref.mono,
                   "hash": ref.hash.hexdigest(), "state": proc.meta.get("state")}
        except BaseException:
            import traceback

            res = {"harness": traceback.format_exc()}
        finally:
            try:
                kernel.ACTIVE = None
                data = pickle.dumps(res)
                while data:
                    data = data[seams.O["os_write"](w, data):]
            finally:
                os._exit(0)
    os.close(w)
    buf = b""
    while True:
        d = seams.O["os_read"](r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    res = pickle.loads(buf)
    if res.get("harness"):
        raise kernel.HarnessError(res["harness"])
    sim.probes["isolated_reference_checks"] += 1
    return res


def describe(exc):
    if exc is None:
        return None
    return [type(exc).__name__, str(exc)[:300]]


def relabel(cwd, how, args):
    """Arguments (relative to the project) as the user would type them: relative (0), absolute (1), or oddly (the seed)."""
    here = (PROJ + "/" + cwd).rstrip("/")
    out = []
    for a in args:
        p = os.path.normpath(PROJ + "/" + a)
        rel = os.path.relpath(p, here)
        out.append(p if how is True else rel if how is False or how < 2 else odd_spelling(how, p, rel, not a.endswith(".py")))
    return out


def odd_spelling(seed, path, rel, folder):
    rng = random.Random(f"{seed} {path}")
    p = path if rng.random() < 0.3 else rel
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.3 and not p.startswith("/"):
            p = "./" + p
        elif r < 0.5 and "/" in p[1:]:
            i = p.index("/", 1)
            p = p[:i] + rng.choice(["//", "/./"]) + p[i + 1:]
        elif r < 0.65 and folder:
            p = p + rng.choice(["/", "//", "/."])
        elif r < 0.9:  # out of the last folder, and in again
            d, _, b = p.rstrip("/").rpartition("/")
            home = os.path.basename(os.path.dirname(path))
            if b not in (".", "..") and (not d or home == os.path.basename(d)) and path != PROJ:
                p = (d + "/" if d else "") + f"../{home}/{b}"
    return p


def absolute_problems(cwd, problems):
    here = (PROJ + "/" + cwd).rstrip("/")
    return [(os.path.normpath(os.path.join(here, p[0])),) + tuple(p[1:]) for p in problems]


def from_json(text):
    """problems of a `check --json` output"""
    d = json.loads(text)
    return [tuple(p[f] for f in FIELDS) for p in d["problems"]]


def covered(files, cwd, args):
    """The Python files a set of arguments stands for."""
    here = (PROJ + "/" + cwd).rstrip("/")
    out = []
    for a in args:
        p = os.path.normpath(os.path.join(here, a))
        for f in sorted(files):
            q = PROJ + "/" + f
            if (q == p or q.startswith(p + "/")) and f.lower().endswith(".py"):
                out.append(f)
    return out


def only_dirs_are_args(problems, args):
    return problems


def run(sim, sc, prop):
    sc = dict(sc)
    if "cwd" in sc and sc["cwd"] and not any(p.startswith(sc["cwd"] + "/") for p in sc["files"]):
        sc["cwd"] = ""
    if "args" in sc:
        sc["args"] = [a for a in sc["args"] if a == "." or a in sc["files"] or any(p.startswith(a + "/") for p in sc["files"])]
        if not sc["args"]:
            return []
    setup(sim, sc["files"])
    viols = globals()["run_" + prop](sim, sc) or []
    if sim.stop:
        viols.append(V("stuck", f"the run did not end: {sim.stop}"))
    return viols


def diff(a, b, n=3):
    ca, cb = Counter(a), Counter(b)
    return f"unexpected {list((ca - cb).elements())[:n]}, missing {list((cb - ca).elements())[:n]}"


# ------------------------------------------------------------------------------------------------ C16
def model_config(files, f, opts):
    """Which configuration applies to a file: independent of edulint's code.  None: do not judge."""
    text = files[f]
    cmd = [o for o in opts if o.startswith("config-file=")]
    if any(o.startswith("ignore-infile") for o in opts):
        return None
    d = os.path.dirname(f)
    own = None
    for line in text.splitlines():
        if line.startswith("# edulint:") and "config-file=" in line:
            own = line.split("config-file=", 1)[1].strip().strip('"')
    if cmd:
        return cmd[-1].split("=", 1)[1]
    if own is not None:
        return os.path.normpath(os.path.join(d, own)) if own.endswith(".toml") else own
    while True:
        for n in ("edulint.toml", ".edulint.toml"):
            p = os.path.join(d, n)
            if p in files:
                return p
        if not d:
            return "default"
        d = os.path.dirname(d)


def pylint_skips(files, cwd, args, f):
    """Why pylint does not find a file in the folders it is given (None: it does find it)."""
    here = (PROJ + "/" + cwd).rstrip("/")
    packages = {os.path.dirname(PROJ + "/" + p) for p in files if p.split("/")[-1] == "__init__.py"}
    home = os.path.dirname(PROJ + "/" + f)
    for a in args:
        root = os.path.normpath(os.path.join(here, a))
        if root == PROJ + "/" + f or not (home + "/").startswith(root + "/"):
            continue
        inside = False
        d = root
        for part in [""] + home[len(root):].strip("/").split("/"):
            d = os.path.join(d, part) if part else d
            if d in packages:
                inside = True
            elif inside:
                return "folder-of-package"
        if root not in packages and any(
                home.startswith(p) and not (home + "/").startswith(p + "/") for p in packages if p.startswith(root + "/")):
            return "name-begins-as-package"
    return None


def model_text(files, f, conf):
    """The wording of F841 under that configuration, or None if it is not translated."""
    conf_lang = True
    for line in files[f].splitlines():
        if line.startswith("# edulint:") and "language-file=" in line:
            own = line.split("language-file=", 1)[1].strip().strip('"')
            own = os.path.normpath(os.path.join(os.path.dirname(f), own))
            if own in files:
                return files[own].split('"')[1]
            conf_lang = False
    if conf not in files:
        return None
    t = files[conf]
    for line in t.splitlines():
        if conf_lang and line.startswith("language-file"):
            lp = os.path.normpath(os.path.join(os.path.dirname(conf), line.split('"')[1]))
            if lp in files:
                for translation in files[lp].splitlines():
                    if translation.startswith("F841 ="):
                        return translation.split('"')[1]
    for line in t.splitlines():
        if line.startswith("F841 ="):
            return line.split('"')[1]
    return None


def run_C16(sim, sc):
    files, cwd = sc["files"], sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    todo = covered(files, cwd, args)
    viols = []
    refs = {}
    for f in sorted(set(todo)):
        a = relabel(cwd, sc["abs"], [f])
        refs[f] = isolated(sim, cwd, lambda a=a: check(a, sc["opts"]))
    if sc["mode"] == "cli":
        main, argv = cli_main(["check", "--json"] + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args)
        proc = new_proc(sim, cwd, main, argv)
    else:
        proc = new_proc(sim, cwd, lambda: check(args, sc["opts"]))
    sim.drain()
    broken = [f for f in refs if refs[f]["value"] is None]
    if broken:  # a check that cannot be done for one file cannot be done for all
        return []
    sim.nontrivial = len(todo) > 1
    sim.shape = f"{len(todo)} files, {len(args)} args, {sc['mode']}"
    if sc["mode"] == "cli":
        if proc.exit not in (0, 1):
            return [V("refused", f"checking {args} failed (exit {proc.exit}) though each file alone can be checked: "
                      f"{proc.err[-500:]}")]
        problems = from_json(proc.out)
        configs = json.loads(proc.out)["configs"]
        sim.probes["cli"] += 1
        if len(configs) == 0 and todo:
            viols.append(V("configs", f"no configuration listed for {todo}"))
    else:
        if proc.exc is not None or proc.value is None:
            return [V("refused", f"checking {args} gave {proc.exc!r} / None though each file alone can be checked: "
                      f"{proc.err[-500:]}")]
        problems = proc.value["problems"]
        viols += judge_configs(sim, sc, proc.value["configs"], refs, todo)
    got = absolute_problems(cwd, problems)
    want = [p for f in todo for p in absolute_problems(cwd, refs[f]["value"]["problems"])]
    missing = Counter(want) - Counter(got)
    for f in todo:
        why = pylint_skips(files, cwd, args, f)
        mine = [p for p in missing if p[0] == PROJ + "/" + f and p[-1] == "pylint"]
        if why and mine:  # known, see known_findings.txt
            viols.append(V("not-checked", f"check of {args} (cwd {cwd!r}): {f} is not checked by pylint ({why})",
                           sig="not-checked:" + why))
            for p in mine:
                del missing[p]
    if missing or Counter(got) - Counter(want):
        viols.append(V("problems", f"check of {args} (cwd {cwd!r}, options {sc['opts']}): {diff(got, want)}"))
    for f in todo:  # independent of the reference runs
        ref = refs[f]["value"]["configs"][0]
        uid = mark(files[f])
        if uid is None:
            continue
        mine = [p for p in got if p[3] == "F841" and p[0] == PROJ + "/" + f and p[1] == mark_line(files[f])]
        opts = dict((k, v) for k, v in ref[1])
        conf = model_config(files, f, sc["opts"])
        if conf is None:
            continue
        cf = files.get(conf)
        selected = cf is not None and "config-file" not in cf and not opts["no-flake8"] and "extend-ignore=F841" not in files[f]
        if cf is None and conf == "default" and not opts["no-flake8"] and "extend-ignore=F841" not in files[f]:
            selected = True
        if not selected or "flake8=" in " ".join(sc["opts"]) + files[f]:
            continue
        sim.probes["marker_judged"] += 1
        if len(mine) != 1:
            viols.append(V("marker", f"{f}: the unused variable it contains is reported {len(mine)} times"))
            continue
        want_text = model_text(files, f, conf)
        text = mine[0][4]
        if want_text is not None:
            sim.probes["translation_judged"] += 1
            if text != want_text.format(f"'unused_{uid}'"):
                viols.append(V("wording", f"{f} under {conf}: {text!r}, expected {want_text!r}"))
        elif text.startswith(("conf ", "lang ")):
            viols.append(V("wording", f"{f} under {conf}: {text!r}, expected no translation"))
    return viols


def mark(text):
    for line in text.splitlines():
        if line.startswith("def mark_"):
            return line[len("def mark_"):].split("(")[0]
    return None


def mark_line(text):
    for i, line in enumerate(text.splitlines(), 1):
        if line.startswith("def mark_"):
            return i + 1
    return None


def judge_configs(sim, sc, configs, refs, todo):
    """Each checked file is in exactly one entry, and the entry's configuration is the one it has alone."""
    cwd = sc["cwd"]
    viols = []
    listed = Counter()
    by_file = {}
    for fs, opts, enablers, lang in configs:
        for f in covered(sc["files"], cwd, fs):
            listed[f] += 1
            by_file[f] = [opts, enablers, lang]
    bad = [f for f in todo if listed[f] != 1]
    if bad:
        viols.append(V("exactly-once", f"{bad[0]} is in {listed[bad[0]]} of the returned groups {[c[0] for c in configs]}"))
    for f in todo:
        if f in by_file and refs[f]["value"]["configs"]:
            if by_file[f] != refs[f]["value"]["configs"][0][1:]:
                viols.append(V("config", f"{f}: configuration {by_file[f]} instead of {refs[f]['value']['configs'][0][1:]}"))
    return viols


# ------------------------------------------------------------------------------------------------ C15
def run_C15(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    outs = {}
    viols = []
    for js in sorted({v["json"] for v in sc["variants"]}):
        argv = ["check"] + (["--json"] if js else []) + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args
        main, av = cli_main(argv)
        r = isolated(sim, cwd, main, av)
        outs[js] = [r["exit"], r["out"], clean_err(r["err"])]
    for v in sc["variants"]:
        argv = ["check"] + (["--json"] if v["json"] else []) + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args
        if v["hash"] is None:
            main, av = cli_main(argv)
            r = isolated(sim, cwd, main, av, cfg={"dir_order": v["dir_order"], "max_steps": 3_000_000})
        else:
            r = hashserver.request(v["hash"], {"files": sc["files"], "cwd": cwd, "argv": argv, "dir_order": v["dir_order"],
                                               "seed": sim.seed})
            sim.probes["other_hash_seed"] += 1
        sim.log("variant", v, r["exit"], hash_text(r["out"]))
        sim.count("directory_order_permuted")
        got = [r["exit"], r["out"], clean_err(r["err"])]
        if got != outs[v["json"]]:
            what = ["exit status", "stdout", "stderr"][next(i for i in range(3) if got[i] != outs[v["json"]][i])]
            viols.append(V("order", f"{argv}: {what} depends on directory order {v['dir_order']} / hash seed {v['hash']}: "
                           f"{first_diff(got, outs[v['json']])}"))
    sim.nontrivial = len(covered(sc["files"], cwd, args)) > 1
    sim.shape = f"{len(sc['files'])} files, {len(args)} args"
    return viols


def clean_err(t):
    return sorted(x for x in t.splitlines() if x.strip())


def hash_text(t):
    import hashlib

    return hashlib.blake2b(t.encode("utf-8", "replace"), digest_size=6).hexdigest()


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x, str):
                i = next((k for k, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                return f"{x[max(0, i - 60):i + 60]!r} / {y[max(0, i - 60):i + 60]!r}"
            return f"{x!r} / {y!r}"
    return ""


def serve(req):
    """Executed in an interpreter with another hash seed (see hashserver)."""
    sim = kernel.Sim(req["seed"], {})
    setup(sim, req["files"])
    main, av = cli_main(req["argv"])
    r = isolated(sim, req["cwd"], main, av, cfg={"dir_order": req["dir_order"], "max_steps": 3_000_000})
    return {"exit": r["exit"], "out": r["out"], "err": r["err"]}


# ------------------------------------------------------------------------------------------------ C11
def run_C11(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    ref = isolated(sim, cwd, lambda: check(args, sc["opts"]))
    if ref["value"] is None:
        return []
    gone = None
    if sc.get("missing") and sc["missing"][1] not in sc["files"] and not any(f.startswith(sc["missing"][1] + "/") for f in sc["files"]):
        gone = PROJ + "/" + sc["missing"][1]
        args = args[:sc["missing"][0]] + relabel(cwd, sc["abs"], [sc["missing"][1]]) + args[sc["missing"][0]:]
        sim.count("argument_missing")
        sim.vfaults.append((gone, "stat", "ENOENT"))
    if sc["mode"] == "cli":
        main, argv = cli_main(["check", "--json"] + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args)
        proc = new_proc(sim, cwd, main, argv)
    else:
        proc = new_proc(sim, cwd, lambda: check(args, sc["opts"]))
    seen_dirs(sim)
    for f in sc.get("locked", ()):
        sim.sticky["data", PROJ + "/" + f] = "EACCES"
        sim.vfaults.append((PROJ + "/" + f, "open", "EACCES"))
        sim.count("file_without_permission")
    sim.drain()
    sim.shape = f"{sorted({k for _p, k, _e in sim.vfaults})} {sc['mode']}"
    sim.nontrivial = bool(sim.vfaults)
    if sc["mode"] == "cli":
        if proc.exit not in (0, 1):
            sim.probes["refused"] += 1
            if not sim.vfaults:
                return [V("no-fault", f"exit {proc.exit} without a fault: {proc.err[-400:]}")]
            return []
        problems = from_json(proc.out)
        if proc.exit != (1 if problems else 0):
            return [V("status", f"exit {proc.exit} with {len(problems)} problems")]
    else:
        if proc.exc is not None or proc.value is None:
            sim.probes["refused"] += 1
            if not sim.vfaults:
                return [V("no-fault", f"{proc.exc!r} without a fault: {proc.err[-400:]}")]
            return []
        problems = proc.value["problems"]
    got, want = absolute_problems(cwd, problems), absolute_problems(cwd, ref["value"]["problems"])
    if gone and not any(p[0] == gone and p[3] in FAILED for p in got):
        return [V("missing", f"exit {proc.exit}, {len(got)} problems, and nothing says that {gone} is not there; stderr {proc.err[-300:]!r}")]
    if Counter(got) == Counter(want):
        sim.probes["unharmed"] += 1
        return []
    if not sim.vfaults:
        return [V("no-fault", f"without a fault: {diff(got, want)}")]
    viols = []
    for p in sorted({x[0] for x in got} | {x[0] for x in want}):
        a, b = [x for x in got if x[0] == p], [x for x in want if x[0] == p]
        failed = [x for x in a if x[3] in FAILED and x not in b]
        if Counter(a) == Counter(b):
            continue
        if failed:
            sim.probes["failure_reported_as_problem"] += 1
            extra = Counter(a) - Counter(b) - Counter(failed)
            if extra:
                viols.append(V("invented", f"{p}: {list(extra)[:3]} is reported only because of {sim.vfaults[:3]}"))
            continue
        viols.append(V("lost", f"exit {proc.exit}, nothing says that {p} was not checked, but with {sim.vfaults[:3]} "
                       f"{diff(a, b)}; stderr {proc.err[-300:]!r}"))
    return viols


def seen_dirs(sim):
    """
    Pylint and flake8 swallow failures to list a folder and to look at what is in it (see DESIGN.md, C11), so that
    only listings that edulint itself asks for may fail, and only the first look at something.
    """
    seen = set()
    root = os.path.dirname(sys.modules["edulint"].__file__) + os.sep

    def by_edulint():
        f = sys._getframe(2)
        while f is not None:
            name = f.f_code.co_filename
            if name.startswith(root):
                return True
            if "site-packages" in name:
                return False
            f = f.f_back
        return False

    inner = sim.point

    def point(kind, detail="", faults=None, p=None, kill=True):
        if kind in ("listdir", "stat"):
            if not by_edulint() or kind == "stat" and detail in seen:
                faults = None
            if kind == "stat":
                seen.add(detail)
        return inner(kind, detail, faults, p, kill)

    sim.point = point


# ------------------------------------------------------------------------------------------------ C12, C19: injected exceptions
def make_exc(name):
    if name.startswith("SystemExit"):
        c = name.split(":")[1]
        return SystemExit(None if c == "None" else int(c) if c.isdigit() else "critical error in a linter")
    if name == "AstroidBuildingError":
        import astroid

        return astroid.AstroidBuildingError("injected")
    if name == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "injected")
    if name == "OSError":
        return OSError(5, "Input/output error (injected)")
    return getattr(__builtins__ if not isinstance(__builtins__, dict) else None, name)("injected") if not isinstance(
        __builtins__, dict) else __builtins__[name]("injected")


_codes = {}


def code_set(which):
    if which not in _codes:
        mods = linter_modules()
        pick = mods["lint"] if which == "lint" else mods["deep"] if which == "deep" else mods["lint"] + mods["deep"]
        if which == "edulint":
            pick = common.edulint_modules(exclude=("edulint.linting.analyses", "edulint.linting.checkers"))
        _codes[which] = {id(c) for m in pick for c in seams.module_codes(m)}
    return _codes[which]


class Crash:
    """Raise an exception at the n-th start of a function of the linters."""

    def __init__(self, sim, n, name, which):
        self.sim, self.n, self.name, self.codes = sim, n, name, code_set(which)
        sim.calls = 0
        sim.on_call = self
        self.fired = None

    def __call__(self, task, code, ev):
        if ev != "start" or id(code) not in self.codes:
            return
        self.sim.calls += 1
        if self.sim.calls == self.n:
            if code.co_name == "_parse_string" and self.name in ("UnicodeDecodeError", "ValueError", "TypeError", "SyntaxError"):
                self.n += 1  # this is how astroid is told that the text is not Python, which a configuration may leave unreported
                return
            self.fired = f"{code.co_filename.rsplit('site-packages/', 1)[-1]}:{code.co_qualname}"
            self.sim.count("linter_raises_" + self.name.split(":")[0])
            self.sim.log("CRASH", self.n, self.name, self.fired)
            raise make_exc(self.name)


class Signals:
    """Count every place where CPython would handle a signal as a signal point."""

    def __init__(self, sim):
        self.sim = sim
        sim.on_call = self

    def __call__(self, task, code, ev):
        self.sim.signal(task, f"{code.co_filename.rsplit('/', 1)[-1]}:{code.co_name}:{ev}")


def snapshot():
    return {"stdout": id(sys.stdout), "stderr": id(sys.stderr), "argv": list(sys.argv), "argv_id": id(sys.argv),
            "cwd": os.getcwd(), "path": list(sys.path), "path_id": id(sys.path), "stdin": id(sys.stdin),
            "recursion": sys.getrecursionlimit(), "hook": id(sys.excepthook)}


def run_C12(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    ref = isolated(sim, cwd, lambda: check(args, sc["opts"]), prepare=lambda s: (
        Crash(s, -1, "RuntimeError", sc["crash"][2]) if sc.get("crash") else Signals(s)))
    box = {}

    def main():
        before = snapshot()
        try:
            box["value"] = check(args, sc["opts"])
            box["how"] = "returned" if box["value"] is not None else "refused"
        except BaseException as e:  # noqa
            box["how"] = f"raised {type(e).__name__}"
        after = snapshot()
        box["diff"] = {k: [before[k], after[k]] for k in before if before[k] != after[k]}
        sys.stdout.write("")  # the streams must still be usable
        box["alive"] = True

    proc = new_proc(sim, cwd, main, key="p")
    if sc.get("interrupt") is not None:
        total = ref["sigs"]
        n = 1 + int(sc["interrupt"] * (min(total, 4000) if sc.get("early") else total))
        sim.int_at = n
        Signals(sim)
    crash = None
    if sc.get("crash"):
        at, name, which = sc["crash"]
        crash = Crash(sim, 1 + int(at * max(1, ref["calls"])), name, which)
    sim.drain()
    fired = sim.counts.get("keyboard_interrupt") or (crash and crash.fired) or sim.vfaults
    sim.nontrivial = bool(fired)
    sim.shape = box.get("how")
    sim.probes["how: " + str(box.get("how"))] += 1
    viols = []
    where = crash.fired if crash else [x for x in sim.trace if "INTERRUPT" in x or "FAULT" in x][:2]
    if not box.get("alive"):
        return [V("gone", f"the caller never got control back: {proc.exc!r}")]
    if box["diff"]:
        viols.append(V("left", f"the check {box['how']} and left {sorted(box['diff'])} changed ({where}): "
                       f"{str(box['diff'])[:400]}", "left:" + ",".join(sorted(box["diff"]))))
    if not fired and box.get("value") != ref["value"]:
        viols.append(V("differs", f"without any fault the check {box['how']}, result differs from a fresh process"))
    return viols


def install_report_fault(sim, spec, fired):
    """A linter whose report is cut short and/or that ends with a given status."""

    def cut(stream):
        try:
            text = stream.getvalue()
        except AttributeError:
            return
        n = int(len(text) * spec["keep"])
        if spec["keep"] < 1.0:
            stream.seek(0)
            stream.truncate(0)
            stream.write(text[:n])
        if spec.get("junk"):
            stream.write("\nTraceback (most recent call last):\n")
        fired.append([n, len(text)])
        sim.count("linter_report_cut" if spec["keep"] < 1.0 else "linter_odd_status")
        sim.log("REPORT", spec, n, len(text))

    def leave():
        c = spec["code"]
        if c is not None:
            raise make_exc("SystemExit:" + c)

    if spec["who"] == "flake8":
        from flake8.main.application import Application

        orig = Application.report

        def report(self):
            orig(self)
            if sim.task() is not None:
                cut(sys.stdout)
                leave()

        Application.report = report
    else:
        from pylint.reporters.json_reporter import JSON2Reporter

        orig = JSON2Reporter.display_messages

        def display_messages(self, layout):
            orig(self, layout)
            if sim.task() is not None:
                cut(self.out)
                leave()

        JSON2Reporter.display_messages = display_messages


def run_C19(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    crash, fired = None, []
    if sc.get("bad_option") and sc["bad_option"] not in sc["opts"] and sc["bad_option"] not in sc["files"].get(args[0], "").split("\n")[0]:
        return []
    if sc.get("bad_option") and not covered(sc["files"], cwd, args):
        return []
    if sc.get("bad_option", "").startswith("flake8=") and any("no-flake8" in t for t in sc["files"].values()):
        return []  # flake8 does not run at all
    which = sc["crash"][2] if sc.get("crash") else "lint"
    ref = isolated(sim, cwd, lambda: check(args, sc["opts"]),
                   prepare=(lambda s: Crash(s, -1, "RuntimeError", which)) if sc.get("crash") else None)
    if ref["value"] is None and not sc.get("bad_option"):
        return []
    if sc["mode"] == "cli":
        main, argv = cli_main(["check", "--json"] + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args)
        proc = new_proc(sim, cwd, main, argv, key="p")
    else:
        proc = new_proc(sim, cwd, lambda: check(args, sc["opts"]), key="p")
    if sc.get("crash"):
        crash = Crash(sim, 1 + int(sc["crash"][0] * max(1, ref["calls"])), sc["crash"][1], which)
    if sc.get("report"):
        install_report_fault(sim, sc["report"], fired)
    sim.drain()
    what = crash.fired if crash else fired[:1] or (sc.get("bad_option") and sc["opts"])
    sim.nontrivial = bool(what)
    sim.shape = str(what)[:60]
    if sc["mode"] == "cli":
        failed = proc.exit not in (0, 1)
        problems = None
        if not failed:
            try:
                problems = from_json(proc.out)
            except ValueError:
                return [V("output", f"exit {proc.exit}, output is not a report: {proc.out[:200]!r} ({what})")]
    else:
        failed = proc.exc is not None or proc.value is None
        problems = None if failed else proc.value["problems"]
    sim.probes["failed" if failed else "answered"] += 1
    if sc.get("bad_option"):
        if not failed:
            return [V("no-report", f"{sc['opts']} {args}: the linter ended without checking anything, the result is "
                      f"exit {proc.exit}, {len(problems)} problems")]
        return []
    if failed:
        if not what:
            return [V("no-fault", f"failed without a fault: {proc.exc!r} {proc.err[-400:]}")]
        return []
    got, want = absolute_problems(cwd, problems), absolute_problems(cwd, ref["value"]["problems"])
    if sc.get("report") and fired:
        spec = sc["report"]
        complete = spec["keep"] >= 1.0 and not spec.get("junk")
        if not complete:
            return [V("partial", f"{spec['who']}'s report was cut to {fired[0][0]} of {fired[0][1]} characters "
                      f"(junk {spec.get('junk')}), the check still succeeded with {len(got)} of {len(want)} problems")]
        if (spec["who"], spec["code"]) in {("flake8", "2"), ("flake8", "32"), ("flake8", "text"), ("pylint", "32")}:
            return [V("status", f"{spec['who']} ended with status {spec['code']}, the check still succeeded")]
    if Counter(got) == Counter(want):
        return []
    if any(x[3] in FAILED and x not in want for x in got):
        sim.probes["failure_reported_as_problem"] += 1
        return []
    return [V("partial", f"a linter failed ({sc.get('crash') or sc.get('report')} at {what}), the check still succeeded: "
              f"{diff(got, want)}; stderr {proc.err[-300:]!r}")]


# ------------------------------------------------------------------------------------------------ C13
def run_C13(sim, sc):
    dirs = {os.path.dirname(p) for p in sc["files"]}
    steps = [{**st, "cwd": st.get("cwd", "") if st.get("cwd", "") in dirs else ""} for st in sc["actions"]]
    viols = []

    def edit(st):
        for path, text, *keep in st["edits"]:
            full = PROJ + "/" + path
            try:
                old = sim.vfs.lookup(full) if keep and keep[0] else None
            except OSError:
                old = None
            if text is None:
                try:
                    sim.vfs.unlink(full)
                except OSError:
                    pass
            else:
                sim.vfs.put(full, text.encode())
                if old is not None:
                    sim.vfs.lookup(full).mtime = old.mtime
                    sim.count("edit_keeping_size_and_time")

    def exists(st):
        out = []
        for a in st["args"]:
            try:
                sim.vfs.lookup(os.path.normpath(PROJ + "/" + a))
                out.append(a)
            except OSError:
                pass
        if st.get("up"):  # through the root of the project
            return [os.path.join(os.path.relpath("/r", "/r/" + st["cwd"]), a) for a in out]
        return relabel(st["cwd"], False, out)

    def move(st):
        import os as o

        o.chdir((PROJ + "/" + st.get("cwd", "")).rstrip("/"))

    refs = []
    for st in steps:
        edit(st)
        a = exists(st)
        refs.append(isolated(sim, st.get("cwd", ""), lambda: check(a, st["opts"])) if a else None)
    for p in {path for st in steps for path, *_ in st["edits"]} - set(sc["files"]):
        try:
            sim.vfs.unlink(PROJ + "/" + p)
        except OSError:
            pass
    setup(sim, sc["files"])  # back to the beginning

    got = []

    def main():
        for i, st in enumerate(steps):
            sim.faults_on = False
            edit(st)
            a = exists(st)
            if refs[i] is None:
                continue
            move(st)
            if st.get("crash"):
                at, name = st["crash"]
                arm(sim, at, name)
                try:
                    check(a, st["opts"])
                except BaseException as e:  # noqa
                    sim.log("step", i, type(e).__name__)
                sim.point = sim_point
                sim.vfaults.clear()
            if st.get("fault"):
                sim.faults_on = True
                try:
                    check(a, st["opts"])
                except Exception as e:
                    sim.log("step", i, type(e).__name__)
                sim.faults_on = False
                sim.vfaults.clear()
            try:
                v = check(a, st["opts"])
                got.append([i, a, v, None])
            except BaseException as e:  # noqa
                got.append([i, a, None, describe(e)])
            sim.log("checked", i, hash_text(repr(got[-1][2])))

    sim_point = sim.point

    def arm(sim, at, name):
        """Fail at some read of the coming check."""
        left = [1 + int(at * 60)]

        def point(kind, detail="", faults=None, p=None, kill=True):
            if kind in ("open", "read", "stat", "listdir") and not detail.startswith("/home"):
                left[0] -= 1
                if left[0] == 0:
                    sim.count("check_aborted_" + name.split(":")[0])
                    sim.log("ABORT", name, kind, detail)
                    raise make_exc(name)
            return sim_point(kind, detail, faults, p, kill)

        sim.point = point

    new_proc(sim, "", main, key="p")
    sim.drain()
    sim.nontrivial = len(got) > 1
    sim.shape = f"{len(got)} checks"
    for i, a, v, exc in got:
        r = refs[i]
        if v != r["value"] or exc != r["exc"]:
            if v and r["value"]:
                d = diff(v["problems"], r["value"]["problems"])
                if v["problems"] == r["value"]["problems"]:
                    d = f"configs {v['configs']} / {r['value']['configs']}"
            else:
                d = f"{exc or (v and len(v['problems']))} instead of {r['exc'] or (r['value'] and len(r['value']['problems']))}"
            viols.append(V("history", f"check number {i + 1} of {a} (in {steps[i].get('cwd', '')!r}, options {steps[i]['opts']}) differs from a fresh process: {d}"))
            break
    if len(got) != sum(r is not None for r in refs) and not sim.stop:
        viols.append(V("ended", f"only {len(got)} checks of {len(steps)} were done"))
    return viols


# ------------------------------------------------------------------------------------------------ C14
def job(j):
    return check(j["args"], j["opts"]) if j["how"] == "check" else lint_one(j["args"], j["opts"])


def run_C14(sim, sc):
    ths = [[j for j in t] for t in sc["threads"]]
    for t in ths:
        for j in t:
            j["args"] = [a for a in j["args"] if a == "." or a in sc["files"] or any(p.startswith(a + "/") for p in sc["files"])] or ["."]
            if j["how"] == "lint_one":
                j["args"] = [a for a in j["args"] if a.lower().endswith(".py")]
    refs = {}
    for t in ths:
        for j in t:
            k = dumps(j)
            if k not in refs:
                refs[k] = isolated(sim, "", lambda: job(j))
    got = []

    def main():
        import threading

        def work(i, t):
            for k, j in enumerate(t):
                try:
                    got.append([i, k, job(j), None])
                except BaseException as e:  # noqa
                    got.append([i, k, None, describe(e)])
                sim.log("done", i, k, hash_text(repr(got[-1])))

        threads = [threading.Thread(target=work, args=(i, t)) for i, t in enumerate(ths)]
        out, err = sys.stdout, sys.stderr
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        return [sys.stdout is out, sys.stderr is err]

    proc = new_proc(sim, "", main, key="p")
    sim.drain()
    viols = []
    sim.nontrivial = sim.counts.get("preempt", 0) > 0
    sim.shape = f"{len(ths)} threads, {min(9, sim.counts.get('preempt', 0))} switches"
    if sim.stop:
        if sim.stop[0] == "steps":  # more work than a run is given: not judged
            sim.probes["out_of_budget"] += 1
            return []
        return [V("stuck", f"the threads never finished: {sim.stop}")]
    for i, k, v, exc in got:
        j = ths[i][k]
        r = refs[dumps(j)]
        if v != r["value"] or exc != r["exc"]:
            d = f"{exc} instead of {r['exc']}"
            if exc == r["exc"]:
                d = f"{str(v)[:300]} instead of {str(r['value'])[:300]}"
                if isinstance(v, dict) and isinstance(r["value"], dict):
                    d = diff(v["problems"], r["value"]["problems"])
            viols.append(V("mixed", f"thread {i}, {j}: {d}"))
            break
    if len(got) != sum(map(len, ths)):
        viols.append(V("missing", f"{len(got)} of {sum(map(len, ths))} checks came to an end; {proc.err[-400:]}"))
    if proc.value != [True, True] and not viols:
        viols.append(V("streams", f"after the checks sys.stdout/stderr are not the caller's: {proc.value}"))
    want_out = sorted(x for t in ths for j in t for x in refs[dumps(j)]["out"].splitlines())
    if sorted(proc.out.splitlines()) != want_out:
        viols.append(V("printed", f"the checks printed {proc.out[:300]!r}"))
    return viols


# ------------------------------------------------------------------------------------------------ C20
class FailRaw(io.RawIOBase):
    """File descriptor 1: takes n bytes, then fails."""

    def __init__(self, sim, n, errname):
        self.sim, self.n, self.errname = sim, n, errname
        self.proc = sim.task().proc
        self.data = bytearray()
        self.failed = False

    def writable(self):
        return True

    def fileno(self):
        return 1

    def write(self, b):
        b = bytes(b)
        if self.proc.meta.get("fd1") is not self:  # redirected meanwhile
            return self.proc.meta["fd1"].write(b)
        room = self.n - len(self.data)
        if room <= 0 and b:
            self.failed = True
            self.sim.count("stdout_" + self.errname)
            raise seams.oserr(self.errname, None)
        self.data += b[:room]
        return min(room, len(b))


def run_C20(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    cmd = sc["cmd"]
    if cmd.startswith("check"):
        argv = ["check"] + (["--json"] if cmd == "checkjson" else []) + FLAGS + [x for o in sc["opts"] for x in ("-o", o)] + args
    elif cmd.startswith("explain"):
        argv = ["explain"] + (["--json"] if cmd == "explainjson" else []) + FLAGS + sc["ids"]
    else:
        argv = ["version"] + FLAGS
    viols = []
    main, av = cli_main(argv)
    ref = isolated(sim, cwd, main, av)
    full = ref["out"].encode()
    if ref["exit"] not in (0, 1) or not full:
        return []
    for f in sc["fails"]:
        n = int(f["at"] * len(full))
        res = isolated(sim, cwd, *failing(f, n, argv))
        st = res["state"]
        sim.log("fail", f, n, res["exit"], len(st["written"]))
        sim.count("stdout_" + f["errno"] + ("_buffered" if f["buffered"] else ""))
        sim.nontrivial = True
        if not st["failed"]:
            viols.append(V("other-output", f"{argv}: the run wrote {len(st['written'])} bytes, without a fault {len(full)}"))
            continue
        if res["exit"] == 0 or res["exit"] is None:
            viols.append(V("success", f"{argv}: stdout failed with {f['errno']} after {n} of {len(full)} bytes "
                           f"({'block' if f['buffered'] else 'line'} buffered), exit status {res['exit']}"))
        if not full.startswith(st["written"]):
            viols.append(V("not-prefix", f"{argv}: what was written before {f['errno']} is not a prefix of the report: "
                           f"...{bytes(st['written'])[-80:]!r}"))
    sim.shape = cmd
    return viols


def failing(f, n, argv):
    """A run whose stdout takes n bytes; the interpreter's own flush at exit included."""

    def main():
        import edulint.edulint as e

        s = kernel.ACTIVE
        proc = s.task().proc
        raw = proc.meta["fd1"] = FailRaw(s, n, f["errno"])
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw, 8192 if f["buffered"] else 1), "utf-8",
                                      line_buffering=not f["buffered"], write_through=not f["buffered"])
        mine = sys.stdout
        code = 0
        try:
            try:
                code = e.main()
                code = 0 if code is None else code
            except SystemExit as x:
                code = x.code
        finally:
            try:
                if sys.stdout is mine:  # what the interpreter does when it shuts down
                    mine.flush()
                elif not sys.stdout.closed:
                    sys.stdout.flush()
            except Exception:
                code = 120
            proc.meta["state"] = {"failed": raw.failed, "written": bytes(raw.data)}
            mine_raw = mine.buffer
            try:
                mine.detach()
                mine_raw.detach()
            except Exception:
                pass
            sys.stdout = proc.stdout
        sys.exit(code)

    return main, ["edulint"] + argv


# ------------------------------------------------------------------------------------------------ C26
def printing(argv, encoding, errors):
    """A run whose standard output has an encoding of its own."""

    def main():
        import edulint.edulint as e

        proc = kernel.ACTIVE.task().proc
        raw = io.BytesIO()
        mine = sys.stdout = io.TextIOWrapper(raw, encoding, errors=errors, newline="\n", write_through=True)
        code = None
        try:
            code = e.main()
        except SystemExit as x:
            code = x.code
        finally:
            mine.flush()
            proc.meta["state"] = raw.getvalue()
            mine.detach()
            sys.stdout = proc.stdout
        sys.exit(code)

    return main, ["edulint"] + argv


def run_C26(sim, sc):
    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    opts = [x for o in sc["opts"] for x in ("-o", o)]
    enc, errors = sc["stdout"]
    crash = sc.get("crash")
    at = [-1]

    def prepare(s):
        Crash(s, at[0], crash[1], crash[2])

    prep = prepare if crash else None
    ref = isolated(sim, cwd, lambda: check(args, sc["opts"]), prepare=prep)
    if crash:
        at[0] = 1 + int(crash[0] * max(1, ref["calls"]))
        ref = isolated(sim, cwd, lambda: check(args, sc["opts"]), prepare=prep)
        sim.count("linter_raises")
    runs = {}
    for js in (True, False):
        argv = ["check"] + (["--json"] if js else []) + FLAGS + opts + args
        runs[js] = isolated(sim, cwd, *printing(argv, enc, errors), prepare=prep)
        sim.log("printed", js, enc, runs[js]["exit"], hash_text(repr(runs[js]["state"])))
    sim.count(f"stdout_encoding_{enc}_{errors}")
    if ref["exc"] is not None or ref["value"] is None:
        for js in runs:
            if runs[js]["exit"] in (0, 1, None):
                return [V("status", f"{'JSON' if js else 'text'}: exit {runs[js]['exit']}, as a library the check fails with {ref['exc']}")]
        sim.probes["refused"] += 1
        return []
    problems = ref["value"]["problems"]
    sim.nontrivial = bool(problems)
    sim.shape = f"{min(9, len(problems))} {enc} {bool(crash)}"
    exit_ = 1 if problems else 0
    out = []

    def decode(js):
        data = runs[js]["state"] or b""
        return data.decode(enc)

    # JSON
    r = runs[True]
    if r["exit"] != exit_:
        return [V("json-status", f"exit {r['exit']} for {len(problems)} problems, JSON on {enc}: {r['err'][-300:]}")]
    try:
        d = json.loads(decode(True))
    except ValueError as e:
        return [V("json", f"standard output is not one JSON document: {e}")]
    got = from_json(decode(True))
    if got != problems:
        return [V("json-problems", f"JSON tells other problems than the library: {diff(got, problems)}; order or fields")]
    from edulint.linting.problem import Problem

    try:
        back = [enc_problem(p) for p in Problem.schema().loads(json.dumps(d["problems"]), many=True)]
    except Exception as e:
        return [V("parse-back", f"the JSON output does not parse back: {describe(e)}")]
    if back != problems:
        return [V("parse-back", f"parsed back, the JSON output is not what was reported: {diff(back, problems)}")]
    want = [dict((k, v) for k, v in c[1]) for c in ref["value"]["configs"]]
    if d["configs"] != want:
        out.append(V("json-configs", f"configurations in JSON {str(d['configs'])[:200]} are not those used {str(want)[:200]}"))
    # text
    r = runs[False]
    lines = []
    for p in problems:
        f = dict(zip(FIELDS, p))
        by = f" [{f['enabled_by']}]" if f["enabled_by"] is not None else ""
        lines += f"{f['path']}:{f['line']}:{f['column']}: {f['code']} {f['text']}{by}".split("\n")
    text = decode(False)
    if r["exit"] != exit_:
        full = "\n".join(lines) + "".join(os.path.basename(p[0]) for p in problems)
        try:
            full.encode(enc, errors)
            return out + [V("text-status", f"exit {r['exit']} for {len(problems)} problems, text on {enc}: {r['err'][-300:]}")]
        except UnicodeError:
            if r["exit"] in (0, 1, None):
                return out + [V("text-status", f"exit {r['exit']} though the problems cannot be printed on {enc}")]
            sim.probes["text_not_printable"] += 1
            return out
    heads = {"****************** " + os.path.basename(p[0]) for p in problems}
    heads = {h.encode(enc, errors).decode(enc) for h in heads}
    shown = [x for x in text.split("\n")[:-1] if x not in heads]
    lines = [x.encode(enc, errors).decode(enc) for x in lines]
    if shown != lines:
        i = next((i for i, (a, b) in enumerate(zip(shown + [None], lines + [None])) if a != b), 0)
        out.append(V("text-problems", f"the text output and the problems differ at {i}: {(shown + [None])[i]!r} / {(lines + [None])[i]!r} "
                     f"({len(shown)} lines, {len(lines)} expected)"))
    return out


# ------------------------------------------------------------------------------------------------ C27
OVERRIDERS = {"C0104": {"R6307", "R6609", "F841", "W0613"}, "C0103": {"R6307", "R6609", "F841", "W0613"}, "E225": {"R6609"},
              "R1705": {"R1703", "R6201"}, "R6610": {"R6608"}, "W0107": {"W0101"}, "C0201": {"C0206"},
              "R6216": {"R6211", "R6212", "R6214", "R6215"}, "R6213": {"R6216"}, "R6221": {"R6222"}, "R6218": {"R6222"}}


class Raw:
    """What the linters report, taken where they hand it to their own reporters."""

    def __init__(self, sim):
        from flake8.style_guide import StyleGuide
        from pylint.reporters.base_reporter import BaseReporter

        self.rounds, self.msgs, cwd = [], [], None
        orig_f, orig_p = StyleGuide.handle_error, BaseReporter.handle_message

        def handle_error(guide, code, filename, line_number, column_number, text, physical_line=None):
            n = orig_f(guide, code, filename, line_number, column_number, text, physical_line)
            if n and sim.task() is not None:
                self.msgs.append((os.path.abspath(filename), line_number, (column_number or 0) + 1, code, text, None, None, None, "flake8"))
            return n

        def handle_message(reporter, m):
            if sim.task() is not None:
                self.msgs.append((os.path.abspath(m.path), m.line, m.column, m.msg_id, m.msg, m.end_line, m.end_column, m.symbol, "pylint"))
            return orig_p(reporter, m)

        StyleGuide.handle_error = handle_error
        BaseReporter.handle_message = handle_message


def dropped(m, msgs_by_line, conf):
    """Why a message may be left out: the documented tweaks and overrides."""
    import re as r

    code, text = m[3], m[4]
    if OVERRIDERS.get(code, set()) & msgs_by_line[m[0], m[1]]:
        return "overridden"
    if code == "C0104":
        x = r.match(r'Disallowed name "(.*)"', text)
        return x and len(x.group(1)) == 1 and x.group(1) in (conf.get("allowed-onechar-names") or "")
    if code == "F401":
        return text.startswith("'ib111")
    if code == "R6607":
        return "enhancement" not in conf.get("set-groups", [])
    if code == "C0325":
        return "not" in text
    if code == "W0622":
        x = r.match(r"Redefining built-in '?\"?(\w+)", text)
        names = conf.get("disallowed-builtin-names") or []
        return names and x.group(1) not in names
    return False


def run_C27(sim, sc):
    import re as r

    cwd = sc["cwd"]
    args = relabel(cwd, sc["abs"], sc["args"])
    plain = {}
    for p, t in sc["files"].items():
        if os.path.basename(p).startswith("lang"):
            t = ""
        elif p.endswith(".toml"):
            t = t.split("[language-translations]")[0] + "[language-translations]\n"
        plain[p] = t
    setup(sim, plain)
    box = {}

    def prepare(s):
        box["raw"] = Raw(s)

    def with_raw():
        v = check(args, sc["opts"])
        kernel.ACTIVE.task().proc.meta["state"] = box["raw"].msgs
        return v

    ref = isolated(sim, cwd, with_raw, prepare=prepare)
    if ref["value"] is None:
        return []
    setup(sim, sc["files"])
    proc = new_proc(sim, cwd, lambda: check(args, sc["opts"]), key="p")
    inner = sim.point
    only = sc["cfg"].get("only")

    def point(kind, detail="", faults=None, p=None, kill=True):
        if only and not os.path.basename(detail).startswith(only):
            faults = None
        return inner(kind, detail, faults, p, kill)

    sim.point = point
    sim.drain()
    sim.point = inner
    if proc.exc is not None or proc.value is None:
        sim.probes["refused"] += 1
        if not sim.vfaults:
            return [V("refused", f"with translations the check fails: {proc.exc!r} {proc.err[-300:]}, without them it does not")]
        return []
    got, want = absolute_problems(cwd, proc.value["problems"]), absolute_problems(cwd, ref["value"]["problems"])
    sim.nontrivial = bool(want)
    sim.shape = f"{min(9, len(want))} {bool(sim.vfaults)}"

    def bare(p):
        return p[:4] + p[5:]

    if [bare(p) for p in got] != [bare(p) for p in want]:
        return [V("presence", f"with translations the problems are others than without: {diff([bare(p) for p in got], [bare(p) for p in want])}"
                  f" (or their order); faults {sim.vfaults[:3]}")]
    lang_of, conf_of = {}, {}
    for fs, opts, _en, lang in proc.value["configs"]:
        for f in covered(sc["files"], cwd, fs):
            lang_of[PROJ + "/" + f], conf_of[PROJ + "/" + f] = lang, dict((k, v) for k, v in opts)
    viols = []
    for a, b in zip(got, want):
        lang = lang_of.get(a[0])
        if lang is None:
            continue
        t = lang.get(a[3], lang.get(a[7]))
        if t is None:
            if a[4] != b[4]:
                viols.append(V("text", f"{a[3]} is not translated, but its text {b[4]!r} became {a[4]!r}"))
            continue
        sim.probes["translated"] += 1
        known = TEMPLATES.get(a[3])
        template = t[0]
        m = known and known[0] and r.fullmatch(known[0], b[4])
        expected = template.format(*m.groups()) if m else template
        if known and (m or "{" not in template) and a[4] != expected:
            viols.append(V("wording", f"{a[3]} {b[4]!r} is translated by {template!r} to {a[4]!r}, expected {expected!r}"))
    # nothing is lost or invented between the linters and the report
    raw = ref["state"] or []
    by_line = {}
    for m in raw:
        by_line.setdefault((m[0], m[1]), set()).add(m[3])
    mine = Counter((p[0], p[1], p[2], p[3], p[5], p[6], p[7], p[9]) for p in want if p[9] != "edulint")
    theirs = Counter((m[0], m[1], m[2], m[3], m[5], m[6], m[7], m[8]) for m in raw)
    texts = {(m[0], m[1], m[2], m[3], m[5], m[6], m[7], m[8]): m for m in raw}
    for k in mine - theirs:
        viols.append(V("invented", f"{k} is reported, no linter said so"))
    for k in theirs - mine:
        conf = conf_of.get(k[0])
        if conf is not None and not dropped(texts[k], by_line, conf):
            viols.append(V("lost", f"{texts[k]} was reported by the linter and is not in the result"))
        else:
            sim.probes["tweaked_away"] += 1
    for k in mine & theirs:
        conf = conf_of.get(k[0])
        if k[3] in ("C0104", "W0622", "F401") and conf is not None and dropped(texts[k], {(k[0], k[1]): set()}, conf):
            viols.append(V("kept", f"{texts[k]} is reported although an option (or the name) leaves it out"))
    return viols[:3]
