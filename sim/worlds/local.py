"""Resolution of local configurations: chains of inheritance, language files, packaged configurations, in one long-lived
process, with edits in between and failing reads.

Simulated: the project's file system (in memory, fault points), the working directory, directory order; failing opens and
reads of the packaged configuration files (real files behind fault points).
Real: edulint.config.*, tomli, loguru.
Oracles: an independent model of the resolution (below: its own reading of the TOML dictionaries, inheritance, precedence,
groups), and the same resolution in a fork of the interpreter taken before anything was resolved, without faults.
"""

import os

import tomli

from .common import *  # noqa: F403
from .common import V
from . import common
from .lint import isolated, new_proc, relabel, choose_spelling, covered, describe, PROJ

PACKAGED = ["default", "empty", "cs0", "cs1", "full", "webtiger"]
FILES = boot.REPO + "/edulint/config/files"
REPLACED = {"allowed-onechar-names": "str", "disallowed-builtin-names": "list", "ignore-infile-config-for": "list",
            "export-groups": "list", "set-groups": "list", "language-file": "str", "config-file": "str", "no-flake8": "bool"}
DEFAULTS = [("config-file", "default"), ("pylint", []), ("flake8", []), ("allowed-onechar-names", None),
            ("disallowed-builtin-names", []), ("no-flake8", False), ("ignore-infile-config-for", []), ("export-groups", []),
            ("set-groups", []), ("language-file", None)]
SYMBOLS = ["missing-function-docstring", "unused-variable", "use-foreach", "no-else-return", "bad-format-string",
           "use-augmented-assign", "unreachable", "duplicate-value"]
packaged_texts = {}


def warm(prop):
    import edulint.edulint  # noqa

    common.cheaper_logger()
    for n in PACKAGED:
        with open(f"{FILES}/{n}.toml", encoding="utf-8") as f:
            packaged_texts[n] = f.read()


# ------------------------------------------------------------------------------------------------ generator
def one_toml(rng, cid, parent, lang, others):
    out = []
    if parent is not None:
        out.append(f'config-file = "{parent}"')
    if lang:
        out.append(f'language-file = "{lang}"')
    if rng.random() < 0.4:
        out.append(f'default-enabler-name = "Conf{cid}"')
    if rng.random() < 0.5:
        out.append(f'allowed-onechar-names = "{rng.choice(["", "i", "xY", "ab"])}"')
    if rng.random() < 0.3:
        out.append(f'set-groups = {rng.choice([["python-specific"], ["enhancement", "own"], ["own"], ["complexity", "nosuch"]])}')
    if rng.random() < 0.2:
        out.append('disallowed-builtin-names = ["print", "id%d"]' % cid)
    if rng.random() < 0.2:
        out.append('ignore-infile-config-for = ["%s"]' % rng.choice(["flake8", "pylint", "flake8", "pylint", "edulint", "all"]))
    if rng.random() < 0.2:
        out.append('export-groups = ["own", "enhancement"]')
    r = rng.random()
    if r < 0.1:
        out.append(f'pylint = "--enable={",".join(rng.sample(SYMBOLS, 2))}"')
    elif r < 0.15:
        out.append('flake8 = "--max-complexity=%d"' % (cid + 20))
    if r >= 0.1 and rng.random() < 0.8:
        out.append("[pylint]")
        if rng.random() < 0.15:
            out.append(f'{rng.choice(["disable", "enable"])} = "all"')
            if rng.random() < 0.5:
                out.append(f'max-args = {cid + 3}')
        elif rng.random() < 0.7:
            out.append(f"enable = {rng.sample(SYMBOLS, rng.randint(1, 3))}")
        if rng.random() < 0.4:
            out.append(f"disable = {rng.sample(SYMBOLS, rng.randint(1, 2))}")
        out.append(f'max-line-length = {100 + cid}')
        if rng.random() < 0.3:
            out.append(f'const-rgx = "[A-Z_]{{{cid},}}"')
    if not 0.1 <= r < 0.15 and rng.random() < 0.7:
        out.append("[flake8]")
        if rng.random() < 0.6:
            out.append(f'extend-ignore = ["E1{cid:02}", "W2{cid:02}"]')
        if rng.random() < 0.5:
            out.append(f'extend-select = ["F8{cid:02}"]')
        out.append(f"max-complexity = {cid}")
    if rng.random() < 0.25:
        out += ["[translations.own.pylint]", f"enable = {rng.sample(SYMBOLS, 2)}"]
        if rng.random() < 0.5:
            out += ["[translations.own.flake8]", f'max-doc-length = {cid}']
    if rng.random() < 0.7:
        out += ["[language-translations]", f'F841 = "conf {cid}: {{0}} nepoužito"', f'E5{cid:02} = "jen {cid}"']
        if rng.random() < 0.3:
            out += ['[language-translations.translated_extracts.F841.1]', f'"x" = "ž{cid}"']
    return "\n".join(str(x).replace("'", '"') for x in out) + "\n"


def lang_toml(rng, uid):
    out = [f'F841 = "lang {uid}: {{0}}"']
    if rng.random() < 0.6:
        out.append(f'C01{uid:02} = "řečeno {uid}"')
    if rng.random() < 0.2:
        out += ['[translated_extracts.F841.1]', f'"x" = "y{uid}"']
    return "\n".join(out) + "\n"


LOCKED = "\udcff# may not be read"


def rel(frm, to):
    r = os.path.relpath("/" + to, "/" + os.path.dirname(frm))
    return r if "/" in r or "." in r else "./" + r


def gen(rng, prop, tier):
    many = prop == "C25"  # more ways of setting the same options, fewer edits and faults
    dirs = [""]
    for n in rng.sample(["alpha/", "beta/", "hw1/", "alpha/deep/", "úkol/"], rng.randint(0, 3)):
        if n == "alpha/deep/" and "alpha/" not in dirs:
            dirs.append("alpha/")
        if n not in dirs:
            dirs.append(n)
    files, confs = {}, []
    names = []
    for i in range(rng.randint(1, 5 if tier == "quick" else 8)):
        d = rng.choice(dirs)
        n = d + (rng.choice(["edulint.toml", ".edulint.toml"]) if rng.random() < 0.3 else f"c{i}.toml")
        if n not in names:
            names.append(n)
    uid = [0]

    def text(i, name):
        """Configuration i inherits only from later ones (or, rarely, from anything)."""
        uid[0] += 1
        r = rng.random()
        later = names[i + 1:]
        if r < 0.55 and later:
            parent = rel(name, later[0] if rng.random() < 0.7 else rng.choice(later))
        elif r < 0.72:
            parent = rng.choice(PACKAGED)
        elif r < 0.75:
            parent = rel(name, rng.choice(names))
        elif r < 0.77:
            parent = "nosuch"
        else:
            parent = None
        lang = None
        if rng.random() < 0.35:
            lp = rng.choice(dirs) + f"lang{rng.randint(0, 2)}.toml"
            if lp not in files and rng.random() < 0.85:
                files[lp] = lang_toml(rng, uid[0])
            lang = rel(name, lp)
        return one_toml(rng, uid[0], parent, lang, names)

    for i, n in enumerate(names):
        files[n] = text(i, n)
    pys = []
    for i in range(rng.randint(1, 3)):
        p = rng.choice(dirs) + f"m{i}.py"
        files[p] = infile(rng, p, names, files)
        pys.append(p)

    steps = []
    for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
        edits = []
        for _ in range(rng.choice([0, 0, 0, 1] if many else [0, 0, 1, 1, 2])):
            r = rng.random()
            if r < 0.5:
                i = rng.randrange(len(names))
                edits.append([names[i], rng.choice([None, "[pylint\nbroken", "\udcff", LOCKED]) if rng.random() < 0.25 else text(i, names[i])])
            elif r < 0.75:
                langs = [p for p in files if "lang" in p] or ["lang0.toml"]
                uid[0] += 1
                edits.append([rng.choice(langs), rng.choice([None, "F841 = ", LOCKED, lang_toml(rng, uid[0]), lang_toml(rng, uid[0]), lang_toml(rng, uid[0])])])
            else:
                p = rng.choice(pys)
                edits.append([p, infile(rng, p, names, files)])
        r = rng.random()
        args = ["."] if r < 0.3 else rng.sample(pys, rng.randint(1, len(pys)))
        opts = []
        if rng.random() < 0.3:
            opts.append("config-file=" + rng.choice(PACKAGED + names))
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if many else rng.random() < 0.25):
            opts.append(rng.choice(["pylint=--enable=use-foreach", "pylint=--disable=all", "flake8=--max-complexity=7",
                                    "set-groups=own", "allowed-onechar-names=Q", "no-flake8", "pylint=--good-names=Abc",
                                    "set-groups=enhancement,own pylint=--disable=all pylint=--enable=use-foreach",
                                    "ignore-infile-config-for=all", "ignore-infile-config-for=pylint", "nosuch=1",
                                    "allowed-onechar-names=A allowed-onechar-names=B", "disallowed-builtin-names=sum,len"]))
        if rng.random() < 0.1:
            opts.append("language-file=" + rng.choice([p for p in files if "lang" in p] or ["./nolang.toml"]))
        steps.append({"edits": edits, "args": args, "opts": opts, "faulty": rng.random() < (0.1 if many else 0.5),
                      "how": "one" if len(args) == 1 and args[0].endswith(".py") and rng.random() < 0.6 else "many"})
    p = rng.choice([0.005, 0.02, 0.06])
    return {"cfg": {"dir_order": rng.randint(1, 10**6), "p_fault": {k: p for k in ("open", "read", "stat", "listdir", "r.open",
                                                                                  "r.read", "r.stat")},
                    "fault_under": PROJ, "sticky": rng.random() < 0.3,
                    "enabled": swarm(rng, ["open:EIO", "open:EACCES", "open:EMFILE", "read:EIO", "read:short", "stat:EACCES",
                                           "stat:EIO", "listdir:EIO", "r.open:EIO", "r.open:EACCES", "r.open:EMFILE",
                                           "r.read:EIO", "r.read:short", "r.stat:EACCES", "r.stat:EIO"], 0.6)},
            "files": files, "cwd": "", "abs": choose_spelling(rng), "actions": steps}


def infile(rng, p, names, files):
    out = []
    if rng.random() < 0.45:
        out.append(f"# edulint: config-file={rel(p, rng.choice(names)) if rng.random() < 0.8 else rng.choice(PACKAGED)}")
    for _ in range(rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 1, 2])):
        out.append(rng.choice(["# edulint: allowed-onechar-names=zZ", "# edulint: pylint=--enable=unused-variable,Use-Foreach",
                               "# edulint: flake8=--extend-ignore=E999 set-groups=own,enhancement", "# Edulint: no-flake8",
                               "# edulint: pylint=--disable=all pylint=--enable=unreachable",
                               "# edulint: ignore-infile-config-for=edulint", "# edulint: ignore-infile-config-for=flake8,all",
                               "# edulint: set-groups=own\n# edulint: set-groups=python-specific",
                               "# edulint: disallowed-builtin-names=max no-such-option pylint"]))
    if rng.random() < 0.12:
        langs = [q for q in files if "lang" in q]
        out.append(f"# edulint: language-file={rel(p, rng.choice(langs)) if langs else './none.toml'}")
    return "\n".join(out) + "\nx = 1\n"


def simpler(sc):
    for p in sorted(sc["files"]):
        rest = {k: v for k, v in sc["files"].items() if k != p}
        if any(k.endswith(".py") for k in rest):
            yield {**sc, "files": rest}
    for i, st in enumerate(sc["actions"]):
        for k, v in (("edits", []), ("opts", []), ("faulty", False)):
            if st[k] != v:
                yield {**sc, "actions": sc["actions"][:i] + [{**st, k: v}] + sc["actions"][i + 1:]}
        if len(st["args"]) > 1:
            for a in st["args"]:
                yield {**sc, "actions": sc["actions"][:i] + [{**st, "args": [a]}] + sc["actions"][i + 1:]}
    if sc["abs"]:
        yield {**sc, "abs": False}
    for p in sorted(sc["files"]):
        lines = sc["files"][p].splitlines()
        if len(lines) > 1:
            for i in range(len(lines)):
                yield {**sc, "files": {**sc["files"], p: "\n".join(lines[:i] + lines[i + 1:]) + "\n"}}


# ------------------------------------------------------------------------------------------------ independent model
class Refused(Exception):
    pass


def put_into(files, path):
    """-> dictionary of a configuration, by absolute path, or packaged name"""
    if "/" not in path and "." not in path:
        if path not in packaged_texts:
            raise Refused(path)
        return tomli.loads(packaged_texts[path])
    text = files.get(os.path.relpath(path, PROJ))
    if text is None:
        raise Refused(path)
    try:
        text.encode()
        return tomli.loads(text)
    except (tomli.TOMLDecodeError, UnicodeEncodeError):
        raise Refused(path)


def absolute(path, owner):
    if "/" not in path and "." not in path:
        return path
    if "/" not in owner:
        owner = FILES + "/x"
    return os.path.normpath(os.path.join(os.path.dirname(owner), path))


def scalar(v):
    return ",".join(v) if isinstance(v, list) else str(v)


def chain(files, path):
    """[(enabler, [(option, raw value)])] from the base to the given file, groups, translations of messages"""
    seen, dicts = set(), []
    while True:
        if path in seen:
            raise Refused("inherits from itself")
        seen.add(path)
        d = put_into(files, path)
        dicts.append((path, d))
        if path == "empty":
            break
        path = absolute(d.get("config-file", "empty"), path)
    levels, groups, lang = [], {}, {}
    for path, d in reversed(dicts):
        args = []
        for k, v in d.items():
            if k in ("config-file", "default-enabler-name"):
                continue
            if k == "translations":
                for g, to in v.items():
                    groups[g] = {linter: [f"--{a}={scalar(b)}" for a, b in vals.items()] for linter, vals in to.items()}
            elif k == "language-translations":
                lang.update(messages(v))
            elif k in ("pylint", "flake8") and isinstance(v, dict):
                args += [(k, f"--{a}={scalar(b)}") for a, b in v.items()]
            else:
                args.append((k, absolute(v, path) if k == "language-file" else scalar(v)))
        levels.append((d.get("default-enabler-name", os.path.splitext(os.path.basename(path))[0]), args))
    return levels, groups, lang


def messages(d):
    ex = d.get("translated_extracts", {})
    return {k: [v, ex.get(k, {})] for k, v in d.items() if k != "translated_extracts"}


def typed(opt, raw):
    kind = REPLACED.get(opt, "one")
    if kind == "str":
        return raw
    if kind == "bool":
        return True
    if kind == "list":
        return raw.split(",") if raw else []
    return [raw]


NAMES = [k for k, _ in DEFAULTS]


def known(x):
    """The option, unless its name is unknown or it lacks its value (reported, and left out)."""
    k, v = x
    return x if k in NAMES and (v is None) == (k == "no-flake8") else None


def ignoring(args):
    """Is in-file configuration to be ignored?"""
    last = [v for k, v in args if k == "ignore-infile-config-for"][-1:]
    return bool(last) and bool({"edulint", "all"} & set(last[0].split(",")))


def model(files, f, cwd, opts):
    """What resolving the configuration of f must give: (options, enablers, messages), or Refused."""
    import shlex

    own = []
    d = os.path.dirname(f)
    while True:
        hit = next((os.path.join(d, n) for n in ("edulint.toml", ".edulint.toml") if os.path.join(d, n) in files), None)
        if hit:
            own.append(("config-file", PROJ + "/" + hit))
            break
        if not d:
            break
        d = os.path.dirname(d)
    files[f].encode()
    for line in files[f].splitlines():
        if line.lower().startswith("# edulint:"):
            for a in shlex.split(line.split(":", 1)[1]):
                k, _, v = a.partition("=")
                if k in ("config-file", "language-file"):
                    v = absolute(v, PROJ + "/" + f)
                own.append((k, v if "=" in a else None))
    cmd = []
    for o in opts:
        for a in shlex.split(o):
            k, _, v = a.partition("=")
            cmd.append((k, v if "=" in a else None))
    own, cmd = [known(x) for x in own if known(x)], [known(x) for x in cmd if known(x)]
    if ignoring(cmd):
        own = []
    elif ignoring(own):
        own = [x for x in own if x[0] == "ignore-infile-config-for"][-1:]
    conf = dict(own + cmd).get("config-file", "default")
    if not ("/" not in conf and "." not in conf):
        conf = os.path.normpath(os.path.join((PROJ + "/" + cwd), conf))
    levels, groups, lang = chain(files, conf)
    if ignoring([a for _, args in levels for a in args]):  # no in-file configuration, nor a configuration file it asks for
        own, levels = [], levels if "config-file" in dict(cmd) else []
    levels = levels + [("in-file", own), ("cmd", cmd)]
    enablers = {}
    for g, to in groups.items():
        for linter, vals in to.items():
            for v in vals:
                enable(enablers, g, linter, v)
    mine = {}
    for name, args in levels:
        last = {}
        for i, (k, v) in enumerate(args):
            last[k] = i
        for i, (k, v) in enumerate(args):
            if k in REPLACED and last[k] != i:
                continue
            for x in (typed(k, v) if not isinstance(typed(k, v), (str, bool, type(None))) else [typed(k, v)]):
                enable(mine, name, k, x)
    enablers.update(mine)
    flat = [a for _, args in levels for a in args]
    last = {k: i for i, (k, v) in enumerate(flat)}
    seq = [(k, typed(k, v)) for i, (k, v) in enumerate(flat) if k not in REPLACED or last[k] == i]
    out = {k: list(v) if isinstance(v, list) else v for k, v in DEFAULTS}
    for k, v in seq:
        if k in REPLACED:
            out[k] = v
        else:
            out[k] += v
        for g in ([x for x in v] if k == "set-groups" else []) + [k]:
            for linter, vals in groups.get(g, {}).items():
                out[linter] = out[linter] + vals
    py = out["pylint"]
    alls = [i for i, a in enumerate(py) if a.lower() in ("--disable=all", "--enable=all")]
    if alls:
        other = "--enable" if py[alls[-1]].lower() == "--disable=all" else "--disable"
        py = [a for i, a in enumerate(py)
              if i >= alls[-1] or i not in alls and (not a.lower().startswith(other) or a.lower() == "--enable=noop")]
    out["pylint"] = py
    whole, part = dict(lang), dict(lang)
    lf = out["language-file"]
    lang_ok = True
    if lf is not None:
        lf = lf if "/" not in lf and "." not in lf else os.path.normpath(os.path.join(PROJ + "/" + cwd, lf))
        try:
            whole.update(messages(put_into(files, lf)))
        except Refused:
            lang_ok = False
    return {"options": out, "enablers": enablers, "lang": whole, "lang_without_file": part, "lang_ok": lang_ok}


def plain(args):
    """The letter case of what is enabled and disabled makes no difference."""
    return [a.lower() if a.lower().startswith(("--enable=", "--disable=")) else a for a in args]


def enable(into, name, linter, v):
    if not isinstance(v, str):
        return
    for o, prefixes in (("pylint", ["--enable="]), ("flake8", ["--select=", "--extend-select="])):
        for p in prefixes:
            if linter == o and v.startswith(p):
                for s in v[len(p):].split(","):
                    into[s] = name
    if linter == "ignore-infile-config-for":
        into["EDL001"] = name


# ------------------------------------------------------------------------------------------------ running it
def encode_configs(configs):
    out = []
    for files, config, lang in configs:
        out.append([[str(f) for f in files], {a.option.to_name(): list(a.val) if isinstance(a.val, tuple) else a.val for a in config},
                    dict(config.enablers), {k: [t.translation, t.extracts] for k, t in lang.items()}])
    return json.loads(json.dumps(out))


def resolve(st, args):
    """-> (configurations or None, error messages)"""
    import shlex

    import edulint
    from loguru import logger

    opts = [a for o in st["opts"] for a in shlex.split(o)]
    errors = []
    h = logger.add(lambda m: errors.append(str(m)), level="ERROR", format="{message}")
    try:
        if st["how"] == "one":
            c = edulint.get_config_one(args[0], list(opts))
            return (None if c is None else encode_configs([([args[0]], *c)])), errors
        return encode_configs(edulint.get_config_many(list(args), list(opts))), errors
    except Exception as e:
        errors.append(f"{type(e).__name__}: {e}")
        return None, errors
    finally:
        logger.remove(h)


def put(sim, files):
    for p, t in files:
        full = PROJ + "/" + p
        if t is None:
            if p in sim.vfs_now:
                sim.vfs.unlink(full)
                del sim.vfs_now[p]
        else:
            sim.vfs.makedirs(os.path.dirname(full))
            sim.vfs.put(full, t.encode("utf-8", "surrogateescape"))
            sim.vfs.lookup(full).mode = 0 if t == LOCKED else 0o644
            sim.vfs_now[p] = t


def per_file(sim, st, args, files, got):
    """{file: [options, enablers, messages]}, problems of coverage"""
    out, twice = {}, []
    for paths, options, enablers, lang in got:
        for f in covered(files, "", paths):
            if f in out:
                twice.append(f)
            out[f] = [options, enablers, lang]
    return out, twice


def run(sim, sc, prop):
    steps = [st for st in sc["actions"]]
    common.attach(sim, state=False)
    sim.vfs.makedirs(PROJ)
    sim.vfs_now = {}
    put(sim, sorted(sc["files"].items()))
    states, refs = [], []
    for st in steps:
        put(sim, st["edits"])
        states.append(dict(sim.vfs_now))
        args = [a for a in st["args"] if a == "." or a in sim.vfs_now]
        refs.append(isolated(sim, "", lambda: resolve(st, relabel("", sc["abs"], args))) if args else None)
        if refs[-1] is not None and refs[-1]["exc"]:
            raise kernel.HarnessError(f"reference died: {refs[-1]['exc']} {refs[-1]['err'][-300:]}")
    put(sim, [(p, None) for p in list(sim.vfs_now) if p not in sc["files"]] + sorted(sc["files"].items()))
    sim.faults_on = False
    sim.rroot = os.path.realpath(FILES)
    results = []

    def session():
        for i, st in enumerate(steps):
            put(sim, st["edits"])
            args = [a for a in st["args"] if a == "." or a in sim.vfs_now]
            if not args:
                results.append(None)
                continue
            before = len(sim.vfaults) + len(sim.rfaults)
            sim.sticky.clear()
            sim.faults_on = st["faulty"]
            try:
                got, errors = resolve(st, relabel("", sc["abs"], args))
            finally:
                sim.faults_on = False
            results.append([got, errors, (list(sim.vfaults) + list(sim.rfaults))[before:] if len(sim.vfaults) + len(sim.rfaults) > before else []])
            sim.log("resolved", i, got is None, len(errors))

    proc = new_proc(sim, "", session, key="p")
    sim.drain()
    if sim.stop or proc.exc is not None:
        return [V("crash", f"the session ended with {proc.exc!r} {sim.stop} {proc.err[-300:]}")]
    viols = []
    for i, (st, files, ref, res) in enumerate(zip(steps, states, refs, results)):
        if res is None or ref is None:
            continue
        viols += judge(sim, sc, i, st, files, ref["value"], res)
        if viols:
            break
    return viols


def judge(sim, sc, i, st, files, ref, res):
    got, errors, faults = res
    args = [a for a in st["args"] if a == "." or a in files]
    where = f"step {i}, {args} {st['opts']}"
    todo = sorted(set(covered(files, "", args)))
    want, refused = {}, []
    for f in todo:
        try:
            want[f] = model(files, f, "", st["opts"])
        except Refused as e:
            refused.append(str(e))
    sim.nontrivial = True
    if faults:
        sim.probes["resolved_under_faults"] += 1
    if got is None:
        sim.probes["refused"] += 1
        if not errors:
            return [V("silent", f"{where}: refused without an error message")]
        if not refused and not faults:
            return [V("refused", f"{where}: refused without a reason: {errors[:2]}")]
        return []
    if refused and not any(f for f in faults):
        return [V("incomplete", f"{where}: used although {refused[0]!r} of its configuration cannot be had")]
    if refused:
        return [V("incomplete", f"{where}: used although {refused[0]!r} of its configuration cannot be had (faults {faults[:3]})")]
    mine, twice = per_file(sim, st, args, files, got)
    if twice or sorted(mine) != todo:
        return [V("coverage", f"{where}: configurations are given for {sorted(mine)} ({twice} twice), expected {todo}; faults {faults[:3]}")]
    for f in todo:
        options, enablers, lang = mine[f]
        w = want[f]
        sim.probes["judged_against_model"] += 1
        lf = w["options"]["language-file"]
        for k, v in w["options"].items():
            x = options[k]
            if k in ("config-file", "language-file") and v is not None and "/" in str(x):
                v, x = os.path.normpath(os.path.join(PROJ, v)), os.path.normpath(os.path.join(PROJ, x))
            if k == "pylint":
                v, x = plain(v), plain(x)
                n = next((n for n, (a, b) in enumerate(zip(v, x)) if a != b), min(len(v), len(x)))
                v, x = v if v == x else [f"after {n} common"] + v[n:], x if v == x else [f"after {n} common"] + x[n:]
            if x != v:
                return [V("options", f"{where}: {f}: {k} is {x!r}, expected {v!r}; faults {faults[:3]}")]
        if enablers != w["enablers"]:
            d = {k: (enablers.get(k), w["enablers"].get(k)) for k in {*enablers, *w["enablers"]} if enablers.get(k) != w["enablers"].get(k)}
            return [V("enablers", f"{where}: {f}: enabled by (is, expected): {d}; faults {faults[:3]}")]
        if lang == w["lang"]:
            if lf is not None:
                sim.probes["language_file_used"] += 1
            if not w["lang_ok"] and not errors:
                return [V("silent", f"{where}: {f}: {lf} cannot be had, there is no error message")]
            continue
        if lang == w["lang_without_file"] and faults and errors:
            sim.probes["language_file_given_up"] += 1
            continue
        d = {k: (lang.get(k), w["lang"].get(k)) for k in {*lang, *w["lang"]} if lang.get(k) != w["lang"].get(k)}
        return [V("messages", f"{where}: {f}: translations (is, expected): {dumps(d)[:400]}; faults {faults[:3]}, errors {errors[:2]}")]
    if not faults and ref[0] is not None:
        rmine, _ = per_file(sim, st, args, files, ref[0])
        if rmine != mine:
            return [V("history", f"{where}: differs from what a fresh process resolves")]
    if not faults and ref[0] is None:
        return [V("history", f"{where}: a fresh process refuses it")]
    return []
