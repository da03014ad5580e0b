"""EduLint's own housekeeping: update notice and explanation updates, across runs, crashes, faults and time.

Simulated: a user's machine on which `edulint` is started again and again, PyPI, GitHub, the clock, the data directory.
Real: edulint's command line, version check, explanation update, loguru, requests/urllib3 response handling, tomli,
dbm.dumb, json - all running on the simulated disk and network.
"""

import json
import os
import random
import re

from .common import *  # noqa: F403
from .common import V, kernel, seams, boot
from . import common

GH = "raw.githubusercontent.com"
GH_PATH = "/GiraffeReversed/edulint/main/edulint/explanations.toml"
PYPI = "pypi.org"
CONF = "conf.test"
HOUR = 3600
IDS = ["C0103", "E1101", "R1705", "W0101", "W0612", "R6101", "E501", "C0200"]

_ref = {}


def warm(prop):
    import edulint.edulint  # noqa
    import tomli
    from importlib.metadata import version

    common.warm_state()
    _ref["installed"] = version("edulint")
    with open(os.path.join(boot.REPO, "edulint", "explanations.toml"), "rb") as f:
        _ref["packaged"] = tomli.load(f)
    common.monitor_housekeeping()
    common.cheaper_logger()
    import edulint

    edulint.check_code([os.path.join(common.SRC, "dirty.py")], [])


# --------------------------------------------------------------------------------------------- the outside world
def newest(releases):
    from packaging.version import Version, InvalidVersion

    best = None
    for r in releases:
        if r.get("yanked") or not r.get("files", 1):
            continue
        try:
            v = Version(r["v"])
        except InvalidVersion:
            continue
        if v.is_prerelease or v.is_devrelease or v.is_postrelease:
            continue
        if best is None or v > best:
            best = v
    return None if best is None else str(best)


def pypi_body(releases, order="lexical"):
    rel = {}
    releases = sorted(releases, key=lambda r: r["v"])  # as PyPI itself lists them
    if order != "lexical":
        random.Random(order).shuffle(releases)
    for r in releases:
        rel[r["v"]] = [
            {"filename": f"edulint-{r['v']}{ext}", "yanked": bool(r.get("yanked")), "packagetype": kind}
            for ext, kind in [("-py3-none-any.whl", "bdist_wheel"), (".tar.gz", "sdist")][: r.get("files", 2)]
        ]
    return json.dumps({"info": {"name": "edulint", "version": newest(releases)}, "releases": rel, "urls": []}).encode()


def expl_dict(rev, big):
    out = {}
    for i, mid in enumerate(IDS):
        text = f"revision {rev}: proč {mid} — žluťoučký kůň. " + "Filler text for this explanation. " * (25 if big else 1)
        out[mid] = {"why": text.strip() + f" end {rev}", "examples": f"x = {rev}  # rev {rev}\ny = {i}\n# end {rev}"}
    return out


def expl_body(rev, big):
    lines = [f"# explanations, revision {rev}"]
    for mid, e in expl_dict(rev, big).items():
        lines += [f"[{mid}]", f"why = {json.dumps(e['why'], ensure_ascii=False)}", 'examples = """', e["examples"] + '"""', ""]
    return "\n".join(lines).encode("utf-8")


# --------------------------------------------------------------------------------------------- generator
CMDS = {
    "version": ["version"],
    "expl_all": ["explain", "all", "--json"],
    "expl_one": ["explain", "R1705", "--json"],
    "expl_text": ["explain", "W0101", "C0200"],
    "check": ["check", os.path.join("SRC", "clean.py")],
    "check_json": ["check", "--json", os.path.join("SRC", "dirty.py")],
}
NOVER, NOEXPL = "--disable-version-check", "--disable-explanations-update"


def bump(rng, v):
    a, b, c = (int(x) for x in re.match(r"(\d+)\.(\d+)\.(\d+)", v).groups())
    k = rng.randrange(6)
    if k == 0:
        return f"{a}.{b}.{c + 1}"
    if k == 1:
        return f"{a}.{b}.{c + 9}"
    if k == 2:
        return f"{a}.{b + 1}.0"
    if k == 3:
        return f"{a}.{b + 8}.0"
    if k == 4:
        return f"{a + 1}.0.0"
    return f"{a + 6}.0.1"


def add_release(releases, r):
    return [x for x in releases if x["v"] != r["v"]] + [r]


def gen_publish(rng, known):
    """One PyPI event."""
    k = rng.random()
    top = max((r["v"] for r in known if re.fullmatch(r"\d+\.\d+\.\d+", r["v"])),
              key=lambda s: [int(x) for x in s.split(".")])
    if k < 0.5:
        return {"v": bump(rng, top)}
    if k < 0.6:  # a patch of an older release line
        return {"v": bump(rng, rng.choice([r["v"] for r in known if re.fullmatch(r"\d+\.\d+\.\d+", r["v"])]))}
    if k < 0.72:
        return {"v": bump(rng, top) + rng.choice(["rc1", "a2", "b1", ".dev3"])}
    if k < 0.8:
        return {"v": bump(rng, top), "files": 0}
    if k < 0.88:
        return {"v": bump(rng, top), "yanked": True}
    if k < 0.95:
        return {"v": top, "yanked": True}  # yank the newest
    return {"v": rng.choice(["1.0-legacy", "0.0.0-broken!", "4.x"])}


def gen(rng, prop, tier):
    inst = _ref.get("installed", "4.3.1")
    faulty = {"C03": 0.5, "C04": 0.6, "C05": 0.9, "C06": 0.75, "C07": 0.0, "C08": 0.4, "C09": 0.8, "C10": 0.9}[prop]
    faults = rng.random() < faulty
    cfg = {"p_fault": {}, "budget": {}, "fault_under": DATA}
    if faults:
        disk = rng.random() < 0.6
        en = swarm(rng, ["net:" + f for f in
                         ("dns", "refused", "connect_timeout", "stall", "reset_before", "reset_body", "truncated",
                          "http500", "http404", "http503", "empty200", "html200", "slow", "garbage", "http202", "http204", "json404", "json200", "portal", "badgzip")], 0.6)
        if disk:
            en += swarm(rng, DISK, 0.4)
            for k in ("read", "write", "create", "open", "rename", "unlink", "mkdir", "fsync", "stat", "listdir"):
                cfg["p_fault"][k] = rng.choice([0.01, 0.04, 0.12])
        if rng.random() < 0.6:
            en += SHORT
            cfg["p_fault"].setdefault("read", 0.05)
            cfg["p_fault"].setdefault("write", 0.05)
        cfg["p_fault"]["net"] = rng.choice([0.1, 0.3, 0.6])
        if rng.random() < 0.6:
            en += TORN
            cfg["p_fault"]["write"] = max(cfg["p_fault"].get("write", 0), rng.choice([0.05, 0.15]))
            cfg["budget"]["kill"] = rng.randint(1, 3)
            cfg["p_kill"] = rng.choice([0.005, 0.02, 0.05])
        if prop == "C04":
            en = [e for e in en if e not in ("net:slow",)]
        if rng.random() < 0.12 and prop in ("C03", "C04", "C09", "C10", "C05"):
            cfg["readonly_data"] = rng.choice([1, 2])
        if rng.random() < (0.4 if prop == "C10" else 0.15):  # a server that is never right
            k = rng.choice(["stall", "connect_timeout", "slow", "reset_body", "truncated", "http500", "dns", "refused", "reset_before",
                            "html200", "http204", "badgzip"])
            if prop != "C04" or k != "slow":
                cfg["net_stuck"] = {h: k for h in rng.sample([PYPI, GH], rng.choice([1, 2]))}
        cfg["enabled"] = sorted(set(en))
    if rng.random() < 0.8:
        cfg["p_switch"] = rng.choice([0.05, 0.2, 0.4])
        cfg["p_pick"] = rng.choice([0.2, 0.5])
    releases = [{"v": "4.2.0"}, {"v": "4.2.1"}, {"v": "4.3.0"}]
    if rng.random() < 0.85:
        releases.append({"v": inst})
    if rng.random() < 0.6:
        releases.append(gen_publish(rng, releases))
    while rng.random() < 0.4:
        releases = add_release(releases, gen_publish(rng, releases))
    sc = {"cfg": cfg, "releases": [dict(r) for r in releases], "big": rng.random() < 0.5,
          "heal": rng.choice(["huge", "patch", "minor", "major", "minor10", "patch10"]), "order": rng.choice(["lexical", "lexical", rng.randrange(100)]),
          "ctype": rng.choice(["text/plain; charset=utf-8", "text/plain; charset=utf-8", "text/plain"]),
          "gzip": rng.random() < 0.5, "actions": []}
    acts = sc["actions"]
    n = rng.randint(2, 6 if tier == "quick" else 9)
    rev = 0
    concurrency = {"C03": 0.15, "C04": 0.15, "C05": 0.3, "C06": 0.5, "C07": 0.0, "C08": 0.2, "C09": 0.4, "C10": 0.2}[prop]
    for _ in range(n):
        if rng.random() < 0.35:
            r = gen_publish(rng, releases)
            releases = add_release(releases, r)
            acts.append({"a": "publish", "r": r})
        if rng.random() < 0.5:
            rev += 1
            acts.append({"a": "expl", "rev": rev})
        if rng.random() < 0.12 and faults:
            acts.append({"a": "net", "up": rng.random() < 0.5})
        procs = []
        k = 1 if rng.random() > concurrency else rng.randint(2, 3)
        checks = 0
        for _j in range(k):
            w = {"version": 3, "expl_all": 4, "expl_one": 2, "expl_text": 1, "check": 0.5, "check_json": 0.5}
            if prop == "C09":
                w["check"] = w["check_json"] = 1.5
            if prop in ("C06", "C07"):
                w["expl_all"] = 8
            if checks:
                w["check"] = w["check_json"] = 0
            c = rng.choices(list(w), list(w.values()))[0]
            checks += c.startswith("check")
            argv = list(CMDS[c])
            pf = {"C08": 0.5}.get(prop, 0.08)
            if rng.random() < pf:
                argv.append(NOVER)
            if rng.random() < pf:
                argv.append(NOEXPL)
            procs.append(argv)
        act = {"a": "run", "p": procs}
        if faults and prop in ("C03", "C05", "C06", "C09") and rng.random() < 0.12:
            act["power_at"] = rng.randint(1, 90)
        acts.append(act)
        if faults and prop in ("C03", "C05", "C06", "C09") and rng.random() < 0.1:
            acts.append({"a": "power"})
        if prop == "C05" and rng.random() < 0.5:
            acts.append({"a": "corrupt", "i": rng.randrange(8), "seed": rng.randrange(1 << 30),
                         "how": rng.choice(["empty", "truncate", "garbage", "flip", "delete", "shape"])})
        if prop in ("C05",) and rng.random() < 0.3:
            acts.append({"a": "jump", "s": rng.choice([-10**8, -86400 * 30, -7200, -700, 7200, 86400 * 400])})
        acts.append({"a": "sleep", "s": rng.choice([1, 30, 500, 590, 610, 700, 1200, 1800, 3000, 3590, 3610, 4000, 90000])})
    return sc


def simpler(sc):
    for k in ("big", "gzip"):
        if sc.get(k):
            yield {**sc, k: False}
    for i, a in enumerate(sc["actions"]):
        if a["a"] == "run" and len(a["p"]) > 1:
            for j in range(len(a["p"])):
                yield {**sc, "actions": sc["actions"][:i] + [{**a, "p": a["p"][:j] + a["p"][j + 1:]}] + sc["actions"][i + 1:]}
        if a["a"] == "run":
            for j, p in enumerate(a["p"]):
                if p[0] == "check":
                    q = a["p"][:j] + [["version"] + [x for x in p if x.startswith("--disable")]] + a["p"][j + 1:]
                    yield {**sc, "actions": sc["actions"][:i] + [{**a, "p": q}] + sc["actions"][i + 1:]}
    if sc["cfg"].get("net_stuck"):
        yield {**sc, "cfg": {**sc["cfg"], "net_stuck": {}}}
    if sc["cfg"].get("readonly_data"):
        yield {**sc, "cfg": {**sc["cfg"], "readonly_data": 0}}


# --------------------------------------------------------------------------------------------- execution
class World:
    def __init__(self, sim, sc, prop):
        self.sim, self.sc, self.prop = sim, sc, prop
        self.releases = {r["v"]: dict(r) for r in sc["releases"]}
        self.hist = [(sim.mono, newest(self.releases.values()))]
        self.rev = 0
        self.revs = [(sim.mono, 0)]
        self.served = {}
        self.runs = []
        self.viols = []
        self.nproc = 0
        self.disturbed = bool(sc["cfg"].get("p_fault")) or bool(sc["cfg"].get("readonly_data"))
        sim.net.hosts = {PYPI: self.pypi, GH: self.github, CONF: self.conf}
        self.confrev = 0
        sim.net.gzip = sc.get("gzip", False)
        sim.net.modified = lambda u: {PYPI: self.hist, GH: self.revs}.get(u.hostname, [(0, 0)])[-1][0]

    def pypi(self, u, req):
        if u.path.rstrip("/") != "/pypi/edulint/json":
            return 404, {"Content-Type": "text/html"}, b"<html>not found</html>"
        return 200, {"Content-Type": "application/json"}, pypi_body(list(self.releases.values()), self.sc.get("order", "lexical"))

    def github(self, u, req):
        if u.path != GH_PATH:
            return 404, {"Content-Type": "text/plain; charset=utf-8"}, b"404: Not Found"
        return 200, {"Content-Type": self.sc.get("ctype", "text/plain; charset=utf-8")}, expl_body(self.rev, self.sc["big"])

    def conf(self, u, req):
        b = f'allowed-onechar-names = "rev{self.confrev}"\n'
        return 200, {"Content-Type": "text/plain; charset=utf-8"}, b.encode()

    def viol(self, prop, cls, msg):
        if prop == self.prop:
            self.viols.append(V(f"{prop}:{cls}", msg))

    # -- actions
    def do(self, act):
        s = self.sim
        a = act["a"]
        if a == "run":
            self.run_group(act)
        elif a == "sleep":
            s.advance(act["s"])
            s.vfs.sync_all() if act["s"] >= 30 else None
        elif a == "jump":
            s.jump(act["s"])
        elif a == "power":
            power_loss(s, f"{len(self.runs)}")
        elif a == "publish":
            self.releases[act["r"]["v"]] = dict(act["r"])
            self.hist.append((s.mono, newest(self.releases.values())))
        elif a == "expl":
            self.rev = act["rev"]
            self.revs.append((s.mono, self.rev))
        elif a == "net":
            s.net.reachable = act["up"]
            self.disturbed = True
        elif a == "corrupt":
            self.corrupt(act)

    def corrupt(self, act):
        import random

        s = self.sim
        files = [p for p in s.vfs.files() if p.startswith(DATA + "/")]
        if not files:
            return
        p = files[act["i"] % len(files)]
        r = random.Random(act["seed"])
        d = bytearray(s.vfs.read_bytes(p))
        how = act["how"]
        if how == "empty":
            d = b""
        elif how == "truncate":
            d = d[: r.randint(0, len(d))]
        elif how == "garbage":
            d = bytes(r.getrandbits(8) for _ in range(r.randint(1, 64)))
        elif how == "flip" and d:
            for _ in range(r.randint(1, 4)):
                d[r.randrange(len(d))] ^= 1 << r.randrange(8)
        elif how == "shape":
            d = r.choice([b"[]", b"null", b"3", b'{"edulint": []}', b'{"edulint": {"version": 7}}', b"\xff\xfe",
                          b'{"edulint": {"version": "zzz", "last_update_started": "x"}}', b'{"edulint": null}'])
        s.count("corrupt_" + how)
        s.log("CORRUPT", how, p)
        if how == "delete":
            s.vfs.unlink(p)
            s.vfs.sync_all()
        else:
            s.vfs.put(p, bytes(d))

    def run_group(self, act, faults=True):
        s = self.sim
        if s.stop:
            return []
        recs = []
        s.faults_on = faults
        before = self.snapshot()
        for argv in act["p"]:
            argv = [a.replace("SRC", common.SRC) for a in argv]
            self.nproc += 1
            fn, av = cli(argv)
            p = s.new_proc(f"p{self.nproc}", fn, av)
            rec = {"proc": p, "argv": argv, "start": s.mono, "wall": s.wall(), "group": len(act["p"]), "idx": len(self.runs)}
            recs.append(rec)
            self.runs.append(rec)
        if act.get("power_at") and faults:
            def boom(task):
                power_loss(s, f"at{len(self.runs)}")
                s._freeze(task)

            arm = Arm(s, act["power_at"], boom)
            s.drain()
            arm.disarm()
        else:
            s.drain()
        for r in recs:
            r["end"] = s.mono
            r["changed"] = [k for k in sorted(set(before) | set(self.snapshot())) if before.get(k) != self.snapshot().get(k)]
        for r in recs:
            self.check_run(r)
        return recs

    def snapshot(self):
        return {p: self.sim.vfs.read_bytes(p) for p in self.sim.vfs.files() if p.startswith(DATA + "/")}

    # -- oracles on a single run
    def check_run(self, r):
        s, p = self.sim, r["proc"]
        inst = _ref["installed"]
        done = not p.killed and p.t_end is not None
        err, out = p.err, p.out
        if p.requests:
            s.nontrivial = True
        # C09 ------------------------------------------------------------------
        if traceback_in(err) or p.thread_excs:
            last = [ln for ln in err.strip().splitlines() if ln.strip()][-1:] or ["?"]
            self.viol("C09", "traceback", f"`{' '.join(r['argv'])}` printed a traceback from housekeeping: {last[0][:200]}")
        if done and self.prop == "C09":
            self.check_output(r)
        # C03 ------------------------------------------------------------------
        notices = re.findall(r"Update for EduLint \(([^(){}]*)\) is available", err)
        from packaging.version import Version, InvalidVersion

        times = self.hist
        for x in notices:
            s.probes["notice_printed"] += 1
            try:
                newer = Version(x) > Version(inst)
                full = not (Version(x).is_prerelease or Version(x).is_devrelease)
            except InvalidVersion:
                self.viol("C03", "not-a-version", f"the notice names {x!r}, which is not a version")
                continue
            if not newer:
                self.viol("C03", "not-newer", f"the notice advertises {x} while {inst} is installed")
            elif not full:
                self.viol("C03", "prerelease", f"the notice advertises the pre-release {x}")
            elif x not in [v for _t, v in times]:
                self.viol("C03", "never-newest", f"the notice advertises {x}, which was never PyPI's newest release")
        if len(notices) > 1:
            self.viol("C03", "twice", "the notice was printed twice in one run")
        if "Update for EduLint" in out:
            self.viol("C03", "stdout", "the notice went to stdout")
        if NOVER in r["argv"] and notices:
            self.viol("C08", "notice-despite-flag", "an update notice was printed although the check was disabled")
        quiet_world = not self.disturbed and r["group"] == 1 and self.prop in ("C03",) and all(
            q["group"] == 1 for q in self.runs)
        if quiet_world and done and NOVER not in r["argv"]:
            cand = self.newest_between(r["start"] - HOUR - 60, s.mono)
            newer = [c for c in cand if c is not None and Version(c) > Version(inst)]
            if cand and len(newer) == len(cand):
                s.probes["notice_due"] += 1
                if not notices:
                    self.viol("C03", "missing", f"PyPI offers {sorted(newer)} for over an hour, no notice was printed")
                elif notices[0] not in newer:
                    self.viol("C03", "stale", f"the notice names {notices[0]}; in the last hour PyPI's newest was {sorted(newer)}")
            elif not newer and notices:
                self.viol("C03", "stale", f"the notice names {notices[0]}; in the last hour PyPI's newest was {cand}")
        # C04 / C08 ------------------------------------------------------------
        for host, flag, ttl in ((PYPI, NOVER, HOUR), (GH, NOEXPL, 600)):
            mine = [q for q in p.requests if q["host"] == host]
            if len(mine) > 1:
                self.viol("C04", f"twice-{host}", f"one run contacted {host} {len(mine)} times")
            if mine and flag in r["argv"]:
                self.viol("C08", f"contact-{host}", f"{host} was contacted although {flag} was given")
            r[host] = mine
            if mine:
                for q in reversed(self.runs[: r["idx"]]):
                    if q["end"] <= r["start"] and q.get(host):
                        gap = mine[0]["wall"] - q[host][-1]["wall"]
                        s.probes["repeat_contact"] += 1
                        if gap < ttl:
                            self.viol("C04", f"too-soon-{host}", f"{host} was contacted again after {gap:.0f} s "
                                      f"(outcome of the previous attempt: {q[host][-1]['outcome']})")
                        break
            elif done and not self.disturbed and self.prop == "C04" and flag not in r["argv"] and r["group"] == 1:
                last = [q for q in self.runs[: r["idx"]] if q.get(host)]
                lag = r["start"] - (last[-1][host][-1]["mono"] if last else -1e12)
                if lag > ttl + 120 and all(q["group"] == 1 for q in self.runs):
                    self.viol("C04", f"never-{host}", f"{host} was not asked although the last attempt was {min(lag, 1e9):.0f} s ago")
        if NOVER in r["argv"] and NOEXPL in r["argv"]:
            s.probes["both_disabled"] += 1
            s.nontrivial = True
            if p.requests:
                self.viol("C08", "contact", f"contacted {p.requests[0]['host']} although both checks were disabled")
            if r["changed"] and r["group"] == 1:
                self.viol("C08", "wrote", f"changed {r['changed']} although both checks were disabled")
        elif r["group"] == 1 and NOVER in r["argv"] and any("version" in os.path.basename(c) for c in r["changed"]):
            self.viol("C08", "wrote-version", f"changed {r['changed']} although the version check was disabled")
        elif r["group"] == 1 and NOEXPL in r["argv"] and any("explanation" in os.path.basename(c) for c in r["changed"]):
            self.viol("C08", "wrote-expl", f"changed {r['changed']} although the explanations update was disabled")
        if self.prop == "C08" and done and not self.disturbed and r["group"] == 1:
            # the other service is not affected by a flag
            for host, flag, other in ((PYPI, NOVER, NOEXPL), (GH, NOEXPL, NOVER)):
                if flag not in r["argv"] and other in r["argv"] and not any(q.get(host) for q in self.runs[: r["idx"]]) \
                        and not r[host]:
                    self.viol("C08", "over-disabled", f"{other} also disabled contacting {host}")
        # C10 ------------------------------------------------------------------
        if self.prop == "C10" and not p.killed:
            dur = (p.t_end if p.t_end is not None else s.mono) - r["start"]
            if s.stop:
                self.viol("C10", "hang", f"`{' '.join(r['argv'])}` did not end: {s.stop}")
            elif dur > 30:
                self.viol("C10", "slow", f"`{' '.join(r['argv'])}` took {dur:.0f} simulated seconds")
            if any(q["outcome"] in ("stall", "connect_timeout") for q in p.requests):
                s.probes["stalled_request"] += 1
            main = (p.t_main_end if p.t_main_end is not None else s.mono) - r["start"]
            # none of these commands needs the network for its own result
            if not s.stop and main > (12 if s.slow_disk else 2.5):
                self.viol("C10", "main-slow", f"the result of `{' '.join(r['argv'])}` took {main:.0f} simulated seconds")
        # C06 / C07 --------------------------------------------------------------
        if r["argv"][0] == "explain" and "--json" in r["argv"] and done:
            self.check_explain(r)

    def newest_between(self, a, b):
        out = []
        for i, (t, v) in enumerate(self.hist):
            t_next = self.hist[i + 1][0] if i + 1 < len(self.hist) else float("inf")
            if t <= b and t_next > a:
                out.append(v)
        return set(out)

    def revs_between(self, a, b):
        out = set()
        for i, (t, v) in enumerate(self.revs):
            t_next = self.revs[i + 1][0] if i + 1 < len(self.revs) else float("inf")
            if t <= b and t_next > a:
                out.add(v)
        return out

    def candidates(self):
        """Every explanation set a user may legitimately see: packaged, or a revision GitHub has answered with."""
        out = [("packaged", _ref["packaged"])]
        for v in sorted({v for _t, v in self.revs}):
            out.append((v, expl_dict(v, self.sc["big"])))
        return out

    def classify(self, r):
        try:
            got = json.loads(r["proc"].out)["explanations"]
        except Exception as e:
            return None, f"unreadable output ({type(e).__name__}): {r['proc'].out[:200]!r}"
        ids = [a for a in r["argv"][1:] if not a.startswith("--") and a != "explain"]
        for name, d in self.candidates():
            want = d if "all" in ids else {i: d[i] for i in ids if i in d}
            if got == want:
                return name, None
        return None, f"{len(got)} explanations, first {dumps(dict(list(got.items())[:1]))[:300]}"

    def check_explain(self, r):
        s = self.sim
        if s.counts.get("corrupt_flip") or any(k.startswith("corrupt_") for k in s.counts):
            return
        name, why = self.classify(r)
        r["shown"] = name
        if why:
            if "all" in r["argv"] or self.sc["ctype"]:
                self.viol("C06", "mixed", f"`{' '.join(r['argv'])}` showed neither the packaged nor a published revision: {why}")
            return
        if name != "packaged":
            s.probes["showed_online_revision"] += 1
            if not any(q["host"] == GH and q.get("status") == 200 for q in s.net.log):
                self.viol("C06", "unfetched", "showed a revision that was never fetched")
        if self.prop == "C07" and r["group"] == 1 and not self.disturbed:
            prev = [q for q in self.runs[: r["idx"]] if NOEXPL not in q["argv"]]
            if not prev:
                return
            s.probes["C07_judged"] += 1
            allowed = self.revs_between(prev[-1]["start"] - 600 - 60, s.mono)
            if name not in allowed:
                self.viol("C07", "not-effective", f"`{' '.join(r['argv'])}` showed {name if name == 'packaged' else f'revision {name}'}, "
                          f"the previous run (at {prev[-1]['start']:.0f} s) had updated to one of {sorted(allowed)}")

    # -- C09: same stdout and exit status as with housekeeping switched off
    def check_output(self, r):
        s, p = self.sim, r["proc"]
        if r["argv"][0] == "explain":
            if p.exit != 0:
                self.viol("C09", "exit", f"`{' '.join(r['argv'])}` ended with {p.exit}: {p.err[-300:]}")
            return
        key = dumps([a for a in r["argv"] if not a.startswith("--disable")])
        if key not in self.ref:
            s.faults_on = False
            ro, s.cfg["readonly_data"] = s.cfg.get("readonly_data"), None
            self.nproc += 1
            fn, av = cli(json.loads(key) + [NOVER, NOEXPL])
            q = s.new_proc(f"ref{self.nproc}", fn, av)
            s.drain()
            s.cfg["readonly_data"] = ro
            self.ref[key] = (q.exit, q.out)
        s.probes["C09_compared"] += 1
        if (p.exit, p.out) != self.ref[key]:
            self.viol("C09", "output", f"`{' '.join(r['argv'])}` gave exit {p.exit} and {p.out[:120]!r}, with housekeeping disabled "
                      f"exit {self.ref[key][0]} and {self.ref[key][1][:120]!r}; stderr {p.err[-200:]!r}")

    ref = None

    # -- C05: once faults stop, everything works again within a few runs
    def heal(self):
        s = self.sim
        if s.stop:
            return
        s.faults_on = False
        s.net.reachable = True
        s.cfg["readonly_data"] = None
        s.kill_all()
        self.rev += 1
        self.revs.append((s.mono, self.rev))
        self.confrev += 1
        from packaging.version import Version

        top = max([Version(_ref["installed"])] + [Version(n) for n in [newest(self.releases.values())] if n])
        a, b, c = top.major, top.minor, top.micro
        v = {"huge": f"{a + 900}.0.{self.rev}", "patch": f"{a}.{b}.{c + 1}", "minor": f"{a}.{b + 1}.0", "major": f"{a + 1}.0.0",
             "minor10": f"{a}.{10 ** len(str(b))}.0", "patch10": f"{a}.{b}.{10 ** len(str(c))}"}[self.sc.get("heal", "huge")]
        while v in self.releases:  # yanked or without files
            x = Version(v)
            v = f"{x.major}.{x.minor}.{x.micro + 1}"
        self.releases[v] = {"v": v}
        self.hist.append((s.mono, v))
        s.advance(10)
        last = None
        for k in range(4):  # the fourth works from what the third stored
            last = self.run_group({"p": [["explain", "all", "--json"]]}, faults=False)
            if s.stop or not last:
                return
            if traceback_in(last[0]["proc"].err):
                self.viol("C05", "traceback", f"run {k + 1} after the faults stopped prints a traceback: {last[0]['proc'].err[-300:]}")
            s.advance(HOUR + 100 if k < 2 else 20)
        p = last[0]["proc"]
        s.nontrivial = True
        s.probes["heal_judged"] += 1
        if v not in re.findall(r"Update for EduLint \(([^(){}]*)\) is available", p.err):
            self.viol("C05", "notice", f"three runs and two hours after the faults stopped the update notice does not name {v}: "
                      f"{p.err[-300:]!r}; files {[os.path.basename(f) for f in s.vfs.files()]}")
        name, why = self.classify(last[0])
        if name != self.rev:
            self.viol("C05", "explanations", f"three runs and two hours after the faults stopped explanations are "
                      f"{name if name is not None else why}, not the published revision {self.rev}")


def run(sim, sc, prop):
    common.attach(sim)
    w = World(sim, sc, prop)
    w.ref = {}
    for act in sc["actions"]:
        if sim.stop:
            break
        w.do(act)
    if prop == "C05":
        w.heal()
    sim.shape = "|".join(f"{a['a']}{len(a.get('p', []))}" for a in sc["actions"])
    return w.viols
