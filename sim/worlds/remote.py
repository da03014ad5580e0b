"""Remote configuration and language files: caching, freshness, offline use, crashes, concurrent runs.

Simulated: a server publishing revisions of a configuration, its parent configuration and a language file; clients
(library calls, sessions of a long-lived process, `edulint check --json`), the network between them, clock and disk.
Real: configuration loading, the download cache, requests/urllib3 response handling, tomli, argparse, the linters.
Oracle: the text of every revision is known; what a client got is compared with the same revision loaded from an
intact local file, and with markers at the head, in the middle and at the end of the revision.
"""

import json
import os
from urllib.parse import urlsplit

from .common import *  # noqa: F403
from .common import V
from . import common

HOST, LHOST = "conf.test", "lang.test"
LONG = "a-rather-long-path-segment-" * 10
URLS = {  # files whose addresses differ little, and in different places
    "plain": {"c": f"http://{HOST}/team/conf.toml", "b": f"https://{HOST}/team/base.toml", "l": f"http://{LHOST}/cs.toml"},
    "host": {"c": f"https://{HOST}/conf.toml", "b": f"https://base.{HOST}/conf.toml", "l": f"https://{LHOST}/conf.toml"},
    "query": {"c": f"https://{HOST}/get?file=conf", "b": f"https://{HOST}/get?file=base", "l": f"https://{HOST}/get?file=cs"},
    "folder": {"c": f"https://{HOST}/a/b/conf.toml", "b": f"https://{HOST}/a_b/conf.toml", "l": f"https://{HOST}/ab/conf.toml"},
    "case": {"c": f"https://{HOST}/team/Conf.toml", "b": f"https://{HOST}/team/conf.toml", "l": f"https://{HOST}/Team/conf.toml"},
    "port": {"c": f"https://{HOST}:8080/conf.toml", "b": f"https://{HOST}:8081/conf.toml", "l": f"https://{HOST}/conf.toml"},
    "long": {"c": f"https://{HOST}/{LONG}/c.toml", "b": f"https://{HOST}/{LONG}/b.toml", "l": f"https://{HOST}/{LONG}/l.toml"},
    "suffix": {"c": f"https://{HOST}/conf", "b": f"https://{HOST}/conf.toml", "l": f"https://{HOST}/conf.toml.toml"},
    "odd": {"c": f"https://{HOST}/t%C3%BDm/conf.toml", "b": f"https://{HOST}/t%C3%BDm/conf.toml/", "l": f"https://{HOST}//conf.toml"},
}


def address(u):
    return (u.hostname, u.port, u.path, u.query)


FLAGS = ["--disable-version-check", "--disable-explanations-update"]
WEEK = 7 * 86400
_pat = {}


def warm(prop):
    import edulint.edulint  # noqa
    import edulint

    common.warm_state()
    common.monitor_housekeeping()
    common.cheaper_logger()
    edulint.check_code([os.path.join(common.SRC, "dirty.py")], [])


# ------------------------------------------------------------------------------------------------ contents
def letters(n):
    s = ""
    while True:
        s = "abcdefghijklmnopqrstuvwxyz"[n % 26] + s
        n //= 26
        if not n:
            return s


def translations(kind, rev, big):
    out = {"C0200": f"{kind} revision {rev}: průchod přes žluťoučké indexy"}
    for i in range({0: 3, 1: 60}.get(big, 900)):
        out[f"X9{i:03d}"] = f"{kind} {rev} výplň {i} " + "text " * 12
    out["Z9999"] = f"{kind} end of {rev} — konec"
    return out


def trans_lines(kind, rev, big):
    return [f"{k} = {json.dumps(v, ensure_ascii=False)}" for k, v in translations(kind, rev, big).items()]


def body(kind, rev, sc, local=None):
    """The text of a revision; with `local`, the same text referring to local copies of what it inherits from."""
    big = sc["big"]
    if kind == "l":
        return ("\n".join([f"# language revision {rev}"] + trans_lines("lang", rev, big)) + "\n").encode()
    head = [f"# {kind} revision {rev}", f'default-enabler-name = "{kind}{rev}"']
    if kind == "c" and sc["inherit"]:
        parent = URLS[sc["urls"]]["b"] if local is None else local
        head.append(f'config-file = "{parent}"')
    if kind == "c":
        head.append(f'allowed-onechar-names = "{letters(rev)}"')
    out = head + ["", "[flake8]", f"max-line-length = {10000 + rev}" if kind == "c" else f"max-complexity = {10000 + rev}",
                  "", "[pylint]", f"max-locals = {10000 + rev}" if kind == "c" else f"max-branches = {10000 + rev}", ""]
    if kind == "c":
        out += ["[language-translations]"] + trans_lines("conf", rev, big) + [""]
    out += ["[translations.extra.pylint]", f'enable = ["{kind}-tail-{rev}"]']
    text = "\n".join(out) + "\n"
    # The set of options a truncated text would lack: everything after the cut, so the tail counts
    return text.encode()


def tail_args(kind, rev):
    return f"--enable={kind}-tail-{rev}"


# ------------------------------------------------------------------------------------------------ generator
def gen(rng, prop, tier):
    faulty = rng.random() < (0.85 if prop == "C01" else 0.6)
    cfg = {"p_fault": {}, "budget": {}, "fault_under": DATA}
    if faulty:
        en = swarm(rng, ["net:" + f for f in ("dns", "refused", "connect_timeout", "stall", "reset_before", "reset_body",
                                              "truncated", "http500", "http404", "http503", "html200", "slow", "garbage", "http202", "http204", "json404", "json200",
                                              "portal", "loop", "badgzip")], 0.6)
        if prop == "C02":
            en = [e for e in en if e not in ("net:html200", "net:garbage", "net:json200", "net:portal")]
        cfg["p_fault"]["net"] = rng.choice([0.1, 0.3, 0.6])
        if rng.random() < 0.6:
            en += swarm(rng, DISK, 0.4)
            for k in ("read", "write", "create", "open", "rename", "unlink", "mkdir", "fsync", "stat", "listdir"):
                cfg["p_fault"][k] = rng.choice([0.01, 0.04, 0.12])
        if rng.random() < 0.6:
            en += SHORT
            cfg["p_fault"].setdefault("read", 0.05)
            cfg["p_fault"].setdefault("write", 0.05)
        if rng.random() < (0.7 if prop == "C01" else 0.3):
            en += TORN
            cfg["p_fault"]["write"] = max(cfg["p_fault"].get("write", 0), rng.choice([0.05, 0.15]))
            cfg["budget"]["kill"] = rng.randint(1, 3)
            cfg["p_kill"] = rng.choice([0.005, 0.02, 0.05])
        if prop == "C02" and rng.random() < 0.2:
            cfg["readonly_data"] = rng.choice([1, 2])
        cfg["enabled"] = sorted(set(en))
    if rng.random() < 0.85:
        cfg["p_switch"] = rng.choice([0.05, 0.2, 0.4])
        cfg["p_pick"] = rng.choice([0.2, 0.5])
    sc = {"cfg": cfg, "big": rng.choice([0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 2]) if rng.random() < 0.7 else 0, "urls": rng.choice(["plain"] * 4 + list(URLS)),
          "inherit": rng.random() < 0.4, "lang": rng.random() < 0.5,
          "ctype": rng.choice(["text/plain; charset=utf-8", "text/plain", "text/plain; charset=iso-8859-2",
                               "application/toml", "application/octet-stream"]),
          "gzip": rng.random() < 0.4, "moved": rng.random() < 0.15, "actions": []}
    acts = sc["actions"]
    rev = 0
    n = rng.randint(3, 7 if tier == "quick" else 11)
    for _ in range(n):
        if rng.random() < 0.55:
            rev += 1
            acts.append({"a": "publish", "k": rng.choice(["c", "c", "b", "l"]), "rev": rev})
        if rng.random() < 0.25 and (faulty or prop == "C02"):
            acts.append({"a": "net", "up": rng.random() < 0.45})
        procs = []
        k = 1 if rng.random() < (0.35 if prop == "C01" else 0.75) else rng.randint(2, 3)
        for j in range(k):
            r = rng.random()
            if r < 0.07 and not any(p["m"] == "cli" for p in procs):
                procs.append({"m": "cli"})
            elif r < 0.2:
                procs.append({"m": "session", "gaps": [rng.choice([0, 1, 100, 290, 310, 400, 700])
                                                       for _ in range(rng.randint(1, 3))]})
            else:
                procs.append({"m": "api"})
        act = {"a": "run", "p": procs}
        if rng.random() < 0.3:  # publish while the run is going on
            rev += 1
            act["mid"] = {"at": rng.randint(1, 60), "k": rng.choice(["c", "c", "b", "l"]), "rev": rev}
        if faulty and prop == "C01" and rng.random() < 0.15:
            act["power_at"] = rng.randint(1, 90)
        acts.append(act)
        if faulty and prop == "C01" and rng.random() < 0.12:
            acts.append({"a": "power"})
        if prop == "C01" and rng.random() < 0.05:
            acts.append({"a": "jump", "s": rng.choice([-700, -86400, 7200])})
        if prop == "C02" and rng.random() < 0.15:
            acts.append({"a": "jump", "s": rng.choice([-200, -299, -400, -86400, -10**7, 200, 7200, 86400 * 3, 86400 * 30])})
        gaps = [0, 1, 30, 200, 280, 320, 400, 700, 3600]
        if prop == "C02":
            gaps = gaps[:6] if rng.random() < 0.4 else gaps + [86400, 3 * 86400, 6.8 * 86400, 9 * 86400, 30 * 86400]
        acts.append({"a": "sleep", "s": rng.choice(gaps)})
    return sc


def simpler(sc):
    for k in ("big", "inherit", "lang", "gzip", "moved"):
        if sc.get(k):
            yield {**sc, k: False}
    if sc["urls"] != "plain":
        yield {**sc, "urls": "plain"}
    if sc["ctype"] != "text/plain; charset=utf-8":
        yield {**sc, "ctype": "text/plain; charset=utf-8"}
    for i, a in enumerate(sc["actions"]):
        def put(b):
            return {**sc, "actions": sc["actions"][:i] + [b] + sc["actions"][i + 1:]}
        if a["a"] != "run":
            continue
        if len(a["p"]) > 1:
            for j in range(len(a["p"])):
                yield put({**a, "p": a["p"][:j] + a["p"][j + 1:]})
        if a.get("mid"):
            yield put({k: v for k, v in a.items() if k != "mid"})
        for j, p in enumerate(a["p"]):
            if p["m"] != "api":
                yield put({**a, "p": a["p"][:j] + [{"m": "api"}] + a["p"][j + 1:]})
    if sc["cfg"].get("readonly_data"):
        yield {**sc, "cfg": {**sc["cfg"], "readonly_data": 0}}


# ------------------------------------------------------------------------------------------------ client code
def plain(configs):
    """What a resolved configuration means, without the place it was loaded from."""
    out = []
    for _files, config, lang in configs:
        opts = {a.option.to_name(): a.val for a in config}
        for k in ("config-file", "language-file"):
            opts.pop(k, None)
        out.append({"options": json.loads(json.dumps(opts)), "enablers": dict(config.enablers),
                    "lang": {k: [t.translation, t.extracts] for k, t in lang.items()}})
    return out


def resolve(args):
    import edulint

    res = edulint.get_config_many([os.path.join(common.SRC, "clean.py")], args)
    return plain(res) if res else None


class World:
    def __init__(self, sim, sc, prop):
        self.sim, self.sc, self.prop = sim, sc, prop
        self.cur = {"c": 0, "b": 0, "l": 0}
        self.hist = {k: [(sim.mono, 0)] for k in self.cur}
        self.viols = []
        self.nproc = 0
        self.fetched = {k: [] for k in self.cur}  # complete answers: (mono, wall, rev, clean)
        self.jumps = []
        self.ref = {}
        self.crashed = False
        self.calls = 0
        self.names = URLS[sc["urls"]]
        self.paths = {address(urlsplit(u)): k for k, u in self.names.items()}
        for k in self.names if sc.get("moved") else ():
            self.paths[address(urlsplit(f"https://{HOST}/moved-{k}"))] = k
        sim.net.gzip = sc.get("gzip", False)
        sim.net.hosts = {h: self.serve for h in (HOST, LHOST, "base." + HOST)}
        sim.net.modified = lambda u: self.hist[self.paths[address(u)]][-1][0] if address(u) in self.paths else 0

    def serve(self, u, req):
        k = self.paths.get(address(u))
        if k is not None and self.sc.get("moved") and not u.path.startswith("/moved-"):
            self.sim.count("http_moved")
            return 302, {"Location": f"https://{HOST}/moved-{k}", "Content-Type": "text/html"}, b"<html>Moved</html>"
        if k is None:
            return 404, {"Content-Type": "text/plain"}, b"404: Not Found"
        return 200, {"Content-Type": self.sc["ctype"]}, body(k, self.cur[k], self.sc)

    def viol(self, prop, cls, msg):
        if prop == self.prop:
            self.viols.append(V(f"{prop}:{cls}", msg))

    def publish(self, k, rev):
        self.cur[k] = rev
        self.hist[k].append((self.sim.mono, rev))
        self.sim.log("PUBLISH", k, rev)

    def args(self, **loc):
        a = [f"config-file={loc.get('c', self.names['c'])}"]
        if self.sc["lang"]:
            a.append(f"language-file={loc.get('l', self.names['l'])}")
        return a

    # -- what a combination of revisions means, from intact local files and no network
    def expected(self, c, b, lang):
        key = (c, b if self.sc["inherit"] else None, lang if self.sc["lang"] else None)
        if key not in self.ref:
            s = self.sim
            base = "/simfs/ref"
            s.vfs.put(f"{base}/b{b}.toml", body("b", b, self.sc))
            s.vfs.put(f"{base}/c{c}-{b}.toml", body("c", c, self.sc, local=f"{base}/b{b}.toml"))
            args = [f"config-file={base}/c{c}-{b}.toml"]
            if key[2] is not None:
                s.vfs.put(f"{base}/l{lang}.toml", body("l", lang, self.sc))
                args.append(f"language-file={base}/l{lang}.toml")
            on, ro = s.faults_on, s.cfg.get("readonly_data")
            s.faults_on, s.cfg["readonly_data"] = False, None
            saved = (s.cfg.get("p_switch", 0), s.cfg.get("p_pick", 0))
            s.cfg["p_switch"] = s.cfg["p_pick"] = 0
            off = s.offset
            p = s.new_proc(f"ref{len(self.ref)}", api(lambda: resolve(args)))
            s.drain()
            s.faults_on, s.cfg["readonly_data"] = on, ro
            s.cfg["p_switch"], s.cfg["p_pick"] = saved
            s.offset = off
            if p.value is None:
                raise kernel.HarnessError(f"the reference configuration {key} could not be loaded: {p.exc!r} {p.err}")
            self.ref[key] = p.value
        return self.ref[key]

    def markers(self, val):
        """Which revisions the result's parts name, read off the markers alone."""
        if val is None or len(val) != 1:
            return {}
        v = val[0]
        seen = {"c": set(), "b": set(), "l": set()}
        alpha = {letters(r): r for r in range(400)}
        if v["options"].get("allowed-onechar-names") is not None:
            seen["c"].add(alpha.get(v["options"]["allowed-onechar-names"], -1))
        for a in (v["options"].get("flake8") or []) + (v["options"].get("pylint") or []):
            for pre, k in (("--max-line-length=", "c"), ("--max-locals=", "c"), ("--max-complexity=", "b"), ("--max-branches=", "b")):
                if a.startswith(pre):
                    try:
                        n = int(a[len(pre):])
                    except ValueError:
                        n = -1
                    if n >= 10000 or n == -1:
                        seen[k].add(n - 10000)
        for text, _x in v["lang"].values():
            w = text.split()
            if w[0] in ("conf", "lang"):
                for tok in w[1:4]:
                    if tok.rstrip(":").isdigit():
                        seen["c" if w[0] == "conf" else "l"].add(int(tok.rstrip(":")))
                        break
        return seen

    # -- actions
    def do(self, act):
        s, a = self.sim, act["a"]
        if a == "run":
            self.run_group(act)
        elif a == "sleep":
            s.advance(act["s"])
            if act["s"] >= 30:
                s.vfs.sync_all()
        elif a == "jump":
            s.jump(act["s"])
            self.jumps.append((s.mono, act["s"]))
        elif a == "power":
            power_loss(s, f"{self.nproc}")
            self.crashed = True
        elif a == "publish":
            self.publish(act["k"], act["rev"])
        elif a == "net":
            s.net.reachable = act["up"]

    def client(self, spec, rec):
        s = self.sim
        args = self.args()

        def call():
            import time

            t0, w0 = s.mono, s.wall()
            n0 = len(rec["proc"].requests)
            try:
                val, err = resolve(args), None
            except Exception as e:
                val, err = None, e
            rec["calls"].append({"t0": t0, "w0": w0, "t1": s.mono, "val": val, "err": repr(err) if err else None,
                                 "req": rec["proc"].requests[n0:]})
            return time

        def main():
            import_effects()
            call()
            for g in spec.get("gaps", []):
                import time

                time.sleep(g)
                call()

        return main

    def run_group(self, act):
        s = self.sim
        if s.stop:
            return
        s.faults_on = True
        recs = []
        for spec in act["p"]:
            self.nproc += 1
            rec = {"spec": spec, "calls": [], "start": s.mono, "wall": s.wall(), "group": len(act["p"])}
            if spec["m"] == "cli":
                argv = ["check", "--json"] + FLAGS + [x for o in self.args() for x in ("-o", o)] \
                    + [os.path.join(common.SRC, "dirty.py")]
                fn, av = cli(argv)
                rec["proc"] = s.new_proc(f"p{self.nproc}", fn, av)
            else:
                rec["proc"] = s.new_proc(f"p{self.nproc}", self.client(spec, rec))
            recs.append(rec)
        arms = []
        if act.get("mid"):
            m = act["mid"]
            arms.append([m["at"], lambda task: self.publish(m["k"], m["rev"])])
        if act.get("power_at"):
            def boom(task):
                self.crashed = True
                power_loss(s, f"at{self.nproc}")
                s._freeze(task)

            arms.append([act["power_at"], boom])
        if arms:
            def on_point(task, kind, detail):
                if kind == "line":
                    return
                for a in arms:
                    a[0] -= 1
                    if a[0] == 0:
                        a[1](task)

            s.on_point = on_point
        s.drain()
        s.on_point = None
        if any(r["proc"].killed for r in recs):
            self.crashed = True
        entries = [q for r in recs for q in r["proc"].requests]
        for q in sorted(entries, key=lambda q: q["mono"]):
            if q["host"] == "portal.test":
                continue
            k = self.paths.get(address(urlsplit(q["url"])))
            if k is None:
                self.viol("C01", "other-url", f"contacted {q['url']}, which no configuration names")
                continue
            if q.get("status") == 302 and q["outcome"] in ("response", "slow"):
                continue  # asked again at another address
            q["k"] = k
            if q.get("status") in (200, 206, 304) and q["outcome"] in ("response", "slow") and "full" in q:
                head = q["full"].split(b"\n")[0]
                if b"revision" in head:
                    q["rev"] = int(head.split()[-1])
                    self.fetched[k].append((q["mono"], q["wall"], q["rev"], q["proc"]))
        for r in recs:
            self.judge(r)

    def between(self, k, a, b):
        out = set()
        h = self.hist[k]
        for i, (t, v) in enumerate(h):
            nxt = h[i + 1][0] if i + 1 < len(h) else float("inf")
            if t <= b and nxt >= a:
                out.add(v)
        return out

    # -- oracles
    def judge(self, r):
        s, p = self.sim, r["proc"]
        if s.stop:
            self.viol("C02", "hang", f"a run did not end: {s.stop}")
            return
        if r["spec"]["m"] == "cli":
            if p.killed or p.t_end is None:
                return
            self.judge_cli(r)
            return
        for c in r["calls"]:
            self.judge_call(r, c)
        if not p.killed and p.exc is not None:
            self.viol("C01", "crash", f"resolving the configuration died: {p.exc!r}")

    def find(self, val, opts_only=False):
        """The revisions whose combination is exactly this result."""
        m = self.markers(val)
        for k in ("c", "b", "l"):
            if len(m.get(k, ())) > 1:
                return None, f"a mixture of revisions {sorted(m[k])} of {self.names[k]}"
        cs = m.get("c") or {None}
        c = next(iter(cs))
        if c is None or c < 0:
            return None, "a configuration without the markers of any revision"
        b = next(iter(m.get("b") or {0}))
        lang = next(iter(m["l"]), None)
        if self.sc["inherit"] and not m["b"]:
            return None, f"revision {c} without the parent configuration it inherits from"
        if b < 0:
            return None, "a damaged parent configuration"
        want = self.expected(c, b, lang)
        if self.sc["lang"] and lang is None:
            want = self.expected_nolang(c, b)
        if val != want:
            diff = {k: (val[0][k] if k in val[0] else None) for k in ("options", "lang") if val[0].get(k) != want[0].get(k)}
            return None, f"neither the whole of revision {c} nor nothing: it differs in {dumps(diff)[:400]}"
        return {"c": c, "b": b, "l": lang}, None

    def expected_nolang(self, c, b):
        sc = self.sc
        self.sc = {**sc, "lang": False}
        try:
            return self.expected(c, b, None)
        finally:
            self.sc = sc

    def judge_call(self, r, c):
        s = self.sim
        kinds = ["c"] + (["b"] if self.sc["inherit"] else [])
        allk = kinds + (["l"] if self.sc["lang"] else [])
        if c["req"]:
            s.probes["calls_with_download"] += 1
        else:
            s.probes["calls_from_cache"] += 1
        s.nontrivial = True
        if c["val"] is None:
            s.probes["refused"] += 1
            got = {}
        else:
            if len(c["val"]) != 1:
                self.viol("C01", "shape", f"{len(c['val'])} configurations for one file")
                return
            got, why = self.find(c["val"])
            if got is None:
                self.viol("C01", "mixed", f"a run used {why}")
                return
            s.probes["used"] += 1
            for k in allk:
                if got[k] is not None and not any(f[2] == got[k] for f in self.fetched[k]):
                    self.viol("C01", "never-served", f"a run used revision {got[k]} of {self.names[k]}, which was never downloaded completely")
        self.fresh(r, c, got, kinds, allk)

    def fresh(self, r, c, got, kinds, allk):
        """C02"""
        if self.prop != "C02":
            return
        s = self.sim
        for k in allk:
            req = [q for q in c["req"] if q.get("k") == k]
            ok = [q for q in req if "rev" in q]
            failed = [q for q in req if "rev" not in q]
            used = got.get(k) if c["val"] is not None else None
            if ok and not failed:
                # it could be fetched: then it is used, whatever the cache does
                s.probes["fetched_and_judged"] += 1
                if k == "l" and c["val"] is None:
                    continue
                if used is None and (k == "l" or self.others_ok(c, kinds, k)):
                    self.viol("C02", "fetched-not-used", f"{self.names[k]} was downloaded (revision {ok[-1]['rev']}), but the run went on "
                              f"without it: {c['err'] or r['proc'].err[-300:]}")
            if used is not None and not failed:
                slack = 300 + 60
                okrev = self.between(k, c["t0"] - slack, c["t1"])
                okrev |= {f[2] for f in self.fetched[k] if abs(c["w0"] - f[1]) <= slack}  # as far as the clock can tell
                s.probes["freshness_judged"] += 1
                if used not in okrev:
                    self.viol("C02", "stale", f"revision {used} of {self.names[k]} was used at {c['t0']:.0f} s although the server answers "
                              f"and in the last 300 s by the clock only {sorted(okrev)} were current or downloaded")
            if failed and not ok:
                prev = [f for f in self.fetched[k] if f[0] < c["t1"]]
                if not prev:
                    if used is not None:
                        self.viol("C02", "from-nowhere", f"{self.names[k]} was used although it was never downloaded")
                    continue
                if self.disturbed_disk() or r["group"] > 1 or any(f[3] == "other" for f in prev):
                    continue
                last = prev[-1]
                age = abs(c["w0"] - last[1])
                if age > WEEK:
                    continue
                s.probes["offline_judged"] += 1
                if used is None and (k == "l" and c["val"] is not None or k != "l" and self.others_ok(c, kinds, k)):
                    self.viol("C02", "offline-refused", f"{self.names[k]} could not be reached, the copy downloaded {age:.0f} s ago was "
                              f"not used: {c['err'] or r['proc'].err[-300:]}")
                elif used is not None and used != last[2] and not self.overlap:
                    self.viol("C02", "offline-older", f"{self.names[k]} could not be reached; revision {used} was used instead of "
                              f"revision {last[2]}, downloaded last")

    overlap = False

    def others_ok(self, c, kinds, k):
        """No other configuration of the chain explains the refusal."""
        if c["val"] is not None:
            return True
        for o in kinds:
            if o == k:
                continue
            req = [q for q in c["req"] if q.get("k") == o]
            if o == "b" and not req and k == "c":
                return True  # the chain broke before its parent was asked for
            if any("rev" not in q for q in req):
                return False
            if not req and not self.fetched[o]:
                return True
        return True

    def disturbed_disk(self):
        s = self.sim
        return self.crashed or s.cfg.get("readonly_data") or any(
            c.split("_")[0] in ("read", "write", "create", "open", "rename", "unlink", "mkdir", "fsync", "stat", "listdir")
            for c in s.counts if not c.endswith(("_short", "_slow")))

    def judge_cli(self, r):
        s, p = self.sim, r["proc"]
        s.probes["cli_judged"] += 1
        if traceback_in(p.err):
            self.viol("C01", "traceback", f"`edulint check` printed a traceback: {p.err[-300:]}")
        if p.exit not in (0, 1):
            if p.out.strip():
                self.viol("C01", "refused-output", f"`edulint check` ended with {p.exit} but printed {p.out[:200]!r}")
            if self.prop == "C02":
                good = all(any("rev" in q for q in p.requests if q.get("k") == k) or
                           not any(q.get("k") == k for q in p.requests) for k in self.cur)
                if good and p.requests and all("rev" in q for q in p.requests if "k" in q):
                    self.viol("C02", "cli-refused", f"`edulint check` ended with {p.exit} although everything it asked for was downloaded: "
                              f"{p.err[-300:]}")
            return
        try:
            d = json.loads(p.out)
        except ValueError:
            self.viol("C01", "no-json", f"`edulint check --json` ended with {p.exit} and printed {p.out[:200]!r}")
            return
        if not d["configs"]:
            self.viol("C02", "silently-unchecked", "`edulint check` reported success without having checked the file")
            return
        texts = [x["text"] for x in d["problems"] if x["code"] == "C0200"]
        opts = {k: v for k, v in d["configs"][0].items() if k not in ("config-file", "language-file")}
        m = self.markers([{"options": opts, "lang": {str(i): (t, {}) for i, t in enumerate(texts)}, "enablers": {}}])
        for k in ("c", "b", "l"):
            if len(m[k]) > 1:
                self.viol("C01", "mixed-cli", f"`edulint check` used a mixture of revisions {sorted(m[k])} of {self.names[k]}")
                return
        c = next(iter(m["c"]), None)
        b = next(iter(m["b"]), 0)
        if c is None or c < 0 or b < 0 or (self.sc["inherit"] and not m["b"]):
            self.viol("C01", "incomplete-cli", f"`edulint check` used an incomplete configuration: {dumps(opts)[:300]}")
            return
        want = self.expected_nolang(c, b)[0]["options"]
        if opts != want:
            self.viol("C01", "partial-cli", f"`edulint check` used {dumps(opts)[:300]} instead of {dumps(want)[:300]}")


def run(sim, sc, prop):
    common.attach(sim)
    w = World(sim, sc, prop)
    w.overlap = any(a["a"] == "run" and len(a["p"]) > 1 for a in sc["actions"])
    for act in sc["actions"]:
        if sim.stop:
            break
        w.do(act)
    sim.shape = "|".join(a["a"] + ",".join(p["m"] for p in a.get("p", [])) for a in sc["actions"])
    return w.viols
