"""Deterministic simulation kernel.

One integer seed is one execution.  Simulated OS processes consist of simulated tasks; a task is a real thread that
is parked except when the scheduler has handed it the baton, so exactly one runs at a time and the scheduler decides
which.  Every decision (which task runs, which fault fires where, when a process dies) is drawn through
``Sim.decide`` from one PRNG and recorded under a stable key; a replay looks the same keys up instead of drawing.
A decision that is absent means "benign": no switch, no fault.
"""

import hashlib
import math
import io
import random
import sys
import threading
import traceback
import _thread
from collections import Counter

EPOCH = 1_800_000_000.0
_allocate = _thread.allocate_lock
_get_ident = _thread.get_ident

ACTIVE = None  # the Sim of this (forked) interpreter, if any


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class Stopped(BaseException):
    """Raised in the controller when a run has to stop."""


class ProcBuf(io.BytesIO):
    """What a simulated process wrote to its file descriptor 1 or 2, unless that has been redirected."""

    def __init__(self, proc, fd):
        super().__init__()
        self.proc, self.fd = proc, fd

    def write(self, b):
        other = self.proc.meta.get(f"fd{self.fd}")
        return super().write(b) if other is None else other.write(b)


class ProcOut(io.TextIOWrapper):
    """stdout/stderr of a simulated process; the code under test cannot destroy what is inspected afterwards."""

    def __init__(self, sim, proc, name):
        super().__init__(ProcBuf(proc, 1 if name == "stdout" else 2), "utf-8", errors="strict" if name == "stdout" else "backslashreplace",
                         newline="\n", write_through=True)
        self.sim, self.proc, self._name = sim, proc, name

    def getvalue(self):
        return self.buffer.getvalue().decode("utf-8", "replace")

    def fileno(self):
        return 1 if self._name == "stdout" else 2

    def isatty(self):
        return False

    def close(self):
        pass


class Task:
    def __init__(self, sim, proc, key, fn, name, daemon=False, thread=None):
        self.sim, self.proc, self.key, self.fn, self.name = sim, proc, key, fn, name
        self.daemon = daemon
        self.thread = thread
        self.sem = _allocate()
        self.sem.acquire()
        self.state = "ready"  # ready | sleeping | blocked | done
        self.wake = None
        self.cond = None  # callable -> bool for blocked tasks
        self.points = 0
        self.children = 0
        self.result = None
        self.exc = None
        self.started = False

    def runnable(self):
        if self.state == "ready":
            return True
        if self.state == "blocked":
            return bool(self.cond())
        if self.state == "sleeping":
            return self.wake <= self.sim.mono or (self.cond is not None and self.cond())
        return False


class Proc:
    """A simulated OS process."""

    def __init__(self, sim, key, argv=None):
        self.sim, self.key = sim, key
        self.argv = list(argv or ["edulint"])
        self.pid = 1000 + len(sim.procs)
        self.alive = True
        self.killed = False
        self.tasks = []
        self.meta = {}
        self.stdout = ProcOut(sim, self, "stdout")
        self.stderr = ProcOut(sim, self, "stderr")
        self.logger_core = None
        self.exit = None  # exit status once the main task is done
        self.exc = None  # exception that left the main task
        self.value = None
        self.t_start = sim.mono
        self.wall_start = sim.wall()
        self.t_main_end = None
        self.t_end = None
        self.thread_excs = []
        self.requests = []
        self.cwd = None  # simulated working directory

    @property
    def out(self):
        return self.stdout.getvalue()

    @property
    def err(self):
        return self.stderr.getvalue()


class Sim:
    def __init__(self, seed, config, replay=None, trace_keep=600):
        self.seed = seed
        self.rng = random.Random(f"decisions-{seed}")
        self.env_rng = random.Random(f"env-{seed}")
        self.tmp_n = 0
        self.sticky = {}  # (class of operation, path) -> error it keeps failing with
        self.vfaults = []  # faults injected on simulated files: (path, operation, error)
        self.on_call = None  # hook at function starts, backward jumps and returns from C calls of monitored modules
        self.int_at = None  # deliver KeyboardInterrupt at the n-th signal point of the main task
        self.sigs = 0
        self.rfaults = []  # faults injected on real scratch files: (relative path, kind)
        self.harness_error = None
        self.nontrivial = False  # set by the world when the run exercised what its property is about
        self.shape = None
        self.state = None  # modstate.State: per-process module state
        self.cfg = dict(config)
        self.replay = replay
        self.decisions = {}
        self.mono = 0.0
        self.slow_disk = False  # a write has been slow
        self.offset = EPOCH
        self.procs = []
        self.current = None
        self.ctl = _allocate()
        self.ctl.acquire()
        self.lean = self.cfg.get("lean_lines", False)  # line points: only pre-emption, at geometric distances
        self.gap = 1
        self.steps = 0
        self.max_steps = self.cfg.get("max_steps", 200_000)
        self.counts = Counter()
        self.probes = Counter()
        self.hash = hashlib.blake2b(digest_size=12)
        self.trace = []
        self.trace_keep = trace_keep
        self.by_ident = {}
        self.stop = None
        self.faults_on = True
        self.budget = dict(self.cfg.get("budget", {}))
        self._ctx_proc = None
        self._outer_ctx = None
        self._next = None
        self.vfs = None
        self.net = None
        self.rroot = None
        self.on_change = None  # called before every change of the simulated disk
        self.escapes = []  # changes of the real disk that were refused
        self.on_point = None

    # ------------------------------------------------------------------ decisions
    def decide(self, key, draw):
        if self.replay is not None:
            val = self.replay.get(key)
        else:
            val = draw()
        if val:
            self.decisions[key] = val
        return val

    def chance(self, p):
        return p > 0 and self.rng.random() < p

    # ------------------------------------------------------------------ time and trace
    def wall(self):
        return self.mono + self.offset

    def log(self, *parts):
        line = " ".join(str(p) for p in parts)
        self.hash.update(line.encode("utf-8", "replace") + b"\n")
        self.trace.append(f"{self.mono:.4f} {line}")
        if len(self.trace) > self.trace_keep:
            del self.trace[: self.trace_keep // 2]

    def count(self, kind, n=1):
        self.counts[kind] += n

    # ------------------------------------------------------------------ tasks
    def task(self):
        return self.by_ident.get(_get_ident())

    def spawn(self, proc, fn, name, daemon=False, thread=None, parent=None):
        if parent is None:
            key = f"{proc.key}"
        else:
            parent.children += 1
            key = f"{parent.key}.{parent.children}"
        t = Task(self, proc, key, fn, name, daemon, thread)
        proc.tasks.append(t)
        self.log("spawn", key, name)
        return t

    def new_proc(self, key, fn, argv=None):
        proc = Proc(self, key, argv)
        self.procs.append(proc)
        main = self.spawn(proc, fn, "main")
        proc.main = main
        return proc

    def _boot(self, task):
        task.sem.acquire()  # wait for the baton
        ident = _get_ident()
        self.by_ident[ident] = task
        if task.thread is None:  # the main thread of a simulated process
            task.thread = threading.Thread(name="MainThread", daemon=False)
        th = task.thread
        th._ident = ident
        if hasattr(th, "_native_id"):
            th._native_id = 0
        threading._active[ident] = th
        th._started.set()
        try:
            task.result = task.fn()
        except SystemExit as e:
            task.exc = e
        except BaseException as e:  # noqa
            task.exc = e
            e.sim_tb = traceback.format_exc()
        self._finish(task)

    def _finish(self, task):
        proc = task.proc
        task.state = "done"
        if task is proc.main:
            proc.t_main_end = self.mono
            proc.value = task.result
            if isinstance(task.exc, SystemExit):
                c = task.exc.code
                proc.exit = 0 if c is None else c if isinstance(c, int) else 1
            elif task.exc is not None:
                proc.exc = task.exc
                proc.exit = 130 if isinstance(task.exc, KeyboardInterrupt) else 1
            for t in list(proc.tasks):
                if t.daemon and t.state != "done":
                    t.state = "done"  # daemon threads vanish with the interpreter
                    self.count("daemon_killed")
        elif task.exc is not None and not isinstance(task.exc, SystemExit):
            proc.thread_excs.append(task.exc)
            proc.stderr.write(f"Exception in thread {task.name}:\n{getattr(task.exc, 'sim_tb', task.exc)}\n")
        self.log("end", task.key, type(task.exc).__name__ if task.exc else "ok")
        if all(t.state == "done" for t in proc.tasks):
            proc.alive = False
            proc.t_end = self.mono
        threading._active.pop(_get_ident(), None)
        self.ctl.release()

    # ------------------------------------------------------------------ process context
    def _enter_ctx(self, proc):
        if self._ctx_proc is proc:
            return
        self._leave_ctx()
        from loguru import logger

        if self.state is not None:
            self.state.enter(proc)
        self._outer_ctx = (sys.argv, sys.stdout, sys.stderr, logger._core)
        sys.argv = proc.argv
        sys.stdout = proc.meta.get("cur_stdout", proc.stdout)
        sys.stderr = proc.meta.get("cur_stderr", proc.stderr)
        if proc.logger_core is None:
            from loguru._logger import Core

            proc.logger_core = Core()
            logger._core = proc.logger_core
            logger.add(proc.stderr, level="WARNING", format="{name}: {message}", diagnose=False, catch=False)
        logger._core = proc.logger_core
        self._ctx_proc = proc

    def _leave_ctx(self):
        if self._ctx_proc is None:
            return
        from loguru import logger

        p = self._ctx_proc
        p.meta["cur_stdout"], p.meta["cur_stderr"] = sys.stdout, sys.stderr
        if self.state is not None:
            self.state.leave(p)
        sys.argv, sys.stdout, sys.stderr, logger._core = self._outer_ctx
        self._ctx_proc = None

    # ------------------------------------------------------------------ scheduling
    def _resume(self, task):
        self._enter_ctx(task.proc)
        self.current = task
        if task.state in ("sleeping", "blocked"):
            task.state = "ready"
            task.cond = None
        if not task.started:
            task.started = True
            _thread.start_new_thread(self._boot, (task,))
        task.sem.release()
        if not self.ctl.acquire(timeout=self.cfg.get("stuck_s", 60)):
            raise HarnessError(f"task {task.key} did not give the baton back: blocked outside the simulator")
        self.current = None

    def _park(self, task):
        """Called in the task's own thread: give the baton to the controller and wait to be resumed."""
        self.ctl.release()
        task.sem.acquire()

    def live_tasks(self):
        return [t for p in self.procs if p.alive for t in p.tasks if t.state != "done"]

    def drain(self, until=None):
        """Run tasks until none is left (or ``until()``)."""
        self._next = None
        last = None
        while not self.stop:
            if until is not None and until():
                break
            tasks = self.live_tasks()
            if not tasks:
                break
            nxt, self._next = self._next, None
            if nxt is not None and nxt.state != "done" and nxt.proc.alive and nxt.runnable():
                last = nxt
                self._resume(nxt)
                continue
            ready = [t for t in tasks if t.runnable()]
            if not ready:
                wakes = [t.wake for t in tasks if t.state == "sleeping"]
                if not wakes:
                    self.stop = ("deadlock", ", ".join(f"{t.key}/{t.name}" for t in tasks))
                    break
                w = min(wakes)
                if w > self.mono + self.cfg.get("max_wait", 1e7):
                    self.stop = ("hang", ", ".join(f"{t.key}/{t.name}" for t in tasks))
                    break
                self.mono = max(self.mono, w)
                continue
            idx = 0
            if len(ready) > 1:
                default = ready.index(last) if last in ready else 0
                who = "-" if last is None else f"{last.key}:{last.points}:{last.state}"
                p = self.cfg.get("p_pick", 0.0)
                v = self.decide(
                    f"pick:{who}", lambda: self.rng.randrange(len(ready)) + 1 if self.chance(p) else 0
                )
                idx = (v - 1) % len(ready) if v else default
                if v and idx != default:
                    self.count("sched_pick")
            last = ready[idx]
            self._resume(last)
        self._leave_ctx()

    def point(self, kind, detail="", faults=None, p=None, kill=True):
        """A place where the environment may act.  Returns a fault (dict with 'k') or None.

        Runs in the calling task's thread.  May switch to other tasks, advance time, or never return (process died).
        """
        task = self.task()
        if task is None or not task.proc.alive:
            if task is not None:  # the process died but its thread still runs: freeze it
                self._freeze(task)
            return None
        self.steps += 1
        if self.steps > self.max_steps:
            self.stop = self.stop or ("steps", f"{task.key} {kind} {detail}")
            self._freeze(task)
        task.points += 1
        n = task.points
        self.mono += 0.0002
        if self.lean and kind == "line":
            if self.replay is not None:
                if f"sw:{task.key}:{n}" not in self.replay:
                    return None
            else:
                self.gap -= 1
                if self.gap > 0:
                    return None
                p = self.cfg.get("p_switch", 0.0) * self.cfg.get("line_switch", 0.3)
                self.gap = 1 + int(math.log(1.0 - self.rng.random()) / math.log(1.0 - p)) if 0 < p < 1 else 10**9
            others = [t for t in self.live_tasks() if t is not task and t.runnable()]
            if others:
                v = self.decide(f"sw:{task.key}:{n}", lambda: self.rng.randrange(len(others)) + 1)
                if v:
                    self.count("preempt")
                    self.log("switch", task.key, n, kind)
                    self._switch(task, others[(v - 1) % len(others)])
            return None
        if self.on_point is not None:
            self.on_point(task, kind, detail)
        cfg = self.cfg
        pk = f"{task.key}:{n}"
        # pre-emption
        p_switch = cfg.get("p_switch", 0.0) * (cfg.get("line_switch", 0.3) if kind == "line" else 1.0)
        if p_switch or self.replay is not None:
            others = [t for t in self.live_tasks() if t is not task and t.runnable()]
            if others:
                v = self.decide(f"sw:{pk}", lambda: self.rng.randrange(len(others)) + 1 if self.chance(p_switch) else 0)
                if v:
                    self.count("preempt")
                    self.log("switch", task.key, n, kind)
                    self._switch(task, others[(v - 1) % len(others)])
        # crash of this process
        if kill and self.faults_on and (self.budget.get("kill", 0) > 0 or self.replay is not None):
            pkill = cfg.get("p_kill", 0.0) * (0.3 if kind == "line" else 1.0)
            v = self.decide(f"kill:{pk}", lambda: 1 if self.chance(pkill) else 0)
            if v:
                self.budget["kill"] = self.budget.get("kill", 0) - 1
                self.count("kill_process")
                self.log("KILL", task.key, n, kind, detail)
                self.kill(task.proc)
                self._freeze(task)
        fault = None
        if faults:
            pf = cfg.get("p_fault", {}).get(kind, 0.0) if p is None else p
            if self.faults_on and (self.replay is not None or pf):
                en = cfg.get("enabled")
                allowed = faults if en is None else [f for f in faults if f in en or f"{kind}:{f}" in en]
                fault = self.decide(
                    f"f:{pk}",
                    lambda: {"k": self.rng.choice(allowed), "r": round(self.rng.random(), 4)}
                    if allowed and self.chance(pf)
                    else 0,
                )
                if fault and fault["k"] not in faults:
                    fault = None  # replay drift
                if fault:
                    self.count(f"{kind}_{fault['k']}")
                    self.log("FAULT", task.key, n, kind, detail, fault["k"])
        if kind != "line":
            self.log("op", task.key, kind, detail)
        return fault or None

    def signal(self, task, where):
        """A place where a pending signal is handled."""
        if task is None or task is not task.proc.main or not task.proc.alive:
            return
        self.sigs += 1
        if self.int_at == self.sigs:
            self.count("keyboard_interrupt")
            self.log("INTERRUPT", task.key, self.sigs, where)
            raise KeyboardInterrupt

    def _switch(self, task, other):
        task.state = "ready"
        self._next = other  # drain() resumes it first
        self._park(task)

    def _freeze(self, task):
        """The task never runs again."""
        task.state = "done"
        proc = task.proc
        if all(t.state == "done" for t in proc.tasks):
            proc.alive = False
        self.ctl.release()
        while True:
            task.sem.acquire()

    def kill(self, proc):
        proc.alive = False
        proc.killed = True
        proc.t_end = self.mono
        for t in proc.tasks:
            t.state = "done"

    def kill_all(self):
        for p in self.procs:
            if p.alive:
                self.kill(p)

    def sleep(self, d, kind="sleep", cond=None):
        task = self.task()
        if task is None:
            return
        self.point(kind, f"{d:.3f}", kill=True)
        task.state = "sleeping"
        task.wake = self.mono + max(0.0, d)
        task.cond = cond
        self._park(task)

    def block(self, cond, timeout=None, kind="block"):
        """Block the current task until cond() holds; returns False on timeout."""
        task = self.task()
        if cond():
            return True
        if timeout is not None:
            task.state = "sleeping"
            task.wake = self.mono + max(0.0, timeout)
        else:
            task.state = "blocked"
        task.cond = cond
        self._park(task)
        return bool(cond())

    # ------------------------------------------------------------------ clock control
    def advance(self, dt):
        self.mono += dt

    def jump(self, dt):
        self.offset += dt
        self.count("clock_jump_back" if dt < 0 else "clock_jump_forward")
        self.log("clock", dt)
