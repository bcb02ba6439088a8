"""Runs N ranks (forked processes, unmodified repository code) under the controlled scheduler, and explores schedules."""
import hashlib
import os
import pickle
import signal
import sys
import time
import traceback
from multiprocessing import connection

from .engine import Engine, Mismatch


class Outcome:
    """What one rank did: returned a value, or raised."""

    def __init__(self, kind, value=None, exc=None, msg="", tb="", unsupported=()):
        self.kind, self.value, self.exc, self.msg, self.tb = kind, value, exc, msg, tb
        self.unsupported = list(unsupported)

    def __repr__(self):
        if self.kind == "ok":
            return f"ok({self.value!r:.80})"
        return f"{self.kind}({self.exc}: {self.msg[:120]})"


class RunResult:
    def __init__(self):
        self.outcomes = []
        self.deadlock = None  # description of who is blocked where
        self.mismatch = None
        self.timeout = None
        self.abort = None
        self.trace = []  # fired transitions: (rank, description)
        self.choices = []  # index taken at every decision
        self.pruned = False
        self.states = 0

    @property
    def ok(self):
        return (
            not self.deadlock
            and not self.mismatch
            and not self.timeout
            and not self.abort
            and all(o is not None and o.kind == "ok" for o in self.outcomes)
        )

    @property
    def values(self):
        return [o.value for o in self.outcomes]

    def problem(self):
        """One-line description of what went wrong in this execution (None if all ranks returned)."""
        if self.mismatch:
            return f"collective mismatch: {self.mismatch}"
        if self.deadlock:
            ex = [f"rank {i} {o}" for i, o in enumerate(self.outcomes) if o is not None and o.kind != "ok"]
            return f"deadlock: {self.deadlock}" + (f"; {ex[:3]}" if ex else "")
        if self.timeout:
            return f"no progress for {self.timeout}s"
        if self.abort:
            return f"MPI abort {self.abort}"
        ex = [f"rank {i}: {o}" for i, o in enumerate(self.outcomes) if o.kind != "ok"]
        return "; ".join(ex[:3]) if ex else None

    @property
    def unsupported(self):
        return sorted({u for o in self.outcomes if o is not None for u in o.unsupported})


def _child(rank, n, conn, fn, args, opts):
    os.setpgid(0, 0) if False else None
    from mpi4py import MPI

    out = opts.get("stdout")
    fd = os.open(out.format(rank=rank) if out else os.devnull, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    sys.stdout.flush()
    sys.stderr.flush()
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    MPI.Unsupported.seen.clear()
    MPI._attach(rank, n, conn, opts.get("late_send", False), opts.get("late_recv", True))
    if opts.get("fs_points"):
        from . import fspoints

        fspoints.install(opts["fs_points"])
    try:
        val = fn(rank, *args)
        res = Outcome("ok", val)
    except BaseException as e:  # noqa: B902 - SystemExit matters here
        res = Outcome("exc", None, type(e).__name__, str(e), traceback.format_exc())
        res.mro = [c.__name__ for c in type(e).__mro__]
    res.unsupported = list(MPI.Unsupported.seen)
    try:
        blob = pickle.dumps(("done", res), protocol=5)
    except Exception as e:  # unpicklable value
        blob = pickle.dumps(("done", Outcome("exc", None, "Unpicklable", str(e))), protocol=5)
    # late send buffers that nobody has fetched yet
    late = {rid: r._snapshot() for rid, r in MPI._pending.items() if r._send is not None}
    try:
        conn.send_bytes(pickle.dumps(("late", late), protocol=5))
        conn.send_bytes(blob)
    except (BrokenPipeError, OSError):
        pass
    sys.stdout.flush()
    os._exit(0)


class Run:
    """One execution of N ranks."""

    def __init__(self, n, fn, args=(), sync=False, opts=None, timeout=300):
        self.n, self.fn, self.args = n, fn, args
        self.opts = opts or {}
        self.timeout = timeout
        self.engine = Engine(n, sync=sync, flush=self._flush)
        self.conns = [None] * n
        self.pids = [0] * n
        self.state = ["running"] * n  # running / blocked / done
        self.pending = [None] * n
        self.late = {}
        self.hist = [b""] * n
        self.fslog = b""
        self.res = RunResult()
        self.res.outcomes = [None] * n
        self.early_recv = not self.opts.get("late_recv", True)
        self.open_reqs = [set() for _ in range(n)]
        self.inbox = []

    def start(self):
        sys.stdout.flush()
        sys.stderr.flush()
        for r in range(self.n):
            a, b = connection.Pipe(duplex=True)
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    for c in self.conns[:r]:
                        c.close()
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    _child(r, self.n, b, self.fn, self.args, self.opts)
                finally:
                    os._exit(98)
            b.close()
            self.conns[r], self.pids[r] = a, pid

    def stop(self):
        for r in range(self.n):
            if self.pids[r]:
                if self.state[r] != "done":
                    try:
                        os.kill(self.pids[r], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                try:
                    os.waitpid(self.pids[r], 0)
                except ChildProcessError:
                    pass
                self.pids[r] = 0
            if self.conns[r] is not None:
                self.conns[r].close()
                self.conns[r] = None

    def _flush(self, rank, rid):
        if rid in self.late:
            return self.late[rid]
        try:
            self.conns[rank].send_bytes(pickle.dumps(("flush", rid), protocol=5))
            while True:
                msg = pickle.loads(self.conns[rank].recv_bytes())
                if msg[0] == "flushed":
                    self.late[msg[1]] = msg[2]
                    if msg[1] == rid:
                        return msg[2]
                elif msg[0] == "late":
                    # the rank is ending: its outcome is the next message
                    self.late.update(msg[1])
                    if rid in self.late:
                        return self.late[rid]
                else:
                    self.inbox.append((rank, msg))  # its next operation, dealt with when its turn comes
        except (EOFError, OSError):
            raise Mismatch(f"rank {rank} ended before its pending data was sent")

    def _reply(self, r, value):
        extra = []
        if self.early_recv:
            for rid in list(self.open_reqs[r]):
                if self.engine._req_ready(rid):
                    try:
                        extra.append((rid, self.engine.req_value(rid)[0]))
                    except Mismatch as e:
                        self.res.mismatch = str(e)
                        return
                    self.open_reqs[r].discard(rid)
        blob = pickle.dumps(("reply", value, extra), protocol=5)
        self.hist[r] = hashlib.blake2b(self.hist[r] + blob, digest_size=16).digest()
        self.pending[r] = None
        self.state[r] = "running"
        self.conns[r].send_bytes(blob)

    def quiesce(self):
        """Let every running rank reach its next blocking operation (or its end)."""
        deadline = time.time() + self.timeout
        while any(s == "running" for s in self.state):
            if self.inbox:
                todo, self.inbox = self.inbox, []
            else:
                live = [self.conns[r] for r in range(self.n) if self.state[r] == "running"]
                todo = connection.wait(live, timeout=max(0.0, deadline - time.time()))
            if not todo:
                self.res.timeout = self.timeout
                return False
            for c in todo:
                if isinstance(c, tuple):
                    r, msg = c
                else:
                    r = self.conns.index(c)
                    if any(x[0] == r for x in self.inbox):
                        continue  # already read while fetching late data
                    if not c.poll():
                        continue
                    try:
                        msg = pickle.loads(c.recv_bytes())
                    except (EOFError, ConnectionResetError):
                        self.state[r] = "done"
                        st = os.waitpid(self.pids[r], 0)[1]
                        self.pids[r] = 0
                        self.res.outcomes[r] = Outcome(
                            "exc", None, "ProcessDied", f"rank process ended with status {st}"
                        )
                        continue
                if self.state[r] != "running":
                    self.inbox.append((r, msg))
                    continue
                if msg[0] == "late":
                    self.late.update(msg[1])
                    continue
                if msg[0] == "done":
                    self.state[r] = "done"
                    self.res.outcomes[r] = msg[1]
                    continue
                op = msg[1]
                try:
                    p = self.engine.post(r, op)
                except Mismatch as e:
                    self.res.mismatch = str(e)
                    return False
                if op["t"] == "mpi_abort":
                    self.res.abort = op["code"]
                    return False
                if self.engine.immediate(p):
                    self.open_reqs[r].add(op["req"])
                    self._reply(r, self.engine.complete(p))
                    continue
                self.pending[r] = p
                self.state[r] = "blocked"
        return True

    def enabled(self):
        return [r for r in range(self.n) if self.state[r] == "blocked" and self.engine.ready(self.pending[r])]

    def fire(self, r):
        p = self.pending[r]
        self.res.trace.append((r, p.describe()))
        if p.op["t"] == "fs":
            self.fslog = hashlib.blake2b(
                self.fslog + pickle.dumps((r, p.op["kind"], p.op["desc"])), digest_size=16
            ).digest()
        try:
            v = self.engine.complete(p)
        except Mismatch as e:
            self.res.mismatch = str(e)
            return False
        if p.op["t"] == "wait":
            self.open_reqs[r].discard(p.op["req"])
        self._reply(r, v)
        return self.res.mismatch is None

    def key(self):
        parts = []
        for r in range(self.n):
            parts.append(self.hist[r])
            parts.append(b"D" if self.state[r] == "done" else self.pending[r].describe().encode())
        return hashlib.blake2b(b"|".join(parts) + self.fslog, digest_size=16).digest()

    def blocked_desc(self):
        return ", ".join(
            f"rank {r} in {self.pending[r].describe()}" for r in range(self.n) if self.state[r] == "blocked"
        )


def execute(n, fn, args=(), policy="all", sync=False, opts=None, timeout=300):
    """One execution under a fixed policy.

    policy: "all" (every enabled rank proceeds), "asc"/"desc" (one rank at a time, lowest/highest first),
    ("last", r): rank r only moves when nobody else can, ("first", r): rank r moves whenever it can,
    or a callable(enabled, decision number) -> rank.
    """
    run = Run(n, fn, args, sync=sync, opts=opts, timeout=timeout)
    k = 0
    try:
        run.start()
        while True:
            if not run.quiesce():
                break
            en = run.enabled()
            if not en:
                if any(s == "blocked" for s in run.state):
                    run.res.deadlock = run.blocked_desc()
                break
            if policy == "all":
                batch = en
            elif policy == "asc":
                batch = en[:1]
            elif policy == "desc":
                batch = en[-1:]
            elif isinstance(policy, tuple) and policy[0] == "last":
                rest = [r for r in en if r != policy[1]]
                batch = rest if rest else en
            elif isinstance(policy, tuple) and policy[0] == "first":
                batch = [policy[1]] if policy[1] in en else en
            else:
                batch = [policy(en, k)]
            k += 1
            run.res.states += 1
            good = True
            for r in batch:
                good = run.fire(r)
                if not good:
                    break
            if not good:
                break
    finally:
        run.stop()
    return run.res


class Exploration:
    def __init__(self):
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.terminals = 0
        self.truncated = False
        self.violations = []  # (description, RunResult)
        self.outcomes = {}


def explore(n, fn, args=(), check=None, sync=False, opts=None, timeout=120, max_executions=100000, signature=None,
            reset=None, stop_on_violation=True):
    """Depth-first exploration of every schedule of the N ranks (state-hash pruning: a global state that has been
    reached before, i.e. same local history in every rank and same order of file accesses, is not expanded again)."""
    ex = Exploration()
    seen = set()
    work = [[]]
    while work:
        prefix = work.pop()
        if ex.executions >= max_executions:
            ex.truncated = True
            break
        if reset is not None:
            reset()
        ex.executions += 1
        run = Run(n, fn, args, sync=sync, opts=opts, timeout=timeout)
        depth = 0
        try:
            run.start()
            while True:
                if not run.quiesce():
                    break
                en = run.enabled()
                if not en:
                    if any(s == "blocked" for s in run.state):
                        run.res.deadlock = run.blocked_desc()
                    break
                if depth < len(prefix):
                    c = prefix[depth]
                else:
                    k = run.key()
                    if k in seen:
                        run.res.pruned = True
                        break
                    seen.add(k)
                    ex.states += 1
                    c = 0
                    for alt in range(1, len(en)):
                        work.append(run.res.choices + [alt])
                run.res.choices.append(c)
                if depth >= len(prefix) - 1:
                    ex.transitions += 1
                depth += 1
                if not run.fire(en[c]):
                    break
        finally:
            run.stop()
        if run.res.pruned:
            continue
        ex.terminals += 1
        if signature is not None:
            s = signature(run.res)
            ex.outcomes[s] = ex.outcomes.get(s, 0) + 1
        msg = check(run.res) if check is not None else run.res.problem()
        if msg:
            ex.violations.append((msg, run.res))
            if stop_on_violation:
                break
    return ex


def replay(n, fn, args, choices, sync=False, opts=None, timeout=120):
    """Re-execute exactly one schedule."""
    run = Run(n, fn, args, sync=sync, opts=opts, timeout=timeout)
    depth = 0
    try:
        run.start()
        while True:
            if not run.quiesce():
                break
            en = run.enabled()
            if not en:
                if any(s == "blocked" for s in run.state):
                    run.res.deadlock = run.blocked_desc()
                break
            c = choices[depth] if depth < len(choices) else 0
            depth += 1
            if not run.fire(en[min(c, len(en) - 1)]):
                break
    finally:
        run.stop()
    return run.res
