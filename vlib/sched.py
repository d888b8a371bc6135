"""Process-level cooperative scheduler on top of the LD_PRELOAD shim.

`run_workers(fns, root, strategy)` forks one process per function.  Below `root`
every file-system / lock / sleep call of a worker is a scheduling point; exactly
one worker moves at a time.  Faults (kill before/after/torn) are injected by
`plan`: a function (worker_index, step_of_worker, op, path) -> command byte.
"""
from __future__ import annotations

import ctypes
import hashlib
import json
import os
import random
import select
import signal
import socket
import sys
import traceback

M_READ, M_WRITE, M_LOCK, M_STAT, M_SLEEP = 1, 2, 4, 8, 16
M_DEFAULT = M_READ | M_WRITE | M_LOCK | M_SLEEP
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VSHIM"])
        _lib.vshim_point.argtypes = [ctypes.c_char_p]
        _lib.vshim_activate.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint]
    return _lib


def shim_loaded() -> bool:
    return "vshim" in os.environ.get("LD_PRELOAD", "") and "VSHIM" in os.environ


_EMIT_SOCK: socket.socket | None = None


def point(name: str) -> None:
    """A named scheduling point inside a worker (no-op outside the scheduler)."""
    lib().vshim_point(name.encode())


def emit(kind: str, **data) -> None:
    """Record an event in the controller's log (ordered with everything else)."""
    if _EMIT_SOCK is not None:
        _EMIT_SOCK.send(b"!" + json.dumps({"kind": kind, **data}, default=repr).encode())


class quiet:
    """Suspend scheduling points inside the block (harness's own file accesses)."""

    def __enter__(self):
        lib().vshim_pause()

    def __exit__(self, *a):
        lib().vshim_resume()


class Stuck(Exception):
    pass


class _W:
    def __init__(self, i, pid, sock):
        self.i, self.pid, self.sock = i, pid, sock
        self.pending = None  # (op, path)
        self.alive = True
        self.result = None
        self.killed = False
        self.steps = 0
        self.sleeping = False


class Strategy:
    """Chooses the next worker among the enabled ones."""

    def __init__(self, spec: dict):
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.kind = spec.get("kind", "random")
        self.prio: dict[int, float] = {}
        self.last = None
        self.n = self.seen = 0
        d = spec.get("depth", 3)
        length = spec.get("length", 600)
        self.changes = set(self.rng.randrange(length) for _ in range(d)) if self.kind == "pct" else set()

    def choose(self, enabled: list[_W]) -> _W:
        self.n += 1
        if len(enabled) == 1:
            w = enabled[0]
        elif self.kind == "random":
            w = self.rng.choice(enabled)
        elif self.kind == "sticky":
            same = [x for x in enabled if x.i == self.last]
            w = same[0] if same and self.rng.random() < self.spec.get("p", 0.9) else self.rng.choice(enabled)
        elif self.kind == "pct":
            for x in enabled:
                self.prio.setdefault(x.i, 1 + self.rng.random())
            if self.n in self.changes and self.last is not None:
                self.prio[self.last] = self.rng.random() * min(self.prio.values())
            w = max(enabled, key=lambda x: self.prio[x.i])
        elif self.kind == "lock":  # switch eagerly around lock operations and named points
            same = [x for x in enabled if x.i == self.last]
            hot = [x for x in enabled if x.pending and x.pending[0] in ("lock", "unlock", "point", "list", "mkdir")]
            if same and same[0] not in hot and self.rng.random() < 0.85:
                w = same[0]
            else:
                w = self.rng.choice(enabled)
        elif self.kind == "park":  # one worker is put aside a number of steps after it first comes to a place
            for x in enabled:
                if x.i == self.spec["worker"] and (self.seen or (x.pending and self.spec["match"] in x.pending[1])):
                    self.seen += x.i == self.last or not self.seen
            others = [x for x in enabled if x.i != self.spec["worker"] or self.seen <= self.spec["after"]]
            same = [x for x in others if x.i == self.last]
            w = same[0] if same and self.rng.random() < 0.9 else self.rng.choice(others or enabled)
        elif self.kind == "script":  # explicit worker order, then sticky
            order = self.spec["order"]
            w = None
            if self.n - 1 < len(order):
                m = [x for x in enabled if x.i == order[self.n - 1]]
                w = m[0] if m else None
            w = w or self.rng.choice(enabled)
        else:
            raise ValueError(self.kind)
        self.last = w.i
        return w


class Outcome:
    def __init__(self):
        self.trace: list[tuple[int, str, str]] = []
        self.events: list[dict] = []
        self.results: list[dict | None] = []
        self.killed: list[bool] = []
        self.switches = 0
        self.stuck = False

    def signature(self) -> str:
        h = hashlib.sha256()
        for w, op, p in self.trace:
            h.update(f"{w}{op}{p};".encode())
        return h.hexdigest()[:16]


def run_workers(fns, root, strategy: dict, *, plan=None, mask=M_DEFAULT, max_steps=60000, gate=None, env=None) -> Outcome:
    """fns: callables run in forked children; their JSON-able return value is the result.

    plan(i, step, op, path) -> one of "g","k","a","t","f".
    gate(enabled, outcome) -> subset of enabled workers that may move (optional).
    """
    root = os.path.realpath(str(root))
    out = Outcome()
    strat = Strategy(strategy)
    ws: list[_W] = []
    for i, fn in enumerate(fns):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for w in ws:
                    w.sock.close()
                global _EMIT_SOCK
                _EMIT_SOCK = b
                lib().vshim_activate(b.fileno(), root.encode(), mask)
                try:
                    point("start")
                    res = {"ok": True, "value": fn()}
                except BaseException as e:  # noqa: BLE001
                    res = {"ok": False, **describe_exc(e)}
                lib().vshim_pause()
                lib().vshim_deactivate()
                payload = json.dumps(res, default=repr).encode()
                if len(payload) > 150000:
                    payload = json.dumps({"ok": res["ok"], "toolong": True, **{k: v for k, v in res.items() if k != "value"}}, default=repr).encode()[:150000]
                b.send(b"=" + payload)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        b.close()
        ws.append(_W(i, pid, a))

    def pump(w: _W):
        """Read packets of w until it is waiting or gone."""
        while w.alive and w.pending is None:
            try:
                data = w.sock.recv(262144)
            except ConnectionResetError:
                data = b""
            if not data:
                w.alive = False
                break
            if data[:1] == b"!":
                ev = json.loads(data[1:])
                ev["w"] = w.i
                ev["t"] = len(out.trace)
                out.events.append(ev)
            elif data[:1] == b"=":
                w.result = json.loads(data[1:])
                w.alive = False
            else:
                op, _, path = data.decode(errors="replace").partition(" ")
                if path.startswith(root):
                    path = path[len(root):].lstrip("/") or "."
                w.pending = (op, path)

    try:
        for w in ws:
            pump(w)
        idle = 0
        last = None
        while any(w.alive for w in ws):
            alive = [w for w in ws if w.alive]
            enabled = [w for w in alive if not w.sleeping] or alive
            if gate is not None:
                g = gate(enabled, out) or []
                if not g:
                    g = gate(alive, out)
                    if not g:
                        out.stuck = True
                        break
                enabled = g
            w = strat.choose(enabled)
            if last is not None and last != w.i:
                out.switches += 1
            last = w.i
            op, path = w.pending
            cmd = plan(w.i, w.steps, op, path) if plan is not None else "g"
            w.steps += 1
            out.trace.append((w.i, op, path))
            if cmd in ("k", "a", "t"):
                w.killed = True
            w.pending = None
            w.sleeping = False
            try:
                w.sock.send(cmd.encode())
            except OSError:
                pass
            pump(w)
            if op in ("sleep", "blocked"):
                idle += 1
            elif op not in ("lock", "openap", "stat"):
                idle = 0
                for x in ws:
                    x.sleeping = False
            if w.alive and w.pending and w.pending[0] in ("sleep", "blocked"):
                w.sleeping = True
            if idle > 4000 or len(out.trace) > max_steps:
                out.stuck = True
                break
    finally:
        for w in ws:
            if w.alive:
                try:
                    os.kill(w.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            w.sock.close()
        for w in ws:
            try:
                os.waitpid(w.pid, 0)
            except ChildProcessError:
                pass
    out.results = [w.result for w in ws]
    out.killed = [w.killed for w in ws]
    return out


def describe_exc(e: BaseException) -> dict:
    tb = traceback.extract_tb(e.__traceback__)
    chain, seen, x = [], set(), e
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        fr = traceback.extract_tb(x.__traceback__)
        where = [f for f in fr if "/neps/" in f.filename]
        chain.append({
            "type": type(x).__name__,
            "msg": str(x)[:400],
            "where": f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else (f"{os.path.basename(fr[-1].filename)}:{fr[-1].name}" if fr else ""),
        })
        x = x.__cause__ or x.__context__
    inner = tb[-1].filename if tb else ""
    return {
        "exc": type(e).__name__,
        "msg": str(e)[:600],
        "chain": chain,
        "in_neps": any("/neps/" in f.filename and "/verif/" not in f.filename for f in tb),
        "inner": inner,
        "tb": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
    }
