"""C09: shared state is atomic; history checker over scheduled reads, writes and read-modify-writes."""
from __future__ import annotations

import copy
import json
import random
from pathlib import Path

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case lets 2-4 processes read, write and read-modify-write one shared item (a two-file resource, a trial, the error log, the optimizer "
        "state) under the scheduler; every value names its writer and the value it was based on, and the recorded history is checked "
        "offline: successful writes form one chain, reads return values of the chain within their real-time window, rejected writes "
        "leave no trace, sections never overlap; distinct_nontrivial counts distinct interleavings with at least one conflict or concurrent read")
ASSUMPTIONS = ["a worker's view of an item is what its state object last synchronised"]
MIN = {"quick": {"executions": 200, "reads": 1000, "writes_ok": 600, "writes_rejected": 60, "overlapping_ops": 500}}


def cases(tier, seed):
    rng = random.Random(f"c09-{seed}")
    for i, st in enumerate(mw.strategies(rng, 420 if tier == "quick" else 6000)):
        kind = ["pair", "trial", "errs", "opt", "all", "create"][i % 6]
        yield {"kind": kind, "w": rng.choice([2, 2, 3, 4]), "ops": rng.randint(3, 7), "seed": rng.randrange(1 << 30), "strategy": st}


class PairRW:
    """Two files that only make sense together."""

    def read(self, loc):
        a = json.loads((Path(loc) / "a.json").read_text())
        b = json.loads((Path(loc) / "b.json").read_text())
        return {"a": a, "b": b}

    def write(self, value, loc):
        (Path(loc) / "a.json").write_text(json.dumps(value["a"]))
        (Path(loc) / "b.json").write_text(json.dumps(value["b"]))


def synced_pair(d, create=None):
    from neps.state.filebased import FileLocker, FileVersioner
    from neps.state.protocols import Synced

    kw = dict(location=d, locker=FileLocker(lock_path=d / ".lock", poll=0.01, timeout=60), versioner=FileVersioner(version_file=d / ".version"), reader_writer=PairRW())
    if create is None:
        return Synced.load(**kw)
    return Synced.new_or_load(data=create, **kw)


INIT = {"id": "init", "parent": None}


class PairItem:
    """Uniform access to one shared item; values are dicts with id and parent."""

    def __init__(self, d):
        self.s = synced_pair(d)

    def read(self):
        v = self.s.synced()
        return self.dec(v)

    def dec(self, v):
        if v["a"] != v["b"]:
            return {"torn": [v["a"], v["b"]]}
        return v["a"]

    def enc(self, v, old):
        return {"a": v, "b": v}

    def put(self, v, mutate):
        if mutate:
            cur = self.s._unsynced()
            cur["a"] = v
            cur["b"] = v
            self.s.put(cur)
        else:
            self.s.put(self.enc(v, None))

    def rmw(self, fn):
        with self.s.acquire() as (cur, put):
            fn(self.dec(cur), lambda v: put(self.enc(v, cur)))


class TrialItem(PairItem):
    def __init__(self, d):
        from neps.state.filebased import load_filebased_neps_state

        self.st = load_filebased_neps_state(d)
        self.s = self.st._trials.get_by_id("1")

    def dec(self, t):
        m = t.metadata
        v = json.loads(m.sampling_worker_id)
        c = {"id": m.evaluating_worker_id, "parent": m.previous_trial_id}
        if v != c or (t.report is not None and t.report.extra.get("id") != v["id"]):
            return {"torn": [v, c, t.report and t.report.extra]}
        return v

    def enc(self, v, old):
        from neps.state.trial import Trial

        t = copy.deepcopy(old if old is not None else self.s._unsynced())
        t.metadata.sampling_worker_id = json.dumps(v)
        t.metadata.evaluating_worker_id = v["id"]
        t.metadata.previous_trial_id = v["parent"]
        t.state = Trial.State.EVALUATING
        t.report = Trial.Report(trial_id="1", loss=1.0, cost=None, learning_curve=None, extra={"id": v["id"]}, err=None, tb=None, reported_as="success", evaluation_duration=0.1)
        return t

    def read(self):
        return self.dec(self.st.get_trial_by_id("1"))

    def put(self, v, mutate):
        self.st.put_updated_trial(self.enc(v, None))


class AllItem(TrialItem):
    """A trial as the listing of all trials shows it."""

    def read(self):
        return self.dec(self.st.get_all_trials()["1"])


class ErrItem(PairItem):
    def __init__(self, d):
        from neps.state.filebased import load_filebased_neps_state

        self.st = load_filebased_neps_state(d)
        self.s = self.st._shared_errors

    def dec(self, e):
        ids = [x.trial_id for x in e.errs]
        for i, x in enumerate(e.errs):
            if x.worker_id != (ids[i - 1] if i else "init") or x.err != x.trial_id * 30:
                return {"torn": ids}
        return {"id": ids[-1] if ids else "init", "parent": (ids[-2] if len(ids) > 1 else "init") if ids else None}

    def enc(self, v, old):
        from neps.state.err_dump import ErrDump

        e = copy.deepcopy(old if old is not None else self.s._unsynced())
        e.append(ErrDump.SerializableTrialError(trial_id=v["id"], worker_id=v["parent"], err_type="E", err=v["id"] * 30, tb=None))
        return e

    def read(self):
        return self.dec(self.st.get_errors())

    def put(self, v, mutate):
        self.s.put(self.enc(v, None))


class OptItem(PairItem):
    def __init__(self, d):
        from neps.state.filebased import load_filebased_neps_state

        self.st = load_filebased_neps_state(d)
        self.s = self.st._optimizer_state

    def dec(self, o):
        v = o.shared_state.get("v") or INIT
        if o.shared_state.get("n", 0) != (o.budget.used_evaluations if o.budget else 0):
            return {"torn": [o.shared_state, o.budget]}
        return v

    def enc(self, v, old):
        o = copy.deepcopy(old if old is not None else self.s._unsynced())
        o.shared_state = {"v": v, "n": o.shared_state.get("n", 0) + 1, "pad": "x" * 200}
        o.budget.used_evaluations = o.shared_state["n"]
        return o

    def read(self):
        return self.dec(self.st.optimizer_state())

    def put(self, v, mutate):
        self.s.put(self.enc(v, None))


def worker(cls, d, i, nops, seed):
    def fn():
        from neps.exceptions import VersionMismatchError

        r = random.Random(seed * 7 + i)
        it = cls(d)
        n = 0
        sched.emit("inv", op="read")
        view = it.read()
        sched.emit("res", op="read", v=view)
        for _ in range(nops):
            op = r.choice(["read", "rmw", "put", "put", "rput"])
            if op == "read":
                sched.emit("inv", op="read")
                view = it.read()
                sched.emit("res", op="read", v=view)
            elif op == "rmw":
                n += 1
                vid = f"w{i}.{n}"
                keep = r.random() < 0.15

                def sec(cur, put):
                    nonlocal view
                    sched.emit("enter", v=cur)
                    sched.point("in-section")
                    view = cur
                    if keep:
                        sched.emit("exit", wrote=None)
                        return
                    v = {"id": vid, "parent": cur.get("id")}
                    sched.emit("writing", v=v)
                    put(v)
                    view = v
                    sched.emit("exit", wrote=v)

                sched.emit("inv", op="rmw", id=vid)
                it.rmw(sec)
                sched.emit("res", op="rmw", v=view, id=vid, ok=not keep)
            else:
                if op == "rput":
                    sched.emit("inv", op="read")
                    view = it.read()
                    sched.emit("res", op="read", v=view)
                    sched.point("think")
                n += 1
                v = {"id": f"w{i}.{n}", "parent": view.get("id")}
                sched.emit("inv", op="put", v=v, id=v["id"])
                try:
                    it.put(v, mutate=r.random() < 0.5)
                    sched.emit("res", op="put", v=v, id=v["id"], ok=True)
                    view = v
                except VersionMismatchError:
                    sched.emit("res", op="put", v=v, id=v["id"], ok=False)
                    sched.emit("inv", op="read")
                    view = it.read()
                    sched.emit("res", op="read", v=view)
        return "done"

    return fn


def creator(d, i):
    def fn():
        v = {"id": f"w{i}.0", "parent": "none"}
        sched.emit("inv", op="create")
        s = synced_pair(d, create={"a": v, "b": v})
        got = s.synced()
        sched.emit("res", op="create", v=got["a"] if got["a"] == got["b"] else {"torn": got})
        return "done"

    return fn


def run_case(case, d, res):
    kind = case["kind"]
    root = d / "root"
    root.mkdir()
    if kind == "create":
        return create_case(case, root, res)
    if kind == "pair":
        synced_pair(root, create={"a": INIT, "b": INIT})
    else:
        mw.make_pending(root, 1)
        if kind in ("trial", "all"):
            st, _ = mw.load_trials(root)
            t = st.get_trial_by_id("1")
            t.metadata.sampling_worker_id = json.dumps(INIT)
            t.metadata.evaluating_worker_id = "init"
            st.put_updated_trial(t)
    cls = {"pair": PairItem, "all": AllItem, "trial": TrialItem, "errs": ErrItem, "opt": OptItem}[kind]
    out = sched.run_workers([worker(cls, root, i, case["ops"], case["seed"]) for i in range(case["w"])], root, case["strategy"])
    mw.unexpected(out, res)
    res.count("executions")
    if out.stuck:
        return
    final = cls(root).read()
    judge(out, final, res)
    res.sigs.append(out.signature())
    res.sample = {"kind": kind, "workers": case["w"], "history": [(e["w"], e["kind"], e.get("op"), (e.get("v") or {}).get("id"), e.get("ok")) for e in out.events][:25]}


def judge(out, final, res):
    ev = out.events
    done = {}  # id -> (inv index, res index, parent) of successful writes
    failed = {}
    reads = []  # (inv, res, value)
    open_ = {}
    inside = None
    for k, e in enumerate(ev):
        v = e.get("v")
        if isinstance(v, dict) and "torn" in v:
            res.viol("torn-read", f"worker {e['w']} read an inconsistent value: {v}")
            return
        if e["kind"] == "inv":
            open_[e["w"]] = (k, e)
            if any(w != e["w"] for w in open_):
                res.count("overlapping_ops")
        elif e["kind"] == "enter":
            if inside is not None:
                res.viol("sections-overlap", f"worker {e['w']} entered its read-modify-write section while worker {inside} was in its own")
            inside = e["w"]
            reads.append((open_[e["w"]][0], k, v["id"], f"section of worker {e['w']}"))
        elif e["kind"] == "exit":
            inside = None
        elif e["kind"] == "res":
            inv, _ = open_.pop(e["w"])
            if e["op"] == "read":
                reads.append((inv, k, v["id"], f"read of worker {e['w']}"))
                res.count("reads")
            elif e["op"] == "put":
                (done if e["ok"] else failed)[e["id"]] = (inv, k, v["parent"])
            elif e["op"] == "rmw" and e["ok"]:
                done[e["id"]] = (inv, k, v["parent"])
    res.count("writes_ok", len(done))
    res.count("writes_rejected", len(failed))
    # one chain from init
    child = {}
    for i, (_, _, p) in done.items():
        if p in child:
            res.viol("lost-update", f"two successful writes {child[p]} and {i} are both based on {p}")
            return
        child[p] = i
    chain, cur = ["init"], "init"
    while cur in child:
        cur = child[cur]
        chain.append(cur)
    if len(chain) != len(done) + 1:
        res.viol("lost-update", f"successful writes {sorted(done)} do not form a chain: {chain}")
        return
    pos = {c: n for n, c in enumerate(chain)}
    if final.get("id") != chain[-1]:
        res.viol("final-value", f"final value {final} is not the last write {chain[-1]}")
    # real-time order of writes
    for a in range(1, len(chain)):
        for b in range(a + 1, len(chain)):
            if done[chain[b]][1] < done[chain[a]][0]:
                res.viol("write-order", f"write {chain[b]} finished before {chain[a]} began but comes later")
    for inv, r, vid, who in reads:
        if vid not in pos:
            res.viol("read-of-unwritten-value", f"{who} returned {vid}, which was rejected or never written")
            continue
        newest_before = max([pos[i] for i, (_, rr, _) in done.items() if rr < inv], default=0)
        if pos[vid] < newest_before:
            res.viol("stale-read", f"{who} returned {vid} although {chain[newest_before]} was written before it began")
        if vid in done and done[vid][0] > r:
            res.viol("read-from-future", f"{who} returned {vid} before it was written")
    for i, (inv, r, p) in failed.items():
        # rejected only if its view was outdated by then
        nxt = child.get(p)
        if p in pos and (nxt is None or done[nxt][0] > r):
            res.viol("spurious-rejection", f"write {i} based on {p} was rejected although {p} was still the latest value")


def create_case(case, root, res):
    out = sched.run_workers([creator(root / "res", i) for i in range(case["w"])], root, case["strategy"])
    mw.unexpected(out, res)
    res.count("executions")
    if out.stuck:
        return
    vals = {json.dumps(e["v"], sort_keys=True) for e in out.events if e["kind"] == "res"}
    if len(vals) != 1 or "torn" in next(iter(vals)):
        res.viol("created-twice", f"workers creating the same item at once see {vals}")
    res.sigs.append(out.signature())
