"""C06: error policy and error log."""
from __future__ import annotations

import random

from vlib import mw, sched

LEVEL = "exploration"
RULE = ("a case is one scheduled execution of 1-4 real workers in which a generated subset of evaluations raises generated errors under "
        "one of the policies; distinct_nontrivial counts distinct interleavings with at least one failure")
ASSUMPTIONS = ["a failing worker's log entry is known to be written once that worker has stopped or started its next evaluation"]
MIN = {"quick": {"executions": 80, "failures": 100, "others_after_error": 15, "log_entries": 100}}


class WeirdError(Exception):
    pass


class OtherError(ValueError):
    pass


MSGS = ["plain", "", "two\nlines", "ünïcode → ✓", "quote \" and ' and \\", "{json: true}", "x" * 2000, "tab\t\x07 bell", "%s %d", "null", "12", "é\r\n", "\u2028sep", "\x85nel"]
TYPES = [WeirdError, OtherError, KeyError, ValueError, RuntimeError, ZeroDivisionError, MemoryError, AssertionError, OSError, StopIteration]


def cases(tier, seed):
    rng = random.Random(f"c06-{seed}")
    n = 260 if tier == "quick" else 3000
    for st in mw.strategies(rng, n):
        yield {"workers": rng.choice([1, 2, 2, 3, 3, 4]), "strategy": st, "seed": rng.randrange(1 << 20), "policy": rng.choice(["run"] * 4 + ["run-ignore"] * 4 + ["RAISE_WORKER_ERROR", "STOP_WORKER_ERROR", "STOP_ANY_ERROR", "RAISE_ANY_ERROR", "IGNORE"]),
               "frac": rng.choice([0.2, 0.5, 0.9]), "total": rng.choice([2, 4, 6]), "loss_err": rng.choice([None, 7.5, 0.0]), "cost_err": rng.choice([None, 0.5, 0.0]), "again": rng.random() < 0.4}


def errgen(seed):
    def f(tid):
        r = random.Random(f"{seed}-{tid}")
        return r.choice(TYPES), r.choice(MSGS) + (f" {tid}" if r.random() < 0.5 else "")
    return f


def run_case(case, d, res):
    root = d / "root"
    W, pol = case["workers"], case["policy"]
    ek = {"fail_frac": case["frac"], "errtype": errgen(case["seed"]), "extra_points": 1}
    if pol.startswith("run"):
        mk = lambda i: mw.neps_worker(root, seed=case["seed"], max_evaluations_total=case["total"], ignore_errors=pol == "run-ignore", loss_value_on_error=case["loss_err"],
                                      cost_value_on_error=case["cost_err"], evalkw=ek)
    else:
        mw.init_root(root, seed=case["seed"])
        mk = lambda i: mw.settings_worker(root, evalkw=ek, on_error=pol, max_evaluations_total=case["total"], worker_id=f"worker-{i}",
                                          defaults={"loss_value_on_error": case["loss_err"], "cost_value_on_error": case["cost_err"]})
    out = sched.run_workers([mk(i) for i in range(W)], root, case["strategy"])
    judge(case, out, res, first=True)
    if out.stuck:
        return
    outs = [out]
    if case["again"]:
        o2 = sched.run_workers([mk(9)], root, case["strategy"])
        had = any(e["kind"] == "fail" for e in out.events)
        if pol in ("run", "RAISE_ANY_ERROR", "STOP_ANY_ERROR") and had:
            res.count("others_after_error")
            if any(e["kind"] == "start" for e in o2.events):
                res.viol("evaluated-after-error", "a later worker evaluated although an error is recorded")
            ok = o2.results[0]["ok"]
            if ok != (pol == "STOP_ANY_ERROR"):
                res.viol("later-worker-outcome", f"later worker with policy {pol} after an error: {o2.results[0]}")
        else:
            judge(case, o2, res, first=False)
        outs.append(o2)
    check_log(case, outs, root, res)
    res.count("executions")
    fails = [e for e in out.events if e["kind"] == "fail"]
    res.count("failures", len(fails))
    if fails:
        res.sigs.append(out.signature() + pol)
    res.sample = {"case": case, "events": [(e["w"], e["kind"], e.get("etype"), str(e.get("msg"))[:20]) for e in out.events][:30]}


def judge(case, out, res, *, first):
    W, pol = case["workers"] if first else 1, case["policy"]
    any_pol = pol in ("run", "RAISE_ANY_ERROR", "STOP_ANY_ERROR")
    raises = pol in ("run", "RAISE_ANY_ERROR", "RAISE_WORKER_ERROR")
    ignore = pol in ("run-ignore", "IGNORE")
    if out.stuck:
        mw.unexpected(out, res)
        return
    failed_at = {}  # worker -> (t index of its fail, msg, type)
    logged = None  # position from which an error is certainly in the log
    last_act = {}
    for n, e in enumerate(out.events):
        w, k = e["w"], e["kind"]
        if k in ("start", "stop"):
            if w in failed_at and logged is None:
                logged = n
        if k == "start":
            if w in failed_at and not ignore:
                res.viol("continued-after-own-error", f"worker {w} started {e['id']} after its evaluation failed (policy {pol})")
            if any_pol and logged is not None and last_act.get(w, 10**9) > logged:
                res.viol("evaluated-after-error", f"worker {w} started {e['id']} although an error was logged before its last activity (policy {pol})")
        if k == "stop" and any_pol and w not in failed_at and logged is not None and last_act.get(w, -1) > logged:
            res.count("others_after_error")
            if e["ok"] != (pol == "STOP_ANY_ERROR"):
                res.viol("other-worker-outcome", f"worker {w} stopped ok={e['ok']} although an error of another worker was logged before (policy {pol})")
        if k == "fail":
            failed_at[w] = e
        if k in ("begin", "end", "fail"):
            last_act[w] = n
    for w, r in enumerate(out.results):
        if r is None:
            res.inconclusive = f"worker {w} vanished"
            continue
        mine = failed_at.get(w)
        if mine and raises:
            if r["ok"]:
                res.viol("error-not-raised", f"worker {w} failed evaluating {mine['id']} but returned normally (policy {pol})")
            elif r["exc"] != "WorkerRaiseError" or not any(c["type"] == mine["etype"] for c in r["chain"][1:]):
                res.viol("wrong-error", f"worker {w} raised {r['exc']}, chain {[c['type'] for c in r['chain']]}, expected one caused by {mine['etype']}", tb=r["tb"])
        elif mine and pol in ("STOP_WORKER_ERROR", "STOP_ANY_ERROR"):
            if not r["ok"]:
                res.viol("error-raised", f"worker {w} raised {r['exc']} although set to stop", tb=r["tb"])
        elif not mine and not r["ok"]:
            if not (any_pol and raises and r["exc"] == "WorkerRaiseError" and failed_at):
                res.viol("worker-failed:" + r["exc"], f"worker {w} did not fail an evaluation but raised {r['exc']}: {r['msg'][:200]} (policy {pol})", tb=r["tb"])
        elif ignore and not r["ok"]:
            res.viol("worker-failed:" + r["exc"], f"worker {w} raised {r['exc']}: {r['msg'][:200]} with errors ignored", tb=r["tb"])
    if ignore:
        n = sum(e["kind"] == "start" for e in out.events)
        if first and not case["total"] <= n <= case["total"] + W - 1:
            res.viol("failed-not-counted", f"{n} evaluations for limit {case['total']} with {W} workers and errors ignored")
        if not first and n != 0:
            res.viol("failed-not-counted", f"{n} further evaluations although {case['total']} were recorded")
    if pol in ("RAISE_WORKER_ERROR", "STOP_WORKER_ERROR") and first and len(failed_at) < W:
        n = sum(e["kind"] == "start" for e in out.events)
        if n < case["total"]:
            res.viol("healthy-worker-stopped", f"only {n} of {case['total']} evaluations although {W - len(failed_at)} workers had no error")


def check_log(case, outs, root, res):
    st, trials = mw.load_trials(root)
    fails = [e for o in outs for e in o.events if e["kind"] == "fail"]
    ends = [e for o in outs for e in o.events if e["kind"] == "end"]
    log = st.get_errors().errs
    res.count("log_entries", len(log))
    by = {}
    for x in log:
        by.setdefault(x.trial_id, []).append(x)
    for e in fails:
        t = trials.get(e["id"])
        if t is None or t.state.value != "crashed" or t.report is None or t.report.reported_as != "crashed":
            res.viol("crash-not-recorded", f"trial {e['id']} failed but is {t and t.state}")
            continue
        if t.report.loss != case["loss_err"] or t.report.cost != case["cost_err"]:
            res.viol("error-loss-cost", f"crashed trial {e['id']} recorded loss {t.report.loss} cost {t.report.cost}, configured {case['loss_err']} / {case['cost_err']}")
        want = str(_exc(e))
        if t.report.err is None or str(t.report.err) != want:
            res.viol("error-message", f"trial {e['id']} error {want!r} recorded as {t.report.err!r}")
        xs = by.get(e["id"], [])
        if len(xs) != 1:
            res.viol("log-entries", f"{len(xs)} log entries for the failed trial {e['id']} (log has {len(log)} for {len(fails)} failures)")
            continue
        x = xs[0]
        if x.err_type != e["etype"] or x.err != want or x.worker_id != t.metadata.evaluating_worker_id or not x.tb or e["etype"] not in x.tb or "evaluate" not in x.tb:
            res.viol("log-content", f"log entry {x} for error {e} of worker {t.metadata.evaluating_worker_id}")
    if len(log) != len(fails):
        res.viol("log-entries", f"log has {len(log)} entries for {len(fails)} failures")
    for e in ends:
        t = trials[e["id"]]
        if t.state.value != "success" or t.report is None or t.report.err is not None:
            res.viol("success-not-recorded", f"trial {e['id']} succeeded but is {t.state}")


def _exc(e):
    for t in TYPES + [mw.UserErr]:
        if t.__name__ == e["etype"]:
            return t(e["msg"])
    return Exception(e["msg"])
